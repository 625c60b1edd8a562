import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

/** Overrides of Univ.tla (defining equations: UnivDef.tla). */
public final class Univ {
  private static int i(Value v) { return VtKernel.i(v); }
  public static Value UAdd(Value p, Value f, Value g) {
    int q = i(p);
    return VtKernel.univ(q, VtKernel.uadd(q, VtKernel.uni(q, f), VtKernel.uni(q, g)));
  }
  public static Value UScale(Value p, Value c, Value f) {
    int q = i(p);
    Object[] a = VtKernel.uni(q, f);
    Object k = VtKernel.coef(q, c);
    Object[] r = new Object[a.length];
    for (int j = 0; j < r.length; j++) r[j] = VtKernel.mul(q, k, a[j]);
    return VtKernel.univ(q, VtKernel.trim(q, r));
  }
  public static Value UMul(Value p, Value f, Value g) {
    int q = i(p);
    return VtKernel.univ(q, VtKernel.umul(q, VtKernel.uni(q, f), VtKernel.uni(q, g)));
  }
  public static Value UDivMod(Value p, Value f, Value g) {
    int q = i(p);
    Object[][] r = VtKernel.udivmod(q, VtKernel.uni(q, f), VtKernel.uni(q, g));
    return new TupleValue(new Value[]{VtKernel.univ(q, r[0]), VtKernel.univ(q, r[1])});
  }
  public static Value URem(Value p, Value f, Value g) {
    int q = i(p);
    return VtKernel.univ(q, VtKernel.udivmod(q, VtKernel.uni(q, f), VtKernel.uni(q, g))[1]);
  }
  public static Value UGcd(Value p, Value f, Value g) {
    int q = i(p);
    Object[] a = VtKernel.uni(q, f), b = VtKernel.uni(q, g);
    while (b.length > 0) {
      Object[] r = VtKernel.udivmod(q, a, b)[1];
      a = b; b = monic(q, r);
    }
    return VtKernel.univ(q, monic(q, a));
  }
  private static Object[] monic(int q, Object[] a) {
    if (a.length == 0) return a;
    Object v = VtKernel.inv(q, a[a.length - 1]);
    Object[] r = new Object[a.length];
    for (int j = 0; j < r.length; j++) r[j] = VtKernel.mul(q, v, a[j]);
    return r;
  }
  public static Value UEval(Value p, Value f, Value x) {
    int q = i(p);
    return VtKernel.coefv(q, VtKernel.ueval(q, VtKernel.uni(q, f), VtKernel.coef(q, x)));
  }

  private static BigInteger[] ints(VtKernel.Rat[] f) {      // positive integer multiple, primitive
    BigInteger l = BigInteger.ONE;
    for (VtKernel.Rat r : f) l = l.multiply(r.d.divide(l.gcd(r.d)));
    BigInteger[] a = new BigInteger[f.length];
    for (int k = 0; k < a.length; k++) a[k] = f[k].n.multiply(l.divide(f[k].d));
    return prim(a);
  }
  private static BigInteger[] prim(BigInteger[] a) {
    int n = a.length;
    while (n > 0 && a[n - 1].signum() == 0) n--;
    BigInteger g = BigInteger.ZERO;
    for (int k = 0; k < n; k++) g = g.gcd(a[k]);
    BigInteger[] r = new BigInteger[n];
    for (int k = 0; k < n; k++) r[k] = a[k].divide(g);
    return r;
  }
  private static BigInteger[] negPrem(BigInteger[] f, BigInteger[] g) { // positive multiple of -(f rem g)
    BigInteger[] r = f.clone();
    int dg = g.length - 1;
    BigInteger lg = g[dg], al = lg.abs();
    for (int k = r.length - 1; k >= dg; k--) {
      if (r[k].signum() == 0) continue;
      BigInteger c = lg.signum() > 0 ? r[k] : r[k].negate();
      for (int j = 0; j < k; j++) r[j] = r[j].multiply(al);
      for (int j = 0; j < dg; j++) r[k - dg + j] = r[k - dg + j].subtract(c.multiply(g[j]));
      r[k] = BigInteger.ZERO;
    }
    for (int k = 0; k < r.length; k++) r[k] = r[k].negate();
    return prim(Arrays.copyOf(r, Math.min(dg, r.length)));
  }
  private static Value tame(BigInteger[] a) {
    Value[] r = new Value[a.length];
    for (int k = 0; k < r.length; k++) r[k] = VtKernel.ratv(VtKernel.Rat.raw(a[k], BigInteger.ONE));
    return new TupleValue(r);
  }
  public static Value UTame(Value f) { return tame(ints(rats(f))); }
  private static VtKernel.Rat[] rats(Value f) {
    Value[] e = VtKernel.elems(f);
    VtKernel.Rat[] r = new VtKernel.Rat[e.length];
    for (int k = 0; k < r.length; k++) r[k] = VtKernel.rat(e[k]);
    return r;
  }
  public static Value SturmSeq(Value fv, Value gv) {
    BigInteger[] f = ints(rats(fv)), g = ints(rats(gv));
    BigInteger[] h = new BigInteger[0];
    if (f.length > 1 && g.length > 0) {
      h = new BigInteger[f.length - 1 + g.length - 1];
      Arrays.fill(h, BigInteger.ZERO);
      for (int a = 1; a < f.length; a++)
        for (int b = 0; b < g.length; b++)
          h[a - 1 + b] = h[a - 1 + b].add(f[a].multiply(BigInteger.valueOf(a)).multiply(g[b]));
      h = prim(h);
      if (h.length >= f.length) {
        h = negPrem(h, f);
        for (int k = 0; k < h.length; k++) h[k] = h[k].negate();
      }
    }
    ArrayList<Value> out = new ArrayList<>();
    out.add(tame(f));
    while (h.length > 0) {
      out.add(tame(h));
      BigInteger[] r = negPrem(f, h);
      f = h; h = r;
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  private static final ThreadLocal<Object[]> LAST = new ThreadLocal<>();   // the sequence read last
  public static Value VarAt(Value S, Value x) {
    VtKernel.Rat q = VtKernel.rat(x);
    Object[] c = LAST.get();
    if (c == null || c[0] != S) {
      Value[] e = VtKernel.elems(S);
      BigInteger[][] a = new BigInteger[e.length][];
      for (int k = 0; k < a.length; k++) a[k] = ints(rats(e[k]));
      c = new Object[]{S, a};
      LAST.set(c);
    }
    int last = 0, v = 0;
    for (BigInteger[] a : (BigInteger[][]) c[1]) {
      int s = evalAt(a, q.n, q.d).signum();
      if (s != 0) { if (last != 0 && s != last) v++; last = s; }
    }
    return VtKernel.iv(v);
  }
  public static Value Now(Value v) { v.deepNormalize(); return v instanceof FcnLambdaValue ? (v.toTuple() != null ? v.toTuple() : v) : v; }

  // sign of the integer polynomial a at n / 2^k
  private static BigInteger evalDyadic(BigInteger[] a, BigInteger n, int k) {
    BigInteger r = BigInteger.ZERO;
    int d = a.length - 1;
    for (int j = d; j >= 0; j--) r = r.multiply(n).add(a[j].shiftLeft(k * (d - j)));
    return r;
  }
  // interval Horner on [x, y] / 2^k: sign, or 2 if undecided
  private static int signOn(BigInteger[] a, BigInteger x, BigInteger y, int k) {
    int d = a.length - 1;
    BigInteger lo = BigInteger.ZERO, hi = BigInteger.ZERO;
    for (int j = d; j >= 0; j--) {
      BigInteger p = lo.multiply(x), q = lo.multiply(y), r = hi.multiply(x), s = hi.multiply(y);
      BigInteger c = a[j].shiftLeft(k * (d - j));
      lo = p.min(q).min(r).min(s).add(c);
      hi = p.max(q).max(r).max(s).add(c);
    }
    return lo.signum() > 0 ? 1 : hi.signum() < 0 ? -1 : 2;
  }
  public static Value SignAtRoot(Value fv, Value av, Value bv, Value gv) {
    Value[] ge = VtKernel.elems(gv);
    if (ge.length == 0) return VtKernel.iv(0);
    VtKernel.Rat a = VtKernel.rat(av), b = VtKernel.rat(bv);
    boolean same = a.n.equals(b.n) && a.d.equals(b.d);
    if (!same) {
      BigInteger[] f = ints(rats(fv)), g = ints(rats(gv));
      // bisect dyadic points inside (a, b)
      int k = 8 + Math.max(a.d.bitLength(), b.d.bitLength()) + 8;
      BigInteger x = a.n.shiftLeft(k).divide(a.d), y = b.n.shiftLeft(k).divide(b.d);
      // x, y within one unit of a, b; step inside
      x = x.add(BigInteger.ONE); y = y.subtract(BigInteger.ONE);
      int sx = x.compareTo(y) < 0 ? evalDyadic(f, x, k).signum() : 0;
      int sy = x.compareTo(y) < 0 ? evalDyadic(f, y, k).signum() : 0;
      if (sx * sy < 0) {          // the root is in (x, y)
        int r0 = signOn(g, x, y, k);
        if (r0 != 2) return VtKernel.iv(r0);
        for (int it = 0; it < 700; it++) {
          BigInteger m = x.add(y); x = x.shiftLeft(1); y = y.shiftLeft(1); k++;
          int sm = evalDyadic(f, m, k).signum();
          if (sm == 0) return VtKernel.iv(evalDyadic(g, m, k).signum());
          if (sm == sx) x = m; else y = m;
          if ((it & 15) == 15 || it < 16) {
            int r = signOn(g, x, y, k);
            if (r != 2) return VtKernel.iv(r);
          }
        }
      }
      Value S = SturmSeq(fv, gv);
      return VtKernel.iv(VtKernel.i(VarAt(S, av)) - VtKernel.i(VarAt(S, bv)));
    }
    return VtKernel.iv(((VtKernel.Rat) VtKernel.ueval(0, VtKernel.uni(0, gv), a)).n.signum());
  }

  public static Value Refine(Value fv, Value av, Value bv, Value kv) {
    BigInteger[] f = ints(rats(fv));
    VtKernel.Rat a = VtKernel.rat(av), b = VtKernel.rat(bv);
    BigInteger d = a.d.multiply(b.d.divide(a.d.gcd(b.d)));
    BigInteger x = a.n.multiply(d.divide(a.d)), y = b.n.multiply(d.divide(b.d));
    int sa = evalAt(f, x, d).signum();
    for (int it = VtKernel.i(kv); it > 0 && !x.equals(y); it--) {
      BigInteger m = x.add(y);
      d = d.shiftLeft(1); x = x.shiftLeft(1); y = y.shiftLeft(1);
      int s = evalAt(f, m, d).signum();
      if (s == 0) { x = m; y = m; }
      else if (s == sa) x = m;
      else y = m;
    }
    return new TupleValue(new Value[]{VtKernel.ratv(new VtKernel.Rat(x, d)), VtKernel.ratv(new VtKernel.Rat(y, d))});
  }
  private static BigInteger evalAt(BigInteger[] f, BigInteger n, BigInteger d) {
    BigInteger r = BigInteger.ZERO, w = BigInteger.ONE;
    for (int k = f.length - 1; k >= 0; k--) { r = r.multiply(n).add(f[k].multiply(w)); w = w.multiply(d); }
    return r;
  }
}
