import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

/** Exact arithmetic behind the overrides of Num.tla, Poly.tla and Univ.tla. */
final class VtKernel {
  private VtKernel() {}
  static final BigInteger BASE = BigInteger.valueOf(10000);

  static final class Rat {
    final BigInteger n, d;
    Rat(BigInteger n, BigInteger d) {
      if (n.signum() == 0) { this.n = BigInteger.ZERO; this.d = BigInteger.ONE; return; }
      BigInteger g = n.gcd(d);
      if (d.signum() < 0) g = g.negate();
      if (g.equals(BigInteger.ONE)) { this.n = n; this.d = d; }
      else { this.n = n.divide(g); this.d = d.divide(g); }
    }
    private Rat(BigInteger n, BigInteger d, boolean raw) { this.n = n; this.d = d; }
    static Rat raw(BigInteger n, BigInteger d) { return new Rat(n, d, true); }
    Rat neg() { return raw(n.negate(), d); }
  }
  static final Rat ZERO = Rat.raw(BigInteger.ZERO, BigInteger.ONE);
  static final Rat ONE = Rat.raw(BigInteger.ONE, BigInteger.ONE);

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value iv(int x) { return IntValue.gen(x); }

  static BigInteger big(Value v) {
    Value[] e = elems(v);
    int s = i(e[0]);
    if (s == 0) return BigInteger.ZERO;
    BigInteger r;
    if (e.length <= 5) {
      long x = 0;
      for (int k = e.length - 1; k >= 1; k--) x = x * 10000 + i(e[k]);
      r = BigInteger.valueOf(x);
    } else {
      StringBuilder sb = new StringBuilder();
      for (int k = e.length - 1; k >= 1; k--) {
        int d = i(e[k]);
        if (d < 1000) sb.append('0');
        if (d < 100) sb.append('0');
        if (d < 10) sb.append('0');
        sb.append(d);
      }
      r = new BigInteger(sb.toString());
    }
    return s < 0 ? r.negate() : r;
  }
  static Value bigv(BigInteger b) {
    int s = b.signum();
    if (s == 0) return new TupleValue(new Value[]{iv(0)});
    BigInteger a = b.abs();
    if (a.bitLength() < 31) {
      int x = a.intValue();
      int n = x < 10000 ? 1 : x < 100000000 ? 2 : 3;
      Value[] r = new Value[n + 1];
      r[0] = iv(s);
      for (int k = 1; k <= n; k++) { r[k] = iv(x % 10000); x /= 10000; }
      return new TupleValue(r);
    }
    String t = a.toString();
    int n = (t.length() + 3) / 4;
    Value[] r = new Value[n + 1];
    r[0] = iv(s);
    int end = t.length();
    for (int k = 1; k <= n; k++) {
      int st = Math.max(0, end - 4);
      r[k] = iv(Integer.parseInt(t.substring(st, end)));
      end = st;
    }
    return new TupleValue(r);
  }
  static Rat rat(Value v) {
    Value[] e = elems(v);
    return Rat.raw(big(e[0]), big(e[1]));
  }
  static Value ratv(Rat r) { return new TupleValue(new Value[]{bigv(r.n), bigv(r.d)}); }

  // ---- field of characteristic p (0: rationals)
  static Object coef(int p, Value v) { return p == 0 ? (Object) rat(v) : (Object) Long.valueOf(i(v)); }
  static Value coefv(int p, Object c) { return p == 0 ? ratv((Rat) c) : iv((int) (long) (Long) c); }
  static boolean isZero(int p, Object c) { return p == 0 ? ((Rat) c).n.signum() == 0 : ((Long) c) == 0L; }
  static Object add(int p, Object a, Object b) {
    if (p == 0) {
      Rat x = (Rat) a, y = (Rat) b;
      if (x.d.equals(y.d)) {
        if (x.d.equals(BigInteger.ONE)) return Rat.raw(x.n.add(y.n), BigInteger.ONE);
        return new Rat(x.n.add(y.n), x.d);
      }
      return new Rat(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    long s = (Long) a + (Long) b;
    return s >= p ? s - p : s;
  }
  static Object mul(int p, Object a, Object b) {
    if (p == 0) {
      Rat x = (Rat) a, y = (Rat) b;
      if (x.d.equals(BigInteger.ONE) && y.d.equals(BigInteger.ONE)) return Rat.raw(x.n.multiply(y.n), BigInteger.ONE);
      return new Rat(x.n.multiply(y.n), x.d.multiply(y.d));
    }
    return ((Long) a * (Long) b) % p;
  }
  static Object neg(int p, Object a) {
    if (p == 0) return ((Rat) a).neg();
    long x = (Long) a;
    return x == 0 ? Long.valueOf(0) : Long.valueOf(p - x);
  }
  static long powmod(long a, long k, long p) {
    long r = 1 % p; a %= p;
    while (k > 0) { if ((k & 1) == 1) r = r * a % p; a = a * a % p; k >>= 1; }
    return r;
  }
  static Object inv(int p, Object a) {
    if (p == 0) { Rat x = (Rat) a; return x.n.signum() < 0 ? Rat.raw(x.d.negate(), x.n.negate()) : Rat.raw(x.d, x.n); }
    return powmod((Long) a, p - 2, p);
  }
  static Object one(int p) { return p == 0 ? (Object) ONE : Long.valueOf(1 % p); }
  static Object zero(int p) { return p == 0 ? (Object) ZERO : Long.valueOf(0); }

  // ---- monomials
  static int[] mono(Value v) {
    Value[] e = elems(v);
    int[] r = new int[e.length];
    for (int k = 0; k < r.length; k++) r[k] = i(e[k]);
    return r;
  }
  static Value monov(int[] m) {
    Value[] r = new Value[m.length];
    for (int k = 0; k < m.length; k++) r[k] = iv(m[k]);
    return new TupleValue(r);
  }
  static int drl(int[] a, int[] b, int lo, int hi) {
    int da = 0, db = 0;
    for (int k = lo; k < hi; k++) { da += a[k]; db += b[k]; }
    if (da != db) return da < db ? -1 : 1;
    for (int k = hi - 1; k >= lo; k--) if (a[k] != b[k]) return a[k] > b[k] ? -1 : 1;
    return 0;
  }
  static int cmp(int e, int[] a, int[] b) {
    if (e < 0) { for (int k = 0; k < a.length; k++) if (a[k] != b[k]) return a[k] < b[k] ? -1 : 1; return 0; }
    if (e == 0) return drl(a, b, 0, a.length);
    int c = drl(a, b, 0, e);
    return c != 0 ? c : drl(a, b, e, a.length);
  }

  static final class Pol {
    final Object[] c; final int[][] m;
    Pol(Object[] c, int[][] m) { this.c = c; this.m = m; }
  }
  static Pol pol(int p, Value v) {
    Value[] e = elems(v);
    Object[] c = new Object[e.length]; int[][] m = new int[e.length][];
    for (int k = 0; k < e.length; k++) {
      Value[] t = elems(e[k]);
      c[k] = coef(p, t[0]); m[k] = mono(t[1]);
    }
    return new Pol(c, m);
  }
  static Value polv(int p, Pol f) {
    Value[] r = new Value[f.c.length];
    for (int k = 0; k < r.length; k++) r[k] = new TupleValue(new Value[]{coefv(p, f.c[k]), monov(f.m[k])});
    return new TupleValue(r);
  }
  static Pol padd(int e, int p, Pol f, Pol g) {
    ArrayList<Object> c = new ArrayList<>(); ArrayList<int[]> m = new ArrayList<>();
    int i = 0, j = 0;
    while (i < f.c.length || j < g.c.length) {
      int k = i >= f.c.length ? -1 : j >= g.c.length ? 1 : cmp(e, f.m[i], g.m[j]);
      if (k > 0) { c.add(f.c[i]); m.add(f.m[i]); i++; }
      else if (k < 0) { c.add(g.c[j]); m.add(g.m[j]); j++; }
      else {
        Object s = add(p, f.c[i], g.c[j]);
        if (!isZero(p, s)) { c.add(s); m.add(f.m[i]); }
        i++; j++;
      }
    }
    return new Pol(c.toArray(), m.toArray(new int[0][]));
  }
  static Pol termMul(int p, Object c, int[] mm, Pol f) {
    Object[] cc = new Object[f.c.length]; int[][] m = new int[f.c.length][];
    for (int k = 0; k < cc.length; k++) {
      cc[k] = mul(p, c, f.c[k]);
      int[] t = new int[mm.length];
      for (int l = 0; l < t.length; l++) t[l] = mm[l] + f.m[k][l];
      m[k] = t;
    }
    return new Pol(cc, m);
  }
  static TreeMap<int[], Object> acc(final int e) {
    return new TreeMap<>((a, b) -> cmp(e, b, a));
  }
  static void into(TreeMap<int[], Object> t, int p, Object c, int[] m) {
    Object o = t.get(m);
    if (o == null) { if (!isZero(p, c)) t.put(m, c); return; }
    Object s = add(p, o, c);
    if (isZero(p, s)) t.remove(m); else t.put(m, s);
  }
  static Pol fromMap(TreeMap<int[], Object> t) {
    Object[] c = new Object[t.size()]; int[][] m = new int[t.size()][];
    int k = 0;
    for (Map.Entry<int[], Object> x : t.entrySet()) { m[k] = x.getKey(); c[k] = x.getValue(); k++; }
    return new Pol(c, m);
  }
  static boolean divides(int[] a, int[] b) {
    for (int k = 0; k < a.length; k++) if (a[k] > b[k]) return false;
    return true;
  }
  static Pol nf(int e, int p, Pol f, Pol[] G) {
    TreeMap<int[], Object> t = acc(e);
    for (int k = 0; k < f.c.length; k++) into(t, p, f.c[k], f.m[k]);
    ArrayList<Object> rc = new ArrayList<>(); ArrayList<int[]> rm = new ArrayList<>();
    while (!t.isEmpty()) {
      Map.Entry<int[], Object> h = t.firstEntry();
      int[] m = h.getKey(); Object c = h.getValue();
      Pol g = null;
      for (Pol x : G) if (divides(x.m[0], m)) { g = x; break; }
      if (g == null) { rc.add(c); rm.add(m); t.remove(m); continue; }
      Object q = neg(p, mul(p, c, inv(p, g.c[0])));
      for (int k = 0; k < g.c.length; k++) {
        int[] mm = new int[m.length];
        for (int l = 0; l < mm.length; l++) mm[l] = m[l] - g.m[0][l] + g.m[k][l];
        into(t, p, mul(p, q, g.c[k]), mm);
      }
    }
    return new Pol(rc.toArray(), rm.toArray(new int[0][]));
  }
  static Pol scale(int p, Object c, Pol f) {
    Object[] cc = new Object[f.c.length];
    for (int k = 0; k < cc.length; k++) cc[k] = mul(p, c, f.c[k]);
    return new Pol(cc, f.m);
  }
  static Pol[] pols(int p, Value v) {
    Value[] e = elems(v);
    Pol[] r = new Pol[e.length];
    for (int k = 0; k < r.length; k++) r[k] = pol(p, e[k]);
    return r;
  }

  // ---- univariate polynomials: coefficient sequences, constant term first, no trailing zero
  static Object[] uni(int p, Value v) {
    Value[] e = elems(v);
    Object[] r = new Object[e.length];
    for (int k = 0; k < r.length; k++) r[k] = coef(p, e[k]);
    return r;
  }
  static Value univ(int p, Object[] f) {
    Value[] r = new Value[f.length];
    for (int k = 0; k < r.length; k++) r[k] = coefv(p, f[k]);
    return new TupleValue(r);
  }
  static Object[] trim(int p, Object[] f) {
    int n = f.length;
    while (n > 0 && isZero(p, f[n - 1])) n--;
    return n == f.length ? f : Arrays.copyOf(f, n);
  }
  static Object[] uadd(int p, Object[] f, Object[] g) {
    Object[] r = new Object[Math.max(f.length, g.length)];
    for (int k = 0; k < r.length; k++)
      r[k] = k >= f.length ? g[k] : k >= g.length ? f[k] : add(p, f[k], g[k]);
    return trim(p, r);
  }
  static Object[] umul(int p, Object[] f, Object[] g) {
    if (f.length == 0 || g.length == 0) return new Object[0];
    Object[] r = new Object[f.length + g.length - 1];
    Arrays.fill(r, zero(p));
    for (int a = 0; a < f.length; a++)
      if (!isZero(p, f[a]))
        for (int b = 0; b < g.length; b++) r[a + b] = add(p, r[a + b], mul(p, f[a], g[b]));
    return trim(p, r);
  }
  static Object[][] udivmod(int p, Object[] f, Object[] g) {
    int dg = g.length - 1;
    Object[] r = f.clone();
    Object[] q = new Object[Math.max(0, f.length - dg)];
    Arrays.fill(q, zero(p));
    Object li = inv(p, g[dg]);
    for (int k = f.length - 1; k >= dg; k--) {
      if (isZero(p, r[k])) continue;
      Object c = mul(p, r[k], li);
      q[k - dg] = c;
      Object nc = neg(p, c);
      for (int l = 0; l <= dg; l++) r[k - dg + l] = add(p, r[k - dg + l], mul(p, nc, g[l]));
    }
    return new Object[][]{trim(p, q), trim(p, r)};
  }
  static Object ueval(int p, Object[] f, Object x) {
    Object r = zero(p);
    for (int k = f.length - 1; k >= 0; k--) r = add(p, mul(p, r, x), f[k]);
    return r;
  }
}
