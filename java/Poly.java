import tlc2.value.impl.*;
import java.util.*;

/** Overrides of Poly.tla (defining equations: PolyDef.tla). */
public final class Poly {
  private static int i(Value v) { return VtKernel.i(v); }
  public static Value MonoCmp(Value e, Value a, Value b) {
    return VtKernel.iv(VtKernel.cmp(i(e), VtKernel.mono(a), VtKernel.mono(b)));
  }
  public static Value Divides(Value a, Value b) {
    return VtKernel.divides(VtKernel.mono(a), VtKernel.mono(b)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value PAdd(Value e, Value p, Value f, Value g) {
    int q = i(p);
    return VtKernel.polv(q, VtKernel.padd(i(e), q, VtKernel.pol(q, f), VtKernel.pol(q, g)));
  }
  public static Value PTermMul(Value p, Value c, Value m, Value f) {
    int q = i(p);
    return VtKernel.polv(q, VtKernel.termMul(q, VtKernel.coef(q, c), VtKernel.mono(m), VtKernel.pol(q, f)));
  }
  public static Value Monic(Value p, Value f) {
    int q = i(p);
    VtKernel.Pol g = VtKernel.pol(q, f);
    if (g.c.length == 0) return f;
    return VtKernel.polv(q, VtKernel.scale(q, VtKernel.inv(q, g.c[0]), g));
  }
  public static Value PMul(Value e, Value p, Value f, Value g) {
    int q = i(p);
    VtKernel.Pol a = VtKernel.pol(q, f), b = VtKernel.pol(q, g);
    TreeMap<int[], Object> t = VtKernel.acc(i(e));
    for (int k = 0; k < a.c.length; k++)
      for (int l = 0; l < b.c.length; l++) {
        int[] m = new int[a.m[k].length];
        for (int x = 0; x < m.length; x++) m[x] = a.m[k][x] + b.m[l][x];
        VtKernel.into(t, q, VtKernel.mul(q, a.c[k], b.c[l]), m);
      }
    return VtKernel.polv(q, VtKernel.fromMap(t));
  }
  public static Value PNormal(Value e, Value p, Value ts) {
    int q = i(p);
    VtKernel.Pol a = VtKernel.pol(q, ts);
    TreeMap<int[], Object> t = VtKernel.acc(i(e));
    for (int k = 0; k < a.c.length; k++) VtKernel.into(t, q, a.c[k], a.m[k]);
    return VtKernel.polv(q, VtKernel.fromMap(t));
  }
  public static Value NF(Value e, Value p, Value f, Value G) {
    int q = i(p);
    return VtKernel.polv(q, VtKernel.nf(i(e), q, VtKernel.pol(q, f), VtKernel.pols(q, G)));
  }
  public static Value SPoly(Value e, Value p, Value f, Value g) {
    int q = i(p);
    VtKernel.Pol a = VtKernel.pol(q, f), b = VtKernel.pol(q, g);
    int n = a.m[0].length;
    int[] x = new int[n], y = new int[n];
    for (int k = 0; k < n; k++) {
      int l = Math.max(a.m[0][k], b.m[0][k]);
      x[k] = l - a.m[0][k]; y[k] = l - b.m[0][k];
    }
    VtKernel.Pol u = VtKernel.termMul(q, VtKernel.inv(q, a.c[0]), x, a);
    VtKernel.Pol v = VtKernel.termMul(q, VtKernel.neg(q, VtKernel.inv(q, b.c[0])), y, b);
    return VtKernel.polv(q, VtKernel.padd(i(e), q, u, v));
  }
}
