import tlc2.value.impl.*;
import java.util.*;

/** Override of Lin.tla. */
public final class Lin {
  public static Value ReduceRow(Value p, Value f, Value u, Value rows) {
    int q = VtKernel.i(p);
    TreeMap<int[], Object> t = VtKernel.acc(0);
    VtKernel.Pol a = VtKernel.pol(q, f);
    for (int k = 0; k < a.c.length; k++) VtKernel.into(t, q, a.c[k], a.m[k]);
    Object[] un = VtKernel.uni(q, u);
    TreeMap<int[], Value[]> lead = new TreeMap<>((x, y) -> VtKernel.cmp(0, y, x));
    for (Value r : VtKernel.elems(rows)) {
      Value[] e = VtKernel.elems(r);
      lead.put(VtKernel.mono(VtKernel.elems(VtKernel.elems(e[0])[0])[1]), e);
    }
    int[] at = t.isEmpty() ? null : t.firstKey();
    while (at != null) {
      Value[] e = lead.get(at);
      if (e != null) {
        VtKernel.Pol r = VtKernel.pol(q, e[0]);
        Object c = VtKernel.neg(q, VtKernel.mul(q, t.get(at), VtKernel.inv(q, r.c[0])));
        for (int k = 0; k < r.c.length; k++) VtKernel.into(t, q, VtKernel.mul(q, c, r.c[k]), r.m[k]);
        Object[] w = VtKernel.uni(q, e[1]);
        for (int k = 0; k < w.length; k++) w[k] = VtKernel.mul(q, c, w[k]);
        un = VtKernel.uadd(q, un, w);
      }
      at = t.higherKey(at);
    }
    return new TupleValue(new Value[]{VtKernel.polv(q, VtKernel.fromMap(t)), VtKernel.univ(q, un)});
  }
}
