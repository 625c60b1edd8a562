import tlc2.value.impl.*;
import java.math.BigInteger;

/** Overrides of Num.tla (defining equations: NumDef.tla). */
public final class Num {
  private static Value b(BigInteger x) { return VtKernel.bigv(x); }
  private static BigInteger b(Value x) { return VtKernel.big(x); }
  public static Value MulMod(Value a, Value c, Value p) {
    return VtKernel.iv((int) ((long) VtKernel.i(a) * VtKernel.i(c) % VtKernel.i(p)));
  }
  public static Value InvMod(Value a, Value p) {
    return VtKernel.iv((int) VtKernel.powmod(VtKernel.i(a), VtKernel.i(p) - 2, VtKernel.i(p)));
  }
  public static Value BAdd(Value x, Value y) { return b(b(x).add(b(y))); }
  public static Value BSub(Value x, Value y) { return b(b(x).subtract(b(y))); }
  public static Value BMul(Value x, Value y) { return b(b(x).multiply(b(y))); }
  public static Value BCmp(Value x, Value y) { return VtKernel.iv(b(x).compareTo(b(y))); }
  public static Value BGcd(Value x, Value y) { return b(b(x).gcd(b(y))); }
  public static Value BDivExact(Value x, Value y) { return b(b(x).divide(b(y))); }
  public static Value BMod(Value x, Value p) { return VtKernel.iv(b(x).mod(BigInteger.valueOf(VtKernel.i(p))).intValue()); }
  public static Value BPow(Value x, Value k) { return b(b(x).pow(VtKernel.i(k))); }
  public static Value QMake(Value n, Value d) { return VtKernel.ratv(new VtKernel.Rat(b(n), b(d))); }
  public static Value QAdd(Value x, Value y) { return VtKernel.ratv((VtKernel.Rat) VtKernel.add(0, VtKernel.rat(x), VtKernel.rat(y))); }
  public static Value QMul(Value x, Value y) { return VtKernel.ratv((VtKernel.Rat) VtKernel.mul(0, VtKernel.rat(x), VtKernel.rat(y))); }
  public static Value QInv(Value x) { return VtKernel.ratv((VtKernel.Rat) VtKernel.inv(0, VtKernel.rat(x))); }
  public static Value QCmp(Value x, Value y) {
    VtKernel.Rat a = VtKernel.rat(x), c = VtKernel.rat(y);
    return VtKernel.iv(a.n.multiply(c.d).compareTo(c.n.multiply(a.d)));
  }
}
