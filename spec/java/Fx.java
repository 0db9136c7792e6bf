import tlc2.value.impl.*;
import java.math.BigInteger;

/** BigInteger evaluation of the operators of module Fx (see spec/FxDef.tla). */
public class Fx {
  static final BigInteger B = BigInteger.valueOf(10000);
  static final BigInteger S = BigInteger.TEN.pow(16);
  static final BigInteger TWO32 = BigInteger.valueOf(1L << 32);

  static BigInteger get(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    Value[] e = t.elems;
    int n = e.length;
    int sg = ((IntValue) e[0]).val;
    if (sg > 1 || sg < -1) throw new RuntimeException("Fx: operation on a non-finite number");
    BigInteger r = BigInteger.ZERO;
    int i = n - 1;
    // up to four limbs at a time in a long
    while (i >= 1) {
      long w = 0, f = 1;
      int k = 0;
      while (i >= 1 && k < 4) { w = w * 10000 + ((IntValue) e[i]).val; f *= 10000; i--; k++; }
      r = r.signum() == 0 ? BigInteger.valueOf(w) : r.multiply(BigInteger.valueOf(f)).add(BigInteger.valueOf(w));
    }
    return sg < 0 ? r.negate() : r;
  }

  static Value put(BigInteger x) {
    int sg = x.signum();
    if (sg == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
    x = x.abs();
    java.util.ArrayList<Value> l = new java.util.ArrayList<>(10);
    l.add(IntValue.gen(sg));
    while (x.bitLength() > 62) {
      BigInteger[] q = x.divideAndRemainder(S);
      long w = q[1].longValue();
      for (int k = 0; k < 4; k++) { l.add(IntValue.gen((int) (w % 10000))); w /= 10000; }
      x = q[0];
    }
    long w = x.longValue();
    while (w != 0) { l.add(IntValue.gen((int) (w % 10000))); w /= 10000; }
    // a zero top limb cannot arise: the last loop ends with w != 0, unless the quotient was 0
    int n = l.size();
    while (n > 1 && ((IntValue) l.get(n - 1)).val == 0) { l.remove(n - 1); n--; }
    return new TupleValue(l.toArray(new Value[0]));
  }

  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

  public static Value FNeg(Value a) { return put(get(a).negate()); }
  public static Value FAdd(Value a, Value b) { return put(get(a).add(get(b))); }
  public static Value FSub(Value a, Value b) { return put(get(a).subtract(get(b))); }
  public static Value FMul(Value a, Value b) { return put(get(a).multiply(get(b)).divide(S)); }
  public static Value FDiv(Value a, Value b) { return put(get(a).multiply(S).divide(get(b))); }
  public static Value FCmp(Value a, Value b) { return IntValue.gen(get(a).compareTo(get(b))); }
  public static Value FSqrt(Value a) { return put(get(a).multiply(S).sqrt()); }
  public static Value FInt(Value n) { return put(BigInteger.valueOf(((IntValue) n).val).multiply(S)); }
  public static Value FPow(Value n, Value k) {
    return put(BigInteger.valueOf(((IntValue) n).val).multiply(B.pow(4 + ((IntValue) k).val)));
  }
  // each product is truncated as in FMul, so that the value equals the definition
  public static Value FDot(Value u, Value v) {
    Value[] a = seq(u), b = seq(v);
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < a.length; i++) r = r.add(get(a[i]).multiply(get(b[i])).divide(S));
    return put(r);
  }
  public static Value FSum(Value u) {
    Value[] a = seq(u);
    BigInteger r = BigInteger.ZERO;
    for (int i = 0; i < a.length; i++) r = r.add(get(a[i]));
    return put(r);
  }
  public static Value FMaxAbs(Value u) {
    BigInteger r = BigInteger.ZERO;
    for (Value x : seq(u)) r = r.max(get(x).abs());
    return put(r);
  }
}
