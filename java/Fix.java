import java.math.BigInteger;
import tlc2.value.impl.*;

/** Fast implementation of the arithmetic operators of spec/Fix.tla (same results, checked by FixTest.tla). */
public class Fix {
  static final BigInteger ONE = BigInteger.TEN.pow(24);
  static final BigInteger E4 = BigInteger.valueOf(10000);
  static final IntValue[] LIMB = new IntValue[10000];
  static { for (int i = 0; i < 10000; i++) LIMB[i] = IntValue.gen(i); }
  static final TupleValue EMPTY = new TupleValue(new Value[0]);
  static final IntValue MINUS = IntValue.gen(-1), ZERO0 = IntValue.gen(0), PLUS = IntValue.gen(1);

  static BigInteger get(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int s = ((IntValue) t.elems[0]).val;
    if (s == 0) return BigInteger.ZERO;
    TupleValue m = (TupleValue) t.elems[1].toTuple();
    Value[] e = m.elems;
    int n = e.length;
    // assemble by chunks of 4 limbs (16 digits < 2^63)
    BigInteger r = BigInteger.ZERO;
    int i = n;
    int head = n % 4;
    if (head > 0) {
      long a = 0;
      for (int k = 0; k < head; k++) a = a * 10000 + ((IntValue) e[--i]).val;
      r = BigInteger.valueOf(a);
    }
    while (i > 0) {
      long a = 0;
      for (int k = 0; k < 4; k++) a = a * 10000 + ((IntValue) e[--i]).val;
      r = r.multiply(E16).add(BigInteger.valueOf(a));
    }
    return s < 0 ? r.negate() : r;
  }
  static final BigInteger E16 = BigInteger.valueOf(10000L * 10000L * 10000L * 10000L);

  static Value put(BigInteger b) {
    int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] { ZERO0, EMPTY });
    BigInteger a = b.abs();
    Value[] tmp = new Value[a.bitLength() / 13 + 5];
    int n = 0;
    while (a.bitLength() > 62) {
      BigInteger[] qr = a.divideAndRemainder(E16);
      long r = qr[1].longValue();
      for (int k = 0; k < 4; k++) { tmp[n++] = LIMB[(int) (r % 10000)]; r /= 10000; }
      a = qr[0];
    }
    long r = a.longValue();
    while (r > 0) { tmp[n++] = LIMB[(int) (r % 10000)]; r /= 10000; }
    Value[] out = new Value[n];
    System.arraycopy(tmp, 0, out, 0, n);
    return new TupleValue(new Value[] { s < 0 ? MINUS : PLUS, new TupleValue(out) });
  }

  public static Value FAdd(Value a, Value b) { return put(get(a).add(get(b))); }
  public static Value FSub(Value a, Value b) { return put(get(a).subtract(get(b))); }
  public static Value FMul(Value a, Value b) { return put(get(a).multiply(get(b)).divide(ONE)); }
  public static Value FDiv(Value a, Value b) { return put(get(a).multiply(ONE).divide(get(b))); }
  public static Value FSqrt(Value a) { return put(get(a).multiply(ONE).sqrt()); }
  public static Value FCmp(Value a, Value b) { return IntValue.gen(get(a).compareTo(get(b))); }
  public static Value FLt(Value a, Value b) { return get(a).compareTo(get(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FLe(Value a, Value b) { return get(a).compareTo(get(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FInt(Value n) { return put(BigInteger.valueOf(((IntValue) n).val).multiply(ONE)); }
  public static Value FMulI(Value a, Value n) { return put(get(a).multiply(BigInteger.valueOf(((IntValue) n).val))); }
  public static Value FDivI(Value a, Value n) { return put(get(a).divide(BigInteger.valueOf(((IntValue) n).val))); }

  static BigInteger series(BigInteger x2, BigInteger term, int n) {
    BigInteger acc = BigInteger.ZERO;
    while (term.signum() != 0) {
      acc = acc.add(term);
      term = term.multiply(x2).divide(ONE).divide(BigInteger.valueOf(n + 1)).divide(BigInteger.valueOf(n + 2)).negate();
      n += 2;
    }
    return acc;
  }
  public static Value FSin(Value x) { BigInteger v = get(x); return put(series(v.multiply(v).divide(ONE), v, 1)); }
  public static Value FCos(Value x) { BigInteger v = get(x); return put(series(v.multiply(v).divide(ONE), ONE, 0)); }
}
