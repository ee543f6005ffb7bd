import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** java.math.BigInteger implementations of the (J) operators of Fx.tla. */
public class FxOverride implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override public Class[] get() { return new Class[] { FxOverride.class }; }

  static final int LB = 14, MASK = (1 << LB) - 1, FRAC = 16, SH = LB * FRAC;

  static BigInteger big(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int s = ((IntValue) t.elems[0]).val;
    if (s == 0) return BigInteger.ZERO;
    if (s > 1) throw new RuntimeException("Fx: arithmetic on a non-finite value");
    int n = t.elems.length - 1;
    byte[] out = new byte[(n * LB + 7) / 8 + 1];
    int L = out.length;
    for (int i = 0; i < n; i++) {
      int d = ((IntValue) t.elems[i + 1]).val;
      int bit = i * LB, by = bit >> 3, off = bit & 7;
      int w = d << off;
      out[L - 1 - by] |= (byte) (w & 255);
      if ((w >> 8) != 0) out[L - 2 - by] |= (byte) ((w >> 8) & 255);
      if ((w >> 16) != 0) out[L - 3 - by] |= (byte) ((w >> 16) & 255);
    }
    return new BigInteger(s, out);
  }
  static Value val(BigInteger b) {
    int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] { IntValue.ValZero });
    byte[] m = b.abs().toByteArray();
    int bits = b.abs().bitLength();
    int n = (bits + LB - 1) / LB;
    Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    int L = m.length;
    for (int i = 0; i < n; i++) {
      int bit = i * LB, by = bit >> 3, off = bit & 7;
      int w = (L - 1 - by >= 0 ? m[L - 1 - by] & 255 : 0)
            | (L - 2 - by >= 0 ? (m[L - 2 - by] & 255) << 8 : 0)
            | (L - 3 - by >= 0 ? (m[L - 3 - by] & 255) << 16 : 0);
      e[i + 1] = IntValue.gen((w >> off) & MASK);
    }
    return new TupleValue(e);
  }
  static int in(Value v) { return ((IntValue) v).val; }
  // truncation towards zero of |b| / 2^SH
  static BigInteger down(BigInteger b) { return b.signum() < 0 ? b.negate().shiftRight(SH).negate() : b.shiftRight(SH); }

  @TLAPlusOperator(identifier = "BOfInt", module = "Fx", warn = false) public static Value bOfInt(Value n) { return val(BigInteger.valueOf(in(n))); }
  @TLAPlusOperator(identifier = "BNeg", module = "Fx", warn = false) public static Value bNeg(Value a) { return val(big(a).negate()); }
  @TLAPlusOperator(identifier = "BAdd", module = "Fx", warn = false) public static Value bAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  @TLAPlusOperator(identifier = "BMul", module = "Fx", warn = false) public static Value bMul(Value a, Value b) { return val(big(a).multiply(big(b))); }
  @TLAPlusOperator(identifier = "BQuo", module = "Fx", warn = false) public static Value bQuo(Value a, Value b) { return val(big(a).divide(big(b))); }
  @TLAPlusOperator(identifier = "BCmp", module = "Fx", warn = false) public static Value bCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  @TLAPlusOperator(identifier = "FxI", module = "Fx", warn = false) public static Value fxI(Value n) { return val(BigInteger.valueOf(in(n)).shiftLeft(SH)); }
  @TLAPlusOperator(identifier = "FxAdd", module = "Fx", warn = false) public static Value fxAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  @TLAPlusOperator(identifier = "FxNeg", module = "Fx", warn = false) public static Value fxNeg(Value a) { return val(big(a).negate()); }
  @TLAPlusOperator(identifier = "FxSub", module = "Fx", warn = false) public static Value fxSub(Value a, Value b) { return val(big(a).subtract(big(b))); }
  static BigInteger mul(BigInteger a, BigInteger b) { return down(a.multiply(b)); }
  static BigInteger div(BigInteger a, BigInteger b) { return a.shiftLeft(SH).divide(b); }
  @TLAPlusOperator(identifier = "FxMul", module = "Fx", warn = false) public static Value fxMul(Value a, Value b) { return val(mul(big(a), big(b))); }
  @TLAPlusOperator(identifier = "FxDiv", module = "Fx", warn = false) public static Value fxDiv(Value a, Value b) { return val(div(big(a), big(b))); }
  @TLAPlusOperator(identifier = "FxCmp", module = "Fx", warn = false) public static Value fxCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  @TLAPlusOperator(identifier = "FxSum", module = "Fx", warn = false) public static Value fxSum(Value s) {
    BigInteger r = BigInteger.ZERO; for (Value x : ((TupleValue) s.toTuple()).elems) r = r.add(big(x)); return val(r);
  }
  @TLAPlusOperator(identifier = "FxDot", module = "Fx", warn = false) public static Value fxDot(Value s, Value t) {
    Value[] x = ((TupleValue) s.toTuple()).elems, y = ((TupleValue) t.toTuple()).elems;
    BigInteger r = BigInteger.ZERO; for (int i = 0; i < x.length; i++) r = r.add(mul(big(x[i]), big(y[i]))); return val(r);
  }
  static final BigInteger ONE = BigInteger.ONE.shiftLeft(SH);
  static BigInteger two(int k) { return BigInteger.valueOf(k).shiftLeft(SH); }
  static BigInteger exp(BigInteger x) {
    BigInteger a = x.abs(); int k = 0; BigInteger h = a, eighth = div(ONE, two(8));
    while (h.compareTo(eighth) >= 0) { h = div(h, two(2)); k++; }
    BigInteger p = ONE; for (int i = 0; i < k; i++) p = mul(two(2), p);
    BigInteger r = div(a, p), t = ONE, acc = ONE;
    for (int n = 1; t.signum() != 0 && n <= 60; n++) { t = div(mul(t, r), two(n)); acc = acc.add(t); }
    for (int i = 0; i < k; i++) acc = mul(acc, acc);
    return x.signum() < 0 ? div(ONE, acc) : acc;
  }
  @TLAPlusOperator(identifier = "FxExp", module = "Fx", warn = false) public static Value fxExp(Value x) { return val(exp(big(x))); }
  @TLAPlusOperator(identifier = "FxLn", module = "Fx", warn = false) public static Value fxLn(Value v) {
    BigInteger x = big(v), y = BigInteger.ZERO;
    for (int n = 0; n < 200; n++) {
      BigInteger e = exp(y), d = mul(two(2), div(x.subtract(e), x.add(e)));
      if (d.signum() == 0) break; y = y.add(d);
    }
    return val(y);
  }
  @TLAPlusOperator(identifier = "FxSqrt", module = "Fx", warn = false) public static Value fxSqrt(Value v) {
    BigInteger x = big(v); if (x.signum() == 0) return val(x);
    BigInteger r = x.max(ONE);
    for (int n = 600; ; n--) { BigInteger r1 = div(r.add(div(x, r)), two(2)); if (n == 0 || r.compareTo(r1) <= 0) return val(r); r = r1; }
  }
}
