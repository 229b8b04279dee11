import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Operators of module Num. */
public class Num {
  private static String str(Value v) { return ((StringValue) v).val.toString(); }
  private static int in(Value v) { return ((IntValue) v).val; }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static String plus(String s) { return s.startsWith("+") ? s.substring(1) : s; }
  private static BigInteger big(Value v) { return new BigInteger(plus(str(v))); }
  private static BigDecimal dec(Value v) { return dec(str(v)); }
  private static BigDecimal dec(String s) {
    s = plus(s);
    if (s.endsWith(".")) s = s.substring(0, s.length() - 1);
    return new BigDecimal(s);
  }

  public static Value IntEq(Value a, Value b) { return bool(big(a).equals(big(b))); }
  public static Value IntLE(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
  public static Value IntSucc(Value a) { return new StringValue(big(a).add(BigInteger.ONE).toString()); }
  public static Value DecLT(Value a, Value b) { return bool(dec(a).compareTo(dec(b)) < 0); }
  public static Value DecIsZero(Value a) { return bool(dec(a).signum() == 0); }

  private static final double MAXF = 3.4e38;
  private static boolean near(BigDecimal want, float got, double slack) {
    double w = want.doubleValue();
    if (Math.abs(w) > MAXF) return true;   // beyond the range of a single: unconstrained
    if (Float.isNaN(got) || Float.isInfinite(got)) return false;
    return Math.abs(w - (double) got) <= 4e-7 * Math.abs(w) + 1e-44 + slack;
  }
  public static Value DecNear(Value tok, Value bits) {
    return bool(near(dec(tok), Float.intBitsToFloat(in(bits)), 0));
  }
  /* digits after the seventh fraction digit may be ignored */
  public static Value DecNearCut(Value tok, Value bits, Value frac) {
    String s = str(tok).toLowerCase();
    int e = s.indexOf('e');
    double scale = 1;
    if (e >= 0 && e + 1 < s.length()) scale = Math.pow(10, Integer.parseInt(plus(s.substring(e + 1))));
    return bool(near(dec(tok), Float.intBitsToFloat(in(bits)), in(frac) > 7 ? 1.0001e-7 * scale : 0));
  }
  public static Value Dec6(Value a, Value b) {
    float x = Float.intBitsToFloat(in(a)), y = Float.intBitsToFloat(in(b));
    if (Float.isNaN(x) || Float.isNaN(y)) return bool(Float.isNaN(x) && Float.isNaN(y));
    if (x == y) return bool(true);
    return bool(Math.abs((double) x - y) <= 6e-6 * Math.max(Math.abs(x), Math.abs(y)) + 1e-44);
  }
  public static Value BitsLT(Value a, Value b) { return bool(Float.intBitsToFloat(in(a)) < Float.intBitsToFloat(in(b))); }
  public static Value BitsZero(Value a) { return bool(Float.intBitsToFloat(in(a)) == 0f); }

  // ---- reals ----
  private static double r(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return Double.longBitsToDouble(((long) in(e[0]) << 32) | (in(e[1]) & 0xffffffffL));
  }
  private static Value mk(double d) {
    if (d == 0) d = 0.0;
    long l = Double.doubleToLongBits(d);
    return new TupleValue(IntValue.gen((int) (l >> 32)), IntValue.gen((int) l));
  }
  public static Value RInt(Value n) { return mk(in(n)); }
  public static Value RDec(Value s) { return mk(Double.parseDouble(str(s))); }
  public static Value RBits(Value b) { return mk(Float.intBitsToFloat(in(b))); }
  public static Value RAdd(Value a, Value b) { return mk(r(a) + r(b)); }
  public static Value RSub(Value a, Value b) { return mk(r(a) - r(b)); }
  public static Value RMul(Value a, Value b) { return mk(r(a) * r(b)); }
  public static Value RDiv(Value a, Value b) { return mk(r(a) / r(b)); }
  public static Value RNeg(Value a) { return mk(-r(a)); }
  public static Value RAbs(Value a) { return mk(Math.abs(r(a))); }
  public static Value RSqrt(Value a) { return mk(Math.sqrt(r(a))); }
  public static Value RPow(Value a, Value b) { return mk(Math.pow(r(a), r(b))); }
  public static Value RExp(Value a) { return mk(Math.exp(r(a))); }
  public static Value RLog(Value a) { return mk(Math.log(r(a))); }
  public static Value RMin(Value a, Value b) { return mk(Math.min(r(a), r(b))); }
  public static Value RMax(Value a, Value b) { return mk(Math.max(r(a), r(b))); }
  public static Value RLT(Value a, Value b) { return bool(r(a) < r(b)); }
  public static Value RLE(Value a, Value b) { return bool(r(a) <= r(b)); }
  public static Value RFinite(Value a) { double d = r(a); return bool(!Double.isNaN(d) && !Double.isInfinite(d)); }
  public static Value RNear(Value a, Value b, Value rel, Value abs) {
    double x = r(a), y = r(b);
    if (x == y) return bool(true);
    return bool(Math.abs(x - y) <= Double.parseDouble(str(abs)) + Double.parseDouble(str(rel)) * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(r(a))); }
  public static Value RStr(Value a) { return new StringValue(Double.toString(r(a))); }
  public static Value RSingle(Value a) { return mk((double) (float) r(a)); }
  public static Value RSum(Value s) {
    double t = 0;
    for (Value v : ((TupleValue) s.toTuple()).elems) t += r(v);
    return mk(t);
  }
  public static Value RDot(Value s, Value u) {
    Value[] a = ((TupleValue) s.toTuple()).elems, b = ((TupleValue) u.toTuple()).elems;
    double t = 0;
    for (int i = 0; i < a.length && i < b.length; i++) t += r(a[i]) * r(b[i]);
    return mk(t);
  }
}
