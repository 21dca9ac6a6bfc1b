/* TLC module override for Nums.tla: IEEE double arithmetic on decimal strings.
   Every method is the evaluation of the operator of the same name declared (and documented) in Nums.tla. */
import tlc2.value.impl.*;
import tlc2.value.impl.Value;
import java.math.*;
import java.util.*;

public class Nums {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).val.toString();
    switch (s) {
      case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      case "nan": case "NaN": return Double.NaN;
    }
    return Double.parseDouble(s);
  }
  static Value r(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    if (x == Double.POSITIVE_INFINITY) return new StringValue("inf");
    if (x == Double.NEGATIVE_INFINITY) return new StringValue("-inf");
    if (x == Math.rint(x) && Math.abs(x) < 1e15) return new StringValue(Long.toString((long) x) + (x == 0 ? "" : ""));
    return new StringValue(Double.toString(x));
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] a = new double[t.elems.length];
    for (int i = 0; i < a.length; i++) a[i] = d((Value) t.elems[i]);
    return a;
  }
  static Value tup(double[] a) {
    Value[] v = new Value[a.length];
    for (int i = 0; i < a.length; i++) v[i] = r(a[i]);
    return new TupleValue(v);
  }
  static String s(Value v) { return ((StringValue) v).val.toString(); }

  public static Value RNum(Value a) { return r(d(a)); }
  public static Value RIsNum(Value a) {
    if (a instanceof IntValue) return b(true);
    if (!(a instanceof StringValue)) return b(false);
    try { d(a); return b(true); } catch (NumberFormatException e) { return b(false); }
  }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLn(Value a) { return r(Math.log(d(a))); }
  public static Value RLog10(Value a) { return r(Math.log10(d(a))); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RPow10(Value a) { return r(Math.pow(10., d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RAcos(Value a) { return r(Math.acos(Math.max(-1, Math.min(1, d(a))))); }
  public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RCeil(Value a) { return IntValue.gen((int) Math.ceil(d(a))); }
  public static Value RRound(Value a) { return IntValue.gen((int) Math.rint(d(a))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  static boolean close(double x, double y, double rel, double abs) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
    return Math.abs(x - y) <= Math.max(abs, rel * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value RClose(Value a, Value c, Value rel) { return b(close(d(a), d(c), d(rel), 0)); }
  public static Value RNear(Value a, Value c, Value abs) { return b(close(d(a), d(c), 0, d(abs))); }
  public static Value RSeqClose(Value a, Value c, Value rel, Value abs) {
    double[] x = seq(a), y = seq(c);
    if (x.length != y.length) return b(false);
    double rl = d(rel), ab = d(abs);
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], rl, ab)) return b(false);
    return b(true);
  }
  /* ---- bulk operators: definitional equivalents are stated in Nums.tla ---- */
  public static Value RSum(Value a) { double t = 0; for (double x : seq(a)) t += x; return r(t); }
  public static Value RDot(Value a, Value c) { double t = 0; double[] x = seq(a), y = seq(c); for (int i = 0; i < x.length; i++) t += x[i] * y[i]; return r(t); }
  public static Value RSort(Value a) { double[] x = seq(a); Arrays.sort(x); return tup(x); }
  public static Value RSuffixSums(Value a) { double[] x = seq(a); double t = 0; for (int i = x.length - 1; i >= 0; i--) { t += x[i]; x[i] = t; } return tup(x); }
  public static Value RPoly(Value c, Value x) { double[] a = seq(c); double t = 0, z = d(x); for (int i = a.length - 1; i >= 0; i--) t = t * z + a[i]; return r(t); }
  /* number of elements x of seq a with lo <= x < hi */
  public static Value RCountIn(Value a, Value lo, Value hi) { int n = 0; double l = d(lo), h = d(hi); for (double x : seq(a)) if (l <= x && x < h) n++; return IntValue.gen(n); }
  /* sum of w[i] over lo <= a[i] < hi */
  public static Value RSumIn(Value a, Value w, Value lo, Value hi) { double t = 0; double l = d(lo), h = d(hi); double[] x = seq(a), y = seq(w); for (int i = 0; i < x.length; i++) if (l <= x[i] && x[i] < h) t += y[i]; return r(t); }
  public static Value RMean(Value a) { double t = 0; double[] x = seq(a); for (double v : x) t += v; return r(t / x.length); }
  public static Value RStd(Value a) { double[] x = seq(a); double t = 0; for (double v : x) t += v; double m = t / x.length; t = 0; for (double v : x) t += (v - m) * (v - m); return r(Math.sqrt(t / x.length)); }
  public static Value RIsAscending(Value a) { double[] x = seq(a); for (int i = 1; i < x.length; i++) if (!(x[i-1] <= x[i])) return b(false); return b(true); }
  public static Value RIsStrictlyAscending(Value a) { double[] x = seq(a); for (int i = 1; i < x.length; i++) if (!(x[i-1] < x[i])) return b(false); return b(true); }
  public static Value RMaxSeq(Value a) { double m = Double.NEGATIVE_INFINITY; for (double v : seq(a)) m = Math.max(m, v); return r(m); }
  public static Value RMinSeq(Value a) { double m = Double.POSITIVE_INFINITY; for (double v : seq(a)) m = Math.min(m, v); return r(m); }
  public static Value RSpan(Value n, Value lo, Value hi) { int k = (int) d(n); double a = d(lo), z = d(hi); double[] x = new double[k]; for (int i = 0; i < k; i++) x[i] = k == 1 ? a : a + (z - a) * i / (k - 1); return tup(x); }
  public static Value RInterp(Value x0, Value xs, Value ys) {
    double x = d(x0); double[] X = seq(xs), Y = seq(ys);
    if (x <= X[0]) return r(Y[0]);
    int n = X.length;
    if (x >= X[n-1]) return r(Y[n-1]);
    int lo = 0, hi = n - 1;
    while (hi - lo > 1) { int m = (lo + hi) / 2; if (X[m] <= x) lo = m; else hi = m; }
    return r(Y[lo] + (Y[hi] - Y[lo]) * (x - X[lo]) / (X[hi] - X[lo]));
  }
  /* log(k!) and regularised upper incomplete gamma Q(k+1,x) = P(Poisson(x) <= k) */
  static double lgam(double x) {
    double[] c = {76.18009172947146, -86.50532032941677, 24.01409824083091, -1.231739572450155, 0.1208650973866179e-2, -0.5395239384953e-5};
    if (x < 30 && x == Math.rint(x)) { double t = 0; for (int i = 2; i < x; i++) t += Math.log(i); return t; }
    // Stirling series
    if (x < 15) { double p = 0; while (x < 15) { p += Math.log(x); x += 1; } return lgam(x) - p; }
    double z = 1 / (x * x);
    return (x - 0.5) * Math.log(x) - x + 0.5 * Math.log(2 * Math.PI) + (1./12 - z * (1./360 - z * (1./1260 - z * (1./1680)))) / x;
  }
  static double gq(double a, double x) { // regularised upper incomplete gamma Q(a,x)
    if (x <= 0) return 1;
    if (x < a + 1) {
      double ap = a, sum = 1 / a, del = sum;
      for (int n = 0; n < 100000; n++) { ap += 1; del *= x / ap; sum += del; if (Math.abs(del) < Math.abs(sum) * 1e-16) break; }
      return 1 - sum * Math.exp(-x + a * Math.log(x) - lgam(a));
    }
    double bb = x + 1 - a, c = 1 / 1e-300, dd = 1 / bb, h = dd;
    for (int i = 1; i < 100000; i++) { double an = -i * (i - a); bb += 2; dd = an * dd + bb; if (Math.abs(dd) < 1e-300) dd = 1e-300; c = bb + an / c; if (Math.abs(c) < 1e-300) c = 1e-300; dd = 1 / dd; double del = dd * c; h *= del; if (Math.abs(del - 1) < 1e-15) break; }
    return Math.exp(-x + a * Math.log(x) - lgam(a)) * h;
  }
  public static Value RGammaQ(Value a, Value x) { return r(gq(d(a), d(x))); }
  public static Value RLogFact(Value k) { return r(lgam(d(k) + 1)); }

  /* ---- decimals (exact) ---- */
  static BigDecimal bd(Value v) { return (v instanceof IntValue) ? new BigDecimal(((IntValue) v).val) : new BigDecimal(s(v)); }
  /* exact decimal comparisons of decimal strings (no binary rounding) */
  public static Value DCmp(Value a, Value c) { return IntValue.gen(bd(a).compareTo(bd(c))); }
  public static Value DSub(Value a, Value c) { return new StringValue(bd(a).subtract(bd(c)).toPlainString()); }
  public static Value DMul(Value a, Value c) { return new StringValue(bd(a).multiply(bd(c)).toPlainString()); }
  public static Value DAbs(Value a) { return new StringValue(bd(a).abs().toPlainString()); }
  /* decimal exponent e with 10^e <= |a| < 10^(e+1) */
  public static Value DExp(Value a) { BigDecimal x = bd(a); return IntValue.gen(x.signum() == 0 ? 0 : x.precision() - x.scale() - 1); }
  public static Value DPow10(Value n) { return new StringValue(BigDecimal.ONE.scaleByPowerOfTen((int) d(n)).toPlainString()); }
  public static Value DIsNum(Value a) { try { bd(a); return b(true); } catch (Exception e) { return b(false); } }
  /* |printed - value| <= half a unit of the n-th significant figure of value (both neighbours allowed on ties, slack 1e-9 of it) */
  public static Value DRounded(Value printed, Value value, Value n) {
    BigDecimal v = bd(value), p = bd(printed);
    if (v.signum() == 0) return b(p.signum() == 0);
    int e = v.precision() - v.scale() - 1;
    BigDecimal half = BigDecimal.ONE.scaleByPowerOfTen(e - (int) d(n) + 1).multiply(new BigDecimal("0.500000001"));
    return b(p.subtract(v).abs().compareTo(half) <= 0);
  }
  /* ---- strings ---- */
  public static Value StrLower(Value a) { return new StringValue(s(a).toLowerCase(Locale.ROOT)); }
  public static Value StrTrim(Value a) { return new StringValue(s(a).trim()); }
  public static Value StrChars(Value a) { String x = s(a); Value[] v = new Value[x.length()]; for (int i = 0; i < v.length; i++) v[i] = new StringValue(x.substring(i, i + 1)); return new TupleValue(v); }
  public static Value StrSplit(Value a, Value sep) { String[] p = s(a).split(java.util.regex.Pattern.quote(s(sep)), -1); Value[] v = new Value[p.length]; for (int i = 0; i < v.length; i++) v[i] = new StringValue(p[i]); return new TupleValue(v); }
  public static Value StrJoin(Value q, Value sep) { TupleValue t = (TupleValue) q.toTuple(); StringBuilder o = new StringBuilder(); for (int i = 0; i < t.elems.length; i++) { if (i > 0) o.append(s(sep)); o.append(s((Value) t.elems[i])); } return new StringValue(o.toString()); }
  public static Value StrHas(Value a, Value x) { return b(s(a).contains(s(x))); }
  public static Value StrStarts(Value a, Value x) { return b(s(a).startsWith(s(x))); }
  public static Value StrEnds(Value a, Value x) { return b(s(a).endsWith(s(x))); }
  public static Value StrReplace(Value a, Value x, Value y) { return new StringValue(s(a).replace(s(x), s(y))); }
  public static Value StrInt(Value a) { return IntValue.gen(Integer.parseInt(s(a).trim())); }
  public static Value StrOfInt(Value a) { return new StringValue(Integer.toString(((IntValue) a).val)); }
  public static Value StrSorted(Value q) { TupleValue t = (TupleValue) q.toTuple(); String[] x = new String[t.elems.length]; for (int i = 0; i < x.length; i++) x[i] = s((Value) t.elems[i]); Arrays.sort(x); Value[] v = new Value[x.length]; for (int i = 0; i < x.length; i++) v[i] = new StringValue(x[i]); return new TupleValue(v); }
  public static Value IsStr(Value a) { return b(a instanceof StringValue); }
  public static Value IsSeq(Value a) { return b(a instanceof TupleValue || a.toTuple() != null); }
  public static Value IsRec(Value a) { return b(a instanceof RecordValue); }
  /* ---- vectors <<x, y, z>> ---- */
  public static Value VOf(Value lon, Value lat) { double x = Math.toRadians(d(lon)), y = Math.toRadians(d(lat)); return tup(new double[]{Math.cos(y) * Math.cos(x), Math.cos(y) * Math.sin(x), Math.sin(y)}); }
  static double[] cross(double[] a, double[] c) { return new double[]{a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0]}; }
  static double dot(double[] a, double[] c) { return a[0] * c[0] + a[1] * c[1] + a[2] * c[2]; }
  static double[] sub(double[] a, double[] c) { return new double[]{a[0] - c[0], a[1] - c[1], a[2] - c[2]}; }
  public static Value VCross(Value a, Value c) { return tup(cross(seq(a), seq(c))); }
  public static Value VAdd(Value a, Value c) { double[] x = seq(a), y = seq(c); return tup(new double[]{x[0] + y[0], x[1] + y[1], x[2] + y[2]}); }
  public static Value VMul(Value f, Value a) { double k = d(f); double[] x = seq(a); return tup(new double[]{k * x[0], k * x[1], k * x[2]}); }
  public static Value VUnit(Value a) { double[] x = seq(a); double n = Math.sqrt(dot(x, x)); return tup(new double[]{x[0] / n, x[1] / n, x[2] / n}); }
  public static Value VTriple(Value a, Value c, Value e) { double[] x = seq(a); return r(dot(x, cross(sub(seq(c), x), sub(seq(e), x)))); }
  /* angle between unit vectors, accurate for small angles: 2 atan2(|a-c|, |a+c|) */
  public static Value VAngle(Value a, Value c) { double[] x = seq(a), y = seq(c); double[] m = sub(x, y), p = new double[]{x[0] + y[0], x[1] + y[1], x[2] + y[2]}; return r(2 * Math.atan2(Math.sqrt(dot(m, m)), Math.sqrt(dot(p, p)))); }
  /* signed solid angle of the triangle (van Oosterom-Strackee) */
  public static Value VTri(Value a, Value c, Value e) { double[] x = seq(a), y = seq(c), z = seq(e); return r(2 * Math.atan2(dot(x, cross(sub(y, x), sub(z, x))), 1 + dot(x, y) + dot(y, z) + dot(z, x))); }
  public static Value RAsin(Value a) { return r(Math.asin(d(a))); }
}
