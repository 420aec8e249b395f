import tlc2.value.impl.*;

/**
 * IEEE-754 double arithmetic for TLC.  A double is the pair <<hi, lo>> of the
 * signed 32-bit halves of its bit pattern.  Each method below overrides the
 * operator of the same name in Floats.tla; scalar operators are primitive,
 * vector operators (V...) are accelerators for the folds given in Floats.tla.
 */
public class Floats {
  static Value[] el(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Floats: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static double d(Value v) {
    Value[] e = el(v);
    long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  static Value w(double x) {
    long b = Double.doubleToRawLongBits(x == 0.0 ? 0.0 : x);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] dv(Value v) {
    Value[] e = el(v);
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
    return r;
  }
  static Value wv(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = w(x[i]);
    return new TupleValue(e);
  }
  public static Value FAdd(Value x, Value y) { return w(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return w(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return w(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return w(d(x) / d(y)); }
  public static Value FNeg(Value x) { return w(-d(x)); }
  public static Value FAbs(Value x) { return w(Math.abs(d(x))); }
  public static Value FExp(Value x) { return w(StrictMath.exp(d(x))); }
  public static Value FLog(Value x) { return w(StrictMath.log(d(x))); }
  public static Value FLog1p(Value x) { return w(StrictMath.log1p(d(x))); }
  public static Value FSqrt(Value x) { return w(Math.sqrt(d(x))); }
  public static Value FPow(Value x, Value y) { return w(StrictMath.pow(d(x), d(y))); }
  public static Value FErf(Value x) { return w(erf(d(x))); }
  public static Value FMin(Value x, Value y) { return w(Math.min(d(x), d(y))); }
  public static Value FMax(Value x, Value y) { return w(Math.max(d(x), d(y))); }
  public static Value FInt(Value x) { return w(((IntValue) x).val); }
  public static Value FRat(Value x, Value y) { return w((double) ((IntValue) x).val / ((IntValue) y).val); }
  public static Value FDec(Value s) { return w(Double.parseDouble(((StringValue) s).val.toString())); }
  public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
  static Value clampInt(double v) {
    if (Double.isNaN(v)) return IntValue.gen(Integer.MIN_VALUE + 1);
    return IntValue.gen((int) Math.max(-2147483000.0, Math.min(2147483000.0, v)));
  }
  public static Value FFloor(Value x) { return clampInt(Math.floor(d(x))); }
  public static Value FCeil(Value x) { return clampInt(Math.ceil(d(x))); }
  public static Value FTrunc(Value x) { double v = d(x); return clampInt(v < 0 ? Math.ceil(v) : Math.floor(v)); }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FIsFin(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  static boolean close(double x, double y, double rt, double at) {
    if (x == y) return true;
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  public static Value FClose(Value x, Value y, Value rt, Value at) { return b(close(d(x), d(y), d(rt), d(at))); }
  // vectors
  public static Value VForce(Value v) { return new TupleValue(el(v)); }
  public static Value VSum(Value v) { double s = 0; for (double x : dv(v)) s += x; return w(s); }
  public static Value VMax(Value v) { double s = Double.NEGATIVE_INFINITY; for (double x : dv(v)) s = Math.max(s, x); return w(s); }
  public static Value VMin(Value v) { double s = Double.POSITIVE_INFINITY; for (double x : dv(v)) s = Math.min(s, x); return w(s); }
  static double lse(double[] a) {
    double m = Double.NEGATIVE_INFINITY;
    for (double x : a) { if (Double.isNaN(x)) return Double.NaN; m = Math.max(m, x); }
    if (Double.isInfinite(m)) return m;
    double s = 0;
    for (double x : a) s += StrictMath.exp(x - m);
    return m + StrictMath.log(s);
  }
  public static Value VLSE(Value v) { return w(lse(dv(v))); }
  public static Value VDot(Value x, Value y) {
    double[] a = dv(x), c = dv(y); double s = 0;
    for (int i = 0; i < a.length; i++) s += a[i] * c[i];
    return w(s);
  }
  public static Value VScale(Value k, Value v) { double s = d(k); double[] a = dv(v); for (int i = 0; i < a.length; i++) a[i] *= s; return wv(a); }
  public static Value VShift(Value k, Value v) { double s = d(k); double[] a = dv(v); for (int i = 0; i < a.length; i++) a[i] += s; return wv(a); }
  public static Value VAdd(Value x, Value y) { double[] a = dv(x), c = dv(y); for (int i = 0; i < a.length; i++) a[i] += c[i]; return wv(a); }
  public static Value VSub(Value x, Value y) { double[] a = dv(x), c = dv(y); for (int i = 0; i < a.length; i++) a[i] -= c[i]; return wv(a); }
  public static Value VMul(Value x, Value y) { double[] a = dv(x), c = dv(y); for (int i = 0; i < a.length; i++) a[i] *= c[i]; return wv(a); }
  public static Value VExp(Value v) { double[] a = dv(v); for (int i = 0; i < a.length; i++) a[i] = StrictMath.exp(a[i]); return wv(a); }
  public static Value VSort(Value v) { double[] a = dv(v); java.util.Arrays.sort(a); return wv(a); }
  public static Value VClose(Value x, Value y, Value rt, Value at) {
    double[] a = dv(x), c = dv(y);
    if (a.length != c.length) return b(false);
    for (int i = 0; i < a.length; i++) if (!close(a[i], c[i], d(rt), d(at))) return b(false);
    return b(true);
  }
  public static Value VAllFin(Value v) { for (double x : dv(v)) if (Double.isNaN(x) || Double.isInfinite(x)) return b(false); return b(true); }

  public static Value VLogAddExp(Value x, Value y) {
    double[] a = dv(x), c = dv(y);
    for (int i = 0; i < a.length; i++) a[i] = lse(new double[] { a[i], c[i] });
    return wv(a);
  }
  public static Value VUnq(Value v, Value k) {
    double[] a = dv(v); double n = ((IntValue) k).val;
    for (int i = 0; i < a.length; i++) a[i] = 1.0 - StrictMath.pow(1.0 - a[i], n);
    return wv(a);
  }
  public static Value VCum(Value v) { double[] a = dv(v); for (int i = 1; i < a.length; i++) a[i] += a[i - 1]; return wv(a); }
  public static Value VRev(Value v) { double[] a = dv(v); double[] r = new double[a.length]; for (int i = 0; i < a.length; i++) r[i] = a[a.length - 1 - i]; return wv(r); }
  public static Value VCountGe(Value v, Value x) { double t = d(x); int n = 0; for (double y : dv(v)) if (y >= t) n++; return IntValue.gen(n); }
  public static Value VConst(Value x, Value n) { int m = ((IntValue) n).val; Value[] e = new Value[m]; Value w = w(d(x)); for (int i = 0; i < m; i++) e[i] = w; return new TupleValue(e); }
  public static Value VPick(Value v, Value idx) {
    Value[] e = el(v), ix = el(idx); Value[] r = new Value[ix.length];
    for (int i = 0; i < r.length; i++) r[i] = e[((IntValue) ix[i]).val - 1];
    return new TupleValue(r);
  }
  public static Value ICounts(Value idx, Value n) {
    int m = ((IntValue) n).val; int[] c = new int[m];
    for (Value v : el(idx)) { int k = ((IntValue) v).val; if (k >= 1 && k <= m) c[k - 1]++; }
    Value[] e = new Value[m]; for (int i = 0; i < m; i++) e[i] = IntValue.gen(c[i]);
    return new TupleValue(e);
  }

  static double erf(double x) {
    if (Double.isNaN(x)) return x;
    double z = Math.abs(x), r;
    if (z > 6) r = 1.0;
    else if (z < 2.5) {
      double term = z, sum = z;
      for (int n = 1; n < 200; n++) { term *= -z * z / n; double c = term / (2 * n + 1); sum += c; if (Math.abs(c) < 1e-18 * Math.abs(sum)) break; }
      r = 2 / Math.sqrt(Math.PI) * sum;
    } else {
      double f = 0;
      for (int k = 120; k >= 1; k--) f = (k / 2.0) / (z + f);
      r = 1 - StrictMath.exp(-z * z) / Math.sqrt(Math.PI) / (z + f);
    }
    return x < 0 ? -r : r;
  }

  // regularised incomplete beta function I_x(a, b), continued fraction (Lentz)
  static double lgam(double x) {
    double[] c = { 676.5203681218851, -1259.1392167224028, 771.32342877765313, -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7 };
    if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgam(1 - x);
    x -= 1; double t = x + 7.5, a = 0.99999999999980993;
    for (int i = 0; i < 8; i++) a += c[i] / (x + i + 1);
    return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a);
  }
  static double cfrac(double a, double b, double x) {
    double tiny = 1e-300, qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
    if (Math.abs(d) < tiny) d = tiny;
    d = 1 / d; double h = d;
    for (int m = 1; m < 2000; m++) {
      int m2 = 2 * m;
      double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
      d = 1 + aa * d; if (Math.abs(d) < tiny) d = tiny; c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny; d = 1 / d; h *= d * c;
      aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
      d = 1 + aa * d; if (Math.abs(d) < tiny) d = tiny; c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny; d = 1 / d; double del = d * c; h *= del;
      if (Math.abs(del - 1) < 1e-15) break;
    }
    return h;
  }
  static double betainc(double a, double b, double x) {
    if (!(x > 0)) return 0; if (x >= 1) return 1;
    double bt = Math.exp(lgam(a + b) - lgam(a) - lgam(b) + a * Math.log(x) + b * Math.log1p(-x));
    return x < (a + 1) / (a + b + 2) ? bt * cfrac(a, b, x) / a : 1 - bt * cfrac(b, a, 1 - x) / b;
  }
  public static Value FBetaInc(Value a, Value b, Value x) { return w(betainc(d(a), d(b), d(x))); }
  public static Value FAtan(Value x) { return w(StrictMath.atan(d(x))); }
  public static Value VKS(Value v) {
    double[] a = dv(v); java.util.Arrays.sort(a); double m = 0; int n = a.length;
    for (int i = 0; i < n; i++) { if (Double.isNaN(a[i])) return w(1); m = Math.max(m, Math.max(Math.abs((i + 1.0) / n - a[i]), Math.abs(a[i] - (double) i / n))); }
    return w(m);
  }
  static double[][] dm(Value m) { Value[] e = el(m); double[][] r = new double[e.length][]; for (int i = 0; i < r.length; i++) r[i] = dv(e[i]); return r; }
  public static Value MVec(Value m, Value v) {
    double[][] a = dm(m); double[] x = dv(v), r = new double[a.length];
    for (int i = 0; i < r.length; i++) for (int j = 0; j < x.length; j++) r[i] += a[i][j] * x[j];
    return wv(r);
  }
  public static Value MLogAbsDet(Value m) {
    double[][] a = dm(m); int n = a.length; double s = 0;
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      double[] t = a[p]; a[p] = a[k]; a[k] = t;
      s += Math.log(Math.abs(a[k][k]));
      for (int i = k + 1; i < n; i++) { double f = a[i][k] / a[k][k]; for (int j = k; j < n; j++) a[i][j] -= f * a[k][j]; }
    }
    return w(s);
  }
  static double norminv(double p) {
    if (!(p > 0 && p < 1)) return p == 0 ? Double.NEGATIVE_INFINITY : p == 1 ? Double.POSITIVE_INFINITY : Double.NaN;
    double lo = -9, hi = 9;
    for (int i = 0; i < 200; i++) { double m = 0.5 * (lo + hi); if (0.5 * (1 + erf(m / Math.sqrt(2.0))) < p) lo = m; else hi = m; }
    return 0.5 * (lo + hi);
  }
  public static Value FNormInv(Value p) { return w(norminv(d(p))); }
  public static Value FLgamma(Value x) { return w(lgam(d(x))); }
  public static Value FDigamma(Value v) {
    double x = d(v), r = 0;
    while (x < 12) { r -= 1 / x; x += 1; }
    double f = 1 / (x * x);
    return w(r + Math.log(x) - 0.5 / x - f * (1.0 / 12 - f * (1.0 / 120 - f * (1.0 / 252 - f * (1.0 / 240 - f * (5.0 / 660 - f * 691.0 / 32760))))));
  }
  public static Value MMul(Value x, Value y) {
    double[][] a = dm(x), b = dm(y); Value[] out = new Value[a.length];
    for (int i = 0; i < a.length; i++) { double[] r = new double[b[0].length];
      for (int j = 0; j < r.length; j++) for (int k = 0; k < b.length; k++) r[j] += a[i][k] * b[k][j];
      out[i] = wv(r); }
    return new TupleValue(out);
  }
  public static Value MInv(Value x) {
    double[][] a = dm(x); int n = a.length; double[][] b = new double[n][n];
    for (int i = 0; i < n; i++) b[i][i] = 1;
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      double[] t = a[p]; a[p] = a[k]; a[k] = t; t = b[p]; b[p] = b[k]; b[k] = t;
      double q = a[k][k]; for (int j = 0; j < n; j++) { a[k][j] /= q; b[k][j] /= q; }
      for (int i = 0; i < n; i++) if (i != k) { double f = a[i][k]; for (int j = 0; j < n; j++) { a[i][j] -= f * a[k][j]; b[i][j] -= f * b[k][j]; } }
    }
    Value[] out = new Value[n]; for (int i = 0; i < n; i++) out[i] = wv(b[i]);
    return new TupleValue(out);
  }
  /* weighted second moment about c: sum_k w_k (x_k - c)(x_k - c)^T */
  public static Value MScatter(Value xs, Value ws, Value c) {
    double[][] x = dm(xs); double[] wt = dv(ws), m = dv(c); int n = m.length; double[][] r = new double[n][n];
    for (int k = 0; k < x.length; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] += wt[k] * (x[k][i] - m[i]) * (x[k][j] - m[j]);
    Value[] out = new Value[n]; for (int i = 0; i < n; i++) out[i] = wv(r[i]);
    return new TupleValue(out);
  }
  public static Value MWMean(Value xs, Value ws) {
    double[][] x = dm(xs); double[] wt = dv(ws); int n = x[0].length; double[] r = new double[n]; double t = 0;
    for (int k = 0; k < x.length; k++) { t += wt[k]; for (int i = 0; i < n; i++) r[i] += wt[k] * x[k][i]; }
    for (int i = 0; i < n; i++) r[i] /= t;
    return wv(r);
  }
  public static Value VMaha(Value xs, Value mu, Value inv) {
    double[][] x = dm(xs), a = dm(inv); double[] m = dv(mu), r = new double[x.length]; int n = m.length;
    for (int k = 0; k < x.length; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[k] += (x[k][i] - m[i]) * a[i][j] * (x[k][j] - m[j]);
    return wv(r);
  }
}
