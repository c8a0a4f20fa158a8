// IEEE-754 double arithmetic for TLC.  Java override of module F64 (see F64.tla).
// A double is a TLA+ string holding its shortest decimal representation, or a TLA+ integer.
// A vector is a sequence of doubles, a matrix a sequence of vectors.  All arithmetic broadcasts
// scalars over vectors and vectors over matrices' rows element by element (same length).
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

public class F64 {
  interface B { double f(double a, double b); }
  interface U { double f(double a); }
  static final java.util.concurrent.ConcurrentHashMap<String, Double> cache = new java.util.concurrent.ConcurrentHashMap<>();
  static double p(String s) {
    Double c = cache.get(s);
    if (c != null) return c;
    double x;
    try { x = Double.parseDouble(s); }
    catch (NumberFormatException e) {
      if (s.equals("nan")) x = Double.NaN; else if (s.equals("inf")) x = Double.POSITIVE_INFINITY;
      else if (s.equals("-inf")) x = Double.NEGATIVE_INFINITY;
      else x = Double.NaN;
    }
    if (cache.size() < 2000000) cache.put(s, x);
    return x;
  }
  static boolean isNum(Value v) { return v instanceof IntValue || v instanceof StringValue; }
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return p(((StringValue) v).getVal().toString());
    if (v instanceof BoolValue) return ((BoolValue) v).val ? 1.0 : 0.0;
    return Double.NaN;
  }
  static Value r(double x) { return new StringValue(Double.toString(x)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] t(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value w = v.toTuple();
    if (w == null) return null;
    return ((TupleValue) w).elems;
  }
  static Value tup(Value[] x) { return new TupleValue(x); }
  static Value bin(Value a, Value c, B f) {
    boolean na = isNum(a), nc = isNum(c);
    if (na && nc) return r(f.f(d(a), d(c)));
    if (na) { Value[] y = t(c); Value[] o = new Value[y.length]; for (int i = 0; i < y.length; i++) o[i] = bin(a, y[i], f); return tup(o); }
    if (nc) { Value[] x = t(a); Value[] o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = bin(x[i], c, f); return tup(o); }
    Value[] x = t(a), y = t(c);
    if (x.length == 1 && y.length != 1) { Value[] o = new Value[y.length]; for (int i = 0; i < y.length; i++) o[i] = bin(x[0], y[i], f); return tup(o); }
    if (y.length == 1 && x.length != 1) { Value[] o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = bin(x[i], y[0], f); return tup(o); }
    if (x.length != y.length) return tup(new Value[]{ r(Double.NaN), r(Double.NaN), r(Double.NaN) });
    Value[] o = new Value[x.length];
    for (int i = 0; i < x.length; i++) o[i] = bin(x[i], y[i], f);
    return tup(o);
  }
  static Value un(Value a, U f) {
    if (isNum(a)) return r(f.f(d(a)));
    Value[] x = t(a); Value[] o = new Value[x.length];
    for (int i = 0; i < x.length; i++) o[i] = un(x[i], f);
    return tup(o);
  }
  static void flat(Value a, java.util.ArrayList<Double> l) {
    if (isNum(a) || a instanceof BoolValue) { l.add(d(a)); return; }
    Value[] x = t(a);
    if (x == null) { l.add(Double.NaN); return; }
    for (Value v : x) flat(v, l);
  }
  static double[] fl(Value a) {
    java.util.ArrayList<Double> l = new java.util.ArrayList<>(); flat(a, l);
    double[] o = new double[l.size()]; for (int i = 0; i < o.length; i++) o[i] = l.get(i); return o;
  }
  static Value vec(double[] x) { Value[] o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = r(x[i]); return tup(o); }

  public static Value FAdd(Value a, Value c) { return bin(a, c, (x, y) -> x + y); }
  public static Value FSub(Value a, Value c) { return bin(a, c, (x, y) -> x - y); }
  public static Value FMul(Value a, Value c) { return bin(a, c, (x, y) -> x * y); }
  public static Value FDiv(Value a, Value c) { return bin(a, c, (x, y) -> x / y); }
  public static Value FPow(Value a, Value c) { return bin(a, c, Math::pow); }
  public static Value FMax(Value a, Value c) { return bin(a, c, Math::max); }
  public static Value FMin(Value a, Value c) { return bin(a, c, Math::min); }
  public static Value FAtan2(Value a, Value c) { return bin(a, c, Math::atan2); }
  public static Value FNeg(Value a) { return un(a, x -> -x); }
  public static Value FAbs(Value a) { return un(a, Math::abs); }
  public static Value FSqrt(Value a) { return un(a, Math::sqrt); }
  public static Value FExp(Value a) { return un(a, Math::exp); }
  public static Value FLog(Value a) { return un(a, Math::log); }
  public static Value FSin(Value a) { return un(a, Math::sin); }
  public static Value FCos(Value a) { return un(a, Math::cos); }
  public static Value FTan(Value a) { return un(a, Math::tan); }
  public static Value FAsin(Value a) { return un(a, Math::asin); }
  public static Value FAcos(Value a) { return un(a, Math::acos); }
  public static Value FAtan(Value a) { return un(a, Math::atan); }
  public static Value FTanh(Value a) { return un(a, Math::tanh); }
  public static Value FSinh(Value a) { return un(a, Math::sinh); }
  public static Value FCosh(Value a) { return un(a, Math::cosh); }
  public static Value FRint(Value a) { return un(a, Math::rint); }
  public static Value FFloor(Value a) { return un(a, Math::floor); }
  // step functions: 1.0 where true
  public static Value FStepLt(Value a, Value c) { return bin(a, c, (x, y) -> x < y ? 1.0 : 0.0); }
  public static Value FStepLe(Value a, Value c) { return bin(a, c, (x, y) -> x <= y ? 1.0 : 0.0); }
  // element-wise choice: where m is nonzero take a, else c (no NaN leakage from the branch not taken)
  public static Value FWhere(Value m, Value a, Value c) {
    double[] mm = fl(m); double[] x = fl(a), y = fl(c); int n = Math.max(mm.length, Math.max(x.length, y.length));
    double[] o = new double[n];
    for (int i = 0; i < n; i++) { double k = mm[mm.length == 1 ? 0 : i]; o[i] = k != 0 ? x[x.length == 1 ? 0 : i] : y[y.length == 1 ? 0 : i]; }
    return (isNum(m) && isNum(a) && isNum(c)) ? r(o[0]) : vec(o);
  }
  public static Value FSum(Value a) { double s = 0; for (double x : fl(a)) s += x; return r(s); }
  public static Value FProd(Value a) { double s = 1; for (double x : fl(a)) s *= x; return r(s); }
  public static Value FMaxOf(Value a) { double s = Double.NEGATIVE_INFINITY; for (double x : fl(a)) s = Math.max(s, x); return r(s); }
  public static Value FMinOf(Value a) { double s = Double.POSITIVE_INFINITY; for (double x : fl(a)) s = Math.min(s, x); return r(s); }
  public static Value FDot(Value a, Value c) { double[] x = fl(a), y = fl(c); if (x.length != y.length) return r(Double.NaN); double s = 0; for (int i = 0; i < x.length; i++) s += x[i] * y[i]; return r(s); }
  public static Value FMatVec(Value m, Value v) { Value[] x = t(m); Value[] o = new Value[x.length]; for (int i = 0; i < x.length; i++) o[i] = FDot(x[i], v); return tup(o); }
  public static Value FCumsum(Value a) { double[] x = fl(a); double s = 0; for (int i = 0; i < x.length; i++) { s += x[i]; x[i] = s; } return vec(x); }
  public static Value FFlat(Value a) { return vec(fl(a)); }
  public static Value FRep(Value a, Value n) { int k = ((IntValue) n).val; Value[] o = new Value[k]; for (int i = 0; i < k; i++) o[i] = a; return tup(o); }
  public static Value FLinspace(Value a, Value c, Value n) { int k = ((IntValue) n).val; double x = d(a), y = d(c); double[] o = new double[k]; for (int i = 0; i < k; i++) o[i] = k == 1 ? x : x + (y - x) * i / (k - 1); return vec(o); }
  public static Value FSolve(Value m, Value v) {
    Value[] rows = t(m); int n = rows.length; double[][] A = new double[n][]; double[] c = fl(v);
    for (int i = 0; i < n; i++) A[i] = fl(rows[i]);
    for (int k = 0; k < n; k++) {
      int q = k; for (int i = k + 1; i < n; i++) if (Math.abs(A[i][k]) > Math.abs(A[q][k])) q = i;
      double[] tr = A[k]; A[k] = A[q]; A[q] = tr; double tc = c[k]; c[k] = c[q]; c[q] = tc;
      for (int i = k + 1; i < n; i++) { double f = A[i][k] / A[k][k]; if (f == 0) continue; for (int j = k; j < n; j++) A[i][j] -= f * A[k][j]; c[i] -= f * c[k]; }
    }
    for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) c[k] -= A[k][j] * c[j]; c[k] /= A[k][k]; }
    return vec(c);
  }
  // piecewise-linear interpolation of the table (xs increasing, ys) at x, clamped; broadcasts over x
  public static Value FInterp(Value x, Value xs, Value ys) {
    double[] X = fl(xs), Y = fl(ys);
    return un(x, z -> { if (z <= X[0]) return Y[0]; int n = X.length; if (z >= X[n - 1]) return Y[n - 1];
      int i = 1; while (X[i] < z) i++; return Y[i - 1] + (Y[i] - Y[i - 1]) * (z - X[i - 1]) / (X[i] - X[i - 1]); });
  }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FAllLe(Value a, Value c) { double[] x = fl(a), y = fl(c); int n = Math.max(x.length, y.length); for (int i = 0; i < n; i++) if (!(x[x.length == 1 ? 0 : i] <= y[y.length == 1 ? 0 : i])) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  public static Value FFinite(Value a) { for (double x : fl(a)) if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  public static Value FIsNum(Value a) { return b(isNum(a)); }
  // bitwise equality of all entries (NaN equals NaN), same length
  public static Value FSame(Value a, Value c) { double[] x = fl(a), y = fl(c); if (x.length != y.length) return BoolValue.ValFalse; for (int i = 0; i < x.length; i++) if (!(x[i] == y[i] || (Double.isNaN(x[i]) && Double.isNaN(y[i])))) return BoolValue.ValFalse; return BoolValue.ValTrue; }
  // |a-c| <= at + rt*max(|a|,|c|) for every entry; false on NaN or different length (a scalar c broadcasts)
  public static Value FClose(Value a, Value c, Value rt, Value at) {
    double[] x = fl(a), y = fl(c); double R = d(rt), A = d(at);
    if (x.length != y.length && y.length != 1 && x.length != 1) return BoolValue.ValFalse;
    int n = Math.max(x.length, y.length);
    for (int i = 0; i < n; i++) { double u = x[x.length == 1 ? 0 : i], v = y[y.length == 1 ? 0 : i];
      if (u == v) continue;
      if (!(Math.abs(u - v) <= A + R * Math.max(Math.abs(u), Math.abs(v)))) return BoolValue.ValFalse; }
    return BoolValue.ValTrue;
  }
  // like FClose but relative to the largest magnitude of either vector
  public static Value FCloseN(Value a, Value c, Value rt, Value at) {
    double[] x = fl(a), y = fl(c); double R = d(rt), A = d(at), m = 0;
    if (x.length != y.length && y.length != 1 && x.length != 1) return BoolValue.ValFalse;
    for (double u : x) { if (Double.isNaN(u)) return BoolValue.ValFalse; m = Math.max(m, Math.abs(u)); }
    for (double u : y) { if (Double.isNaN(u)) return BoolValue.ValFalse; m = Math.max(m, Math.abs(u)); }
    int n = Math.max(x.length, y.length);
    for (int i = 0; i < n; i++) if (!(Math.abs(x[x.length == 1 ? 0 : i] - y[y.length == 1 ? 0 : i]) <= A + R * m)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value FMaxDiff(Value a, Value c) { double[] x = fl(a), y = fl(c); if (x.length != y.length && x.length != 1 && y.length != 1) return r(Double.POSITIVE_INFINITY); double s = 0; int n = Math.max(x.length, y.length); for (int i = 0; i < n; i++) { double e = Math.abs(x[x.length == 1 ? 0 : i] - y[y.length == 1 ? 0 : i]); if (!(e <= s)) s = e; } return r(s); }
}
