// Java override of module Num (spec/Num.tla): complex double arithmetic with a
// running forward error bound.  A number is the TLA+ tuple
//   <<re_hi, re_lo, im_hi, im_lo, err_hi, err_lo>>
// i.e. the bit patterns of three doubles, so that states stay plain TLA+ values.
// err = +infinity marks a number nobody may rely on (out of domain, on a branch
// cut, overflow).
import tlc2.value.impl.*;
import java.util.HashMap;

public class Num {
  static final double EPS = 0x1p-52;
  static final double BIG = 1e7;
  static final double[] BADV = {0, 0, Double.POSITIVE_INFINITY};

  static int bits(Value v) { return ((IntValue) v).val; }
  static double[] get(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] r = new double[3];
    for (int i = 0; i < 3; i++) {
      long hi = ((IntValue) t.elems[2 * i]).val, lo = ((IntValue) t.elems[2 * i + 1]).val & 0xffffffffL;
      r[i] = Double.longBitsToDouble((hi << 32) | lo);
    }
    return r;
  }
  static Value put(double re, double im, double err) {
    if (!(err < Double.POSITIVE_INFINITY) || !Double.isFinite(re) || !Double.isFinite(im)
        || Math.abs(re) > BIG || Math.abs(im) > BIG) { re = 0; im = 0; err = Double.POSITIVE_INFINITY; }
    if (re == 0) re = 0.0; // no negative zero
    if (im == 0) im = 0.0;
    Value[] e = new Value[6];
    double[] d = {re + 0.0, im + 0.0, err};
    for (int i = 0; i < 3; i++) {
      long b = Double.doubleToRawLongBits(d[i]);
      e[2 * i] = IntValue.gen((int) (b >> 32));
      e[2 * i + 1] = IntValue.gen((int) b);
    }
    return new TupleValue(e);
  }
  static Value put(double[] a) { return put(a[0], a[1], a[2]); }
  static double abs(double[] a) { return Math.hypot(a[0], a[1]); }
  static boolean bad(double[] a) { return !(a[2] < Double.POSITIVE_INFINITY); }
  static boolean integral(double x) { return x == Math.rint(x) && Math.abs(x) < 1e6; }
  // sums and products of small integers are exact in any order
  static double rnd(double re, double im) { return (integral(re) && integral(im)) ? 0 : EPS * Math.hypot(re, im); }
  static boolean exact(double[] a) { return a[2] == 0 && integral(a[0]) && integral(a[1]); }

  public static Value NumQ(Value n, Value d) {
    return put((double) bits(n) / bits(d), 0, 0);
  }
  public static Value NumC(Value a, Value b) {
    double[] x = get(a), y = get(b);
    return put(x[0], y[0], x[2] + y[2]);
  }
  static double[] add(double[] x, double[] y) {
    if (bad(x) || bad(y)) return BADV;
    double re = x[0] + y[0], im = x[1] + y[1];
    double e = x[2] + y[2];
    if (!(exact(x) && exact(y))) e += EPS * (abs(x) + abs(y));
    return new double[]{re, im, e};
  }
  static double[] neg(double[] x) { return new double[]{-x[0], -x[1], x[2]}; }
  static double[] mul(double[] x, double[] y) {
    if (bad(x) || bad(y)) return BADV;
    double re = x[0] * y[0] - x[1] * y[1], im = x[0] * y[1] + x[1] * y[0];
    double ax = abs(x), ay = abs(y);
    double e = ax * y[2] + ay * x[2] + x[2] * y[2];
    if (!(exact(x) && exact(y))) e += 2 * EPS * ax * ay;
    return new double[]{re, im, e};
  }
  static double[] div(double[] x, double[] y) {
    if (bad(x) || bad(y)) return BADV;
    double ay = abs(y);
    if (!(ay > 1e-4) || y[2] > 0.01 * ay) return BADV;
    double n = y[0] * y[0] + y[1] * y[1];
    double re = (x[0] * y[0] + x[1] * y[1]) / n, im = (x[1] * y[0] - x[0] * y[1]) / n;
    double q = Math.hypot(re, im);
    double e = (x[2] + q * y[2]) / ay * 1.1 + 4 * EPS * q;
    return new double[]{re, im, e};
  }
  // complex elementary functions
  static double[] c(double a, double b) { return new double[]{a, b}; }
  static double[] ca(double[] a, double[] b) { return c(a[0] + b[0], a[1] + b[1]); }
  static double[] cs(double[] a, double[] b) { return c(a[0] - b[0], a[1] - b[1]); }
  static double[] cm(double[] a, double[] b) { return c(a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]); }
  static double[] cd(double[] a, double[] b) {
    double n = b[0] * b[0] + b[1] * b[1];
    return c((a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n);
  }
  static double[] cexp(double[] a) { double m = Math.exp(a[0]); return c(m * Math.cos(a[1]), m * Math.sin(a[1])); }
  static double[] clog(double[] a) { return c(Math.log(Math.hypot(a[0], a[1])), Math.atan2(a[1], a[0])); }
  static double[] csqrt(double[] a) {
    double m = Math.hypot(a[0], a[1]);
    double r = Math.sqrt((m + Math.abs(a[0])) / 2);
    if (m == 0) return c(0, 0);
    if (a[0] >= 0) return c(r, a[1] / (2 * r));
    double s = a[1] < 0 ? -r : r;
    return c(a[1] / (2 * s), s);
  }
  static double[] csin(double[] a) { return c(Math.sin(a[0]) * Math.cosh(a[1]), Math.cos(a[0]) * Math.sinh(a[1])); }
  static double[] ccos(double[] a) { return c(Math.cos(a[0]) * Math.cosh(a[1]), -Math.sin(a[0]) * Math.sinh(a[1])); }
  static double[] csinh(double[] a) { return c(Math.sinh(a[0]) * Math.cos(a[1]), Math.cosh(a[0]) * Math.sin(a[1])); }
  static double[] ccosh(double[] a) { return c(Math.cosh(a[0]) * Math.cos(a[1]), Math.sinh(a[0]) * Math.sin(a[1])); }
  static final double[] ONE = {1, 0}, I = {0, 1}, MI = {0, -1};
  static double[] casin(double[] z) { // -i log(i z + sqrt(1-z^2))
    double[] s = cm(csqrt(cs(ONE, z)), csqrt(ca(ONE, z)));
    // the factor of larger modulus: (i z + s) (-i z + s) = 1
    double[] w = ca(cm(I, z), s), v = cs(s, cm(I, z));
    if (Math.hypot(w[0], w[1]) >= Math.hypot(v[0], v[1])) return cm(MI, clog(w));
    return cm(I, clog(v));
  }
  static double[] cacos(double[] z) { double[] s = casin(z); return c(Math.PI / 2 - s[0], -s[1]); }
  static double[] catanh(double[] z) { // (log(1+z)-log(1-z))/2
    double[] l = cs(clog(ca(ONE, z)), clog(cs(ONE, z)));
    return c(l[0] / 2, l[1] / 2);
  }
  static double[] catan(double[] z) { return cm(MI, catanh(cm(I, z))); }
  static double[] casinh(double[] z) { return cm(MI, casin(cm(I, z))); }
  static double[] cacosh(double[] z) { // 2 log( sqrt((z+1)/2) + sqrt((z-1)/2) )
    double[] h = c(0.5, 0);
    double[] l = clog(ca(csqrt(cm(h, ca(z, ONE))), csqrt(cm(h, cs(z, ONE)))));
    return c(2 * l[0], 2 * l[1]);
  }
  static final double CUT = 1e-3; // distance to a branch cut below which nothing is asserted

  static double[] fn(String f, double[] x, boolean real) {
    if (bad(x)) return BADV;
    double[] z = c(x[0], x[1]);
    double a = Math.hypot(z[0], z[1]);
    double re = z[0], im = z[1];
    if (real && im != 0) return BADV;
    double[] r; double d; // value and |derivative|
    boolean nearPos; // helper
    switch (f) {
      case "exp": if (re > 12) return BADV; r = cexp(z); d = Math.hypot(r[0], r[1]); break;
      case "sin": if (Math.abs(im) > 10) return BADV; r = csin(z); { double[] t = ccos(z); d = Math.hypot(t[0], t[1]); } break;
      case "cos": if (Math.abs(im) > 10) return BADV; r = ccos(z); { double[] t = csin(z); d = Math.hypot(t[0], t[1]); } break;
      case "sinh": if (Math.abs(re) > 10) return BADV; r = csinh(z); { double[] t = ccosh(z); d = Math.hypot(t[0], t[1]); } break;
      case "cosh": if (Math.abs(re) > 10) return BADV; r = ccosh(z); { double[] t = csinh(z); d = Math.hypot(t[0], t[1]); } break;
      case "tan": { if (Math.abs(im) > 8) return BADV; double[] t = ccos(z); double m = Math.hypot(t[0], t[1]); if (m < 0.02) return BADV; r = cd(csin(z), t); d = 1 / (m * m); } break;
      case "tanh": { if (Math.abs(re) > 8) return BADV; double[] t = ccosh(z); double m = Math.hypot(t[0], t[1]); if (m < 0.02) return BADV; r = cd(csinh(z), t); d = 1 / (m * m); } break;
      case "log": if (a < 0.01 || (re < 0 && Math.abs(im) < CUT)) return BADV; r = clog(z); d = 1 / a; break;
      case "sqrt": if (a < 0.01 || (re < 0 && Math.abs(im) < CUT)) return BADV; r = csqrt(z); d = 0.5 / Math.sqrt(a); break;
      case "asin": case "acos": {
        if (Math.abs(re) > 0.98 && Math.abs(im) < 0.02) return BADV;
        r = f.equals("asin") ? casin(z) : cacos(z);
        double[] t = cs(ONE, cm(z, z)); d = 1 / Math.sqrt(Math.hypot(t[0], t[1])); break; }
      case "atan": case "asinh": {
        if (f.equals("atan") || f.equals("asinh")) if (Math.abs(im) > 0.98 && Math.abs(re) < 0.02) return BADV;
        double[] t = ca(ONE, cm(z, z)); double m = Math.hypot(t[0], t[1]);
        if (f.equals("atan")) { r = catan(z); d = 1 / m; } else { r = casinh(z); d = 1 / Math.sqrt(m); } break; }
      case "atanh": {
        if (Math.abs(re) > 0.98 && Math.abs(im) < 0.02) return BADV;
        double[] t = cs(ONE, cm(z, z)); r = catanh(z); d = 1 / Math.hypot(t[0], t[1]); break; }
      case "acosh": {
        if (re < 1.02 && Math.abs(im) < 0.02) return BADV;
        double[] t = cs(cm(z, z), ONE); r = cacosh(z); d = 1 / Math.sqrt(Math.hypot(t[0], t[1])); break; }
      case "acoshd": { // derivative of acosh, in the right half plane
        if (re < 0.02 || (re < 1.02 && Math.abs(im) < 0.02)) return BADV;
        double[] t = cs(cm(z, z), ONE); double m = Math.hypot(t[0], t[1]);
        if (m < 1e-3) return BADV;
        r = cd(ONE, cm(csqrt(cs(z, ONE)), csqrt(ca(z, ONE)))); d = a / (m * Math.sqrt(m)); break; }
      case "sigmoid": { // 1/(1+exp(-z))
        if (Math.abs(re) > 12) return BADV;
        double[] t = ca(ONE, cexp(c(-re, -im))); double m = Math.hypot(t[0], t[1]);
        if (m < 0.02) return BADV;
        r = cd(ONE, t); d = Math.hypot(r[0], r[1]) * Math.hypot(1 - r[0], r[1]); break; }
      case "abs": if (!real || Math.abs(re) <= 8 * x[2] || re == 0) return BADV; r = c(Math.abs(re), 0); d = 1; break;
      case "relu": if (!real || (re != 0 && Math.abs(re) <= 8 * x[2]) || (re == 0 && x[2] != 0)) return BADV; r = c(re >= 0 ? re : 0, 0); d = 1; break;
      case "leaky": if (!real || (re != 0 && Math.abs(re) <= 8 * x[2]) || (re == 0 && x[2] != 0)) return BADV; r = c(re >= 0 ? re : 0.01 * re, 0); d = 1; break;
      case "step": if (!real || (re != 0 && Math.abs(re) <= 8 * x[2]) || (re == 0 && x[2] != 0)) return BADV; r = c(re >= 0 ? 1 : 0, 0); d = 0; break;
      case "leakyd": if (!real || (re != 0 && Math.abs(re) <= 8 * x[2]) || (re == 0 && x[2] != 0)) return BADV; r = c(re >= 0 ? 1 : 0.01, 0); d = 0; break;
      case "sign": if (!real || Math.abs(re) <= 8 * x[2] || re == 0) return BADV; r = c(Math.signum(re), 0); d = 0; break;
      default: throw new RuntimeException("Num: unknown function " + f);
    }
    if (real && (r[1] != 0) && Math.abs(r[1]) > 1e-12) return BADV;
    if (real) r[1] = 0;
    if (!Double.isFinite(d) || d > 1e5) return BADV;
    if (x[2] > 1e-3 * (1 + a)) return BADV;
    double m = Math.hypot(r[0], r[1]);
    double e = 1.2 * d * x[2] + 8 * EPS * (m + Math.min(1, d * a));
    return new double[]{r[0], r[1], e};
  }
  static double[] pow(double[] x, double[] y, boolean real) {
    if (bad(x) || bad(y)) return BADV;
    double ax = abs(x);
    if (y[1] == 0 && y[2] == 0 && y[0] == Math.rint(y[0]) && Math.abs(y[0]) <= 8) {
      int n = (int) y[0];
      if (n == 0) return new double[]{1, 0, ax < 1e-3 ? Double.POSITIVE_INFINITY : 0};
      double[] b = n > 0 ? x : div(new double[]{1, 0, 0}, x);
      if (bad(b)) return BADV;
      double[] r = b;
      for (int i = 1; i < Math.abs(n); i++) r = mul(r, b);
      double m = abs(r);
      // a library may go through exp(y log x)
      return new double[]{r[0], r[1], r[2] + 8 * EPS * m * (1 + Math.abs(y[0]) * (Math.abs(Math.log(Math.max(ax, 1e-300))) + 3))};
    }
    double[] l = fn("log", x, real);
    if (bad(l)) return BADV;
    double[] r = fn("exp", mul(y, l), real);
    if (bad(r)) return BADV;
    return new double[]{r[0], r[1], r[2] + 8 * EPS * abs(r) * (1 + abs(y) * abs(l))};
  }
  public static Value NumAdd(Value a, Value b) { return put(add(get(a), get(b))); }
  public static Value NumSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
  public static Value NumMul(Value a, Value b) { return put(mul(get(a), get(b))); }
  public static Value NumDiv(Value a, Value b) { return put(div(get(a), get(b))); }
  public static Value NumNeg(Value a) { return put(neg(get(a))); }
  public static Value NumPow(Value a, Value b, Value real) { return put(pow(get(a), get(b), ((BoolValue) real).val)); }
  public static Value NumFn(Value f, Value a, Value real) { return put(fn(((StringValue) f).val.toString(), get(a), ((BoolValue) real).val)); }
  public static Value NumOK(Value a) {
    double[] x = get(a);
    return (!bad(x) && x[2] <= 1e-9 * (1 + abs(x))) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value NumSmall(Value a) {
    double[] x = get(a);
    return (bad(x) || abs(x) < 0.05) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  // |a - b| <= k * (err(a) + err(b)) + k * 2^-52 : equality up to the tracked error
  public static Value NumClose(Value a, Value b, Value k) {
    double[] x = get(a), y = get(b);
    if (bad(x) || bad(y)) return BoolValue.ValTrue;
    double d = Math.hypot(x[0] - y[0], x[1] - y[1]);
    return d <= bits(k) * (x[2] + y[2] + EPS * (1 + abs(x))) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value NumStr(Value a) {
    double[] x = get(a);
    return new StringValue(bad(x) ? "undefined" : (x[1] == 0 ? "" + x[0] : "(" + x[0] + "," + x[1] + ")"));
  }
}
