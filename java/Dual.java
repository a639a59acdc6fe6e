// Java override of the hot operators of spec/Dual.tla.
import tlc2.value.impl.*;

public class Dual {
  static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static Value pair(Value v, Value[] d) { return new TupleValue(new Value[]{v, new TupleValue(d)}); }

  public static Value DAdd(Value a, Value b) {
    Value[] x = el(a), y = el(b), p = el(x[1]), q = el(y[1]), r = new Value[p.length];
    for (int i = 0; i < r.length; i++) r[i] = Num.NumAdd(p[i], q[i]);
    return pair(Num.NumAdd(x[0], y[0]), r);
  }
  public static Value DSub(Value a, Value b) {
    Value[] x = el(a), y = el(b), p = el(x[1]), q = el(y[1]), r = new Value[p.length];
    for (int i = 0; i < r.length; i++) r[i] = Num.NumSub(p[i], q[i]);
    return pair(Num.NumSub(x[0], y[0]), r);
  }
  public static Value DMul(Value a, Value b) {
    Value[] x = el(a), y = el(b), p = el(x[1]), q = el(y[1]), r = new Value[p.length];
    double[] u = Num.get(x[0]), v = Num.get(y[0]);
    for (int i = 0; i < r.length; i++)
      r[i] = Num.put(Num.add(Num.mul(Num.get(p[i]), v), Num.mul(u, Num.get(q[i]))));
    return pair(Num.put(Num.mul(u, v)), r);
  }
  public static Value DChain(Value v, Value k, Value a) {
    Value[] p = el(el(a)[1]), r = new Value[p.length];
    for (int i = 0; i < r.length; i++) r[i] = Num.NumMul(k, p[i]);
    return pair(v, r);
  }
  public static Value DScale(Value k, Value a) {
    Value[] x = el(a);
    return DChain(Num.NumMul(k, x[0]), k, a);
  }
  // sum of products, from the last to the first as DSum does
  public static Value DDot(Value s, Value t) {
    Value[] a = el(s), b = el(t);
    int m = a.length;
    double[] acc = null;
    double[][] d = null;
    for (int k = m - 1; k >= 0; k--) {
      Value[] x = el(a[k]), y = el(b[k]), p = el(x[1]), q = el(y[1]);
      double[] u = Num.get(x[0]), v = Num.get(y[0]), w = Num.mul(u, v);
      if (d == null) d = new double[p.length][];
      acc = acc == null ? w : Num.add(w, acc);
      for (int i = 0; i < p.length; i++) {
        double[] z = Num.add(Num.mul(Num.get(p[i]), v), Num.mul(u, Num.get(q[i])));
        d[i] = d[i] == null ? z : Num.add(z, d[i]);
      }
    }
    Value[] r = new Value[d.length];
    for (int i = 0; i < r.length; i++) r[i] = Num.put(d[i]);
    return pair(Num.put(acc), r);
  }
  static double max(Value[] e, int d) {   // largest magnitude of the values (d < 0) or of the d-th derivatives
    double m = 0;
    for (Value x : e) {
      Value[] q = el(x);
      m = Math.max(m, Num.abs(Num.get(d < 0 ? q[0] : el(q[1])[d])));
    }
    return m;
  }
  static Value more(Value v, double w) {
    double[] x = Num.get(v);
    return Num.put(x[0], x[1], x[2] + 8 * Num.EPS * w);
  }
  // the entries s of the inverse of the n by n matrix with entries a, known
  // as well as a backward stable algorithm finds them
  public static Value DSolved(Value s, Value a, Value n) {
    Value[] e = el(s), f = el(a), r = new Value[e.length];
    double k = ((IntValue) n).val, ni = max(e, -1), na = max(f, -1), c = k * k * ni * na;
    int m = e.length == 0 ? 0 : el(el(e[0])[1]).length;
    double[] w = new double[m];
    for (int i = 0; i < m; i++) w[i] = 2 * k * k * ni * ni * max(f, i) * c;
    for (int j = 0; j < r.length; j++) {
      Value[] x = el(e[j]), p = el(x[1]), q = new Value[m];
      for (int i = 0; i < m; i++) q[i] = more(p[i], w[i]);
      r[j] = pair(more(x[0], k * ni * c), q);
    }
    return new TupleValue(r);
  }
  // likewise for the determinant d
  public static Value DSolvedDet(Value d, Value a, Value n) {
    Value[] f = el(a), x = el(d), p = el(x[1]), q = new Value[p.length];
    double k = ((IntValue) n).val, na = max(f, -1), w = 1, det = Math.max(Num.abs(Num.get(x[0])), 1e-9);
    for (int i = 1; i <= k; i++) w *= i * na;
    for (int i = 0; i < q.length; i++) q[i] = more(p[i], k * w * max(f, i) * (1 + w / det));
    return pair(more(x[0], k * w), q);
  }
  public static Value DOK(Value s) {
    for (Value d : el(s)) {
      Value[] x = el(d);
      if (Num.NumOK(x[0]) != BoolValue.ValTrue) return BoolValue.ValFalse;
      for (Value p : el(x[1])) if (Num.NumOK(p) != BoolValue.ValTrue) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
}
