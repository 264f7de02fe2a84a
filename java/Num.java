import java.io.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Java override of module Num (spec/Num.tla): real scalars, element-wise tensor arithmetic on nested
 * tuples, and the few dense linear-algebra primitives the specifications are written in.
 * Every operator here has its meaning stated in Num.tla; nothing in this file knows about regain.
 */
public class Num {
  // ---------- conversions
  static double d(Value v) {
    if (v instanceof RealNum) return ((RealNum) v).d;
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    if (v instanceof BoolValue) return ((BoolValue) v).val ? 1 : 0;
    throw new RuntimeException("not a number: " + v);
  }

  static double parse(String s) {
    if (s.equals("nan")) return Double.NaN;
    if (s.equals("inf")) return Double.POSITIVE_INFINITY;
    if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    return Double.parseDouble(s);
  }

  static Value num(double x) {
    return new RealNum(x);
  }

  static Value bool(boolean b) {
    return b ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static TupleValue tup(Value v) {
    if (v instanceof TupleValue) return (TupleValue) v;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return (TupleValue) t;
  }

  static boolean isSeq(Value v) {
    return !(v instanceof RealNum || v instanceof IntValue || v instanceof StringValue || v instanceof BoolValue);
  }

  static double[] vec(Value v) {
    Value[] e = tup(v).elems;
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
    return r;
  }

  static double[][] mat(Value v) {
    Value[] e = tup(v).elems;
    double[][] r = new double[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
    return r;
  }

  static Value of(double[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < e.length; i++) e[i] = num(a[i]);
    return new TupleValue(e);
  }

  static Value of(double[][] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < e.length; i++) e[i] = of(a[i]);
    return new TupleValue(e);
  }

  // ---------- scalars
  public static Value R(Value v) {
    if (isSeq(v)) {
      Value[] e = tup(v).elems;
      Value[] r = new Value[e.length];
      for (int i = 0; i < r.length; i++) r[i] = R(e[i]);
      return new TupleValue(r);
    }
    return num(d(v));
  }

  public static Value RDiv(Value a, Value b) { return num(d(a) / d(b)); }
  public static Value RLe(Value a, Value b) { return bool(d(a) <= d(b)); }
  public static Value RLt(Value a, Value b) { return bool(d(a) < d(b)); }
  public static Value RMax(Value a, Value b) { return num(Math.max(d(a), d(b))); }
  public static Value RMin(Value a, Value b) { return num(Math.min(d(a), d(b))); }
  public static Value RSqrt(Value a) { return num(Math.sqrt(d(a))); }
  public static Value RLog(Value a) { return num(Math.log(d(a))); }
  public static Value RExp(Value a) { return num(Math.exp(d(a))); }
  public static Value RPow(Value a, Value b) { return num(Math.pow(d(a), d(b))); }
  public static Value RIsFinite(Value a) { double x = d(a); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RIsNaN(Value a) { return bool(Double.isNaN(d(a))); }
  public static Value RSign(Value a) { return IntValue.gen((int) Math.signum(d(a))); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RLgamma(Value a) { return num(lgamma(d(a))); }
  public static Value RSin(Value a) { return num(Math.sin(d(a))); }
  public static Value RCos(Value a) { return num(Math.cos(d(a))); }

  static double lgamma(double x) {
    if (x < 12) { // shift up
      double p = 0;
      while (x < 12) { p += Math.log(x); x += 1; }
      return lgamma(x) - p;
    }
    double z = 1 / (x * x);
    double s = 1.0 / 12 - z * (1.0 / 360 - z * (1.0 / 1260 - z * (1.0 / 1680 - z * (1.0 / 1188 - z * (691.0 / 360360 - z / 156)))));
    return (x - 0.5) * Math.log(x) - x + 0.5 * Math.log(2 * Math.PI) + s / x;
  }

  // ---------- element-wise, any nesting depth; a scalar operand broadcasts
  interface F2 { double f(double a, double b); }
  interface F1 { double f(double a); }

  static Value map2(Value a, Value b, F2 f) {
    boolean sa = isSeq(a), sb = isSeq(b);
    if (!sa && !sb) return num(f.f(d(a), d(b)));
    Value[] ea = sa ? tup(a).elems : null, eb = sb ? tup(b).elems : null;
    int n = sa ? ea.length : eb.length;
    if (sa && sb && ea.length != eb.length)
      throw new RuntimeException("shape mismatch " + ea.length + " vs " + eb.length);
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = map2(sa ? ea[i] : a, sb ? eb[i] : b, f);
    return new TupleValue(r);
  }

  static Value map1(Value a, F1 f) {
    if (!isSeq(a)) return num(f.f(d(a)));
    Value[] ea = tup(a).elems;
    Value[] r = new Value[ea.length];
    for (int i = 0; i < r.length; i++) r[i] = map1(ea[i], f);
    return new TupleValue(r);
  }

  static double fold(Value a, double acc, F2 f) {
    if (!isSeq(a)) return f.f(acc, d(a));
    for (Value e : tup(a).elems) acc = fold(e, acc, f);
    return acc;
  }

  public static Value Add(Value a, Value b) { return map2(a, b, (x, y) -> x + y); }
  public static Value Sub(Value a, Value b) { return map2(a, b, (x, y) -> x - y); }
  public static Value Mul(Value a, Value b) { return map2(a, b, (x, y) -> x * y); }
  public static Value EDiv(Value a, Value b) { return map2(a, b, (x, y) -> x / y); }
  public static Value EMax(Value a, Value b) { return map2(a, b, (x, y) -> Math.max(x, y)); }
  public static Value EMin(Value a, Value b) { return map2(a, b, (x, y) -> Math.min(x, y)); }
  public static Value Abs(Value a) { return map1(a, Math::abs); }
  public static Value ESqrt(Value a) { return map1(a, Math::sqrt); }
  public static Value EExp(Value a) { return map1(a, Math::exp); }
  public static Value ELog(Value a) { return map1(a, Math::log); }
  public static Value ESgn(Value a) { return map1(a, Math::signum); }

  public static Value Soft(Value a, Value l) {
    return map2(a, l, (x, y) -> Math.signum(x) * Math.max(Math.abs(x) - y, 0));
  }

  public static Value Sum(Value a) { return num(fold(a, 0, (x, y) -> x + y)); }
  public static Value SumSq(Value a) { return num(fold(a, 0, (x, y) -> x + y * y)); }
  public static Value SumAbs(Value a) { return num(fold(a, 0, (x, y) -> x + Math.abs(y))); }

  public static Value MaxAbs(Value a) {
    return num(fold(a, 0, (x, y) -> Double.isNaN(y) || Double.isNaN(x) ? Double.NaN : Math.max(x, Math.abs(y))));
  }

  public static Value MinElt(Value a) { return num(fold(a, Double.POSITIVE_INFINITY, Math::min)); }
  public static Value MaxElt(Value a) { return num(fold(a, Double.NEGATIVE_INFINITY, Math::max)); }

  public static Value AllFinite(Value a) {
    return bool(fold(a, 0, (x, y) -> x + ((Double.isNaN(y) || Double.isInfinite(y)) ? 1 : 0)) == 0);
  }

  public static Value CountNZ(Value a) {
    return IntValue.gen((int) fold(a, 0, (x, y) -> x + (y != 0 ? 1 : 0)));
  }

  public static Value SameShape(Value a, Value b) { return bool(same(a, b)); }

  static boolean same(Value a, Value b) {
    boolean sa = isSeq(a), sb = isSeq(b);
    if (sa != sb) return false;
    if (!sa) return true;
    Value[] ea = tup(a).elems, eb = tup(b).elems;
    if (ea.length != eb.length) return false;
    for (int i = 0; i < ea.length; i++) if (!same(ea[i], eb[i])) return false;
    return true;
  }

  /** total: shape mismatch or NaN disagreement is "not close" */
  public static Value Close(Value a, Value b, Value atol, Value rtol) {
    double at = d(atol), rt = d(rtol);
    if (!same(a, b)) return bool(false);
    double bad =
        fold(
            map2(a, b, (x, y) -> {
              if (x == y) return 0;
              if (Double.isNaN(x) && Double.isNaN(y)) return 0;
              double s = Math.max(Math.abs(x), Math.abs(y));
              return Math.abs(x - y) <= at + rt * s ? 0 : 1; // NaN -> 1
            }),
            0, (x, y) -> x + y);
    return bool(bad == 0);
  }

  // ---------- vectors and matrices
  public static Value Dot(Value a, Value b) {
    double[] x = vec(a), y = vec(b);
    double s = 0;
    for (int i = 0; i < x.length; i++) s += x[i] * y[i];
    return num(s);
  }

  public static Value Inner(Value a, Value b) { return Sum(Mul(a, b)); }

  static double[][] mm(double[][] a, double[][] b) {
    int n = a.length, k = b.length, m = b[0].length;
    double[][] r = new double[n][m];
    for (int i = 0; i < n; i++)
      for (int l = 0; l < k; l++) {
        double x = a[i][l];
        for (int j = 0; j < m; j++) r[i][j] += x * b[l][j];
      }
    return r;
  }

  static double[][] tr(double[][] a) {
    double[][] r = new double[a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) r[j][i] = a[i][j];
    return r;
  }

  public static Value MMul(Value a, Value b) { return of(mm(mat(a), mat(b))); }

  public static Value MVec(Value a, Value v) {
    double[][] m = mat(a);
    double[] x = vec(v), r = new double[m.length];
    for (int i = 0; i < m.length; i++) for (int j = 0; j < x.length; j++) r[i] += m[i][j] * x[j];
    return of(r);
  }

  public static Value MT(Value a) { return of(tr(mat(a))); }

  /** symmetric part; batches of matrices are mapped over */
  public static Value Sym(Value a) {
    if (isSeq(tup(tup(a).elems[0]).elems[0])) {
      Value[] e = tup(a).elems, r = new Value[e.length];
      for (int i = 0; i < e.length; i++) r[i] = Sym(e[i]);
      return new TupleValue(r);
    }
    double[][] m = mat(a);
    double[][] r = new double[m.length][m.length];
    for (int i = 0; i < m.length; i++) for (int j = 0; j < m.length; j++) r[i][j] = 0.5 * (m[i][j] + m[j][i]);
    return of(r);
  }

  public static Value Eye(Value n) {
    int k = ((IntValue) n).val;
    double[][] r = new double[k][k];
    for (int i = 0; i < k; i++) r[i][i] = 1;
    return of(r);
  }

  public static Value Diag(Value v) {
    double[] x = vec(v);
    double[][] r = new double[x.length][x.length];
    for (int i = 0; i < x.length; i++) r[i][i] = x[i];
    return of(r);
  }

  public static Value DiagOf(Value a) {
    double[][] m = mat(a);
    double[] r = new double[m.length];
    for (int i = 0; i < r.length; i++) r[i] = m[i][i];
    return of(r);
  }

  public static Value OffDiag(Value a) {
    double[][] m = mat(a);
    for (int i = 0; i < m.length; i++) m[i][i] = 0;
    return of(m);
  }

  public static Value Trace(Value a) {
    double[][] m = mat(a);
    double s = 0;
    for (int i = 0; i < m.length; i++) s += m[i][i];
    return num(s);
  }

  /** cyclic Jacobi; returns eigenvalues ascending, eigenvectors in columns of Q */
  static double[][] jacobi(double[][] a0, double[] w) {
    int n = a0.length;
    double[][] a = new double[n][n], q = new double[n][n];
    for (int i = 0; i < n; i++) {
      q[i][i] = 1;
      for (int j = 0; j < n; j++) a[i][j] = 0.5 * (a0[i][j] + a0[j][i]);
    }
    for (int sweep = 0; sweep < 60; sweep++) {
      double off = 0, tot = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { tot += a[i][j] * a[i][j]; if (i != j) off += a[i][j] * a[i][j]; }
      if (!(off > 1e-36 * tot)) break;
      for (int p = 0; p < n; p++)
        for (int r = p + 1; r < n; r++) {
          if (a[p][r] == 0) continue;
          double th = (a[r][r] - a[p][p]) / (2 * a[p][r]);
          double t = Math.signum(th) / (Math.abs(th) + Math.sqrt(th * th + 1));
          if (th == 0) t = 1;
          double c = 1 / Math.sqrt(t * t + 1), s = t * c;
          for (int k = 0; k < n; k++) {
            double x = a[k][p], y = a[k][r];
            a[k][p] = c * x - s * y;
            a[k][r] = s * x + c * y;
          }
          for (int k = 0; k < n; k++) {
            double x = a[p][k], y = a[r][k];
            a[p][k] = c * x - s * y;
            a[r][k] = s * x + c * y;
          }
          for (int k = 0; k < n; k++) {
            double x = q[k][p], y = q[k][r];
            q[k][p] = c * x - s * y;
            q[k][r] = s * x + c * y;
          }
        }
    }
    Integer[] idx = new Integer[n];
    for (int i = 0; i < n; i++) idx[i] = i;
    final double[][] fa = a;
    Arrays.sort(idx, (i, j) -> Double.compare(fa[i][i], fa[j][j]));
    double[][] qq = new double[n][n];
    for (int j = 0; j < n; j++) {
      w[j] = a[idx[j]][idx[j]];
      for (int i = 0; i < n; i++) qq[i][j] = q[i][idx[j]];
    }
    return qq;
  }

  public static Value EigVals(Value a) {
    double[][] m = mat(a);
    double[] w = new double[m.length];
    jacobi(m, w);
    return of(w);
  }

  public static Value EigVecs(Value a) {
    double[][] m = mat(a);
    double[] w = new double[m.length];
    return of(jacobi(m, w));
  }

  public static Value SingVals(Value a) {
    // one-sided Jacobi on columns
    double[][] m = mat(a);
    if (m.length < m[0].length) m = tr(m);
    int rows = m.length, n = m[0].length;
    for (int sweep = 0; sweep < 60; sweep++) {
      boolean rot = false;
      for (int p = 0; p < n; p++)
        for (int q = p + 1; q < n; q++) {
          double al = 0, be = 0, ga = 0;
          for (int k = 0; k < rows; k++) { al += m[k][p] * m[k][p]; be += m[k][q] * m[k][q]; ga += m[k][p] * m[k][q]; }
          if (Math.abs(ga) <= 1e-17 * Math.sqrt(al * be) || ga == 0) continue;
          rot = true;
          double z = (be - al) / (2 * ga);
          double t = (z >= 0 ? 1 : -1) / (Math.abs(z) + Math.sqrt(1 + z * z));
          double c = 1 / Math.sqrt(1 + t * t), s = c * t;
          for (int k = 0; k < rows; k++) {
            double x = m[k][p], y = m[k][q];
            m[k][p] = c * x - s * y;
            m[k][q] = s * x + c * y;
          }
        }
      if (!rot) break;
    }
    double[] r = new double[n];
    for (int j = 0; j < n; j++) {
      double s = 0;
      for (int k = 0; k < rows; k++) s += m[k][j] * m[k][j];
      r[j] = Math.sqrt(s);
    }
    Arrays.sort(r);
    return of(r);
  }

  /** general inverse by Gauss-Jordan with partial pivoting; NaN matrix if singular */
  static double[][] inv(double[][] a0) {
    int n = a0.length;
    double[][] a = new double[n][2 * n];
    for (int i = 0; i < n; i++) {
      System.arraycopy(a0[i], 0, a[i], 0, n);
      a[i][n + i] = 1;
    }
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (Math.abs(a[i][c]) > Math.abs(a[p][c])) p = i;
      double[] t = a[c]; a[c] = a[p]; a[p] = t;
      double piv = a[c][c];
      if (piv == 0 || Double.isNaN(piv)) piv = Double.NaN;
      for (int j = 0; j < 2 * n; j++) a[c][j] /= piv;
      for (int i = 0; i < n; i++)
        if (i != c) {
          double f = a[i][c];
          if (f != 0) for (int j = 0; j < 2 * n; j++) a[i][j] -= f * a[c][j];
        }
    }
    double[][] r = new double[n][n];
    for (int i = 0; i < n; i++) System.arraycopy(a[i], n, r[i], 0, n);
    return r;
  }

  public static Value MInv(Value a) { return of(inv(mat(a))); }

  public static Value Det(Value v) {
    double[][] a = mat(v);
    int n = a.length;
    double det = 1;
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (Math.abs(a[i][c]) > Math.abs(a[p][c])) p = i;
      if (p != c) { double[] t = a[c]; a[c] = a[p]; a[p] = t; det = -det; }
      if (a[c][c] == 0) return num(0);
      det *= a[c][c];
      for (int i = c + 1; i < n; i++) {
        double f = a[i][c] / a[c][c];
        for (int j = c; j < n; j++) a[i][j] -= f * a[c][j];
      }
    }
    return num(det);
  }

  /** log det of the symmetric part by Cholesky; -inf if not positive definite */
  public static Value LogDet(Value a) {
    double[][] m = mat(a);
    int n = m.length;
    double[][] l = new double[n][n];
    double s = 0;
    for (int j = 0; j < n; j++) {
      double x = m[j][j];
      for (int k = 0; k < j; k++) x -= l[j][k] * l[j][k];
      if (!(x > 0)) return num(Double.NEGATIVE_INFINITY);
      l[j][j] = Math.sqrt(x);
      s += Math.log(x);
      for (int i = j + 1; i < n; i++) {
        double y = 0.5 * (m[i][j] + m[j][i]);
        for (int k = 0; k < j; k++) y -= l[i][k] * l[j][k];
        l[i][j] = y / l[j][j];
      }
    }
    return num(s);
  }

  /** sort a sequence of reals ascending */
  public static Value SortR(Value a) {
    double[] x = vec(a);
    Arrays.sort(x);
    return of(x);
  }

  // ---------- JSON (with reals) in and out
  public static Value LoadJson(Value path) {
    try (Reader r = new BufferedReader(new FileReader(((StringValue) path).val.toString()))) {
      return conv(com.google.gson.JsonParser.parseReader(r));
    } catch (IOException e) {
      throw new RuntimeException(e);
    }
  }

  static Value conv(com.google.gson.JsonElement e) {
    if (e.isJsonNull()) return new StringValue("null");
    if (e.isJsonArray()) {
      com.google.gson.JsonArray a = e.getAsJsonArray();
      Value[] r = new Value[a.size()];
      for (int i = 0; i < r.length; i++) r[i] = conv(a.get(i));
      return new TupleValue(r);
    }
    if (e.isJsonObject()) {
      com.google.gson.JsonObject o = e.getAsJsonObject();
      UniqueString[] ks = new UniqueString[o.entrySet().size()];
      Value[] vs = new Value[ks.length];
      int i = 0;
      for (Map.Entry<String, com.google.gson.JsonElement> en : o.entrySet()) {
        if (en.getKey().equals("$r")) return num(parse(en.getValue().getAsString()));
        ks[i] = UniqueString.uniqueStringOf(en.getKey());
        vs[i++] = conv(en.getValue());
      }
      return new RecordValue(ks, vs, false);
    }
    com.google.gson.JsonPrimitive p = e.getAsJsonPrimitive();
    if (p.isBoolean()) return bool(p.getAsBoolean());
    if (p.isNumber()) {
      String s = p.getAsString();
      if (s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('E') < 0) return IntValue.gen(Integer.parseInt(s));
      return num(Double.parseDouble(s));
    }
    return new StringValue(p.getAsString());
  }

  static void out(Value v, StringBuilder sb) {
    if (v instanceof RealNum) {
      double x = ((RealNum) v).d;
      if (Double.isNaN(x)) sb.append("{\"$r\":\"nan\"}");
      else if (Double.isInfinite(x)) sb.append(x > 0 ? "{\"$r\":\"inf\"}" : "{\"$r\":\"-inf\"}");
      else sb.append(x);
    } else if (v instanceof IntValue) sb.append(((IntValue) v).val);
    else if (v instanceof BoolValue) sb.append(((BoolValue) v).val);
    else if (v instanceof StringValue) sb.append(new com.google.gson.JsonPrimitive(((StringValue) v).val.toString()));
    else if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      sb.append('{');
      for (int i = 0; i < r.names.length; i++) {
        if (i > 0) sb.append(',');
        sb.append(new com.google.gson.JsonPrimitive(r.names[i].toString())).append(':');
        out(r.values[i], sb);
      }
      sb.append('}');
    } else if (v instanceof TupleValue || v.toTuple() != null) {
      Value[] e = tup(v).elems;
      sb.append('[');
      for (int i = 0; i < e.length; i++) {
        if (i > 0) sb.append(',');
        out(e[i], sb);
      }
      sb.append(']');
    } else if (v.toSetEnum() != null) {
      SetEnumValue s = (SetEnumValue) v.toSetEnum();
      s.normalize();
      sb.append('[');
      for (int i = 0; i < s.elems.size(); i++) {
        if (i > 0) sb.append(',');
        out(s.elems.elementAt(i), sb);
      }
      sb.append(']');
    } else if (v.toRcd() != null) out(v.toRcd(), sb);
    else sb.append(new com.google.gson.JsonPrimitive(v.toString()));
  }

  static final Map<String, PrintWriter> files = new HashMap<>();

  /** append one JSON line to a file; always TRUE */
  public static synchronized Value EmitJson(Value path, Value v) {
    String p = ((StringValue) path).val.toString();
    StringBuilder sb = new StringBuilder();
    out(v, sb);
    try {
      PrintWriter w = files.get(p);
      if (w == null) {
        w = new PrintWriter(new BufferedWriter(new FileWriter(p, true)));
        files.put(p, w);
      }
      w.println(sb);
      w.flush();
    } catch (IOException e) {
      throw new RuntimeException(e);
    }
    return bool(true);
  }

  /** the value of an environment variable, "" if unset */
  public static Value Env(Value name) {
    String s = System.getenv(((StringValue) name).val.toString());
    return new StringValue(s == null ? "" : s);
  }

  // ---------- iteration
  /** A fully evaluated copy: no lazy function values left inside. */
  static Value force(Value v) {
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      Value[] r = new Value[e.length];
      for (int i = 0; i < r.length; i++) r[i] = force(e[i]);
      return new TupleValue(r);
    }
    if (v instanceof RecordValue) {
      RecordValue q = (RecordValue) v;
      Value[] r = new Value[q.values.length];
      for (int i = 0; i < r.length; i++) r[i] = force(q.values[i]);
      return new RecordValue(q.names, r, false);
    }
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      Value t = v.toTuple();
      if (t != null) return force(t);
      Value q = v.toRcd();
      if (q != null) return force(q);
      v.deepNormalize();
    }
    return v;
  }

  public static Value Force(Value v) {
    return force(v);
  }

  public static Value Iterate(Value op, Value s, Value stop, Value n) {
    int m = ((IntValue) n).val;
    Value x = force(s);
    for (int k = 0; k < m; k++) {
      if (((BoolValue) ((OpValue) stop).eval(new Value[] {x}, tlc2.tool.EvalControl.Clear)).val) break;
      x = force(((OpValue) op).eval(new Value[] {x}, tlc2.tool.EvalControl.Clear));
    }
    return x;
  }
}
