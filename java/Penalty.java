import java.util.Arrays;
import tlc2.value.impl.*;

/** Accelerated evaluation of operators defined in spec/Penalty.tla (same results, same definitions). */
public class Penalty {
  public static Value ColSoft(Value X, Value lam) {
    return Num.of(colSoft(Num.mat(X), Num.d(lam)));
  }

  static double[][] colSoft(double[][] a, double l) {
    int n = a.length, m = a[0].length;
    double[][] r = new double[n][m];
    for (int j = 0; j < m; j++) {
      double s = 0;
      for (int i = 0; i < n; i++) s += a[i][j] * a[i][j];
      s = Math.sqrt(s);
      double f = s <= l ? 0 : 1 - l / s;
      for (int i = 0; i < n; i++) r[i][j] = f * a[i][j];
    }
    return r;
  }

  public static Value ColClip(Value X, Value lam) {
    double[][] a = Num.mat(X);
    double l = Num.d(lam);
    int n = a.length, m = a[0].length;
    double[][] r = new double[n][m];
    for (int j = 0; j < m; j++) {
      double[] s = new double[n];
      for (int i = 0; i < n; i++) s[i] = Math.abs(a[i][j]);
      Arrays.sort(s);
      double acc = 0, best = 0;
      for (int k = n - 1; k >= 0; k--) {
        acc += s[k];
        best = Math.max(best, (acc - l) / (n - k));
      }
      for (int i = 0; i < n; i++) r[i][j] = Math.max(-best, Math.min(best, a[i][j]));
    }
    return Num.of(r);
  }

  static double maxdiff(double[][] a, double[][] b) {
    double e = 0;
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a.length; j++) e = Math.max(e, Math.abs(a[i][j] - b[i][j]));
    return e;
  }

  public static Value ProxNode(Value Xv, Value lamv) {
    double[][] X = Num.mat(Xv);
    double lam = Num.d(lamv), r = 2;
    int n = X.length;
    double[][] V = new double[n][n], U = new double[n][n], Z = new double[n][n], D = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) V[i][j] = X[i][j] / 2;
    for (int k = 0; k < 4000; k++) {
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          double m = V[i][j] + U[i][j], mt = V[j][i] + U[j][i], ms = (m + mt) / 2;
          Z[i][j] = (2 * X[i][j] + r * ms) / (4 + r) + (m - ms);
          D[i][j] = Z[i][j] - U[i][j];
        }
      double[][] W = colSoft(D, lam / r);
      double e = Math.max(maxdiff(W, Z), maxdiff(W, V));
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) U[i][j] += W[i][j] - Z[i][j];
      V = W;
      if (e <= 1e-11) break;
    }
    double[][] o = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[i][j] = V[i][j] + V[j][i];
    return Num.of(o);
  }
}
