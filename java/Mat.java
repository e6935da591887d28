import tlc2.value.impl.*;

/** Native evaluation of the matrix operators that spec/Mat.tla defines. */
public final class Mat {
  static NumValue[][] mat(Value v) {
    Value[] rows = ((TupleValue) v.toTuple()).elems;
    NumValue[][] r = new NumValue[rows.length][];
    for (int i = 0; i < rows.length; i++) {
      Value[] c = ((TupleValue) rows[i].toTuple()).elems;
      r[i] = new NumValue[c.length];
      for (int j = 0; j < c.length; j++) r[i][j] = Num.num(c[j]);
    }
    return r;
  }
  static Value val(NumValue[][] m) {
    Value[] rows = new Value[m.length];
    for (int i = 0; i < m.length; i++) rows[i] = new TupleValue((Value[]) m[i].clone());
    return new TupleValue(rows);
  }
  static NumValue[][] mul(NumValue[][] a, NumValue[][] b) {
    int n = a.length, k = b.length, m = b[0].length;
    NumValue[][] r = new NumValue[n][m];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) {
        NumValue s = Num.mk(Real.ZERO);
        for (int l = 0; l < k; l++) s = Num.add(s, Num.mul(a[i][l], b[l][j]));
        r[i][j] = s;
      }
    return r;
  }
  public static Value MMul(Value a, Value b) { return val(mul(mat(a), mat(b))); }
  public static Value MAdd(Value a, Value b) {
    NumValue[][] x = mat(a), y = mat(b), r = new NumValue[x.length][x[0].length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[i][j] = Num.add(x[i][j], y[i][j]);
    return val(r);
  }
  public static Value MScale(Value c, Value a) {
    NumValue k = Num.num(c); NumValue[][] x = mat(a), r = new NumValue[x.length][x[0].length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[i][j] = Num.mul(k, x[i][j]);
    return val(r);
  }
  /** Gauss-Jordan with partial pivoting; a singular matrix gives not-a-number entries */
  public static Value MInv(Value a) {
    NumValue[][] x = mat(a);
    int n = x.length;
    NumValue[][] w = new NumValue[n][2 * n];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) { w[i][j] = x[i][j]; w[i][n + j] = Num.mk(i == j ? Real.ONE : Real.ZERO); }
    for (int c = 0; c < n; c++) {
      int p = -1; Real best = Real.ZERO;
      for (int i = c; i < n; i++) {
        Real m = w[i][c].re.mul(w[i][c].re).add(w[i][c].im.mul(w[i][c].im));
        if (m.nan()) { p = -1; break; }
        if (m.cmp(best) > 0) { best = m; p = i; }
      }
      if (p < 0) {
        NumValue[][] r = new NumValue[n][n];
        for (NumValue[] row : r) java.util.Arrays.fill(row, Num.mk(Real.NAN));
        return val(r);
      }
      NumValue[] t = w[p]; w[p] = w[c]; w[c] = t;
      NumValue inv = Num.div(Num.mk(Real.ONE), w[c][c]);
      for (int j = 0; j < 2 * n; j++) w[c][j] = Num.mul(w[c][j], inv);
      for (int i = 0; i < n; i++) if (i != c) {
        NumValue f = w[i][c];
        if (f.re.isZero() && f.im.isZero()) continue;
        NumValue nf = Num.mk(f.re.neg(), f.im.neg());
        for (int j = 0; j < 2 * n; j++) w[i][j] = Num.add(w[i][j], Num.mul(nf, w[c][j]));
      }
    }
    NumValue[][] r = new NumValue[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = w[i][n + j];
    return val(r);
  }
}
