import tlc2.value.impl.*;
import java.math.BigDecimal;
import java.math.BigInteger;

/** TLC module override for spec/Num.tla: the numeric tower. */
public final class Num {
  static NumValue num(Value v) {
    if (v instanceof NumValue) return (NumValue) v;
    if (v instanceof IntValue) return new NumValue(Real.of(((IntValue) v).val), Real.ZERO);
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      int k = s.indexOf('|');
      if (k < 0) return new NumValue(Real.parse(s), Real.ZERO);
      return new NumValue(Real.parse(s.substring(0, k)), Real.parse(s.substring(k + 1)));
    }
    throw new RuntimeException("Num: not a number: " + v);
  }
  static NumValue mk(Real re) { return new NumValue(re, Real.ZERO); }
  static NumValue mk(Real re, Real im) { return (re.nan() || im.nan()) ? new NumValue(Real.NAN, Real.ZERO) : new NumValue(re, im); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value N(Value x) { NumValue a = num(x); return mk(a.re, a.im); }
  public static Value IsNum(Value x) { NumValue a = num(x); return bool(!a.re.nan() && !a.im.nan()); }
  public static Value IsReal(Value x) { NumValue a = num(x); return bool(!a.re.nan() && a.im.isZero()); }
  public static Value IsExact(Value x) { NumValue a = num(x); return bool(a.re.exact() && a.im.exact()); }
  static Real approx(Real r) { return r.exact() && r.n.signum() != 0 ? Real.dec(r.big()) : r; }
  public static Value Approx(Value x) { NumValue a = num(x); return mk(approx(a.re), approx(a.im)); }
  public static Value Str(Value x) { return new StringValue(num(x).str()); }
  public static Value Cx(Value x, Value y) { return mk(num(x).re, num(y).re); }
  public static Value Re(Value x) { return mk(num(x).re); }
  public static Value Im(Value x) { return mk(num(x).im); }
  public static Value Conj(Value x) { NumValue a = num(x); return mk(a.re, a.im.neg()); }
  public static Value NNeg(Value x) { NumValue a = num(x); return mk(a.re.neg(), a.im.neg()); }
  public static Value NAdd(Value x, Value y) { return add(num(x), num(y)); }
  public static Value NSub(Value x, Value y) { NumValue a = num(x), b = num(y); return mk(a.re.sub(b.re), a.im.sub(b.im)); }
  public static Value NMul(Value x, Value y) { return mul(num(x), num(y)); }
  public static Value NDiv(Value x, Value y) { return div(num(x), num(y)); }
  static NumValue add(NumValue a, NumValue b) { return mk(a.re.add(b.re), a.im.add(b.im)); }
  static NumValue mul(NumValue a, NumValue b) {
    return mk(a.re.mul(b.re).sub(a.im.mul(b.im)), a.re.mul(b.im).add(a.im.mul(b.re)));
  }
  static NumValue div(NumValue a, NumValue b) {
    if (b.im.isZero()) return mk(a.re.div(b.re), a.im.div(b.re));
    Real m = b.re.mul(b.re).add(b.im.mul(b.im));
    NumValue t = mul(a, new NumValue(b.re, b.im.neg()));
    return mk(t.re.div(m), t.im.div(m));
  }
  public static Value NPow(Value x, Value k) {
    long e = ((IntValue) k).val;
    NumValue b = num(x), r = mk(Real.ONE);
    boolean neg = e < 0;
    e = Math.abs(e);
    while (e > 0) { if ((e & 1) == 1) r = mul(r, b); e >>= 1; if (e > 0) b = mul(b, b); }
    return neg ? div(mk(Real.ONE), r) : r;
  }
  /** principal square root (non-negative real part; on the cut, non-negative imaginary part) */
  public static Value NSqrt(Value x) {
    NumValue a = num(x);
    if (a.re.nan() || a.im.nan()) return mk(Real.NAN);
    if (a.im.isZero()) {
      return a.re.signum() >= 0 ? mk(a.re.sqrt()) : mk(Real.ZERO, a.re.neg().sqrt());
    }
    Real m = a.re.mul(a.re).add(a.im.mul(a.im)).sqrt();
    Real two = Real.of(2);
    if (a.re.signum() >= 0) {
      Real u = m.add(a.re).div(two).sqrt();
      return mk(u, a.im.div(u.mul(two)));
    }
    Real v = m.sub(a.re).div(two).sqrt();
    if (a.im.signum() < 0) v = v.neg();
    return mk(a.im.div(v.mul(two)), v);
  }
  public static Value NExp(Value x) {
    NumValue a = num(x);
    Real e = a.re.exp();
    if (a.im.isZero()) return mk(e);
    return mk(e.mul(a.im.cos()), e.mul(a.im.sin()));
  }
  public static Value NLn(Value x) {
    NumValue a = num(x);
    if (a.im.isZero() && !a.re.nan() && a.re.signum() > 0) return mk(a.re.ln());
    Real m2 = a.re.mul(a.re).add(a.im.mul(a.im));
    return mk(m2.ln().div(Real.of(2)), Real.atan2(a.im, a.re));
  }
  public static Value NSin(Value x) { NumValue a = num(x);
    if (a.im.isZero()) return mk(a.re.sin());
    Real ep = a.im.exp(), em = a.im.neg().exp(), two = Real.of(2);
    return mk(a.re.sin().mul(ep.add(em).div(two)), a.re.cos().mul(ep.sub(em).div(two))); }
  public static Value NCos(Value x) { NumValue a = num(x);
    if (a.im.isZero()) return mk(a.re.cos());
    Real ep = a.im.exp(), em = a.im.neg().exp(), two = Real.of(2);
    return mk(a.re.cos().mul(ep.add(em).div(two)), a.re.sin().mul(ep.sub(em).div(two)).neg()); }
  public static Value NAtan(Value x) { return mk(num(x).re.atan()); }
  public static Value NAtan2(Value y, Value x) { return mk(Real.atan2(num(y).re, num(x).re)); }
  public static Value Arg(Value x) { NumValue a = num(x); return mk(Real.atan2(a.im, a.re)); }
  public static Value NPi() { return mk(Real.dec(Real.pi())); }
  public static Value Abs2(Value x) { NumValue a = num(x); return mk(a.re.mul(a.re).add(a.im.mul(a.im))); }
  static Real absr(NumValue a) {
    if (a.re.nan() || a.im.nan()) return Real.NAN;
    if (a.im.isZero()) return a.re.abs();
    if (a.re.isZero()) return a.im.abs();
    return a.re.mul(a.re).add(a.im.mul(a.im)).sqrt();
  }
  public static Value NAbs(Value x) { return mk(absr(num(x))); }
  static boolean cmpok(NumValue a, NumValue b) { return !a.re.nan() && !b.re.nan() && !a.im.nan() && !b.im.nan(); }
  public static Value NLeq(Value x, Value y) { NumValue a = num(x), b = num(y); return bool(cmpok(a, b) && a.re.cmp(b.re) <= 0); }
  public static Value NLt(Value x, Value y) { NumValue a = num(x), b = num(y); return bool(cmpok(a, b) && a.re.cmp(b.re) < 0); }
  public static Value NEq(Value x, Value y) { NumValue a = num(x), b = num(y); return bool(cmpok(a, b) && a.re.cmp(b.re) == 0 && a.im.cmp(b.im) == 0); }
  public static Value NFloor(Value x) { return mk(num(x).re.floor()); }
  public static Value NToInt(Value x) { Real r = num(x).re.floor(); return IntValue.gen(r.n.intValueExact()); }
  /** x - y*floor(x/y) */
  public static Value NMod(Value x, Value y) {
    Real a = num(x).re, b = num(y).re;
    return mk(a.sub(b.mul(a.div(b).floor())));
  }
  /** |x - y| <= atol + rtol*|y| ; FALSE when either is not a number */
  public static Value Close(Value x, Value y, Value atol, Value rtol) {
    NumValue a = num(x), b = num(y);
    if (!cmpok(a, b)) return bool(false);
    Real df = absr(mk(a.re.sub(b.re), a.im.sub(b.im)));
    Real lim = num(atol).re.add(num(rtol).re.mul(absr(b)));
    return bool(!df.nan() && df.cmp(lim) <= 0);
  }
  static Value[] elems(Value s) { return ((TupleValue) s.toTuple()).elems; }
  public static Value NSumSeq(Value s) {
    NumValue r = mk(Real.ZERO);
    for (Value v : elems(s)) r = add(r, num(v));
    return r;
  }
  public static Value NDot(Value s, Value t) {
    NumValue r = mk(Real.ZERO);
    Value[] a = elems(s), b = elems(t);
    for (int i = 0; i < a.length; i++) r = add(r, mul(num(a[i]), num(b[i])));
    return r;
  }
  /** identity that evaluates its argument completely (tuples of tuples of numbers) */
  public static Value Force(Value v) {
    if (v instanceof NumValue || v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue) return v;
    Value t = (Value) v.toTuple();
    if (t == null) { v.deepNormalize(); return v; }
    Value[] e = ((TupleValue) t).elems;
    Value[] r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = Force(e[i]);
    return new TupleValue(r);
  }
  // ---- special functions ----------------------------------------------------------
  static Real[] BERN;   // B_2, B_4, ...
  static synchronized Real[] bern() {
    if (BERN != null) return BERN;
    int n = 90;
    BigInteger[][] c = new BigInteger[n + 2][n + 2];
    for (int i = 0; i < n + 2; i++) { c[i][0] = BigInteger.ONE; for (int j = 1; j <= i; j++) c[i][j] = c[i - 1][j - 1].add(j < i ? c[i - 1][j] : BigInteger.ZERO); }
    Real[] b = new Real[n + 1];
    b[0] = Real.ONE;
    for (int m = 1; m <= n; m++) {
      Real t = Real.ZERO;
      for (int j = 0; j < m; j++) t = t.add(Real.frac(c[m + 1][j], BigInteger.ONE).mul(b[j]));
      b[m] = t.neg().div(Real.of(m + 1));
    }
    Real[] r = new Real[n / 2];
    for (int i = 0; i < n / 2; i++) r[i] = approx(b[2 * i + 2]);
    return BERN = r;
  }
  static NumValue inexact(NumValue z) { return mk(approx(z.re), approx(z.im)); }
  /** logarithmic derivative of the gamma function, by the recurrence and Stirling's series */
  public static Value NDigamma(Value x) {
    NumValue z = inexact(num(x)), s = mk(Real.ZERO);
    if (z.re.nan()) return z;
    Real lim = Real.of(40);
    while (z.re.cmp(lim) < 0) { s = add(s, div(mk(Real.ONE), z)); z = add(z, mk(Real.ONE)); }
    NumValue z2 = mul(z, z), p = z2;
    NumValue r = (NumValue) NLn(z);
    r = (NumValue) NSub(r, div(mk(Real.ONE), mul(mk(Real.of(2)), z)));
    Real[] b = bern();
    for (int k = 1; k <= 40; k++) { r = (NumValue) NSub(r, div(mk(b[k - 1].div(Real.of(2 * k))), p)); p = inexact(mul(p, z2)); }
    return NSub(r, s);
  }
  public static Value NGamma(Value x) {
    NumValue z = inexact(num(x)), s = mk(Real.ONE);
    if (z.re.nan()) return z;
    Real lim = Real.of(40);
    while (z.re.cmp(lim) < 0) { s = inexact(mul(s, z)); z = add(z, mk(Real.ONE)); }
    Real two = Real.of(2);
    NumValue r = (NumValue) NSub(mul((NumValue) NSub(z, mk(Real.frac(BigInteger.ONE, BigInteger.TWO))), (NumValue) NLn(z)), z);
    r = add(r, mk(Real.dec(Real.pi()).mul(two).ln().div(two)));
    NumValue z2 = mul(z, z), p = z;
    Real[] b = bern();
    for (int k = 1; k <= 40; k++) { r = add(r, div(mk(b[k - 1].div(Real.of(2L * k * (2 * k - 1)))), p)); p = inexact(mul(p, z2)); }
    return div((NumValue) NExp(r), s);
  }
  /** Dawson's integral exp(-x^2) int_0^x exp(t^2) dt of a real number */
  public static Value NDawson(Value x) {
    Real v = approx(num(x).re);
    if (v.nan() || v.isZero()) return mk(v.nan() ? v : Real.ZERO);
    BigDecimal a = v.big().abs();
    java.math.MathContext m = new java.math.MathContext(150);
    BigDecimal r;
    if (a.compareTo(BigDecimal.valueOf(9)) < 0) {        // D = sum (-2)^k x^(2k+1) / (2k+1)!!
      BigDecimal t = a, s = a, y = a.multiply(a, m).multiply(BigDecimal.valueOf(-2), m), eps = BigDecimal.ONE.movePointLeft(75);
      for (int k = 1; k < 2000; k++) {
        t = t.multiply(y, m).divide(BigDecimal.valueOf(2 * k + 1), m);
        s = s.add(t, m);
        if (t.abs().compareTo(eps) < 0) break;
      }
      r = s;
    } else {                                             // asymptotic series, cut at its least term (below 1e-34)
      BigDecimal y = BigDecimal.ONE.divide(a.multiply(a, m).multiply(BigDecimal.valueOf(2), m), m), t = BigDecimal.ONE, s = t;
      for (int k = 1; k < 200; k++) {
        BigDecimal u = t.multiply(y, m).multiply(BigDecimal.valueOf(2 * k - 1), m);
        if (u.compareTo(t) >= 0) break;
        t = u; s = s.add(t, m);
      }
      r = s.divide(a.multiply(BigDecimal.valueOf(2), m), m);
    }
    return mk(Real.dec(v.signum() < 0 ? r.negate() : r));
  }
  /** a decimal rendering with a few digits, for messages */
  public static Value Show(Value x) {
    NumValue a = num(x);
    return new StringValue(sh(a.re) + (a.im.isZero() ? "" : "+i*" + sh(a.im)));
  }
  static String sh(Real r) { return r.nan() ? "nan" : r.big().round(new java.math.MathContext(10)).toString(); }
}
