import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

/** Real component: exact rational num/den (den > 0, reduced), or approximate decimal, or NaN. */
public final class Real {
  public static final MathContext MC = new MathContext(64, RoundingMode.HALF_EVEN);
  public static final MathContext MX = new MathContext(80, RoundingMode.HALF_EVEN);
  static final int MAXBITS = 6000;

  public final BigInteger n, d;   // exact if n != null
  public final BigDecimal a;      // approximate if a != null
  public static final Real NAN = new Real(null, null, null);
  public static final Real ZERO = new Real(BigInteger.ZERO, BigInteger.ONE, null);
  public static final Real ONE = new Real(BigInteger.ONE, BigInteger.ONE, null);

  private Real(BigInteger n, BigInteger d, BigDecimal a) { this.n = n; this.d = d; this.a = a; }

  public boolean nan() { return n == null && a == null; }
  public boolean exact() { return n != null; }

  public static Real of(long v) { return new Real(BigInteger.valueOf(v), BigInteger.ONE, null); }
  public static Real frac(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return ZERO;
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    if (n.bitLength() + d.bitLength() > MAXBITS)
      return dec(new BigDecimal(n).divide(new BigDecimal(d), MC));
    return new Real(n, d, null);
  }
  /** far below anything that is compared, and squared again and again it would leave the range of BigDecimal */
  static final int TINY = 1000000;
  public static Real dec(BigDecimal x) {
    if (x.signum() == 0 || (long) x.precision() - x.scale() < -TINY) return ZERO;
    return new Real(null, null, x.round(MC));
  }

  public static Real parse(String s) {
    s = s.trim();
    if (s.equals("nan") || s.equals("inf") || s.equals("-inf")) return NAN;
    if (s.startsWith("~")) return dec(new BigDecimal(s.substring(1)));
    int k = s.indexOf('/');
    if (k >= 0) return frac(new BigInteger(s.substring(0, k).trim()), new BigInteger(s.substring(k + 1).trim()));
    BigDecimal b = new BigDecimal(s);
    if (b.scale() <= 0) return frac(b.toBigIntegerExact(), BigInteger.ONE);
    return frac(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }

  public BigDecimal big() { return bigx(MC); }
  public BigDecimal bigx(MathContext mc) {
    if (a != null) return a;
    if (d.equals(BigInteger.ONE)) return new BigDecimal(n);
    return new BigDecimal(n).divide(new BigDecimal(d), mc);
  }
  public String str() {
    if (nan()) return "nan";
    if (exact()) return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
    return "~" + a.toString();
  }
  public boolean isZero() { return exact() ? n.signum() == 0 : (a != null && a.signum() == 0); }
  public int signum() { return exact() ? n.signum() : a.signum(); }

  public Real neg() { return nan() ? NAN : exact() ? new Real(n.negate(), d, null) : new Real(null, null, a.negate()); }
  public Real abs() { return nan() ? NAN : signum() < 0 ? neg() : this; }
  public Real add(Real o) {
    if (nan() || o.nan()) return NAN;
    if (exact() && n.signum() == 0) return o;
    if (o.exact() && o.n.signum() == 0) return this;
    if (exact() && o.exact()) return frac(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    return dec(big().add(o.big(), MC));
  }
  public Real sub(Real o) { return add(o.neg()); }
  public Real mul(Real o) {
    if (nan() || o.nan()) return NAN;
    if (exact() && n.signum() == 0) return ZERO;
    if (o.exact() && o.n.signum() == 0) return ZERO;
    if (exact() && o.exact()) return frac(n.multiply(o.n), d.multiply(o.d));
    return dec(big().multiply(o.big(), MC));
  }
  public Real div(Real o) {
    if (nan() || o.nan() || o.isZero()) return NAN;
    if (exact() && n.signum() == 0) return ZERO;
    if (exact() && o.exact()) return frac(n.multiply(o.d), d.multiply(o.n));
    return dec(big().divide(o.big(), MC));
  }
  public int cmp(Real o) { // caller guarantees non-NaN
    if (exact() && o.exact()) return n.multiply(o.d).compareTo(o.n.multiply(d));
    return big().compareTo(o.big());
  }
  public Real floor() {
    if (nan()) return NAN;
    if (exact()) {
      BigInteger[] q = n.divideAndRemainder(d);
      BigInteger f = q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
      return frac(f, BigInteger.ONE);
    }
    return frac(a.setScale(0, RoundingMode.FLOOR).toBigInteger(), BigInteger.ONE);
  }
  public Real sqrt() {
    if (nan() || signum() < 0) return NAN;
    if (isZero()) return ZERO;
    if (exact()) {
      BigInteger p = n.sqrt(), q = d.sqrt();
      if (p.multiply(p).equals(n) && q.multiply(q).equals(d)) return frac(p, q);
    }
    return dec(bigx(MX).sqrt(MX));
  }

  // ---- transcendental functions -------------------------------------------------
  static BigDecimal PI_;
  public static BigDecimal pi() {
    if (PI_ == null) { // Machin
      MathContext m = new MathContext(100);
      BigDecimal t = atanSmall(BigDecimal.ONE.divide(BigDecimal.valueOf(5), m), m).multiply(BigDecimal.valueOf(16));
      PI_ = t.subtract(atanSmall(BigDecimal.ONE.divide(BigDecimal.valueOf(239), m), m).multiply(BigDecimal.valueOf(4)), m);
    }
    return PI_;
  }
  static BigDecimal atanSmall(BigDecimal x, MathContext m) {
    BigDecimal x2 = x.multiply(x, m), t = x, s = x;
    BigDecimal eps = BigDecimal.ONE.movePointLeft(m.getPrecision() + 2);
    for (int k = 3; t.abs().compareTo(eps) > 0; k += 2) {
      t = t.multiply(x2, m).negate();
      s = s.add(t.divide(BigDecimal.valueOf(k), m), m);
    }
    return s;
  }
  static BigDecimal expBig(BigDecimal x) {
    MathContext m = new MathContext(90);
    int k = 0;
    BigDecimal y = x;
    int mag = x.precision() - x.scale();
    if (mag > 9) return x.signum() < 0 ? BigDecimal.ZERO : null;
    BigDecimal q = new BigDecimal("0.01");
    BigDecimal two = BigDecimal.valueOf(2);
    while (y.abs().compareTo(q) > 0) { y = y.divide(two, m); k++; }
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    BigDecimal eps = BigDecimal.ONE.movePointLeft(92);
    for (int i = 1; i < 200; i++) {
      t = t.multiply(y, m).divide(BigDecimal.valueOf(i), m);
      s = s.add(t, m);
      if (t.abs().compareTo(eps) < 0) break;
    }
    for (int i = 0; i < k; i++) s = s.multiply(s, m);
    return s;
  }
  public Real exp() {
    if (nan()) return NAN;
    if (isZero()) return ONE;
    BigDecimal r = expBig(bigx(MX));
    return r == null ? NAN : dec(r);
  }
  public Real ln() {
    if (nan() || signum() <= 0) return NAN;
    if (exact() && n.equals(d)) return ZERO;
    BigDecimal x = bigx(MX);
    MathContext m = new MathContext(90);
    int e10 = x.precision() - x.scale();   // x = f * 10^e10, f in [0.1,1)
    BigDecimal f = x.movePointLeft(e10);
    double g0 = Math.log(f.doubleValue());
    BigDecimal y = new BigDecimal(g0);
    for (int i = 0; i < 4; i++) { // Halley-free Newton: y += 2 (f - e^y)/(f + e^y)
      BigDecimal ey = expBig(y);
      if (y.signum() == 0) ey = BigDecimal.ONE;
      y = y.add(BigDecimal.valueOf(2).multiply(f.subtract(ey, m), m).divide(f.add(ey, m), m), m);
    }
    return dec(y.add(ln10().multiply(BigDecimal.valueOf(e10), m), m));
  }
  static BigDecimal LN10_;
  static BigDecimal ln10() {
    if (LN10_ == null) {
      MathContext m = new MathContext(95);
      BigDecimal y = new BigDecimal(Math.log(10.0)), ten = BigDecimal.TEN;
      for (int i = 0; i < 5; i++) {
        BigDecimal ey = expBig(y);
        y = y.add(BigDecimal.valueOf(2).multiply(ten.subtract(ey, m), m).divide(ten.add(ey, m), m), m);
      }
      LN10_ = y;
    }
    return LN10_;
  }
  static BigDecimal[] sincos(BigDecimal x) {
    BigDecimal pi = pi(), half = pi.divide(BigDecimal.valueOf(2));
    MathContext m = new MathContext(95);
    BigDecimal k = x.divide(half, m).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal y = x.subtract(k.multiply(half), new MathContext(95));
    int q = k.toBigInteger().mod(BigInteger.valueOf(4)).intValue();
    // halve 4 times, series, then double-angle
    int h = 5;
    BigDecimal z = y.divide(BigDecimal.valueOf(1 << h), m);
    BigDecimal z2 = z.multiply(z, m);
    BigDecimal s = z, t = z, c = BigDecimal.ONE, u = BigDecimal.ONE;
    BigDecimal eps = BigDecimal.ONE.movePointLeft(95);
    for (int i = 1; i < 200; i++) {
      u = u.multiply(z2, m).divide(BigDecimal.valueOf((2L * i - 1) * (2L * i)), m).negate();
      t = t.multiply(z2, m).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), m).negate();
      c = c.add(u, m);
      s = s.add(t, m);
      if (u.abs().compareTo(eps) < 0) break;
    }
    for (int i = 0; i < h; i++) {
      BigDecimal s2 = s.multiply(c, m).multiply(BigDecimal.valueOf(2));
      c = BigDecimal.ONE.subtract(s.multiply(s, m).multiply(BigDecimal.valueOf(2)), m);
      s = s2.round(m);
    }
    switch (q) {
      case 0: return new BigDecimal[]{s, c};
      case 1: return new BigDecimal[]{c, s.negate()};
      case 2: return new BigDecimal[]{s.negate(), c.negate()};
      default: return new BigDecimal[]{c.negate(), s};
    }
  }
  public Real sin() { return nan() ? NAN : isZero() ? ZERO : snap(sincos(bigx(MX))[0]); }
  public Real cos() { return nan() ? NAN : isZero() ? ONE : snap(sincos(bigx(MX))[1]); }
  static Real snap(BigDecimal x) { // results below the working precision are rounding residue of pi multiples
    return x.abs().compareTo(BigDecimal.ONE.movePointLeft(60)) < 0 ? dec(BigDecimal.ZERO) : dec(x);
  }
  public Real atan() {
    if (nan()) return NAN;
    if (isZero()) return ZERO;
    MathContext m = new MathContext(90);
    BigDecimal x = bigx(MX);
    boolean neg = x.signum() < 0;
    if (neg) x = x.negate();
    boolean inv = x.compareTo(BigDecimal.ONE) > 0;
    if (inv) x = BigDecimal.ONE.divide(x, m);
    int h = 0;
    BigDecimal lim = new BigDecimal("0.05");
    while (x.compareTo(lim) > 0) { // atan x = 2 atan( x / (1 + sqrt(1+x^2)) )
      x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, m), m).sqrt(m), m), m);
      h++;
    }
    BigDecimal r = atanSmall(x, m).multiply(BigDecimal.valueOf(1L << h));
    if (inv) r = pi().divide(BigDecimal.valueOf(2)).subtract(r, m);
    return dec(neg ? r.negate() : r);
  }
  public static Real atan2(Real y, Real x) {
    if (y.nan() || x.nan()) return NAN;
    Real PI = dec(pi());
    if (x.isZero()) {
      if (y.isZero()) return ZERO;
      Real h = dec(pi().divide(BigDecimal.valueOf(2)));
      return y.signum() > 0 ? h : h.neg();
    }
    Real t = y.div(x).atan();
    if (x.signum() > 0) return t;
    return y.signum() >= 0 ? t.add(PI) : t.sub(PI);
  }
}
