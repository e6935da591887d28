import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/** A complex number as an opaque TLC value.  Each component is an exact
 *  rational or, once an irrational function has been applied, a decimal
 *  with Real.MC digits.  A component may be undefined (NaN). */
public final class NumValue extends Value {
  public final Real re, im;

  public NumValue(Real re, Real im) { this.re = re; this.im = im; }

  @Override public byte getKind() { return STRINGVALUE; }

  @Override public int compareTo(Object o) {
    return this.str().compareTo(o instanceof NumValue ? ((NumValue) o).str() : o.toString());
  }
  @Override public boolean equals(Object o) {
    if (this == o) return true;
    if (o instanceof NumValue) return str().equals(((NumValue) o).str());
    if (o instanceof StringValue) return str().equals(((StringValue) o).val.toString());
    return false;
  }
  @Override public boolean member(Value v) { return false; }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept e) {
    if (e.idx < e.path.length) throw new RuntimeException("EXCEPT applied to a number");
    return e.value;
  }
  @Override public Value takeExcept(ValueExcept[] e) {
    Value v = this;
    for (ValueExcept x : e) v = v.takeExcept(x);
    return v;
  }
  @Override public Value normalize() { return this; }
  @Override public boolean isNormalized() { return true; }
  @Override public boolean isDefined() { return true; }
  @Override public int size() { return 1; }
  @Override public tlc2.value.IValue deepCopy() { return this; }
  @Override public boolean mutates() { return false; }
  @Override public tlc2.value.IValue permute(tlc2.value.IMVPerm p) { return this; }
  @Override public void write(tlc2.value.IValueOutputStream vos) throws java.io.IOException {
    new StringValue(str()).write(vos);
  }
  @Override public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, STRINGVALUE);
    String s = str();
    fp = FP64.Extend(fp, s.length());
    return FP64.Extend(fp, s);
  }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append("\"").append(str()).append("\"");
  }
  private String cache;
  public String str() {
    if (cache == null) cache = im.isZero() ? re.str() : re.str() + "|" + im.str();
    return cache;
  }
}
