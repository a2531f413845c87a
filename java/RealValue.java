import tlc2.value.*;
import tlc2.value.impl.*;
import tlc2.util.FP64;
import util.Assert;

/** A TLC value holding an IEEE double: the carrier of module RealK. */
public final class RealValue extends Value {
  public final double v;
  public RealValue(double v) { this.v = v; }
  @Override public byte getKind() { return REALVALUE; }
  @Override public String getKindString() { return "a real"; }
  private static double asD(Object o) {
    if (o instanceof RealValue) return ((RealValue) o).v;
    if (o instanceof IntValue) return ((IntValue) o).val;
    Assert.fail("Attempted to compare a real with " + o);
    return 0;
  }
  @Override public int compareTo(Object o) { return Double.compare(v, asD(o)); }
  @Override public boolean equals(Object o) {
    if (!(o instanceof RealValue || o instanceof IntValue)) return false;
    double w = asD(o);
    return v == w || (Double.isNaN(v) && Double.isNaN(w));
  }
  @Override public boolean member(Value e) { Assert.fail("membership in a real"); return false; }
  @Override public boolean isFinite() { Assert.fail("isFinite of a real"); return false; }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) Assert.fail("EXCEPT on a real"); return ex.value; }
  @Override public Value takeExcept(ValueExcept[] exs) { return exs.length == 0 ? this : takeExcept(exs[exs.length - 1]); }
  @Override public int size() { Assert.fail("size of a real"); return 0; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  public boolean assignable(Value val) { return val instanceof RealValue && equals(val); }
  @Override public void write(IValueOutputStream vos) throws java.io.IOException {
    vos.writeByte(REALVALUE); vos.writeLong(Double.doubleToLongBits(v));
  }
  @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, REALVALUE), Double.doubleToLongBits(v)); }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(v); }
}
