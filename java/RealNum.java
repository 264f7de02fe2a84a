import tlc2.value.impl.*;

/** A real number (IEEE double) as a first-class TLC value. */
public final class RealNum extends UserValue {
  public final double d;

  public RealNum(double d) {
    super(new Obj(d));
    this.d = d == 0.0 ? 0.0 : d; // no negative zero
  }

  @Override
  public long fingerPrint(long fp) {
    return tlc2.util.FP64.Extend(tlc2.util.FP64.Extend(fp, (byte) 97), Double.doubleToLongBits(d));
  }

  @Override
  public tlc2.value.IValue permute(tlc2.value.IMVPerm p) {
    return this;
  }

  private static final class Obj extends UserObj {
    final double d;

    Obj(double d) {
      this.d = d == 0.0 ? 0.0 : d;
    }

    @Override
    public int compareTo(Value v) {
      if (v instanceof RealNum) return Double.compare(d, ((RealNum) v).d);
      return 1;
    }

    @Override
    public boolean member(Value v) {
      return false;
    }

    @Override
    public boolean isFinite() {
      return true;
    }

    @Override
    public StringBuffer toString(StringBuffer sb, int i, boolean b) {
      return sb.append(d);
    }
  }
}
