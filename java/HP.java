import java.math.*;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.value.IValueOutputStream;
import tlc2.util.FP64;
import util.UniqueString;

/** TLC module override of HP.tla: 50-digit decimal arithmetic with an absorbing NaR. */
public class HP {
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);

  static final class Obj extends UserObj {
    final BigDecimal v; // null: NaR
    Obj(BigDecimal v) { this.v = v; }
    public int compareTo(Value o) {
      BigDecimal w = ((Num) o).o.v;
      if (v == null) return w == null ? 0 : -1;
      if (w == null) return 1;
      return v.compareTo(w);
    }
    public boolean member(Value x) { throw new RuntimeException("a real number is not a set"); }
    public boolean isFinite() { return false; }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
      return sb.append('"').append(str(v)).append('"');
    }
  }

  static String str(BigDecimal v) {
    return v == null ? "NaR" : v.round(new MathContext(25)).stripTrailingZeros().toString();
  }

  public static final class Num extends UserValue {
    final Obj o;
    Num(BigDecimal v) { super(new Obj(v)); this.o = (Obj) userObj; }
    public long fingerPrint(long fp) { return FP64.Extend(fp, o.v == null ? "NaR" : o.v.stripTrailingZeros().toString()); }
    public IValue permute(IMVPerm p) { return this; }
    public void deepNormalize() { }
    public void write(IValueOutputStream vos) throws java.io.IOException {
      new StringValue(o.v == null ? "NaR" : o.v.toString()).write(vos);
    }
  }

  public static final Num NAR = new Num(null);
  static final Num ZERO = new Num(BigDecimal.ZERO);

  /** A zero carries no exponent: one that doubles with every product would leave the range of a BigDecimal. */
  static Num mk(BigDecimal v) { return v.signum() == 0 ? ZERO : new Num(v); }

  static BigDecimal of(Value a) {
    if (a instanceof Num) return ((Num) a).o.v;
    if (a instanceof IntValue) return BigDecimal.valueOf(((IntValue) a).val);
    if (a instanceof StringValue) {
      try { return new BigDecimal(((StringValue) a).val.toString()); }
      catch (NumberFormatException e) { return null; }
    }
    return null;
  }


  public static Value R(Value s) {
    if (s instanceof Num) return s;
    BigDecimal v = of(s);
    return v == null ? NAR : mk(v);
  }
  public static Value RStr(Value a) { return new StringValue(str(of(a))); }

  public static Value RAdd(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x == null || y == null ? NAR : mk(x.add(y, MC));
  }
  public static Value RSub(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x == null || y == null ? NAR : mk(x.subtract(y, MC));
  }
  public static Value RMul(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x == null || y == null ? NAR : mk(x.multiply(y, MC));
  }
  public static Value RDiv(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x == null || y == null || y.signum() == 0 ? NAR : mk(x.divide(y, MC));
  }
  public static Value RNeg(Value a) {
    BigDecimal x = of(a);
    return x == null ? NAR : mk(x.negate());
  }
  public static Value RAbs(Value a) {
    BigDecimal x = of(a);
    return x == null ? NAR : mk(x.abs());
  }
  public static Value RSqrt(Value a) {
    BigDecimal x = of(a);
    return x == null || x.signum() < 0 ? NAR : mk(x.sqrt(MC));
  }
  public static Value RLt(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x != null && y != null && x.compareTo(y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RLe(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x != null && y != null && x.compareTo(y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RIs(Value a) { return of(a) != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RMax(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x == null || y == null ? NAR : x.compareTo(y) <= 0 ? R(b) : R(a);
  }
  public static Value RMin(Value a, Value b) {
    BigDecimal x = of(a), y = of(b);
    return x == null || y == null ? NAR : x.compareTo(y) <= 0 ? R(a) : R(b);
  }
  public static Value RFloor(Value a) {
    BigDecimal x = of(a);
    return IntValue.gen(x.setScale(0, RoundingMode.FLOOR).intValueExact());
  }
  static Value[] elems(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new RuntimeException("HP: a sequence was expected");
    return t.elems;
  }
  public static Value RSum(Value s) {
    BigDecimal acc = BigDecimal.ZERO;
    for (Value e : elems(s)) {
      BigDecimal x = of(e);
      if (x == null) return NAR;
      acc = acc.add(x, MC);
    }
    return mk(acc);
  }
  public static Value RDot(Value u, Value v) {
    Value[] a = elems(u), b = elems(v);
    if (a.length != b.length) return NAR;
    BigDecimal acc = BigDecimal.ZERO;
    for (int i = 0; i < a.length; i++) {
      BigDecimal x = of(a[i]), y = of(b[i]);
      if (x == null || y == null) return NAR;
      acc = acc.add(x.multiply(y, MC), MC);
    }
    return mk(acc);
  }
  public static Value RClose(Value a, Value b, Value tol, Value scale) {
    BigDecimal x = of(a), y = of(b), t = of(tol), s = of(scale);
    if (x == null || y == null || t == null || s == null) return BoolValue.ValFalse;
    BigDecimal m = x.abs().max(y.abs()).max(s);
    return x.subtract(y, MC).abs().compareTo(t.multiply(m, MC)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
