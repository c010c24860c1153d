// Fast versions of the operators of spec/BigFloat.tla; they follow spec/BigFloatDef.tla digit by digit.
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class BigFloat {
  private static final int B = 10000, K = 7;

  private static final class Num {
    int s, e;
    int[] m;
    Num(int s, int[] m, int e) { this.s = s; this.m = m; this.e = e; }
    int top() { return e + m.length; }
    int limb(int k) { int i = k - e; return i >= 1 && i <= m.length ? m[i - 1] : 0; }
  }
  private static final Num ZERO = new Num(0, new int[0], 0);

  private static TupleValue tuple(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("BigFloat: not a number: " + v);
    return t;
  }
  private static Num of(Value v) {
    TupleValue t = tuple(v);
    if (t.size() != 3) throw new RuntimeException("BigFloat: not a number: " + v);
    TupleValue l = tuple((Value) t.elems[1]);
    int[] m = new int[l.size()];
    for (int i = 0; i < m.length; i++) m[i] = ((IntValue) l.elems[i]).val;
    return new Num(((IntValue) t.elems[0]).val, m, ((IntValue) t.elems[2]).val);
  }
  private static Value to(Num n) {
    Value[] l = new Value[n.m.length];
    for (int i = 0; i < l.length; i++) l[i] = IntValue.gen(n.m[i]);
    return new TupleValue(new Value[] {IntValue.gen(n.s), new TupleValue(l), IntValue.gen(n.e)});
  }
  // columns (which may be negative) to limbs, cut to the K leading ones
  private static Num make(int s, long[] cols, int e) {
    int[] d = new int[cols.length + 4];
    long c = 0;
    int n = 0;
    for (; n < cols.length || c != 0; n++) {
      long t = (n < cols.length ? cols[n] : 0) + c;
      d[n] = (int) Math.floorMod(t, (long) B);
      c = Math.floorDiv(t, (long) B);
    }
    while (n > 0 && d[n - 1] == 0) n--;
    if (n == 0) return ZERO;
    int from = Math.max(0, n - K);
    int[] m = new int[n - from];
    System.arraycopy(d, from, m, 0, n - from);
    return new Num(s, m, e + from);
  }
  private static int cmpAbs(Num x, Num y) {
    if (x.s == 0 || y.s == 0) return x.s == 0 ? (y.s == 0 ? 0 : -1) : 1;
    if (x.top() != y.top()) return x.top() > y.top() ? 1 : -1;
    for (int k = x.top(), lo = Math.min(x.e, y.e) + 1; k >= lo; k--) {
      int d = x.limb(k) - y.limb(k);
      if (d != 0) return d > 0 ? 1 : -1;
    }
    return 0;
  }
  private static Num addAbs(Num x, Num y, int sy, int s) {
    int hi = Math.max(x.top(), y.top()), lo = Math.max(Math.min(x.e, y.e), hi - K - 1);
    long[] cols = new long[hi - lo];
    for (int k = 1; k <= hi - lo; k++) cols[k - 1] = x.limb(lo + k) + sy * y.limb(lo + k);
    return make(s, cols, lo);
  }

  public static Value Mul(Value vx, Value vy) {
    Num x = of(vx), y = of(vy);
    if (x.s == 0 || y.s == 0) return to(ZERO);
    long[] cols = new long[x.m.length + y.m.length - 1];
    for (int i = 0; i < x.m.length; i++) for (int j = 0; j < y.m.length; j++) cols[i + j] += (long) x.m[i] * y.m[j];
    return to(make(x.s * y.s, cols, x.e + y.e));
  }
  public static Value Add(Value vx, Value vy) {
    Num x = of(vx), y = of(vy);
    if (x.s == 0) return vy;
    if (y.s == 0) return vx;
    if (x.s == y.s) return to(addAbs(x, y, 1, x.s));
    int c = cmpAbs(x, y);
    return to(c == 0 ? ZERO : c > 0 ? addAbs(x, y, -1, x.s) : addAbs(y, x, -1, y.s));
  }
  public static Value CmpAbs(Value vx, Value vy) { return IntValue.gen(cmpAbs(of(vx), of(vy))); }
}
