import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Fast evaluation of the operators of module BigNat; see BigNat.tla for their meaning. */
public class BigNat {
  /** A limb tuple that remembers its number. */
  private static final class Limbs extends TupleValue {
    private static final long serialVersionUID = 1L;
    final BigInteger n;

    Limbs(Value[] e, BigInteger n) {
      super(e);
      this.n = n;
    }
  }

  private static final ConcurrentHashMap<Integer, Value> POWERS = new ConcurrentHashMap<>();

  private static BigInteger big(Value v) {
    if (v instanceof Limbs) return ((Limbs) v).n;
    TupleValue t = (TupleValue) v.toTuple();
    Value[] e = t.elems;
    if (e.length <= 4) {
      long x = 0;
      for (int i = e.length - 1; i >= 0; i--) x = x * 10000 + ((IntValue) e[i]).val;
      return BigInteger.valueOf(x);
    }
    StringBuilder sb = new StringBuilder(e.length * 4);
    for (int i = e.length - 1; i >= 0; i--) {
      int x = ((IntValue) e[i]).val;
      sb.append((char) ('0' + x / 1000)).append((char) ('0' + x / 100 % 10))
          .append((char) ('0' + x / 10 % 10)).append((char) ('0' + x % 10));
    }
    return new BigInteger(sb.toString());
  }

  private static Value val(BigInteger b) {
    if (b.signum() < 0) throw new IllegalStateException("BigNat underflow");
    if (b.signum() == 0) return new TupleValue(new Value[0]);
    String s = b.toString();
    int n = (s.length() + 3) / 4;
    Value[] e = new Value[n];
    int end = s.length();
    for (int i = 0; i < n; i++) {
      int start = Math.max(0, end - 4);
      int x = 0;
      for (int j = start; j < end; j++) x = x * 10 + (s.charAt(j) - '0');
      e[i] = IntValue.gen(x);
      end = start;
    }
    return new Limbs(e, b);
  }

  private static int num(Value v) {
    return ((IntValue) v).val;
  }

  public static Value NCmp(Value a, Value b) {
    return IntValue.gen(big(a).compareTo(big(b)));
  }

  public static Value NAdd(Value a, Value b) {
    return val(big(a).add(big(b)));
  }

  public static Value NSub(Value a, Value b) {
    return val(big(a).subtract(big(b)));
  }

  public static Value NMul(Value a, Value b) {
    return val(big(a).multiply(big(b)));
  }

  public static Value NMulDig(Value a, Value d) {
    return val(big(a).multiply(BigInteger.valueOf(num(d))));
  }

  public static Value NDivMod(Value a, Value b) {
    BigInteger[] qr = big(a).divideAndRemainder(big(b));
    return new TupleValue(new Value[] {val(qr[0]), val(qr[1])});
  }

  public static Value NDiv(Value a, Value b) {
    return val(big(a).divide(big(b)));
  }

  public static Value NMod(Value a, Value b) {
    return val(big(a).mod(big(b)));
  }

  public static Value NPow(Value b, Value n) {
    int key = num(b) * 100000 + num(n);
    Value p = POWERS.get(key);
    if (p == null) {
      p = val(BigInteger.valueOf(num(b)).pow(num(n)));
      if (POWERS.size() < 20000) POWERS.put(key, p);
    }
    return p;
  }

  public static Value NBitLen(Value a) {
    return IntValue.gen(big(a).bitLength());
  }

  public static Value NDigits(Value a, Value b) {
    BigInteger x = big(a);
    if (x.signum() == 0) return new TupleValue(new Value[0]);
    String s = x.toString(num(b));
    Value[] e = new Value[s.length()];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(Character.digit(s.charAt(i), 16));
    return new TupleValue(e);
  }

  public static Value NFromDigits(Value d) {
    TupleValue t = (TupleValue) d.toTuple();
    StringBuilder sb = new StringBuilder("0");
    for (Value v : t.elems) sb.append((char) ('0' + ((IntValue) v).val));
    return val(new BigInteger(sb.toString()));
  }
}
