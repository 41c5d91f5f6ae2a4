package vp;

import io.fastprintf.Args;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.CharBuffer;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.time.temporal.TemporalAccessor;
import java.util.ArrayList;
import java.util.Calendar;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.List;
import java.util.Map;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** Argument records of the specification <-> Java values. */
public final class Values {
  private Values() {}

  static final class Obj {
    final String s;

    Obj(String s) {
      this.s = s;
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** Throws when asked for its text. */
  static final class Boom {
    static final class Up extends RuntimeException {}

    @Override
    public String toString() {
      throw new Up();
    }
  }

  static final class Num extends Number {
    final long l;
    final int i;
    final double d;

    Num(long l, int i, double d) {
      this.l = l;
      this.i = i;
      this.d = d;
    }

    @Override
    public int intValue() {
      return i;
    }

    @Override
    public long longValue() {
      return l;
    }

    @Override
    public float floatValue() {
      return (float) d;
    }

    @Override
    public double doubleValue() {
      return d;
    }

    @Override
    public String toString() {
      return "Num" + l;
    }
  }

  /** A CharSequence that is neither a String nor a builder. */
  public static final class Chars implements CharSequence {
    private final String s;

    public Chars(String s) {
      this.s = s;
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return new Chars(s.substring(a, b));
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** Rope arguments; the class that builds them is compiled only where they are used. */
  static final class Seqs {
    static final java.lang.reflect.Method M;

    static {
      try {
        M = Class.forName("vp.SeqSupport").getMethod("make", String.class, String.class);
      } catch (ReflectiveOperationException e) {
        throw new IllegalStateException(e);
      }
    }

    static Object make(String kind, String s) {
      try {
        return M.invoke(null, kind, s);
      } catch (ReflectiveOperationException e) {
        throw new IllegalStateException(e);
      }
    }
  }

  static BigInteger nat(Object limbs) {
    List<Object> l = Json.list(limbs);
    BigInteger r = BigInteger.ZERO;
    for (int i = l.size() - 1; i >= 0; i--)
      r = r.multiply(BigInteger.valueOf(10000)).add(BigInteger.valueOf((Long) l.get(i)));
    return r;
  }

  static BigInteger signed(Map<String, Object> a) {
    BigInteger m = nat(a.get("m"));
    return Boolean.TRUE.equals(a.get("neg")) ? m.negate() : m;
  }

  static double dbl(Map<String, Object> a) {
    boolean neg = Boolean.TRUE.equals(a.get("neg"));
    String k = (String) a.get("k");
    if (k.equals("nan")) return Double.NaN;
    if (k.equals("inf")) return neg ? Double.NEGATIVE_INFINITY : Double.POSITIVE_INFINITY;
    long c = nat(a.get("c")).longValueExact();
    long q = (Long) a.get("q");
    long bits = c < (1L << 52) ? c : ((q + 1075) << 52) | (c - (1L << 52));
    return Double.longBitsToDouble(neg ? bits | Long.MIN_VALUE : bits);
  }

  static int num(Map<String, Object> a, String k) {
    return ((Long) a.get(k)).intValue();
  }

  static String opt(Map<String, Object> a, String k, String dflt) {
    Object v = a.get(k);
    return v == null ? dflt : (String) v;
  }

  /** The Java object denoted by an argument record. */
  @SuppressWarnings("deprecation")
  public static Object decode(Map<String, Object> a) {
    String t = (String) a.get("t");
    if (a.containsKey("fresh")) { // an object that is not one of the shared constants
      switch (t) {
        case "bool": return new Boolean(num(a, "v") == 1);
        case "char": return new Character((char) num(a, "v"));
        case "byte": return new Byte(signed(a).byteValueExact());
        case "short": return new Short(signed(a).shortValueExact());
        case "int": return new Integer(signed(a).intValueExact());
        case "long": return new Long(signed(a).longValueExact());
        case "bigint": return new BigInteger(signed(a).toByteArray());
        case "float": return new Float((float) dbl(a));
        case "double": return new Double(dbl(a));
        default:
      }
    }
    switch (t) {
      case "null": return null;
      case "bool": return num(a, "v") == 1;
      case "char": return (char) num(a, "v");
      case "byte": return signed(a).byteValueExact();
      case "short": return signed(a).shortValueExact();
      case "int": return signed(a).intValueExact();
      case "long": return signed(a).longValueExact();
      case "bigint": return signed(a);
      case "float": return (float) dbl(a);
      case "double": return dbl(a);
      case "bigdec": {
        BigInteger sc = BigInteger.valueOf(num(a, "sc"));
        if (a.containsKey("hx")) sc = sc.subtract(signed(Json.obj(a.get("hx"))));
        return new BigDecimal(signed(a), sc.intValueExact());
      }
      case "str": {
        String s = Json.text(a.get("s"));
        switch (opt(a, "cs", "String")) {
          case "sb": return new StringBuilder(s);
          case "sbuf": return new StringBuffer(s);
          case "buf": return CharBuffer.wrap(s.toCharArray());
          case "chars": return new Chars(s);
          case "seq": case "seqcat": return Seqs.make(opt(a, "cs", ""), s);
          default: return s;
        }
      }
      case "boom": return new Boom();
      case "obj": return new Obj(Json.text(a.get("s")));
      case "num": {
        long l = signed(a).longValueExact();
        switch (opt(a, "cls", "Num")) {
          case "AtomicLong": return new AtomicLong(l);
          case "AtomicInteger": return new AtomicInteger((int) l);
          default: return new Num(l, num(a, "i"), dbl(Json.obj(a.get("d"))));
        }
      }
      case "date": {
        long ms = signed(a).longValueExact();
        switch (opt(a, "cls", "Date")) {
          case "sqlDate": return new java.sql.Date(ms);
          case "sqlTime": return new java.sql.Time(ms);
          case "sqlTimestamp": {
            java.sql.Timestamp ts = new java.sql.Timestamp(ms);
            ts.setNanos(ts.getNanos() + num(a, "ns"));
            return ts;
          }
          default: return new Date(ms);
        }
      }
      case "cal": {
        Calendar c = new GregorianCalendar(TimeZone.getTimeZone(opt(a, "zone", "UTC")));
        c.setTimeInMillis(signed(a).longValueExact());
        return c;
      }
      case "arr": return array(a);
      case "inst": return Instant.ofEpochSecond(signed(a).longValueExact(), num(a, "ns"));
      case "ld": return LocalDate.of(num(a, "y"), num(a, "mo"), num(a, "d"));
      case "lt": return LocalTime.of(num(a, "h"), num(a, "mi"), num(a, "s"), num(a, "ns"));
      case "ldt": return ldt(a);
      case "odt": return OffsetDateTime.of(ldt(a), ZoneOffset.ofTotalSeconds(num(a, "off")));
      case "zdt": {
        ZoneOffset off = ZoneOffset.ofTotalSeconds(num(a, "off"));
        ZonedDateTime z = ZonedDateTime.of(ldt(a), off);
        return a.containsKey("zone") ? z.withZoneSameInstant(ZoneId.of((String) a.get("zone"))) : z;
      }
      default: throw new IllegalArgumentException(t);
    }
  }

  private static LocalDateTime ldt(Map<String, Object> a) {
    return LocalDateTime.of(
        num(a, "y"), num(a, "mo"), num(a, "d"), num(a, "h"), num(a, "mi"), num(a, "s"), num(a, "ns"));
  }

  private static Object array(Map<String, Object> a) {
    String el = (String) a.get("el");
    if (el.equals("byte")) {
      List<Object> b = Json.list(a.get("b"));
      byte[] r = new byte[b.size()];
      for (int i = 0; i < r.length; i++) r[i] = ((Long) b.get(i)).byteValue();
      return r;
    }
    if (el.equals("char")) return Json.text(a.get("s")).toCharArray();
    List<Object> v = Json.list(a.get("vals")); // argument records
    int n = v.size();
    Object[] d = new Object[n];
    for (int i = 0; i < n; i++) d[i] = decode(Json.obj(v.get(i)));
    switch (el) {
      case "boolean": {
        boolean[] r = new boolean[n];
        for (int i = 0; i < n; i++) r[i] = (Boolean) d[i];
        return r;
      }
      case "short": {
        short[] r = new short[n];
        for (int i = 0; i < n; i++) r[i] = (Short) d[i];
        return r;
      }
      case "int": {
        int[] r = new int[n];
        for (int i = 0; i < n; i++) r[i] = (Integer) d[i];
        return r;
      }
      case "long": {
        long[] r = new long[n];
        for (int i = 0; i < n; i++) r[i] = (Long) d[i];
        return r;
      }
      case "float": {
        float[] r = new float[n];
        for (int i = 0; i < n; i++) r[i] = (Float) d[i];
        return r;
      }
      case "double": {
        double[] r = new double[n];
        for (int i = 0; i < n; i++) r[i] = (Double) d[i];
        return r;
      }
      case "String": {
        String[] r = new String[n];
        for (int i = 0; i < n; i++) r[i] = (String) d[i];
        return r;
      }
      default: return d;
    }
  }

  /** Adds the value to the list the way the record says. */
  public static Args put(Args args, Map<String, Object> a, Object v) {
    String t = (String) a.get("t");
    boolean prim = a.get("prim") != null && num(a, "prim") == 1;
    if (prim) {
      switch (t) {
        case "bool": return args.putBoolean((Boolean) v);
        case "char": return args.putChar((Character) v);
        case "byte": return args.putByte((Byte) v);
        case "short": return args.putShort((Short) v);
        case "int": return args.putInt((Integer) v);
        case "long": return args.putLong((Long) v);
        case "float": return args.putFloat((Float) v);
        case "double": return args.putDouble((Double) v);
        default: throw new IllegalArgumentException("no primitive " + t);
      }
    }
    if (!"typed".equals(a.get("how"))) return args.put(v);
    String nt = t.equals("null") ? opt(a, "nt", "null") : t;
    switch (nt) {
      case "bool": return args.putBooleanOrNull((Boolean) v);
      case "char": return args.putCharOrNull((Character) v);
      case "byte": return args.putByteOrNull((Byte) v);
      case "short": return args.putShortOrNull((Short) v);
      case "int": return args.putIntOrNull((Integer) v);
      case "long": return args.putLongOrNull((Long) v);
      case "float": return args.putFloatOrNull((Float) v);
      case "double": return args.putDoubleOrNull((Double) v);
      case "bigint": return args.putBigInteger((BigInteger) v);
      case "bigdec": return args.putBigDecimal((BigDecimal) v);
      case "str": return v == null || v instanceof String ? args.putString((String) v) : args.putCharSequence((CharSequence) v);
      case "inst": case "ld": case "lt": case "ldt": case "odt": case "zdt":
        return args.putDateTime((TemporalAccessor) v);
      case "null": return args.putNull();
      default: return args.put(v);
    }
  }

  /** Fills in what only the Java runtime can tell: string form, identity, zone offsets. */
  public static void observe(Map<String, Object> a, Object v, boolean str, boolean id, boolean time) {
    String t = (String) a.get("t");
    if (!a.containsKey("prim")) a.put("prim", 0L);
    List<Object> none = new ArrayList<>();
    switch (t) {
      case "float": case "double": case "bigdec": case "obj": case "num": case "date": case "cal":
      case "inst": case "ld": case "lt": case "ldt": case "odt": case "zdt":
        a.put("str", str ? Json.units(String.valueOf(v)) : none);
        break;
      case "arr":
        if (a.containsKey("vals")) {
          List<Object> els = new ArrayList<>();
          for (Object o : Json.list(a.get("vals")))
            els.add(Json.units(String.valueOf(decode(Json.obj(o)))));
          a.put("els", els);
        }
        break;
      default:
    }
    a.put("id", id && v != null
        ? Json.units(v.getClass().getName() + "@" + Integer.toHexString(System.identityHashCode(v))) : none);
    if (t.equals("zdt") && a.containsKey("zone")) { // the local time in that zone
      ZonedDateTime z = (ZonedDateTime) v;
      int[] f = {z.getYear(), z.getMonthValue(), z.getDayOfMonth(), z.getHour(), z.getMinute(), z.getSecond(), z.getOffset().getTotalSeconds()};
      String[] n = {"y", "mo", "d", "h", "mi", "s", "off"};
      for (int i = 0; i < n.length; i++) a.put(n[i], (long) f[i]);
    }
    if (!time) return;
    a.put("zid", Json.units(t.equals("zdt") ? ((ZonedDateTime) v).getZone().getId() : ZoneId.systemDefault().getId()));
    switch (t) {
      case "inst":
        a.put("off", offset((Instant) v));
        break;
      case "date": case "cal":
        a.put("offm", offset(Instant.ofEpochMilli(v instanceof Date ? ((Date) v).getTime() : ((Calendar) v).getTimeInMillis())));
        break;
      case "int": {
        long u = ((Integer) v) & 0xFFFFFFFFL;
        a.put("offs", offset(Instant.ofEpochSecond(u)));
        a.put("offm", offset(Instant.ofEpochMilli(u)));
        break;
      }
      case "long": case "bigint": case "num": {
        long u = ((Number) v).longValue();
        a.put("offs", u > -300000000000000L && u < 300000000000000L ? offset(Instant.ofEpochSecond(u)) : 0L);
        a.put("offm", offset(Instant.ofEpochMilli(u)));
        break;
      }
      default:
    }
  }

  private static long offset(Instant i) {
    return ZoneId.systemDefault().getRules().getOffset(i).getTotalSeconds();
  }
}
