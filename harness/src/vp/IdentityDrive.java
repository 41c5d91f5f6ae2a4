package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.time.LocalDate;
import java.time.temporal.TemporalAccessor;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Date;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;

/** Replays histories of %p calls (spec/Identity.tla). */
public final class IdentityDrive {
  private IdentityDrive() {}

  /** All objects of this class are equal. */
  static final class Equal {
    @Override
    public boolean equals(Object o) {
      return o instanceof Equal;
    }

    @Override
    public int hashCode() {
      return 7;
    }

    @Override
    public String toString() {
      return "Equal@7";
    }
  }

  @SuppressWarnings("deprecation")
  static Object make(String kind, int i) {
    switch (kind) {
      case "bool": return i % 3 == 0 ? Boolean.TRUE : new Boolean(true);
      case "char": return i % 3 == 0 ? (Object) Character.valueOf('a') : new Character('a');
      case "byte": return i % 3 == 0 ? (Object) Byte.valueOf((byte) 5) : new Byte((byte) 5);
      case "short": return i % 3 == 0 ? (Object) Short.valueOf((short) 5) : new Short((short) 5);
      case "int": return i % 3 == 0 ? (Object) Integer.valueOf(5) : new Integer(5);
      case "long": return i % 3 == 0 ? (Object) Long.valueOf(5) : new Long(5);
      case "float": return new Float(0);
      case "double": return new Double(0);
      case "bigint": return new BigInteger("12");
      case "bigdec": return new BigDecimal("1.5");
      case "string": return i % 3 == 0 ? "abc" : new String("abc");
      case "sb": return new StringBuilder("abc");
      case "date": return LocalDate.of(2024, 2, 28 + i % 2);
      case "object": return new Object();
      case "equal": return new Equal();
      case "ints": return new int[] {1};
      case "chars": return new char[] {'a'};
      case "list": return new ArrayList<>(Arrays.asList(1, 2));
      case "atomic": return new AtomicInteger(5);
      case "udate": return new Date(0);
      case "enum": return i % 2 == 0 ? TimeUnit.DAYS : TimeUnit.HOURS;
      default: throw new IllegalArgumentException(kind);
    }
  }

  static Args typed(Args a, String kind, Object v) {
    switch (kind) {
      case "bool": return a.putBooleanOrNull((Boolean) v);
      case "char": return a.putCharOrNull((Character) v);
      case "byte": return a.putByteOrNull((Byte) v);
      case "short": return a.putShortOrNull((Short) v);
      case "int": return a.putIntOrNull((Integer) v);
      case "long": return a.putLongOrNull((Long) v);
      case "float": return a.putFloatOrNull((Float) v);
      case "double": return a.putDoubleOrNull((Double) v);
      case "bigint": return a.putBigInteger((BigInteger) v);
      case "bigdec": return a.putBigDecimal((BigDecimal) v);
      case "string": return a.putString((String) v);
      case "sb": return a.putCharSequence((CharSequence) v);
      case "date": return a.putDateTime((TemporalAccessor) v);
      default: return a.putNull();
    }
  }

  static Args prim(Args a, String kind, Object v) {
    switch (kind) {
      case "bool": return a.putBoolean((Boolean) v);
      case "char": return a.putChar((Character) v);
      case "byte": return a.putByte((Byte) v);
      case "short": return a.putShort((Short) v);
      case "int": return a.putInt((Integer) v);
      case "long": return a.putLong((Long) v);
      case "float": return a.putFloat((Float) v);
      default: return a.putDouble((Double) v);
    }
  }

  static String shown(Object o, int w) {
    String s = o == null ? "null" : o.getClass().getName() + "@" + Integer.toHexString(System.identityHashCode(o));
    StringBuilder b = new StringBuilder(s);
    while (b.length() < Math.abs(w)) b.insert(w < 0 ? b.length() : 0, ' ');
    return b.append('|').toString();
  }

  static int num(Map<String, Object> h, String k) {
    return ((Long) h.get(k)).intValue();
  }

  static String replay(Map<String, Object> c) {
    List<Object> kinds = Json.list(c.get("k"));
    Object[] objs = new Object[kinds.size() + 1];
    for (int i = 1; i < objs.length; i++) objs[i] = make((String) kinds.get(i - 1), i);
    Args[] lists = new Args[num(c, "n") + 1];
    for (int i = 1; i < lists.length; i++) lists[i] = Args.create();
    Map<String, FastPrintf[]> formatters = new HashMap<>();
    int step = 0;
    for (Object e : Json.list(c.get("h"))) {
      Map<String, Object> h = Json.obj(e);
      step++;
      int l = num(h, "l");
      switch ((String) h.get("op")) {
        case "put": {
          int o = num(h, "o");
          String how = (String) h.get("how");
          String kind = (String) kinds.get(o == 0 ? step % kinds.size() : o - 1);
          lists[l] = how.equals("prim") ? prim(lists[l], kind, objs[o])
              : how.equals("typed") ? typed(lists[l], kind, objs[o]) : lists[l].put(objs[o]);
          break;
        }
        case "from": {
          List<Object> vs = new ArrayList<>();
          for (Object o : Json.list(h.get("os"))) vs.add(objs[((Long) o).intValue()]);
          String how = (String) h.get("how");
          lists[l] = how.equals("array") ? Args.of(vs.toArray())
              : how.equals("list") ? Args.of(vs) : Args.of((Iterable<Object>) vs::iterator);
          break;
        }
        case "copy":
          lists[l] = Args.of(lists[num(h, "m")].values());
          break;
        default: {
          String f = Json.text(h.get("f"));
          FastPrintf[] ps = formatters.computeIfAbsent(f, k -> {
            FastPrintf p = FastPrintf.compile(k);
            return new FastPrintf[] {p, p.enableThreadLocalCache()};
          });
          Map<String, Object> x = Json.obj(h.get("x"));
          StringBuilder want = new StringBuilder();
          for (Object s : Json.list(x.get("segs")))
            want.append(shown(objs[num(Json.obj(s), "o")], num(Json.obj(s), "w")));
          for (FastPrintf p : ps) {
            String st = "done", got = null;
            try {
              got = p.format(lists[l]);
            } catch (Throwable t) {
              st = Exec.kind(t);
            }
            StringBuilder sb = new StringBuilder();
            String st2 = "done";
            try {
              p.format(sb, lists[l]);
            } catch (Throwable t) {
              st2 = Exec.kind(t);
            }
            if (!st.equals(x.get("st")) || !st2.equals(st) || !sb.toString().equals(want.toString())
                || got != null && !got.equals(want.toString()))
              return "step " + step + ", \"" + f + "\": " + st + " \"" + got + "\", " + st2 + " \"" + sb + "\", specified " + x.get("st") + " \"" + want + "\"";
          }
        }
      }
    }
    return null;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String w;
        try {
          w = replay(c);
        } catch (RuntimeException e) {
          w = e.toString();
        }
        if (w != null) {
          c.put("what", "objects " + c.get("k") + ": " + w);
          out.write(Json.write(c));
          out.write('\n');
        }
      }
    }
  }
}
