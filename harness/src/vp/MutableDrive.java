package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.nio.CharBuffer;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Calendar;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** Replays histories over argument objects that change between calls (spec/Mutable.tla). */
public final class MutableDrive {
  private MutableDrive() {}

  static final class Text implements CharSequence {
    String s = "";

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return s.substring(a, b);
    }

    @Override
    public String toString() {
      return s;
    }
  }

  static final class Thing {
    String s = "";

    @Override
    public String toString() {
      return s;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Thing;
    }

    @Override
    public int hashCode() {
      return 1;
    }
  }

  static final class Count extends Number {
    long n;

    @Override
    public int intValue() {
      return (int) n;
    }

    @Override
    public long longValue() {
      return n;
    }

    @Override
    public float floatValue() {
      return n;
    }

    @Override
    public double doubleValue() {
      return n;
    }

    @Override
    public String toString() {
      return "" + n;
    }
  }

  static Object make(String kind) {
    switch (kind) {
      case "sb": return new StringBuilder();
      case "sbuf": return new StringBuffer();
      case "buf": return CharBuffer.allocate(16);
      case "chars": return new Text();
      case "ints": return new int[2];
      case "bytes": return new byte[2];
      case "chararr": return new char[2];
      case "objs": return new Object[2];
      case "date": return new Date();
      case "cal": return new GregorianCalendar(TimeZone.getTimeZone("Asia/Tokyo"));
      case "along": return new AtomicLong();
      case "aint": return new AtomicInteger();
      case "obj": return new Thing();
      case "list": return new ArrayList<>();
      case "num": return new Count();
      default: throw new IllegalStateException(kind);
    }
  }

  /** Brings the object into the state of the record. */
  @SuppressWarnings("unchecked")
  static void set(Object o, String kind, Map<String, Object> rec) {
    switch (kind) {
      case "sb": ((StringBuilder) o).setLength(0); ((StringBuilder) o).append(Json.text(rec.get("s"))); break;
      case "sbuf": ((StringBuffer) o).setLength(0); ((StringBuffer) o).append(Json.text(rec.get("s"))); break;
      case "buf": {
        java.nio.Buffer b = (java.nio.Buffer) o;
        b.clear();
        ((CharBuffer) o).put(Json.text(rec.get("s")));
        b.flip();
        break;
      }
      case "chars": ((Text) o).s = Json.text(rec.get("s")); break;
      case "ints": for (int i = 0; i < 2; i++) ((int[]) o)[i] = Integer.parseInt(el(rec, i)); break;
      case "bytes": for (int i = 0; i < 2; i++) ((byte[]) o)[i] = ((Long) Json.list(rec.get("b")).get(i)).byteValue(); break;
      case "chararr": Json.text(rec.get("s")).getChars(0, 2, (char[]) o, 0); break;
      case "objs": for (int i = 0; i < 2; i++) ((Object[]) o)[i] = el(rec, i); break;
      case "date": ((Date) o).setTime(Values.signed(rec).longValueExact()); break;
      case "cal": ((Calendar) o).setTimeInMillis(Values.signed(rec).longValueExact()); break;
      case "along": ((AtomicLong) o).set(Values.signed(rec).longValueExact()); break;
      case "aint": ((AtomicInteger) o).set(Values.signed(rec).intValueExact()); break;
      case "num": ((Count) o).n = Values.signed(rec).longValueExact(); break;
      case "obj": ((Thing) o).s = Json.text(rec.get("s")); break;
      default: {
        List<Object> l = (List<Object>) o;
        l.clear();
        for (int i = 0; i < 2; i++) l.add(el(rec, i));
      }
    }
  }

  static String el(Map<String, Object> rec, int i) {
    return Json.text(Json.list(rec.get("els")).get(i));
  }

  /** The object is in the state of the record. */
  static boolean is(Object o, String kind, Map<String, Object> rec) {
    switch (kind) {
      case "sb": case "sbuf": case "buf": case "chars": case "obj": return o.toString().equals(Json.text(rec.get("s")));
      case "ints": return ((int[]) o)[0] == Integer.parseInt(el(rec, 0)) && ((int[]) o)[1] == Integer.parseInt(el(rec, 1));
      case "bytes": return ((byte[]) o)[0] == (Long) Json.list(rec.get("b")).get(0) && ((byte[]) o)[1] == (Long) Json.list(rec.get("b")).get(1);
      case "chararr": return new String((char[]) o).equals(Json.text(rec.get("s")));
      case "objs": return el(rec, 0).equals(((Object[]) o)[0]) && el(rec, 1).equals(((Object[]) o)[1]);
      case "date": return ((Date) o).getTime() == Values.signed(rec).longValueExact();
      case "cal": return ((Calendar) o).getTimeInMillis() == Values.signed(rec).longValueExact();
      case "along": case "aint": case "num": return ((Number) o).longValue() == Values.signed(rec).longValueExact();
      default: return o.equals(Arrays.asList(el(rec, 0), el(rec, 1)));
    }
  }

  /** The lists are made once, in several ways, from the objects themselves. */
  static Args[] lists(Object[] vs) {
    Args typed = Args.create();
    for (Object v : vs) typed = v instanceof CharSequence ? typed.putCharSequence((CharSequence) v) : typed.put(v);
    return new Args[] {typed, Args.of(vs), Args.of(Arrays.asList(vs))};
  }

  static String replay(Map<String, Object> c) {
    List<Object> kinds = Json.list(c.get("k"));
    List<Object> init = Json.list(c.get("init"));
    Object[] objs = new Object[kinds.size()];
    List<Map<String, Object>> now = new ArrayList<>();
    for (int i = 0; i < objs.length; i++) {
      objs[i] = make((String) kinds.get(i));
      now.add(Json.obj(init.get(i)));
      set(objs[i], (String) kinds.get(i), now.get(i));
    }
    Map<Object, Args[]> lists = new HashMap<>();
    Map<String, FastPrintf[]> formatters = new HashMap<>();
    int step = 0;
    for (Object o : Json.list(c.get("h"))) {
      Map<String, Object> h = Json.obj(o);
      step++;
      if (h.get("o").equals("set")) {
        int i = ((Long) h.get("i")).intValue() - 1;
        now.set(i, Json.obj(h.get("rec")));
        set(objs[i], (String) kinds.get(i), now.get(i));
        continue;
      }
      List<Object> l = Json.list(h.get("l"));
      Args[] as = lists.computeIfAbsent(l, k -> {
        Object[] vs = new Object[l.size()];
        for (int i = 0; i < vs.length; i++) vs[i] = objs[((Long) l.get(i)).intValue() - 1];
        return lists(vs);
      });
      String f = Json.text(h.get("f"));
      FastPrintf[] ps = formatters.computeIfAbsent(f, k -> {
        FastPrintf p = FastPrintf.compile(k);
        return new FastPrintf[] {p, p.enableThreadLocalCache()};
      });
      Map<String, Object> x = Json.obj(h.get("x"));
      String st = (String) x.get("st"), text = Json.text(x.get("s"));
      for (FastPrintf p : ps) {
        for (Args a : as) {
          String s = "done", got = null;
          try {
            got = p.format(a);
          } catch (Throwable e) {
            s = Exec.kind(e);
          }
          String bad = !s.equals(st) ? s : got != null && !got.equals(text) ? "\"" + got + "\"" : null;
          StringBuilder sb = new StringBuilder();
          s = "done";
          try {
            p.format(sb, a);
          } catch (Throwable e) {
            s = Exec.kind(e);
          }
          if (bad == null && (!s.equals(st) || !sb.toString().equals(text))) bad = s + " \"" + sb + "\"";
          if (bad != null) return "step " + step + ", format \"" + f + "\": " + bad + ", specified " + st + " \"" + text + "\"";
        }
      }
      for (int i = 0; i < objs.length; i++)
        if (!is(objs[i], (String) kinds.get(i), now.get(i))) return "step " + step + ", format \"" + f + "\": the call changed its argument " + kinds.get(i);
    }
    return null;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String w;
        try {
          w = replay(c);
        } catch (RuntimeException e) {
          w = e.toString();
        }
        if (w != null) {
          c.put("what", "objects " + c.get("k") + ": " + w);
          out.write(Json.write(c));
          out.write('\n');
        }
      }
    }
  }
}
