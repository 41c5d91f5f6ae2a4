package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.io.StringWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TimeZone;

/**
 * Runs recorded cases (format and argument records, one JSON object a line) against the library
 * and writes each case with its outcome: the trace that TLC validates.
 */
public final class Exec {
  private Exec() {}

  /** An Appendable that is neither builder nor writer. */
  static final class Sink implements Appendable {
    final StringBuilder got = new StringBuilder();

    @Override
    public Appendable append(CharSequence c) {
      got.append(c.toString());
      return this;
    }

    @Override
    public Appendable append(CharSequence c, int a, int b) {
      got.append(c.toString(), a, b);
      return this;
    }

    @Override
    public Appendable append(char c) {
      got.append(c);
      return this;
    }
  }

  /** Beyond any text the cases ask for; what exceeds it need not be looked at. */
  private static final int LONGEST = 1 << 24;

  static String kind(Throwable e) {
    for (Throwable c = e; c != null; c = c.getCause()) if (c instanceof Values.Boom.Up) return "user";
    if (e instanceof PrintfException) return "lib";
    if (e instanceof PrintfSyntaxException) return "exc:" + e.getClass().getName();
    if (e instanceof java.time.DateTimeException) return "dte";
    if (e.getClass() == IllegalArgumentException.class) return "iae";
    return "exc:" + e.getClass().getName();
  }

  static Args args(List<Object> recs, Object[] vals) {
    Args args = Args.create();
    for (int i = 0; i < vals.length; i++) args = Values.put(args, Json.obj(recs.get(i)), vals[i]);
    return args;
  }

  public static Map<String, Object> outcome(String st, CharSequence s) {
    Map<String, Object> r = new LinkedHashMap<>();
    r.put("st", st);
    r.put("s", Json.units(s));
    return r;
  }

  /** The same call through another channel: null when it agrees, otherwise what it did. */
  static String channel(FastPrintf p, List<Object> recs, Object[] vals, String ch, String st, String text) {
    String s = "done";
    CharSequence got = null;
    try {
      switch (ch) {
        case "string":
          got = p.format(args(recs, vals));
          break;
        case "varargs":
          got = p.format(vals);
          break;
        case "list":
          got = p.format(Args.of(vals));
          break;
        case "iterable":
          List<Object> l = java.util.Arrays.asList(vals);
          Iterable<Object> it = l::iterator;
          got = p.format(vals.length % 2 == 0 ? Args.of(l) : Args.of(it));
          break;
        case "copy":
          Args c = Args.createWithExpectedSize(vals.length / 2);
          for (Object v : args(recs, vals).values()) c.put(v);
          got = p.format(c);
          break;
        case "entries":
          Args again = Args.create();
          for (io.fastprintf.traits.FormatTraits t : args(recs, vals)) again.put(t);
          got = p.format(again);
          break;
        case "writer": {
          StringWriter w = new StringWriter();
          got = w.getBuffer();
          if (p.format(w, args(recs, vals)) != w) s = "othertarget";
          break;
        }
        case "appendable": {
          Sink k = new Sink();
          k.append("<");
          got = k.got;
          if (p.format(k, args(recs, vals)) != k) s = "othertarget";
          break;
        }
        case "buffer": {
          StringBuffer b = new StringBuffer();
          got = b;
          if (p.format(b, args(recs, vals)) != b) s = "othertarget";
          break;
        }
        case "charbuffer": {
          java.nio.CharBuffer b = java.nio.CharBuffer.allocate(text.length() + 1);
          try {
            if (p.format(b, args(recs, vals)) != b) s = "othertarget";
          } finally {
            got = new StringBuilder().append(b.array(), 0, b.position());
          }
          break;
        }
        case "printwriter": {
          StringWriter w = new StringWriter();
          java.io.PrintWriter pw = new java.io.PrintWriter(w);
          got = w.getBuffer();
          try {
            if (p.format(pw, args(recs, vals)) != pw) s = "othertarget";
          } finally {
            pw.flush();
          }
          break;
        }
        case "printstream": {
          java.io.ByteArrayOutputStream w = new java.io.ByteArrayOutputStream();
          java.io.PrintStream ps;
          try {
            ps = new java.io.PrintStream(w, false, "UTF-16BE");
          } catch (java.io.UnsupportedEncodingException e) {
            throw new IllegalStateException(e);
          }
          try {
            if (p.format(ps, args(recs, vals)) != ps) s = "othertarget";
          } finally {
            ps.flush();
            got = new String(w.toByteArray(), StandardCharsets.UTF_16BE);
          }
          break;
        }
        default:
          throw new IllegalStateException(ch);
      }
    } catch (Throwable e) {
      s = kind(e);
      if (ch.equals("string") || ch.equals("varargs") || ch.equals("list") || ch.equals("iterable") || ch.equals("copy") || ch.equals("entries")) got = null;
    }
    if (!s.equals(st)) return "channel " + ch + ": " + s;
    if (ch.equals("printstream") && lone(text)) return null; // not encodable
    String want = ch.equals("appendable") ? "<" + text : text;
    if (got != null && !got.toString().equals(want)) return "channel " + ch + " got " + got;
    return null;
  }

  /** Targets with room for a part of the text, and for all of it (spec/MC_Sink.tla, there with every room). */
  static String full(FastPrintf p, List<Object> recs, Object[] vals, String st, String text) {
    int n = text.length(), at = (text.hashCode() & 0x7fffffff) % n;
    for (int room : new int[] {at, n - 1, n}) {
      String end = room < n ? "io" : st, left = text.substring(0, room);
      SinkDrive.Full full = new SinkDrive.Full(room, SinkDrive.error(at));
      String bad = SinkDrive.faulty(p, recs, vals, full, full, end, left);
      if (bad != null) return "target with room for " + room + ": " + bad;
      SinkDrive.FullWriter w = new SinkDrive.FullWriter(room, SinkDrive.error(at + 1));
      bad = SinkDrive.faulty(p, recs, vals, w, w.f, end, left);
      if (bad != null) return "writer with room for " + room + ": " + bad;
    }
    return null;
  }

  static boolean lone(String s) {
    for (int i = 0; i < s.length(); i++) if (Character.isSurrogate(s.charAt(i))) return true;
    return false;
  }

  /** One call; in the other modes also through other output channels or options, which must agree. */
  static Map<String, Object> call(String f, List<Object> recs, Object[] vals, String mode, boolean id) {
    FastPrintf p;
    try {
      p = FastPrintf.compile(f);
    } catch (PrintfSyntaxException e) {
      boolean inside = e.getIndex() >= 0 && e.getIndex() <= f.length();
      String m = e.getMessage();
      return outcome(inside && m != null ? "syntax" : "badindex", "");
    } catch (PrintfException e) {
      return outcome("syntax", "");
    } catch (Throwable e) {
      return outcome("compile:" + e.getClass().getName(), "");
    }
    StringBuilder sb = new StringBuilder("<<");
    String st = "done";
    try {
      if (p.format(sb, args(recs, vals)) != sb) st = "othertarget";
    } catch (Throwable e) {
      st = kind(e);
      for (Throwable c = e; c != null; c = c.getCause()) if (c instanceof VirtualMachineError) return outcome(st, "");
    }
    if (sb.length() > LONGEST) return outcome("longer than any field", "");
    if (sb.length() < 2 || sb.charAt(0) != '<' || sb.charAt(1) != '<') st = "clobbered";
    String text = sb.length() < 2 ? "" : sb.substring(2);
    if (!mode.isEmpty()) {
      String bad = channel(p, recs, vals, "string", st, text);
      if (bad == null) bad = channel(p, recs, vals, "writer", st, text);
      if (bad == null) bad = channel(p, recs, vals, "appendable", st, text);
      if (bad == null && mode.equals("channels")) {
        for (String ch : new String[] {"buffer", "printstream", "printwriter", "charbuffer", "list", "iterable", "varargs", "copy", "entries"}) {
          if (id && !ch.equals("entries") && !ch.startsWith("p") && !ch.endsWith("buffer") && !ch.equals("buffer")) continue; // how it was put matters to %p
          bad = channel(p, recs, vals, ch, st, text);
          if (bad != null) break;
        }
        if (bad == null && !text.isEmpty()) bad = full(p, recs, vals, st, text);
      }
      if (bad == null && mode.equals("options")) {
        FastPrintf c = p.enableThreadLocalCache();
        FastPrintf[] ps = {c, c, p.setStringBuilderInitialCapacity(1), c.setStringBuilderInitialCapacity(3), p};
        for (int k = 0; k < ps.length && bad == null; k++) {
          bad = channel(ps[k], recs, vals, "string", st, text);
          if (bad == null) bad = channel(ps[k], recs, vals, "appendable", st, text);
        }
        if (bad == null) bad = channel(c, recs, vals, "string", st, text);
      }
      if (bad != null) return outcome(bad, text);
    }
    return outcome(st, text);
  }

  static boolean has(String f, String set) {
    for (int i = 0; i < f.length(); i++) if (set.indexOf(f.charAt(i)) >= 0) return true;
    return false;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    String mode = a.length > 2 && !a[2].equals("nosinks") ? a[2] : ""; // sinks, channels, options
    boolean replay = a.length > 3 && a[3].equals("replay");
    String locale = System.getProperty("vp.locale");
    if (locale != null) java.util.Locale.setDefault(java.util.Locale.forLanguageTag(locale));
    TimeZone base = TimeZone.getDefault();
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String tz = (String) c.remove("tz");
        TimeZone.setDefault(tz == null ? base : TimeZone.getTimeZone(tz));
        String f = Json.text(c.get("f"));
        if (c.containsKey("rep")) { // a long format string: f repeated
          int n = ((Long) c.get("rep")).intValue();
          StringBuilder sb = new StringBuilder();
          for (int i = 0; i < n; i++) sb.append(f);
          f = sb.toString();
          c.remove("rep");
          c.put("f", Json.units(f));
        }
        List<Object> recs = Json.list(c.get("a"));
        Object[] vals = new Object[recs.size()];
        boolean str = has(f, "sS"), id = has(f, "p"), time = has(f, "tT");
        for (int i = 0; i < vals.length; i++) {
          Map<String, Object> rec = Json.obj(recs.get(i));
          vals[i] = Values.decode(rec);
          Values.observe(rec, vals[i], str, id, time);
        }
        Map<String, Object> r = call(f, recs, vals, mode, id);
        c.put("r", r);
        if (replay && r.equals(c.get("x"))) continue; // as specified
        out.write(Json.write(c));
        out.write('\n');
        if (replay) out.flush();
      }
    }
  }
}
