package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.io.Writer;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Replays calls whose targets use the formatter while they are appended to (spec/Reenter.tla). */
public final class ReenterDrive {
  private ReenterDrive() {}

  static String format;
  static Object[][] values;
  static List<Object> records;
  static String[] texts;

  /** One replay: the inner calls still to be made and the first thing that went wrong. */
  static final class Run {
    final FastPrintf p;
    final List<Map<String, Object>> plan = new ArrayList<>();
    final boolean writers;
    String bad;

    Run(FastPrintf p, List<Object> h, boolean writers) {
      this.p = p;
      for (Object o : h) plan.add(Json.obj(o));
      this.writers = writers;
    }

    Args args(int c) {
      return Exec.args(Json.list(records.get(c)), values[c]);
    }

    void wrong(String s) {
      if (bad == null) bad = s;
    }

    void check(int c, String got) {
      if (!texts[c].equals(got)) wrong("call " + (c + 1) + " gave \"" + got + "\", specified \"" + texts[c] + "\"");
    }

    void outer(int c) {
      Place t = new Place(this, c);
      Appendable target = writers ? new Out(t) : t;
      if (p.format(target, args(c)) != target) wrong("call " + (c + 1) + " returned another target");
      check(c, t.got.toString());
    }

    /** The inner calls due when the target of call c holds as many units. */
    void reached(int c, int units) {
      for (int i = 0; i < plan.size(); i++) {
        Map<String, Object> e = plan.get(i);
        if ((Long) e.get("by") != c + 1 || (Long) e.get("at") != units) continue;
        plan.remove(i--);
        int k = ((Long) e.get("c")).intValue() - 1;
        switch ((String) e.get("k")) {
          case "string":
            check(k, p.format(args(k)));
            break;
          case "builder":
            check(k, p.format(new StringBuilder(), args(k)).toString());
            break;
          case "target":
            outer(k);
            break;
          default:
            try {
              p.format(Exec.args(Json.list(records.get(k)).subList(0, 2), new Object[] {values[k][0], values[k][1]}));
              wrong("call " + (k + 1) + " did not fail");
            } catch (PrintfException expected) {
              // too few arguments
            }
        }
      }
    }
  }

  static final class Place implements Appendable {
    final Run run;
    final int c;
    final StringBuilder got = new StringBuilder();

    Place(Run run, int c) {
      this.run = run;
      this.c = c;
    }

    @Override
    public Appendable append(CharSequence s) {
      return append(s, 0, s.length());
    }

    @Override
    public Appendable append(CharSequence s, int a, int b) {
      for (int i = a; i < b; i++) append(s.charAt(i));
      return this;
    }

    @Override
    public Appendable append(char ch) {
      got.append(ch);
      run.reached(c, got.length());
      return this;
    }
  }

  static final class Out extends Writer {
    final Place t;

    Out(Place t) {
      this.t = t;
    }

    @Override
    public void write(char[] c, int off, int len) {
      for (int i = 0; i < len; i++) t.append(c[off + i]);
    }

    @Override
    public void flush() {}

    @Override
    public void close() {}
  }

  static FastPrintf[] shared;

  static FastPrintf[] formatters() {
    FastPrintf p = FastPrintf.compile(format);
    return new FastPrintf[] {p, p.enableThreadLocalCache(), p.setStringBuilderInitialCapacity(3).enableThreadLocalCache()};
  }

  static String replay(List<Object> h, int n) {
    for (FastPrintf p : n % 2 == 0 ? shared : formatters()) {
      Run r = new Run(p, h, n % 3 == 0);
      try {
        r.outer(0);
      } catch (RuntimeException e) {
        r.wrong(e.toString());
      }
      if (r.bad != null) return r.bad;
      if (!r.plan.isEmpty()) return "inner calls not reached";
    }
    return null;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    List<String> lines = new ArrayList<>();
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        if (line.startsWith("{\"h\"")) {
          lines.add(line);
          continue;
        }
        Map<String, Object> t = Json.obj(Json.parse(line));
        format = Json.text(t.get("f"));
        records = Json.list(t.get("a"));
        texts = new String[records.size()];
        values = new Object[records.size()][];
        for (int c = 0; c < texts.length; c++) {
          texts[c] = Json.text(Json.list(t.get("x")).get(c));
          List<Object> recs = Json.list(records.get(c));
          values[c] = new Object[recs.size()];
          for (int i = 0; i < values[c].length; i++) values[c][i] = Values.decode(Json.obj(recs.get(i)));
        }
      }
    }
    shared = formatters();
    try (BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      int n = 0, bad = 0;
      for (String line : lines) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String w = replay(Json.list(c.get("h")), n++);
        if (w != null && bad++ < 20) {
          Map<String, Object> r = new LinkedHashMap<>(c);
          r.put("what", w);
          out.write(Json.write(r));
          out.write('\n');
        }
      }
    }
  }
}
