package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Replays histories of calls that are easy to take for one another (spec/Alike.tla). */
public final class AlikeDrive {
  private AlikeDrive() {}

  static String[] formats;
  static List<Object> values;
  static List<Object> table;
  static Object[] kept;
  static Args[] lists;
  static FastPrintf[][] shared;

  static FastPrintf[] formatters(String f) {
    FastPrintf p = FastPrintf.compile(f);
    return new FastPrintf[] {p, p.enableThreadLocalCache()};
  }

  static Args list(Object rec, Object v) {
    return Exec.args(Arrays.asList(rec, rec), new Object[] {v, v});
  }

  static String once(FastPrintf p, Args a, String st, String text, boolean string) {
    String s = "done", got = null;
    StringBuilder sb = new StringBuilder();
    try {
      if (string) got = p.format(a);
      else p.format(sb, a);
    } catch (Throwable e) {
      s = Exec.kind(e);
    }
    if (!string) got = sb.toString();
    if (!s.equals(st)) return s;
    return got != null && !got.equals(text) ? "\"" + got + "\"" : null;
  }

  static String replay(List<Object> h, int n) {
    // every second history on formatters that are used for nothing else
    FastPrintf[][] own = n % 2 == 0 ? shared : new FastPrintf[formats.length][];
    int step = 0;
    for (Object o : h) {
      int f = ((Long) Json.list(o).get(0)).intValue() - 1, v = ((Long) Json.list(o).get(1)).intValue() - 1;
      step++;
      Map<String, Object> x = Json.obj(Json.list(table.get(f)).get(v));
      String st = (String) x.get("st"), text = Json.text(x.get("s"));
      if (own[f] == null) own[f] = formatters(formats[f]);
      Object rec = values.get(v);
      // the object of other histories, or another one like it
      Args a = (n + step) % 3 == 0 ? list(rec, Values.decode(Json.obj(rec))) : lists[v];
      for (FastPrintf p : own[f]) {
        for (int k = 0; k < 2; k++) {
          String bad = once(p, a, st, text, k == 0);
          if (bad != null)
            return "step " + step + ", format \"" + formats[f] + "\", argument " + rec + ": " + bad + ", specified " + st + " \"" + text + "\"";
        }
      }
    }
    return null;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    List<String> lines = new ArrayList<>();
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        if (!line.startsWith("{\"h\"")) {
          Map<String, Object> t = Json.obj(Json.parse(line));
          List<Object> fs = Json.list(t.get("f"));
          formats = new String[fs.size()];
          for (int i = 0; i < formats.length; i++) formats[i] = Json.text(fs.get(i));
          values = Json.list(t.get("v"));
          table = Json.list(t.get("x"));
        } else {
          lines.add(line);
        }
      }
    }
    shared = new FastPrintf[formats.length][];
    kept = new Object[values.size()];
    lists = new Args[values.size()];
    for (int i = 0; i < kept.length; i++) {
      kept[i] = Values.decode(Json.obj(values.get(i)));
      lists[i] = list(values.get(i), kept[i]);
    }
    try (BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      int n = 0, bad = 0;
      for (String line : lines) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String w;
        try {
          w = replay(Json.list(c.get("h")), n++);
        } catch (RuntimeException e) {
          w = e.toString();
        }
        if (w != null && bad++ < 20) {
          Map<String, Object> r = new LinkedHashMap<>(c);
          r.put("what", w);
          out.write(Json.write(r));
          out.write('\n');
        }
      }
    }
  }
}
