package vp;

import io.fastprintf.FastPrintf;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Replays histories of option requests (spec/Options.tla), running the specified calls. */
public final class OptionsDrive {
  private OptionsDrive() {}

  static final class Call {
    List<Object> recs;
    Object[] vals;
    String st;
    String text;
  }

  static void calls(FastPrintf p, List<Call> cs, String where) {
    for (Call c : cs) {
      String bad = Exec.channel(p, c.recs, c.vals, "string", c.st, c.text);
      if (bad == null) bad = Exec.channel(p, c.recs, c.vals, "appendable", c.st, c.text);
      if (bad != null) throw new IllegalStateException(where + ": " + bad + ", specified " + c.st + " \"" + c.text + "\"");
    }
  }

  static void replay(String f, List<Call> cs, List<Object> h) {
    List<FastPrintf> fs = new ArrayList<>();
    fs.add(FastPrintf.compile(f));
    int step = 0;
    for (Object e : h) {
      step++;
      Map<String, Object> o = Json.obj(e);
      int i = ((Long) o.get("i")).intValue() - 1, n = ((Long) o.get("n")).intValue();
      String want = (String) o.get("r");
      FastPrintf p = fs.get(i), got = null;
      String r;
      try {
        got = o.get("op").equals("cache") ? p.enableThreadLocalCache() : p.setStringBuilderInitialCapacity(n);
        r = got == null ? "null" : got == p ? "same" : "new";
      } catch (IllegalArgumentException x) {
        r = "refused";
      }
      // whether a first request answers a further object is not observable behaviour
      if (!r.equals(want) && !(want.equals("new") && r.equals("same")))
        throw new IllegalStateException("step " + step + " " + o + " answered " + r);
      if (want.equals("new")) fs.add(got);
      calls(fs.get(fs.size() - 1), cs, "step " + step);
    }
    for (int i = 0; i < fs.size(); i++) calls(fs.get(i), cs, "formatter " + (i + 1));
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    List<Map<String, Object>> hs = new ArrayList<>();
    Map<String, List<Call>> fmts = new LinkedHashMap<>();
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        if (c.containsKey("h")) {
          hs.add(c);
          continue;
        }
        Call k = new Call();
        k.recs = Json.list(c.get("a"));
        k.vals = new Object[k.recs.size()];
        for (int i = 0; i < k.vals.length; i++) k.vals[i] = Values.decode(Json.obj(k.recs.get(i)));
        k.st = (String) Json.obj(c.get("x")).get("st");
        k.text = Json.text(Json.obj(c.get("x")).get("s"));
        fmts.computeIfAbsent(Json.text(c.get("f")), z -> new ArrayList<>()).add(k);
      }
    }
    List<String> names = new ArrayList<>(fmts.keySet());
    try (BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      for (int i = 0; i < hs.size(); i++) {
        String f = names.get(i % names.size());
        Watch.at(Json.write(hs.get(i)));
        try {
          replay(f, fmts.get(f), Json.list(hs.get(i).get("h")));
        } catch (RuntimeException e) {
          Map<String, Object> d = new LinkedHashMap<>(hs.get(i));
          d.put("what", "\"" + f + "\": " + e.getMessage());
          out.write(Json.write(d));
          out.write('\n');
        }
      }
    }
  }
}
