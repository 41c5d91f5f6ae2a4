package vp;

import io.fastprintf.seq.Seq;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.LinkedHashMap;
import java.util.Map;
import java.util.Random;

/** Replays spec/RopeTall.tla: very deep ropes. */
public final class TallDrive {
  private TallDrive() {}

  static void replay(Map<String, Object> c) throws IOException {
    Map<String, Object> k = Json.obj(c.get("k"));
    Seq w = Seq.wrap(Json.text(k.get("w")));
    int n = RopeDrive.num(k, "n");
    Seq q;
    switch ((String) k.get("shape")) {
      case "pile": q = RopeDrive.pile(w, n, false); break;
      case "pilefront": q = RopeDrive.pile(w, n, true); break;
      case "comb": q = RopeDrive.comb(w, n); break;
      default:
        q = Seq.empty();
        for (int i = 0; i < n; i++) q = i % 2 == 0 ? q.append(w) : q.prepend(w);
    }
    for (Object e : Json.list(c.get("h"))) {
      Map<String, Object> o = Json.obj(e);
      q = o.get("op").equals("upper") ? q.upperCase() : q.subSequence(RopeDrive.num(o, "a"), RopeDrive.num(o, "b"));
    }
    Map<String, Object> v = Json.obj(c.get("v"));
    String p = Json.text(v.get("p"));
    int ph = RopeDrive.num(v, "ph"), len = RopeDrive.num(v, "n");
    StringBuilder sb = new StringBuilder(len);
    for (int i = 0; i < len; i++) sb.append(p.charAt((ph + i) % p.length()));
    String s = sb.toString();
    Random r = new Random(len);
    for (int obs = 0; obs < 12; obs++) {
      if (len > 2000 && (obs == 1 || obs == 9 || obs == 3)) continue; // quadratic observers
      if (len > 2000 && obs == 7) {
        for (int t = 0; t < 6; t++) {
          int a = r.nextInt(len);
          RopeDrive.cut(q, s, a, Math.min(len, a + r.nextInt(3000)));
          RopeDrive.that(q.charAt(a) == s.charAt(a), "charAt(" + a + ")");
        }
        RopeDrive.that(q.indexOf('#') == -1, "indexOf");
        continue;
      }
      RopeDrive.observe(obs, q, s, r);
    }
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String what = null;
        try {
          replay(c);
        } catch (RuntimeException | StackOverflowError e) {
          what = e.toString();
        }
        if (what != null) {
          Map<String, Object> d = new LinkedHashMap<>(c);
          d.put("what", what);
          out.write(Json.write(d));
          out.write('\n');
        }
      }
    }
  }
}
