package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.concurrent.BrokenBarrierException;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CyclicBarrier;

/**
 * Free-running threads share formatters and argument lists; every outcome must be the recorded one
 * (which TLC validated), and the arguments must come out unchanged.
 */
public final class Stress {
  private Stress() {}

  static final class Case {
    Map<String, Object> rec;
    FastPrintf[] ps;
    Args args;
    List<Object> recs;
    Object[] vals;
    String st;
    String text;
    int id;
  }

  static String once(Case c, int which, boolean string) {
    String st = "done", got = null;
    StringBuilder sb = new StringBuilder();
    try {
      if (string) got = c.ps[which].format(c.args);
      else c.ps[which].format(sb, c.args);
    } catch (Throwable e) {
      st = Exec.kind(e);
    }
    if (!string) got = sb.toString();
    if (!st.equals(c.st)) return "formatter " + which + " ended " + st;
    if (got != null && !got.equals(c.text)) return "formatter " + which + " printed \"" + got + "\"";
    return null;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws Exception {
    long seed = Long.parseLong(a[2]);
    int threads = Integer.parseInt(a[3]), rounds = Integer.parseInt(a[4]);
    List<Case> cases = new ArrayList<>();
    Map<String, List<Case>> byFormat = new LinkedHashMap<>();
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> r = Json.obj(Json.parse(line));
        Case c = new Case();
        String f = Json.text(r.get("f"));
        if (f.indexOf('p') >= 0) continue; // identity differs between processes
        Case first = byFormat.containsKey(f) ? byFormat.get(f).get(0) : null;
        if (first != null) {
          c.ps = first.ps;
        } else {
          FastPrintf p;
          try {
            p = FastPrintf.compile(f);
          } catch (PrintfException e) {
            continue;
          }
          FastPrintf k = p.enableThreadLocalCache();
          c.ps = new FastPrintf[] {p, k, k.setStringBuilderInitialCapacity(2)};
        }
        byFormat.computeIfAbsent(f, x -> new ArrayList<>()).add(c);
        c.rec = r;
        c.id = cases.size();
        c.recs = Json.list(r.get("a"));
        c.vals = new Object[c.recs.size()];
        for (int i = 0; i < c.vals.length; i++) c.vals[i] = Values.decode(Json.obj(c.recs.get(i)));
        c.args = Exec.args(c.recs, c.vals);
        c.st = (String) Json.obj(r.get("r")).get("st");
        c.text = Json.text(Json.obj(r.get("r")).get("s"));
        cases.add(c);
      }
    }
    ConcurrentLinkedQueue<String[]> bad = new ConcurrentLinkedQueue<>();
    Thread[] ts = new Thread[threads];
    List<List<Case>> groups = new ArrayList<>();
    for (List<Case> g : byFormat.values()) if (g.size() > 1) groups.add(g);
    CyclicBarrier meet = new CyclicBarrier(threads);
    for (int t = 0; t < threads; t++) {
      Random r = new Random(seed * 31 + t);
      ts[t] = new Thread(() -> {
        // all threads at once on one formatter, each with arguments of its own
        for (int k = 0; k < rounds; k++) {
          for (List<Case> g : groups) {
            Watch.at("{}");
            try {
              meet.await();
            } catch (InterruptedException | BrokenBarrierException e) {
              return;
            }
            for (int i = 0; i < 40; i++) {
              Case c = g.get(r.nextInt(g.size()));
              String w = once(c, k % 3, i % 2 == 0);
              if (w != null) bad.add(new String[] {w, String.valueOf(c.id)});
            }
          }
        }
        for (int k = 0; k < rounds && bad.size() < 20; k++) {
          int base = r.nextInt(cases.size());
          Watch.at("{}");
          // all threads meet on the same few cases
          for (int i = 0; i < cases.size(); i++) {
            Case c = cases.get((i + (k % 2 == 0 ? 0 : base)) % cases.size());
            String w = once(c, r.nextInt(3), r.nextBoolean());
            if (w != null) bad.add(new String[] {w, String.valueOf(c.id)});
          }
        }
      });
    }
    for (Thread t : ts) t.start();
    for (Thread t : ts) t.join();
    // one thread, a few formatters, very many calls: beyond the range of any small counter
    int steps = Math.min(rounds * 1200, 200000), few = 0;
    for (List<Case> g : groups) {
      if (few == 6 || !bad.isEmpty()) break;
      boolean small = true;
      for (Case c : g) small &= c.text.length() < 200;
      if (!small) continue;
      few++;
      for (int which = 0; which < 3; which++) {
        Watch.at("{}");
        for (int i = 0; i < steps; i++) {
          Case c = g.get(i % g.size());
          String w = once(c, which, true);
          if (w != null) {
            bad.add(new String[] {"after " + i + " calls: " + w, String.valueOf(c.id)});
            break;
          }
        }
      }
    }
    // arguments and lists are as they were
    for (Case c : cases) {
      List<Object> vs = c.args.values();
      for (int i = 0; i < c.vals.length; i++) {
        Object v = c.vals[i], again = Values.decode(Json.obj(c.recs.get(i)));
        boolean prim = Long.valueOf(1).equals(Json.obj(c.recs.get(i)).get("prim"));
        if (vs.size() != c.vals.length || (prim ? !v.equals(vs.get(i)) : vs.get(i) != v))
          bad.add(new String[] {"the argument list changed", String.valueOf(c.id)});
        else if (v != null && !same(v, again))
          bad.add(new String[] {"argument " + (i + 1) + " changed", String.valueOf(c.id)});
      }
    }
    try (BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      for (String[] b : bad) {
        Map<String, Object> d = new LinkedHashMap<>(cases.get(Integer.parseInt(b[1])).rec);
        d.put("what", b[0]);
        out.write(Json.write(d));
        out.write('\n');
      }
    }
    System.out.println(cases.size());
  }

  static boolean same(Object v, Object w) {
    if (v.getClass().isArray()) return java.util.Arrays.deepEquals(new Object[] {v}, new Object[] {w});
    if (v instanceof CharSequence) return v.toString().equals(w.toString());
    if (v instanceof java.util.Calendar)
      return ((java.util.Calendar) v).getTimeInMillis() == ((java.util.Calendar) w).getTimeInMillis()
          && ((java.util.Calendar) v).getTimeZone().equals(((java.util.Calendar) w).getTimeZone());
    if (v instanceof Values.Obj || v instanceof Number) return v.toString().equals(w.toString());
    return v.equals(w);
  }
}
