package vp;

import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.io.StringWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Future;

/** Replays histories of rope operations (spec/Rope.tla) and compares every observer. */
public final class RopeDrive {
  private RopeDrive() {}

  static final class Bad extends RuntimeException {
    Bad(String m) {
      super(m);
    }
  }

  static void that(boolean ok, String what) {
    if (!ok) throw new Bad(what);
  }

  static Seq pile(Seq s, int n, boolean front) {
    Seq r = Seq.empty();
    for (int i = 0; i < n; i++) r = front ? r.prepend(s) : r.append(s);
    return r;
  }

  static Seq comb(Seq s, int n) {
    return n == 1 ? s : Seq.concat(comb(s, n / 2), comb(s, n - n / 2));
  }

  static Seq apply(Map<String, Object> o, List<Seq> sl) {
    int i = num(o, "i") - 1, j = num(o, "j") - 1, a = num(o, "a"), b = num(o, "b");
    String s = Json.text(o.get("s"));
    switch ((String) o.get("op")) {
      case "wrap": return Seq.wrap(s);
      case "array": return Seq.forArray(s.toCharArray());
      case "lazy": return Seq.lazy(sb -> sb.append(s), s.length());
      case "wrapFrom": return Seq.wrap(s, a);
      case "wrapCut": return Seq.wrap(s, a, b);
      case "arrayCut": return Seq.forArray(s.toCharArray(), a, b - a);
      case "rep": return Seq.repeated((char) b, a);
      case "ch": return Seq.ch((char) b);
      case "empty": return Seq.empty();
      case "concat": return Seq.concat(sl.get(i), sl.get(j));
      case "append": return sl.get(i).append(sl.get(j));
      case "prepend": return sl.get(i).prepend(sl.get(j));
      case "join":
        return Seq.join(
            Arrays.asList((AtomicSeq) sl.get(i), (AtomicSeq) sl.get(j), (AtomicSeq) sl.get(i)));
      case "sub": return sl.get(i).subSequence(a, b);
      case "upper": return sl.get(i).upperCase();
      case "dup": return sl.get(i).dup();
      case "pile": return pile(sl.get(i), a, false);
      case "pilefront": return pile(sl.get(i), a, true);
      case "comb": return comb(sl.get(i), a);
      default: throw new IllegalStateException(String.valueOf(o.get("op")));
    }
  }

  static int num(Map<String, Object> o, String k) {
    return ((Long) o.get(k)).intValue();
  }

  static boolean refusal(RuntimeException e) {
    return e instanceof IndexOutOfBoundsException || e instanceof IllegalArgumentException;
  }

  static void refusedCut(Seq q, int a, int b) {
    try {
      q.subSequence(a, b);
    } catch (RuntimeException e) {
      that(refusal(e), "subSequence(" + a + ", " + b + ") threw " + e);
      return;
    }
    throw new Bad("subSequence(" + a + ", " + b + ") of length " + q.length() + " was not refused");
  }

  static void refusedChar(Seq q, int i) {
    try {
      q.charAt(i);
    } catch (RuntimeException e) {
      that(refusal(e), "charAt(" + i + ") threw " + e);
      return;
    }
    throw new Bad("charAt(" + i + ") of length " + q.length() + " was not refused");
  }

  /** One observer of the sequence q, whose string is s. */
  static void observe(int k, Seq q, String s, Random r) throws IOException {
    int n = s.length();
    switch (k) {
      case 0:
        that(q.length() == n, "length " + q.length());
        that(q.isEmpty() == (n == 0), "isEmpty");
        break;
      case 1:
        for (int i = 0; i < n; i++) that(q.charAt(i) == s.charAt(i), "charAt(" + i + ")");
        break;
      case 2:
        that(q.toString().equals(s), "toString " + q);
        break;
      case 3:
        for (int i = 0; i < n; i++) that(q.indexOf(s.charAt(i)) == s.indexOf(s.charAt(i)), "indexOf at " + i);
        for (char c : new char[] {'a', 'z', 'C', '0', 'é', '☃', '\0', '\ud800'})
          that(q.indexOf(c) == s.indexOf(c), "indexOf " + (int) c);
        break;
      case 4:
        for (char c : new char[] {'a', 'b', 'x', 'B', 'é', '\0'})
          that(q.startsWith(c) == (n > 0 && s.charAt(0) == c), "startsWith " + (int) c);
        if (n > 0) that(q.startsWith(s.charAt(0)), "startsWith its first");
        break;
      case 5:
        StringBuilder sb = new StringBuilder("ab");
        q.appendTo(sb);
        that(sb.toString().equals("ab" + s), "appendTo(StringBuilder) " + sb);
        break;
      case 6:
        Exec.Sink sink = new Exec.Sink();
        sink.append('>');
        q.appendTo((Appendable) sink);
        that(sink.got.toString().equals(">" + s), "appendTo(Appendable) " + sink.got);
        StringWriter w = new StringWriter();
        q.appendTo((Appendable) w);
        that(w.toString().equals(s), "appendTo(Writer) " + w);
        break;
      case 7:
        if (n <= 20) {
          for (int a = 0; a <= n; a++)
            for (int b = a; b <= n; b++) cut(q, s, a, b);
        } else {
          for (int t = 0; t < 60; t++) {
            int a = r.nextInt(n + 1);
            cut(q, s, a, a + r.nextInt(n - a + 1));
          }
        }
        break;
      case 8:
        refusedCut(q, -1, n);
        refusedCut(q, 0, n + 1);
        refusedCut(q, n + 1, n + 1);
        refusedCut(q, -1, -1);
        if (n > 0) refusedCut(q, n, n - 1);
        if (n > 1) refusedCut(q, 2, 1);
        refusedChar(q, -1);
        refusedChar(q, n);
        refusedChar(q, Integer.MAX_VALUE);
        refusedChar(q, Integer.MIN_VALUE);
        break;
      case 9:
        that(new StringBuilder(q).toString().equals(s), "CharSequence view");
        that(s.contentEquals(q), "contentEquals");
        that(q.chars().toArray().length == n, "chars()");
        equality(q, s, r);
        break;
      case 10:
        Seq u = q.upperCase();
        StringBuilder up = new StringBuilder();
        for (int i = 0; i < n; i++) {
          char c = s.charAt(i);
          up.append(c >= 'a' && c <= 'z' ? (char) (c - 32) : c);
        }
        that(u.toString().equals(up.toString()), "upperCase " + u);
        that(u.length() == n, "upperCase length");
        break;
      case 11:
        that(q.map(z -> z.append(Seq.ch('!'))).toString().equals(s + "!"), "map/append");
        that(q.prepend(Seq.wrap("<<")).toString().equals("<<" + s), "prepend");
        that(q.append(q).toString().equals(s + s), "append to itself");
        that(q.dup().toString().equals(s), "dup");
        break;
      default:
    }
  }

  /** Only sequences of the same characters are equal, and then their hash codes agree. */
  static void equality(Seq q, String s, Random r) {
    that(q.equals(q) && !q.equals(null) && q.hashCode() == q.hashCode(), "not equal to itself");
    int n = s.length(), k = n == 0 ? 0 : r.nextInt(n);
    Seq same = Seq.forArray(("<" + s + ">").toCharArray(), 1, n);
    that(q.equals(same) == same.equals(q), "equals is not symmetric");
    that(!q.equals(same) || q.hashCode() == same.hashCode(), "equal with another hash code");
    StringBuilder sb = new StringBuilder(s);
    if (n > 0) {
      for (int i : new int[] {0, n - 1, k}) {
        char c = s.charAt(i);
        sb.setCharAt(i, (char) (c ^ 32));
        Seq other = Seq.forArray(sb.toString().toCharArray());
        that(!q.equals(other) && !other.equals(q), "equal to " + other);
        sb.setCharAt(i, c);
      }
      Seq less = Seq.forArray(s.toCharArray(), 0, n - 1);
      that(!q.equals(less) && !less.equals(q), "equal to " + less);
    }
  }

  static void cut(Seq q, String s, int a, int b) {
    Seq c = q.subSequence(a, b);
    that(c.length() == b - a, "subSequence(" + a + ", " + b + ").length " + c.length());
    that(c.toString().equals(s.substring(a, b)), "subSequence(" + a + ", " + b + ") " + c);
    StringBuilder sb = new StringBuilder();
    c.appendTo(sb);
    that(sb.toString().equals(s.substring(a, b)), "subSequence(" + a + ", " + b + ") appended " + sb);
  }

  static void observeAll(Seq q, String s, Random r) throws IOException {
    int from = r.nextInt(12), step = r.nextBoolean() ? 5 : 7; // both generate Z/12
    for (int k = 0; k < 12; k++) {
      int which = (from + k * step) % 12;
      try {
        observe(which, q, s, r);
      } catch (Bad e) {
        throw e;
      } catch (RuntimeException e) {
        throw new Bad("observer " + which + " threw " + e);
      } catch (StackOverflowError e) {
        throw new Bad("observer " + which + " threw " + e);
      }
    }
  }

  static void replay(List<Object> h, long seed) throws IOException {
    Random r = new Random(seed);
    boolean eager = r.nextBoolean();
    List<Seq> sl = new ArrayList<>();
    List<String> want = new ArrayList<>();
    int step = 0;
    for (Object e : h) {
      step++;
      Map<String, Object> ev = Json.obj(e);
      Map<String, Object> o = Json.obj(ev.get("o"));
      boolean ok = (Boolean) ev.get("ok");
      Seq q = null;
      try {
        q = apply(o, sl);
      } catch (IndexOutOfBoundsException | IllegalArgumentException x) {
        that(!ok, "step " + step + " " + o.get("op") + " was refused: " + x);
        continue;
      } catch (RuntimeException x) {
        throw new Bad("step " + step + " " + o.get("op") + " threw " + x);
      }
      that(ok, "step " + step + " " + o.get("op") + " was not refused");
      sl.add(q);
      want.add(Json.text(ev.get("s")));
      if (eager) check(step, sl, want, sl.size() - 1, r);
    }
    if (!eager && sl.size() > 4) together(step, sl, want, seed);
    for (int t = 0; t < sl.size(); t++) check(step, sl, want, sl.size() - 1 - t, r);
    if (eager) for (int t = 0; t < sl.size(); t++) check(step, sl, want, t, r);
  }

  static final int CROWD = 3;
  static final ExecutorService POOL = Executors.newFixedThreadPool(CROWD, t -> {
    Thread d = new Thread(t);
    d.setDaemon(true);
    return d;
  });

  /** Several threads look at the same sequences for the first time, all at once. */
  static void together(int step, List<Seq> sl, List<String> want, long seed) throws IOException {
    List<Future<Object>> all = new ArrayList<>();
    CyclicBarrier start = new CyclicBarrier(CROWD);
    for (int k = 0; k < CROWD; k++) {
      Random r = new Random(seed + k);
      all.add(POOL.submit(() -> {
        start.await();
        for (int t = 0; t < sl.size(); t++) check(step, sl, want, sl.size() - 1 - t, r);
        return null;
      }));
    }
    Bad bad = null;
    for (Future<Object> f : all) {
      try {
        f.get();
      } catch (ExecutionException e) {
        if (e.getCause() instanceof Error) throw (Error) e.getCause();
        bad = e.getCause() instanceof Bad ? (Bad) e.getCause() : new Bad(e.getCause().toString());
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
    }
    if (bad != null) throw new Bad("several threads at once: " + bad.getMessage());
  }

  static void check(int step, List<Seq> sl, List<String> want, int i, Random r) throws IOException {
    try {
      observeAll(sl.get(i), want.get(i), r);
    } catch (Bad b) {
      throw new Bad("after step " + step + ", sequence " + (i + 1) + " = \"" + want.get(i) + "\": " + b.getMessage());
    }
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    long seed = Long.parseLong(a[2]);
    int n = 0;
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        n++;
        try {
          replay(Json.list(c.get("h")), seed * 1000003L + n);
        } catch (Bad b) {
          Map<String, Object> d = new LinkedHashMap<>();
          d.put("what", b.getMessage());
          d.put("h", c.get("h"));
          out.write(Json.write(d));
          out.write('\n');
        }
      }
    }
    System.out.println(n);
  }
}
