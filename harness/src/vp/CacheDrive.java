package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.BlockingQueue;
import java.util.concurrent.TimeUnit;

/**
 * Replays interleavings of concurrent, nested and failing calls (spec/Cache.tla). Arguments are
 * gates: rendering one waits for the scheduler, which grants one action at a time.
 */
public final class CacheDrive {
  private CacheDrive() {}

  static final String LONG;

  static {
    char[] z = new char[70000];
    Arrays.fill(z, 'z');
    LONG = new String(z);
  }

  static final class Abort extends RuntimeException {
    int left;

    Abort(int left) {
      super("thrown by an argument", null, false, false);
      this.left = left;
    }
  }

  static final class Wrong extends RuntimeException {
    Wrong(String m) {
      super(m, null, false, false);
    }
  }

  static final class Quit extends Error {
    Quit() {
      super("quit", null, false, false);
    }
  }

  static String tokens(Object l) {
    StringBuilder sb = new StringBuilder();
    for (Object o : Json.list(l)) {
      int k = ((Long) o).intValue();
      if (k == 5) sb.append(LONG);
      else if (k >= 100) sb.append('x').append(k);
      else sb.append(" <,>!.()".charAt(k));
    }
    return sb.toString();
  }

  static String brief(String s) {
    return s == null ? null : s.replace(LONG, "<long>");
  }

  /** One thread of the model. */
  static final class Worker extends Thread {
    final BlockingQueue<Map<String, Object>> in = new ArrayBlockingQueue<>(1);
    final BlockingQueue<String> out = new ArrayBlockingQueue<>(1);
    FastPrintf[] fs;
    String wrong;

    @Override
    public void run() {
      try {
        while (true) {
          Map<String, Object> c = in.take();
          if (c.containsKey("quit")) return;
          try {
            call(c);
          } catch (Abort a) {
            if (a.left != 0) wrong = "exception not delivered";
          } catch (Wrong w) {
            wrong = w.getMessage();
          } catch (Quit q) {
            return;
          } catch (Throwable t) {
            wrong = "unexpected " + t;
          }
          out.put("idle");
        }
      } catch (InterruptedException e) {
        // stop
      }
    }

    Map<String, Object> next() {
      try {
        out.put("ready");
        Map<String, Object> c = in.take();
        if (c.containsKey("quit")) throw new Quit();
        return c;
      } catch (InterruptedException e) {
        throw new Quit();
      }
    }

    Map<String, Object> lastThrow;
    int kind;

    Object gate(int k) {
      Gate g = new Gate(this);
      return k % 2 == 0 ? g : new Chars(g);
    }

    /** A call: the text it produced; Abort when it failed. */
    String call(Map<String, Object> c) {
      FastPrintf f = fs[((Long) c.get("f")).intValue()];
      boolean string = c.get("mode").equals("string");
      StringBuilder target = new StringBuilder();
      String res;
      try {
        Args args = Args.of(gate(kind), gate(kind / 2));
        if (string) res = f.format(args);
        else {
          if (f.format(target, args) != target) throw new Wrong("another target");
          res = target.toString();
        }
      } catch (Throwable t) {
        Abort a = null;
        for (Throwable x = t; x != null; x = x.getCause()) {
          if (x instanceof Abort) a = (Abort) x;
          if (x instanceof Wrong) throw (Wrong) x;
          if (x instanceof Quit) throw (Quit) x;
        }
        if (a == null) throw new Wrong("call failed with " + t);
        // this call is the (k - left + 1)-th to fail
        int k = ((Long) lastThrow.get("k")).intValue(), i = k - a.left;
        if (!string) {
          String want = tokens(Json.list(lastThrow.get("want")).get(i));
          if (!target.toString().equals(want))
            throw new Wrong("failed call left \"" + brief(target.toString()) + "\", specified \"" + brief(want) + "\"");
        }
        a.left--;
        throw a;
      }
      Map<String, Object> e = next();
      if (!e.get("a").equals("end")) throw new Wrong("the call returned, specified " + e.get("a"));
      String want = tokens(e.get("want"));
      if (!want.equals(res)) throw new Wrong("call returned \"" + brief(res) + "\", specified \"" + brief(want) + "\"");
      return res;
    }

    String render() {
      Map<String, Object> c = next();
      switch ((String) c.get("a")) {
        case "text": return "x" + (99 + ((Long) c.get("step")));
        case "long": return LONG;
        case "throw":
          lastThrow = c;
          throw new Abort(((Long) c.get("k")).intValue());
        case "begin":
          try {
            return "(" + call(c) + ")";
          } catch (Abort a) {
            if (a.left == 0) return "!";
            throw a;
          }
        default: throw new Wrong("an argument is rendered, specified " + c.get("a"));
      }
    }
  }

  static final class Gate {
    final Worker w;
    String text;

    Gate(Worker w) {
      this.w = w;
    }

    @Override
    public String toString() {
      if (text == null) {
        if (Thread.currentThread() != w) throw new Wrong("rendered on another thread");
        text = w.render();
      }
      return text;
    }
  }

  /** The same as a character sequence, which is asked for its length first. */
  static final class Chars implements CharSequence {
    final Gate g;

    Chars(Gate g) {
      this.g = g;
    }

    @Override
    public int length() {
      return g.toString().length();
    }

    @Override
    public char charAt(int i) {
      return g.toString().charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return g.toString().subSequence(a, b);
    }

    @Override
    public String toString() {
      return g.toString();
    }
  }

  static final String[] FORMATS = {"<%s,%s>", "<%1s,%-1s>", "<%.65536s,%s>", "<%-s,%-0s>"};

  static Worker[] ws = new Worker[8];

  static String replay(List<Object> h, int salt) throws InterruptedException {
    boolean big = false;
    for (Object o : h) big |= Json.obj(o).get("a").equals("long");
    String fmt = FORMATS[big && salt / 4 % 4 == 2 ? 1 : salt / 4 % 4];
    FastPrintf base = FastPrintf.compile(fmt);
    FastPrintf[] fs = {
      null,
      base.enableThreadLocalCache(),
      (salt % 3 == 0 ? base.setStringBuilderInitialCapacity(70000) : FastPrintf.compile(fmt).setStringBuilderInitialCapacity(1)).enableThreadLocalCache(),
      base
    };
    for (int t = 1; t < ws.length; t++) {
      if (ws[t] == null || !ws[t].isAlive()) {
        ws[t] = new Worker();
        ws[t].setDaemon(true);
        ws[t].start();
      }
      ws[t].fs = fs;
      ws[t].wrong = null;
      ws[t].kind = salt;
    }
    int step = 0;
    String wrong = null;
    boolean[] idle = {true, true, true, true, true, true, true, true};
    for (Object o : h) {
      step++;
      Map<String, Object> c = Json.obj(o);
      c.put("step", (long) step);
      int t = ((Long) c.get("t")).intValue();
      ws[t].in.put(c);
      String r = ws[t].out.poll(30, TimeUnit.SECONDS);
      if (r == null) wrong = "thread " + t + " is stuck";
      else if (ws[t].wrong != null) wrong = "thread " + t + ": " + ws[t].wrong;
      if (wrong != null) break;
      idle[t] = r.equals("idle");
    }
    if (wrong == null)
      for (int t = 1; t < ws.length; t++) if (!idle[t]) wrong = "thread " + t + " did not finish";
    if (wrong != null) {
      Map<String, Object> quit = new LinkedHashMap<>();
      quit.put("quit", 1L);
      for (int t = 1; t < ws.length; t++) {
        ws[t].interrupt();
        ws[t].join(100);
        ws[t] = null;
      }
      return "step " + step + ": " + wrong;
    }
    return null;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws Exception {
    int n = Integer.parseInt(a[2]);
    int bad = 0;
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null && bad < 50) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String w = replay(Json.list(c.get("h")), n++);
        if (w != null) {
          bad++;
          c.put("what", w);
          out.write(Json.write(c));
          out.write('\n');
        }
      }
    }
  }
}
