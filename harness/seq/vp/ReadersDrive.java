package vp;

import io.fastprintf.FastPrintf;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.io.StringWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.Arrays;
import java.util.Map;

/** Replays schedules of readers of one supplied sequence (spec/Readers.tla). */
public final class ReadersDrive {
  private ReadersDrive() {}

  static final class Boom extends RuntimeException {
    Boom() {
      super("supplier");
    }
  }

  /** One reader: a thread that carries out observations and stops half way in the supplier. */
  static final class Reader extends Thread {
    Runnable job; // handed over, guarded by this
    volatile boolean busy; // has an observation that is not answered
    volatile boolean atGate; // waits in the supplier
    volatile String order; // go or fail
    volatile boolean gated; // the current observation has passed the gate
    volatile Object answer;

    Reader() {
      setDaemon(true);
      start();
    }

    @Override
    public void run() {
      for (; ; ) {
        Runnable j;
        synchronized (this) {
          while (job == null) idle();
          j = job;
          job = null;
        }
        j.run();
        synchronized (this) {
          busy = false;
          notifyAll();
        }
      }
    }

    synchronized void begin(Runnable j) {
      busy = true;
      gated = false;
      order = null;
      answer = null;
      job = j;
      notifyAll();
    }

    /** In the supplier: stop once per observation. */
    synchronized void gate() {
      if (gated) return;
      gated = true;
      atGate = true;
      notifyAll();
      while (order == null) idle();
      atGate = false;
      if (order.equals("fail")) throw new Boom();
    }

    void idle() {
      try {
        wait();
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
    }

    /** Until it is answered, waits in the supplier, or is held up by another reader. */
    void settle() throws InterruptedException {
      for (int i = 0; ; i++) {
        synchronized (this) {
          if (!busy || atGate && order == null) return;
          wait(i < 8 ? 1 : 5);
          if (!busy || atGate && order == null) return;
        }
        State s = getState();
        if (i > 3 && (s == State.BLOCKED || s == State.WAITING) && held()) return;
        if (i > 4000) throw new IllegalStateException("a reader does not come to an end");
      }
    }

    /** Held up outside the gate. */
    synchronized boolean held() {
      return busy && job == null && !(atGate && order == null);
    }
  }

  static final String TEXT = "abcdefgh";
  static final ThreadLocal<Reader> ME = new ThreadLocal<>();

  static void supply(StringBuilder sb) {
    sb.append(TEXT, 0, 4);
    Reader r = ME.get();
    if (r != null) r.gate();
    sb.append(TEXT, 4, 8);
  }

  static Seq make(String shape) {
    AtomicSeq s = Seq.lazy(ReadersDrive::supply, 8);
    switch (shape) {
      case "lazy": return s;
      case "concat": return Seq.concat(s, Seq.wrap("-xy"));
      case "prepend": return s.prepend(Seq.repeated('z', 3));
      case "join": return Seq.join(Arrays.asList(Seq.wrap("<"), s, Seq.wrap(">")));
      case "twice": return s.append(Seq.ch('|')).append(s);
      case "upper": return s.append(Seq.wrap("q")).upperCase();
      case "cut": return Seq.wrap("__").append(s).append(Seq.wrap("__")).subSequence(1, 11);
      default: {
        Seq q = s;
        for (int i = 0; i < 20; i++) q = i % 2 == 0 ? q.append(Seq.wrap("" + (char) ('a' + i))) : q.prepend(Seq.ch('.'));
        return q;
      }
    }
  }

  static String text(String shape) {
    switch (shape) {
      case "lazy": return TEXT;
      case "concat": return TEXT + "-xy";
      case "prepend": return "zzz" + TEXT;
      case "join": return "<" + TEXT + ">";
      case "twice": return TEXT + "|" + TEXT;
      case "upper": return (TEXT + "q").toUpperCase(java.util.Locale.ROOT);
      case "cut": return "_" + TEXT + "_";
      default: {
        String q = TEXT;
        for (int i = 0; i < 20; i++) q = i % 2 == 0 ? q + (char) ('a' + i) : "." + q;
        return q;
      }
    }
  }

  /** What an observation of a sequence with this text answers; with q null, what a string answers. */
  static Object observe(String ob, Seq q, String s) {
    switch (ob) {
      case "length": return q == null ? s.length() : q.length();
      case "string": return q == null ? s : q.toString();
      case "chars": {
        if (q == null) return s;
        StringBuilder sb = new StringBuilder();
        for (int i = 0; i < s.length(); i++) sb.append(q.charAt(i));
        return sb.toString();
      }
      case "indexof": return q == null ? s.indexOf('h') + " " + s.indexOf('H') : q.indexOf('h') + " " + q.indexOf('H');
      case "cut": return q == null ? s.substring(2, s.length() - 1) : q.subSequence(2, s.length() - 1).toString();
      case "upper": return q == null ? s.toUpperCase(java.util.Locale.ROOT) : q.upperCase().toString();
      case "stream": {
        if (q == null) return ":" + s;
        StringBuilder sb = new StringBuilder(":");
        q.appendTo(sb);
        return sb.toString();
      }
      case "write": {
        if (q == null) return s;
        StringWriter w = new StringWriter();
        try {
          q.appendTo((Appendable) w);
        } catch (IOException e) {
          throw new IllegalStateException(e);
        }
        return w.toString();
      }
      case "format": return q == null ? "[" + s + "]" : FastPrintf.compile("[%s]").enableThreadLocalCache().format(q);
      case "formatS":
        return q == null
            ? s.toUpperCase(java.util.Locale.ROOT) + " " + s.substring(0, 3) + "|"
            : FastPrintf.compile("%S%4.3s|").format(q, q);
      case "equal": return q == null ? true : s.contentEquals(q);
      default: throw new IllegalStateException(ob);
    }
  }

  static void replay(Map<String, Object> c, Reader[] rs) throws InterruptedException {
    String shape = (String) c.get("shape"), s = text(shape);
    Seq q = make(shape);
    String[] obs = new String[rs.length];
    boolean[] failed = new boolean[rs.length];
    try {
      for (Object e : Json.list(c.get("h"))) {
        Map<String, Object> o = Json.obj(e);
        int i = ((Long) o.get("r")).intValue() - 1;
        Reader r = rs[i];
        if (o.get("o").equals("begin")) {
          if (r.busy) go(r, i, obs, failed, "go", s, rs); // the model's reader was answered, this one not yet
          for (int k = 0; r.busy && k < rs.length; k++) if (rs[k].busy) go(rs[k], k, obs, failed, "go", s, rs);
          if (r.busy) throw new IllegalStateException("reader " + (i + 1) + " does not come to an end");
          String ob = (String) o.get("ob");
          obs[i] = ob;
          failed[i] = false;
          r.begin(() -> {
            ME.set(r);
            try {
              r.answer = observe(ob, q, s);
            } catch (Throwable t) {
              r.answer = t;
            } finally {
              ME.remove();
            }
          });
          r.settle();
          if (!r.busy) check(r, i, obs, failed, s);
        } else if (r.busy) {
          go(r, i, obs, failed, (String) o.get("o"), s, rs);
        }
      }
    } finally {
      for (int round = 0; round < 3; round++)
        for (Reader r : rs) {
          synchronized (r) {
            if (r.busy && r.order == null) r.order = "go";
            r.notifyAll();
          }
        }
    }
    for (int i = 0; i < rs.length; i++) {
      for (int k = 0; rs[i].busy; k++) {
        if (k > 4000) throw new IllegalStateException("reader " + (i + 1) + " does not come to an end");
        synchronized (rs[i]) {
          if (rs[i].busy) rs[i].wait(5);
        }
      }
      check(rs[i], i, obs, failed, s);
    }
    // and afterwards, for anyone
    for (String ob : new String[] {"stream", "string", "chars", "cut", "upper", "format", "formatS", "equal", "write", "stream"})
      same(ob, observe(ob, q, s), s, "afterwards, ");
  }

  static void go(Reader r, int i, String[] obs, boolean[] failed, String order, String s, Reader[] rs) throws InterruptedException {
    synchronized (r) {
      failed[i] = r.atGate && order.equals("fail");
      r.order = r.atGate ? order : "go";
      r.notifyAll();
    }
    r.settle();
    // whoever waited for this reader moves on
    for (Reader x : rs) if (x != r && x.busy) x.settle();
    if (!r.busy) check(r, i, obs, failed, s);
  }

  static void check(Reader r, int i, String[] obs, boolean[] failed, String s) {
    if (obs[i] == null) return;
    String ob = obs[i];
    obs[i] = null;
    if (failed[i]) {
      if (!(r.answer instanceof Boom)) throw new IllegalStateException("reader " + (i + 1) + " " + ob + ": its supplier failed, but it got " + r.answer);
    } else same(ob, r.answer, s, "reader " + (i + 1) + ", ");
  }

  static void same(String ob, Object got, String s, String where) {
    Object want = observe(ob, null, s);
    if (!want.equals(got)) throw new IllegalStateException(where + ob + " of \"" + s + "\": " + got + ", specified " + want);
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    int n = 0;
    Reader[][] pools = new Reader[5][];
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        n++;
        int k = ((Long) c.get("n")).intValue();
        if (pools[k] == null) {
          pools[k] = new Reader[k];
          for (int i = 0; i < k; i++) pools[k][i] = new Reader();
        }
        try {
          replay(c, pools[k]);
        } catch (IllegalStateException | InterruptedException e) {
          pools[k] = null;
          c.put("what", c.get("shape") + ": " + e.getMessage());
          out.write(Json.write(c));
          out.write('\n');
        }
      }
    }
    System.out.println(n);
  }
}
