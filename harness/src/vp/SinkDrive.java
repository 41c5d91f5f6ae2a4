package vp;

import io.fastprintf.FastPrintf;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.io.UncheckedIOException;
import java.io.Writer;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.List;
import java.util.Map;

/** Replays calls on targets that fail after a given number of units (spec/MC_Sink.tla). */
public final class SinkDrive {
  private SinkDrive() {}

  /** Takes units until it is full, then throws; stays full. */
  static final class Full implements Appendable {
    final StringBuilder got = new StringBuilder();
    final int room;
    final IOException error;
    IOException raised;

    Full(int room, IOException error) {
      this.room = room;
      this.error = error;
    }

    @Override
    public Appendable append(CharSequence c) throws IOException {
      return append(c, 0, c.length());
    }

    @Override
    public Appendable append(CharSequence c, int a, int b) throws IOException {
      for (int i = a; i < b; i++) append(c.charAt(i));
      return this;
    }

    @Override
    public Appendable append(char c) throws IOException {
      if (raised != null) throw new IOException("written to after an error");
      if (got.length() >= room) throw raised = error;
      got.append(c);
      return this;
    }
  }

  static final class FullWriter extends Writer {
    final Full f;

    FullWriter(int room, IOException error) {
      f = new Full(room, error);
    }

    @Override
    public void write(char[] c, int off, int len) throws IOException {
      for (int i = 0; i < len; i++) f.append(c[off + i]);
    }

    @Override
    public void flush() {}

    @Override
    public void close() {}
  }

  /** I/O errors of several shapes: with and without message, causes of every kind, subclasses. */
  static IOException error(int k) {
    switch (k % 17) {
      case 0: return new IOException("full");
      case 1: return new IOException("full", new IOException("disk"));
      case 2: return new java.io.EOFException();
      case 3: return new IOException(new UncheckedIOException(new IOException("inner")));
      case 4: return new java.nio.channels.ClosedByInterruptException();
      case 5: return new IOException("full", new IllegalStateException("state"));
      case 6: return new java.io.CharConversionException(null);
      case 7: return new java.io.InterruptedIOException("late");
      case 8: return new java.nio.charset.MalformedInputException(1);
      case 9: return new java.nio.charset.UnmappableCharacterException(2);
      case 10: return new java.io.FileNotFoundException("gone");
      case 11: return new java.nio.file.NoSuchFileException("gone", null, "removed");
      case 12: return new java.nio.channels.ClosedChannelException();
      case 13: return new java.net.SocketTimeoutException("slow");
      case 14: return new java.io.UTFDataFormatException();
      case 15: return new IOException("own kind") {};
      default: return new IOException(new io.fastprintf.PrintfException("cause"));
    }
  }

  static String faulty(FastPrintf p, List<Object> recs, Object[] vals, Appendable target, Full f, String st, String text) {
    String s = "done";
    try {
      if (p.format(target, Exec.args(recs, vals)) != target) s = "othertarget";
    } catch (UncheckedIOException e) {
      s = e.getCause() == f.raised ? "io" : "io with another cause";
    } catch (Throwable e) {
      s = Exec.kind(e);
    }
    if (!s.equals(st)) return "ended " + s;
    if (!f.got.toString().equals(text)) return "left \"" + f.got + "\"";
    return null;
  }

  static int n;

  static String replay(Map<String, Object> c) {
    FastPrintf p = FastPrintf.compile(Json.text(c.get("f")));
    List<Object> recs = Json.list(c.get("a"));
    Object[] vals = new Object[recs.size()];
    for (int i = 0; i < vals.length; i++) vals[i] = Values.decode(Json.obj(recs.get(i)));
    int k = ((Long) c.get("k")).intValue();
    String st = (String) Json.obj(c.get("x")).get("st"), text = Json.text(Json.obj(c.get("x")).get("s"));
    String st0 = (String) Json.obj(c.get("y")).get("st"), text0 = Json.text(Json.obj(c.get("y")).get("s"));
    FastPrintf[] ps = {p, p.enableThreadLocalCache()};
    for (FastPrintf f : ps) {
      Full full = new Full(k, error(n++));
      String bad = faulty(f, recs, vals, full, full, st, text);
      if (bad != null) return "target: " + bad;
      FullWriter w = new FullWriter(k, error(n++));
      bad = faulty(f, recs, vals, w, w.f, st, text);
      if (bad != null) return "writer: " + bad;
      // the failure leaves no trace in later calls
      for (String ch : new String[] {"string", "writer", "appendable", "buffer", "charbuffer", "printwriter", "printstream", "varargs", "list", "iterable", "copy"}) {
        bad = Exec.channel(f, recs, vals, ch, st0, text0);
        if (bad != null) return "afterwards: " + bad;
      }
      StringBuilder sb = new StringBuilder("old");
      String s = "done";
      try {
        if (f.format(sb, Exec.args(recs, vals)) != sb) s = "othertarget";
      } catch (Throwable e) {
        s = Exec.kind(e);
      }
      if (!s.equals(st0) || !sb.toString().equals("old" + text0)) return "builder: " + s + " \"" + sb + "\"";
    }
    return null;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        String w;
        try {
          w = replay(c);
        } catch (RuntimeException e) {
          w = e.toString();
        }
        if (w != null) {
          c.put("what", "room " + c.get("k") + ", format \"" + Json.text(c.get("f")) + "\": " + w + ", specified "
              + Json.obj(c.get("x")).get("st") + " \"" + Json.text(Json.obj(c.get("x")).get("s")) + "\"");
          out.write(Json.write(c));
          out.write('\n');
        }
      }
    }
  }
}
