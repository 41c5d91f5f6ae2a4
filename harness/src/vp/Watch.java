package vp;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.LinkedHashMap;
import java.util.Map;

/**
 * Guards a driver: when the library does not come back from one behaviour, or breaks out of the
 * driver with an error, the behaviour is written beside the driver's output and the process ends
 * with its own exit code.
 */
public final class Watch {
  private Watch() {}

  interface Body {
    void run() throws Exception;
  }

  private static volatile String line = "{}";
  private static volatile long since = System.nanoTime();

  /** The driver turns to another behaviour. */
  static void at(String l) {
    since = System.nanoTime();
    line = l;
  }

  static void guard(String dst, Body body) {
    long limit = Long.getLong("vp.stuck", 90) * 1000000000L;
    Thread t = new Thread(() -> {
      while (true) {
        try {
          Thread.sleep(500);
        } catch (InterruptedException e) {
          return;
        }
        if (System.nanoTime() - since > limit) report(dst, "no answer within " + limit / 1000000000L + " s");
      }
    });
    t.setDaemon(true);
    t.start();
    try {
      body.run();
    } catch (Throwable e) {
      report(dst, "the driver was left with " + e + where(e));
    }
    System.exit(0);
  }

  private static String where(Throwable e) {
    StackTraceElement[] s = e.getStackTrace();
    return s.length == 0 ? "" : " at " + s[0];
  }

  private static void report(String dst, String what) {
    try {
      Map<String, Object> c;
      try {
        c = new LinkedHashMap<>(Json.obj(Json.parse(line)));
      } catch (RuntimeException e) {
        c = new LinkedHashMap<>();
      }
      c.put("what", what);
      Files.write(Paths.get(dst + ".stuck"), Json.write(c).getBytes(StandardCharsets.UTF_8));
    } catch (IOException e) {
      e.printStackTrace();
      Runtime.getRuntime().halt(1);
    }
    Runtime.getRuntime().halt(3);
  }
}
