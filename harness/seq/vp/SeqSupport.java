package vp;

import io.fastprintf.seq.Seq;

/** Arguments that are ropes of the library. */
public final class SeqSupport {
  private SeqSupport() {}

  public static Object make(String kind, String s) {
    int h = s.length() / 2;
    switch (kind) {
      case "seq": return Seq.wrap(s);
      case "seqcat":
        return Seq.concat(Seq.wrap(s.substring(0, h)), Seq.forArray(s.substring(h).toCharArray()));
      default: throw new IllegalArgumentException(kind);
    }
  }
}
