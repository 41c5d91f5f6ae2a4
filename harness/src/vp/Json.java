package vp;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Minimal JSON: objects as maps, arrays as lists, integers as Long, strings, booleans, null. */
public final class Json {
  private final String s;
  private int i;

  private Json(String s) {
    this.s = s;
  }

  public static Object parse(String s) {
    Json j = new Json(s);
    Object v = j.value();
    return v;
  }

  @SuppressWarnings("unchecked")
  public static Map<String, Object> obj(Object o) {
    return (Map<String, Object>) o;
  }

  @SuppressWarnings("unchecked")
  public static List<Object> list(Object o) {
    return (List<Object>) o;
  }

  private void ws() {
    while (i < s.length() && s.charAt(i) <= ' ') i++;
  }

  private Object value() {
    ws();
    char c = s.charAt(i);
    if (c == '{') {
      i++;
      Map<String, Object> m = new LinkedHashMap<>();
      ws();
      if (s.charAt(i) == '}') {
        i++;
        return m;
      }
      while (true) {
        ws();
        String k = str();
        ws();
        i++; // ':'
        m.put(k, value());
        ws();
        if (s.charAt(i++) == '}') return m;
      }
    }
    if (c == '[') {
      i++;
      List<Object> l = new ArrayList<>();
      ws();
      if (s.charAt(i) == ']') {
        i++;
        return l;
      }
      while (true) {
        l.add(value());
        ws();
        if (s.charAt(i++) == ']') return l;
      }
    }
    if (c == '"') return str();
    if (s.startsWith("true", i)) {
      i += 4;
      return Boolean.TRUE;
    }
    if (s.startsWith("false", i)) {
      i += 5;
      return Boolean.FALSE;
    }
    if (s.startsWith("null", i)) {
      i += 4;
      return null;
    }
    int b = i;
    while (i < s.length() && "+-0123456789".indexOf(s.charAt(i)) >= 0) i++;
    return Long.valueOf(s.substring(b, i));
  }

  private String str() {
    StringBuilder sb = new StringBuilder();
    i++;
    while (true) {
      char c = s.charAt(i++);
      if (c == '"') return sb.toString();
      if (c == '\\') {
        char d = s.charAt(i++);
        switch (d) {
          case 'n': sb.append('\n'); break;
          case 't': sb.append('\t'); break;
          case 'u':
            sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16));
            i += 4;
            break;
          default: sb.append(d);
        }
      } else sb.append(c);
    }
  }

  public static String write(Object o) {
    StringBuilder sb = new StringBuilder();
    write(sb, o);
    return sb.toString();
  }

  private static void write(StringBuilder sb, Object o) {
    if (o instanceof Map) {
      sb.append('{');
      boolean first = true;
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        if (!first) sb.append(',');
        first = false;
        write(sb, e.getKey());
        sb.append(':');
        write(sb, e.getValue());
      }
      sb.append('}');
    } else if (o instanceof List) {
      sb.append('[');
      boolean first = true;
      for (Object e : (List<?>) o) {
        if (!first) sb.append(',');
        first = false;
        write(sb, e);
      }
      sb.append(']');
    } else if (o instanceof CharSequence) {
      sb.append('"');
      String t = o.toString();
      for (int k = 0; k < t.length(); k++) {
        char c = t.charAt(k);
        if (c == '"' || c == '\\') sb.append('\\').append(c);
        else if (c < 32 || c > 126) {
          String h = Integer.toHexString(c);
          sb.append("\\u").append("0000", 0, 4 - h.length()).append(h);
        } else sb.append(c);
      }
      sb.append('"');
    } else sb.append(o);
  }

  /** Text as a list of UTF-16 code units. */
  public static List<Object> units(CharSequence t) {
    List<Object> l = new ArrayList<>(t.length());
    for (int k = 0; k < t.length(); k++) l.add((long) t.charAt(k));
    return l;
  }

  public static String text(Object l) {
    StringBuilder sb = new StringBuilder();
    for (Object o : list(l)) sb.append((char) ((Long) o).intValue());
    return sb.toString();
  }
}
