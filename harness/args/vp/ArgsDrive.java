package vp;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.traits.FormatTraits;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.temporal.TemporalAccessor;
import java.util.AbstractCollection;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.Collections;
import java.util.Date;
import java.util.HashMap;
import java.util.HashSet;
import java.util.Iterator;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.Vector;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CopyOnWriteArrayList;

/** Replays histories over argument lists (spec/ArgList.tla). */
@SuppressWarnings("deprecation")
public final class ArgsDrive {
  private ArgsDrive() {}

  static final boolean[] Z = {true, false};
  static final int[] N = {0, 1, -1, 65, 127, -128, 300};
  static final long[] L = {0, 1, -1, 65, Long.MAX_VALUE, Long.MIN_VALUE, 4294967296L, 127};
  static final double[] D = {0.0, -0.0, 1.5, Double.NaN, Double.NEGATIVE_INFINITY, 1e300, Double.MIN_VALUE};

  /** A fresh object of the given type. */
  static Object make(String ty, int k) {
    switch (ty) {
      case "null": return null;
      case "bool": return new Boolean(Z[k % 2]);
      case "char": return new Character((char) N[k % 6 == 4 ? 3 : k % 5 == 2 ? 6 : 3]);
      case "byte": return new Byte((byte) N[k % 6]);
      case "short": return new Short((short) (N[k % 7] * 100));
      case "int": return new Integer(N[k % 7] * 7000000);
      case "long": return new Long(L[k % 8]);
      case "float": return new Float((float) D[k % 7]);
      case "double": return new Double(D[k % 7]);
      case "string": return new String(k % 5 == 0 ? "" : k % 5 == 1 ? "null" : "s" + k);
      case "builder": return k % 3 == 0 ? new StringBuffer("f" + k) : k % 3 == 1 ? new Values.Chars("c" + k) : new StringBuilder("b" + k);
      case "bigint": return new BigInteger(k % 3 == 0 ? "0" : "-12345678901234567890" + k);
      case "bigdec": return new BigDecimal(k % 3 == 0 ? "0.0" : "1.5E-" + (k + 1));
      case "datetime": return k % 3 == 0 ? Instant.ofEpochSecond(k) : k % 3 == 1 ? LocalDate.of(2020, 1, 1 + k % 28) : LocalDateTime.of(2020, 1, 1, 1, k % 60);
      case "object": return k % 3 == 0 ? new Object() : k % 3 == 1 ? Collections.singletonList(k) : new StringBuilder("o" + k).reverse().toString().getClass();
      case "array": return k % 3 == 0 ? new int[] {k} : k % 3 == 1 ? new byte[] {1, 2} : new Object[] {null, "x"};
      case "date": return new Date(k * 1000L);
      default: throw new IllegalStateException(ty);
    }
  }

  static Args put(Args a, String m, String as, Object v) {
    switch (m) {
      case "null": return a.putNull();
      case "generic": return a.put(v);
      case "prim":
        switch (as) {
          case "bool": return a.putBoolean((Boolean) v);
          case "char": return a.putChar((Character) v);
          case "byte": return a.putByte((Byte) v);
          case "short": return a.putShort((Short) v);
          case "int": return a.putInt((Integer) v);
          case "long": return a.putLong((Long) v);
          case "float": return a.putFloat((Float) v);
          default: return a.putDouble((Double) v);
        }
      case "boxed":
        switch (as) {
          case "bool": return a.putBooleanOrNull((Boolean) v);
          case "char": return a.putCharOrNull((Character) v);
          case "byte": return a.putByteOrNull((Byte) v);
          case "short": return a.putShortOrNull((Short) v);
          case "int": return a.putIntOrNull((Integer) v);
          case "long": return a.putLongOrNull((Long) v);
          case "float": return a.putFloatOrNull((Float) v);
          default: return a.putDoubleOrNull((Double) v);
        }
      default:
        switch (as) {
          case "string": return a.putString((String) v);
          case "builder": return a.putCharSequence((CharSequence) v);
          case "bigint": return a.putBigInteger((BigInteger) v);
          case "bigdec": return a.putBigDecimal((BigDecimal) v);
          default: return a.putDateTime((TemporalAccessor) v);
        }
    }
  }

  static final class World {
    final List<Args> lists = new ArrayList<>();
    final List<Object> srcs = new ArrayList<>();
    final List<List<Object>> copies = new ArrayList<>();
    final Map<String, Object> made = new HashMap<>();
    final int salt;

    World(int salt) {
      this.salt = salt;
    }

    Object obj(String ty, long at, long k) {
      String key = at + "/" + k;
      if (!made.containsKey(key)) made.put(key, make(ty, Math.abs((int) (at * 5 + k * 3 + salt)) % 840));
      return made.get(key);
    }

    void same(List<Object> want, List<Object> got, String where) {
      if (want.size() != got.size()) throw new IllegalStateException(where + ": " + got.size() + " entries, specified " + want.size());
      for (int i = 0; i < want.size(); i++) {
        Map<String, Object> e = Json.obj(want.get(i));
        Object w = obj((String) e.get("ty"), (Long) e.get("at"), (Long) e.get("k"));
        Object g = got.get(i);
        boolean ok = Boolean.TRUE.equals(e.get("prim")) ? w.equals(g) : w == g;
        if (!ok) throw new IllegalStateException(where + ": entry " + (i + 1) + " is " + (g == null ? null : g.getClass().getName() + " " + g) + ", specified " + e);
      }
    }

    void check(int i, List<Object> want, String where) {
      Args a = lists.get(i);
      same(want, a.values(), where + " values()");
      for (int round = 0; round < 2; round++) {
        List<Object> it = new ArrayList<>();
        for (FormatTraits t : a) it.add(t.asObject());
        same(want, it, where + " iteration");
      }
      // two iterations that overlap
      Iterator<FormatTraits> p = a.iterator(), q = a.iterator();
      List<Object> one = new ArrayList<>(), two = new ArrayList<>();
      while (p.hasNext()) {
        one.add(p.next().asObject());
        if (one.size() % 2 == 0) two.add(q.next().asObject());
      }
      while (q.hasNext()) two.add(q.next().asObject());
      same(want, one, where + " first of two iterations");
      same(want, two, where + " second of two iterations");
    }

    void use(int i, List<Object> want, String where) {
      StringBuilder f = new StringBuilder();
      StringBuilder x = new StringBuilder();
      for (Object o : want) {
        Map<String, Object> e = Json.obj(o);
        String ty = (String) e.get("ty");
        Object w = obj(ty, (Long) e.get("at"), (Long) e.get("k"));
        f.append("%s;");
        if (!ty.equals("array") && !ty.equals("object")) x.append(w == null ? "null" : w.toString()).append(';');
        else x.append('?');
      }
      boolean exact = x.indexOf("?") < 0;
      String one = FastPrintf.compile(f.toString()).format(lists.get(i));
      String two = FastPrintf.compile(f.toString()).format(lists.get(i));
      if (!one.equals(two)) throw new IllegalStateException(where + ": printed " + one + " then " + two);
      if (exact && !one.equals(x.toString())) throw new IllegalStateException(where + ": printed " + one + " instead of " + x);
    }
  }

  static void replay(Map<String, Object> c, int salt) {
    World w = new World(salt);
    int step = 0;
    for (Object e : Json.list(c.get("h"))) {
      step++;
      Map<String, Object> o = Json.obj(e);
      int i = ((Long) o.get("i")).intValue() - 1;
      List<Object> res = Json.list(o.get("res"));
      String op = (String) o.get("o"), where = "step " + step + " " + op;
      int list = i;
      switch (op) {
        case "create": w.lists.add(Args.create()); break;
        case "sized": w.lists.add(Args.createWithExpectedSize(salt % 4 == 3 ? 1000 : salt % 4)); break;
        case "nullarray": w.lists.add(Args.of((Object[]) null)); break;
        case "negative": case "noiterable":
          list = -1;
          try {
            if (op.equals("negative")) Args.createWithExpectedSize(salt % 2 == 0 ? -1 : Integer.MIN_VALUE);
            else Args.of((Iterable<?>) null);
            throw new IllegalStateException(where + " was accepted");
          } catch (IllegalArgumentException | NullPointerException x) {
            // refused
          }
          break;
        case "array": case "iterable": case "list": {
          List<Object> tys = Json.list(o.get("tys"));
          Object[] vals = new Object[tys.size()];
          for (int k = 0; k < vals.length; k++) vals[k] = w.obj((String) tys.get(k), step, k + 1);
          if (op.equals("array")) {
            w.srcs.add(vals);
            w.lists.add(Args.of(vals));
          } else {
            Collection<Object> l = op.equals("list") ? collection(vals, salt + step) : new ArrayList<>(Arrays.asList(vals));
            w.srcs.add(l);
            w.lists.add(Args.of(op.equals("list") ? view(l, salt + step) : iterable(l, salt + step)));
          }
          break;
        }
        case "put": {
          Map<String, Object> p = Json.obj(o.get("p"));
          Args a = w.lists.get(i);
          Args b = put(a, (String) p.get("m"), (String) p.get("as"), w.obj((String) p.get("ty"), step, 1));
          w.same(res, b.values(), where + " (answered list)");
          if (salt % 2 == 0) w.lists.set(i, b);
          break;
        }
        case "putmany": {
          List<Object> tys = Json.list(o.get("tys"));
          for (int k = 0; k < tys.size(); k++) w.lists.get(i).put(w.obj((String) tys.get(k), step, k + 1));
          break;
        }
        case "change":
          list = -1;
          Object s = w.srcs.get(i);
          if (s instanceof Object[]) Arrays.fill((Object[]) s, null);
          else if (s instanceof List && ((List<?>) s).size() % 2 == 1) Collections.fill(castList(s), null);
          else castColl(s).clear();
          if (s instanceof Collection) castColl(s).add("extra");
          break;
        case "values":
          List<Object> v = w.lists.get(i).values();
          w.same(res, v, where);
          w.copies.add(v);
          break;
        case "spoil":
          list = -1;
          try {
            w.copies.get(i).clear();
            w.copies.get(i).add("spoiled");
          } catch (UnsupportedOperationException x) {
            // a read-only list cannot be changed
          }
          break;
        case "use": w.use(i, res, where); break;
        default: throw new IllegalStateException(op);
      }
      if (list >= 0) w.check(list, res, where);
    }
    List<Object> ls = Json.list(c.get("lists"));
    for (int i = 0; i < ls.size(); i++) {
      w.check(i, Json.list(ls.get(i)), "at the end, list " + (i + 1));
      w.use(i, Json.list(ls.get(i)), "at the end, list " + (i + 1));
      w.check(i, Json.list(ls.get(i)), "after use, list " + (i + 1));
    }
  }

  /** The values in a collection of some kind that keeps them all, in this order. */
  static Collection<Object> collection(Object[] vals, int k) {
    List<Object> l = Arrays.asList(vals);
    boolean nulls = l.contains(null), distinct = new HashSet<>(l).size() == vals.length;
    switch (k % 7) {
      case 0: return new LinkedList<>(l);
      case 1: if (distinct) return new LinkedHashSet<>(l); break;
      case 2: if (!nulls) return new ArrayDeque<>(l); break;
      case 3: if (!nulls) return new ConcurrentLinkedQueue<>(l); break;
      case 4: return new Vector<>(l);
      case 5: return new CopyOnWriteArrayList<>(l);
      default:
    }
    return new ArrayList<>(l);
  }

  /** The collection itself, or a view of it. */
  static Iterable<Object> view(Collection<Object> c, int k) {
    switch (k / 7 % 5) {
      case 0: return Collections.unmodifiableCollection(c);
      case 1: return new AbstractCollection<Object>() {
        @Override
        public Iterator<Object> iterator() {
          return c.iterator();
        }

        @Override
        public int size() {
          return c.size();
        }
      };
      case 2: return c instanceof List ? castList(c).subList(0, c.size()) : Collections.synchronizedCollection(c);
      default: return c;
    }
  }

  /** An iterable that is no collection; some answer their iterator only once. */
  static Iterable<Object> iterable(Collection<Object> c, int k) {
    if (k % 3 == 0) return c::iterator;
    Iterator<Object> once = c.iterator();
    if (k % 3 == 1) return () -> once;
    return new Iterable<Object>() {
      @Override
      public Iterator<Object> iterator() {
        Iterator<Object> it = c.iterator();
        return new Iterator<Object>() {
          @Override
          public boolean hasNext() {
            return it.hasNext();
          }

          @Override
          public Object next() {
            return it.next();
          }
        };
      }
    };
  }

  @SuppressWarnings("unchecked")
  static Collection<Object> castColl(Object o) {
    return (Collection<Object>) o;
  }

  @SuppressWarnings("unchecked")
  static List<Object> castList(Object o) {
    return (List<Object>) o;
  }

  public static void main(String[] a) {
    Watch.guard(a[1], () -> run(a));
  }

  static void run(String[] a) throws IOException {
    int n = Integer.parseInt(a[2]) * 131;
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0]), StandardCharsets.UTF_8);
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.UTF_8)) {
      String line;
      while ((line = in.readLine()) != null) {
        Watch.at(line);
        Map<String, Object> c = Json.obj(Json.parse(line));
        n++;
        try {
          replay(c, n % 100000);
        } catch (RuntimeException e) {
          Map<String, Object> d = new LinkedHashMap<>(c);
          d.put("what", e.toString());
          out.write(Json.write(d));
          out.write('\n');
        }
      }
    }
  }
}
