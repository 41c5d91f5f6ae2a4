------------------------------- MODULE Alike -------------------------------
(***************************************************************************)
(* Histories of calls that are easy to take for one another: arguments of  *)
(* different types with one numeric value, one string form, one hash code  *)
(* or that are equal to one another, and formats with one hash code or     *)
(* that differ in one flag.  What a call prints is a function of its own   *)
(* format and its own argument, whatever was shown before.                 *)
(*                                                                         *)
(* Memo = "number" / "hash" are faulty machines that print again what they *)
(* printed for an argument of the same value or hash; they must violate    *)
(* Own.                                                                    *)
(***************************************************************************)
EXTENDS Printf, Json

CONSTANTS Depth, Random, Memo

VARIABLES hist
vars == <<hist>>

\* %d %x %+5d %05d %u %o %s %S %3s %.1s
\* %c %f %.0f %e %g %#g %a %.1a %*d %.*f
\* Aa%d BB%d %dAa %dBB %t{'Aa'uuuu} %t{'BB'uuuu} %t %n. %-5d %5.3d
\* %t{HHxxx} %t{n} %T{s.SSS}
Formats == << <<37, 100>>, <<37, 120>>, <<37, 43, 53, 100>>, <<37, 48, 53, 100>>,
            <<37, 117>>, <<37, 111>>, <<37, 115>>, <<37, 83>>,
            <<37, 51, 115>>, <<37, 46, 49, 115>>, <<37, 99>>, <<37, 102>>,
            <<37, 46, 48, 102>>, <<37, 101>>, <<37, 103>>, <<37, 35, 103>>,
            <<37, 97>>, <<37, 46, 49, 97>>, <<37, 42, 100>>, <<37, 46, 42, 102>>,
            <<65, 97, 37, 100>>, <<66, 66, 37, 100>>, <<37, 100, 65, 97>>, <<37, 100, 66, 66>>,
            <<37, 116, 123, 39, 65, 97, 39, 117, 117, 117, 117, 125>>, <<37, 116, 123, 39, 66, 66, 39, 117, 117, 117, 117, 125>>, <<37, 116>>, <<37, 110, 46>>,
            <<37, 45, 53, 100>>, <<37, 53, 46, 51, 100>>,
            <<37, 116, 123, 72, 72, 120, 120, 120, 125>>, <<37, 116, 123, 110, 125>>, <<37, 84, 123, 115, 46, 83, 83, 83, 125>> >>

B == [prim |-> 0, id |-> <<>>, offs |-> 0, offm |-> 0]
IntV(t, neg, m, h) == B @@ [t |-> t, neg |-> neg, m |-> m, hc |-> h]
Dbl(t, neg, c, q, str, h) == B @@ [t |-> t, k |-> "fin", neg |-> neg, c |-> c, q |-> q, str |-> str, hc |-> h]
Zero(t, neg) == Dbl(t, neg, <<>>, -1074, (IF neg THEN <<45>> ELSE <<>>) \o <<48, 46, 48>>, IF neg THEN -2147483647 ELSE 0)
One(t) == Dbl(t, FALSE, TwoTo52, -52, <<49, 46, 48>>, IF t = "float" THEN 1065353216 ELSE 1072693248)
BD(m, sc, str) == B @@ [t |-> "bigdec", neg |-> FALSE, m |-> m, sc |-> sc, str |-> str, hc |-> 31 * NToInt(m) + sc]
Str(s, h) == B @@ [t |-> "str", s |-> s, hc |-> h]
SB(s) == B @@ [t |-> "str", s |-> s, cs |-> "sb"]
Num(n) == B @@ [t |-> "num", neg |-> FALSE, m |-> NFromInt(n), i |-> n, cls |-> "AtomicLong", str |-> NatText(n),
                d |-> [k |-> "fin", neg |-> FALSE, c |-> IF n = 0 THEN <<>> ELSE TwoTo52, q |-> IF n = 0 THEN -1074 ELSE -52]]
Prim(a) == [a EXCEPT !.prim = 1]
Local(t, h, off) == B @@ [t |-> t, e |-> "", y |-> 1970, mo |-> 1, d |-> 1, h |-> h, mi |-> 0, s |-> 0, ns |-> 0, off |-> off, str |-> <<>>]
After(a, ns) == [a EXCEPT !.ns = ns]
Bits1 == NMul(<<1023>>, TwoTo52)        \* the bits of 1.0 as a long, which has its hash code

Values == TLCEval(
  << IntV("int", FALSE, <<>>, 0), Prim(IntV("int", FALSE, <<>>, 0)), IntV("long", FALSE, <<>>, 0), IntV("byte", FALSE, <<>>, 0), IntV("bigint", FALSE, <<>>, 0),
     Zero("double", FALSE), Zero("double", TRUE), Zero("float", FALSE), Zero("float", TRUE), BD(<<>>, 0, <<48>>), BD(<<>>, 2, <<48, 46, 48, 48>>),
     B @@ [t |-> "bool", v |-> 0, hc |-> 1237], B @@ [t |-> "char", v |-> 48, hc |-> 48], Str(<<48>>, 48), Num(0),
     IntV("long", FALSE, NAdd(TwoTo32, <<1>>), 0), IntV("long", FALSE, TwoTo32, 1),
     IntV("int", FALSE, <<1>>, 1), Prim(IntV("int", FALSE, <<1>>, 1)), IntV("long", FALSE, <<1>>, 1), Prim(IntV("long", FALSE, <<1>>, 1)), IntV("byte", FALSE, <<1>>, 1),
     IntV("short", FALSE, <<1>>, 1), IntV("bigint", FALSE, <<1>>, 1), One("double"), Prim(One("double")), One("float"),
     BD(<<1>>, 0, <<49>>), BD(<<10>>, 1, <<49, 46, 48>>), BD(<<100>>, 2, <<49, 46, 48, 48>>),
     B @@ [t |-> "bool", v |-> 1, hc |-> 1231], B @@ [t |-> "char", v |-> 49, hc |-> 49], Str(<<49>>, 49), SB(<<49>>), Num(1),
     IntV("int", FALSE, <<49>>, 49), IntV("byte", FALSE, <<49>>, 49), IntV("int", FALSE, <<1231>>, 1231),
     IntV("int", TRUE, <<1>>, -1), IntV("long", TRUE, <<1>>, 0), IntV("byte", TRUE, <<1>>, -1), IntV("short", TRUE, <<1>>, -1), IntV("bigint", TRUE, <<1>>, -1),
     IntV("long", FALSE, Bits1, 1072693248), IntV("int", FALSE, NFromInt(1072693248), 1072693248),
     Str(<<65, 97>>, 2112), Str(<<66, 66>>, 2112), SB(<<66, 66>>), IntV("int", FALSE, <<2112>>, 2112),
     B @@ [t |-> "arr", el |-> "char", s |-> <<65, 97>>], B @@ [t |-> "arr", el |-> "byte", b |-> <<65, 97>>],
     B @@ [t |-> "null", hc |-> 0], Str(<<110, 117, 108, 108>>, 3392903),
     B @@ [t |-> "date", neg |-> FALSE, m |-> <<>>, ns |-> 0, str |-> <<>>, hc |-> 0], B @@ [t |-> "inst", neg |-> FALSE, m |-> <<>>, ns |-> 0, off |-> 0, str |-> <<>>, hc |-> 0],
     Local("odt", 0, 0) , Local("odt", 1, 3600), Local("odt", 0, 3600), Local("zdt", 0, 0), Local("ldt", 0, 0), Local("ldt", 1, 0),
     Local("zdt", 1, 3600), After(Local("zdt", 0, 0), 1), After(Local("zdt", 0, 0), 999999), After(Local("odt", 0, 0), 1000000),
     After(Local("ldt", 0, 0), 1), B @@ [t |-> "inst", neg |-> FALSE, m |-> <<>>, ns |-> 1, off |-> 0, str |-> <<>>] >>)

Cells == (1..Len(Formats)) \X (1..Len(Values))
\* the string form of dates and the identity of objects belong to the runtime
Known(f, v) == /\ ~(Values[v].t \in {"date", "inst", "odt", "zdt", "ldt"} /\ f \in 7..10)
               /\ ~(Values[v].t = "long" /\ Values[v].m = Bits1 /\ f \in (25..27) \cup (31..33))          \* years beyond the model
               /\ ~(Values[v].t = "int" /\ Len(Values[v].m) = 1 /\ Values[v].m[1] > 1000 /\ f \in {19, 20})
Table == TLCEval([f \in 1..Len(Formats) |-> [v \in 1..Len(Values) |->
            IF Known(f, v) THEN LET r == Exec(Formats[f], <<Values[v], Values[v]>>) IN [st |-> r.st, s |-> r.out]
            ELSE [st |-> "", s |-> <<>>]]])

\* what the faulty machines go by
Value(v) == LET a == Values[v] IN
  CASE a.t \in {"int", "long", "byte", "short", "bigint"} -> <<a.neg, a.m>>
    [] a.t = "bool" -> <<FALSE, NFromInt(a.v)>>
    [] a.t \in {"double", "float"} -> IF a.c = <<>> THEN <<FALSE, <<>> >> ELSE <<a.neg, <<1>> >>
    [] OTHER -> <<FALSE, <<-v>> >>
Key(v) == IF Memo = "number" THEN Value(v) ELSE IF "hc" \in DOMAIN Values[v] THEN <<FALSE, <<Values[v].hc>> >> ELSE <<TRUE, <<v>> >>
Seen(f, v) == {i \in 1..Len(hist) : hist[i].f = f /\ Key(hist[i].v) = Key(v)}
\* the argument whose text is shown: its own, or the first one taken for it
Shown(f, v) == IF Memo = "none" \/ Seen(f, v) = {} THEN v ELSE hist[CHOOSE i \in Seen(f, v) : \A j \in Seen(f, v) : i <= j].v

Call(f, v) == hist' = Append(hist, [f |-> f, v |-> v, of |-> Shown(f, v)])
\* the second call shares its format or its argument with the first, the third repeats the first
AllNext ==
  \/ hist = <<>> /\ \E c \in Cells : Known(c[1], c[2]) /\ Call(c[1], c[2])
  \/ Len(hist) = 1 /\ \E v \in 1..Len(Values) : v # hist[1].v /\ Known(hist[1].f, v) /\ Call(hist[1].f, v)
  \/ Len(hist) = 1 /\ \E f \in 1..Len(Formats) : f # hist[1].f /\ Known(f, hist[1].v) /\ Call(f, hist[1].v)
  \/ Len(hist) = 2 /\ Call(hist[1].f, hist[1].v)
RandomNext == \E f \in {RandomElement(1..Len(Formats))}, v \in {RandomElement(1..Len(Values))} :
  IF Known(f, v) THEN Call(f, v) ELSE Call(1, v)

Init == hist = <<>>
Next == Len(hist) < Depth /\ IF Random THEN RandomNext ELSE AllNext
Spec == Init /\ [][Next]_vars

Own == hist # <<>> => LET h == hist[Len(hist)] IN Table[h.f][h.of] = Table[h.f][h.v]
Emitted == /\ hist = <<>> => PrintT(ToJson([f |-> Formats, v |-> Values, x |-> Table]))
           /\ Len(hist) = Depth => PrintT(ToJson([h |-> [i \in 1..Depth |-> <<hist[i].f, hist[i].v>>]]))
=============================================================================
