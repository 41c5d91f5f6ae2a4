---------------------------- MODULE MC_Directive ----------------------------
(***************************************************************************)
(* One directive and one argument, over finite domains: the laws hold for  *)
(* every combination, and each combination is emitted as a case (format,   *)
(* arguments, specified outcome) for replay on the library.                *)
(* Domain selects the family; a state is a key (first level) or a call.    *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS Domain, Deep

VARIABLES key, call
vars == <<key, call>>

\* ---------- arguments ----------
SI(t, neg, m) == [t |-> t, neg |-> neg, m |-> m]
I(n) == SI("int", n < 0, NFromInt(IF n < 0 THEN -n ELSE n))
DblOf(neg, N, D) == LET z == NearestDouble(N, D) IN
                    [t |-> "double", k |-> "fin", neg |-> neg, c |-> z.c, q |-> z.q]
\* the double nearest to m * 10^k
D10(neg, m, k) == LET r == DecAsRatio(m, k) IN DblOf(neg, r[1], r[2])
Raw(neg, c, q) == [t |-> "double", k |-> "fin", neg |-> neg, c |-> c, q |-> q]
Inf(neg) == [t |-> "double", k |-> "inf", neg |-> neg, c |-> <<>>, q |-> 0]
NaN == [t |-> "double", k |-> "nan", neg |-> FALSE, c |-> <<>>, q |-> 0]
BD(neg, m, sc) == [t |-> "bigdec", neg |-> neg, m |-> m, sc |-> sc]
S(s) == [t |-> "str", s |-> s]
Null == [t |-> "null"]

Dbl0 == [t |-> "double", k |-> "fin", neg |-> FALSE, c |-> <<>>, q |-> -1074]
DblN0 == [Dbl0 EXCEPT !.neg = TRUE]

AllFlags == SUBSET {MINUS, HASH, PLUS, SP, ZERO}
d == 100  u == 117  o == 111  x == 120  X == 88  f == 102  e == 101  g == 103  aa == 97  s == 115  c == 99

\* powers of two and ten with their neighbours, for a type of b value bits
Around(n) == {n, NAdd(n, <<1>>)} \cup (IF n = <<>> THEN {} ELSE {NSub(n, <<1>>)})
Magnitudes(b) == UNION {Around(NPow(2, i)) : i \in 0..b} \cup
                 UNION {Around(NPow(10, i)) : i \in 1..((b * 30103) \div 100000)}
IntArgs(t, b) == {SI(t, FALSE, m) : m \in {m \in Magnitudes(b) : NCmp(m, NPow(2, b)) < 0} \cup {<<>>}} \cup
                 {SI(t, TRUE, m) : m \in {m \in Magnitudes(b) : m # <<>> /\ NCmp(m, NPow(2, b)) <= 0}}

\* decimal digit patterns that round and carry
Pats == {<<1>>, <<5>>, <<9>>, <<9,5>>, <<9,4,9>>, <<9,9,9,5>>, <<1,2,5>>, <<2,5>>, <<4,9,9,9>>, <<9,9,9,9,9,9,5>>,
         <<1,0,0,0,0,0,5>>, <<1,2,3,4,5,6,7>>, <<9,9,9,9,9,9,9,9,9>>, <<5,0,0,0,1>>, <<1,0,5>>}

\* ---------- domains: keys and the calls of a key ----------
Dir(fl, w, p, ch) == [fl |-> fl, w |-> w, p |-> p, c |-> ch, pat |-> <<>>]
Call(dir, a) == [dir |-> dir, a |-> a]

Keys ==
  CASE Domain = "ints" -> {<<t, ch>> : t \in {"byte", "short", "int", "long", "bigint"}, ch \in {d, u, o, x, X}}
    [] Domain = "layout" -> {<<fl, w>> : fl \in AllFlags, w \in {UNSET, 0, 1, 2, 3, 5, 8, 12} \cup (IF Deep THEN 4..40 ELSE {})}
    [] Domain = "shortest" -> (-1074)..971
    [] Domain = "round" -> {<<pt, k, neg>> : pt \in Pats, k \in -12..10, neg \in BOOLEAN}
    [] Domain = "general" -> {<<pt, k>> : pt \in Pats, k \in -14..22}
    [] Domain = "hex" -> {<<p, h>> : p \in {UNSET} \cup 0..15, h \in 0..7}
    [] Domain = "bigdec" -> {<<pt, sc>> : pt \in Pats \cup {<<>>}, sc \in -8..16}
    [] Domain = "text" -> {<<fl, w>> : fl \in SUBSET {MINUS, ZERO, PLUS}, w \in {UNSET, 1, 3, 6}}

LayArgs == {<<d, I(0)>>, <<d, I(-7)>>, <<d, I(123)>>, <<u, I(42)>>, <<o, I(0)>>, <<o, I(8)>>, <<x, I(255)>>, <<x, I(0)>>, <<X, I(-1)>>,
            <<f, D10(FALSE, <<15>>, -1)>>, <<f, DblN0>>, <<f, NaN>>, <<f, Inf(TRUE)>>, <<f, Inf(FALSE)>>, <<70, NaN>>,
            <<e, D10(TRUE, <<125>>, -1)>>, <<g, D10(FALSE, <<5>>, -5)>>, <<g, BD(TRUE, <<25>>, 1)>>,
            <<aa, D10(TRUE, <<1>>, 0)>>, <<aa, Inf(FALSE)>>, <<65, D10(FALSE, <<3>>, 0)>>,
            <<s, S(<<97, 98, 99>>)>>, <<s, Null>>, <<83, S(<<97, 66>>)>>, <<c, [t |-> "char", v |-> 120]>>,
            <<112, [t |-> "null", prim |-> 0]>>}

\* significands for %a: h selects where the discarded part lies relative to one half
HexSig(p, h) ==
  LET cut == 52 - 4 * Min2(12, Max2(1, p))
      top == NPow(2, 52)
      unit == NPow(2, cut)
      half == NPow(2, cut - 1)
  IN {NAdd(b, y) : b \in {top, NAdd(top, unit), NAdd(top, NMulDig(unit, 2)), NSub(NMulDig(top, 2), unit), NAdd(top, NMulDig(unit, 15))},
      y \in {CASE h = 0 -> <<>> [] h = 1 -> half [] h = 2 -> NSub(half, <<1>>) [] h = 3 -> NAdd(half, <<1>>)
               [] h = 4 -> NSub(unit, <<1>>) [] h = 5 -> <<1>> [] h = 6 -> NDiv(half, <<2>>) [] OTHER -> <<3>>}}

Words == {<<>>, <<97>>, <<122, 90, 96, 123>>, <<223, 305, 97>>, <<65, 98, 67, 100, 101, 102, 103>>, <<55357, 56832>>}

CallsOf(k) ==
  CASE Domain = "ints" ->
         LET t == k[1]
             A == IF t = "bigint" THEN IntArgs(t, 70) ELSE IntArgs(t, Bits(t) - 1)
             F == IF k[2] = d THEN {{}, {PLUS}, {SP}, {PLUS, SP}} ELSE {{}, {HASH}}
         IN {Call(Dir(fl, UNSET, p, k[2]), a) : fl \in F, p \in {UNSET, 0, 1, 3, 7} \cup (IF Deep THEN {2, 4, 10, 19, 20, 25, 30} ELSE {}), a \in A}
    [] Domain = "layout" -> {Call(Dir(k[1], k[2], p, la[1]), la[2]) : p \in {UNSET, 0, 2}, la \in LayArgs}
    [] Domain = "shortest" ->
         {Call(Dir({}, UNSET, 17, e), Raw(FALSE, sg, k)) :
            sg \in {TwoTo52, NAdd(TwoTo52, <<1>>), NSub(TwoTo53, <<1>>)} \cup
                   (IF Deep THEN {NAdd(TwoTo52, NPow(2, i)) : i \in {1, 7, 20, 33, 40, 51}} \cup {NSub(TwoTo53, NPow(3, i)) : i \in {3, 17, 30}} ELSE {})
                   \cup (IF k = -1074 THEN UNION {{NPow(2, i), NSub(NPow(2, i + 1), <<1>>)} : i \in 0..51} ELSE {})}
    [] Domain = "round" ->
         {Call(Dir(fl, UNSET, p, ch), D10(k[3], NFromDigits(k[1]), k[2] - Len(k[1]))) :
            fl \in {{}, {HASH}}, p \in {UNSET, 0, 1, 2, 3, 4, 6} \cup (IF Deep THEN {5, 7, 8, 9, 12, 17, 20} ELSE {}), ch \in {f, e}}
    [] Domain = "general" ->
         {Call(Dir(fl, UNSET, p, g), a) :
            fl \in {{}, {HASH}}, p \in {UNSET, 0, 1, 2, 3, 6} \cup (IF Deep THEN {4, 5, 7, 8, 10, 16, 17, 18, 20} ELSE {}),
            a \in {D10(FALSE, NFromDigits(k[1]), k[2] - Len(k[1])), BD(TRUE, NFromDigits(k[1]), Len(k[1]) - k[2])}}
    [] Domain = "hex" ->
         {Call(Dir({}, UNSET, k[1], aa), Raw(h # 1, sg, q)) : sg \in HexSig(k[1], k[2]), q \in {-1074, -52, 0, 971}, h \in {1}}
         \cup {Call(Dir({}, UNSET, k[1], aa), Raw(TRUE, NDiv(sg, NPow(2, i)), -1074)) : sg \in HexSig(k[1], k[2]), i \in {1, 2, 5, 13, 30, 51}}
    [] Domain = "bigdec" ->
         {Call(Dir(fl, UNSET, p, ch), BD(neg, NMul(NFromDigits(k[1]), NPow(10, z)), k[2] + z)) :
            fl \in {{}, {HASH}}, p \in {UNSET, 0, 1, 3} \cup (IF Deep THEN {2, 5, 9, 15, 20} ELSE {}), ch \in {f, e, g}, neg \in BOOLEAN, z \in {0, 2}}
    [] Domain = "text" -> {Call(Dir(k[1], k[2], p, ch), S(wd)) : p \in {UNSET, 0, 1, 2, 5}, ch \in {s, 83}, wd \in Words}

\* ---------- the behaviour ----------
None == [dir |-> Dir({}, UNSET, UNSET, PCT), a |-> Null]
Init == key \in Keys /\ call = None
Next == call = None /\ call' \in CallsOf(key) /\ UNCHANGED key
Spec == Init /\ [][Next]_vars

\* the directive written as a format string
FlagText(fl) == SelectSeq(<<MINUS, HASH, PLUS, SP, ZERO>>, LAMBDA z : z \in fl)
DirText(dir) == <<PCT>> \o FlagText(dir.fl) \o (IF dir.w <= 0 THEN <<>> ELSE NatText(dir.w))
                \o (IF dir.p = UNSET THEN <<>> ELSE <<DOT>> \o NatText(dir.p)) \o <<dir.c>>

Laws_ == call # None => LawsHold(call.dir, call.a)

\* equal decimals print alike (P09); a double's digits obey the shortest law (P05)
ScaleFree == (call # None /\ call.a.t = "bigdec") =>
             Fmt(call.dir, call.a) = Fmt(call.dir, BD(call.a.neg, NMulDig(call.a.m, 10), call.a.sc + 1))
ShortestHolds == (call # None /\ Domain = "shortest") => ShortestLaw(call.a.c, call.a.q)

\* running the written format gives the text of the directive, and is emitted for replay
Emitted ==
  call # None =>
    LET ft == DirText(call.dir)
        r == Exec(ft, <<[call.a EXCEPT !.t = @]>>)
        z == Fmt([call.dir EXCEPT !.w = IF @ = 0 THEN UNSET ELSE @], call.a)
    IN /\ r.st = (IF z.e = "" THEN "done" ELSE z.e)
       /\ (z.e = "" => r.out = z.s)
       /\ PrintT(ToJson([f |-> ft, a |-> <<call.a>>, x |-> [st |-> r.st, s |-> r.out]]))
=============================================================================
