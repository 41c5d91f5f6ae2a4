----------------------------- MODULE MC_Matrix -----------------------------
(***************************************************************************)
(* The matrix of argument types and conversions (P16).  For every value    *)
(* the conversions to integer, floating point and * field are compared     *)
(* with the rational number the value denotes (error bounds, ties, ranges; *)
(* not the way Convert computes them), the refusals with a table, and      *)
(* every cell is emitted for replay.                                       *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANT Deep

VARIABLES a, cell
vars == <<a, cell>>

SI(t, neg, m) == [t |-> t, neg |-> neg, m |-> m]
I(n) == SI("int", n < 0, NFromInt(IF n < 0 THEN -n ELSE n))
Dbl(t, neg, c, q) == [t |-> t, k |-> "fin", neg |-> neg, c |-> c, q |-> q]
\* a value n * 2^k as the type's record; n below 2^53
Norm(n, k) == LET s == 53 - NBitLen(n) IN <<NMul(n, NPow(2, s)), k - s>>
D2(t, neg, n, k) == IF n = <<>> THEN Dbl(t, neg, <<>>, -1074) ELSE LET z == Norm(n, k) IN Dbl(t, neg, z[1], z[2])
Special(t) == {[t |-> t, k |-> "nan", neg |-> FALSE, c |-> <<>>, q |-> 0]} \cup
              {[t |-> t, k |-> "inf", neg |-> n, c |-> <<>>, q |-> 0] : n \in BOOLEAN}
BD(neg, m, sc) == [t |-> "bigdec", neg |-> neg, m |-> m, sc |-> sc]
S(s) == [t |-> "str", s |-> s]

Near(n) == {n, NAdd(n, <<1>>), NSub(n, <<1>>)}
Small == {<<>>, <<1>>, <<2>>, <<9>>, <<10>>, <<65>>, <<100>>}
Edges == {7, 8, 15, 16, 31, 32, 52, 53, 63, 64, 65} \cup (IF Deep THEN 9..90 ELSE {})
Mags(b) == {m \in Small \cup UNION {Near(NPow(2, i)) : i \in Edges} : NCmp(m, NPow(2, b)) < 0}
Ints(t, b) == {SI(t, n, m) : n \in BOOLEAN, m \in Mags(b)} \cup {SI(t, TRUE, NPow(2, b))}
NoNegZero(A) == {z \in A : ~(z.neg /\ z.m = <<>>)}

\* halves, quarters, and the edges of the integer ranges
Halves == {<<n, k>> : n \in {<<>>, <<1>>, <<3>>, <<5>>, <<7>>, <<13>>}, k \in {-2, -1, 0, 1, 5}}
FloatEdges == {<<n, k>> : n \in {NPow(2, 23), NSub(NPow(2, 24), <<1>>), NAdd(NPow(2, 23), <<1>>)}, k \in {-24, -23, -1, 0, 7, 8, 9, 39, 40, 41, 100, -149}}
DoubleEdges == {<<n, k>> : n \in {TwoTo52, NSub(TwoTo53, <<1>>), NAdd(TwoTo52, <<1>>), NAdd(TwoTo52, NPow(2, 21))},
                           k \in {-54, -53, -52, -22, -21, -20, -2, -1, 0, 1, 10, 11, 12, 971, -1074}
                                 \cup (IF Deep THEN -60..20 ELSE {})}
Texts == { <<>>, <<48>>, <<55>>, <<45, 55>>, <<43, 55>>, <<48, 48, 55>>, <<32, 55>>, <<55, 32>>, <<45>>, <<43>>, <<97>>, <<49, 46, 53>>, <<45, 46, 53>>,
           <<49, 101, 51>>, <<49, 69, 45, 50>>, <<49, 101>>, <<46>>, <<53, 46>>, <<78, 97, 78>>, <<45, 78, 97, 78>>, <<73, 110, 102, 105, 110, 105, 116, 121>>,
           <<45, 73, 110, 102, 105, 110, 105, 116, 121>>, <<45, 45, 49>>, <<49, 44, 48>>, <<49, 95, 48>>, <<48, 120, 49, 48>>, <<49, 48, 102>>, <<49, 48, 68>>, <<49, 48, 76>>,
           DigitText(NDigits(NSub(TwoTo31, <<1>>), 10)), DigitText(NDigits(TwoTo31, 10)), <<MINUS>> \o DigitText(NDigits(TwoTo31, 10)),
           DigitText(NDigits(NSub(TwoTo63, <<1>>), 10)), DigitText(NDigits(TwoTo63, 10)), <<MINUS>> \o DigitText(NDigits(TwoTo63, 10)),
           <<MINUS>> \o DigitText(NDigits(NAdd(TwoTo63, <<1>>), 10)), DigitText(NDigits(NAdd(NPow(2, 53), <<1>>), 10)) }
Millis == {<<>>, <<1>>, <<999>>, <<1000>>, <<1001>>, <<1500>>, NMul(TwoTo31, <<1000>>), NSub(NMul(TwoTo31, <<1000>>), <<1>>), NFromDigits(<<2,5,3,4,0,2,3,0,0,7,9,9,9,9,9>>)}
Stamp(t, neg, m) == [t |-> t, neg |-> neg, m |-> m, ns |-> 0, offm |-> 0, offs |-> 0]
Inst(neg, m, ns) == [t |-> "inst", neg |-> neg, m |-> m, ns |-> ns, off |-> 0]
Local(t, off) == [t |-> t, e |-> "", y |-> 2024, mo |-> 2, d |-> 29, h |-> 13, mi |-> 5, s |-> 9, ns |-> 500000000, off |-> off]
Zoned(z) == z @@ [offs |-> 0, offm |-> 0]
Num(neg, m) == [t |-> "num", neg |-> neg, m |-> m, i |-> ToInt32(neg, m), offs |-> 0, offm |-> 0, cls |-> "AtomicLong",
                d |-> LET r == NearestDouble(m, <<1>>) IN [k |-> "fin", neg |-> neg, c |-> r.c, q |-> r.q]]

Args == {[t |-> "bool", v |-> v] : v \in {0, 1}} \cup {[t |-> "char", v |-> v] : v \in {0, 10, 48, 65, 97, 233, 32767, 32768, 55357, 65535}}
        \cup NoNegZero(Ints("byte", 7)) \cup NoNegZero(Ints("short", 15))
        \cup {Zoned(z) : z \in NoNegZero(Ints("int", 31) \cup Ints("long", 63) \cup Ints("bigint", 70))}
        \cup Special("float") \cup Special("double")
        \cup {D2("float", n, z[1], z[2]) : n \in BOOLEAN, z \in Halves \cup FloatEdges}
        \cup {D2("double", n, z[1], z[2]) : n \in BOOLEAN, z \in Halves}
        \cup {Dbl("double", n, z[1], z[2]) : n \in BOOLEAN, z \in DoubleEdges}
        \cup {BD(n, m, sc) : n \in BOOLEAN, m \in (Small \cup {<<25>>, <<999>>, TwoTo31, TwoTo63}) \ {<<>>}, sc \in {-12, -1, 0, 1, 2, 3, 19, 25}}
        \cup {BD(FALSE, <<>>, sc) : sc \in {-2, 0, 3}}
        \cup {S(w) : w \in Texts}
        \cup {Stamp(t, n, m) : t \in {"date", "cal"}, n \in {FALSE}, m \in Millis} \cup {Stamp(t, TRUE, m) : t \in {"date", "cal"}, m \in Millis \ {<<>>}}
        \cup {Inst(n, m, ns) : n \in BOOLEAN, m \in {<<1>>, TwoTo31, NAdd(TwoTo31, <<1>>), NFromDigits(<<2,5,3,4,0,2,3,0,0,7,9,9>>)}, ns \in {0, 1, 500000000, 999999999}}
        \cup {Local(t, off) : t \in {"odt", "zdt"}, off \in {0, 3600, -64800}} \cup {Local(t, 0) : t \in {"ldt", "ld", "lt"}}
        \cup {[t |-> "null", prim |-> 0], [t |-> "obj", s |-> <<55>>, str |-> <<55>>],
              [t |-> "arr", el |-> "byte", b |-> <<55>>], [t |-> "arr", el |-> "char", s |-> <<55>>], [t |-> "arr", el |-> "int", els |-> << <<55>> >>, vals |-> <<I(7)>>]}
        \cup {Num(n, m) : n \in {FALSE}, m \in {<<>>, <<5>>, TwoTo31, NAdd(TwoTo32, <<7>>), NSub(TwoTo63, <<1>>)}} \cup {Num(TRUE, m) : m \in {<<5>>, TwoTo63}}

\* ---------- what a value denotes ----------
\* the number: [k, neg, N, D] with |v| = N/D; dates in milliseconds (u = 1000) or seconds (u = 1)
Ratio(neg, N, D) == [k |-> "fin", neg |-> neg, N |-> N, D |-> D]
Value(z, unit) ==
  CASE z.t \in {"bool", "char"} -> Ratio(FALSE, NFromInt(z.v), <<1>>)
    [] z.t \in {"byte", "short", "int", "long", "bigint", "num"} -> Ratio(z.neg, z.m, <<1>>)
    [] z.t \in {"float", "double"} /\ z.k # "fin" -> [k |-> z.k, neg |-> z.neg]
    [] z.t \in {"float", "double"} -> IF z.q >= 0 THEN Ratio(z.neg, NMul(z.c, NPow(2, z.q)), <<1>>) ELSE Ratio(z.neg, z.c, NPow(2, -z.q))
    [] z.t = "bigdec" -> IF z.sc >= 0 THEN Ratio(z.neg, z.m, NPow(10, z.sc)) ELSE Ratio(z.neg, NMul(z.m, NPow(10, -z.sc)), <<1>>)
    [] z.t \in {"date", "cal"} -> Ratio(z.neg, NMul(z.m, NFromInt(unit)), <<1000>>)
    [] z.t = "inst" -> LET G == NPow(10, 9)      \* seconds + ns / 10^9
                           s == SAdd([neg |-> z.neg, m |-> NMul(z.m, G)], [neg |-> FALSE, m |-> NFromInt(z.ns)])
                       IN Ratio(s.neg, NMul(s.m, NFromInt(unit)), G)
    [] OTHER -> [k |-> "none"]
\* the signed integer r is below / not above the value
Diff(v, r) == LET x == SAdd([neg |-> v.neg, m |-> v.N], [neg |-> ~r.neg, m |-> NMul(r.m, v.D)]) IN SNorm(x)   \* (v - r) * D
Below(x, m) == x.neg \/ NCmp(x.m, m) < 0                   \* x < m, m a natural
\* r = v rounded towards zero / down / to the nearest with ties up
Towards0(v, r) == LET x == Diff(v, r) IN NCmp(x.m, v.D) < 0 /\ (x.m # <<>> => x.neg = v.neg)
Down(v, r) == LET x == Diff(v, r) IN ~x.neg /\ NCmp(x.m, v.D) < 0
NearestUp(v, r) == LET x == Diff(v, r)  y == NMulDig(x.m, 2) IN IF x.neg THEN NCmp(y, v.D) <= 0 ELSE NCmp(y, v.D) < 0
InHalf(r, half) == IF r.neg THEN NCmp(r.m, half) <= 0 ELSE NCmp(r.m, half) < 0
\* v is at or beyond the edge, r is that edge
Clamped(v, r, half) == /\ NCmp(NMulDig(v.N, 2), NMul(NSub(NMulDig(half, 2), <<1>>), v.D)) >= 0
                       /\ r.neg = v.neg /\ r.m = (IF v.neg THEN half ELSE NSub(half, <<1>>))
Same32(x, y) == LET z == SAdd(x, SNeg(y)) IN NDivMod(z.m, TwoTo32)[2] = <<>>

Signed(t) == [neg |-> t # <<>> /\ t[1] = MINUS, m |-> ReadNat(UnsignedPart(t), 10)]
Dir(ch) == [fl |-> {}, w |-> UNSET, p |-> UNSET, c |-> ch, pat |-> <<>>]

IntegerLaw ==
  LET r == Fmt(Dir(100), a)  v == Value(a, 1000)  z == Signed(r.s)
      half == IF a.t = "float" THEN TwoTo31 ELSE TwoTo63
  IN r.e = "" /\ v.k # "none" =>
       CASE v.k = "nan" -> z.m = <<>>
         [] v.k = "inf" -> z.neg = v.neg /\ z.m = (IF v.neg THEN half ELSE NSub(half, <<1>>))
         [] a.t \in {"float", "double"} -> InHalf(z, half) /\ (Towards0(v, z) \/ Clamped(v, z, half))
         [] a.t = "bigdec" -> Towards0(v, z)
         [] OTHER -> Down(v, z)
StarLaw ==
  LET r == AsInt(a)  v == Value(a, 1)
  IN r.e = "" /\ v.k # "none" =>
       LET z == IF r.v < 0 THEN [neg |-> TRUE, m |-> NAdd(NFromInt(-(r.v + 1)), <<1>>)] ELSE SInt(r.v)
       IN CASE v.k = "nan" -> z.m = <<>>
            [] v.k = "inf" -> IF a.t = "float" THEN r.v = (IF v.neg THEN (-2147483647) - 1 ELSE 2147483647) ELSE r.v = (IF v.neg THEN 0 ELSE -1)
            [] a.t = "float" -> NearestUp(v, z) \/ Clamped(v, z, TwoTo31)
            [] a.t = "double" -> NearestUp(v, z) \/ NCmp(v.N, NMul(NSub(TwoTo31, <<1>>), v.D)) >= 0
            [] a.t = "bigdec" -> LET q == [neg |-> v.neg, m |-> NDiv(v.N, v.D)] IN Same32(z, q)
            [] a.t \in {"date", "cal"} -> Same32(z, [neg |-> v.neg, m |-> NDiv(v.N, v.D)])
            [] a.t = "inst" -> Same32(z, SFloorDivMod([neg |-> v.neg, m |-> v.N], v.D)[1])
            [] OTHER -> Same32(z, [neg |-> v.neg, m |-> v.N])
\* the double shown is no further from the value than half a unit; an exact tie is even
FloatLaw ==
  LET r == AsFloatForm(a)  v == Value(a, 1)
  IN r.e = "" /\ v.k = "fin" /\ r.f.k # "dec" /\ ~(a.t = "inst") =>
       LET f == r.f
           w == Value([t |-> "double"] @@ f, 1)
           x == SAdd([neg |-> w.neg, m |-> NMul(w.N, v.D)], [neg |-> ~v.neg, m |-> NMul(v.N, w.D)])   \* (f - v) * D * D'
           ulp == IF f.q >= 0 THEN NMul(NPow(2, f.q), NMul(v.D, w.D)) ELSE NDiv(NMul(v.D, w.D), NPow(2, -f.q))
       IN IF f.k = "inf" THEN NCmp(v.N, NMul(NPow(2, 1023), v.D)) > 0
          ELSE /\ NCmp(NMulDig(x.m, 2), ulp) <= 0
               /\ (NCmp(NMulDig(x.m, 2), ulp) = 0 => f.c = <<>> \/ NDivMod(f.c, <<2>>)[2] = <<>>)
               /\ (v.N # <<>> => f.neg = v.neg)

\* ---------- refusals ----------
IsInt(s) == LET b == IF s # <<>> /\ s[1] \in {PLUS, MINUS} THEN Tail(s) ELSE s IN b # <<>> /\ AllIn(b, 48..57)
Never == {"null", "obj", "arr", "ldt", "ld", "lt"}
Refused(z, ch) ==
  CASE ch \in {115, 83} -> FALSE
    [] ch \in IntSpecs -> z.t \in Never \/ (z.t = "str" /\ ~(IsInt(z.s) /\ InHalf(Signed(z.s), TwoTo63)))
                           \* no fixed width to complement a negative value in
                           \/ (z.t \in {"bigint", "bigdec"} /\ ~(ch \in SignedInt) /\ z.neg /\ NCmp(Value(z, 1).N, Value(z, 1).D) >= 0)
    [] ch \in FloatSpecs -> z.t \in Never \/ (ch \in {97, 65} /\ z.t \in {"bigint", "bigdec"}) \/ (z.t = "str" /\ ~ParseDouble(z.s).ok)
    [] ch = 99 -> z.t \in Never \cup {"inst", "odt", "zdt"} \/ z = S(<<>>)
    [] ch \in {116, 84} -> z.t \in {"bool", "char", "byte", "short", "float", "double", "bigdec", "str", "null", "obj", "arr", "lt"}
                           \/ (z.t = "bigint" /\ ~InHalf(z, TwoTo63))
Conversions == IntSpecs \cup FloatSpecs \cup {99, 115, 83, 116, 84}
\* the string form of some types is the runtime's
HasText(z, ch) == /\ ~(ch \in {116, 84} /\ z.t \in {"long", "bigint", "num"} /\ InHalf(z, TwoTo63) /\ NCmp(z.m, NPow(10, 15)) > 0)   \* years beyond the model
                  /\ ~(ch \in {115, 83} /\ z.t \in {"float", "double", "bigdec", "num", "date", "cal", "inst", "odt", "zdt", "ldt", "ld", "lt"})

RefusalLaw == \A ch \in Conversions : HasText(a, ch) => ((Fmt(Dir(ch), a).e = "lib") <=> Refused(a, ch))
StarRefusal == (AsInt(a).e = "lib") <=> (a.t \in Never \/ (a.t = "str" /\ ~(IsInt(a.s) /\ InHalf(Signed(a.s), TwoTo31))))

\* ---------- behaviour ----------
None == <<>>
Formats(z) == {<<PCT, ch>> : ch \in {ch \in Conversions : HasText(z, ch)}} \cup {<<PCT, 46, 51, ch>> : ch \in {102, 101, 103, 100, 120}}
              \cup {<<PCT, 43, ch>> : ch \in {100, 102}} \cup {<<PCT, 42, 100>>, <<PCT, 46, 42, 100>>, <<PCT, 46, 42, 102>>, <<PCT, 42, 46, 50, 115>>}
Init == a \in Args /\ cell = None
Next == cell = None /\ cell' \in Formats(a) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

Matrix == cell = None => IntegerLaw /\ StarLaw /\ FloatLaw /\ RefusalLaw /\ StarRefusal
Second == IF cell = None \/ ~(\E i \in 1..Len(cell) : cell[i] = 42) THEN <<>>
          ELSE IF cell[Len(cell)] = 115 THEN <<S(<<97, 98, 99>>)>> ELSE IF cell[Len(cell)] = 102 THEN <<D2("double", TRUE, <<5>>, -1)>> ELSE <<I(-42)>>
Emitted == cell # None =>
  LET as == <<a>> \o Second
      r == Exec(cell, as)
  IN PrintT(ToJson([f |-> cell, a |-> as, x |-> [st |-> r.st, s |-> r.out]]))
=============================================================================
