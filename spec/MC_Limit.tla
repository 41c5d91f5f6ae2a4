------------------------------ MODULE MC_Limit ------------------------------
(***************************************************************************)
(* Widths and precisions around the limit (P19), written in the format or  *)
(* given through *, alone and together, for every specifier.  The laws say *)
(* from the numbers alone which formats are refused, which calls are, and  *)
(* how long the text of an honoured field is; every call is emitted.       *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANT Deep

VARIABLES spec, call
vars == <<spec, call>>

I(n) == [t |-> "int", neg |-> n < 0, m |-> NFromInt(IF n < 0 THEN -n ELSE n)]
SI(t, neg, m) == [t |-> t, neg |-> neg, m |-> m]
TwoHalf == [t |-> "double", k |-> "fin", neg |-> TRUE, c |-> NMul(<<5>>, NPow(2, 50)), q |-> -51]
Word == <<97, 98, 99>>
ArgOf(c) == CASE c \in IntSpecs -> I(42)
              [] c \in FloatSpecs -> TwoHalf
              [] c = 99 -> [t |-> "char", v |-> 120]
              [] c \in {116, 84} -> [t |-> "ld", e |-> "", y |-> 2024, mo |-> 2, d |-> 29]
              [] c = 112 -> [t |-> "null", prim |-> 0]
              [] OTHER -> [t |-> "str", s |-> Word]
Specs == {100, 105, 117, 111, 120, 88, 102, 70, 101, 69, 103, 71, 97, 65, 99, 115, 83, 116, 84, 112}

\* a field: nothing, a number written down, or an argument
No == [k |-> "no"]
W(m) == [k |-> "num", m |-> m, z |-> 0]
Z(m, z) == [k |-> "num", m |-> m, z |-> z]           \* with z zeros in front (precisions only)
A(a) == [k |-> "arg", a |-> a]
L == NFromInt(LIMIT)
Written == {L, NAdd(L, <<1>>), NAdd(L, L), NSub(TwoTo31, <<1>>), TwoTo31, NAdd(TwoTo32, <<5>>), NPow(10, 20)}
           \cup (IF Deep THEN {NSub(L, <<1>>), NAdd(TwoTo31, <<1>>), NSub(TwoTo32, <<1>>), TwoTo32, NAdd(TwoTo64, <<1>>), NPow(10, 9), NPow(10, 10)} ELSE {})
Given == {I(LIMIT), I(LIMIT + 1), I(-LIMIT), I(-LIMIT - 1), I(2147483647), I(-2147483647), SI("int", TRUE, TwoTo31), SI("long", FALSE, NAdd(TwoTo32, <<7>>)),
          SI("long", FALSE, TwoTo31), SI("bigint", FALSE, NAdd(TwoTo64, L)), SI("bigint", FALSE, NAdd(NAdd(TwoTo64, L), <<1>>))}
         \cup (IF Deep THEN {I(0), I(-1), I(3), I(LIMIT - 1), SI("long", TRUE, NAdd(TwoTo32, <<7>>)), SI("short", TRUE, NFromInt(32768)),
                             [t |-> "char", v |-> 65535], [t |-> "str", s |-> <<54, 53, 53, 51, 55>>]} ELSE {})
Fields == {<<W(m), No>> : m \in Written} \cup {<<A(z), No>> : z \in Given}
          \cup {<<No, W(m)>> : m \in Written} \cup {<<No, A(z)>> : z \in Given}
          \cup {<<No, Z(L, 2)>>, <<No, Z(NAdd(L, <<1>>), 9)>>, <<No, Z(<<3>>, 12)>>}
          \cup {<<W(L), W(<<3>>)>>, <<W(<<9>>), W(L)>>, <<W(L), W(L)>>, <<W(<<9>>), W(NAdd(L, <<1>>))>>, <<W(NAdd(L, <<1>>)), W(<<3>>)>>,
                <<A(I(9)), A(I(LIMIT + 1))>>, <<A(I(LIMIT + 1)), A(I(3))>>, <<A(I(-LIMIT)), A(I(-LIMIT - 1))>>, <<A(I(-LIMIT - 1)), A(I(-1))>>,
                <<W(L), A(I(LIMIT + 1))>>, <<A(I(LIMIT + 1)), W(L)>>}

Value(f) == CASE f.k = "num" -> [neg |-> FALSE, m |-> f.m]
              [] f.k = "arg" -> LET r == AsInt(f.a) IN [neg |-> r.v < 0, m |-> IF r.v < 0 THEN NAdd(NFromInt(-(r.v + 1)), <<1>>) ELSE NFromInt(r.v)]
Over(f) == f.k # "no" /\ NCmp(Value(f).m, L) > 0
TooWide(w) == Over(w)
TooPrecise(p) == Over(p) /\ ~Value(p).neg                \* a negative precision counts as none
Size(f) == NToInt(Value(f).m)

FieldText(f) == CASE f.k = "no" -> <<>> [] f.k = "arg" -> <<STAR>> [] f.k = "num" -> Rep(ZERO, f.z) \o DigitText(NDigits(f.m, 10))
Format(c, w, p) == <<97, PCT>> \o FieldText(w) \o (IF p.k = "no" THEN <<>> ELSE <<DOT>> \o FieldText(p)) \o <<c, 98>>
ArgsOf(c, w, p) == (IF w.k = "arg" THEN <<w.a>> ELSE <<>>) \o (IF p.k = "arg" THEN <<p.a>> ELSE <<>>) \o <<ArgOf(c)>>

None == <<>>
Init == spec \in Specs /\ call = None
Next == call = None /\ call' \in Fields /\ UNCHANGED spec
Spec == Init /\ [][Next]_vars

\* length of the body under a precision p, where it does not depend on anything else
BodyLen(c, p) ==
  CASE c \in {100, 105, 117, 111, 120, 88} -> p
    [] c \in {102, 70} -> p + 3                          \* -2.
    [] c \in {101, 69} -> p + 7                          \* -2. e+00
    [] c \in {97, 65} -> p + 8                           \* -0x1. p+1
    [] c \in {115, 83} -> Min2(p, 3)
    [] OTHER -> 0
Decided ==
  call # None =>
    LET w == call[1]  p == call[2]
        f == Format(spec, w, p)
        r == Exec(f, ArgsOf(spec, w, p))
        compile == (w.k = "num" /\ Over(w)) \/ (p.k = "num" /\ Over(p))
        atCall == (w.k = "arg" /\ TooWide(w)) \/ (p.k = "arg" /\ TooPrecise(p))
    IN /\ (compile <=> r.st = "syntax")
       /\ (~compile => (atCall <=> r.st = "lib"))
       /\ (r.st = "lib" => r.out = <<97>>)
       /\ (r.st = "done" =>
             LET n == Len(r.out) - 2
             IN /\ (w.k # "no" => n >= Size(w))
                /\ (w.k # "no" /\ p.k = "no" /\ Size(w) > 100 => n = Size(w))
                /\ (w.k # "no" /\ Value(w).neg => r.out[2] # SP)
                /\ (p.k # "no" /\ ~Value(p).neg /\ BodyLen(spec, Size(p)) > 0 =>
                      n = Max2(BodyLen(spec, Size(p)), IF w.k = "no" THEN 0 ELSE Size(w))))
Emitted ==
  call # None =>
    LET f == Format(spec, call[1], call[2])
        as == ArgsOf(spec, call[1], call[2])
        r == Exec(f, as)
    IN PrintT(ToJson([f |-> f, a |-> as, x |-> [st |-> r.st, s |-> r.out]]))
=============================================================================
