-------------------------------- MODULE Rope --------------------------------
(***************************************************************************)
(* Composite character sequences.  The abstract value of a sequence is its *)
(* string; every operation adds a new sequence (a slot) and leaves the     *)
(* existing ones alone.  A history of operations is replayed on the        *)
(* library's Seq, where every observer of every slot must agree with the   *)
(* string.                                                                 *)
(***************************************************************************)
EXTENDS Text, Json, Randomization

CONSTANTS Depth,        \* operations per history
          Many,         \* TRUE: the larger set of strings to start from
          Random        \* TRUE: one random operation per step (simulation)

VARIABLES slots, hist
vars == <<slots, hist>>

Atoms == IF Many THEN {<<>>, <<97>>, <<98, 67, 122>>, <<120, 121>>,
                       <<104,101,108,108,111,32,87,111,114,108,100,33>>,
                       <<223, 305, 107, 55357, 56832>>,
                       <<97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115>>}
         ELSE {<<>>, <<98, 67, 122>>}
Slot(s, atom) == [s |-> s, atom |-> atom]
Op(op, i, j, a, b, s) == [op |-> op, i |-> i, j |-> j, a |-> a, b |-> b, s |-> s]

\* the string an operation yields; "refused" for indices out of range
Good(s) == [ok |-> TRUE, s |-> s]
Refused == [ok |-> FALSE, s |-> <<>>]
InRange(a, b, n) == 0 <= a /\ a <= b /\ b <= n
Cut(s, a, b) == IF InRange(a, b, Len(s)) THEN Good(SubSeq(s, a + 1, b)) ELSE Refused
Times(s, n) == Join([k \in 1..n |-> s])
Apply(o, sl) ==
  CASE o.op = "wrap" -> Good(o.s)                       \* Seq.wrap(s)
    [] o.op = "array" -> Good(o.s)                      \* Seq.forArray(chars)
    [] o.op = "lazy" -> Good(o.s)                       \* Seq.lazy(action, length)
    [] o.op = "wrapFrom" -> Cut(o.s, o.a, Len(o.s))     \* Seq.wrap(s, a)
    [] o.op = "wrapCut" -> Cut(o.s, o.a, o.b)           \* Seq.wrap(s, a, b)
    [] o.op = "arrayCut" -> Cut(o.s, o.a, o.b)          \* Seq.forArray(chars, a, b - a)
    [] o.op = "rep" -> IF o.a >= 1 THEN Good(Rep(o.b, o.a)) ELSE Refused   \* Seq.repeated(c, n)
    [] o.op = "ch" -> Good(<<o.b>>)
    [] o.op = "empty" -> Good(<<>>)
    [] o.op = "concat" -> Good(sl[o.i].s \o sl[o.j].s)  \* Seq.concat(i, j)
    [] o.op = "append" -> Good(sl[o.i].s \o sl[o.j].s)
    [] o.op = "prepend" -> Good(sl[o.j].s \o sl[o.i].s)
    [] o.op = "join" -> Good(sl[o.i].s \o sl[o.j].s \o sl[o.i].s)          \* Seq.join([i, j, i])
    [] o.op = "sub" -> Cut(sl[o.i].s, o.a, o.b)
    [] o.op = "upper" -> Good(Upper(sl[o.i].s))
    [] o.op = "dup" -> Good(sl[o.i].s)
    [] o.op = "pile" -> Good(Times(sl[o.i].s, o.a))     \* appended a times to nothing
    [] o.op = "pilefront" -> Good(Times(sl[o.i].s, o.a))
    [] o.op = "comb" -> Good(Times(sl[o.i].s, o.a))     \* balanced concatenation of a copies
AtomicOp(o, sl) == CASE o.op \in {"wrap", "array", "lazy", "wrapFrom", "wrapCut", "arrayCut", "rep", "ch", "empty"} -> TRUE
                     [] o.op \in {"sub", "upper", "dup"} -> sl[o.i].atom
                     [] OTHER -> FALSE

\* ---------- which operations to try ----------
Bounds(n) == {<<a, b>> \in (-1..(n + 1)) \X (-1..(n + 1)) : TRUE}
AtomOps == {Op(k, 0, 0, 0, 0, s) : k \in {"wrap", "array", "lazy"}, s \in Atoms}
           \cup {Op("wrapFrom", 0, 0, a, 0, s) : a \in -1..3, s \in Atoms}
           \cup {Op("wrapCut", 0, 0, a, b, s) : a \in -1..3, b \in 0..4, s \in Atoms}
           \cup {Op("arrayCut", 0, 0, a, b, s) : a \in -1..3, b \in 0..4, s \in Atoms}
           \cup {Op("rep", 0, 0, n, c, <<>>) : n \in {-1, 0, 1, 2, 5}, c \in {97, 90, 233}}
           \cup {Op("ch", 0, 0, 0, c, <<>>) : c \in {98, 300}} \cup {Op("empty", 0, 0, 0, 0, <<>>)}
OpsOn(sl) ==
  LET I == 1..Len(sl)
      A == {i \in I : sl[i].atom}
  IN {Op(k, i, j, 0, 0, <<>>) : k \in {"concat", "append", "prepend"}, i \in I, j \in I}
     \cup {Op("join", i, j, 0, 0, <<>>) : i \in A, j \in A}
     \cup UNION {{Op("sub", i, 0, ab[1], ab[2], <<>>) : ab \in Bounds(Len(sl[i].s))} : i \in I}
     \cup {Op(k, i, 0, 0, 0, <<>>) : k \in {"upper", "dup"}, i \in I}
     \cup {Op(k, i, 0, 3, 0, <<>>) : k \in {"pile", "pilefront", "comb"}, i \in I}

\* one random operation, for simulation: kinds are equally likely
R(S) == RandomElement(S)
RandomOp(sl) ==
  LET I == 1..Len(sl)
      A == {i \in I : sl[i].atom}
      k == R(1..14)
      i == R(I)   j == R(I)
      s == R(Atoms)
      n == Len(sl[i].s)
      a == R(0..n)  b == R(0..n)
      ss == R({<<a, b>>, <<Min2(a, b), Max2(a, b)>>, <<Min2(a, b), Max2(a, b)>>, <<Min2(a, b), Max2(a, b)>>, <<0, b>>, <<a, n>>, <<-1, b>>, <<a, n + 1>>, <<a, a>>})
  IN CASE k = 1 -> Op(R({"wrap", "array", "lazy"}), 0, 0, 0, 0, s)
       [] k = 2 -> LET x == R(0..Len(s))  y == R(0..Len(s)) IN
                   Op(R({"wrapCut", "arrayCut"}), 0, 0, x, y, s)
       [] k = 3 -> Op("rep", 0, 0, R({1, 2, 3, 15, 16, 17, 40}), R({97, 122, 65, 48, 233, 55296}), <<>>)
       [] k \in {4, 5} -> IF Len(sl[i].s) + Len(sl[j].s) > 300 THEN Op("sub", i, 0, ss[1], ss[2], <<>>)
                          ELSE Op(R({"concat", "append", "prepend"}), i, j, 0, 0, <<>>)
       [] k = 6 -> IF A = {} THEN Op("empty", 0, 0, 0, 0, <<>>)
                   ELSE LET p == R(A)  q == R(A) IN
                        IF 2 * Len(sl[p].s) + Len(sl[q].s) > 300 THEN Op("upper", p, 0, 0, 0, <<>>) ELSE Op("join", p, q, 0, 0, <<>>)
       [] k \in 7..10 -> Op("sub", i, 0, ss[1], ss[2], <<>>)
       [] k \in {11, 12} -> Op("upper", i, 0, 0, 0, <<>>)
       [] k = 13 -> Op("dup", i, 0, 0, 0, <<>>)
       [] OTHER -> IF n > 20 THEN Op("wrapFrom", 0, 0, R(-1..3), 0, s)
                   ELSE Op(R({"pile", "pilefront", "comb"}), i, 0, R({2, 3, 7, 12}), 0, <<>>)

Init == slots = <<>> /\ hist = <<>>
Do(o) == LET r == Apply(o, slots)
         IN /\ slots' = IF r.ok THEN Append(slots, Slot(r.s, AtomicOp(o, slots))) ELSE slots
            /\ hist' = Append(hist, [o |-> o, ok |-> r.ok, s |-> r.s])
Next == /\ Len(hist) < Depth
        /\ IF Random THEN \E o \in {IF slots = <<>> THEN Op("wrap", 0, 0, 0, 0, R(Atoms)) ELSE RandomOp(slots)} : Do(o)
           ELSE \E o \in AtomOps \cup OpsOn(slots) : Do(o)
Spec == Init /\ [][Next]_vars

\* ---------- what a reader of slots may rely on ----------
Latest == hist[Len(hist)]
Lengths == hist # <<>> /\ Latest.ok =>
  /\ (Latest.o.op \in {"concat", "append", "prepend"} => Len(Latest.s) = Len(slots[Latest.o.i].s) + Len(slots[Latest.o.j].s))
  /\ (Latest.o.op = "sub" => Len(Latest.s) = Latest.o.b - Latest.o.a)
  /\ (Latest.o.op \in {"upper", "dup"} => Len(Latest.s) = Len(slots[Latest.o.i].s))
UpperIdempotent == \A i \in 1..Len(slots) : Upper(Upper(slots[i].s)) = Upper(slots[i].s)
Immutable == [][\A i \in 1..Len(slots) : slots'[i] = slots[i]]_vars
Emitted == Len(hist) = Depth => PrintT(ToJson([h |-> hist]))
=============================================================================
