------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* %p over histories (P20).  The caller holds objects, some of them equal  *)
(* but distinct, puts them into argument lists in every way the interface  *)
(* offers, copies lists through their values, and calls.  A call names the *)
(* very objects that were put, and refuses values put as primitives.       *)
(*                                                                         *)
(* Objects are numbered, 0 is null; the text of an object is known to the  *)
(* implementation only, so a call yields the objects shown and the width   *)
(* each is padded to.                                                      *)
(*                                                                         *)
(* Fault "intern" keeps the first of equal objects, "box" forgets that a   *)
(* value was a primitive; both must violate an invariant.                  *)
(***************************************************************************)
EXTENDS Text, Json, Randomization, TLC

CONSTANTS Objects, Lists, Depth, Random, Fault

VARIABLES kinds, truth, lists, hist
vars == <<kinds, truth, lists, hist>>

Boxes == {"bool", "char", "byte", "short", "int", "long", "float", "double"}
Typed == Boxes \cup {"bigint", "bigdec", "string", "sb", "date"}           \* have a method of their own
Kinds == Typed \cup {"object", "equal", "ints", "chars", "list", "atomic", "udate", "enum"}

Ent(o, prim) == [o |-> o, prim |-> prim]
\* the machine's entry for an entry: itself, unless faulty
Store(en) == CASE Fault = "intern" /\ en.o # 0 ->
                    [en EXCEPT !.o = CHOOSE j \in 1..Objects : kinds[j] = kinds[en.o] /\ \A k \in 1..(j - 1) : kinds[k] # kinds[en.o]]
               [] Fault = "box" -> [en EXCEPT !.prim = FALSE]
               [] OTHER -> en

\* widths: positive right, negative left
Directives == <<0, 5, -40, 60, -3>>
DirText(w) == <<37>> \o (IF w < 0 THEN <<45>> ELSE <<>>) \o (IF w = 0 THEN <<>> ELSE NatText(IF w < 0 THEN -w ELSE w)) \o <<112, 124>>
Run(es, ds) ==
  LET step(r, i) == IF r.st # "done" THEN r
                    ELSE IF i > Len(es) THEN [r EXCEPT !.st = "lib"]
                    ELSE IF es[i].prim THEN [r EXCEPT !.st = "lib"]
                    ELSE [r EXCEPT !.segs = Append(@, [o |-> es[i].o, w |-> Directives[ds[i]]])]
  IN FoldLeftDomain(step, [st |-> "done", segs |-> <<>>], ds)

Add(rec) == hist' = Append(hist, rec @@ [op |-> "", l |-> 0, o |-> 0, how |-> "", os |-> <<>>, m |-> 0, f |-> <<>>, x |-> [st |-> "", segs |-> <<>>]])

Put(l, o, how) ==
  /\ (how = "prim" => o # 0 /\ kinds[o] \in Boxes)
  /\ (how = "typed" /\ o # 0 => kinds[o] \in Typed)
  /\ LET en == Ent(o, how = "prim")
     IN truth' = [truth EXCEPT ![l] = Append(@, en)] /\ lists' = [lists EXCEPT ![l] = Append(@, Store(en))]
  /\ Add([op |-> "put", l |-> l, o |-> o, how |-> how])
  /\ UNCHANGED kinds
\* a list made from an array or a collection
From(l, os, how) ==
  /\ LET es == [i \in 1..Len(os) |-> Ent(os[i], FALSE)]
     IN truth' = [truth EXCEPT ![l] = es] /\ lists' = [lists EXCEPT ![l] = [i \in 1..Len(es) |-> Store(es[i])]]
  /\ Add([op |-> "from", l |-> l, os |-> os, how |-> how])
  /\ UNCHANGED kinds
\* a list made from the values of another
Copy(l, m) ==
  /\ \A i \in 1..Len(truth[m]) : ~truth[m][i].prim
  /\ truth' = [truth EXCEPT ![l] = truth[m]] /\ lists' = [lists EXCEPT ![l] = lists[m]]
  /\ Add([op |-> "copy", l |-> l, m |-> m])
  /\ UNCHANGED kinds
Call(l, ds) ==
  /\ Add([op |-> "call", l |-> l, f |-> Join([i \in 1..Len(ds) |-> DirText(Directives[ds[i]])]), os |-> ds, x |-> Run(lists[l], ds)])
  /\ UNCHANGED <<kinds, truth, lists>>

Hows == {"put", "typed", "prim"}
Calls == {<<1>>, <<1, 1>>, <<3, 4>>}
AllNext == \/ Len(hist) < Depth - 1 /\ \E o \in 0..Objects, how \in Hows : Put(1, o, how)
           \/ Len(hist) < Depth - 1 /\ \E os \in {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<0, 1>>}, how \in {"array", "list", "iterable"} : From(1, os, how)
           \/ Len(hist) < Depth - 1 /\ Copy(1, 1)
           \/ \E ds \in Calls : Call(1, ds)
R(S) == RandomElement(S)
RandomNext ==
  \E k \in {R(1..10)}, l \in {R(1..Lists)}, m \in {R(1..Lists)}, a \in {R(0..Objects)}, b \in {R(0..Objects)}, c \in {R(0..Objects)},
     how \in {R(Hows)}, from \in {R({"array", "list", "iterable"})}, d \in {R([1..3 -> 1..Len(Directives)])}, n \in {R(1..3)} :
    CASE k <= 4 -> IF ENABLED Put(l, a, how) THEN Put(l, a, how) ELSE Put(l, a, "put")
      [] k = 5 -> From(l, SubSeq(<<a, b, c>>, 1, n), from)
      [] k = 6 -> IF ENABLED Copy(l, m) THEN Copy(l, m) ELSE Call(m, SubSeq(d, 1, n))
      [] OTHER -> Call(l, SubSeq(d, 1, n))

Init == /\ kinds \in (IF Random THEN [1..Objects -> Kinds] ELSE {[i \in 1..Objects |-> k] : k \in Kinds})
        /\ truth = [l \in 1..Lists |-> <<>>] /\ lists = truth /\ hist = <<>>
Next == Len(hist) < Depth /\ IF Random THEN RandomNext ELSE AllNext
Spec == Init /\ [][Next]_vars

Latest == hist[Len(hist)]
\* the objects shown are the very ones that were put there
Same == hist # <<>> /\ Latest.op = "call" =>
          \A i \in 1..Len(Latest.x.segs) : Latest.x.segs[i].o = truth[Latest.l][i].o
\* a call is refused exactly for a missing argument or a primitive
Refuses == hist # <<>> /\ Latest.op = "call" =>
             ((Latest.x.st = "lib") <=> \E i \in 1..Len(Latest.os) : i > Len(truth[Latest.l]) \/ truth[Latest.l][i].prim)
Prefix == hist # <<>> /\ Latest.op = "call" /\ Latest.x.st = "lib" =>
            LET n == Len(Latest.x.segs) + 1 IN n > Len(truth[Latest.l]) \/ truth[Latest.l][n].prim
Emitted == (Len(hist) = Depth /\ (Random \/ Latest.op = "call")) => PrintT(ToJson([k |-> kinds, n |-> Lists, h |-> hist]))
=============================================================================
