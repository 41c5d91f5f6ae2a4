------------------------------- MODULE MC_Sink -------------------------------
(***************************************************************************)
(* A call that writes to a target which may fail: the target takes the     *)
(* units of each item in order until it is full and then raises an I/O     *)
(* error.  Arguments may be missing, refused, or throw when asked for      *)
(* their text.  In every case the target holds a prefix of the text: the   *)
(* whole text of the items before the failing one, or exactly as many      *)
(* units as it had room for.                                               *)
(***************************************************************************)
EXTENDS Printf, Json

CONSTANTS MaxItems, Items, Rooms

VARIABLES fmt, args, prog, x, room
vars == <<fmt, args, prog, x, room>>

V(n) == [t |-> "int", neg |-> n < 0, m |-> NFromInt(IF n < 0 THEN -n ELSE n), prim |-> 0, id |-> <<>>]
Boom == [t |-> "boom"]                     \* throws when asked for its text
Asked == [t |-> "obj", s |-> <<98>>, str |-> <<98>>, prim |-> 0, id |-> <<>>]
Str(s) == [t |-> "str", s |-> s]

ItemList == << <<PCT, 100>>, <<97, 98>>, <<PCT, 55, 115>>, <<PCT, MINUS, STAR, 120>>, <<PCT, PCT>>,
               <<PCT, 46, 51, 102>>, <<PCT, 48, 57, 100>>, <<PCT, 83>> >>
ArgList == << <<>>, <<V(42)>>, <<Boom>>, <<V(-7), V(5), Boom>>, <<Str(<<120, 121>>), V(9), V(70001)>>,
              <<V(5), V(300), V(-6)>>, <<V(6), Boom, V(1)>>, <<V(3), Str(<<>>), V(-123456)>> >>

Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Init == /\ \E w \in Seqs(1..Items, MaxItems) : fmt = Join([i \in 1..Len(w) |-> ItemList[w[i]]])
        /\ args = <<>> /\ prog = Parse(fmt).prog /\ x = [XStart EXCEPT !.st = "start"] /\ room = -1

\* a directive whose value throws when it is asked for its text
Value(it) == LET r == Resolve(it, args, x.ac) IN IF r.e # "" \/ r.next > Len(args) THEN [t |-> "none"] ELSE args[r.next]
Throws(it) == it.k # "lit" /\ it.c \in {115, 83} /\ Value(it).t = "boom"
Plain(as) == [i \in 1..Len(as) |-> IF as[i].t = "boom" THEN Asked ELSE as[i]]
ItemOf == prog[x.pc]

Start == /\ x.st = "start"
         /\ \E a \in 1..Len(ArgList), r \in Rooms : args' = ArgList[a] /\ room' = r
         /\ x' = XStart /\ UNCHANGED <<fmt, prog>>
Item == /\ x.st = "run" /\ x.pc <= Len(prog)
        /\ x' = IF Throws(ItemOf) THEN XFail(x, "user")
                ELSE LET y == XStep(fmt, prog, Plain(args), x)
                     IN IF Len(y.out) > room THEN [y EXCEPT !.out = Take(y.out, room), !.st = "io"] ELSE y
        /\ UNCHANGED <<fmt, args, prog, room>>
Finish == /\ x.st = "run" /\ x.pc > Len(prog)
          /\ x' = [x EXCEPT !.st = "done"] /\ UNCHANGED <<fmt, args, prog, room>>
Next == Start \/ Item \/ Finish
Spec == Init /\ [][Next]_vars

Ended == x.st \in {"done", "lib", "io", "user"}
\* the same call on a target that never fails
Free == LET step(y, i) == IF y.st # "run" THEN y
                          ELSE LET it == prog[y.pc]
                                   r == IF it.k = "lit" THEN [e |-> "lit"] ELSE Resolve(it, Plain(args), y.ac)
                               IN IF it.k # "lit" /\ it.c \in {115, 83} /\ r.e = "" /\ r.next <= Len(args) /\ args[r.next].t = "boom"
                                  THEN XFail(y, "user") ELSE XStep(fmt, prog, Plain(args), y)
        IN FoldLeftDomain(step, XStart, prog)
NoMore == room >= 0 => Len(x.out) <= room
Prefix == Ended => x.out = Take(Free.out, room)
IOExactly == Ended => ((x.st = "io") <=> Len(Free.out) > room)
SameEnd == Ended /\ x.st # "io" => x.st = (IF Free.st = "run" THEN "done" ELSE Free.st) /\ x.out = Free.out
Emitted == Ended => PrintT(ToJson([f |-> fmt, a |-> args, k |-> room, x |-> [st |-> x.st, s |-> x.out],
                                   y |-> [st |-> IF Free.st = "run" THEN "done" ELSE Free.st, s |-> Free.out]]))
=============================================================================
