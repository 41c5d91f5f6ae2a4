------------------------------ MODULE Reenter ------------------------------
(***************************************************************************)
(* Targets that use the formatter while they are appended to.  A call      *)
(* delivers its text to its target unit by unit; at some places the target *)
(* makes another call of the same formatter: for a string, into a builder, *)
(* a failing one, or one into another such target.  Every target receives  *)
(* exactly the text of its own call, and every inner call returns its own. *)
(*                                                                         *)
(* Shared = TRUE is a faulty machine that delivers from one buffer shared  *)
(* by all calls; it must violate Own.                                      *)
(***************************************************************************)
EXTENDS Printf, Json

CONSTANTS MaxCalls, MaxDepth, Places, Shared

VARIABLES stack,    \* calls in progress: [c: number, at: units delivered, got: what the target holds]
          buf,      \* the shared buffer of the faulty machine
          n,        \* calls begun
          hist,     \* inner calls: [by, at, c, k]
          ended     \* finished calls: [c, got]
vars == <<stack, buf, n, hist, ended>>

Kinds == {"string", "builder", "fail", "target"}
\* %s<%05d>%-6s|%S.
Format == <<37, 115, 60, 37, 48, 53, 100, 62, 37, 45, 54, 115, 124, 37, 83, 46>>
B == [prim |-> 0, id |-> <<>>]
Str(s) == B @@ [t |-> "str", s |-> s]
ArgsOf(c) == << Str([i \in 1..(14 + 3 * c) |-> 96 + ((i * c) % 26) + 1]),
                B @@ [t |-> "int", neg |-> c % 2 = 0, m |-> <<c>>],
                Str(<<48 + c, 33>>), Str([i \in 1..(20 - 2 * c) |-> 97 + ((i + c) % 26)]) >>
Table == TLCEval([c \in 1..MaxCalls |-> Exec(Format, ArgsOf(c)).out])
Text(c) == Table[c]
\* without its last two arguments a call fails
Part == TLCEval([c \in 1..MaxCalls |-> Exec(Format, SubSeq(ArgsOf(c), 1, 2)).out])

Top == stack[Len(stack)]
Src(r) == IF Shared THEN buf ELSE Text(r.c)
Push(c) == [c |-> c, at |-> 0, got |-> <<>>]

Init == /\ stack = <<Push(1)>> /\ buf = Text(1) /\ n = 1 /\ hist = <<>> /\ ended = {}
Deliver == /\ stack # <<>> /\ Top.at < Len(Src(Top))
           /\ stack' = [stack EXCEPT ![Len(stack)] =
                          [@ EXCEPT !.at = @ + 1, !.got = Append(@, Src(Top)[Top.at + 1])]]
           /\ UNCHANGED <<buf, n, hist, ended>>
\* one inner call at a place at most
Free == \A i \in 1..Len(hist) : ~(hist[i].by = Top.c /\ hist[i].at = Top.at)
Inner(k) ==
  /\ stack # <<>> /\ Top.at \in Places /\ n < MaxCalls /\ Free
  /\ k = "target" => Len(stack) < MaxDepth
  /\ n' = n + 1
  /\ hist' = Append(hist, [by |-> Top.c, at |-> Top.at, c |-> n + 1, k |-> k])
  /\ buf' = IF k = "fail" THEN Part[n + 1] ELSE IF k = "builder" THEN buf ELSE Text(n + 1)
  /\ IF k = "target" THEN stack' = Append(stack, Push(n + 1)) /\ UNCHANGED ended
     ELSE stack' = stack /\ ended' = ended \cup {[c |-> n + 1, got |-> IF k = "fail" THEN <<>> ELSE Text(n + 1)]}
Return == /\ stack # <<>> /\ Top.at >= Len(Src(Top))
          /\ ended' = ended \cup {[c |-> Top.c, got |-> Top.got]}
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED <<buf, n, hist>>
Next == Deliver \/ Return \/ \E k \in Kinds : Inner(k)
Spec == Init /\ [][Next]_vars

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Failed == {hist[i].c : i \in {j \in 1..Len(hist) : hist[j].k = "fail"}}
Own == /\ \A r \in ended : r.c \notin Failed => r.got = Text(r.c)
       /\ \A i \in 1..Len(stack) : IsPrefixOf(stack[i].got, Text(stack[i].c))
Emitted == /\ (n = 1 /\ stack # <<>> /\ Top.at = 0)
                => PrintT(ToJson([f |-> Format, a |-> [c \in 1..MaxCalls |-> ArgsOf(c)], x |-> Table]))
           /\ (stack = <<>> /\ hist # <<>>) => PrintT(ToJson([h |-> hist]))
=============================================================================
