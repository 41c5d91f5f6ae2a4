------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Tuning options of a formatter.  A formatter is identified by its slot;  *)
(* an option either answers the formatter itself (the setting is already   *)
(* in force), a further formatter, or a refusal.  The text of a call is a  *)
(* function of the format and the arguments only, so the calls below carry *)
(* one specified outcome, whichever formatter runs them.                   *)
(***************************************************************************)
EXTENDS Printf, Json

CONSTANTS Depth

VARIABLES fs, hist
vars == <<fs, hist>>

DEFAULT == 0
Caps == {-2147483647, -1, 0, 1, 3, 50, 70000}

\* settings of a formatter: is the per-thread cache on, which capacity was asked for
Init == fs = <<[cache |-> FALSE, cap |-> DEFAULT]>> /\ hist = <<>>

Answer(o, i, n, r) == hist' = Append(hist, [op |-> o, i |-> i, n |-> n, r |-> r])
New(s) == fs' = Append(fs, s)
Enable(i) == IF fs[i].cache THEN Answer("cache", i, 0, "same") /\ UNCHANGED fs
             ELSE Answer("cache", i, 0, "new") /\ New([fs[i] EXCEPT !.cache = TRUE])
SetCap(i, n) == IF n <= 0 THEN Answer("cap", i, n, "refused") /\ UNCHANGED fs
                ELSE IF fs[i].cap = n THEN Answer("cap", i, n, "same") /\ UNCHANGED fs
                ELSE Answer("cap", i, n, "new") /\ New([fs[i] EXCEPT !.cap = n])
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(fs) : Enable(i) \/ \E n \in Caps : SetCap(i, n)
Spec == Init /\ [][Next]_vars

\* an option never touches the formatter it was asked of, nor the others
Stable == [][\A i \in 1..Len(fs) : fs'[i] = fs[i]]_vars
\* settings come only from requests: the original keeps its defaults
Original == fs[1] = [cache |-> FALSE, cap |-> DEFAULT]
Asked(h, n) == \E k \in 1..Len(h) : h[k].op = "cap" /\ h[k].n = n /\ h[k].r = "new"
OnlyAsked == \A i \in 1..Len(fs) : fs[i].cap = DEFAULT \/ Asked(hist, fs[i].cap)
OnePerNew == Len(fs) = 1 + Cardinality({k \in 1..Len(hist) : hist[k].r = "new"})

\* ---------- calls with their specified outcome ----------
I(n) == [t |-> "int", neg |-> n < 0, m |-> NFromInt(IF n < 0 THEN -n ELSE n), prim |-> 0]
Str(s) == [t |-> "str", s |-> s]
Fmts == << <<60, PCT, 100, 124, PCT, 115, 62>>,                          \* <%d|%s>
           <<PCT, 115, 32, PCT, STAR, 100, 33>>,                         \* %s %*d!
           <<104, 105>>, <<>>,
           <<91, PCT, 54, 48, 115, PCT, PCT, PCT, 45, 55, 48, 100, 93>>, \* [%60s%%%-70d]
           <<PCT, 46, 50, 102, PCT, 88>> >>                              \* %.2f%X
ArgLists == << <<>>, <<I(7)>>, <<I(-42), Str(<<97, 98, 99>>)>>, <<Str(<<120>>), I(5), I(31)>>,
               <<I(1), I(70001)>>, <<I(3), I(40), I(-1)>>, <<Str(<<57>>), Str(<<113>>)>> >>
Calls == {<<f, a>> : f \in 1..Len(Fmts), a \in 1..Len(ArgLists)}
CallRec(c) == LET x == Exec(Fmts[c[1]], ArgLists[c[2]])
              IN [f |-> Fmts[c[1]], a |-> ArgLists[c[2]], x |-> [st |-> x.st, s |-> x.out]]
Emitted == IF hist = <<>> THEN \A c \in Calls : PrintT(ToJson(CallRec(c)))
           ELSE Len(hist) = Depth => PrintT(ToJson([h |-> hist]))
=============================================================================
