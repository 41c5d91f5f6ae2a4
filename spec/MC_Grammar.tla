----------------------------- MODULE MC_Grammar -----------------------------
(***************************************************************************)
(* Every string over a small alphabet, read one unit at a time by the      *)
(* grammar machine.  The machine's verdict is compared with a declarative  *)
(* definition of the language, the program must account for every unit of  *)
(* the string, and every string is emitted with its specified outcome for  *)
(* a fixed argument list.                                                  *)
(***************************************************************************)
EXTENDS Printf, Json

CONSTANTS Alphabet,      \* set of code units
          MaxLen,
          One            \* TRUE: start with %, and stop after one directive

VARIABLES str, m
vars == <<str, m>>

Iv(n) == [t |-> "int", neg |-> n < 0, m |-> NFromInt(IF n < 0 THEN -n ELSE n), prim |-> 1, id |-> <<>>,
           offs |-> 0, offm |-> 0]
Args == <<Iv(3), Iv(2), Iv(77), Iv(-4), Iv(65), Iv(1), Iv(12), Iv(5)>>

Init == /\ str = (IF One THEN <<PCT>> ELSE <<>>)
        /\ m = (IF One THEN GStep(GStart, PCT) ELSE GStart)
Next == /\ Len(str) < MaxLen /\ ~m.err /\ (One => m.ph # "text")
        /\ \E c \in Alphabet : str' = Append(str, c) /\ m' = GStep(m, c)
Spec == Init /\ [][Next]_vars

(* ---------------- the language, declaratively ---------------- *)
Digits(s) == s # <<>> /\ AllDigits(s)
SmallNumber(s) == NCmp(NFromDigits([i \in 1..Len(s) |-> s[i] - 48]), NFromInt(LIMIT)) <= 0
FlagPart(s) == /\ \A i \in 1..Len(s) : s[i] \in FlagUnits
               /\ \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
WidthPart(s) == s = <<>> \/ s = <<STAR>> \/ (Digits(s) /\ s[1] # ZERO /\ SmallNumber(s))
PrecPart(s) == s = <<>> \/ (s[1] = DOT /\ LET n == Tail(s) IN n = <<>> \/ n = <<STAR>> \/ (Digits(n) /\ SmallNumber(n)))

Quotes(s) == Cardinality({i \in 1..Len(s) : s[i] = QUOTE})
\* a pattern: braces only inside quotes (an even number of quotes before a brace means outside)
PatternPart(s) == /\ s # <<>>
                  /\ Quotes(s) % 2 = 0
                  /\ \A i \in 1..Len(s) : s[i] = RBRACE => Quotes(SubSeq(s, 1, i)) % 2 = 1
                  /\ ~PatTokens(s).bad
\* s, from a % to its end, is one directive
Directive(s) ==
  /\ Len(s) >= 2 /\ s[1] = PCT
  /\ \E a \in 1..(Len(s) - 1) : \E b \in a..(Len(s) - 1) : \E c \in b..(Len(s) - 1) :
       /\ FlagPart(SubSeq(s, 2, a)) /\ WidthPart(SubSeq(s, a + 1, b)) /\ PrecPart(SubSeq(s, b + 1, c))
       /\ s[c + 1] \in SpecifierUnits
       /\ \/ c + 1 = Len(s)
          \/ /\ s[c + 1] \in DateUnits
             /\ Len(s) >= c + 4
             /\ s[c + 2] = LBRACE /\ s[Len(s)] = RBRACE
             /\ PatternPart(SubSeq(s, c + 3, Len(s) - 1))
RECURSIVE IsFormat(_, _)
IsFormat(s, i) ==
  \/ i > Len(s)
  \/ s[i] # PCT /\ IsFormat(s, i + 1)
  \/ s[i] = PCT /\ i < Len(s) /\ s[i + 1] = PCT /\ IsFormat(s, i + 2)
  \/ s[i] = PCT /\ \E j \in (i + 1)..Len(s) :
       /\ ~(j = i + 1 /\ s[j] = PCT)
       /\ Directive(SubSeq(s, i, j))
       \* a date specifier directly followed by { is the start of a pattern
       /\ (s[j] \in DateUnits => j = Len(s) \/ s[j + 1] # LBRACE)
       /\ IsFormat(s, j + 1)

Verdict == GAccepting(m) <=> IsFormat(str, 1)

\* literals and directives cover the string in order
Covered == ~m.err =>
  LET lits == SelectSeq(m.items, LAMBDA it : it.k = "lit")
  IN \A i \in 1..Len(lits) : /\ 1 <= lits[i].a /\ lits[i].a <= lits[i].b /\ lits[i].b <= Len(str)
                             /\ i > 1 => lits[i - 1].b < lits[i].a

\* the machine and the one-shot parse agree, and the outcome is emitted
Emitted ==
  LET r == Exec(str, Args)
  IN /\ (r.st = "syntax") = ~GAccepting(m)
     /\ PrintT(ToJson([f |-> str, x |-> [st |-> r.st, s |-> r.out]]))
=============================================================================
