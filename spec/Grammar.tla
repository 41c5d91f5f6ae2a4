------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The format language  %[flags][width][.precision]specifier[{pattern}]    *)
(* as a deterministic machine that reads one code unit per step.           *)
(*                                                                         *)
(* GStep is the transition function, GEnd the verdict at the end of the    *)
(* string.  Parse(f) runs the machine over the whole string.  The program  *)
(* produced is a sequence of items: a literal [k |-> "lit", a, b] is the   *)
(* slice a..b of the format string; a directive is [k |-> "dir", fl, w, p, *)
(* c, pat] with fl the set of flags, w and p a number, UNSET or ARG, c the *)
(* specifier and pat the date pattern (<<>> for none).                     *)
(***************************************************************************)
EXTENDS Text

UNSET == -1          \* no width / precision given
ARG   == -2          \* '*'
LIMIT == 65536       \* largest width and precision
OVER  == 65537       \* stands for every larger number

FlagUnits == {MINUS, HASH, PLUS, SP, ZERO}

\*                 d    i    u    o    x    X   f    F   e    E   g    G   a   A   c   s    S   t    T   n    p    %
SpecifierUnits == {100, 105, 117, 111, 120, 88, 102, 70, 101, 69, 103, 71, 97, 65, 99, 115, 83, 116, 84, 110, 112, 37}
DateUnits == {116, 84}

AddDigit(n, c) == IF n = OVER THEN OVER
                  ELSE LET v == n * 10 + (c - 48) IN IF v > LIMIT THEN OVER ELSE v

(* ---------------- date patterns ---------------- *)
\* letters of the pattern language used here, with the run lengths that are legal
LetterCounts(c) ==
  CASE c \in {117, 121} -> 1..19                      \* u y
    [] c \in {77, 76, 81, 71} -> 1..5                 \* M L Q G
    [] c \in {100, 72, 104, 75, 107, 109, 115} -> 1..2 \* d H h K k m s
    [] c = 68 -> 1..3                                 \* D
    [] c = 83 -> 1..9                                 \* S
    [] c \in {110, 65, 78, 103} -> 1..19              \* n A N g
    [] c = 97 -> {1}                                  \* a
    [] c = 69 -> 1..5                                 \* E
    [] c \in {88, 120} -> 1..5                        \* X x
    [] c = 90 -> 1..5                                 \* Z
    [] c = 86 -> {2}                                  \* V
    [] c = 79 -> {1, 4}                               \* O
    [] OTHER -> {}
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)

(* Tokens of a pattern: [k |-> "let", c, n] a run of letters,              *)
(* [k |-> "txt", s] literal text, [k |-> "opt"] / [k |-> "end"] for [ ].   *)
PatStart == [toks |-> <<>>, m |-> "out", buf |-> <<>>, c |-> 0, n |-> 0, depth |-> 0, bad |-> FALSE]

PFlush(s) ==      \* finish a run of letters
  IF s.n = 0 THEN s
  ELSE [s EXCEPT !.toks = Append(@, [k |-> "let", c |-> s.c, n |-> s.n]), !.n = 0,
                 !.bad = @ \/ ~(s.n \in LetterCounts(s.c))]
POut(s0, c) ==    \* outside quotes
  IF IsLetter(c)
  THEN IF s0.n > 0 /\ s0.c = c THEN [s0 EXCEPT !.n = @ + 1]
       ELSE [PFlush(s0) EXCEPT !.c = c, !.n = 1]
  ELSE LET s == PFlush(s0) IN
       CASE c = QUOTE -> [s EXCEPT !.m = "in", !.buf = <<>>]
         [] c = 91 -> [s EXCEPT !.toks = Append(@, [k |-> "opt"]), !.depth = @ + 1]
         [] c = 93 -> IF s.depth = 0 THEN [s EXCEPT !.bad = TRUE]
                      ELSE [s EXCEPT !.toks = Append(@, [k |-> "end"]), !.depth = @ - 1]
         [] c \in {LBRACE, RBRACE, HASH} -> [s EXCEPT !.bad = TRUE]
         [] OTHER -> [s EXCEPT !.toks = Append(@, [k |-> "txt", s |-> <<c>>])]
PStep(s, c) ==
  CASE s.m = "out" -> POut(s, c)
    [] s.m = "in"  -> IF c = QUOTE THEN [s EXCEPT !.m = "q"] ELSE [s EXCEPT !.buf = Append(@, c)]
    [] s.m = "q"   ->             \* a quote was read inside quotes: doubled or closing
         IF c = QUOTE THEN [s EXCEPT !.m = "in", !.buf = Append(@, QUOTE)]
         ELSE POut([s EXCEPT !.m = "out", !.toks = Append(@, [k |-> "txt",
                      s |-> IF s.buf = <<>> THEN <<QUOTE>> ELSE s.buf])], c)
PatTokens(p) ==
  LET s == PFlush(FoldLeft(PStep, PatStart, p))
  IN CASE s.m = "in" -> [bad |-> TRUE, toks |-> <<>>]
       [] s.m = "q"  -> [bad |-> s.bad, toks |-> Append(s.toks,
                           [k |-> "txt", s |-> IF s.buf = <<>> THEN <<QUOTE>> ELSE s.buf])]
       [] OTHER -> [bad |-> s.bad, toks |-> s.toks]

(* ---------------- the machine ---------------- *)
GStart == [ph |-> "text", i |-> 1, ls |-> 1, items |-> <<>>, err |-> FALSE,
           fl |-> {}, w |-> UNSET, p |-> UNSET, c |-> 0, pat |-> <<>>, inq |-> FALSE, pend |-> FALSE]

GErr(s) == [s EXCEPT !.err = TRUE, !.ph = "err"]

AddLit(s, a, b) == IF a > b THEN s ELSE [s EXCEPT !.items = Append(@, [k |-> "lit", a |-> a, b |-> b])]

\* a complete directive; the text that follows starts at unit `next`
Emit(s, next) ==
  IF s.w = OVER \/ s.p = OVER THEN GErr(s)
  ELSE [s EXCEPT !.items = Append(@, [k |-> "dir", fl |-> s.fl, w |-> s.w, p |-> s.p,
                                      c |-> s.c, pat |-> s.pat]),
                 !.ph = "text", !.ls = next]

GText(s, c) == IF c = PCT THEN [AddLit(s, s.ls, s.i - 1) EXCEPT !.ph = "pct"] ELSE s

GSpec(s, c) ==
  IF ~(c \in SpecifierUnits) THEN GErr(s)
  ELSE IF c \in DateUnits THEN [s EXCEPT !.c = c, !.ph = "date"]
  ELSE Emit([s EXCEPT !.c = c], s.i + 1)

GDot(s, c) == IF c = DOT THEN [s EXCEPT !.ph = "prec"] ELSE GSpec(s, c)

GWidth(s, c) == CASE c = STAR -> [s EXCEPT !.w = ARG, !.ph = "dot"]
                  [] IsDigit(c) -> [s EXCEPT !.w = AddDigit(0, c), !.ph = "wdig"]
                  [] OTHER -> GDot(s, c)

GFlags(s, c) == IF c \in FlagUnits
                THEN IF c \in s.fl THEN GErr(s) ELSE [s EXCEPT !.fl = @ \cup {c}, !.ph = "flags"]
                ELSE GWidth(s, c)

GRead(s, c) ==
  CASE s.ph = "text" -> GText(s, c)
    [] s.ph = "pct" ->
         IF c = PCT THEN [AddLit(s, s.i, s.i) EXCEPT !.ph = "text", !.ls = s.i + 1]
         ELSE GFlags([s EXCEPT !.fl = {}, !.w = UNSET, !.p = UNSET, !.pat = <<>>,
                               !.inq = FALSE, !.pend = FALSE], c)
    [] s.ph = "flags" -> GFlags(s, c)
    [] s.ph = "wdig" -> IF IsDigit(c) THEN [s EXCEPT !.w = AddDigit(@, c)] ELSE GDot(s, c)
    [] s.ph = "dot" -> GDot(s, c)
    [] s.ph = "prec" -> CASE c = STAR -> [s EXCEPT !.p = ARG, !.ph = "spec"]
                          [] IsDigit(c) -> [s EXCEPT !.p = AddDigit(0, c), !.ph = "pdig"]
                          [] OTHER -> GSpec([s EXCEPT !.p = 0], c)
    [] s.ph = "pdig" -> IF IsDigit(c) THEN [s EXCEPT !.p = AddDigit(@, c)] ELSE GSpec(s, c)
    [] s.ph = "spec" -> GSpec(s, c)
    [] s.ph = "date" -> IF c = LBRACE THEN [s EXCEPT !.ph = "pat"]
                        ELSE LET t == Emit(s, s.i) IN IF t.err THEN t ELSE GText(t, c)
    [] s.ph = "pat" ->
         IF c = QUOTE
         THEN IF s.pend THEN [s EXCEPT !.pend = FALSE, !.pat = Append(@, c)]
              ELSE [s EXCEPT !.pend = TRUE, !.pat = Append(@, c)]
         ELSE LET inq == IF s.pend THEN ~s.inq ELSE s.inq
              IN IF c = RBRACE /\ ~inq
                 THEN IF s.pat = <<>> \/ PatTokens(s.pat).bad THEN GErr(s) ELSE Emit(s, s.i + 1)
                 ELSE [s EXCEPT !.pend = FALSE, !.inq = inq, !.pat = Append(@, c)]
    [] s.ph = "err" -> s

GStep(s, c) == LET t == GRead(s, c) IN [t EXCEPT !.i = @ + 1]

\* end of the format string: the final state, an error or a program
GEnd(s) == CASE s.ph = "text" -> AddLit(s, s.ls, s.i - 1)
             [] s.ph = "date" -> Emit(s, s.i)
             [] OTHER -> GErr(s)

\* whether the string read so far is a complete format string
GAccepting(s) == ~GEnd(s).err

Parse(f) == LET s == GEnd(FoldLeft(GStep, GStart, f))
            IN [err |-> s.err, prog |-> s.items]
=============================================================================
