-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text is a sequence of UTF-16 code units (naturals below 65536), the way *)
(* Java sees it.  Character constants used by the other modules are here.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

SP == 32   PCT == 37  QUOTE == 39  STAR == 42  PLUS == 43  MINUS == 45  DOT == 46
HASH == 35 ZERO == 48 NINE == 57   ATSIGN == 64  LBRACE == 123  RBRACE == 125

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* n copies of the code unit c (none when n <= 0)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> c]

IsDigit(c) == c >= 48 /\ c <= 57
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d        \* 0-9, a-f

\* ASCII-only upper-casing, unit by unit
UpperUnit(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(s) == [i \in 1..Len(s) |-> UpperUnit(s[i])]

\* the first n units
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)

\* concatenation of a sequence of texts
RECURSIVE JoinRange(_, _, _)
JoinRange(ss, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN ss[i]
  ELSE LET m == (i + j) \div 2 IN JoinRange(ss, i, m) \o JoinRange(ss, m + 1, j)
Join(ss) == JoinRange(ss, 1, Len(ss))

\* decimal text of a (32-bit) integer, |i| < 2^31
RECURSIVE NatText(_)
NatText(i) == IF i < 10 THEN <<48 + i>> ELSE NatText(i \div 10) \o <<48 + (i % 10)>>
IntText(i) == IF i < 0 THEN <<MINUS>> \o NatText(-i) ELSE NatText(i)
\* decimal text padded with zeros to at least w digits
NatTextW(i, w) == LET t == NatText(i) IN Rep(ZERO, w - Len(t)) \o t

\* well-known words
T_null     == <<110,117,108,108>>
T_true     == <<116,114,117,101>>
T_false    == <<102,97,108,115,101>>
T_NaN      == <<78,97,78>>
T_Infinity == <<73,110,102,105,110,105,116,121>>
=============================================================================
