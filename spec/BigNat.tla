------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size.  TLC integers have 32 bits, so a natural   *)
(* is its sequence of base-10000 limbs, least significant first, without   *)
(* a zero limb at the end (0 is the empty sequence).                       *)
(*                                                                         *)
(* The definitions below are the meaning.  The class override/BigNat.java  *)
(* evaluates the same operators with java.math.BigInteger to make TLC      *)
(* fast; MC_BigNat checks the laws once with and once without it and the   *)
(* two runs must print the same table.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

BASE == 10000

RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

\* from a machine integer i >= 0
RECURSIVE NFromInt(_)
NFromInt(i) == IF i = 0 THEN <<>> ELSE <<i % BASE>> \o NFromInt(i \div BASE)

\* to a machine integer; the caller guarantees that it fits
RECURSIVE NToInt(_)
NToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + BASE * NToInt(Tail(a))

\* -1, 0, 1
RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE NCmpAt(a, b, Len(a))

RECURSIVE NAddC(_, _, _)
NAddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
       IN <<x % BASE>> \o NAddC(IF a = <<>> THEN a ELSE Tail(a),
                                IF b = <<>> THEN b ELSE Tail(b), x \div BASE)
NAdd(a, b) == NAddC(a, b, 0)

\* a - b for a >= b
RECURSIVE NSubC(_, _, _)
NSubC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET x == a[1] - (IF b = <<>> THEN 0 ELSE b[1]) - c
       IN <<x % BASE>> \o NSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b),
                                IF x < 0 THEN 1 ELSE 0)
NSub(a, b) == NTrim(NSubC(a, b, 0))

\* a * d for a small d (0 <= d < BASE)
RECURSIVE NMulDigC(_, _, _)
NMulDigC(a, d, c) ==
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == a[1] * d + c IN <<x % BASE>> \o NMulDigC(Tail(a), d, x \div BASE)
NMulDig(a, d) == NTrim(NMulDigC(a, d, 0))

RECURSIVE NMul(_, _)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE NAdd(NMulDig(b, a[1]),
                        LET r == NMul(Tail(a), b) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

\* the largest d in lo..hi with b*d <= a
RECURSIVE NQDigit(_, _, _, _)
NQDigit(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NCmp(NMulDig(b, mid), a) <= 0 THEN NQDigit(a, b, mid, hi)
                                           ELSE NQDigit(a, b, lo, mid - 1)

\* schoolbook division, most significant limb of a first: <<quotient, remainder>>
RECURSIVE NDivStep(_, _, _, _, _)
NDivStep(a, b, i, q, r) ==
  IF i = 0 THEN <<NTrim(q), r>>
  ELSE LET r1 == NTrim(<<a[i]>> \o r)
           d  == NQDigit(r1, b, 0, BASE - 1)
       IN NDivStep(a, b, i - 1, <<d>> \o q, NSub(r1, NMulDig(b, d)))
NDivMod(a, b) == NDivStep(a, b, Len(a), <<>>, <<>>)
NDiv(a, b) == NDivMod(a, b)[1]
NMod(a, b) == NDivMod(a, b)[2]

\* b^n for a machine integer base 2 <= b < BASE
RECURSIVE NPow(_, _)
NPow(b, n) == IF n = 0 THEN <<1>>
              ELSE IF n % 2 = 1 THEN NMulDig(NPow(b, n - 1), b)
              ELSE LET h == NPow(b, n \div 2) IN NMul(h, h)

\* number of binary digits (0 for 0)
RECURSIVE NBitLen(_)
NBitLen(a) == IF a = <<>> THEN 0 ELSE 1 + NBitLen(NDiv(a, <<2>>))

\* digits in base b (2..16), most significant first; <<>> for 0
RECURSIVE NDigits(_, _)
NDigits(a, b) == IF a = <<>> THEN <<>>
                 ELSE LET qr == NDivMod(a, <<b>>)
                      IN Append(NDigits(qr[1], b), NToInt(qr[2]))

\* the number with the given decimal digits, most significant first
RECURSIVE NFromDigits(_)
NFromDigits(d) == IF d = <<>> THEN <<>>
                  ELSE NAdd(NMulDig(NFromDigits(SubSeq(d, 1, Len(d) - 1)), 10),
                            NFromInt(d[Len(d)]))
=============================================================================
