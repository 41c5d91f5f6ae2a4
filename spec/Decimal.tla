------------------------------ MODULE Decimal ------------------------------
(***************************************************************************)
(* Decimals, binary doubles and the conversions between them.              *)
(*                                                                         *)
(* A decimal [d, x] is 0.d1d2d3... * 10^x, with d the digits, most         *)
(* significant first, d1 # 0; zero is d = <<>>.                            *)
(* A finite double is c * 2^q with 2^52 <= c < 2^53, -1074 <= q <= 971, or *)
(* c < 2^52 and q = -1074 (subnormal; zero is c = 0).                      *)
(***************************************************************************)
EXTENDS Text, BigNat

DZero == [d |-> <<>>, x |-> 0]

LastNonZero(d) == FoldLeftDomain(LAMBDA acc, i : IF d[i] # 0 THEN i ELSE acc, 0, d)
LastNonNine(d) == FoldLeftDomain(LAMBDA acc, i : IF d[i] # 9 THEN i ELSE acc, 0, d)

\* the decimal m * 10^k
MkDecimal(m, k) ==
  IF m = <<>> THEN DZero
  ELSE LET ds == NDigits(m, 10)
       IN [d |-> SubSeq(ds, 1, LastNonZero(ds)), x |-> Len(ds) + k]

\* digits + 1 unit in the last place; carry tells whether a digit was added in front
IncDigits(ds) ==
  LET j == LastNonNine(ds)
  IN IF j = 0 THEN [d |-> <<1>> \o Rep(0, Len(ds)), carry |-> 1]
     ELSE [d |-> [i \in 1..Len(ds) |-> IF i < j THEN ds[i] ELSE IF i = j THEN ds[i] + 1 ELSE 0],
           carry |-> 0]

(***************************************************************************)
(* dec rounded half up at `keep` digits.  The result digits r.d are the    *)
(* decimal digits of the rounded value divided by 10^(dec.x - keep): keep  *)
(* of them, or one more after a carry (and then r.x = dec.x + 1); none     *)
(* when the value is zero or rounds to zero and keep <= 0.                 *)
(***************************************************************************)
RoundHalfUp(dec, keep) ==
  LET d == dec.d
  IN IF keep < 0 THEN [d |-> <<>>, x |-> dec.x]
     ELSE IF keep >= Len(d) THEN [d |-> d \o Rep(0, keep - Len(d)), x |-> dec.x]
     ELSE LET pre == SubSeq(d, 1, keep)
          IN IF d[keep + 1] >= 5
             THEN LET r == IncDigits(pre) IN [d |-> r.d, x |-> dec.x + r.carry]
             ELSE [d |-> pre, x |-> dec.x]

\* digits as text
DigitText(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]

(* ---------- the shortest decimal of a double (as Double.toString in      *)
(* JDK 19 and later): among the decimals that round to the double, take    *)
(* those with the fewest digits (but allow two), and of these the closest, *)
(* ties to an even last digit. ----------                                  *)

\* num/den compared with 10^k * s : exact integers
Scaled(c, q, k) ==        \* <<N, D>> with c*2^q / 10^k = N / D
  << NMul(IF q >= 0 THEN NMul(c, NPow(2, q)) ELSE c, IF k < 0 THEN NPow(10, -k) ELSE <<1>>),
     NMul(IF q < 0 THEN NPow(2, -q) ELSE <<1>>, IF k > 0 THEN NPow(10, k) ELSE <<1>>) >>

\* E with 10^E <= c*2^q < 10^(E+1)
RECURSIVE AdjustE(_, _, _)
AdjustE(c, q, e) ==
  LET a == Scaled(c, q, e)
  IN IF NCmp(a[1], a[2]) < 0 THEN AdjustE(c, q, e - 1)
     ELSE IF NCmp(a[1], NMulDig(a[2], 10)) >= 0 THEN AdjustE(c, q, e + 1) ELSE e
DecExp(c, q) == AdjustE(c, q, ((NBitLen(c) + q - 1) * 30103) \div 100000)

TwoTo52 == NPow(2, 52)
TwoTo53 == NPow(2, 53)

\* half gap to the lower neighbour in quarters of a unit in the last place
LowGap(c, q) == IF c = TwoTo52 /\ q > -1074 THEN <<1>> ELSE <<2>>

\* the interval of the double, in units of 2^(q-2):
LowEnd(c, q)  == NSub(NMulDig(c, 4), LowGap(c, q))
HighEnd(c, q) == NAdd(NMulDig(c, 4), <<2>>)
EvenN(c) == c = <<>> \/ c[1] % 2 = 0

\* does the decimal s*10^k round to the double?
RoundsTo(s, k, c, q) ==
  LET lo == Scaled(LowEnd(c, q), q - 2, k)
      hi == Scaled(HighEnd(c, q), q - 2, k)
      cl == NCmp(NMul(s, lo[2]), lo[1])
      ch == NCmp(NMul(s, hi[2]), hi[1])
  IN IF EvenN(c) THEN cl >= 0 /\ ch <= 0 ELSE cl > 0 /\ ch < 0

FloorAt(c, q, k) == LET a == Scaled(c, q, k) IN NDiv(a[1], a[2])

\* some decimal with n digits rounds to the double
HasLen(c, q, e, n) ==
  LET k == e - n + 1
      s == FloorAt(c, q, k)
  IN RoundsTo(s, k, c, q) \/ RoundsTo(NAdd(s, <<1>>), k, c, q)

RECURSIVE MinLen(_, _, _, _)
MinLen(c, q, e, n) == IF n > 2 /\ HasLen(c, q, e, n - 1) THEN MinLen(c, q, e, n - 1) ELSE n

Shortest(c, q) ==
  IF c = <<>> THEN DZero
  ELSE LET e  == DecExp(c, q)
           k  == e - MinLen(c, q, e, 17) + 1
           a  == Scaled(c, q, k)
           qr == NDivMod(a[1], a[2])
           s  == qr[1]
           t  == NAdd(s, <<1>>)
           inS == RoundsTo(s, k, c, q)
           inT == RoundsTo(t, k, c, q)
           cmp == NCmp(NMulDig(qr[2], 2), a[2])      \* position of v between s and t
           pick == IF inS /\ ~inT THEN s ELSE IF inT /\ ~inS THEN t
                   ELSE IF cmp < 0 THEN s ELSE IF cmp > 0 THEN t
                   ELSE IF EvenN(s) THEN s ELSE t
       IN MkDecimal(pick, k)

(* ---------- the double nearest to a rational, ties to even ---------- *)
\* N/D > 0; result [inf, c, q]
RECURSIVE NearestAt(_, _, _)
NearestAt(N, D, q) ==
  LET a == IF q >= 0 THEN <<N, NMul(D, NPow(2, q))>> ELSE <<NMul(N, NPow(2, -q)), D>>
      qr == NDivMod(a[1], a[2])
      f == qr[1]
  IN IF NCmp(f, TwoTo53) >= 0 THEN NearestAt(N, D, q + 1)
     ELSE IF NCmp(f, TwoTo52) < 0 /\ q > -1074 THEN NearestAt(N, D, q - 1)
     ELSE LET h == NCmp(NMulDig(qr[2], 2), a[2])
              g == IF h > 0 \/ (h = 0 /\ ~EvenN(f)) THEN NAdd(f, <<1>>) ELSE f
              z == IF g = TwoTo53 THEN [c |-> TwoTo52, q |-> q + 1] ELSE [c |-> g, q |-> q]
          IN [inf |-> z.q > 971, c |-> z.c, q |-> z.q]
NearestDouble(N, D) ==
  IF N = <<>> THEN [inf |-> FALSE, c |-> <<>>, q |-> -1074]
  ELSE NearestAt(N, D, Max2(-1074, NBitLen(N) - NBitLen(D) - 53))
=============================================================================
