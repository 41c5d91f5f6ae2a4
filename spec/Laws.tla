-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The listed properties of one directive, stated declaratively.  Render   *)
(* constructs the text; the laws below say, without constructing it, what  *)
(* any such text must satisfy.  TLC checks them over the domains of        *)
(* MC_Directive.                                                           *)
(***************************************************************************)
EXTENDS Printf

\* ---------- reading text back ----------
IsHexDigit(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE c - 87
ReadNat(s, base) == FoldLeft(LAMBDA acc, c : NAdd(NMulDig(acc, base), NFromInt(HexVal(c))), <<>>, s)
AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S
Spaces(s) == AllIn(s, {SP})
Zeros(s) == AllIn(s, {ZERO})

Plain(dir) == [dir EXCEPT !.w = UNSET, !.fl = @ \ {MINUS, ZERO}]
Natural(dir, a) == Fmt(Plain(dir), a).s

\* ---------- P04: the layout law ----------
IntSpecs == {100, 105, 117, 111, 120, 88}
SignedInt == {100, 105}
FloatSpecs == {102, 70, 101, 69, 103, 71, 97, 65}
IsNonFinite(t) == \E i \in 1..Len(t) : t[i] \in {78, 73}        \* N or I
ZeroApplies(dir, nat) == /\ ZERO \in dir.fl /\ ~(MINUS \in dir.fl)
                         /\ \/ dir.c \in IntSpecs /\ dir.p = UNSET
                            \/ dir.c \in FloatSpecs /\ ~IsNonFinite(nat)
\* sign and 0x prefix of a number's natural text
LeadLen(dir, nat) ==
  LET sgn == IF nat # <<>> /\ nat[1] \in {PLUS, MINUS, SP} THEN 1 ELSE 0
      hasX == Len(nat) >= sgn + 2 /\ nat[sgn + 1] = ZERO /\ nat[sgn + 2] \in {120, 88}
  IN sgn + (IF hasX THEN 2 ELSE 0)
LayoutLaw(dir, a, t) ==
  LET nat == Natural(dir, a)
      w == IF dir.w = UNSET THEN 0 ELSE dir.w
      n == w - Len(nat)
  IN IF n <= 0 THEN t = nat
     ELSE /\ Len(t) = w
          /\ IF MINUS \in dir.fl
             THEN Take(t, Len(nat)) = nat /\ Spaces(SubSeq(t, Len(nat) + 1, w))
             ELSE IF ZeroApplies(dir, nat)
             THEN LET k == LeadLen(dir, nat)
                  IN /\ Take(t, k) = Take(nat, k)
                     /\ Zeros(SubSeq(t, k + 1, k + n))
                     /\ SubSeq(t, k + n + 1, w) = SubSeq(nat, k + 1, Len(nat))
             ELSE Spaces(Take(t, n)) /\ SubSeq(t, n + 1, w) = nat
SignLaw(dir, neg, nat) ==        \* finite numbers under signed conversions
  IF neg THEN nat[1] = MINUS
  ELSE IF PLUS \in dir.fl THEN nat[1] = PLUS
  ELSE IF SP \in dir.fl THEN nat[1] = SP
  ELSE nat = <<>> \/ ~(nat[1] \in {PLUS, MINUS, SP})

\* ---------- P03: integers ----------
IntLaw(dir, v, nat0) ==          \* v: integer form; nat: natural text in lower case
  LET nat == IF dir.c = 88 THEN [i \in 1..Len(nat0) |-> IF nat0[i] >= 65 /\ nat0[i] <= 90 THEN nat0[i] + 32 ELSE nat0[i]]
             ELSE nat0
      signed == dir.c \in SignedInt
      m == IF signed \/ ~v.neg THEN v.m ELSE NSub(NPow(2, v.bits), v.m)
      base == CASE dir.c \in {120, 88} -> 16 [] dir.c = 111 -> 8 [] OTHER -> 10
      k == LeadLen(dir, nat)
      ds == SubSeq(nat, k + 1, Len(nat))
      least == Max2(IF dir.p = UNSET THEN 1 ELSE dir.p, Len(NDigits(m, base)))
      octalAlt == dir.c = 111 /\ HASH \in dir.fl
  IN /\ AllIn(ds, IF base = 16 THEN 48..57 \cup 97..102 ELSE 48..(47 + base))
     /\ ReadNat(ds, base) = m
     /\ signed => SignLaw(dir, v.neg, nat)
     /\ ~signed => (k = IF dir.c \in {120, 88} /\ HASH \in dir.fl /\ m # <<>> THEN 2 ELSE 0)
     /\ IF octalAlt THEN ds[1] = ZERO /\ Len(ds) = Max2(least, 1 + Len(NDigits(m, 8)))
        ELSE Len(ds) = least

\* ---------- decimals as fractions ----------
\* 2 * S * Y within half up of 2 * X:  S = floor(X / Y + 1/2)
HalfUp(S, X, Y) == LET s2 == NMul(NMulDig(S, 2), Y)  x2 == NMulDig(X, 2)
                   IN NCmp(s2, NAdd(x2, Y)) <= 0 /\ NCmp(NAdd(s2, Y), x2) > 0
\* |value| of a decimal times 10^p as a fraction <<X, Y>>
DecScaled(dec, p) ==
  LET m == NFromDigits(dec.d)
      k == dec.x - Len(dec.d) + p
  IN IF k >= 0 THEN <<NMul(m, NPow(10, k)), <<1>> >> ELSE <<m, NPow(10, -k)>>
UnsignedPart(nat) == IF nat # <<>> /\ nat[1] \in {PLUS, MINUS, SP} THEN Tail(nat) ELSE nat
WithoutDot(s) == SelectSeq(s, LAMBDA c : c # DOT)
DotAt(s) == FirstIn(s, {DOT})

\* ---------- P06: %f ----------
FixedLaw(dir, f, nat) ==
  LET p == IF dir.p = UNSET THEN 6 ELSE dir.p
      u == UnsignedPart(nat)
      i == DotAt(u)
      xy == DecScaled(DecOf(f), p)
  IN /\ SignLaw(dir, f.neg, nat)
     /\ AllIn(WithoutDot(u), 48..57)
     /\ IF p = 0 THEN (IF HASH \in dir.fl THEN i = Len(u) ELSE i = 0) ELSE i = Len(u) - p
     /\ LET ip == IF i = 0 THEN u ELSE Take(u, i - 1)
        IN ip # <<>> /\ (Len(ip) > 1 => ip[1] # ZERO)
     /\ HalfUp(ReadNat(WithoutDot(u), 10), xy[1], xy[2])

\* exponent part: [ok, man, x]
SplitExp(u) ==
  LET i == FirstIn(u, {101, 69})
      ds == SubSeq(u, i + 2, Len(u))
      v == NToInt(ReadNat(ds, 10))
  IN [ok |-> i > 1 /\ Len(u) >= i + 3 /\ u[i + 1] \in {PLUS, MINUS} /\ AllIn(ds, 48..57)
             /\ (Len(ds) > 2 => ds[1] # ZERO),
      man |-> Take(u, i - 1), x |-> IF u[i + 1] = MINUS THEN -v ELSE v]
\* the significand with n digits at exponent x is the value rounded half up at that place
SciValue(dec, ds, n, x) ==
  IF dec.d = <<>> THEN Zeros(ds) /\ x = 0
  ELSE LET xy == DecScaled(dec, n - 1 - x)
           S == ReadNat(ds, 10)
           \* a carry may have moved the exponent: then the digits are 10..0
           xy2 == DecScaled(dec, n - x)
       IN /\ ds[1] # ZERO
          /\ HalfUp(S, xy[1], xy[2])
          /\ IF x = dec.x - 1 THEN TRUE
             ELSE x = dec.x /\ ds[1] = 49 /\ Zeros(Tail(ds)) /\ HalfUp(NMulDig(S, 10), xy2[1], xy2[2])
SciLaw(dir, f, nat) ==
  LET p == IF dir.p = UNSET THEN 6 ELSE dir.p
      s == SplitExp(UnsignedPart(nat))
      i == DotAt(s.man)
  IN /\ SignLaw(dir, f.neg, nat)
     /\ s.ok
     /\ IF p = 0 THEN (IF HASH \in dir.fl THEN i = 2 /\ Len(s.man) = 2 ELSE Len(s.man) = 1)
        ELSE i = 2 /\ Len(s.man) = p + 2
     /\ SciValue(DecOf(f), WithoutDot(s.man), p + 1, s.x)

\* ---------- P07: %g ----------
\* exponent of the value rounded to P digits
RoundedExp(dec, P) ==
  IF dec.d = <<>> THEN 0
  ELSE LET top == NSub(NPow(10, P), <<1>>)             \* 99..9
           xy == DecScaled(dec, P - dec.x)             \* value in units of the P-th digit
       IN IF HalfUp(NPow(10, P), xy[1], xy[2]) THEN dec.x ELSE dec.x - 1
GeneralLaw(dir, f, nat) ==
  LET P == IF dir.p = UNSET THEN 6 ELSE IF dir.p = 0 THEN 1 ELSE dir.p
      dec == DecOf(f)
      X == RoundedExp(dec, P)
      u == UnsignedPart(nat)
      plain == -4 <= X /\ X < P
      hasE == FirstIn(u, {101, 69}) # 0
      s == SplitExp(u)
      man == IF hasE THEN s.man ELSE u
      i == DotAt(man)
      frac == IF i = 0 THEN <<>> ELSE SubSeq(man, i + 1, Len(man))
      alt == HASH \in dir.fl
      full == WithoutDot(man)
      sig == FirstIn(full, 49..57)                   \* first significant digit
      digits == IF sig = 0 THEN 0 ELSE Len(full) - sig + 1
      shown == IF sig = 0 THEN <<>> ELSE SubSeq(full, sig, Len(full))
      exact == DecScaled(dec, P - 1 - X)
  IN /\ SignLaw(dir, f.neg, nat)
     /\ hasE = ~plain
     /\ hasE => s.ok /\ s.x = X
     /\ (~alt => (i # 0 => frac # <<>> /\ frac[Len(frac)] # ZERO))
     /\ (alt /\ plain => i # 0)
     /\ (alt /\ dec.d # <<>> => digits = P)
     /\ (~alt => digits <= Max2(P, X + 1))
     /\ IF dec.d = <<>> THEN Zeros(full)
        ELSE \* same number as the P-digit rounding
             HalfUp(ReadNat(IF Len(shown) >= P THEN Take(shown, P) ELSE shown \o Rep(ZERO, P - Len(shown)), 10),
                    exact[1], exact[2])

\* ---------- P05: shortest decimal ----------
DecAsRatio(m, k) == <<IF k >= 0 THEN NMul(m, NPow(10, k)) ELSE m, IF k < 0 THEN NPow(10, -k) ELSE <<1>> >>
ReadsBack(m, k, c, q) == LET r == DecAsRatio(m, k)  z == NearestDouble(r[1], r[2])
                         IN ~z.inf /\ z.c = c /\ z.q = q
ShortestLaw(c, q) ==
  LET dec == Shortest(c, q)
      n == Len(dec.d)
      m == NFromDigits(dec.d)
      k == dec.x - n
      e == DecExp(c, q)
      \* neighbours with the same number of digits, or two if it has one
      n2 == Max2(n, 2)
      k2 == dec.x - n2
      m2 == NMul(m, NPow(10, n2 - n))
      v == Scaled(c, q, k2)                     \* value in units of 10^k2
      dist(s) == LET x == NMul(s, v[2]) IN IF NCmp(x, v[1]) >= 0 THEN NSub(x, v[1]) ELSE NSub(v[1], x)
      nearer(s) == LET z == NCmp(dist(s), dist(m2)) IN z < 0 \/ (z = 0 /\ EvenN(s) /\ ~EvenN(m2))
  IN c # <<>> =>
     /\ n <= 17
     /\ ReadsBack(m, k, c, q)
     /\ n > 2 => LET s == FloorAt(c, q, e - n + 2)
                 IN ~ReadsBack(s, e - n + 2, c, q) /\ ~ReadsBack(NAdd(s, <<1>>), e - n + 2, c, q)
     /\ ~(nearer(NAdd(m2, <<1>>)) /\ ReadsBack(NAdd(m2, <<1>>), k2, c, q))
     /\ ~(nearer(NSub(m2, <<1>>)) /\ ReadsBack(NSub(m2, <<1>>), k2, c, q))

\* ---------- P08: %a ----------
HexLaw(dir, f, nat) ==
  LET u == UnsignedPart(nat)
      i == DotAt(u)
      pe == FirstIn(u, {112})
      fr == SubSeq(u, i + 1, pe - 1)
      eds == SubSeq(u, pe + 2, Len(u))
      ev == NToInt(ReadNat(eds, 10))
      x == IF u[pe + 1] = MINUS THEN -ev ELSE ev
      S == ReadNat(<<u[3]>> \o fr, 16)              \* shown = S * 16^-|fr| * 2^x
      p == IF dir.p = 0 THEN 1 ELSE dir.p
      \* shown value and exact value in units of 2^-(1074 + 4*|fr|)
      k == 1074 + 4 * Len(fr)
      shown == NMul(S, NPow(2, x + 1074))
      exact == NMul(f.c, NPow(2, f.q + k))
      norm == f.c # <<>> /\ NCmp(f.c, TwoTo52) >= 0
      \* one unit of the last hexadecimal digit, at the exponent before a carry
      bl == NBitLen(f.c) + f.q - 1
      unit == NPow(2, bl + 1074)
      diff == IF NCmp(shown, exact) >= 0 THEN NSub(shown, exact) ELSE NSub(exact, shown)
      cmp == NCmp(NMulDig(diff, 2), unit)
  IN /\ SignLaw(dir, f.neg, nat)
     /\ Take(u, 2) = <<ZERO, 120>> /\ i = 4 /\ pe > 5
     /\ AllIn(eds, 48..57) /\ eds # <<>> /\ (Len(eds) > 1 => eds[1] # ZERO)
     /\ IF f.c = <<>> THEN S = <<>> /\ x = 0 ELSE u[3] \in {ZERO, 49}
     /\ (p = UNSET => shown = exact /\ (Len(fr) > 1 => fr[Len(fr)] # ZERO)
                      /\ (f.c # <<>> => u[3] = IF norm THEN 49 ELSE ZERO))
     /\ (p > 12 => shown = exact)
     /\ (p # UNSET => Len(fr) = p)
     /\ (p \in 1..12 /\ f.c # <<>> =>
           /\ u[3] = 49
           /\ x \in {bl, bl + 1}
           /\ cmp <= 0
           /\ (cmp = 0 => (IF x = bl + 1 THEN TRUE ELSE HexVal(u[i + p]) % 2 = 0)))

\* ---------- P10 ----------
TextLaw(dir, full, nat0, lowerNat) ==
  /\ Len(nat0) = (IF dir.p = UNSET THEN Len(full) ELSE Min2(dir.p, Len(full)))
  /\ \A i \in 1..Len(nat0) : IF dir.c = 83 /\ full[i] >= 97 /\ full[i] <= 122
                             THEN nat0[i] = full[i] - 32 ELSE nat0[i] = full[i]

\* ---------- the laws that apply to a directive ----------
LawsHold(dir, a) ==
  LET r == Fmt(dir, a)
      nat == Natural(dir, a)
  IN r.e = "" =>
     /\ LayoutLaw(dir, a, r.s)
     /\ (dir.c \in IntSpecs => IntLaw(dir, AsIntForm(a), nat))
     /\ (dir.c \in FloatSpecs =>
           LET f == AsFloatForm(a).f
           IN IF f.k \in {"nan", "inf"} THEN TRUE
              ELSE CASE dir.c \in {102, 70} -> FixedLaw(dir, f, nat)
                     [] dir.c \in {101, 69} -> SciLaw(dir, f, nat)
                     [] dir.c \in {103, 71} -> GeneralLaw(dir, f, nat)
                     [] dir.c = 97 -> HexLaw(dir, f, nat)
                     [] OTHER -> TRUE)
     /\ (dir.c \in {115, 83} => TextLaw(dir, AsText(a), nat, nat))
=============================================================================
