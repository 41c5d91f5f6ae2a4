------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* The text of one directive.  dir is [fl, w, p, c, pat] with w and p      *)
(* resolved (a number or UNSET).  Every Fmt* operator returns [e, s].      *)
(***************************************************************************)
EXTENDS Convert

Ok(s) == [e |-> "", s |-> s]

(* ---------------- layout ---------------- *)
\* spaces up to the width
Pad(dir, s) == LET n == (IF dir.w = UNSET THEN 0 ELSE dir.w) - Len(s)
               IN IF n <= 0 THEN s ELSE IF MINUS \in dir.fl THEN s \o Rep(SP, n) ELSE Rep(SP, n) \o s

Sign(dir, neg) == IF neg THEN <<MINUS>> ELSE IF PLUS \in dir.fl THEN <<PLUS>>
                  ELSE IF SP \in dir.fl THEN <<SP>> ELSE <<>>

\* lead (sign and prefix) followed by body, zeros between them if zero padding applies
Lay(dir, lead, body, zeroPad) ==
  IF zeroPad /\ ZERO \in dir.fl /\ ~(MINUS \in dir.fl)
  THEN lead \o Rep(ZERO, (IF dir.w = UNSET THEN 0 ELSE dir.w) - Len(lead) - Len(body)) \o body
  ELSE Pad(dir, lead \o body)

(* ---------------- integers ---------------- *)
MinDigits(dir, ds) == Rep(ZERO, dir.p - Len(ds)) \o ds      \* p = UNSET adds nothing

FmtSigned(dir, v) ==
  LET ds == IF v.m = <<>> THEN (IF dir.p = 0 THEN <<>> ELSE <<ZERO>>) ELSE DigitText(NDigits(v.m, 10))
  IN Ok(Lay(dir, Sign(dir, v.neg), MinDigits(dir, ds), dir.p = UNSET))

\* the unsigned value: modulo 2^bits; arbitrary-precision negatives have none
FmtUnsigned(dir, v, base, prefix) ==
  IF v.neg /\ v.bits = 0 THEN LIBERR
  ELSE LET m == IF v.neg THEN NSub(NPow(2, v.bits), v.m) ELSE v.m
           alt == HASH \in dir.fl
           dg == NDigits(m, base)
           ds == IF m = <<>> THEN (IF dir.p = 0 THEN <<>> ELSE <<ZERO>>)
                 ELSE [i \in 1..Len(dg) |-> DigitChar(dg[i])]
           full == MinDigits(dir, ds)
       IN IF base = 8
          THEN \* alternate form: at least one leading zero
               LET o == IF alt /\ (full = <<>> \/ full[1] # ZERO) THEN <<ZERO>> \o full ELSE full
               IN Ok(Lay(dir, <<>>, o, dir.p = UNSET))
          ELSE Ok(Lay(dir, IF alt /\ m # <<>> THEN prefix ELSE <<>>, full, dir.p = UNSET))

(* ---------------- floating point ---------------- *)
DecOf(f) == IF f.k = "dec" THEN f.dec ELSE Shortest(f.c, f.q)

NonFinite(dir, f) == IF f.k = "nan" THEN Ok(Pad(dir, T_NaN))
                     ELSE Ok(Pad(dir, Sign(dir, f.neg) \o T_Infinity))

\* ds has the digits of (value * 10^p): put the point
PutPoint(ds0, p, alt) ==
  LET ds == Rep(0, (p + 1) - Len(ds0)) \o ds0
      n == Len(ds) - p
  IN DigitText(SubSeq(ds, 1, n))
     \o (IF p > 0 \/ alt THEN <<DOT>> ELSE <<>>)
     \o DigitText(SubSeq(ds, n + 1, Len(ds)))

ExpText(x) == <<IF x < 0 THEN MINUS ELSE PLUS>> \o NatTextW(IF x < 0 THEN -x ELSE x, 2)

\* the same for the exponent x + h, h enormous
HugeExpText(x, h) == LET y == SAdd(SInt(x), h)
                     IN <<IF y.neg THEN MINUS ELSE PLUS>> \o DigitText(NDigits(y.m, 10))

FixedText(dec, p, alt) == PutPoint(RoundHalfUp(dec, dec.x + p).d, p, alt)

\* the value rounded to n significant digits: [ds, x] = ds[1].ds[2]... * 10^x
Significant(dec, n) ==
  IF dec.d = <<>> THEN [ds |-> Rep(0, n), x |-> 0]
  ELSE LET r == RoundHalfUp(dec, n) IN [ds |-> Take(r.d, n), x |-> r.x - 1]

NoHuge == [neg |-> FALSE, m |-> <<>>]
HugeOf(f) == IF f.k = "dec" THEN f.h ELSE NoHuge
SciText(dec, p, alt, h) ==
  LET r == Significant(dec, p + 1)
  IN PutPoint(r.ds, p, alt) \o <<101>> \o (IF h.m = <<>> THEN ExpText(r.x) ELSE HugeExpText(r.x, h))

\* fraction without trailing zeros; no bare point
StripFraction(t) ==
  LET i == FirstIn(t, {DOT})
      last == FoldLeftDomain(LAMBDA acc, j : IF j > i /\ t[j] # ZERO THEN j ELSE acc, i, t)
  IN IF i = 0 THEN t ELSE SubSeq(t, 1, IF last = i THEN i - 1 ELSE last)

GeneralText(dec, P, alt, h) ==
  LET r == Significant(dec, P)
  IN IF h.m = <<>> /\ -4 <= r.x /\ r.x < P
     THEN LET p == P - 1 - r.x                   \* fraction digits
              t == PutPoint(r.ds, p, alt)
          IN IF alt THEN t ELSE StripFraction(t)
     ELSE LET man == PutPoint(r.ds, P - 1, FALSE)
          IN (IF alt THEN man ELSE StripFraction(man)) \o <<101>>
             \o (IF h.m = <<>> THEN ExpText(r.x) ELSE HugeExpText(r.x, h))

\* (an enormous exponent is negative here: the text of a positive one would not fit anywhere)
FmtFixed(dir, f) == Ok(Lay(dir, Sign(dir, f.neg),
                           FixedText(IF HugeOf(f).m = <<>> THEN DecOf(f) ELSE DZero, IF dir.p = UNSET THEN 6 ELSE dir.p, HASH \in dir.fl), TRUE))
FmtSci(dir, f) == Ok(Lay(dir, Sign(dir, f.neg),
                         SciText(DecOf(f), IF dir.p = UNSET THEN 6 ELSE dir.p, HASH \in dir.fl, HugeOf(f)), TRUE))
FmtGeneral(dir, f) ==
  Ok(Lay(dir, Sign(dir, f.neg),
         GeneralText(DecOf(f), IF dir.p = UNSET THEN 6 ELSE IF dir.p = 0 THEN 1 ELSE dir.p,
                     HASH \in dir.fl, HugeOf(f)), TRUE))

HexText(ds) == [i \in 1..Len(ds) |-> DigitChar(ds[i])]
\* exactly n hexadecimal digits of m
HexN(m, n) == LET h == NDigits(m, 16) IN HexText(Rep(0, n - Len(h)) \o h)
StripZeros1(t) ==       \* trailing zeros off, at least one unit stays
  LET last == FoldLeftDomain(LAMBDA acc, j : IF t[j] # ZERO THEN j ELSE acc, 1, t) IN SubSeq(t, 1, last)
BinExp(x) == <<112, IF x < 0 THEN MINUS ELSE PLUS>> \o NatText(IF x < 0 THEN -x ELSE x)

\* significand and exponent of %a, without 0x
HexExact(f) ==          \* all digits: lead, fraction (13 digits), exponent
  IF f.c = <<>> THEN [lead |-> 0, fr |-> Rep(ZERO, 13), x |-> 0]
  ELSE IF NCmp(f.c, TwoTo52) < 0 THEN [lead |-> 0, fr |-> HexN(f.c, 13), x |-> -1022]
  ELSE [lead |-> 1, fr |-> HexN(NSub(f.c, TwoTo52), 13), x |-> f.q + 52]
HexRounded(f, p) ==     \* p in 1..12 fraction digits, value # 0
  LET sh == 53 - NBitLen(f.c)                     \* normalise subnormals
      c == NMul(f.c, NPow(2, sh))
      x == f.q - sh + 52
      unit == NPow(2, 52 - 4 * p)
      qr == NDivMod(c, unit)
      h == NCmp(NMulDig(qr[2], 2), unit)
      g == IF h > 0 \/ (h = 0 /\ ~EvenN(qr[1])) THEN NAdd(qr[1], <<1>>) ELSE qr[1]
      one == NPow(2, 4 * p)
  IN IF g = NMulDig(one, 2) THEN [lead |-> 1, fr |-> Rep(ZERO, p), x |-> x + 1]
     ELSE [lead |-> 1, fr |-> HexN(NSub(g, one), p), x |-> x]
FmtHex(dir, f) ==
  IF f.k = "dec" THEN LIBERR
  ELSE LET p == IF dir.p = 0 THEN 1 ELSE dir.p
           r == IF p \in 1..12 /\ f.c # <<>> THEN HexRounded(f, p) ELSE HexExact(f)
           fr == IF p = UNSET THEN StripZeros1(r.fr)
                 ELSE LET t == StripZeros1(r.fr) IN t \o Rep(ZERO, p - Len(t))
       IN Ok(Lay(dir, Sign(dir, f.neg) \o <<ZERO, 120>>,
                 <<48 + r.lead, DOT>> \o fr \o BinExp(r.x), TRUE))

FmtFloat(dir, v, Fmt(_, _)) ==
  IF v.e # "" THEN v ELSE IF v.f.k \in {"nan", "inf"} THEN NonFinite(dir, v.f) ELSE Fmt(dir, v.f)

(* ---------------- text, characters, identity ---------------- *)
FmtText(dir, a) == LET t == AsText(a) IN Ok(Pad(dir, IF dir.p = UNSET THEN t ELSE Take(t, dir.p)))
FmtChar(dir, a) == LET v == AsChar(a) IN IF v.e # "" THEN v ELSE Ok(Pad(dir, <<v.v>>))
FmtPointer(dir, a) == IF a.prim = 1 THEN LIBERR
                      ELSE Ok(Pad(dir, IF a.t = "null" THEN T_null ELSE a.id))

(* ---------------- date and time ---------------- *)
MonthName == << <<74,97,110,117,97,114,121>>, <<70,101,98,114,117,97,114,121>>, <<77,97,114,99,104>>,
  <<65,112,114,105,108>>, <<77,97,121>>, <<74,117,110,101>>, <<74,117,108,121>>,
  <<65,117,103,117,115,116>>, <<83,101,112,116,101,109,98,101,114>>, <<79,99,116,111,98,101,114>>,
  <<78,111,118,101,109,98,101,114>>, <<68,101,99,101,109,98,101,114>> >>
DayName == << <<77,111,110,100,97,121>>, <<84,117,101,115,100,97,121>>,
  <<87,101,100,110,101,115,100,97,121>>, <<84,104,117,114,115,100,97,121>>, <<70,114,105,100,97,121>>,
  <<83,97,116,117,114,100,97,121>>, <<83,117,110,100,97,121>> >>
T_AM == <<65,77>>  T_PM == <<80,77>>

TwoD(n) == NatTextW(n, 2)
OffSign(o) == IF o < 0 THEN <<MINUS>> ELSE <<PLUS>>
AbsI(i) == IF i < 0 THEN -i ELSE i
\* offset texts: colon or not, minutes "always"/"nonzero", seconds if non-zero when sec
OffText(o, colon, minutes, sec, zero) ==
  LET a == AbsI(o)  hh == a \div 3600  mm == (a \div 60) % 60  ss == a % 60
      sep == IF colon THEN <<58>> ELSE <<>>
  IN IF o = 0 THEN zero
     ELSE OffSign(o) \o TwoD(hh)
          \o (IF minutes = "always" \/ mm # 0 THEN sep \o TwoD(mm) ELSE <<>>)
          \o (IF sec /\ ss # 0 THEN sep \o TwoD(ss) ELSE <<>>)
T_Z == <<90>>
T_GMT == <<71,77,84>>
XZero(n, lower) == IF ~lower THEN T_Z
                   ELSE CASE n = 1 -> <<PLUS,ZERO,ZERO>>
                          [] n \in {2, 4} -> <<PLUS,ZERO,ZERO,ZERO,ZERO>>
                          [] OTHER -> <<PLUS,ZERO,ZERO,58,ZERO,ZERO>>
XText(o, n, lower) ==
  CASE n = 1 -> OffText(o, FALSE, "nonzero", FALSE, XZero(n, lower))
    [] n = 2 -> OffText(o, FALSE, "always", FALSE, XZero(n, lower))
    [] n = 3 -> OffText(o, TRUE, "always", FALSE, XZero(n, lower))
    [] n = 4 -> OffText(o, FALSE, "always", TRUE, XZero(n, lower))
    [] OTHER -> OffText(o, TRUE, "always", TRUE, XZero(n, lower))

DayOfYear(z) == DaysFromCivil(z.y, z.mo, z.d) - DaysFromCivil(z.y, 1, 1) + 1
DayOfWeek(z) == ((DaysFromCivil(z.y, z.mo, z.d) + 3) % 7) + 1        \* Monday = 1
NanoDigits(ns) == NatTextW(ns, 9)

\* u: the proleptic year, y: the year of its era; a year wider than its field shows its sign
YearText(y, n) == IF n = 2 THEN TwoD(AbsI(y) % 100)
                  ELSE (IF y < 0 THEN <<MINUS>>
                        ELSE IF n >= 4 /\ Len(NatText(y)) > n THEN <<PLUS>> ELSE <<>>) \o NatTextW(AbsI(y), n)
EraYear(y) == IF y <= 0 THEN 1 - y ELSE y
EraName(y, n) == IF y <= 0
  THEN CASE n <= 3 -> <<66,67>> [] n = 4 -> <<66,101,102,111,114,101,32,67,104,114,105,115,116>> [] OTHER -> <<66>>
  ELSE CASE n <= 3 -> <<65,68>> [] n = 4 -> <<65,110,110,111,32,68,111,109,105,110,105>> [] OTHER -> <<65>>
Quarter(z) == (z.mo - 1) \div 3 + 1
Nth == << <<49,115,116>>, <<50,110,100>>, <<51,114,100>>, <<52,116,104>> >>
T_quarter == <<32,113,117,97,114,116,101,114>>
BigTextW(m, w) == LET t == IF m = <<>> THEN <<ZERO>> ELSE DigitText(NDigits(m, 10)) IN Rep(ZERO, w - Len(t)) \o t
SecondOfDay(z) == (z.h * 60 + z.mi) * 60 + z.s
NanoOfDay(z) == NAdd(NMul(NFromInt(SecondOfDay(z)), NFromInt(1000000000)), NFromInt(z.ns))
\* GMT, GMT+8, GMT+5:30 or GMT+08:00
GmtText(o, n) == T_GMT \o (IF n = 4 THEN OffText(o, TRUE, "always", TRUE, <<>>)
  ELSE LET a == AbsI(o)  mm == (a \div 60) % 60  ss == a % 60
       IN IF o = 0 THEN <<>>
          ELSE OffSign(o) \o NatText(a \div 3600) \o (IF mm # 0 \/ ss # 0 THEN <<58>> \o TwoD(mm) ELSE <<>>)
               \o (IF ss # 0 THEN <<58>> \o TwoD(ss) ELSE <<>>))

NeedsOf(c) == CASE c \in {117, 121, 77, 100, 68, 69, 76, 81, 71, 103} -> "date"
                [] c = 86 -> "zone"
                [] c = 79 -> "off"
                [] c \in {88, 120, 90} -> "off"
                [] OTHER -> "time"
LetterText(z, c, n) ==
  CASE c = 117 -> YearText(z.y, n)
    [] c = 121 -> YearText(EraYear(z.y), n)
    [] c = 71 -> EraName(z.y, n)
    [] c = 81 -> CASE n <= 2 -> NatTextW(Quarter(z), n)
                   [] n = 3 -> <<81, 48 + Quarter(z)>>
                   [] n = 4 -> Nth[Quarter(z)] \o T_quarter
                   [] OTHER -> NatText(Quarter(z))
    [] c = 103 -> LET g == DaysFromCivil(z.y, z.mo, z.d) + 40587
                  IN (IF g < 0 THEN <<MINUS>> ELSE <<>>) \o NatTextW(AbsI(g), n)
    [] c = 86 -> z.zid
    [] c = 79 -> GmtText(z.off, n)
    [] c = 78 -> BigTextW(NanoOfDay(z), n)
    [] c \in {77, 76} -> CASE n <= 2 -> NatTextW(z.mo, n)
                   [] n = 3 -> Take(MonthName[z.mo], 3)
                   [] n = 4 -> MonthName[z.mo]
                   [] OTHER -> Take(MonthName[z.mo], 1)
    [] c = 100 -> NatTextW(z.d, n)
    [] c = 68 -> NatTextW(DayOfYear(z), n)
    [] c = 69 -> CASE n <= 3 -> Take(DayName[DayOfWeek(z)], 3)
                   [] n = 4 -> DayName[DayOfWeek(z)]
                   [] OTHER -> Take(DayName[DayOfWeek(z)], 1)
    [] c = 72 -> NatTextW(z.h, n)
    [] c = 104 -> NatTextW(IF z.h % 12 = 0 THEN 12 ELSE z.h % 12, n)
    [] c = 75 -> NatTextW(z.h % 12, n)
    [] c = 107 -> NatTextW(IF z.h = 0 THEN 24 ELSE z.h, n)
    [] c = 109 -> NatTextW(z.mi, n)
    [] c = 115 -> NatTextW(z.s, n)
    [] c = 83 -> Take(NanoDigits(z.ns), n)
    [] c = 110 -> NatTextW(z.ns, n)
    [] c = 65 -> NatTextW(SecondOfDay(z) * 1000 + z.ns \div 1000000, n)
    [] c = 97 -> IF z.h < 12 THEN T_AM ELSE T_PM
    [] c = 88 -> XText(z.off, n, FALSE)
    [] c = 120 -> XText(z.off, n, TRUE)
    [] c = 90 -> CASE n <= 3 -> OffText(z.off, FALSE, "always", FALSE, <<PLUS,ZERO,ZERO,ZERO,ZERO>>)
                   [] n = 4 -> T_GMT \o OffText(z.off, TRUE, "always", TRUE, <<>>)
                   [] OTHER -> OffText(z.off, TRUE, "always", TRUE, T_Z)

\* optional sections are dropped when one of their fields is not available (no nesting used)
RECURSIVE TokText(_, _, _)
Avail(z, tok) == tok.k # "let" \/ NeedsOf(tok.c) \in FieldsOf(z.t)
OptEnd(toks, i) == LET F == {j \in i..Len(toks) : toks[j].k = "end"} IN
                   IF F = {} THEN Len(toks) + 1 ELSE CHOOSE j \in F : \A k \in F : j <= k
TokText(z, toks, i) ==
  IF i > Len(toks) THEN Ok(<<>>)
  ELSE LET tok == toks[i] IN
       IF tok.k = "opt" /\ \E j \in i..(OptEnd(toks, i) - 1) : ~Avail(z, toks[j])
       THEN TokText(z, toks, OptEnd(toks, i) + 1)
       ELSE IF ~Avail(z, tok) THEN DTEERR
       ELSE LET rest == TokText(z, toks, i + 1)
                here == CASE tok.k = "let" -> LetterText(z, tok.c, tok.n)
                          [] tok.k = "txt" -> tok.s
                          [] OTHER -> <<>>
            IN IF rest.e # "" THEN rest ELSE Ok(here \o rest.s)

IsoDate(z) == YearText(z.y, 4) \o <<MINUS>> \o TwoD(z.mo) \o <<MINUS>> \o TwoD(z.d)
IsoTime(z) == TwoD(z.h) \o <<58>> \o TwoD(z.mi) \o <<58>> \o TwoD(z.s)
              \o (IF z.ns = 0 THEN <<>> ELSE <<DOT>> \o StripZeros1(NanoDigits(z.ns)))
IsoText(z) ==
  CASE z.t \in {"inst", "odt", "zdt"} ->
         Ok(IsoDate(z) \o <<84>> \o IsoTime(z) \o OffText(z.off, TRUE, "always", TRUE, T_Z))
    [] z.t = "ldt" -> Ok(IsoDate(z) \o <<84>> \o IsoTime(z))
    [] z.t = "ld" -> Ok(IsoDate(z))
    [] OTHER -> LIBERR
FmtDate(dir, a) ==
  LET z == AsTemporal(a)
      r == IF z.e # "" THEN z
           ELSE IF dir.pat = <<>> THEN IsoText(z) ELSE TokText(z, PatTokens(dir.pat).toks, 1)
  IN IF r.e # "" THEN [e |-> r.e] ELSE Ok(Pad(dir, r.s))

(* ---------------- one directive ---------------- *)
UpperResult(r) == IF r.e # "" THEN r ELSE Ok(Upper(r.s))

Conv(dir, a) ==
  CASE dir.c \in {100, 105} -> LET v == AsIntForm(a) IN IF v.e # "" THEN v ELSE FmtSigned(dir, v)
    [] dir.c = 117 -> LET v == AsIntForm(a) IN IF v.e # "" THEN v ELSE FmtUnsigned(dir, v, 10, <<>>)
    [] dir.c = 111 -> LET v == AsIntForm(a) IN IF v.e # "" THEN v ELSE FmtUnsigned(dir, v, 8, <<>>)
    [] dir.c \in {120, 88} -> LET v == AsIntForm(a)
                              IN IF v.e # "" THEN v ELSE FmtUnsigned(dir, v, 16, <<ZERO, 120>>)
    [] dir.c \in {102, 70} -> FmtFloat(dir, AsFloatForm(a), FmtFixed)
    [] dir.c \in {101, 69} -> FmtFloat(dir, AsFloatForm(a), FmtSci)
    [] dir.c \in {103, 71} -> FmtFloat(dir, AsFloatForm(a), FmtGeneral)
    [] dir.c \in {97, 65}  -> FmtFloat(dir, AsFloatForm(a), FmtHex)
    [] dir.c = 99 -> FmtChar(dir, a)
    [] dir.c \in {115, 83} -> FmtText(dir, a)
    [] dir.c \in {116, 84} -> FmtDate(dir, a)
    [] dir.c = 112 -> FmtPointer(dir, a)
    [] dir.c = 110 -> Ok(<<>>)                       \* %n
    [] dir.c = PCT -> Ok(<<PCT>>)                    \* %5% and the like
UpperUnits == {88, 70, 69, 71, 65, 83, 84}
Fmt(dir, a) == IF dir.c \in UpperUnits THEN UpperResult(Conv(dir, a)) ELSE Conv(dir, a)
=============================================================================
