------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Argument values and what each conversion makes of them.                 *)
(*                                                                         *)
(* An argument is a record with a type tag t:                              *)
(*   bool/char: v            byte short int long bigint: neg, m            *)
(*   float/double: k ("fin", "inf", "nan"), neg, c, q   (double lattice)   *)
(*   bigdec: neg, m, sc, and hx (signed) where the exponent is enormous:   *)
(*           value m * 10^-sc * 10^hx                                      *)
(*   str: s (any CharSequence)      null      obj: str                     *)
(*   num: neg, m (longValue), i (intValue), d (doubleValue record), str    *)
(*   date/cal: neg, m (epoch milliseconds), str                            *)
(*   arr: el ("byte", "char" or other), b / s / els, str                   *)
(*   inst odt zdt ldt ld lt: date-time fields, str                         *)
(* Values that the Java runtime defines (string form of an object, its     *)
(* identity, the zone offset in force) are observed inputs: str, id, off.  *)
(* prim = 1 marks a value supplied as a primitive.                         *)
(*                                                                         *)
(* Every operator returns a record with field e: "" or the refusal.        *)
(***************************************************************************)
EXTENDS Decimal, Grammar

LIBERR == [e |-> "lib"]      \* the library's own exception
IAEERR == [e |-> "iae"]      \* negative epoch number
DTEERR == [e |-> "dte"]      \* java.time: field not available

TwoTo31 == NPow(2, 31)
TwoTo32 == NPow(2, 32)
TwoTo63 == NPow(2, 63)
TwoTo64 == NPow(2, 64)

FixedInt == {"byte", "short", "int", "long"}
Bits(t) == CASE t = "byte" -> 8 [] t = "short" -> 16 [] t = "int" -> 32 [] t = "long" -> 64

\* the enormous part of a decimal's exponent; beyond any precision and any int as a shift
Huge(a) == IF "hx" \in DOMAIN a THEN a.hx ELSE [neg |-> FALSE, m |-> <<>>]

\* ---- integers: [e, neg, m, bits]; bits = 0 for arbitrary precision
IntForm(neg, m, bits) == [e |-> "", neg |-> neg /\ m # <<>>, m |-> m, bits |-> bits]

\* value saturated to a signed width
Saturate(neg, m, half) == IF neg THEN (IF NCmp(m, half) > 0 THEN half ELSE m)
                                 ELSE (IF NCmp(m, half) >= 0 THEN NSub(half, <<1>>) ELSE m)

\* integer part of a finite double
TruncDbl(c, q) == IF q >= 0 THEN NMul(c, NPow(2, q)) ELSE NDiv(c, NPow(2, -q))

\* (int)/(long) cast of a floating value
CastDbl(a, half, bits) ==
  CASE a.k = "nan" -> IntForm(FALSE, <<>>, bits)
    [] a.k = "inf" -> IntForm(a.neg, Saturate(a.neg, TwoTo64, half), bits)
    [] OTHER -> IntForm(a.neg, Saturate(a.neg, TruncDbl(a.c, a.q), half), bits)

\* floor(v + 1/2), saturated: [neg, m]
RoundDbl(a, half) ==
  LET n2 == IF a.q >= 0 THEN <<NMulDig(NMul(a.c, NPow(2, a.q)), 2), <<2>>>>
            ELSE <<NMulDig(a.c, 2), NMulDig(NPow(2, -a.q), 2)>>     \* |v| = n2[1]/n2[2] over 2*D
      D == n2[2]                                    \* = 2 * denominator
      N == n2[1]                                    \* |v| = N / D
      H == NDiv(D, <<2>>)                           \* 1/2 = H / D
      m == IF ~a.neg THEN NDiv(NAdd(N, H), D)
           ELSE IF NCmp(N, H) <= 0 THEN <<>>        \* -1/2 <= v <= 0
           ELSE NDiv(NAdd(NSub(N, H), NSub(D, <<1>>)), D)   \* ceil(|v| - 1/2)
  IN CASE a.k = "nan" -> [neg |-> FALSE, m |-> <<>>]
       [] a.k = "inf" -> [neg |-> a.neg, m |-> Saturate(a.neg, TwoTo64, half)]
       [] OTHER -> [neg |-> a.neg /\ m # <<>>, m |-> Saturate(a.neg, m, half)]

\* two's complement truncation to 32 bits, as a machine integer
ToInt32(neg, m) ==
  LET r0 == NMod(m, TwoTo32)
      r == IF neg /\ r0 # <<>> THEN NSub(TwoTo32, r0) ELSE r0
  IN IF NCmp(r, TwoTo31) < 0 THEN NToInt(r)
     ELSE LET b == NSub(TwoTo32, r) IN IF b = TwoTo31 THEN -2147483647 - 1 ELSE -NToInt(b)

\* ---- text to number
\* [+-]?digits : [ok, neg, m]
ParseInt(s) ==
  LET neg == Len(s) > 0 /\ s[1] = MINUS
      body == IF Len(s) > 0 /\ s[1] \in {MINUS, PLUS} THEN Tail(s) ELSE s
  IN IF body # <<>> /\ \A i \in 1..Len(body) : IsDigit(body[i])
     THEN [ok |-> TRUE, neg |-> neg, m |-> NFromDigits([i \in 1..Len(body) |-> body[i] - 48])]
     ELSE [ok |-> FALSE, neg |-> FALSE, m |-> <<>>]
InRange(p, half) == p.ok /\ (IF p.neg THEN NCmp(p.m, half) <= 0 ELSE NCmp(p.m, half) < 0)

\* floating literals as Double.parseDouble reads them, decimal and hexadecimal
FirstIn(s, S) == LET F == {i \in 1..Len(s) : s[i] \in S} IN
                 IF F = {} THEN 0 ELSE CHOOSE i \in F : \A j \in F : i <= j
Trim(s) == LET F == {i \in 1..Len(s) : s[i] > 32} IN
           IF F = {} THEN <<>>
           ELSE SubSeq(s, CHOOSE i \in F : \A j \in F : i <= j, CHOOSE i \in F : \A j \in F : i >= j)
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
DblRec(neg, r) == [k |-> IF r.inf THEN "inf" ELSE "fin", neg |-> neg, c |-> r.c, q |-> r.q]
\* the double nearest to m * 10^k
DecToDouble(neg, m, k) ==
  DblRec(neg, NearestDouble(IF k >= 0 THEN NMul(m, NPow(10, k)) ELSE m,
                            IF k < 0 THEN NPow(10, -k) ELSE <<1>>))
HexDigitVal(u) == IF u <= 57 THEN u - 48 ELSE IF u <= 70 THEN u - 55 ELSE u - 87
AllHexDigits(s) == \A i \in 1..Len(s) : s[i] \in (48..57) \cup (65..70) \cup (97..102)
RECURSIVE HexNat(_)
HexNat(s) == IF s = <<>> THEN <<>>
             ELSE NAdd(NMul(HexNat(SubSeq(s, 1, Len(s) - 1)), <<16>>), NFromInt(HexDigitVal(s[Len(s)])))
\* b: an unsigned literal that starts with 0x or 0X; the binary exponent is required
ParseHexDouble(neg, b) ==
  LET pi == FirstIn(b, {112, 80})
      man == IF pi = 0 THEN <<>> ELSE SubSeq(b, 3, pi - 1)
      exs0 == IF pi = 0 THEN <<>> ELSE SubSeq(b, pi + 1, Len(b))
      exs == IF Len(exs0) > 0 /\ exs0[Len(exs0)] \in {100, 68, 102, 70}
             THEN SubSeq(exs0, 1, Len(exs0) - 1) ELSE exs0
      ex == ParseInt(exs)
      di == FirstIn(man, {DOT})
      ip == IF di = 0 THEN man ELSE SubSeq(man, 1, di - 1)
      fp == IF di = 0 THEN <<>> ELSE SubSeq(man, di + 1, Len(man))
      ds == ip \o fp
      k == (IF ex.neg THEN -NToInt(ex.m) ELSE NToInt(ex.m)) - 4 * Len(fp)
      m == HexNat(ds)
  IN IF /\ pi # 0 /\ ds # <<>> /\ AllHexDigits(ip) /\ AllHexDigits(fp)
        /\ ex.ok /\ NCmp(ex.m, <<5000>>) <= 0
     THEN [ok |-> TRUE, v |-> DblRec(neg, NearestDouble(IF k >= 0 THEN NMul(m, NPow(2, k)) ELSE m,
                                                        IF k < 0 THEN NPow(2, -k) ELSE <<1>>))]
     ELSE [ok |-> FALSE, v |-> <<>>]
ParseDouble(s0) ==
  LET s == Trim(s0)
      neg == Len(s) > 0 /\ s[1] = MINUS
      b0 == IF Len(s) > 0 /\ s[1] \in {MINUS, PLUS} THEN Tail(s) ELSE s
      b == IF Len(b0) > 0 /\ b0[Len(b0)] \in {100, 68, 102, 70} THEN SubSeq(b0, 1, Len(b0) - 1) ELSE b0
      ei == FirstIn(b, {101, 69})
      man == IF ei = 0 THEN b ELSE SubSeq(b, 1, ei - 1)
      exs == IF ei = 0 THEN <<ZERO>> ELSE SubSeq(b, ei + 1, Len(b))
      ex == ParseInt(exs)
      di == FirstIn(man, {DOT})
      ip == IF di = 0 THEN man ELSE SubSeq(man, 1, di - 1)
      fp == IF di = 0 THEN <<>> ELSE SubSeq(man, di + 1, Len(man))
      e10 == IF ex.neg THEN -NToInt(ex.m) ELSE NToInt(ex.m)
      ds == ip \o fp
  IN CASE b0 = T_NaN -> [ok |-> TRUE, v |-> [k |-> "nan", neg |-> FALSE, c |-> <<>>, q |-> 0]]
       [] b0 = T_Infinity -> [ok |-> TRUE, v |-> [k |-> "inf", neg |-> neg, c |-> <<>>, q |-> 0]]
       [] Len(b0) > 1 /\ b0[1] = ZERO /\ b0[2] \in {120, 88} -> ParseHexDouble(neg, b0)
       [] ds # <<>> /\ AllDigits(ip) /\ AllDigits(fp) /\ ex.ok /\ NCmp(ex.m, <<5000>>) <= 0 ->
            [ok |-> TRUE, v |-> DecToDouble(neg, NFromDigits([i \in 1..Len(ds) |-> ds[i] - 48]),
                                            e10 - Len(fp))]
       [] OTHER -> [ok |-> FALSE, v |-> <<>>]

(* ---------------- date-times ---------------- *)
Temporals == {"inst", "odt", "zdt", "ldt", "ld", "lt"}
HasInstant == {"inst", "odt", "zdt"}
FloorDiv(a, b) == a \div b       \* TLA+ \div rounds to minus infinity for b > 0

DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == FloorDiv(y, 400)
      yoe == y - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilFromDays(z0) ==
  LET z == z0 + 719468
      era == FloorDiv(z, 146097)
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), mo |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]

\* signed big integers [neg, m] where needed for epoch arithmetic
SNeg(a) == [neg |-> ~a.neg, m |-> a.m]
SAdd(a, b) == IF a.neg = b.neg THEN [neg |-> a.neg, m |-> NAdd(a.m, b.m)]
              ELSE IF NCmp(a.m, b.m) >= 0 THEN [neg |-> a.neg, m |-> NSub(a.m, b.m)]
              ELSE [neg |-> b.neg, m |-> NSub(b.m, a.m)]
SInt(i) == [neg |-> i < 0, m |-> NFromInt(IF i < 0 THEN -i ELSE i)]
SNorm(a) == [neg |-> a.neg /\ a.m # <<>>, m |-> a.m]
\* floor division by a positive natural: <<quotient (signed), remainder (natural)>>
SFloorDivMod(a, b) ==
  LET qr == NDivMod(a.m, b)
  IN IF ~a.neg THEN <<[neg |-> FALSE, m |-> qr[1]], qr[2]>>
     ELSE IF qr[2] = <<>> THEN <<[neg |-> TRUE, m |-> qr[1]], <<>> >>
     ELSE <<[neg |-> TRUE, m |-> NAdd(qr[1], <<1>>)], NSub(b, qr[2])>>
SToInt(a) == IF a.neg THEN -NToInt(a.m) ELSE NToInt(a.m)

N86400 == NFromInt(86400)
N1000 == <<1000>>

\* epoch second of a date-time with an offset
EpochSecond(a) ==
  IF a.t = "inst" THEN [neg |-> a.neg, m |-> a.m]
  ELSE SNorm(SAdd([neg |-> DaysFromCivil(a.y, a.mo, a.d) < 0,
                   m |-> NMul(SInt(DaysFromCivil(a.y, a.mo, a.d)).m, N86400)],
                  SInt(a.h * 3600 + a.mi * 60 + a.s - a.off)))
EpochMilli(a) ==
  LET s == EpochSecond(a)
  IN SNorm(SAdd([neg |-> s.neg, m |-> NMul(s.m, N1000)], SInt(a.ns \div 1000000)))

(* Broken-down time: fields (set of what is available), y mo d h mi s ns off *)
DateF == {"date"}  TimeF == {"time"}  OffF == {"off"}
FieldsOf(t) == CASE t \in {"inst", "zdt"} -> {"date", "time", "off", "zone"} [] t = "odt" -> {"date", "time", "off"}
                 [] t = "ldt" -> {"date", "time"} [] t = "ld" -> {"date"} [] t = "lt" -> {"time"}

\* local date-time of an instant at an offset; zid is the zone it is shown in
ZoneOf(a) == IF "zid" \in DOMAIN a THEN a.zid ELSE <<>>
AtOffset(es, ns, off, zid) ==
  LET dr == SFloorDivMod(SNorm(SAdd(es, SInt(off))), N86400)
      civ == CivilFromDays(SToInt(dr[1]))
      sod == NToInt(dr[2])
  IN [e |-> "", t |-> "inst", y |-> civ.y, mo |-> civ.mo, d |-> civ.d, h |-> sod \div 3600,
      mi |-> (sod \div 60) % 60, s |-> sod % 60, ns |-> ns, off |-> off, zid |-> zid, str |-> <<>>]

\* epoch numbers: seconds up to 2^32-1, milliseconds beyond; offs/offm is the zone
\* offset in force if the number is read as seconds / milliseconds
FromEpochNumber(neg, m, a) ==
  IF neg THEN IAEERR
  ELSE IF NCmp(m, TwoTo32) < 0 THEN AtOffset([neg |-> FALSE, m |-> m], 0, a.offs, ZoneOf(a))
  ELSE LET qr == NDivMod(m, N1000)
       IN AtOffset([neg |-> FALSE, m |-> qr[1]], NToInt(qr[2]) * 1000000, a.offm, ZoneOf(a))
FromMillis(a) ==
  LET qr == SFloorDivMod([neg |-> a.neg, m |-> a.m], N1000)
  IN AtOffset(SNorm(qr[1]), NToInt(qr[2]) * 1000000 + a.ns, a.offm, ZoneOf(a))
Unsigned32(neg, m) == IF neg THEN NSub(TwoTo32, m) ELSE m
(* ================ the conversions ================ *)
\* for d i u o x X
AsIntForm(a) ==
  CASE a.t = "bool" -> IntForm(FALSE, NFromInt(a.v), 32)
    [] a.t = "char" -> IntForm(FALSE, NFromInt(a.v), 32)
    [] a.t \in FixedInt -> IntForm(a.neg, a.m, Bits(a.t))
    [] a.t = "bigint" -> IntForm(a.neg, a.m, 0)
    [] a.t = "float" -> CastDbl(a, TwoTo31, 32)
    [] a.t = "double" -> CastDbl(a, TwoTo63, 64)
    [] a.t = "bigdec" /\ Huge(a).m # <<>> -> IntForm(FALSE, <<>>, 0)   \* far below one
    [] a.t = "bigdec" -> IntForm(a.neg, IF a.sc > 0 THEN NDiv(a.m, NPow(10, a.sc))
                                        ELSE NMul(a.m, NPow(10, -a.sc)), 0)
    [] a.t = "str" -> LET p == ParseInt(a.s)
                      IN IF InRange(p, TwoTo63) THEN IntForm(p.neg, p.m, 64) ELSE LIBERR
    [] a.t = "num" -> IntForm(a.neg, a.m, 64)
    [] a.t \in {"date", "cal"} -> IntForm(a.neg, a.m, 64)
    [] a.t \in HasInstant -> LET z == EpochMilli(a)       \* refused beyond the long range
                             IN IF InRange([ok |-> TRUE, neg |-> z.neg, m |-> z.m], TwoTo63)
                                THEN IntForm(z.neg, z.m, 64) ELSE LIBERR
    [] OTHER -> LIBERR                                 \* null, objects, arrays, local date-times

\* for f e g a : [e, f] with f a double record or [k |-> "dec", neg, dec]
FDbl(r) == [e |-> "", f |-> r]
FInt(neg, m) == FDbl(DblRec(neg /\ m # <<>>, NearestDouble(m, <<1>>)))
FDec(neg, m, k, h) == [e |-> "", f |-> [k |-> "dec", neg |-> neg /\ m # <<>>, dec |-> MkDecimal(m, k),
                                        h |-> IF m = <<>> THEN [neg |-> FALSE, m |-> <<>>] ELSE h]]
\* double sum of the epoch second and the nanosecond fraction
EpochAsDouble(a) ==
  LET es == EpochSecond(a)
      fr == NearestDouble(NFromInt(a.ns), NFromInt(1000000000))
      D  == NPow(2, -fr.q)                     \* the fraction is below 1, so fr.q < 0
      sum == SAdd([neg |-> es.neg, m |-> NMul(es.m, D)], [neg |-> FALSE, m |-> fr.c])
  IN IF a.ns = 0 THEN DblRec(es.neg /\ es.m # <<>>, NearestDouble(es.m, <<1>>))
     ELSE DblRec(sum.neg /\ sum.m # <<>>, NearestDouble(sum.m, D))
AsFloatForm(a) ==
  CASE a.t \in {"bool", "char"} -> FInt(FALSE, NFromInt(a.v))
    [] a.t \in FixedInt -> FInt(a.neg, a.m)
    [] a.t = "bigint" -> FDec(a.neg, a.m, 0, Huge(a))
    [] a.t = "bigdec" -> FDec(a.neg, a.m, -a.sc, Huge(a))
    [] a.t \in {"float", "double"} -> FDbl([k |-> a.k, neg |-> a.neg, c |-> a.c, q |-> a.q])
    [] a.t = "str" -> LET p == ParseDouble(a.s) IN IF p.ok THEN FDbl(p.v) ELSE LIBERR
    [] a.t = "num" -> FDbl(a.d)
    [] a.t \in {"date", "cal"} -> FDbl(DecToDouble(a.neg /\ a.m # <<>>, a.m, -3))
    [] a.t \in HasInstant -> FDbl(EpochAsDouble(a))
    [] OTHER -> LIBERR

\* for * fields: [e, v]
OkInt(v) == [e |-> "", v |-> v]
AsInt(a) ==
  CASE a.t \in {"bool", "char"} -> OkInt(a.v)
    [] a.t \in FixedInt \cup {"bigint"} -> OkInt(ToInt32(a.neg, a.m))
    [] a.t = "float" -> LET r == RoundDbl(a, TwoTo31) IN OkInt(ToInt32(r.neg, r.m))
    [] a.t = "double" -> LET r == RoundDbl(a, TwoTo63) IN OkInt(ToInt32(r.neg, r.m))
    [] a.t = "bigdec" -> LET r == AsIntForm(a) IN OkInt(ToInt32(r.neg, r.m))
    [] a.t = "str" -> LET p == ParseInt(a.s)
                      IN IF InRange(p, TwoTo31) THEN OkInt(ToInt32(p.neg, p.m)) ELSE LIBERR
    [] a.t = "num" -> OkInt(a.i)
    [] a.t \in {"date", "cal"} -> OkInt(ToInt32(a.neg, NDiv(a.m, N1000)))
    [] a.t \in HasInstant -> LET z == EpochSecond(a) IN OkInt(ToInt32(z.neg, z.m))
    [] OTHER -> LIBERR

\* for c: [e, v] a code unit
AsChar(a) ==
  CASE a.t = "str" -> IF a.s = <<>> THEN LIBERR ELSE OkInt(a.s[1])
    [] a.t \in Temporals -> LIBERR
    [] OTHER -> LET r == AsInt(a) IN IF r.e # "" THEN r ELSE OkInt(r.v % 65536)

\* Base64 of bytes 0..255
B64Char(i) == CASE i < 26 -> 65 + i [] i < 52 -> 71 + i [] i < 62 -> i - 4 [] i = 62 -> 43 [] OTHER -> 47
Base64(b) ==
  LET n == Len(b)
      At(k) == IF k <= n THEN b[k] ELSE 0
  IN [i \in 1..4 * ((n + 2) \div 3) |->
        LET k == 3 * ((i - 1) \div 4) + 1                 \* the first byte of the group
            x == At(k)   y == At(k + 1)   z == At(k + 2)
        IN CASE i % 4 = 1 -> B64Char(x \div 4)
             [] i % 4 = 2 -> B64Char((x % 4) * 16 + y \div 16)
             [] i % 4 = 3 -> IF k + 1 <= n THEN B64Char((y % 16) * 4 + z \div 64) ELSE 61
             [] OTHER -> IF k + 2 <= n THEN B64Char(z % 64) ELSE 61]

\* for s: text
SignedText(neg, m) == (IF neg THEN <<MINUS>> ELSE <<>>) \o
                      (IF m = <<>> THEN <<ZERO>> ELSE DigitText(NDigits(m, 10)))
ListText(els) == <<91>> \o Join([i \in 1..Len(els) |-> (IF i = 1 THEN <<>> ELSE <<44, SP>>) \o els[i]]) \o <<93>>
AsText(a) ==
  CASE a.t = "bool" -> IF a.v = 1 THEN T_true ELSE T_false
    [] a.t = "char" -> <<a.v>>
    [] a.t \in FixedInt \cup {"bigint"} -> SignedText(a.neg, a.m)
    [] a.t = "str" -> a.s
    [] a.t = "null" -> T_null
    [] a.t = "arr" -> CASE a.el = "byte" -> Base64(a.b)
                        [] a.el = "char" -> a.s
                        [] OTHER -> ListText(a.els)
    [] OTHER -> a.str                                  \* as the Java runtime prints it

\* for t: broken-down time
AsTemporal(a) ==
  CASE a.t = "int" -> FromEpochNumber(FALSE, Unsigned32(a.neg, a.m), a)
    [] a.t \in {"long", "num"} -> FromEpochNumber(a.neg, a.m, a)
    [] a.t = "bigint" -> IF NCmp(a.m, TwoTo63) > 0 \/ (~a.neg /\ a.m = TwoTo63) THEN LIBERR
                         ELSE FromEpochNumber(a.neg, a.m, a)
    [] a.t \in {"date", "cal"} -> FromMillis(a)
    [] a.t = "inst" -> AtOffset([neg |-> a.neg, m |-> a.m], a.ns, a.off, ZoneOf(a))
    [] a.t \in {"odt", "zdt", "ldt", "ld", "lt"} -> a
    [] OTHER -> LIBERR
=============================================================================
