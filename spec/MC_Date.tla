------------------------------ MODULE MC_Date ------------------------------
(***************************************************************************)
(* Calendar arithmetic and date patterns.  The calendar is checked against *)
(* its declarative definition (leap years, month lengths, seven weekdays), *)
(* instants and offset date-times must agree, and every date is emitted    *)
(* with several patterns for replay (time zone UTC).                       *)
(***************************************************************************)
EXTENDS Printf, Json

CONSTANTS Years, Deep

VARIABLES yr, day
vars == <<yr, day>>

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, mo) == CASE mo = 2 -> IF Leap(y) THEN 29 ELSE 28 [] mo \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
NextDay(z) == IF z.d < MonthLen(z.y, z.mo) THEN [z EXCEPT !.d = @ + 1]
              ELSE IF z.mo < 12 THEN [y |-> z.y, mo |-> z.mo + 1, d |-> 1] ELSE [y |-> z.y + 1, mo |-> 1, d |-> 1]

None == [y |-> 0, mo |-> 0, d |-> 0]
Init == yr \in Years /\ day = None
Next == /\ day = None
        /\ \E mo \in 1..12, d \in {1, 2, 15, 28, 29, 30, 31} :
             d <= MonthLen(yr, mo) /\ day' = [y |-> yr, mo |-> mo, d |-> d]
        /\ UNCHANGED yr
Spec == Init /\ [][Next]_vars

N(z) == DaysFromCivil(z.y, z.mo, z.d)
Calendar == day # None =>
  /\ CivilFromDays(N(day)) = day
  /\ N(NextDay(day)) = N(day) + 1
  /\ CivilFromDays(N(day) + 1) = NextDay(day)
  /\ DayOfWeek(NextDay(day)) = (DayOfWeek(day) % 7) + 1
  /\ DayOfYear(day) \in 1..(IF Leap(day.y) THEN 366 ELSE 365)
  /\ N([y |-> 1970, mo |-> 1, d |-> 1]) = 0
  /\ DayOfWeek([y |-> 1970, mo |-> 1, d |-> 1]) = 4

Times == {<<0, 0, 0, 0>>, <<23, 59, 59, 999999999>>, <<12, 5, 9, 120000000>>} \cup
         (IF Deep THEN {<<11, 59, 0, 1>>, <<13, 0, 30, 5000>>} ELSE {})
Offsets == {0, 3600, -12600} \cup (IF Deep THEN {64800, -64800, 19800, 3661} ELSE {})
T(t, z, w, off) == [t |-> t, e |-> "", y |-> z.y, mo |-> z.mo, d |-> z.d, h |-> w[1], mi |-> w[2], s |-> w[3], ns |-> w[4],
                    off |-> off, str |-> <<>>]
InstOf(a) == LET es == EpochSecond(a) IN [t |-> "inst", e |-> "", neg |-> es.neg, m |-> es.m, ns |-> a.ns, off |-> 0]

\* an instant denotes the same moment as the offset date-time it came from
SameMoment == day # None => \A w \in Times, off \in Offsets :
  LET a == T("odt", day, w, off)
      i == InstOf(a)
      z == AtOffset([neg |-> i.neg, m |-> i.m], i.ns, off, <<>>)
  IN /\ z.y = a.y /\ z.mo = a.mo /\ z.d = a.d /\ z.h = a.h /\ z.mi = a.mi /\ z.s = a.s /\ z.ns = a.ns
     /\ EpochSecond(a) = [neg |-> i.neg, m |-> i.m]

\* %t{...}: uuuu-MM-dd'T'HH:mm:ss.SSSXXX   EEE D h a   yy''M'}'d   [HH]uuuu
Pats == << <<>>,
           <<123,117,117,117,117,45,77,77,45,100,100,39,84,39,72,72,58,109,109,58,115,115,46,83,83,83,88,88,88,125>>,
           <<123,69,69,69,32,68,32,104,32,97,125>>,
           <<123,121,121,39,39,77,39,125,39,100,125>>,
           <<123,91,72,72,93,117,117,117,117,125>> >>
ArgsHere == {T("odt", day, w, off) : w \in Times, off \in Offsets} \cup {T("ldt", day, w, 0) : w \in Times}
            \cup {T("ld", day, <<0, 0, 0, 0>>, 0)} \cup {InstOf(T("odt", day, w, 0)) : w \in Times}
Fmts == {<<PCT, c>> \o Pats[i] : c \in {116, 84}, i \in 1..Len(Pats)}
Emitted == day # None => \A a \in ArgsHere : \A f \in Fmts :
  LET r == Exec(f, <<a>>)
  IN PrintT(ToJson([f |-> f, a |-> <<a>>, x |-> [st |-> r.st, s |-> r.out]]))
=============================================================================
