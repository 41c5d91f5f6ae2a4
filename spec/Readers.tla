------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* Several readers of one sequence whose text, or a part of it, is         *)
(* supplied by the caller on demand.  The supplier may be interrupted half *)
(* way, by another reader or by an error of its own.  A reader begins an   *)
(* observation; it is answered at once, or waits in the supplier until it  *)
(* is let go on, well or with an error.  Whatever the others do, an answer *)
(* is the whole text, and only a reader whose own run of the supplier      *)
(* failed sees the error.                                                  *)
(*                                                                         *)
(* Machine "own" supplies into a buffer of the reader and publishes the    *)
(* whole text.  "inplace" publishes the buffer before it is filled,        *)
(* "poison" keeps what a failed run left: both break Whole.                *)
(***************************************************************************)
EXTENDS Text, Json, Randomization

CONSTANTS Machine, Readers, Depth, Random

VARIABLES shape, memo, rd, hist
vars == <<shape, memo, rd, hist>>

Text8 == <<97, 98, 99, 100, 101, 102, 103, 104>>
Half == SubSeq(Text8, 1, 4)
Shapes == {"lazy", "concat", "prepend", "join", "twice", "upper", "cut", "deep"}
\* "stream" runs the supplier straight into the target; the others may keep what was supplied
Observers == {"string", "chars", "indexof", "cut", "upper", "stream", "write", "format", "formatS", "equal", "length"}
None == <<0>>
Idle == [st |-> "idle", ob |-> "", buf |-> <<>>, ans |-> None]
Error == <<1>>

Free(r) == rd[r].st # "supplying"
Note(o, r, ob) == hist' = Append(hist, [o |-> o, r |-> r, ob |-> ob])
Answer(r, ob, t) == rd' = [rd EXCEPT ![r] = [st |-> "answered", ob |-> ob, buf |-> <<>>, ans |-> t]]

Begin(r, ob) ==
  /\ Free(r)
  /\ Note("begin", r, ob)
  /\ IF ob = "length" THEN Answer(r, ob, Text8) /\ UNCHANGED memo
     ELSE IF ob # "stream" /\ memo # None THEN Answer(r, ob, memo) /\ UNCHANGED memo
     ELSE /\ rd' = [rd EXCEPT ![r] = [st |-> "supplying", ob |-> ob, buf |-> Half, ans |-> None]]
          /\ memo' = IF Machine = "inplace" /\ ob # "stream" THEN Half ELSE memo
  /\ UNCHANGED shape
Go(r) ==
  /\ rd[r].st = "supplying"
  /\ Note("go", r, rd[r].ob)
  /\ Answer(r, rd[r].ob, Text8)
  /\ memo' = IF rd[r].ob = "stream" THEN memo ELSE Text8
  /\ UNCHANGED shape
Fail(r) ==
  /\ rd[r].st = "supplying"
  /\ Note("fail", r, rd[r].ob)
  /\ Answer(r, rd[r].ob, Error)
  /\ memo' = IF Machine = "poison" /\ rd[r].ob # "stream" /\ memo = None THEN rd[r].buf ELSE memo
  /\ UNCHANGED shape

R(S) == RandomElement(S)
Init == /\ shape \in (IF Random THEN {R(Shapes)} ELSE Shapes)
        /\ memo = None /\ rd = [r \in 1..Readers |-> Idle] /\ hist = <<>>
RandomNext == \E r \in {R(1..Readers)}, ob \in {R(Observers)}, k \in {R(1..4)} :
                IF Free(r) THEN Begin(r, ob) ELSE IF k = 1 THEN Fail(r) ELSE Go(r)
\* the first reader to begin is reader 1
AllNext == \E r \in 1..Readers : \/ ((hist = <<>> => r = 1) /\ \E ob \in {"string", "stream", "cut", "write", "formatS", "upper"} : Begin(r, ob))
                                 \/ Go(r) \/ Fail(r)
Next == Len(hist) < Depth /\ IF Random THEN RandomNext ELSE AllNext
Spec == Init /\ [][Next]_vars

Whole == \A r \in 1..Readers : rd[r].st = "answered" => rd[r].ans \in {Text8, Error}
OwnError == \A r \in 1..Readers : rd[r].st = "answered" /\ rd[r].ans = Error => \E k \in 1..Len(hist) : hist[k].o = "fail" /\ hist[k].r = r
Emitted == Len(hist) = Depth => PrintT(ToJson([shape |-> shape, n |-> Readers, h |-> hist]))
=============================================================================
