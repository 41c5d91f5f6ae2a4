---------------------------- MODULE TracePrintf ----------------------------
(***************************************************************************)
(* Validation of recorded format calls.  Each line of the trace is one     *)
(* public call with its format f, its arguments a and its outcome r:       *)
(*   st  "done", "syntax" (refused at compile time), "lib", "iae", "dte"   *)
(*   s   the text that reached the output (up to the failing directive)    *)
(* The trace is cut into Chunks independent lanes so that TLC's workers    *)
(* validate them in parallel; the state is the position in each lane.      *)
(***************************************************************************)
EXTENDS Printf, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64
N == Len(Trace)

VARIABLES lane, pos, good
vars == <<lane, pos, good>>

Init == lane \in 1..Lanes /\ pos = lane /\ good = TRUE

\* one recorded call: allowed by the specification, or reported (and the lane goes on)
Call == /\ pos <= N
        /\ LET ev == Trace[pos]
               x == Exec(ev.f, ev.a)
               ok == x.st = ev.r.st /\ x.out = ev.r.s
           IN /\ (IF ok THEN TRUE ELSE PrintT(<<"REJECT", ev.id, x>>))
              /\ good' = ok
        /\ pos' = pos + Lanes /\ UNCHANGED lane
Next == Call
Spec == Init /\ [][Next]_vars
=============================================================================
