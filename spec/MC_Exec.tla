------------------------------ MODULE MC_Exec ------------------------------
(***************************************************************************)
(* The execution machine: programs of a few items over short argument      *)
(* lists, one item per step.  Checks the order and number of arguments     *)
(* consumed, that output only grows and that a call ends "done" exactly    *)
(* when the arguments suffice and convert.  Every run is emitted.          *)
(***************************************************************************)
EXTENDS Printf, Json

CONSTANTS Items,        \* number of items used from ItemList (a prefix)
          MaxItems, MaxArgs,
          Vals          \* number of argument values used from ValList (a prefix)

VARIABLES fmt, args, prog, x
vars == <<fmt, args, prog, x>>

V(n) == [t |-> "int", neg |-> n < 0, m |-> NFromInt(IF n < 0 THEN -n ELSE n)]
ValList == <<V(3), V(-2), [t |-> "null"], [t |-> "str", s |-> <<53>>], V(70000)>>

\* %d  %*d  %.*d  lit  %n  %*.*d  %%  %-*s  %5%  %.*s
ItemList == << <<PCT, 100>>, <<PCT, STAR, 100>>, <<PCT, DOT, STAR, 100>>, <<124>>, <<PCT, 110>>,
               <<PCT, STAR, DOT, STAR, 100>>, <<PCT, PCT>>, <<PCT, MINUS, STAR, 115>>, <<PCT, 53, PCT>>,
               <<PCT, DOT, STAR, 115>> >>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ \E w \in Seqs(1..Items, MaxItems) : fmt = Join([i \in 1..Len(w) |-> ItemList[w[i]]])
        /\ args = <<>> /\ prog = Parse(fmt).prog /\ x = [XStart EXCEPT !.st = "args"]

\* the caller builds the argument list, then the items run one by one
AddArg == /\ x.st = "args" /\ Len(args) < MaxArgs
          /\ \E i \in 1..Vals : args' = Append(args, ValList[i])
          /\ UNCHANGED <<fmt, prog, x>>
Begin == x.st = "args" /\ x' = XStart /\ UNCHANGED <<fmt, args, prog>>
Item == /\ x.st = "run" /\ x.pc <= Len(prog)
        /\ x' = XStep(fmt, prog, args, x) /\ UNCHANGED <<fmt, args, prog>>
Finish == /\ x.st = "run" /\ x.pc > Len(prog)
          /\ x' = [x EXCEPT !.st = "done"] /\ UNCHANGED <<fmt, args, prog>>
Next == AddArg \/ Begin \/ Item \/ Finish
Spec == Init /\ [][Next]_vars

Need(it) == IF it.k = "lit" THEN 0 ELSE 1 + (IF it.w = ARG THEN 1 ELSE 0) + (IF it.p = ARG THEN 1 ELSE 0)
NeedUpTo(n) == FoldLeftDomain(LAMBDA acc, i : IF i <= n THEN acc + Need(prog[i]) ELSE acc, 0, prog)

\* arguments used so far are exactly those needed by the items executed so far
InOrder == x.ac - 1 = NeedUpTo(x.pc - 1)
Enough == x.st = "done" => NeedUpTo(Len(prog)) <= Len(args) /\ x.pc = Len(prog) + 1
Missing == (x.st = "run" /\ x.pc <= Len(prog) /\ NeedUpTo(x.pc) > Len(args)) => XStep(fmt, prog, args, x).st # "run"
\* a failed call stops before the failing item: its text is the text of the items before
FailPrefix == x.st \in {"lib"} =>
   x.out = ExecProg(fmt, SubSeq(prog, 1, x.pc - 1), args).out
\* surplus arguments change nothing
Surplus == x.st = "done" => LET r == ExecProg(fmt, prog, Take(args, NeedUpTo(Len(prog))))
                            IN r.st = "done" /\ r.out = x.out
Grows == [][x'.st # "args" => Take(x'.out, Len(x.out)) = x.out]_vars

Emitted == x.st \in {"done", "lib"} => PrintT(ToJson([f |-> fmt, a |-> args, x |-> [st |-> x.st, s |-> x.out]]))
=============================================================================
