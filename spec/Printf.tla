------------------------------- MODULE Printf -------------------------------
(***************************************************************************)
(* Execution of a compiled program over an argument list.                  *)
(*                                                                         *)
(* XStep executes one item: a literal is copied; a directive takes its     *)
(* width argument, its precision argument and its value, in this order,    *)
(* and appends its text or stops the call with an error.                   *)
(***************************************************************************)
EXTENDS Render

\* machine state: next item pc, next argument ac, text written, status
XStart == [pc |-> 1, ac |-> 1, out |-> <<>>, st |-> "run"]
XFail(x, e) == [x EXCEPT !.st = e]

TakeInt(args, i) == IF i > Len(args) THEN LIBERR ELSE AsInt(args[i])

\* width from an argument: [e, w, left]
ArgWidth(v) == IF v > LIMIT \/ v < -LIMIT THEN LIBERR
               ELSE [e |-> "", w |-> IF v < 0 THEN -v ELSE v, left |-> v < 0]
ArgPrecision(v) == IF v > LIMIT THEN LIBERR ELSE [e |-> "", p |-> IF v < 0 THEN UNSET ELSE v]

\* the directive with its dynamic fields resolved, and the number of arguments used so far
Resolve(d, args, i) ==
  LET wi == IF d.w = ARG THEN TakeInt(args, i) ELSE OkInt(0)
      wr == IF d.w # ARG THEN [e |-> "", w |-> d.w, left |-> FALSE]
            ELSE IF wi.e # "" THEN wi ELSE ArgWidth(wi.v)
      j  == IF d.w = ARG THEN i + 1 ELSE i
      pi == IF d.p = ARG THEN TakeInt(args, j) ELSE OkInt(0)
      pr == IF d.p # ARG THEN [e |-> "", p |-> d.p]
            ELSE IF pi.e # "" THEN pi ELSE ArgPrecision(pi.v)
      k  == IF d.p = ARG THEN j + 1 ELSE j
  IN IF wr.e # "" THEN [e |-> wr.e] ELSE IF pr.e # "" THEN [e |-> pr.e]
     ELSE [e |-> "", next |-> k,
           dir |-> [fl |-> IF wr.left THEN d.fl \cup {MINUS} ELSE d.fl,
                    w |-> wr.w, p |-> pr.p, c |-> d.c, pat |-> d.pat]]

\* a directive: its text and the arguments it used
DoDirective(d, args, i) ==
  LET r == Resolve(d, args, i)
  IN IF r.e # "" THEN [e |-> r.e]
     ELSE IF r.next > Len(args) THEN LIBERR
     ELSE LET t == Fmt(r.dir, args[r.next])
          IN IF t.e # "" THEN [e |-> t.e] ELSE [e |-> "", s |-> t.s, next |-> r.next + 1]

XStep(f, prog, args, x) ==
  LET it == prog[x.pc]
  IN IF it.k = "lit" THEN [x EXCEPT !.pc = @ + 1, !.out = @ \o SubSeq(f, it.a, it.b)]
     ELSE LET r == DoDirective(it, args, x.ac)
          IN IF r.e # "" THEN XFail(x, r.e)
             ELSE [x EXCEPT !.pc = @ + 1, !.ac = r.next, !.out = @ \o r.s]

\* the whole call: [st |-> "done" / error, out |-> text written]
ExecProg(f, prog, args) ==
  LET step(x, i) == IF x.st # "run" THEN x ELSE XStep(f, prog, args, x)
      x == FoldLeftDomain(step, XStart, prog)
  IN [st |-> IF x.st = "run" THEN "done" ELSE x.st, out |-> x.out, used |-> x.ac - 1]

\* compile and run: st is "syntax" when the format is refused
Exec(f, args) ==
  LET g == Parse(f)
  IN IF g.err THEN [st |-> "syntax", out |-> <<>>, used |-> 0] ELSE ExecProg(f, g.prog, args)
=============================================================================
