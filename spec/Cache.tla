-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* Concurrent, nested and failing calls on shared formatters.              *)
(*                                                                         *)
(* Each formatter prints "<", its first argument, ",", its second          *)
(* argument, ">".  Rendering an argument is a call-back into user code,    *)
(* where the argument may print a short text, a very long text, start a    *)
(* nested call (whose result becomes its text), or throw; the exception    *)
(* ends one or more of the enclosing calls and the argument that catches   *)
(* it prints "!".                                                          *)
(*                                                                         *)
(* The mechanism is modelled: a formatter with the cache on keeps one      *)
(* builder per thread, takes it out while a call uses it and puts it back  *)
(* when the call ends or fails.  The property is that the text of every    *)
(* call is the function of its own arguments computed alongside (want).    *)
(* Fault # "none" names a broken mechanism, for which the property fails.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, Randomization

CONSTANTS Threads,     \* thread numbers
          MaxSteps,    \* actions in a behaviour
          MaxDepth,    \* nesting depth
          Fault,       \* "none", "shared", "inuse", "noreset"
          Random,
          Fs,          \* formatters used
          Rich,        \* TRUE: also long texts and calls into the caller's own builder
          Parked       \* TRUE: only emit behaviours whose threads are all done

Formatters == 1..3
Cached == {1, 2}
ARITY == 2

VARIABLES stack,     \* thread -> sequence of frames, innermost last
          slot,      \* thread, formatter -> cached builder (0 = taken)
          text,      \* builder -> tokens in it
          hist
vars == <<stack, slot, text, hist>>

\* tokens: 1 "<"  2 ","  3 ">"  4 "!"  5 a very long text  6 "(" 7 ")"  100+n the short text of step n
Owner(t) == IF Fault = "shared" THEN CHOOSE x \in Threads : \A y \in Threads : x <= y ELSE t
Builders == 1..Len(text)
Frame(f, mode, b) == [f |-> f, mode |-> mode, b |-> b, n |-> 0, want |-> <<>>, at |-> Len(hist) + 1]

Init == /\ stack = [t \in Threads |-> <<>>]
        /\ slot = [t \in Threads |-> [f \in Formatters |-> 0]]
        /\ text = <<>>
        /\ hist = <<>>

Depth(t) == Len(stack[t])
Top(t) == stack[t][Depth(t)]
CanRender(t) == Depth(t) > 0

\* write tokens to the top frame of a thread
Put(tx, b, toks) == [tx EXCEPT ![b] = @ \o toks]

Log(r) == hist' = Append(hist, r)

\* a call begins: at top level, or inside the rendering of the next argument
Begin(t, f, mode) ==
  /\ Depth(t) < MaxDepth
  /\ LET o == Owner(t)
         have == slot[o][f]
         reuse == mode = "string" /\ f \in Cached /\ have # 0
         b == IF reuse THEN have ELSE Len(text) + 1
         tx == IF ~reuse THEN Append(text, <<>>)
               ELSE IF Fault = "noreset" THEN text ELSE [text EXCEPT ![have] = <<>>]
     IN /\ text' = Put(tx, b, <<1>>)
        /\ slot' = IF reuse /\ Fault \notin {"inuse", "shared"} THEN [slot EXCEPT ![o][f] = 0] ELSE slot
        /\ stack' = [stack EXCEPT ![t] = Append(@, [Frame(f, mode, b) EXCEPT !.want = <<1>>])]
        /\ Log([t |-> t, a |-> "begin", f |-> f, mode |-> mode, k |-> 0])

Separator(n) == IF n = ARITY THEN <<3>> ELSE <<2>>
\* frames and texts after the top frame of st has rendered an argument as toks; when that was the
\* last argument the call returns, and its result is the text of the argument that nested it
Return(t, fr, slots) == IF fr.mode = "string" /\ fr.f \in Cached
                        THEN [slots EXCEPT ![Owner(t)][fr.f] = fr.b] ELSE slots

Render(t, toks, kind) ==
  /\ CanRender(t)
  /\ LET fr == Top(t)
         n == fr.n + 1
         out == toks \o Separator(n)
     IN /\ text' = Put(text, fr.b, out)
        /\ stack' = [stack EXCEPT ![t][Depth(t)] = [fr EXCEPT !.n = n, !.want = @ \o out]]
        /\ UNCHANGED slot
        /\ Log([t |-> t, a |-> kind, f |-> 0, mode |-> "", k |-> 0])
Running(t) == CanRender(t) /\ Top(t).n < ARITY

\* the call of the top frame returns its text
End(t) ==
  /\ CanRender(t) /\ Top(t).n = ARITY
  /\ LET fr == Top(t)
         res == text[fr.b]
         d == Depth(t)
         outer == [stack[t][d - 1] EXCEPT !.n = @ + 1]
         toks == <<6>> \o res \o <<7>>
         wtoks == <<6>> \o fr.want \o <<7>>
     IN /\ slot' = Return(t, fr, slot)
        /\ IF d = 1 THEN stack' = [stack EXCEPT ![t] = <<>>] /\ text' = text
           ELSE /\ stack' = [stack EXCEPT ![t] = Append(SubSeq(@, 1, d - 2),
                             [outer EXCEPT !.want = @ \o wtoks \o Separator(outer.n)])]
                /\ text' = Put(text, outer.b, toks \o Separator(outer.n))
        /\ Log([t |-> t, a |-> "end", f |-> fr.f, mode |-> fr.mode, k |-> fr.at, got |-> res, want |-> fr.want])

\* the argument being rendered throws; j enclosing calls fail, then an argument catches it
Throw(t, j) ==
  /\ Running(t) /\ j \in 1..Depth(t)
  /\ LET d == Depth(t)
         gone == [i \in 1..j |-> stack[t][d + 1 - i]]
         slots == LET RECURSIVE Back(_, _)
                      Back(i, s) == IF i > j THEN s ELSE Back(i + 1, Return(t, gone[i], s))
                  IN Back(1, slot)
         rest == SubSeq(stack[t], 1, d - j)
     IN /\ slot' = slots
        /\ IF d = j THEN stack' = [stack EXCEPT ![t] = <<>>] /\ text' = text
           ELSE LET outer == [rest[d - j] EXCEPT !.n = @ + 1]
                    toks == <<4>> \o Separator(outer.n)
                IN /\ stack' = [stack EXCEPT ![t] = [rest EXCEPT ![d - j] = [outer EXCEPT !.want = @ \o toks]]]
                   /\ text' = Put(text, outer.b, toks)
        /\ Log([t |-> t, a |-> "throw", f |-> 0, mode |-> "", k |-> j,
                got |-> [i \in 1..j |-> text[gone[i].b]], want |-> [i \in 1..j |-> gone[i].want],
                at |-> [i \in 1..j |-> gone[i].at], modes |-> [i \in 1..j |-> gone[i].mode]])

Modes == {"string", "builder"}
Step(t) == \/ (Depth(t) = 0 \/ Running(t)) /\ \E f \in Fs : Begin(t, f, "string")
           \/ (Depth(t) = 0 \/ Running(t)) /\ Rich /\ Begin(t, 1, "builder")
           \/ Running(t) /\ Render(t, <<100 + Len(hist)>>, "text")
           \/ Running(t) /\ Rich /\ Render(t, <<5>>, "long")
           \/ End(t)
           \/ \E j \in 1..MaxDepth : Throw(t, j)

\* in simulation one action is drawn; near the end threads only finish what they started
Left == MaxSteps - Len(hist)
R(S) == RandomElement(S)
Busy == {t \in Threads : Depth(t) > 0}
RandomStep ==
  \E t \in {R(Threads)}, u \in {IF Busy = {} THEN 0 ELSE R(Busy)}, k \in {R(1..12)}, f \in {R(Formatters)},
     m \in {<<"string", "string", "builder">>[R(1..3)]}, same \in {R(BOOLEAN)}, j \in {R(1..MaxDepth)} :
     IF Left < 30 THEN
        IF u = 0 THEN FALSE
        ELSE IF Running(u) THEN Render(u, <<100 + Len(hist)>>, "text") ELSE End(u)
     ELSE IF Depth(t) = 0 THEN Begin(t, f, m)
     ELSE IF Top(t).n = ARITY THEN End(t)
     ELSE CASE k = 5 -> Render(t, <<5>>, "long")
            [] k \in 6..10 /\ Depth(t) < MaxDepth -> Begin(t, IF same THEN Top(t).f ELSE f, m)
            [] k = 11 -> Throw(t, IF j < Depth(t) THEN j ELSE Depth(t))
            [] OTHER -> Render(t, <<100 + Len(hist)>>, "text")

Next == /\ Len(hist) < MaxSteps
        /\ IF Random THEN RandomStep ELSE \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* every finished call returned the text of its own arguments; a failed call left its prefix
Pure == hist # <<>> => LET e == hist[Len(hist)] IN e.a \in {"end", "throw"} => e.got = e.want
\* at every moment the builder of a call in progress holds exactly what that call wrote
Own == \A t \in Threads : \A i \in 1..Depth(t) : text[stack[t][i].b] = stack[t][i].want
\* no builder is used by two calls in progress, nor offered while in use
Exclusive == \A t, u \in Threads : \A i \in 1..Depth(t), j \in 1..Depth(u) :
   (t # u \/ i # j) => stack[t][i].b # stack[u][j].b
NotOffered == \A t, u \in Threads : \A f \in Formatters : \A j \in 1..Depth(u) :
   slot[t][f] # 0 => slot[t][f] # stack[u][j].b
\* a finished thread has its builder back
Idle == \A t \in Threads : Depth(t) = 0
Emitted == (IF Parked THEN Idle /\ hist # <<>> /\ (Len(hist) = MaxSteps \/ (Random /\ Left < 30)) ELSE Len(hist) = MaxSteps)
           => PrintT(ToJson([h |-> hist]))
=============================================================================
