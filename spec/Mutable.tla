------------------------------ MODULE Mutable ------------------------------
(***************************************************************************)
(* Argument objects that change between calls.  The caller holds a few     *)
(* mutable objects (builders, buffers, arrays, dates, counters, ...) and   *)
(* argument lists made of them once; it changes the objects and reuses the *)
(* lists.  A call prints the objects as they are at that call and leaves   *)
(* them as they are.                                                       *)
(*                                                                         *)
(* Memo = TRUE is a faulty machine that prints an object as it was when a  *)
(* list first showed it; it must violate Current.                          *)
(***************************************************************************)
EXTENDS Printf, Json, Randomization

CONSTANTS Objects, Depth, Random, Memo

VARIABLES kinds, vals, memo, hist
vars == <<kinds, vals, memo, hist>>

Kinds == {"sb", "sbuf", "buf", "chars", "ints", "bytes", "chararr", "objs", "date", "cal", "along", "aint", "obj", "list", "num"}
Vs == 1..4

\* "ab" "12" "" "7xyz"
Texts == << <<97, 98>>, <<49, 50>>, <<>>, <<55, 120, 121, 122>> >>
Numbers == <<3, -2, 65, 1234567>>
Days == << <<FALSE, <<>> >>, <<FALSE, <<123, 0, 7, 1>> >>, <<TRUE, <<9999>> >>, <<FALSE, <<5000, 8640, 3>> >> >>
NumText(n) == IF n < 0 THEN <<MINUS>> \o NatText(-n) ELSE NatText(n)
Pairs == << <<Texts[1], Texts[2]>>, <<Texts[2], Texts[3]>>, <<Texts[1], Texts[1]>>, <<Texts[3], Texts[4]>> >>
IntPairs == << <<1, 2>>, <<3, 2>>, <<0, 65>>, <<7, 7>> >>
Abs(n) == NFromInt(IF n < 0 THEN -n ELSE n)
Dbl(n) == LET b == NBitLen(Abs(n)) IN [k |-> "fin", neg |-> n < 0, c |-> NMul(Abs(n), NPow(2, 53 - b)), q |-> b - 53]

Base == [prim |-> 0, id |-> <<>>]
Rec(k, v) ==
  CASE k \in {"sb", "sbuf", "buf", "chars"} -> Base @@ [t |-> "str", s |-> Texts[v]]
    [] k = "ints" -> Base @@ [t |-> "arr", el |-> "int", els |-> [i \in 1..2 |-> NumText(IntPairs[v][i])]]
    [] k = "bytes" -> Base @@ [t |-> "arr", el |-> "byte", b |-> IntPairs[v]]
    [] k = "chararr" -> Base @@ [t |-> "arr", el |-> "char", s |-> <<96 + v, 100 - v>>]
    [] k = "objs" -> Base @@ [t |-> "arr", el |-> "Object", els |-> Pairs[v]]
    [] k = "date" -> Base @@ [t |-> "date", neg |-> Days[v][1], m |-> Days[v][2], ns |-> 0, offm |-> 0, str |-> <<>>]
    [] k = "cal" -> Base @@ [t |-> "cal", neg |-> Days[v][1], m |-> Days[v][2], ns |-> 0, offm |-> 0, str |-> <<>>]
    [] k \in {"along", "aint", "num"} ->
         LET n == Numbers[v] IN Base @@ [t |-> "num", neg |-> n < 0, m |-> Abs(n), i |-> n, d |-> Dbl(n), str |-> NumText(n)]
    [] k = "obj" -> Base @@ [t |-> "obj", s |-> Texts[v], str |-> Texts[v]]
    [] k = "list" -> Base @@ [t |-> "obj", s |-> <<>>, els |-> Pairs[v], str |-> <<91>> \o Pairs[v][1] \o <<44, 32>> \o Pairs[v][2] \o <<93>>]

\* directives used with each kind
Dirs(k) ==
  CASE k \in {"sb", "sbuf", "buf", "chars"} ->   \* %s %S %.1s %4s %d %c
         << <<PCT, 115>>, <<PCT, 83>>, <<PCT, DOT, 49, 115>>, <<PCT, 52, 115>>, <<PCT, 100>>, <<PCT, 99>> >>
    [] k \in {"ints", "bytes", "chararr", "objs", "obj", "list"} ->  \* %s %S %-9s %.2s
         << <<PCT, 115>>, <<PCT, 83>>, <<PCT, MINUS, 57, 115>>, <<PCT, DOT, 50, 115>> >>
    [] k \in {"date", "cal"} ->   \* %t{uuuu-MM-dd'T'HH} %d %T{EEE} %.2f
         << <<PCT, 116, 123, 117, 117, 117, 117, 45, 77, 77, 45, 100, 100, 39, 84, 39, 72, 72, 125>>, <<PCT, 100>>, <<PCT, 84, 123, 69, 69, 69, 125>>,
            <<PCT, DOT, 50, 102>> >>
    [] OTHER ->                   \* %d %s %x %c %.1f
         << <<PCT, 100>>, <<PCT, 115>>, <<PCT, 120>>, <<PCT, 99>>, <<PCT, DOT, 49, 102>> >>

Pick(k, j) == 1 + (j % Len(Dirs(k)))

Here == [i \in 1..Objects |-> Rec(kinds[i], vals[i])]
\* the values a call sees: those of the moment, or, in the faulty machine, the first ones shown
Seen(i) == IF Memo /\ memo[i] # 0 THEN Rec(kinds[i], memo[i]) ELSE Here[i]

\* what one directive followed by | makes of a kind in a state: a table of fresh calls
Fresh == [k \in Kinds |-> [v \in Vs |-> [j \in 1..Len(Dirs(k)) |-> LET r == Exec(Dirs(k)[j] \o <<124>>, <<Rec(k, v)>>) IN [st |-> r.st, s |-> r.out]]]]
\* a call, composed from the table
Composed(l, js, vs) ==
  LET part(n) == LET k == kinds[l[n]] IN Fresh[k][vs[l[n]]][Pick(k, js[n])]
      join(r, n) == IF r.st # "done" THEN r ELSE [st |-> part(n).st, s |-> r.s \o part(n).s]
  IN FoldLeftDomain(join, [st |-> "done", s |-> <<>>], l)

Lists == IF Objects = 1 THEN {<<1>>, <<1, 1>>} ELSE {<<1>>, <<2, 1>>, <<1, 2>>, <<3, 1, 2>>, <<3, 3>>}
Call(l, js) ==
  LET f == Join([n \in 1..Len(l) |-> Dirs(kinds[l[n]])[Pick(kinds[l[n]], js[n])] \o <<124>>])
      e == Exec(f, [n \in 1..Len(l) |-> Seen(l[n])])
      r == IF Random THEN Composed(l, js, vals) ELSE [st |-> e.st, s |-> e.out]
  IN /\ hist' = Append(hist, [o |-> "call", l |-> l, j |-> js, f |-> f, i |-> 0, rec |-> Base, v |-> vals, x |-> r])
     /\ memo' = [i \in 1..Objects |-> IF memo[i] = 0 /\ \E n \in 1..Len(l) : l[n] = i THEN vals[i] ELSE memo[i]]
     /\ UNCHANGED <<kinds, vals>>
Change(i, v) ==
  /\ vals' = [vals EXCEPT ![i] = v]
  /\ hist' = Append(hist, [o |-> "set", l |-> <<>>, j |-> <<>>, f |-> <<>>, i |-> i, rec |-> Rec(kinds[i], v), v |-> vals', x |-> [st |-> "", s |-> <<>>]])
  /\ UNCHANGED <<kinds, memo>>

R(S) == RandomElement(S)
RandomNext ==
  \E k \in {R(1..5)}, i \in {R(1..Objects)}, v \in {R(Vs)}, l \in {R(Lists)}, a \in {R(1..6)}, b \in {R(1..6)}, c \in {R(1..6)} :
    IF k <= 2 THEN Change(i, v) ELSE Call(l, <<a, b, c>>)
AllNext == \/ \E i \in 1..Objects, v \in Vs : v # vals[i] /\ Change(i, v)
           \/ \E l \in Lists, j \in 0..2 : Call(l, <<j, j + 1, j>>)

Init == /\ kinds \in [1..Objects -> Kinds]
        /\ vals = [i \in 1..Objects |-> 1] /\ memo = [i \in 1..Objects |-> 0] /\ hist = <<>>
Next == Len(hist) < Depth /\ IF Random THEN RandomNext ELSE AllNext
Spec == Init /\ [][Next]_vars

\* every call shows the objects as they were at that call
Current == hist # <<>> /\ hist[Len(hist)].o = "call" =>
  LET h == hist[Len(hist)] IN h.x = Composed(h.l, h.j, h.v)
\* a call changes no object
Untouched == [][hist' # hist /\ hist'[Len(hist')].o = "call" => vals' = vals]_vars
Emitted == Len(hist) = Depth =>
  PrintT(ToJson([k |-> kinds, init |-> [i \in 1..Objects |-> Rec(kinds[i], 1)], h |-> hist]))
=============================================================================
