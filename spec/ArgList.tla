------------------------------ MODULE ArgList ------------------------------
(***************************************************************************)
(* Argument lists.  A list is a sequence of entries; an entry names the    *)
(* value put (its token and the step at which the caller made the object), *)
(* and whether it came in as a primitive.  Lists are made empty, from an   *)
(* array or from an iterable; the caller keeps the source and the value    *)
(* lists handed out, and may change both.                                  *)
(***************************************************************************)
EXTENDS Text, Json, Randomization

CONSTANTS Depth, Random, MaxLists,
          Long          \* TRUE: sources and runs of puts of up to a thousand values

VARIABLES lists, srcs, copies, hist
vars == <<lists, srcs, copies, hist>>

NULL == 0
\* value tokens: one or two per Java type
Prims == {"bool", "char", "byte", "short", "int", "long", "float", "double"}
Refs == {"string", "builder", "bigint", "bigdec", "datetime"}
Others == {"object", "array", "date"}
Types == Prims \cup Refs \cup Others \cup {"null"}

\* an entry: type of the value, the step and place where it was made, primitive or not
Entry(ty, at, k, prim) == [ty |-> ty, at |-> at, k |-> k, prim |-> prim]

\* ways to put one value: [m method, ty type of the value]
Puts == {[m |-> "prim", ty |-> t, as |-> t] : t \in Prims}              \* putInt(int)
        \cup {[m |-> "boxed", ty |-> t, as |-> t] : t \in Prims}        \* putIntOrNull(Integer)
        \cup {[m |-> "boxed", ty |-> "null", as |-> t] : t \in Prims}
        \cup {[m |-> "ref", ty |-> t, as |-> t] : t \in Refs}           \* putString, putBigDecimal, ...
        \cup {[m |-> "ref", ty |-> "null", as |-> t] : t \in Refs}
        \cup {[m |-> "generic", ty |-> t, as |-> t] : t \in Types}      \* put(Object)
        \cup {[m |-> "null", ty |-> "null", as |-> "null"]}             \* putNull()

\* long sources: the types in turn, from different beginnings
Turn == <<"int", "null", "string", "double", "object", "char", "bigint", "bool", "long", "builder", "datetime">>
LongSource(n, from) == [k \in 1..n |-> Turn[((k + from) % Len(Turn)) + 1]]
Lengths == {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000}
Sources == IF Long THEN {LongSource(n, f) : n \in Lengths, f \in 0..2} ELSE
           {<<>>, <<"int">>, <<"null">>, <<"string", "null", "object">>, <<"double", "double">>}
Step == Len(hist) + 1
Record(o, i, p, tys, res) == hist' = Append(hist, [o |-> o, i |-> i, p |-> p, tys |-> tys, res |-> res])
NoPut == [m |-> "", ty |-> "", as |-> ""]

Create(n) == /\ Len(lists) < MaxLists
             /\ lists' = Append(lists, <<>>)
             /\ Record(IF n = 0 THEN "create" ELSE "sized", Len(lists) + 1, NoPut, <<>>, <<>>)
             /\ UNCHANGED <<srcs, copies>>
FromSource(how, tys) ==
  LET es == [k \in 1..Len(tys) |-> Entry(tys[k], Step, k, FALSE)]
  IN /\ Len(lists) < MaxLists
     /\ lists' = Append(lists, es)
     /\ srcs' = Append(srcs, [list |-> Len(lists) + 1, how |-> how, es |-> es])
     /\ Record(how, Len(lists) + 1, NoPut, tys, es)
     /\ UNCHANGED copies
\* no array at all counts as one null
FromNull == /\ Len(lists) < MaxLists
            /\ lists' = Append(lists, <<Entry("null", Step, 1, FALSE)>>)
            /\ Record("nullarray", Len(lists) + 1, NoPut, <<"null">>, <<Entry("null", Step, 1, FALSE)>>)
            /\ UNCHANGED <<srcs, copies>>
\* a negative size or no iterable is refused and makes nothing
Refused(how) == /\ Record(how, 0, NoPut, <<>>, <<>>)
                /\ UNCHANGED <<lists, srcs, copies>>
Put(i, p) == LET l == Append(lists[i], Entry(p.ty, Step, 1, p.m = "prim"))
             IN /\ lists' = [lists EXCEPT ![i] = l]
                /\ Record("put", i, p, <<>>, l)
                /\ UNCHANGED <<srcs, copies>>
\* the values of a sequence put one after another
PutMany(i, tys) == LET l == lists[i] \o [k \in 1..Len(tys) |-> Entry(tys[k], Step, k, FALSE)]
                   IN /\ lists' = [lists EXCEPT ![i] = l]
                      /\ Record("putmany", i, NoPut, tys, l)
                      /\ UNCHANGED <<srcs, copies>>
\* the caller changes the array or collection it passed earlier
Change(j) == /\ srcs' = [srcs EXCEPT ![j].es = [k \in 1..Len(@) |-> Entry("null", Step, k, FALSE)]]
             /\ Record("change", j, NoPut, <<>>, lists[srcs[j].list])
             /\ UNCHANGED <<lists, copies>>
Values(i) == /\ copies' = Append(copies, [list |-> i, es |-> lists[i]])
             /\ Record("values", i, NoPut, <<>>, lists[i])
             /\ UNCHANGED <<lists, srcs>>
\* the caller changes a value list it was given
Spoil(j) == /\ copies' = [copies EXCEPT ![j].es = <<>>]
            /\ Record("spoil", j, NoPut, <<>>, lists[copies[j].list])
            /\ UNCHANGED <<lists, srcs>>
Use(i) == /\ Record("use", i, NoPut, <<>>, lists[i])          \* iterate and format
          /\ UNCHANGED <<lists, srcs, copies>>

R(S) == RandomElement(S)
Pick(n) == IF n = 0 THEN 0 ELSE R(1..n)
RandomNext ==
  \E k \in {R(1..10)}, i \in {Pick(Len(lists))}, s \in {Pick(Len(srcs))}, c \in {Pick(Len(copies))}, p \in {R(Puts)},
     src \in {R(Sources)}, how \in {R({"create", "sized", "array", "iterable", "list", "array", "iterable", "list", "nullarray"})} :
  CASE lists = <<>> \/ (k = 1 /\ Len(lists) < MaxLists) ->
         IF how = "create" THEN Create(0) ELSE IF how = "sized" THEN Create(1)
         ELSE IF how = "nullarray" THEN FromNull ELSE FromSource(how, src)
    [] k \in 2..3 /\ lists # <<>> /\ Long -> PutMany(i, src)
    [] k \in 2..6 /\ lists # <<>> -> Put(i, p)
    [] k = 7 /\ s # 0 -> Change(s)
    [] k = 8 /\ c # 0 -> Spoil(c)
    [] k = 9 /\ lists # <<>> -> Values(i)
    [] k = 10 /\ p.m = "null" -> Refused("negative")
    [] k = 10 /\ p.m = "generic" /\ p.ty = "null" -> Refused("noiterable")
    [] OTHER -> Use(i)
AllNext == \/ Create(0) \/ Create(1) \/ FromNull \/ Refused("negative") \/ Refused("noiterable")
           \/ \E how \in {"array", "iterable", "list"}, s \in Sources : FromSource(how, s)
           \/ \E i \in 1..Len(lists) : (\E p \in Puts : Put(i, p)) \/ Values(i) \/ Use(i)
           \/ \E j \in 1..Len(srcs) : Change(j)
           \/ \E j \in 1..Len(copies) : Spoil(j)

Init == lists = <<>> /\ srcs = <<>> /\ copies = <<>> /\ hist = <<>>
Next == Len(hist) < Depth /\ IF Random THEN RandomNext ELSE AllNext
Spec == Init /\ [][Next]_vars

\* the number of entries of a list is what it started with plus one per put
PutsOn(i) == Cardinality({k \in 1..Len(hist) : hist[k].o = "put" /\ hist[k].i = i})
             + FoldLeft(LAMBDA n, h : IF h.o = "putmany" /\ h.i = i THEN n + Len(h.tys) ELSE n, 0, hist)
Born(i) == LET ks == {k \in 1..Len(hist) : hist[k].o \in {"array", "iterable", "list", "nullarray"} /\ hist[k].i = i}
           IN IF ks = {} THEN 0 ELSE Len(hist[CHOOSE k \in ks : TRUE].tys)
OnePerPut == \A i \in 1..Len(lists) : Len(lists[i]) = Born(i) + PutsOn(i)
\* entries keep the order in which they were put
Ordered == \A i \in 1..Len(lists) : \A a \in 1..(Len(lists[i]) - 1) :
   LET p == lists[i][a]  q == lists[i][a + 1] IN p.at < q.at \/ (p.at = q.at /\ p.k < q.k)
\* lists only grow, and only by a put on them
Grow == [][\A i \in 1..Len(lists) : SubSeq(lists'[i], 1, Len(lists[i])) = lists[i]]_vars
Emitted == Len(hist) = Depth => PrintT(ToJson([h |-> hist, lists |-> lists]))
=============================================================================
