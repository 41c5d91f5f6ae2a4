------------------------------ MODULE RopeTall ------------------------------
(***************************************************************************)
(* Very deep ropes: n copies of a short string, concatenated in different  *)
(* shapes, then sliced and upper-cased.  The value is periodic, so it is   *)
(* described by its period, the phase of its first unit and its length.    *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS Sizes

VARIABLES key, val, hist
vars == <<key, val, hist>>

Shapes == {"pile", "pilefront", "alternate", "comb"}
Words == {<<97, 98>>, <<120, 89, 122>>}

\* [p |-> period text, ph |-> phase, n |-> length]
Unit(v, i) == v.p[((v.ph + i) % Len(v.p)) + 1]
Window(v, a, b) == [i \in 1..(b - a) |-> Unit(v, a + i - 1)]
SubOf(v, a, b) == [p |-> v.p, ph |-> (v.ph + a) % Len(v.p), n |-> b - a]
UpOf(v) == [v EXCEPT !.p = Upper(v.p)]

Init == /\ key \in [shape : Shapes, w : Words, n : Sizes]
        /\ val = [p |-> key.w, ph |-> 0, n |-> key.n * Len(key.w)]
        /\ hist = <<>>
Cuts(n) == {<<0, n>>, <<1, n>>, <<0, n - 1>>, <<n \div 3, n - (n \div 3)>>, <<7, 12>>, <<n \div 2, (n \div 2) + 40>>, <<n - 1, n>>}
Next == /\ Len(hist) < 2
        /\ UNCHANGED key
        /\ \/ val' = UpOf(val) /\ hist' = Append(hist, [op |-> "upper", a |-> 0, b |-> 0])
           \/ \E c \in Cuts(val.n) : /\ 0 <= c[1] /\ c[1] <= c[2] /\ c[2] <= val.n
                                     /\ val' = SubOf(val, c[1], c[2])
                                     /\ hist' = Append(hist, [op |-> "sub", a |-> c[1], b |-> c[2]])
Spec == Init /\ [][Next]_vars

\* a slice of a slice is a slice; upper-casing commutes with slicing
Probe == {i \in {0, 1, 2, val.n - 1} : 0 <= i /\ i < val.n}
Compose == \A i \in Probe : Unit(UpOf(val), i) = UpperUnit(Unit(val, i))
Slices == val.n > 6 => Window(SubOf(val, 2, 6), 1, 3) = Window(val, 3, 5)
Emitted == PrintT(ToJson([k |-> key, h |-> hist, v |-> val]))
=============================================================================
