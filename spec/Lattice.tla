------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* The lattice: an ordered collection of elements; elements can be added,   *)
(* looked at by index and removed (C11).  The field at any time and place   *)
(* is the sum over exactly the present elements.                            *)
(***************************************************************************)
EXTENDS Elements, FiniteSets, TLC, Json

CONSTANTS Pool, Origins, MaxEl, Depth, TQ, XQ, YQ, ZQ, Sim
VARIABLES lat, made, h      \* made: number of elements created so far, lat: sequence of [id, e]
vars == <<lat, made, h>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
More == Len(h) < Depth
Rec(e) == h' = Append(h, e)

AddEl == /\ More /\ Len(lat) < MaxEl
         /\ \E e \in Pick(Pool), o \in Pick(Origins) :
              LET el == e @@ [o |-> IF e.kind \in {"planar", "tgu", "wave", "packet"} THEN o ELSE <<0, 0, 0>>] IN
              /\ lat' = Append(lat, [id |-> made + 1, e |-> el])
              /\ made' = made + 1
              /\ Rec([op |-> "add", e |-> el, id |-> made + 1, n |-> Len(lat) + 1])
Remove == /\ More /\ \E i \in Pick(-1..Len(lat)) :
            LET ok == i \in 0..(Len(lat) - 1) IN
            /\ lat' = IF ok THEN SubSeq(lat, 1, i) \o SubSeq(lat, i + 2, Len(lat)) ELSE lat
            /\ UNCHANGED made
            /\ Rec([op |-> "remove", i |-> i, ok |-> ok, n |-> Len(lat')])
At == /\ More /\ \E i \in Pick(-1..Len(lat)) :
        /\ UNCHANGED <<lat, made>>
        /\ Rec([op |-> "at", i |-> i, ok |-> i \in 0..(Len(lat) - 1), id |-> IF i \in 0..(Len(lat) - 1) THEN lat[i + 1].id ELSE 0])
Probe == /\ More /\ \E t \in Pick(TQ), a \in Pick(XQ), b \in Pick(YQ), z \in Pick(ZQ) :
           LET x == <<a, b, z>> IN
           /\ UNCHANGED <<lat, made>>
           /\ \A i \in 1..Len(lat) : ~OnEdge(lat[i].e, x)
           /\ Rec([op |-> "probe", t |-> t, x |-> x, f |-> [i \in 1..Len(lat) |-> [id |-> lat[i].id, f |-> FieldOf(lat[i].e, t, x), z |-> Outside(lat[i].e, x)]]])
Init == lat = <<>> /\ made = 0 /\ h = <<>>
Next == AddEl \/ Remove \/ At \/ Probe
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in 1..Len(lat) : lat[i].id = lat[j].id => i = j
Ordered == \A i, j \in 1..Len(lat) : i < j => lat[i].id < lat[j].id
\* no field outside the own region: every term has factor zero (ramps vanish continuously at the ends)
Confined == h # <<>> => LET e == h[Len(h)] IN e.op = "probe" => \A i \in 1..Len(e.f) : e.f[i].z => \A k \in 1..Len(e.f[i].f) : e.f[i].f[k].q[1] = 0
OnlyOne == [][ Cardinality({lat[i].id : i \in 1..Len(lat)} \ {lat'[i].id : i \in 1..Len(lat')}) <= 1 ]_vars
Emit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
