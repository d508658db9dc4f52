------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Ownership of the objects a user of the library creates: particles,      *)
(* bunches, beams, field elements and lattices.  A bunch owns its          *)
(* particles, a beam its bunches, a lattice its elements; whatever is      *)
(* given to an owner lives exactly as long as the owner does, unless it is *)
(* replaced (which destroys it) or removed (whether an element taken out   *)
(* of a lattice still exists is left open, nobody may use it).  Copies own *)
(* copies.  Nothing is destroyed twice and nothing outlives its owner.     *)
(* The specification states for every object and every moment whether it   *)
(* exists; the driver compares with the state of the memory it occupies.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxObj,    \* objects ever created
          Depth,     \* operations
          MaxNew,    \* particles of a bunch created at once
          Kinds      \* kinds of objects to create

VARIABLES obj,       \* sequence of [k, own, kids, q]; own = 0: the user, -1: destroyed, -2: removed, otherwise the owner
          h          \* history
vars == <<obj, h>>

Ids == 1..Len(obj)
Alive(x) == obj[x].own >= 0
Is(x, k) == Alive(x) /\ obj[x].k = k
Mine(x) == obj[x].own = 0
Child == [B |-> "P", M |-> "B", L |-> "E", P |-> "-", E |-> "-"]

RECURSIVE Under(_)
Under(x) == {x} \union UNION {Under(obj[x].kids[i]) : i \in 1..Len(obj[x].kids)}

RECURSIVE SumQ(_, _)
SumQ(o, s) == IF s = <<>> THEN 0 ELSE (LET x == o[Head(s)] IN IF x.k \in {"P", "E"} THEN x.q ELSE SumQ(o, x.kids)) + SumQ(o, Tail(s))

\* what is seen of an object
View(o) == [x \in 1..Len(o) |-> [alive |-> IF o[x].own = -1 THEN 0 ELSE IF o[x].own = -2 THEN 2 ELSE 1, kids |-> o[x].kids, q |-> SumQ(o, IF o[x].k \in {"P", "E"} /\ o[x].own >= 0 THEN <<x>> ELSE o[x].kids)]]

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Kill(o, S) == [x \in 1..Len(o) |-> IF x \in S THEN [o[x] EXCEPT !.own = -1, !.kids = <<>>] ELSE o[x]]
Particle(q, own) == [k |-> "P", own |-> own, kids |-> <<>>, q |-> q]
Log(e, o) == h' = Append(h, e @@ [view |-> View(o)])
Room(n) == Len(obj) + n <= MaxObj
Step(e, o) == obj' = o /\ Log(e, o)

New(k) == Room(1) /\ Step([op |-> "new", k |-> k, id |-> Len(obj) + 1], Append(obj, [k |-> k, own |-> 0, kids |-> <<>>, q |-> IF k \in {"P", "E"} THEN Len(obj) + 1 ELSE 0]))

NewFull(n) ==
    LET b == Len(obj) + 1
        o == Append(obj, [k |-> "B", own |-> 0, kids |-> [i \in 1..n |-> b + i], q |-> 0]) \o [i \in 1..n |-> Particle(100 + b, b)]
    IN Room(n + 1) /\ Step([op |-> "newfull", id |-> b, n |-> n], o)

CopyP(x) == Is(x, "P") /\ Room(1) /\ Step([op |-> "copyP", id |-> Len(obj) + 1, from |-> x], Append(obj, Particle(obj[x].q, 0)))

CopyB(x) ==
    LET b == Len(obj) + 1
        n == Len(obj[x].kids)
        o == Append(obj, [k |-> "B", own |-> 0, kids |-> [i \in 1..n |-> b + i], q |-> 0]) \o [i \in 1..n |-> Particle(obj[obj[x].kids[i]].q, b)]
    IN Is(x, "B") /\ Room(n + 1) /\ Step([op |-> "copyB", id |-> b, from |-> x], o)

\* the new owner may itself belong to somebody (a bunch of a beam can still be filled)
Give(x, to) ==
    /\ Alive(x) /\ Mine(x) /\ Alive(to) /\ Child[obj[to].k] = obj[x].k
    /\ Step([op |-> "give", id |-> x, to |-> to], [obj EXCEPT ![x].own = to, ![to].kids = Append(@, x)])

Replace(b, i, x) ==
    /\ Is(b, "B") /\ i \in 1..Len(obj[b].kids) /\ Is(x, "P") /\ Mine(x)
    /\ LET old == obj[b].kids[i]
       IN Step([op |-> "replace", id |-> x, to |-> b, i |-> i - 1], Kill([obj EXCEPT ![x].own = b, ![b].kids = [@ EXCEPT ![i] = x]], {old}))

\* there is nothing to replace: the particle stays with the user
ReplaceNone(b, i, x) ==
    /\ Is(b, "B") /\ Is(x, "P") /\ Mine(x)
    /\ Step([op |-> "replace", id |-> x, to |-> b, i |-> i], obj)

Clear(m) == Is(m, "M") /\ Step([op |-> "clear", id |-> m], Kill([obj EXCEPT ![m].kids = <<>>], Under(m) \ {m}))

Remove(l, i) ==
    /\ Is(l, "L") /\ i \in 1..Len(obj[l].kids)
    /\ Step([op |-> "remove", id |-> l, i |-> i - 1, bad |-> 0], [obj EXCEPT ![obj[l].kids[i]].own = -2, ![l].kids = Without(@, i)])

RemoveNone(l, i) == Is(l, "L") /\ Step([op |-> "remove", id |-> l, i |-> i, bad |-> 1], obj)

Delete(x) == Alive(x) /\ Mine(x) /\ Step([op |-> "delete", id |-> x], Kill(obj, Under(x)))

Init == obj = <<>> /\ h = <<>>
Next ==
    /\ Len(h) < Depth
    /\ \/ \E k \in Kinds : New(k)
       \/ \E n \in 0..MaxNew : "B" \in Kinds /\ NewFull(n)
       \/ \E x \in Ids : CopyP(x) \/ CopyB(x) \/ Clear(x) \/ Delete(x) \/ (\E y \in Ids : Give(x, y))
       \/ \E x, y \in Ids : (\E i \in 1..MaxObj : Replace(x, i, y)) \/ (\E i \in {-1, Len(obj[x].kids)} : ReplaceNone(x, i, y))
       \/ \E x \in Ids : (\E i \in 1..MaxObj : Remove(x, i)) \/ (\E i \in {-1, Len(obj[x].kids)} : RemoveNone(x, i))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* every existing object has exactly one owner, which exists and knows it once
OneOwner ==
    \A x \in Ids : Alive(x) =>
        /\ \A y \in Ids : Cardinality({i \in 1..Len(obj[y].kids) : obj[y].kids[i] = x}) = IF obj[x].own = y THEN 1 ELSE 0
        /\ obj[x].own > 0 => Alive(obj[x].own)
\* nobody holds something destroyed
NoDangling == \A x \in Ids : \A i \in 1..Len(obj[x].kids) : Alive(x) /\ Alive(obj[x].kids[i]) /\ obj[obj[x].kids[i]].k = Child[obj[x].k]
\* destroying what the user owns destroys everything: nothing is lost
NothingLost == UNION {Under(x) : x \in {y \in Ids : Mine(y)}} = {x \in Ids : Alive(x)}
\* what is destroyed stays destroyed, and only things under the object named in the operation are destroyed
ForGood == [][\A x \in Ids : ~Alive(x) => obj'[x] = obj[x]]_vars
Blame == [][\A x \in Ids : (Alive(x) /\ obj'[x].own = -1) =>
              LET e == h'[Len(h')] IN (e.op = "delete" /\ x \in Under(e.id) /\ Mine(e.id))
                                       \/ (e.op = "clear" /\ x \in Under(e.id) /\ x # e.id)
                                       \/ (e.op = "replace" /\ x = obj[e.to].kids[e.i + 1])]_vars
\* without replacing, clearing and deleting nothing is destroyed; whoever is not named keeps its content
Frame == [][\A x \in Ids : (obj[x].kids # obj'[x].kids) => LET e == h'[Len(h')] IN (x = e.id) \/ (e.op \in {"give", "replace"} /\ x = e.to) \/ (e.op \in {"delete", "clear", "replace"} /\ obj'[x].own = -1)]_vars

Emit == Len(h) = Depth => PrintT(ToJson([h |-> h, roots |-> [i \in 1..Len(obj) |-> IF Mine(i) THEN 1 ELSE 0]]))
=============================================================================
