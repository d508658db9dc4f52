-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* What an answer may depend on (C19).                                     *)
(*                                                                         *)
(* The world consists of particles (held in bunches, the bunches in one    *)
(* beam) and of field elements (held in a lattice).  Modifications are     *)
(* written into a log h; each lists for every object it changes the        *)
(* objects the new value is made from ("eff": pairs <<object, reads>>).    *)
(* Objects: <<"p",i>> particle i, <<"b",j>> which particles bunch j holds, *)
(* <<"e",k>> element k with its parameters, *)
(* <<"l",k>> whether element k is in the lattice, <<"n",0>> the step count *)
(* of the beam.                                                            *)
(*                                                                         *)
(* A query reads a set of objects.  Its answer is a function of its        *)
(* arguments and of its cone: the modifications that reach these objects   *)
(* through the log, backwards.  Nothing else - no other query, no thread,  *)
(* no unrelated object - may enter.  Queries are started and answered      *)
(* independently (any number of them at the same time); a modification     *)
(* waits until all of them are answered.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NB, MaxPart, MaxEl, MaxSteps, MaxPend, Kinds, Seeds, Times, Places, Freqs, Depth, Sim,
          Wait      \* FALSE: modifications do not wait for the queries (must break Stable)
VARIABLES h, parts, els, slots, pend, steps, made
vars == <<h, parts, els, slots, pend, steps, made>>
\* parts: sequence of [b, live, rdy, np]   els: sequence of [kind, in]   slots: bunch -> sequence of particle numbers
\* pend: set of queries under way, made: number of queries started

Draw(S) == IF Sim THEN {TLCEval(RandomElement(IF Len(h) >= 0 THEN S ELSE {}))} ELSE S
More == Len(h) < Depth
Rg(s) == {s[i] : i \in 1..Len(s)}

\* ------------------------------------------------------------------ the cone
RECURSIVE Cone(_, _, _, _)
Cone(log, i, objs, ops) ==
    IF i = 0 THEN [objs |-> objs, ops |-> ops]
    ELSE LET hit == { e \in log[i].eff : e[1] \in objs }
         IN IF hit = {} THEN Cone(log, i - 1, objs, ops)
            ELSE Cone(log, i - 1, objs \cup UNION { e[2] : e \in hit }, ops \cup {i})
ConeOf(objs) == Cone(h, Len(h), objs, {})

\* ------------------------------------------------------------------ sets of objects
P(i) == <<"p", i>>
InB(b) == { i \in 1..Len(parts) : parts[i].live /\ parts[i].b = b }
AllP == { i \in 1..Len(parts) : parts[i].live }
Lat == { k \in 1..Len(els) : els[k].in }
LatNow == { <<"e", k>> : k \in Lat } \cup { <<"l", k>> : k \in Lat }     \* the field of the lattice as it is
LatAt == { <<"l", k>> : k \in 1..Len(els) } \cup { <<"e", k>> : k \in Lat }  \* remembered for a step in the past
Busy == pend # {}
CanModify == More /\ (Wait => ~Busy)

\* ------------------------------------------------------------------ modifications
Log(r, eff) == h' = Append(h, r @@ [eff |-> eff])
NewPart(b, id, s, k) == [b |-> b, live |-> TRUE, rdy |-> FALSE, np |-> k]
Bunches == DOMAIN slots

NewBunch == /\ CanModify /\ Len(slots) < NB /\ Len(parts) + 3 <= MaxPart
            /\ \E n \in Draw(1..3), s \in Draw(Seeds) :
                 LET b == Len(slots) + 1
                     ids == [j \in 1..n |-> Len(parts) + j]
                 IN /\ slots' = Append(slots, ids)
                    /\ parts' = parts \o [j \in 1..n |-> NewPart(b, Len(parts) + j, s, 1)]
                    /\ Log([op |-> "bunch", b |-> b, ids |-> ids, seed |-> s], { <<P(ids[j]), {}>> : j \in 1..n } \cup { <<<<"b", b>>, {}>> })
            /\ UNCHANGED <<els, pend, steps, made>>
AddPart == /\ CanModify /\ Len(slots) > 0 /\ Len(parts) < MaxPart
           /\ \E b \in Draw(Bunches), s \in Draw(Seeds), k \in Draw(1..4) :
                LET id == Len(parts) + 1 IN
                /\ slots' = [slots EXCEPT ![b] = Append(@, id)]
                /\ parts' = Append(parts, NewPart(b, id, s, k))
                /\ Log([op |-> "add", b |-> b, id |-> id, seed |-> s, k |-> k], { <<P(id), {}>>, <<<<"b", b>>, {<<"b", b>>}>> })
           /\ UNCHANGED <<els, pend, steps, made>>
Replace == /\ CanModify /\ AllP # {} /\ Len(parts) < MaxPart
           /\ \E i \in Draw(AllP), s \in Draw(Seeds), k \in Draw(1..4) :
                LET id == Len(parts) + 1  b == parts[i].b IN
                /\ slots' = [slots EXCEPT ![b] = [j \in 1..Len(@) |-> IF @[j] = i THEN id ELSE @[j]]]
                /\ parts' = Append([parts EXCEPT ![i].live = FALSE], NewPart(b, id, s, k))
                /\ Log([op |-> "replace", b |-> b, id |-> id, old |-> i, seed |-> s, k |-> k], { <<P(id), {}>>, <<<<"b", b>>, {<<"b", b>>}>> })
           /\ UNCHANGED <<els, pend, steps, made>>
Shift == /\ CanModify /\ AllP # {}
         /\ \E i \in Draw(AllP), s \in Draw(Seeds), o \in Draw({"shift", "mirror"}) :
              Log([op |-> o, id |-> i, seed |-> s], { <<P(i), {P(i)}>> })
         /\ UNCHANGED <<parts, els, slots, pend, steps, made>>
Correlate == /\ CanModify /\ Len(slots) > 0
             /\ \E b \in Draw(Bunches), s \in Draw(Seeds) :
                  /\ \A i \in InB(b) : parts[i].np > 0
                  /\ Log([op |-> "corr", b |-> b, seed |-> s, ids |-> slots[b]], { <<P(i), { P(j) : j \in InB(b) } \cup {<<"b", b>>}>> : i \in InB(b) })
             /\ UNCHANGED <<parts, els, slots, pend, steps, made>>
Clear == /\ CanModify /\ Len(slots) > 0
         /\ \E b \in Draw(Bunches) :
              /\ parts' = [i \in 1..Len(parts) |-> IF i \in InB(b) THEN [parts[i] EXCEPT !.np = 0] ELSE parts[i]]
              /\ Log([op |-> "clear", b |-> b, ids |-> slots[b]], { <<P(i), {P(i)}>> : i \in InB(b) })
         /\ UNCHANGED <<els, slots, pend, steps, made>>
AddEl == /\ CanModify /\ Len(els) < MaxEl
         /\ \E k \in Draw(Kinds), s \in Draw(Seeds) :
              LET id == Len(els) + 1 IN
              /\ els' = Append(els, [kind |-> k, in |-> TRUE])
              /\ Log([op |-> "elem", id |-> id, kind |-> k, seed |-> s], { <<<<"e", id>>, {}>>, <<<<"l", id>>, {}>> })
         /\ UNCHANGED <<parts, slots, pend, steps, made>>
RemEl == /\ CanModify /\ Lat # {}
         /\ \E k \in Draw(Lat) :
              /\ els' = [els EXCEPT ![k].in = FALSE]
              /\ Log([op |-> "rem", id |-> k], { <<<<"l", k>>, {}>> })
         /\ UNCHANGED <<parts, slots, pend, steps, made>>
Again == { k \in 1..Len(els) : els[k].kind \in {"planar", "tgu", "wave", "packet"} }
Resetup == /\ CanModify /\ Again # {}
           /\ \E k \in Draw(Again), s \in Draw(Seeds) :
                Log([op |-> "resetup", id |-> k, kind |-> els[k].kind, seed |-> s], { <<<<"e", k>>, {<<"e", k>>}>> })
           /\ UNCHANGED <<parts, els, slots, pend, steps, made>>
Setup == /\ CanModify /\ AllP # {} /\ \A i \in AllP : parts[i].np > 0
         /\ parts' = [i \in 1..Len(parts) |-> [parts[i] EXCEPT !.rdy = TRUE]]
         /\ Log([op |-> "setup"], { <<P(i), {P(i)} \cup LatAt>> : i \in AllP } \cup { <<<<"n", 0>>, {}>> })
         /\ UNCHANGED <<els, slots, pend, steps, made>>
Step == /\ CanModify /\ AllP # {} /\ steps < MaxSteps /\ \A i \in AllP : parts[i].rdy
        /\ \E n \in Draw(1..4) :
             /\ steps' = steps + n
             /\ parts' = [i \in 1..Len(parts) |-> IF parts[i].live THEN [parts[i] EXCEPT !.np = @ + n] ELSE parts[i]]
             /\ Log([op |-> "step", n |-> n], { <<P(i), {P(i)} \cup LatAt>> : i \in AllP } \cup { <<<<"n", 0>>, {<<"n", 0>>}>> })
        /\ UNCHANGED <<els, slots, pend, made>>
Modify == NewBunch \/ AddPart \/ Replace \/ Shift \/ Correlate \/ Clear \/ AddEl \/ RemEl \/ Resetup \/ Setup \/ Step

\* ------------------------------------------------------------------ queries
Start(q, objs) == /\ More /\ Cardinality(pend) < MaxPend
                  /\ Sim => (pend = {} \/ h[Len(h)].op # "query")     \* random histories: rounds of questions
                  /\ pend' = pend \cup { [n |-> made + 1, q |-> q, objs |-> objs, cone |-> ConeOf(objs)] }
                  /\ made' = made + 1
                  /\ UNCHANGED <<h, parts, els, slots, steps>>
QP == AllP # {} /\ \E i \in Draw(AllP), t \in Draw(Times), x \in Draw(Places), w \in Draw({"coord", "pfield", "ptrace", "pstate"}) :
        Start([q |-> w, id |-> i, t |-> t, x |-> x], {P(i)})
QB == Len(slots) > 0 /\ \E b \in Draw(Bunches), t \in Draw(Times), x \in Draw(Places), f \in Draw(Freqs), w \in Draw({"bfield", "btrace", "moments"}) :
        Start([q |-> w, b |-> b, ids |-> slots[b], t |-> t, x |-> x, f |-> f], { P(i) : i \in InB(b) } \cup {<<"b", b>>})
QA == Len(slots) > 0 /\ \E t \in Draw(Times), x \in Draw(Places), w \in Draw({"afield", "atrace", "totals"}) :
        Start([q |-> w, t |-> t, x |-> x], { P(i) : i \in AllP } \cup { <<"b", b>> : b \in Bunches } \cup {<<"n", 0>>})
QL == \E t \in Draw(Times), x \in Draw(Places) : Start([q |-> "lfield", t |-> t, x |-> x], LatNow)
QE == Len(els) > 0 /\ \E k \in Draw(1..Len(els)), t \in Draw(Times), x \in Draw(Places) :
        Start([q |-> "efield", id |-> k, t |-> t, x |-> x], {<<"e", k>>})
QRet == More /\ \E e \in Draw(IF pend = {} THEN {} ELSE pend) :
          /\ h' = Append(h, e.q @@ [op |-> "query", cone |-> e.cone.ops, objs |-> e.cone.objs, eff |-> {}])
          /\ pend' = pend \ {e}
          /\ UNCHANGED <<parts, els, slots, steps, made>>
Query == QP \/ QB \/ QA \/ QL \/ QE
Answer == pend # {} /\ QRet

\* a history begins with something to look at
Begin == CASE Len(h) = 0 /\ ~Busy -> NewBunch
           [] Len(h) = 1 /\ ~Busy -> AddEl
           [] Len(h) = 2 /\ ~Busy -> Setup
           [] Len(h) = 3 /\ ~Busy -> Step
           [] OTHER -> Modify \/ Query \/ Answer
Init == h = <<>> /\ parts = <<>> /\ els = <<>> /\ slots = <<>> /\ pend = {} /\ steps = 0 /\ made = 0
Next == Begin
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
\* the answer of a query under way does not depend on when it is answered
Stable == \A e \in pend : ConeOf(e.objs) = e.cone
\* the cones of a particle, its bunch and the beam are nested; a lattice holds the cones of its elements
Nested == /\ \A i \in AllP : LET c == ConeOf({P(i)}) d == ConeOf({ P(j) : j \in InB(parts[i].b) }) a == ConeOf({ P(j) : j \in AllP }) IN
                c.ops \subseteq d.ops /\ d.ops \subseteq a.ops /\ c.objs \subseteq d.objs /\ d.objs \subseteq a.objs
          /\ \A k \in Lat : ConeOf({<<"e", k>>}).ops \subseteq ConeOf(LatNow).ops
\* every object of a cone is created in it, and what is removed from the lattice stays out of the lattice's cone
Closed == \A i \in AllP : LET c == ConeOf({P(i)}) IN
            \A o \in c.objs : \E n \in c.ops : \E e \in h[n].eff : e[1] = o /\ o \notin e[2]
Removed == \A k \in 1..Len(els) : ~els[k].in => <<"e", k>> \notin ConeOf(LatNow).objs
\* the field of an element or of the lattice never depends on particles
Apart == LET c == ConeOf(LatNow) IN \A o \in c.objs : o[1] # "p"
\* queries change nothing
Pure == [][ (pend # pend' \/ made # made') => UNCHANGED <<parts, els, slots, steps>> ]_vars
Emit == Len(h) = Depth =>
        PrintT(ToJson([h |-> [i \in 1..Len(h) |-> [k \in (DOMAIN h[i]) \ {"eff"} |-> h[i][k]]]]))
=============================================================================
