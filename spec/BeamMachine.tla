---------------------------- MODULE BeamMachine ----------------------------
(***************************************************************************)
(* Particles, bunches and a beam as the public API presents them, with the *)
(* relativistic leap-frog of J.-L. Vay acting on integer momenta.          *)
(*                                                                         *)
(* A position is a term  [b, v] : an integer base vector plus the sum of   *)
(* the displacements  c*dt*p/gamma(p)  for the momenta listed in v  (each  *)
(* entry <<dt,px,py,pz>>).  A momentum is an integer vector (beta*gamma).  *)
(* An acceleration is a term  lit + 2/dt*(e + w*gamma(ge)/gamma(gh)).      *)
(* Fields are given by what they do to one particle within half a step:    *)
(*   e  = q/m*dt/2 * E/c             (integer vector)                      *)
(*   tt = q/m*dt/2 * B / gamma_end   (integer vector)                      *)
(* For |tt|^2 in {0,1,3} the half step is the identity, a rotation by 90   *)
(* or one by 120 degrees per full step, so all momenta stay integer.       *)
(* kind "drift" : E = -v x B, no force at all (tt is q/m*dt/2*B here).     *)
(*                                                                         *)
(* Every action is one API call.  h is the history: call, outcome and the  *)
(* complete state after the call.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NB,        \* bunch registers
          MaxP,      \* particles per bunch
          MaxPt,     \* points per trajectory
          Ops,       \* set of enabled operations
          QMs,       \* set of <<charge, mass>>
          Bases, Moms, Accs, Times, Dts,   \* integer vectors / numbers offered to the calls
          EKicks, BKicks, Drifts,          \* e vectors, tt vectors, drift B vectors
          Deltas, Facs, Normals,           \* shifts, charge factors, mirror normals
          QTimes,                          \* query times
          InitTrk, InitDts,  \* initial tracker and time step of the beam
          Weight,            \* "step" : tracking is drawn more often
          Depth, Sim

VARIABLES bun,      \* bunch registers: [live, parts]
          beam,     \* sequence of register numbers
          trk, bdt, nots,  \* tracker, time step and step count of the beam
          buf,      \* last saved step buffer (sequence of points), <<>> if none
          over,     \* the history has ended (state unspecified after a refused call)
          h, h0
vars == <<bun, beam, trk, bdt, nots, buf, over, h, h0>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
On(o) == o \in Ops

\* ---------------------------------------------------------------- integer vectors
Z3 == <<0, 0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(a, k) == <<a[1] * k, a[2] * k, a[3] * k>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
DivV(a, k) == <<a[1] \div k, a[2] \div k, a[3] \div k>>
Divides(a, k) == a[1] % k = 0 /\ a[2] % k = 0 /\ a[3] % k = 0
Abs(x) == IF x < 0 THEN -x ELSE x
Within(a, m) == Abs(a[1]) <= m /\ Abs(a[2]) <= m /\ Abs(a[3]) <= m
MaxMom == 40

\* ---------------------------------------------------------------- points and particles
NoA == [lit |-> Z3, e |-> Z3, w |-> Z3, ge |-> Z3, gh |-> Z3, d |-> 0]
LitA(a) == [NoA EXCEPT !.lit = a]
Pt(t, x, p, a) == [t |-> t, x |-> x, p |-> p, a |-> a]
At(b) == [b |-> b, v |-> <<>>]
ZeroPt == Pt(0, At(Z3), Z3, NoA)
NoKick == [kind |-> "none"]
Fresh(q, m) == [q |-> q, m |-> m, traj |-> <<>>, cur |-> ZeroPt, pre |-> 0, set |-> FALSE, dt |-> 0, pe |-> Z3, fld |-> NoKick]
Last(s) == s[Len(s)]
Started(q, m, pt) == [Fresh(q, m) EXCEPT !.traj = <<pt>>, !.cur = pt]

\* ---------------------------------------------------------------- the Vay step
RotNum(u, t) == Add(Add(u, Mul(t, Dot(u, t))), Cross(u, t))
Half2(u, t) == DivV(RotNum(u, t), 1 + Dot(t, t))
Half2OK(u, t) == Divides(RotNum(u, t), 1 + Dot(t, t))

Kicks == { [kind |-> "EB", e |-> e, tt |-> t] : e \in EKicks, t \in BKicks }
         \cup { [kind |-> "drift", e |-> Z3, tt |-> t] : t \in Drifts }

\* second half step from the centre momentum p
EndOf(p, k) == IF k.kind = "drift" THEN p ELSE Half2(Add(p, k.e), k.tt)
InitOK(p, k) == IF k.kind = "drift" THEN TRUE
                ELSE Half2OK(Add(p, k.e), k.tt) /\ Within(EndOf(p, k), MaxMom)
\* whole step from the momentum pe at its begin
CentreOf(pe, k) == IF k.kind = "drift" THEN pe ELSE Add(pe, Add(k.e, Cross(pe, k.tt)))
StepOK(pe, k) ==
    IF k.kind = "drift" THEN TRUE
    ELSE /\ k.e # Z3 => Cross(pe, k.tt) = Z3     \* otherwise gamma changes within a magnetic kick (not an integer)
         /\ Half2OK(Add(CentreOf(pe, k), k.e), k.tt)
         /\ Within(EndOf(CentreOf(pe, k), k), MaxMom)
AccOf(p, pend, k, d) == IF k.kind = "drift" THEN NoA
                        ELSE [lit |-> Z3, e |-> k.e, w |-> Cross(p, k.tt), ge |-> pend, gh |-> p, d |-> d]
FldOf(P, k, p, pend, d) == [kind |-> k.kind, e |-> k.e, tt |-> k.tt, p |-> p, pe |-> pend, d |-> d, q |-> P.q, m |-> P.m]

DoInit(P, k, d) ==
    LET pt == Last(P.traj)
        pend == EndOf(pt.p, k)
        np == [pt EXCEPT !.a = AccOf(pt.p, pend, k, d)]
    IN [P EXCEPT !.traj = [@ EXCEPT ![Len(@)] = np], !.cur = np, !.set = TRUE, !.dt = d, !.pe = pend,
                 !.fld = FldOf(P, k, pt.p, pend, d)]
NextX(P) == [P.cur.x EXCEPT !.v = Append(@, <<P.dt, P.pe[1], P.pe[2], P.pe[3]>>)]
DoStep(P, k) ==
    LET p == CentreOf(P.pe, k)
        pend == EndOf(p, k)
        np == Pt(P.cur.t + P.dt, NextX(P), p, AccOf(p, pend, k, P.dt))
    IN [P EXCEPT !.traj = Append(@, np), !.cur = np, !.pe = pend, !.fld = FldOf(P, k, p, pend, P.dt)]

\* what a kick depends on: two particles with the same key must get the same one
InitKey(P, d) == [x |-> Last(P.traj).x, t |-> Last(P.traj).t, p |-> Last(P.traj).p, q |-> P.q, m |-> P.m, d |-> d]
StepKey(P) == [x |-> NextX(P), t |-> P.cur.t + P.dt, p |-> P.pe, q |-> P.q, m |-> P.m, d |-> P.dt]
\* the fields are functions of time and place only: particles meeting there must be alike
Separate(keys) == \A i, j \in 1..Len(keys) : keys[i].x = keys[j].x /\ keys[i].t = keys[j].t => keys[i] = keys[j]

KickOf(key, init) == { k \in Kicks : IF init THEN InitOK(key.p, k) ELSE StepOK(key.p, k) }
RECURSIVE RandKicks(_, _, _)
RandKicks(keys, init, acc) ==
    IF Len(acc) = Len(keys) THEN acc
    ELSE LET n == Len(acc) + 1
             same == { j \in 1..(n - 1) : keys[j] = keys[n] }
         IN RandKicks(keys, init, Append(acc, IF same # {} THEN acc[CHOOSE j \in same : TRUE]
                                               ELSE RandomElement(KickOf(keys[n], init))))
RECURSIVE AllKicks(_, _, _)
AllKicks(keys, init, n) ==
    IF n = 0 THEN {<<>>}
    ELSE LET same == { j \in 1..(n - 1) : keys[j] = keys[n] } IN
         UNION { { Append(a, k) : k \in IF same # {} THEN {a[CHOOSE j \in same : TRUE]} ELSE KickOf(keys[n], init) }
                 : a \in AllKicks(keys, init, n - 1) }
KickSeqs(keys, init) == IF Sim THEN {RandKicks(keys, init, <<>>)} ELSE AllKicks(keys, init, Len(keys))

\* ---------------------------------------------------------------- structure
RECURSIVE FlatFrom(_, _)
FlatFrom(bs, i) == IF i > Len(bs) THEN <<>>
                   ELSE [j \in 1..Len(bun[bs[i]].parts) |-> <<bs[i], j>>] \o FlatFrom(bs, i + 1)
Flat(bs) == FlatFrom(bs, 1)                   \* all <<bunch, index>> in order
PartAt(r) == bun[r[1]].parts[r[2]]
PartsOf(refs) == [i \in 1..Len(refs) |-> PartAt(refs[i])]
\* replace the particles at refs by ps
PutParts(refs, ps) ==
    [b \in 1..NB |-> [bun[b] EXCEPT !.parts = [j \in 1..Len(bun[b].parts) |->
        IF \E i \in 1..Len(refs) : refs[i] = <<b, j>>
        THEN ps[CHOOSE i \in 1..Len(refs) : refs[i] = <<b, j>>] ELSE bun[b].parts[j]]]]
PutPart(b, i, p) == [bun EXCEPT ![b].parts[i] = p]
InBeam(b) == \E i \in 1..Len(beam) : beam[i] = b
Live == { b \in 1..NB : bun[b].live }
Dead == { b \in 1..NB : ~bun[b].live }
Refs == { <<b, i>> : b \in Live, i \in 1..MaxP } \cap { <<b, i>> : b \in 1..NB, i \in 1..MaxP }
Parts == { r \in Refs : r[2] <= Len(bun[r[1]].parts) }
Room(P) == Len(P.traj) < MaxPt

\* ---------------------------------------------------------------- history
\* the history carries the shape and the particles that changed (all others must be as before)
Shape(bb) == [b \in 1..NB |-> IF bb[b].live THEN Len(bb[b].parts) ELSE -1]
Delta(b0, b1) == UNION { { <<b, i, b1[b].parts[i]>> : i \in { j \in 1..Len(b1[b].parts) :
                             j > Len(b0[b].parts) \/ b0[b].parts[j] # b1[b].parts[j] } } : b \in 1..NB }
View == [sh |-> Shape(bun), chg |-> {}, beam |-> beam, trk |-> trk, dt |-> bdt, nots |-> nots]
Rec(e) == h0' = h0 /\ h' = Append(h, e @@ [exc |-> FALSE, over |-> FALSE,
              st |-> [sh |-> Shape(bun'), chg |-> Delta(bun, bun'), beam |-> beam', trk |-> trk', dt |-> bdt', nots |-> nots']])
More == Len(h) < Depth /\ ~over
B(nb) == bun' = nb /\ UNCHANGED <<beam, trk, bdt, nots, buf, over>>
Same == UNCHANGED <<bun, beam, trk, bdt, nots, buf, over>>

\* ---------------------------------------------------------------- construction and bookkeeping
NewBunch == /\ More /\ On("nb") /\ Dead # {}
            /\ \E b \in Pick(Dead), n \in Pick(0..MaxP), qm \in Pick(QMs) :
                 /\ B([bun EXCEPT ![b] = [live |-> TRUE, parts |-> [i \in 1..n |-> Fresh(qm[1], qm[2])]]])
                 /\ Rec([op |-> "nb", b |-> b, n |-> n, q |-> qm[1], m |-> qm[2]])

RECURSIVE RandRows(_, _)
RandRows(n, acc) == IF n = 0 THEN acc
                    ELSE RandRows(n - 1, Append(acc, <<RandomElement(Bases), RandomElement(Moms), RandomElement(Times)>>))
Rows(n) == IF Sim THEN {RandRows(n, <<>>)} ELSE [1..n -> {<<x, p, t>> : x \in Bases, p \in Moms, t \in Times}]
NewDist == /\ More /\ On("nd") /\ Dead # {}
           /\ \E b \in Pick(Dead), n \in Pick(0..MaxP), qm \in Pick(QMs), tr \in Pick(Times), xr \in Pick(Bases), pr \in Pick(Moms),
                 dim \in Pick({6, 7}) :
              \E rows \in Rows(n) :
                 /\ B([bun EXCEPT ![b] = [live |-> TRUE, parts |-> [i \in 1..n |->
                        Started(qm[1], qm[2], Pt(tr + (IF dim = 7 THEN rows[i][3] ELSE 0), At(Add(xr, rows[i][1])), Add(pr, rows[i][2]), NoA))]]])
                 /\ Rec([op |-> "nd", b |-> b, n |-> n, q |-> qm[1], m |-> qm[2], tr |-> tr, xr |-> xr, pr |-> pr, dim |-> dim, rows |-> rows])

\* E and B seen by a copy before its next step are not part of the copied state
Forget(P) == [P EXCEPT !.fld = NoKick]

CopyBunch == /\ More /\ On("cb") /\ Dead # {} /\ Live # {}
             /\ \E b \in Pick(Dead), s \in Pick(Live) :
                  /\ B([bun EXCEPT ![b] = [live |-> TRUE, parts |-> [i \in 1..Len(bun[s].parts) |-> Forget(bun[s].parts[i])]]])
                  /\ Rec([op |-> "cb", b |-> b, s |-> s])

DelBunch == /\ More /\ On("del") /\ \E b \in Live : ~InBeam(b)
            /\ \E b \in Pick({ x \in Live : ~InBeam(x) }) :
                 /\ B([bun EXCEPT ![b] = [live |-> FALSE, parts |-> <<>>]])
                 /\ Rec([op |-> "del", b |-> b])

\* a particle obtained from another one
Clone(P, how, pre) ==
    CASE how = "copy" -> P
      [] how = "ser"  -> IF P.traj = <<>> THEN Started(P.q, P.m, ZeroPt) ELSE Started(P.q, P.m, Last(P.traj))
      [] how = "serT" -> [P EXCEPT !.cur = Last(P.traj), !.pre = pre, !.fld = NoKick,
                                   !.set = @ /\ P.cur = Last(P.traj)]
Hows(P) == { how \in {"copy", "ser", "serT"} : On(how) /\ (how = "serT" => P.traj # <<>>) }

AddClone == /\ More /\ Live # {} /\ Parts # {}
            /\ \E b \in Pick(Live), s \in Pick(Parts) : Hows(PartAt(s)) # {} /\ Len(bun[b].parts) < MaxP /\
               \E how \in Pick(Hows(PartAt(s))), pre \in Pick({0, 1, 3, 10}) :
                 /\ (how # "serT" => pre = 0 \/ Sim)
                 /\ B([bun EXCEPT ![b].parts = Append(@, Forget(Clone(PartAt(s), how, pre)))])
                 /\ Rec([op |-> "add", b |-> b, s |-> s, how |-> how, pre |-> pre])

AddNew == /\ More /\ On("addnew") /\ Live # {}
          /\ \E b \in Pick(Live), qm \in Pick(QMs), pre \in Pick({0, 4}) :
               /\ Len(bun[b].parts) < MaxP
               /\ B([bun EXCEPT ![b].parts = Append(@, [Fresh(qm[1], qm[2]) EXCEPT !.pre = pre])])
               /\ Rec([op |-> "addnew", b |-> b, q |-> qm[1], m |-> qm[2], pre |-> pre])

\* replacing: the index may be out of range, then nothing happens
Replace == /\ More /\ On("rep") /\ Live # {}
           /\ \E b \in Pick(Live), i \in Pick(0..(MaxP + 1)), qm \in Pick(QMs) :
                /\ B(IF i \in 1..Len(bun[b].parts) THEN PutPart(b, i, Fresh(qm[1], qm[2])) ELSE bun)
                /\ Rec([op |-> "rep", b |-> b, i |-> i, q |-> qm[1], m |-> qm[2]])

AddToBeam == /\ More /\ On("abeam") /\ \E b \in Live : ~InBeam(b)
             /\ \E b \in Pick({ x \in Live : ~InBeam(x) }) :
                  /\ beam' = Append(beam, b) /\ UNCHANGED <<bun, trk, bdt, nots, buf, over>>
                  /\ Rec([op |-> "abeam", b |-> b])

ClearBeam == /\ More /\ On("cbeam") /\ beam # <<>>
             /\ bun' = [b \in 1..NB |-> IF InBeam(b) THEN [live |-> FALSE, parts |-> <<>>] ELSE bun[b]]
             /\ beam' = <<>> /\ nots' = 0 /\ UNCHANGED <<trk, bdt, buf, over>>
             /\ Rec([op |-> "cbeam"])

\* ---------------------------------------------------------------- trajectories
InitTraj == /\ More /\ On("init") /\ Parts # {}
            /\ \E r \in Pick(Parts), t \in Pick(Times), x \in Pick(Bases), p \in Pick(Moms), a \in Pick(Accs) :
                 LET pt == Pt(t, At(x), p, LitA(a)) IN
                 /\ B(PutPart(r[1], r[2], [PartAt(r) EXCEPT !.traj = <<pt>>, !.cur = pt, !.set = FALSE]))
                 /\ Rec([op |-> "init", r |-> r, t |-> t, x |-> x, p |-> p, a |-> a])

SetCur == /\ More /\ On("setcur") /\ Parts # {}
          /\ \E r \in Pick(Parts), t \in Pick(Times), x \in Pick(Bases), p \in Pick(Moms), a \in Pick(Accs), o \in Pick({"setcur", "store"}) :
               LET pt == Pt(t, At(x), p, LitA(a)) IN
               /\ o = "store" => Room(PartAt(r))
               /\ B(PutPart(r[1], r[2], IF o = "setcur" THEN [PartAt(r) EXCEPT !.cur = pt, !.set = FALSE]
                                        ELSE [PartAt(r) EXCEPT !.traj = Append(@, pt), !.set = FALSE]))
               /\ Rec([op |-> o, r |-> r, t |-> t, x |-> x, p |-> p, a |-> a])

ClrParts(refs) == PutParts(refs, [i \in 1..Len(refs) |-> [PartAt(refs[i]) EXCEPT !.traj = <<>>, !.set = FALSE]])
Clear == /\ More /\ On("clr")
         /\ \/ /\ Parts # {}
               /\ \E r \in Pick(Parts) : B(ClrParts(<<r>>)) /\ Rec([op |-> "clrp", r |-> r])
            \/ /\ Live # {}
               /\ \E b \in Pick(Live) : B(ClrParts(Flat(<<b>>))) /\ Rec([op |-> "clrb", b |-> b])
            \/ /\ bun' = ClrParts(Flat(beam)) /\ nots' = 0 /\ UNCHANGED <<beam, trk, bdt, buf, over>>
               /\ Rec([op |-> "clrall"])
PreAlloc == /\ More /\ On("pre")
            /\ \E n \in Pick({1, 2, 7}) :
               \/ /\ Live # {}
                  /\ \E b \in Pick(Live) : LET f == Flat(<<b>>) IN
                       B(PutParts(f, [i \in 1..Len(f) |-> [PartAt(f[i]) EXCEPT !.pre = n]])) /\ Rec([op |-> "preb", b |-> b, n |-> n])
               \/ LET f == Flat(beam) IN
                  B(PutParts(f, [i \in 1..Len(f) |-> [PartAt(f[i]) EXCEPT !.pre = n]])) /\ Rec([op |-> "preall", n |-> n])

\* ---------------------------------------------------------------- tracking
SetTracker == /\ More /\ On("trk")
              /\ \E k \in Pick({"none", "euler", "vay"}) :
                   /\ k # trk
                   /\ trk' = k /\ UNCHANGED <<bun, beam, bdt, nots, buf, over>> /\ Rec([op |-> "trk", k |-> k])
SetDt == /\ More /\ On("dt")
         /\ \E d \in Pick(Dts) : d # bdt /\ bdt' = d /\ UNCHANGED <<bun, beam, trk, nots, buf, over>> /\ Rec([op |-> "dt", d |-> d])
SetNots == /\ More /\ On("nots")
           /\ \E n \in Pick({0, 5}) : n # nots /\ nots' = n /\ UNCHANGED <<bun, beam, trk, bdt, buf, over>> /\ Rec([op |-> "nots", n |-> n])

\* scope: the beam, or one bunch used on its own
Scopes == (IF On("track") THEN {0} ELSE {}) \cup (IF On("trackb") THEN Live ELSE {})
RefsOf(s) == IF s = 0 THEN Flat(beam) ELSE Flat(<<s>>)
Setup == /\ More /\ Scopes # {}
         /\ \E s \in Pick(Scopes) :
            LET refs == RefsOf(s)
                d == bdt
                ps == PartsOf(refs)
                startless == \E i \in 1..Len(refs) : ps[i].traj = <<>>
            IN \/ /\ s = 0 /\ trk # "vay" /\ Same
                  /\ h0' = h0 /\ h' = Append(h, [op |-> "setup", s |-> s, k |-> <<>>, exc |-> TRUE, over |-> FALSE, st |-> View])
               \/ /\ s # 0 \/ trk = "vay"
                  /\ d > 0 /\ startless /\ over' = TRUE /\ UNCHANGED <<bun, beam, trk, bdt, nots, buf>>
                  /\ h0' = h0 /\ h' = Append(h, [op |-> "setup", s |-> s, k |-> <<>>, exc |-> TRUE, over |-> TRUE, st |-> View])
               \/ /\ s # 0 \/ trk = "vay"
                  /\ d > 0 /\ ~startless /\ (Sim => refs # <<>>)
                  /\ LET keys == [i \in 1..Len(refs) |-> InitKey(ps[i], d)] IN
                     /\ Separate(keys)
                     /\ \E ks \in KickSeqs(keys, TRUE) :
                          LET qs == [i \in 1..Len(refs) |-> DoInit(ps[i], ks[i], d)] IN
                          /\ bun' = PutParts(refs, qs)
                          /\ nots' = IF s = 0 THEN 0 ELSE nots
                          /\ UNCHANGED <<beam, trk, bdt, buf, over>>
                          /\ Rec([op |-> "setup", s |-> s, d |-> d, k |-> [i \in 1..Len(refs) |-> [f |-> qs[i].fld, pt |-> qs[i].cur]]])
Step == /\ More /\ Scopes # {}
        /\ \E s \in Pick(Scopes) :
           LET refs == RefsOf(s)
               ps == PartsOf(refs)
           IN \/ /\ s = 0 /\ trk # "vay" /\ Same
                 /\ h0' = h0 /\ h' = Append(h, [op |-> "step", s |-> s, k |-> <<>>, exc |-> TRUE, over |-> FALSE, st |-> View])
              \/ /\ s # 0 \/ trk = "vay"
                 /\ (Sim => refs # <<>>)
                 /\ \A i \in 1..Len(refs) : ps[i].set /\ Room(ps[i])
                 /\ LET keys == [i \in 1..Len(refs) |-> StepKey(ps[i])] IN
                    /\ Separate(keys)
                    /\ \E ks \in KickSeqs(keys, FALSE) :
                         LET qs == [i \in 1..Len(refs) |-> DoStep(ps[i], ks[i])] IN
                         /\ bun' = PutParts(refs, qs)
                         /\ nots' = IF s = 0 THEN nots + 1 ELSE nots
                         /\ UNCHANGED <<beam, trk, bdt, buf, over>>
                         /\ Rec([op |-> "step", s |-> s, k |-> [i \in 1..Len(refs) |-> [f |-> qs[i].fld, pt |-> qs[i].cur]]])

\* ---------------------------------------------------------------- buffers
Save == /\ More /\ On("save") /\ Flat(beam) # <<>>
        /\ buf' = [i \in 1..Len(Flat(beam)) |-> PartAt(Flat(beam)[i]).cur] /\ UNCHANGED <<bun, beam, trk, bdt, nots, over>>
        /\ Rec([op |-> "save"])
Load == /\ More /\ On("save") /\ buf # <<>> /\ Len(buf) = Len(Flat(beam))
        /\ \A i \in 1..Len(buf) : Room(PartAt(Flat(beam)[i]))
        /\ bun' = PutParts(Flat(beam), [i \in 1..Len(buf) |->
                    [PartAt(Flat(beam)[i]) EXCEPT !.cur = buf[i], !.traj = Append(@, buf[i]), !.set = FALSE]])
        /\ nots' = nots + 1 /\ UNCHANGED <<beam, trk, bdt, buf, over>>
        /\ Rec([op |-> "load"])
\* the i-th particles of all bunches in turn
RECURSIVE ProbeSeq(_, _)
MaxLen == CHOOSE m \in 0..MaxP : (\A i \in 1..Len(beam) : Len(bun[beam[i]].parts) <= m)
                                /\ (m > 0 => \E i \in 1..Len(beam) : Len(bun[beam[i]].parts) = m)
ProbeSeq(i, j) == IF i > MaxLen THEN <<>>
                  ELSE IF j > Len(beam) THEN ProbeSeq(i + 1, 1)
                  ELSE (IF i <= Len(bun[beam[j]].parts) THEN <<<<beam[j], i>>>> ELSE <<>>) \o ProbeSeq(i, j + 1)
Probe == /\ More /\ On("probe") /\ Flat(beam) # <<>>
         /\ \E n \in Pick(1..Len(Flat(beam))) :
              /\ Same /\ Rec([op |-> "probe", n |-> n, ret |-> SubSeq(ProbeSeq(1, 1), 1, n)])

\* ---------------------------------------------------------------- shift, mirror, query
MapPart(P, X(_), V(_), f) ==
    LET pt(z) == Pt(z.t, X(z.x), V(z.p), [z.a EXCEPT !.lit = V(@), !.e = V(@), !.w = V(@)])
    IN [P EXCEPT !.traj = [i \in 1..Len(@) |-> pt(@[i])], !.cur = pt(@), !.q = @ * f]
ChargeOK(P, f) == Abs(P.q * f) <= 200
Shift == /\ More /\ On("shift") /\ Parts # {}
         /\ \E r \in Pick(Parts), d \in Pick(Deltas), f \in Pick(Facs) :
              LET X(x) == [x EXCEPT !.b = Add(@, d)]
                  V(v) == v
              IN /\ ChargeOK(PartAt(r), f)
                 /\ B(PutPart(r[1], r[2], MapPart(PartAt(r), X, V, f)))
                 /\ Rec([op |-> "shift", r |-> r, d |-> d, f |-> f])
\* reflection of a direction at the plane with (unnormalised) normal n
Refl(v, n) == Sub(v, DivV(Mul(n, 2 * Dot(v, n)), Dot(n, n)))
Mirror == /\ More /\ On("mirror") /\ Parts # {}
          /\ \E r \in Pick(Parts), o \in Pick(Bases), n \in Pick(Normals), f \in Pick(Facs) :
               LET V(v) == Refl(v, n)
                   X(x) == [b |-> Add(o, Refl(Sub(x.b, o), n)),
                            v |-> [i \in 1..Len(x.v) |-> LET w == Refl(<<x.v[i][2], x.v[i][3], x.v[i][4]>>, n) IN <<x.v[i][1], w[1], w[2], w[3]>>]]
               IN /\ ChargeOK(PartAt(r), f)
                  /\ B(PutPart(r[1], r[2], [MapPart(PartAt(r), X, V, f) EXCEPT !.set = FALSE]))
                  /\ Rec([op |-> "mirror", r |-> r, o |-> o, n |-> n, f |-> f])

\* a charge and its opposite image: on the plane the tangential E and the normal B vanish (exp |-> 0)
Image == /\ More /\ On("image") /\ Parts # {}
         /\ \E r \in Pick(Parts), o \in Pick(Bases), n \in Pick(Normals), k1, k2 \in Pick({-9, -2, 1, 4, 30}), t \in Pick(QTimes) :
              LET u == CHOOSE w \in { <<1,0,0>>, <<0,1,0>>, <<0,0,1>> } : Dot(w, n) = 0
                  pt == Add(o, Add(Mul(u, k1), Mul(Cross(u, n), k2)))
              IN /\ PartAt(r).traj # <<>> /\ \A i \in 1..Len(PartAt(r).traj) : PartAt(r).traj[i].x.b # pt   \* not next to the trajectory
                 /\ t # PartAt(r).traj[1].t /\ t # Last(PartAt(r).traj).t    \* the field jumps where the acceleration starts
                 /\ Same /\ Rec([op |-> "image", r |-> r, o |-> o, n |-> n, pt |-> pt, t |-> t])

Rising(tr) == \A i \in 1..(Len(tr) - 1) : tr[i].t < tr[i + 1].t
Coord == /\ More /\ On("coord") /\ Parts # {}
         /\ \E r \in Pick(Parts), t \in Pick(QTimes) :
              LET tr == PartAt(r).traj
                  c == { i \in 1..(Len(tr) - 1) : tr[i].t <= t /\ t <= tr[i + 1].t }
                  ret == IF Len(tr) = 1 /\ tr[1].t = t THEN <<1, 1, 0, 1>>
                         ELSE IF c = {} THEN <<>>
                         ELSE LET i == CHOOSE i \in c : TRUE IN <<i, i + 1, t - tr[i].t, tr[i + 1].t - tr[i].t>>
              IN /\ Rising(tr) /\ Same /\ Rec([op |-> "coord", r |-> r, t |-> t, ret |-> ret])

\* ---------------------------------------------------------------- behaviours
Empty == [live |-> FALSE, parts |-> <<>>]
Init == /\ bun = [b \in 1..NB |-> Empty] /\ beam = <<>> /\ trk \in InitTrk /\ bdt \in InitDts /\ nots = 0
        /\ buf = <<>> /\ over = FALSE /\ h = <<>> /\ h0 = [trk |-> trk, dt |-> bdt]
Next == NewBunch \/ NewDist \/ CopyBunch \/ DelBunch \/ AddClone \/ AddNew \/ Replace \/ AddToBeam \/ ClearBeam \/ InitTraj
        \/ SetCur \/ Clear \/ PreAlloc \/ SetTracker \/ SetDt \/ SetNots \/ Setup \/ Step \/ Save \/ Load \/ Probe
        \/ Shift \/ Mirror \/ Coord \/ Image
        \/ (Weight = "step" /\ Step) \/ (Weight = "step" /\ Step) \/ (Weight = "step" /\ Setup)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties of the model
AllParts == { <<b, i>> : b \in { b \in 1..NB : bun[b].live }, i \in 1..MaxP }
Existing == { r \in AllParts : r[2] <= Len(bun[r[1]].parts) }
\* C16: after set-up the current state is the last stored point
CurrentIsLast == \A r \in Existing : PartAt(r).set => PartAt(r).traj = <<>> \/ PartAt(r).cur = Last(PartAt(r).traj)
\* C03: the centre momentum lies half way, magnetic fields and drifts conserve the magnitude
VayLaws == \A r \in Existing : LET P == PartAt(r) IN
    (P.set /\ P.fld.kind # "none") =>
        /\ P.fld.kind = "drift" => P.pe = P.cur.p
        /\ (P.fld.kind = "EB" /\ P.fld.tt = Z3) => P.pe = Add(P.fld.p, P.fld.e)
\* C03 as a step property: full magnetic step conserves |p|, electric step adds twice the half kick
StepLaws == [][ \A r \in Existing :
    LET P == PartAt(r) IN
    (r[2] <= Len(bun'[r[1]].parts) /\ bun'[r[1]].live) =>
    LET Q == bun'[r[1]].parts[r[2]] IN
    (P.set /\ Q.set /\ Len(Q.traj) = Len(P.traj) + 1 /\ h'[Len(h')].op = "step") =>
       /\ \A i \in 1..Len(P.traj) : Q.traj[i] = P.traj[i]
       /\ Q.cur.t = P.cur.t + P.dt
       /\ Q.fld.e = Z3 => Dot(Q.pe, Q.pe) = Dot(P.pe, P.pe)
       /\ (Q.fld.kind = "EB" /\ Q.fld.tt = Z3) => Q.pe = Add(P.pe, Mul(Q.fld.e, 2)) /\ Mul(Q.cur.p, 2) = Add(P.pe, Q.pe)
       /\ Q.q = P.q /\ Q.m = P.m ]_vars
\* a refused call changes nothing (except that the history may end)
Refused == [][ (h' # h /\ h'[Len(h')].exc) => UNCHANGED <<bun, beam, trk, bdt, nots, buf>> ]_vars
\* C16: the beam's step count is the number of points stored since set-up
Owned == \A i, j \in 1..Len(beam) : (beam[i] = beam[j] => i = j) /\ bun[beam[i]].live

Done == Len(h) = Depth \/ over
Emit == Done => PrintT(ToJson([nb |-> NB, i |-> [trk |-> h0.trk, dt |-> h0.dt], h |-> h]))
=============================================================================
