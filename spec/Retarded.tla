------------------------------ MODULE Retarded ------------------------------
(***************************************************************************)
(* Fields of particles seen by a distant observer (C12).                   *)
(*                                                                         *)
(* Units: one time unit, and the length light travels in it (c = 1).       *)
(* A particle is a charge and a trajectory of points <<t, x, p, a>> with    *)
(* integer times and positions and rational momenta (beta*gamma) and        *)
(* accelerations (per time unit).  Between the points everything is         *)
(* interpolated linearly, before the first point it moves along the         *)
(* straight line given by the first momentum, after the last point nothing  *)
(* is known and nothing is radiated.                                       *)
(*                                                                         *)
(* Observations are constructed from an emission event of one particle; the *)
(* specification then classifies the observation event relative to every    *)
(* other particle with exact integer arithmetic on the light cones.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS MaxPart, MaxSeg, MaxObs,
          Charges, Starts, Times, Moms, Accs, Dirs, Ranges, NearRanges, PreTimes, Fracs, Sim

VARIABLES parts, obs, ph
vars == <<parts, obs, ph>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Dt == 260

\* momentum classes along an axis: <<axis, sign, beta numerator, beta denominator, gamma numerator, gamma denominator>>
Beta(m) == [i \in 1..3 |-> IF i = m[1] THEN Q(m[2] * m[3], m[4]) ELSE I(0)]
Gamma(m) == Q(m[5], m[6])
Mom(m) == VScale(Gamma(m), Beta(m))
Step(m) == [i \in 1..3 |-> IF i = m[1] THEN m[2] * m[3] * (Dt \div m[4]) ELSE 0]

PlusV(x, y) == [i \in 1..3 |-> x[i] + y[i]]
Norm2(x) == x[1] * x[1] + x[2] * x[2] + x[3] * x[3]
Diff(x, y) == [i \in 1..3 |-> x[i] - y[i]]
NP(p) == Len(p.pt)

AddParticle ==
  /\ ph = "build" /\ Len(parts) < MaxPart
  /\ \E q \in Pick(Charges), x \in Pick(Starts), t \in Pick(Times), m \in Pick(Moms), a \in Pick(Accs) :
       parts' = Append(parts, [q |-> q, pt |-> <<[t |-> t, x |-> x, m |-> m, a |-> a]>>])
  /\ UNCHANGED <<obs, ph>>
\* the particle moves on with the velocity of its last point and may then have another one
Extend ==
  /\ ph = "build" /\ parts # <<>> /\ NP(parts[Len(parts)]) <= MaxSeg
  /\ \E m \in Pick(Moms), a \in Pick(Accs) :
       LET k == Len(parts)
           l == parts[k].pt[NP(parts[k])] IN
       parts' = [parts EXCEPT ![k].pt = Append(@, [t |-> l.t + Dt, x |-> PlusV(l.x, Step(l.m)), m |-> m, a |-> a])]
  /\ UNCHANGED <<obs, ph>>
Ready == ph = "build" /\ parts # <<>> /\ ph' = "observe" /\ UNCHANGED <<parts, obs>>

(* ---- light cones ---------------------------------------------------------*)
\* has the signal emitted at (t,x) arrived at (ot,ox)?  exactly now?
Arrived(t, x, o) == o.t >= t /\ (o.t - t) * (o.t - t) >= Norm2(Diff(o.x, x))
Now(t, x, o) == o.t >= t /\ (o.t - t) * (o.t - t) = Norm2(Diff(o.x, x))
\* 0: before the first point, 1..NP-1: segment, NP: after the end; edge: on the boundary itself
Class(p, o) == LET s == { i \in 1..NP(p) : Arrived(p.pt[i].t, p.pt[i].x, o) } IN Cardinality(s)
Edge(p, o) == \E i \in 1..NP(p) : Now(p.pt[i].t, p.pt[i].x, o)
\* every emission event in integer steps of the trajectory
See(k, s, et, ex, n, R) ==
  [t |-> et + R, x |-> PlusV(ex, [i \in 1..3 |-> n[i] * (R \div n[4])]), k |-> k, s |-> s, et |-> et, ex |-> ex, n |-> n, R |-> R]
Dir(o) == [i \in 1..3 |-> Q(o.n[i], o.n[4])]

(* ---- Lienard-Wiechert factors ---------------------------------------------*)
\* E = q/(4 pi eps0) ( V / (R^2 D^3) + W / (R D^3 c) ),  B = n x E / c
Lw(n, b, g, a) == LET D == Sub(I(1), VDot(b, n))
                      bp == VScale(Inv(g), a) IN
                  [D |-> D, V |-> VScale(Inv(Mul(g, g)), VSub(n, b)), W |-> VCross(n, VCross(VSub(n, b), bp)), n |-> n]
AccOf(a) == [i \in 1..3 |-> Q(a[i], 1040)]
Exact(p, i, o, acc) == Lw(Dir(o), Beta(p.pt[i].m), Gamma(p.pt[i].m), IF acc THEN AccOf(p.pt[i].a) ELSE V0)
Views(o) == [j \in 1..Len(parts) |-> [c |-> Class(parts[j], o), edge |-> Edge(parts[j], o)]]

\* fields of one trajectory point, whatever the time (indexed form)
ObserveIndex ==
  /\ ph = "observe" /\ Len(obs) < MaxObs
  /\ \E k \in Pick(1..Len(parts)), n \in Pick(Dirs), R \in Pick(Ranges \cup NearRanges) : \E i \in Pick(1..NP(parts[k])) :
       LET o == See(k, i, parts[k].pt[i].t, parts[k].pt[i].x, n, R) IN
       obs' = Append(obs, o @@ [kind |-> "index", lw |-> Exact(parts[k], i, o, TRUE), views |-> Views(o)])
  /\ UNCHANGED <<parts, ph>>
\* emission before the start of the trajectory
ObservePre ==
  /\ ph = "observe" /\ Len(obs) < MaxObs
  /\ \E k \in Pick(1..Len(parts)), n \in Pick(Dirs), R \in Pick(Ranges \cup NearRanges), tau \in Pick(PreTimes) :
       LET p == parts[k]
           m == p.pt[1].m
           o == See(k, 0, p.pt[1].t - 65 * tau, PlusV(p.pt[1].x, [i \in 1..3 |-> IF i = m[1] THEN -tau * m[2] * m[3] * (65 \div m[4]) ELSE 0]), n, R) IN
       obs' = Append(obs, o @@ [kind |-> "pre", lw |-> Exact(p, 1, o, FALSE), views |-> Views(o)])
  /\ UNCHANGED <<parts, ph>>
\* emission inside segment s at fraction f/4
ObserveSegment ==
  /\ ph = "observe" /\ Len(obs) < MaxObs
  /\ \E k \in Pick(1..Len(parts)), n \in Pick(Dirs), R \in Pick(Ranges), f \in Pick(Fracs) : NP(parts[k]) > 1 /\ \E s \in Pick(1..(NP(parts[k]) - 1)) :
       LET p == parts[k]
           m == p.pt[s].m
           o == See(k, s, p.pt[s].t + 65 * f, PlusV(p.pt[s].x, [i \in 1..3 |-> (Step(m)[i] \div 4) * f]), n, R)
           uni == p.pt[s].m = p.pt[s + 1].m
           mix(u, v) == VAdd(VScale(Q(4 - f, 4), u), VScale(Q(f, 4), v)) IN
       obs' = Append(obs, o @@ [kind |-> "segment", f |-> f, views |-> Views(o),
                      p |-> mix(Mom(p.pt[s].m), Mom(p.pt[s + 1].m)), a |-> mix(AccOf(p.pt[s].a), AccOf(p.pt[s + 1].a))]
                   @@ (IF uni THEN [lw |-> Lw(Dir(o), Beta(m), Gamma(m), mix(AccOf(p.pt[s].a), AccOf(p.pt[s + 1].a)))] ELSE <<>>))
  /\ UNCHANGED <<parts, ph>>
\* long after the end
ObserveAfter ==
  /\ ph = "observe" /\ Len(obs) < MaxObs
  /\ \E k \in Pick(1..Len(parts)), n \in Pick(Dirs), R \in Pick(Ranges), d \in Pick(1..3) :
       LET p == parts[k]
           l == p.pt[NP(p)]
           o == See(k, NP(p), l.t, l.x, n, R)
           w == [o EXCEPT !.t = @ + d] IN
       obs' = Append(obs, w @@ [kind |-> "after", views |-> Views(w)])
  /\ UNCHANGED <<parts, ph>>
Finish == ph = "observe" /\ Len(obs) = MaxObs /\ ph' = "done" /\ UNCHANGED <<parts, obs>>

Init == parts = <<>> /\ obs = <<>> /\ ph = "build"
Next == AddParticle \/ Extend \/ Ready \/ ObserveIndex \/ ObservePre \/ ObserveSegment \/ ObserveAfter \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------------*)
\* the points whose signals have arrived form an initial part of the trajectory (one light-cone crossing only)
Monotone == \A k \in 1..Len(obs) : \A j \in 1..Len(parts) : \A i \in 1..NP(parts[j]) :
              Arrived(parts[j].pt[i].t, parts[j].pt[i].x, obs[k]) <=> i <= obs[k].views[j].c
\* the emission event an observation was built from is the one the light cone selects
Unique == \A k \in 1..Len(obs) : LET o == obs[k] IN
            o.kind # "index" => o.views[o.k].c = o.s
Subluminal == \A j \in 1..Len(parts) : \A i \in 1..(NP(parts[j]) - 1) :
                Norm2(Diff(parts[j].pt[i + 1].x, parts[j].pt[i].x)) < Dt * Dt
\* the radiation field is transverse; for uniform motion the field is the boosted Coulomb field of the
\* present position  Rp = R (n - beta)  :  (R D)^2 = Rp^2 - (beta x Rp)^2
Physics == \A k \in 1..Len(obs) : LET o == obs[k] IN
             "lw" \in DOMAIN o =>
               /\ VDot(o.lw.n, o.lw.W) = I(0)
               /\ Mul(o.lw.D, o.lw.D) =
                    LET m == parts[o.k].pt[IF o.s = 0 THEN 1 ELSE o.s].m
                        u == VSub(o.lw.n, Beta(m)) IN
                    Sub(VDot(u, u), VDot(VCross(Beta(m), u), VCross(Beta(m), u)))
Emit == ph = "done" => PrintT(ToJson([parts |-> [j \in 1..Len(parts) |-> [q |-> parts[j].q,
           pt |-> [i \in 1..NP(parts[j]) |-> [t |-> parts[j].pt[i].t, x |-> parts[j].pt[i].x, p |-> Mom(parts[j].pt[i].m), a |-> AccOf(parts[j].pt[i].a)]]]],
           obs |-> obs]))
=============================================================================
