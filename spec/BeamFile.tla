------------------------------ MODULE BeamFile ------------------------------
(***************************************************************************)
(* Beams written to watch-point files and bunches imported from files       *)
(* (C17).                                                                   *)
(*                                                                         *)
(* Units: a time unit and the length light travels in it; charges in units  *)
(* of one elementary charge.  Coordinates are exact rationals.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat

CONSTANTS MaxBunch, MaxPart, MaxRow, MaxOps, Vals, Angles, Moments, Dirs, Charges, Names, Bads, Modes, Sim

VARIABLES beam, ops
vars == <<beam, ops>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
\* the draw depends on the state: TLC would evaluate a constant once and for all
One(S) == CHOOSE x \in Pick(IF Len(ops) >= 0 THEN S ELSE {}) : TRUE
More == Len(ops) < MaxOps
Do(o) == ops' = Append(ops, o)
VecOf(S) == <<One(S), One(S), One(S)>>
IVec(S) == VI(VecOf(S))

(* ---- the beam: bunches of particles with charge and current state ---------*)
\* charge and time are rationals too (imported bunches share a charge)
Particle == [q |-> I(One(Charges)), t |-> I(One(Vals)), x |-> IVec(Vals), p |-> IVec(Vals)]
AddBunch ==
  /\ More /\ Len(beam) < MaxBunch
  /\ \E n \in Pick(0..MaxPart) : \E b \in {TLCEval([i \in 1..n |-> Particle])} :
       /\ beam' = Append(beam, b)
       /\ Do([op |-> "bunch", b |-> b])
\* the particles move on: only the current state counts
Move ==
  /\ More /\ \E b \in 1..Len(beam) : beam[b] # <<>>
  /\ \E b \in Pick({ i \in 1..Len(beam) : beam[i] # <<>> }) : \E i \in Pick(1..Len(beam[b])) :
       \E s \in {TLCEval([t |-> I(One(Vals)), x |-> IVec(Vals), p |-> IVec(Vals)])} :
         /\ beam' = [beam EXCEPT ![b][i].t = s.t, ![b][i].x = s.x, ![b][i].p = s.p]
         /\ Do([op |-> "move", b |-> b, i |-> i, s |-> s])
RECURSIVE Flat(_, _)
Flat(bs, k) == IF k = 0 THEN <<>> ELSE Flat(bs, k - 1) \o bs[k]
RECURSIVE SumQ(_, _)
SumQ(ps, k) == IF k = 0 THEN I(0) ELSE Add(SumQ(ps, k - 1), ps[k].q)
\* a row of a file: time, position, momentum and what follows from them
P2(p) == VDot(p, p)
Row(s) == [t |-> s.t, x |-> s.x, p |-> s.p, p2 |-> P2(s.p), g2 |-> Add(I(1), P2(s.p)),
           xp |-> IF s.p[3][1] = 0 THEN <<>> ELSE Div(s.p[1], s.p[3]), yp |-> IF s.p[3][1] = 0 THEN <<>> ELSE Div(s.p[2], s.p[3])]
Table(ps) == [i \in 1..Len(ps) |-> Row(ps[i])]
Content(ps) == [n |-> Len(ps), q |-> SumQ(ps, Len(ps)), rows |-> Table(ps)]
Write ==
  /\ More
  /\ \E f \in Pick({"hdf5", "sdds"}), nm \in Pick(Names) : Do([op |-> "write", f |-> f, name |-> nm, c |-> Content(Flat(beam, Len(beam)))])
  /\ UNCHANGED beam
WriteBunch ==
  /\ More /\ beam # <<>>
  /\ \E b \in Pick(1..Len(beam)), nm \in Pick(Names) : Do([op |-> "writebunch", b |-> b, name |-> nm, c |-> Content(beam[b])])
  /\ UNCHANGED beam
\* a place where nothing can be written: an error code, no file
WriteRefused ==
  /\ More
  /\ \E f \in Pick({"hdf5", "sdds", "bunch"}) : (f = "bunch" => beam # <<>>) /\ Do([op |-> "nowrite", f |-> f])
  /\ UNCHANGED beam

(* ---- import -----------------------------------------------------------------*)
\* frame of the import: s along the given direction, x the transverse part of the x axis (of the z axis if s is close
\* to x), y = x cross s;  dir = <<given direction, s, x>>
Frame(d) == [s |-> [i \in 1..3 |-> Q(d[2][i], d[2][4])], x |-> [i \in 1..3 |-> Q(d[3][i], d[3][4])]]
FrameY(F) == VCross(F.x, F.s)
FrameOK(d) == LET F == Frame(d)
                  a == IF 25 * d[2][1] * d[2][1] > 16 * d[2][4] * d[2][4] THEN VI(<<0, 0, 1>>) ELSE VI(<<1, 0, 0>>)
                  u == VSub(a, VScale(VDot(a, F.s), F.s)) IN
              /\ VDot(F.s, F.s) = I(1) /\ VDot(F.x, F.x) = I(1) /\ VDot(F.x, F.s) = I(0)
              /\ VCross(u, F.x) = V0 /\ VDot(u, F.x)[1] > 0
              /\ VCross(VI(d[1]), F.s) = V0 /\ VDot(VI(d[1]), F.s)[1] > 0
ASSUME \A d \in Dirs : FrameOK(d)
\* file rows: x, y, t in units; angle class <<xp, yp, norm of (xp,yp,1)>>; momentum class <<p, beta>>
FileRow == [x |-> One(Vals), y |-> One(Vals), t |-> One(Vals), an |-> One(Angles), mo |-> One(Moments)]
RECURSIVE SumT(_, _)
SumT(rs, k) == IF k = 0 THEN 0 ELSE SumT(rs, k - 1) + rs[k].t
Imported(rs, q, d) ==
  LET F == Frame(d)
      n == Len(rs)
      t0 == Q(SumT(rs, n), n)
      mk(r) == LET dv == VScale(Inv(r.an[3]), VAdd(VAdd(VScale(r.an[1], F.x), VScale(r.an[2], FrameY(F))), F.s)) IN
               [q |-> Neg(Q(q, n)), t |-> I(0), p |-> VScale(r.mo[1], dv),
                x |-> VAdd(VAdd(VScale(I(r.x), F.x), VScale(I(r.y), FrameY(F))), VScale(Mul(r.mo[2], Sub(t0, I(r.t))), dv))] IN
  IF n = 0 THEN <<>> ELSE [i \in 1..n |-> mk(rs[i])]
OutRow(r) == [x |-> r.x, y |-> r.y, t |-> r.t, xp |-> r.an[1], yp |-> r.an[2], p |-> r.mo[1]]
\* the imported bunch becomes the last one of the beam
Import ==
  /\ More /\ Len(beam) < MaxBunch
  /\ \E n \in Pick(0..MaxRow), m \in Pick(Modes), nm \in Pick(Names), d \in Pick(Dirs), q \in Pick({1, 12, 500}) :
     \E rs \in {TLCEval([i \in 1..n |-> FileRow])} :
       LET b == TLCEval(Imported(rs, q, d)) IN
       /\ beam' = Append(beam, b)
       /\ Do([op |-> "import", mode |-> m, name |-> nm, dir |-> d[1], q |-> q, rows |-> [i \in 1..n |-> OutRow(rs[i])], b |-> b])
\* a file which is missing, unreadable or incomplete gives no particles at all
ImportRefused ==
  /\ More /\ Len(beam) < MaxBunch
  /\ \E n \in Pick(2..MaxRow), m \in Pick(Modes), w \in Pick(Bads), d \in Pick(Dirs) :
     \E rs \in {TLCEval([i \in 1..n |-> FileRow])} :
       Do([op |-> "import", mode |-> m, name |-> 8, dir |-> d[1], q |-> 12, rows |-> [i \in 1..n |-> OutRow(rs[i])], b |-> <<>>, bad |-> w])
  /\ beam' = Append(beam, <<>>)

Init == beam = <<>> /\ ops = <<>>
Next == AddBunch \/ Move \/ Write \/ WriteBunch \/ WriteRefused \/ Import \/ ImportRefused
Spec == Init /\ [][Next]_vars

(* ---- properties ---------------------------------------------------------------*)
\* an import keeps charge, centre of the beam in time (mean position along the path of each particle) and momenta
ImportOK == \A k \in 1..Len(ops) : LET o == ops[k] IN
  o.op = "import" /\ ~("bad" \in DOMAIN o) /\ o.rows # <<>> =>
     /\ SumQ(o.b, Len(o.b)) = Neg(I(o.q)) /\ Len(o.b) = Len(o.rows)
     /\ \A i \in 1..Len(o.b) : VDot(o.b[i].p, o.b[i].p) = Mul(o.rows[i].p, o.rows[i].p)
\* a file holds what the beam holds
Complete == \A k \in 1..Len(ops) : LET o == ops[k] IN
  o.op = "write" => Len(o.c.rows) = o.c.n
Emit == Len(ops) = MaxOps => PrintT(ToJson(ops))
=============================================================================
