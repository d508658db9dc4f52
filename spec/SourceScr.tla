----------------------------- MODULE SourceScr -----------------------------
(***************************************************************************)
(* A recorded screen as a source of radiation (C09).                         *)
(*                                                                         *)
(* A screen is recorded (cells, samples, geometry, timing) to a file; a      *)
(* source screen reads it and radiates from its own position and time.  The   *)
(* field seen at time t and place X is the sum over all cells whose window   *)
(* contains t - R (R the distance from the cell) of                          *)
(*     -F (R.n)/R^3 + dF/dt (1 - R.n/R)/(R c)      times cell area / 4 pi    *)
(* with F the transversal part of the recorded samples, linearly             *)
(* interpolated, and dF/dt its difference quotient.  Lengths are integers,   *)
(* times are in length units over c, fields integers.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rat, Randomization

CONSTANTS Geos, Nxs, Nys, Nts, Dts, Dtxs, Origins, Times, Seeds, Dists, Side, Bads, Depth, Sim
VARIABLES file, src, h
vars == <<file, src, h>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
More == Len(h) < Depth
None == [kind |-> "none"]
V(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
M(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
S(a, x) == <<a * x[1], a * x[2], a * x[3]>>
D(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]

\* recorded sample: component c = 1..6 of sample it (0-based) of cell ix,iy
F(f, ix, iy, it, c) == (((5 * ix + 3 * iy + 7 * it + 2 * c + f.seed) * (ix + 2 * iy + it + c + 1 + f.seed)) % 17) - 8
Table(f) == [i \in 1..(f.nx * f.ny * f.nt) |->
              LET k == i - 1 IN [c \in 1..6 |-> F(f, k \div (f.ny * f.nt), (k \div f.nt) % f.ny, k % f.nt, c)]]
\* geometry: grid vectors made orthogonal keeping the first direction and both lengths; nv is normal to both
\* (against dx x dy), of integer length nl;  g.dyo is the orthogonalised second vector, g.a the cell area
Cell(f, ix, iy) == V(S(ix - (f.nx \div 2), f.g.dx), S(iy - (f.ny \div 2), f.g.dyo))
T0(f, ix, iy) == f.dtx * (ix - (f.nx \div 2)) + f.dty * (iy - (f.ny \div 2))
Last(f, ix, iy) == T0(f, ix, iy) + (f.nt - 1) * f.dt
\* transversal part of sample it as two rational vectors
Trans(f, v) == VSub(VI(v), VScale(Q(D(v, f.g.nv), f.g.nl * f.g.nl), VI(f.g.nv)))
Samp(f, ix, iy, it) == IF it \notin 0..(f.nt - 1) THEN <<V0, V0>>
                       ELSE <<Trans(f, [c \in 1..3 |-> F(f, ix, iy, it, c)]), Trans(f, [c \in 1..3 |-> F(f, ix, iy, it, c + 3)])>>
PScale(a, p) == <<VScale(a, p[1]), VScale(a, p[2])>>
PAdd(p, q) == <<VAdd(p[1], q[1]), VAdd(p[2], q[2])>>
PSub(p, q) == <<VSub(p[1], q[1]), VSub(p[2], q[2])>>
Deriv(f, ix, iy, it) == IF it \notin 0..(f.nt - 1) THEN <<V0, V0>>
                        ELSE IF it = 0 THEN PScale(Q(1, f.dt), PSub(Samp(f, ix, iy, 1), Samp(f, ix, iy, 0)))
                        ELSE IF it = f.nt - 1 THEN PScale(Q(1, f.dt), PSub(Samp(f, ix, iy, it), Samp(f, ix, iy, it - 1)))
                        ELSE PScale(Q(1, 2 * f.dt), PSub(Samp(f, ix, iy, it + 1), Samp(f, ix, iy, it - 1)))
\* linear interpolation at time s inside the window
Ipol(op(_, _, _, _), f, ix, iy, s) == LET k == (s - T0(f, ix, iy)) \div f.dt
                                          r == Q((s - T0(f, ix, iy)) % f.dt, f.dt) IN
                                      PAdd(PScale(Sub(I(1), r), op(f, ix, iy, k)), PScale(r, op(f, ix, iy, k + 1)))

Root(n) == IF \E r \in 0..200 : r * r = n THEN CHOOSE r \in 0..200 : r * r = n ELSE -1
\* window of a cell against signal time t - sqrt(r2):  "in", "out", or "edge" (a boundary: not decided)
Window(f, ix, iy, t, r2) == LET a == t - T0(f, ix, iy)
                                b == t - Last(f, ix, iy)
                                lo == IF a < 0 THEN "out" ELSE IF r2 < a * a THEN "in" ELSE IF r2 = a * a THEN "edge" ELSE "out"
                                hi == IF b < 0 THEN "in" ELSE IF r2 > b * b THEN "in" ELSE IF r2 = b * b THEN "edge" ELSE "out" IN
                            IF lo = "out" \/ hi = "out" THEN "out" ELSE IF lo = "in" /\ hi = "in" THEN "in" ELSE "edge"
CellsOf(f) == { <<ix, iy>> \in (0..(f.nx - 1)) \X (0..(f.ny - 1)) : TRUE }
\* can the field at relative time t and place X be given exactly?
Exact(f, t, X) == \A c \in CellsOf(f) :
                    LET r2 == D(M(X, Cell(f, c[1], c[2])), M(X, Cell(f, c[1], c[2])))
                        w == Window(f, c[1], c[2], t, r2) IN
                    /\ r2 > 0 /\ w # "edge"
                    /\ w = "in" => Root(r2) > 0
RECURSIVE Contrib(_, _, _, _)
Contrib(f, cs, t, X) ==
  IF cs = {} THEN <<>>
  ELSE LET c == CHOOSE x \in cs : TRUE
           rv == M(X, Cell(f, c[1], c[2]))
           R == Root(D(rv, rv))
           dn == Q(D(rv, f.g.nv), f.g.nl)
           s == t - R
           p == PAdd(PScale(Neg(Div(dn, I(R * R * R))), Ipol(Samp, f, c[1], c[2], s)),
                     PScale(Div(Sub(I(1), Div(dn, I(R))), I(R)), Ipol(Deriv, f, c[1], c[2], s))) IN
       << p[1] \o p[2] >> \o Contrib(f, cs \ {c}, t, X)
Inside(f, t, X) == { c \in CellsOf(f) : Window(f, c[1], c[2], t, D(M(X, Cell(f, c[1], c[2])), M(X, Cell(f, c[1], c[2])))) = "in" }

\* energy flow of a cell, in units of (field unit)^2 time unit / mu_0
RECURSIVE SumP(_, _, _, _)
SumP(f, ix, iy, it) == IF it = f.nt THEN V0
                       ELSE LET p == Samp(f, ix, iy, it) IN VAdd(VScale(I(f.dt), VCross(p[1], p[2])), SumP(f, ix, iy, it + 1))
RECURSIVE Flow(_, _)
Flow(f, cs) == IF cs = {} THEN I(0)
               ELSE LET c == CHOOSE x \in cs : TRUE IN
                    Add(Mul(I(-f.g.a), Mul(Q(1, f.g.nl), VDot(SumP(f, c[1], c[2], 0), VI(f.g.nv)))), Flow(f, cs \ {c}))

Record == /\ More /\ src.kind = "none"
          /\ \E g \in Pick(Geos), nx \in Pick(Nxs), ny \in Pick(Nys), nt \in Pick(Nts), dt \in Pick(Dts), dtx \in Pick(Dtxs), dty \in Pick(Dtxs),
                og \in Pick(Origins), t0 \in Pick(Times), seed \in Pick(Seeds), by \in Pick({"observer", "file"}) :
               LET f == [kind |-> "file", g |-> g, nx |-> nx, ny |-> ny, nt |-> nt, dt |-> dt, dtx |-> dtx, dty |-> dty, seed |-> seed] IN
               /\ file' = f
               /\ h' = Append(h, [op |-> "record", by |-> by, f |-> f, o |-> og, t0 |-> t0, data |-> Table(f)])
          /\ UNCHANGED src
\* the file lacks something: a source made of it is refused
Bad == /\ More /\ file.kind = "file" /\ src.kind = "none" /\ h[Len(h)].op # "bad" /\ \E b \in Pick(Bads) :
         h' = Append(h, [op |-> "bad", what |-> b]) /\ UNCHANGED <<file, src>>
\* cell delays are optional in the file
Optional == /\ More /\ file.kind = "file" /\ src.kind = "none" /\ h[Len(h)].op = "record" /\ \E x \in Pick(BOOLEAN), y \in Pick(BOOLEAN) :
              /\ x \/ y
              /\ file' = [file EXCEPT !.dtx = IF x THEN 0 ELSE @, !.dty = IF y THEN 0 ELSE @]
              /\ h' = Append(h, [op |-> "optional", dtx |-> ~x, dty |-> ~y])
            /\ UNCHANGED src
Load == /\ More /\ file.kind = "file" /\ src.kind = "none" /\ \E og \in Pick(Origins), t0 \in Pick(Times) :
          /\ src' = [kind |-> "src", o |-> og, t |-> t0]
          /\ h' = Append(h, [op |-> "load", o |-> og, t0 |-> t0])
        /\ UNCHANGED file
Place(f, c, w) == V(Cell(f, c[1], c[2]), V(S(w[1], f.g.nv), V(S(w[2], f.g.dx), S(w[3], f.g.dyo))))
\* relative time k at cell c as seen from X
Seen(f, c, k, X) == LET r == Root(D(M(X, Cell(f, c[1], c[2])), M(X, Cell(f, c[1], c[2])))) IN T0(f, c[1], c[2]) + k + (IF r > 0 THEN r ELSE 7)
Query == /\ More /\ src.kind = "src"
         /\ \E c \in Pick(CellsOf(file)), k \in Pick((-2)..((file.nt - 1) * file.dt + 2)) :
            LET ws == { w \in (IF Sim THEN RandomSubset(25, Dists \X Side \X Side) ELSE Dists \X Side \X Side) : LET X == Place(file, c, w) IN Exact(file, Seen(file, c, k, X), X) }
                lit == { w \in ws : LET X == Place(file, c, w) IN Inside(file, Seen(file, c, k, X), X) # {} } IN
            /\ ws # {}
            /\ \E w \in Pick(IF Sim /\ lit # {} THEN lit ELSE ws) :
               LET X == Place(file, c, w)
                   t == Seen(file, c, k, X) IN
               h' = Append(h, [op |-> "query", t |-> t + src.t, x |-> V(X, src.o), f |-> Contrib(file, Inside(file, t, X), t, X)])
         /\ UNCHANGED <<file, src>>
Energy == /\ More /\ src.kind = "src" /\ \E c \in Pick(CellsOf(file)) :
            h' = Append(h, [op |-> "energy", ix |-> c[1], iy |-> c[2], s |-> SumP(file, c[1], c[2], 0), total |-> Flow(file, CellsOf(file))])
          /\ UNCHANGED <<file, src>>
\* in simulation a draw may be inexact: it is then skipped
Skip == Sim /\ More /\ src.kind = "src" /\ UNCHANGED vars
Init == file = None /\ src = None /\ h = <<>>
Next == IF file.kind = "none" THEN Record ELSE IF src.kind = "none" THEN Bad \/ Optional \/ Load ELSE Query \/ Energy \/ Skip
Spec == Init /\ [][Next]_vars

\* geometry really is orthogonal and of the stated lengths
GeoOK == file.kind = "file" =>
           LET g == file.g IN
           /\ D(g.dx, g.dyo) = 0 /\ D(g.nv, g.dx) = 0 /\ D(g.nv, g.dy) = 0 /\ D(g.nv, g.nv) = g.nl * g.nl
           /\ g.a * g.a = D(g.dx, g.dx) * D(g.dy, g.dy) /\ D(g.dyo, g.dyo) = D(g.dy, g.dy)
           /\ LET x == <<g.dx[2] * g.dy[3] - g.dx[3] * g.dy[2], g.dx[3] * g.dy[1] - g.dx[1] * g.dy[3], g.dx[1] * g.dy[2] - g.dx[2] * g.dy[1]>> IN D(x, g.nv) < 0
\* what is radiated is transversal, and nothing comes out of a window that does not contain the signal
Transversal == src.kind = "src" => \A c \in CellsOf(file), it \in 0..(file.nt - 1) :
                 \A b \in 1..2 : VDot(Samp(file, c[1], c[2], it)[b], VI(file.g.nv)) = I(0)
Emit == (Len(h) = Depth) => PrintT(ToJson(h))
=============================================================================
