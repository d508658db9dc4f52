----------------------------- MODULE Propagate -----------------------------
(***************************************************************************)
(* The screen-to-screen tools propagate and reflection (C15).                 *)
(*                                                                         *)
(* A run reads a source mesh with fields and a target mesh, computes for      *)
(* every target cell the fields radiated by all source cells and writes the   *)
(* target with these fields.  Anything wrong with the arguments or files ends *)
(* the run before anything is written.  The cells are handled by threads in   *)
(* any order; the spatial derivatives of all source cells are complete before *)
(* any of them is used.                                                       *)
(*                                                                         *)
(* Units: c = 1, all coordinates and times are integers in a frame whose w    *)
(* axis is the normal of the (flat) source plane; magnetic fields are given   *)
(* as c B.  The fields of the source are polynomials of degree 2 in the plane *)
(* with coefficients that change from sample to sample, so that their fitted  *)
(* derivatives are exact.  With an irrational distance R the contribution of  *)
(* a source cell is (c0 + c1 R + c2 R^2 + c3 R^3) / R^3 with integer c's: the *)
(* specification computes these, only the square root is left to the harness. *)
(* Mode "free" has no polynomial fields: bent meshes, cells with different    *)
(* start times; there the specification supplies neighbourhoods and normals.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Progs, Modes, Nargs, SrcStates, TgtStates, OutStates, Grids, Fans, Winds, Jitters, Masks, Seeds,
          Nts, Dts, T0s, TNs, TNts, TDts, TT0s, Dists, Bends, Skews, Stags, Sim
VARIABLES cfg, pc, fit, prop, disk, status
vars == <<cfg, pc, fit, prop, disk, status>>
\* the drawing depends on the state, otherwise it is made only once
Pick(S) == IF Sim THEN {TLCEval(RandomElement(IF cfg.kind = "none" THEN S ELSE {}))} ELSE S

Cross(x, y) == << x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1] >>
Minus(x, y) == << x[1] - y[1], x[2] - y[2], x[3] - y[3] >>
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Comps == 1..6

---------------------------------------------------------------------------
(* meshes: corner points on multiples of 3, so that all centres are integer *)
Height(bend, i, j) == IF bend = 0 THEN 0 ELSE 3 * ((i * (i + bend) + 2 * j) % 3)
GridMesh(g, bend) ==
  LET nx == g[1]
      ny == g[2]
      id(i, j) == i * (ny + 1) + j IN
  [pts |-> [k \in 1..((nx + 1) * (ny + 1)) |->
             LET i == (k - 1) \div (ny + 1)
                 j == (k - 1) % (ny + 1) IN <<3 * g[3] * i, 3 * g[4] * j, Height(bend, i, j)>>],
   tri |-> [k \in 1..(2 * nx * ny) |->
             LET i == (k - 1) \div (2 * ny)
                 j == ((k - 1) \div 2) % ny IN
             IF (i + j) % 2 = 0
               THEN IF k % 2 = 1 THEN <<id(i, j), id(i + 1, j), id(i + 1, j + 1)>> ELSE <<id(i, j), id(i + 1, j + 1), id(i, j + 1)>>
               ELSE IF k % 2 = 1 THEN <<id(i, j), id(i + 1, j), id(i, j + 1)>> ELSE <<id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)>>]]
\* 8 m triangles around one point, the other corners on a square
Ring(m, r) == IF r < 2 * m THEN <<m, r - m>>
              ELSE IF r < 4 * m THEN <<3 * m - r, m>>
              ELSE IF r < 6 * m THEN <<-m, 5 * m - r>>
              ELSE <<r - 7 * m, -m>>
FanMesh(m, bend) ==
  [pts |-> [k \in 1..(8 * m + 1) |-> IF k = 1 THEN <<0, 0, 0>> ELSE <<3 * Ring(m, k - 2)[1], 3 * Ring(m, k - 2)[2], Height(bend, k, 0)>>],
   tri |-> [k \in 1..(8 * m) |-> <<0, k, (k % (8 * m)) + 1>>]]
\* winding: +1 all as built, -1 all reversed, 0 only the last one reversed
Wind(m, w) == [m EXCEPT !.tri = [k \in 1..Len(m.tri) |-> IF w = 1 \/ (w = 0 /\ k < Len(m.tri)) THEN m.tri[k] ELSE <<m.tri[k][1], m.tri[k][3], m.tri[k][2]>>]]
Corner(m, k, a) == m.pts[m.tri[k][a] + 1]
Nvec(m, k) == Cross(Minus(Corner(m, k, 3), Corner(m, k, 1)), Minus(Corner(m, k, 2), Corner(m, k, 1)))
Corners(m, k) == {m.tri[k][1], m.tri[k][2], m.tri[k][3]}
Nbh(m, k) == { l \in 1..Len(m.tri) : Corners(m, l) \cap Corners(m, k) # {} }
\* observation points: the centres, or a little beside
Third(m, k, c) == (Corner(m, k, 1)[c] + Corner(m, k, 2)[c] + Corner(m, k, 3)[c]) \div 3
Where(m, k, jit) == << Third(m, k, 1) + (IF jit = 0 THEN 0 ELSE ((((k * k * k + jit * k) + (k \div 2)) % 7) % 3) - 1),
                       Third(m, k, 2) + (IF jit = 0 THEN 0 ELSE ((((k * k + jit * (k \div 3)) + 2 * k) % 5) % 3) - 1), Third(m, k, 3) >>
SourceMesh == LET m == Wind(IF cfg.fan > 0 THEN FanMesh(cfg.fan, cfg.bend) ELSE GridMesh(cfg.grid, cfg.bend), cfg.wind) IN
              [pts |-> m.pts, tri |-> m.tri, pos |-> [k \in 1..Len(m.tri) |-> Where(m, k, cfg.jit)]]
\* the target: cfg.tn cells at some distance, all different; its triangles do not matter for the fields
TargetMesh == LET n == cfg.tn
                  g == GridMesh(<<(n + 1) \div 2, 1, 1, 1>>, 0)
                  at(k) == << 5 * (k % 3) - 4 + cfg.tskew, 4 * (k \div 3) - 3 * (k % 2), cfg.dist + (k % 4) * (IF cfg.dist > 0 THEN 1 ELSE -1) >>
                  tri == SubSeq(g.tri, 1, n) IN
              [pts |-> [k \in 1..Len(g.pts) |-> << g.pts[k][1] + cfg.tskew, g.pts[k][2], g.pts[k][3] + cfg.dist >>],
               tri |-> tri, pos |-> [k \in 1..n |-> at(k)]]

---------------------------------------------------------------------------
(* fields of the source *)
Masked(c) == \/ cfg.mask = 0
             \/ cfg.mask = 7 /\ c <= 3
             \/ cfg.mask = 8 /\ c >= 4
             \/ cfg.mask = c
Coef(s, c, m, it) == IF Masked(c) THEN ((s * 7 + c * 5 * ((s % 3) + 1) + m * 11 + it * it * 3 + it * (c + m) * s + c * m) % 5) - 2 ELSE 0
\* reflection reverses the tangential electric and the normal magnetic field
Refl(c) == IF cfg.prog = "reflection" /\ c \in {1, 2, 6} THEN -1 ELSE 1
In(it) == it >= 0 /\ it < cfg.nt
F(a, c, it, p) == IF In(it) THEN Refl(c) * (a[c][it][0] + a[c][it][1] * p[1] + a[c][it][2] * p[2] + a[c][it][3] * p[1] * p[1] + a[c][it][4] * p[2] * p[2]
                                             + a[c][it][5] * p[1] * p[2])
                  ELSE 0
Du(a, c, it, p) == Refl(c) * (a[c][it][1] + 2 * a[c][it][3] * p[1] + a[c][it][5] * p[2])
Dv(a, c, it, p) == Refl(c) * (a[c][it][2] + 2 * a[c][it][4] * p[2] + a[c][it][5] * p[1])
\* 2 dt times the time derivative
Dt2(f, c, it) == IF ~In(it) THEN 0
                 ELSE IF it = 0 THEN 2 * (f[c][1] - f[c][0])
                 ELSE IF it = cfg.nt - 1 THEN 2 * (f[c][it] - f[c][it - 1])
                 ELSE f[c][it + 1] - f[c][it - 1]
\* 2 dt times the derivative along w, from Maxwell's equations
Dw2(a, d, c, it, p) == IF ~In(it) THEN 0
                       ELSE CASE c = 1 -> 2 * cfg.dt * Du(a, 3, it, p) - d[5][it]
                              [] c = 2 -> 2 * cfg.dt * Dv(a, 3, it, p) + d[4][it]
                              [] c = 3 -> 0 - 2 * cfg.dt * (Du(a, 1, it, p) + Dv(a, 2, it, p))
                              [] c = 4 -> 2 * cfg.dt * Du(a, 6, it, p) + d[2][it]
                              [] c = 5 -> 2 * cfg.dt * Dv(a, 6, it, p) - d[1][it]
                              [] c = 6 -> 0 - 2 * cfg.dt * (Du(a, 4, it, p) + Dv(a, 5, it, p))

\* between which samples the delayed time T - R falls (-2: outside the signal)
Slot(T, R2) == LET hit(k) == LET q == T - cfg.t0 - k * cfg.dt IN
                             q >= 0 /\ R2 <= q * q /\ (q < cfg.dt \/ R2 > (q - cfg.dt) * (q - cfg.dt))
                   ks == { k \in (-1)..(cfg.nt - 1) : hit(k) } IN
               IF ks = {} THEN -2 ELSE CHOOSE k \in ks : TRUE
\* samples -1..nt of the fields, their time derivative and their derivative along w, for every cell
Slots == (-1)..cfg.nt
Table(s, S) == LET coef == TLCEval([c \in Comps |-> [it \in 0..cfg.nt |-> [m \in 0..5 |-> Coef(s, c, m, it)]]])
                   f == TLCEval([i \in 1..Len(S.tri) |-> [c \in Comps |-> [k \in Slots |-> F(coef, c, k, S.pos[i])]]])
                   d == TLCEval([i \in 1..Len(S.tri) |-> [c \in Comps |-> [k \in Slots |-> Dt2(f[i], c, k)]]])
                   g == TLCEval([i \in 1..Len(S.tri) |-> [c \in Comps |-> [k \in Slots |-> Dw2(coef, d[i], c, k, S.pos[i])]]]) IN
               [f |-> f, d |-> d, g |-> g]
\* contribution of source cell i with normal vector (0, 0, nz) to point P at time T: times 1 / (16 pi dt^2 R^3)
Term(tab, i, c, p, nz, P, T) ==
  LET r == Minus(P, p)
      k == Slot(T, Dot(r, r))
      q == T - cfg.t0 - k * cfg.dt
      w == r[3]
      line(x) == << cfg.dt * x[i][c][k] + (x[i][c][k + 1] - x[i][c][k]) * q, x[i][c][k] - x[i][c][k + 1] >>
      a == line(tab.f)
      d == line(tab.d)
      g == line(tab.g) IN
  << nz * (0 - 2 * cfg.dt * w * a[1]), nz * (0 - 2 * cfg.dt * w * a[2] - w * d[1]), nz * (g[1] - w * d[2]), nz * g[2] >>
\* every target cell has a time frame of its own
TT0(j) == cfg.tt0 + ((j * j * cfg.tstag) % 5)
Time(j, it) == TT0(j) + it * cfg.tdt
\* everything that reaches target cell j
Reach(S, P, T) == { i \in 1..Len(S.tri) : Slot(T, Dot(Minus(P, S.pos[i]), Minus(P, S.pos[i]))) # -2 }
RECURSIVE SetToSeq(_)
SetToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE z \in X : \A y \in X : z <= y IN <<x>> \o SetToSeq(X \ {x})
Terms(tab, S, nz, P, T) == LET is == SetToSeq(Reach(S, P, T)) IN
                     [n \in 1..Len(is) |-> LET i == is[n]
                                               r == Minus(P, S.pos[i])
                                               t(c) == Term(tab, i, c, S.pos[i], nz[i], P, T) IN
                        <<Dot(r, r)>> \o t(1) \o t(2) \o t(3) \o t(4) \o t(5) \o t(6)]

---------------------------------------------------------------------------
(* the run *)
NSrc == IF cfg.fan > 0 THEN 8 * cfg.fan ELSE 2 * cfg.grid[1] * cfg.grid[2]
Draw == /\ pc = "draw"
        /\ \E pr \in Pick(Progs), mo \in Pick(Modes), na \in Pick(Nargs), ss \in Pick(SrcStates), ts \in Pick(TgtStates), os \in Pick(OutStates),
              gr \in Pick(Grids), fa \in Pick(Fans), wi \in Pick(Winds), ji \in Pick(Jitters), ma \in Pick(Masks), se \in Pick(Seeds),
              nt \in Pick(Nts), dt \in Pick(Dts), t0 \in Pick(T0s), tn \in Pick(TNs), tnt \in Pick(TNts), tdt \in Pick(TDts), tt0 \in Pick(TT0s),
              di \in Pick(Dists), be \in Pick(Bends), sk \in Pick(Skews), sg \in Pick(Stags) :
             cfg' = [kind |-> "run", prog |-> pr, mode |-> mo, nargs |-> na, src |-> ss, tgt |-> ts, out |-> os, grid |-> gr, fan |-> fa, wind |-> wi, jit |-> ji,
                     mask |-> ma, seed |-> se, nt |-> nt, dt |-> dt, t0 |-> t0, tn |-> tn, tnt |-> tnt, tdt |-> tdt,
                     tt0 |-> t0 + (IF di > 0 THEN di ELSE 0 - di) + tt0,
                     dist |-> di, bend |-> IF mo = "poly" THEN 0 ELSE be, tskew |-> sk, tstag |-> sg]
        /\ disk' = [src |-> cfg'.src, tgt |-> cfg'.tgt, out |-> IF cfg'.out \in {"new", "nodir", "dir"} THEN "none" ELSE "old"]
        /\ pc' = "args"
        /\ UNCHANGED <<fit, prop, status>>
Stop == pc' = "end" /\ status' = "failed" /\ UNCHANGED <<cfg, fit, prop, disk>>
Go(next) == pc' = next /\ UNCHANGED <<cfg, fit, prop, disk, status>>
Args == pc = "args" /\ IF cfg.nargs < 3 THEN Stop ELSE Go("load")
Load == pc = "load" /\ IF cfg.src # "ok" THEN Stop ELSE Go("derive")
Derive == pc = "derive" /\ IF cfg.nt < 2 THEN Stop ELSE Go("fit")
Fit == pc = "fit" /\ IF Sim THEN fit' = 1..NSrc /\ UNCHANGED <<cfg, pc, prop, disk, status>>
                     ELSE \E i \in (1..NSrc) \ fit : fit' = fit \cup {i} /\ UNCHANGED <<cfg, pc, prop, disk, status>>
Fitted == pc = "fit" /\ fit = 1..NSrc /\ Go("target")
Target == pc = "target" /\ IF cfg.tgt # "ok" THEN Stop ELSE Go("prop")
Prop == pc = "prop" /\ IF Sim THEN prop' = 1..cfg.tn /\ UNCHANGED <<cfg, pc, fit, disk, status>>
                       ELSE \E j \in (1..cfg.tn) \ prop : prop' = prop \cup {j} /\ UNCHANGED <<cfg, pc, fit, disk, status>>
Ready == pc = "prop" /\ prop = 1..cfg.tn /\ Go("write")
Write == pc = "write" /\ IF cfg.out \in {"nodir", "dir"} THEN Stop
                         ELSE /\ pc' = "end" /\ status' = "ok"
                              /\ disk' = [disk EXCEPT !.out = "result", !.src = IF cfg.out = "source" THEN "result" ELSE @, !.tgt = IF cfg.out = "target" THEN "result" ELSE @]
                              /\ UNCHANGED <<cfg, fit, prop>>
Init == cfg = [kind |-> "none"] /\ pc = "draw" /\ fit = {} /\ prop = {} /\ disk = [src |-> "none", tgt |-> "none", out |-> "none"] /\ status = "running"
Next == \/ Draw \/ Args \/ Load \/ Derive \/ Fitted \/ Target \/ Ready \/ Write
        \/ (pc = "fit" /\ fit # 1..NSrc /\ Fit) \/ (pc = "prop" /\ prop # 1..cfg.tn /\ Prop)
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Next)
Terminates == <>(pc = "end")

Run == pc # "draw"
\* a file is written only by a complete computation, and a failed run leaves everything as it was
Complete == disk.out = "result" => pc = "end" /\ status = "ok" /\ fit = 1..NSrc /\ prop = 1..cfg.tn
Kept == Run /\ status # "ok" => disk.src = cfg.src /\ disk.tgt = cfg.tgt /\ disk.out \in {"none", "old"}
Barrier == prop # {} => fit = 1..NSrc
Verdict == pc = "end" => (status = "failed" <=> \/ cfg.nargs < 3 \/ cfg.src # "ok" \/ cfg.tgt # "ok" \/ cfg.nt < 2 \/ cfg.out \in {"nodir", "dir"})
\* the triangles of the flat meshes lie in the plane and are proper
End == pc = "end" /\ status = "ok"
Flat == End /\ cfg.bend = 0 => LET S == TLCEval(SourceMesh) IN \A k \in 1..Len(S.tri) : LET n == Nvec(S, k) IN n[1] = 0 /\ n[2] = 0 /\ n[3] # 0
Symmetric == End => LET S == TLCEval(SourceMesh)
                        nb == TLCEval([k \in 1..Len(S.tri) |-> Nbh(S, k)]) IN \A k \in 1..Len(S.tri) : k \in nb[k] /\ \A l \in nb[k] : k \in nb[l]
\* nothing arrives before the light does, nor after the signal has passed
Causal == End /\ cfg.mode = "poly" =>
  LET S == TLCEval(SourceMesh)
      G == TLCEval(TargetMesh) IN
  \A j \in 1..cfg.tn, it \in 0..(cfg.tnt - 1), i \in 1..Len(S.tri) :
    LET r == Minus(G.pos[j], S.pos[i])
        e == Time(j, it) - cfg.t0 + cfg.dt
        l == Time(j, it) - cfg.t0 - cfg.nt * cfg.dt IN
    (Slot(Time(j, it), Dot(r, r)) # -2) <=> (e >= 0 /\ Dot(r, r) <= e * e /\ (l < 0 \/ Dot(r, r) > l * l))
\* turning a triangle around reverses its contribution; the fields add up
Linear == End /\ cfg.mode = "poly" =>
  LET S == TLCEval(SourceMesh)
      G == TLCEval(TargetMesh)
      t1 == TLCEval(Table(cfg.seed, S))
      t2 == TLCEval(Table(cfg.seed + 1, S))
      add(x, y) == [i \in 1..Len(S.tri) |-> [c \in Comps |-> [k \in Slots |-> x[i][c][k] + 3 * y[i][c][k]]]]
      sum == TLCEval([f |-> add(t1.f, t2.f), d |-> add(t1.d, t2.d), g |-> add(t1.g, t2.g)]) IN
  \A j \in 1..cfg.tn, it \in 0..(cfg.tnt - 1), c \in Comps : \A i \in Reach(S, G.pos[j], Time(j, it)) :
    LET nz == Nvec(S, i)[3]
        t(tab, n) == Term(tab, i, c, S.pos[i], n, G.pos[j], Time(j, it)) IN
    \A n \in 1..4 : t(sum, nz)[n] = t(t1, nz)[n] + 3 * t(t2, nz)[n] /\ t(sum, 0 - nz)[n] = 0 - t(sum, nz)[n]

Describe == LET S == TLCEval(SourceMesh)
                G == TLCEval(TargetMesh)
                N == TLCEval([k \in 1..Len(S.tri) |-> Nvec(S, k)])
                nz == TLCEval([k \in 1..Len(S.tri) |-> N[k][3]])
                tab == IF cfg.mode = "poly" THEN TLCEval(Table(cfg.seed, S)) ELSE <<>> IN
  [cfg |-> cfg, ok |-> status = "ok", src |-> S, tgt |-> G, n |-> N,
   nbh |-> [k \in 1..Len(S.tri) |-> SetToSeq(Nbh(S, k))],
   tt0 |-> [j \in 1..cfg.tn |-> TT0(j)],
   st0 |-> [k \in 1..Len(S.tri) |-> IF cfg.mode = "poly" THEN cfg.t0 ELSE cfg.t0 + ((k * k + cfg.jit * k) % 4)],
   f |-> IF cfg.mode = "poly" THEN [k \in 1..Len(S.tri) |-> [it \in 1..cfg.nt |-> [c \in Comps |-> Refl(c) * tab.f[k][c][it - 1]]]] ELSE <<>>,
   terms |-> IF cfg.mode = "poly" /\ status = "ok"
               THEN [j \in 1..cfg.tn |-> [it \in 1..cfg.tnt |-> Terms(tab, S, nz, G.pos[j], Time(j, it - 1))]] ELSE <<>>]
Emit == pc = "end" => PrintT(ToJson(Describe))
=============================================================================
