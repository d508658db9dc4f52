-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Triangulated screens and their files (C09).                               *)
(*                                                                         *)
(* A mesh file holds corner points, observation positions, triangles and      *)
(* optionally start times and fields, one entry per triangle.  It is loaded,  *)
(* changed in memory and written back, any number of times; the derived       *)
(* quantities (areas, normals, local frames, neighbours, energy) are those of *)
(* the stored triangles.  A trace is known by a number v (0 = no field):      *)
(* its samples are Val(v, it, c).  Lengths and times are integers.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nxs, Nys, Bumps, Axes, Signs, Nts, Dts, T0s, Vals, Bads, Extras, Depth, Sim
VARIABLES disk, mem, h
vars == <<disk, mem, h>>
Files == {1, 2}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
More == Len(h) < Depth
None == [kind |-> "none"]
Cross(x, y) == << x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1] >>
Minus(x, y) == << x[1] - y[1], x[2] - y[2], x[3] - y[3] >>
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Val(v, it, c) == IF v = 0 THEN 0 ELSE ((v * (c + 1) + it * (7 + c) + v * v) % 13) - 6

(* meshes: a bumpy nx x ny sheet of two triangles per cell, turned by an axis permutation and signs;
   extra: 0 = the sheet, 1 = one unused point, 2 = one triangle missing, 3 = one detached triangle *)
Pt(nx, ny, b, i, j) == <<2 * i, 3 * j, IF (i + b * j) % 3 = b % 3 /\ b > 0 THEN 1 ELSE 0>>
Turn(a, s, p) == <<s[1] * p[a[1]], s[2] * p[a[2]], s[3] * p[a[3]]>>
RotTri(k, t) == IF k = 0 THEN t ELSE IF k = 1 THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
Sheet(nx, ny, b, ax, sg, extra) ==
  LET id(i, j) == i * (ny + 1) + j
      pts == [k \in 1..((nx + 1) * (ny + 1)) |-> Turn(ax, sg, Pt(nx, ny, b, (k - 1) \div (ny + 1), (k - 1) % (ny + 1)))]
      tri == [k \in 1..(2 * nx * ny) |->
                LET i == (k - 1) \div (2 * ny)
                    j == ((k - 1) \div 2) % ny IN
                RotTri((k + b) % 3,
                       IF (i + j) % 2 = 0
                         THEN IF k % 2 = 1 THEN <<id(i, j), id(i + 1, j), id(i + 1, j + 1)>> ELSE <<id(i, j), id(i + 1, j + 1), id(i, j + 1)>>
                         ELSE IF k % 2 = 1 THEN <<id(i, j), id(i + 1, j), id(i, j + 1)>> ELSE <<id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)>>)]
      n == Len(pts)
      more == [k \in 1..3 |-> Turn(ax, sg, <<20 + (IF k = 2 THEN 1 ELSE 0), 20 + (IF k = 3 THEN 1 ELSE 0), 0>>)] IN
  IF extra = 1 THEN [pts |-> Append(pts, <<9, 9, 9>>), tri |-> tri]
  ELSE IF extra = 2 /\ nx * ny > 1 THEN [pts |-> pts, tri |-> Tail(tri)]
  ELSE IF extra = 3 THEN [pts |-> pts \o more, tri |-> Append(tri, <<n, n + 1, n + 2>>)]
  ELSE [pts |-> pts, tri |-> tri]

Np(m) == Len(m.tri)
P(m, k) == m.pts[k + 1]
\* twice the oriented area
Nvec(m, i) == LET t == m.tri[i] IN Cross(Minus(P(m, t[3]), P(m, t[1])), Minus(P(m, t[2]), P(m, t[1])))
Corners(m, i) == {m.tri[i][1], m.tri[i][2], m.tri[i][3]}
Nbh(m, i) == { k \in 1..Np(m) : Corners(m, i) \cap Corners(m, k) # {} }
\* observation points: anywhere, given in units of a third of the length unit (here the sum of the corners)
Pos(m, i) == LET t == m.tri[i] IN [c \in 1..3 |-> P(m, t[1])[c] + P(m, t[2])[c] + P(m, t[3])[c]]

RECURSIVE SumS(_, _, _)
SumS(v, nt, it) == IF it = nt THEN <<0, 0, 0>>
                   ELSE LET s == Cross(<<Val(v, it, 1), Val(v, it, 2), Val(v, it, 3)>>, <<Val(v, it, 4), Val(v, it, 5), Val(v, it, 6)>>)
                            r == SumS(v, nt, it + 1) IN [c \in 1..3 |-> s[c] + r[c]]
RECURSIVE Flow(_, _)
Flow(m, i) == IF i = 0 THEN 0 ELSE Flow(m, i - 1) - m.dt * Dot(Nvec(m, i), SumS(m.v[i], m.nt, 0))

\* what a loaded mesh knows
Loaded(f, d) == [kind |-> "mesh", file |-> d, init |-> FALSE, pts |-> f.pts, tri |-> f.tri,
                 nt |-> IF f.hast THEN f.nt ELSE 0, dt |-> IF f.hast THEN f.dt ELSE 0,
                 t0 |-> IF f.hast THEN f.t0 ELSE [i \in 1..Len(f.tri) |-> 0],
                 v |-> IF f.hast /\ f.hasf THEN f.v ELSE [i \in 1..Len(f.tri) |-> 0]]
FileOf(m) == [kind |-> "file", hast |-> TRUE, hasf |-> TRUE, pts |-> m.pts, tri |-> m.tri, nt |-> m.nt, dt |-> m.dt, t0 |-> m.t0, v |-> m.v]

Log(op, args) == h' = Append(h, [op |-> op, a |-> args, mem |-> mem', flow |-> IF mem'.kind = "mesh" /\ mem'.init THEN Flow(mem', Np(mem')) ELSE 0])
Create == /\ More
          /\ \E d \in Pick(Files), nx \in Pick(Nxs), ny \in Pick(Nys), b \in Pick(Bumps), ax \in Pick(Axes), sg \in Pick(Signs), x \in Pick(Extras),
                nt \in Pick(Nts), dt \in Pick(Dts), t0 \in Pick(T0s), v \in Pick(Vals), hast \in Pick(BOOLEAN), hasf \in Pick(BOOLEAN) :
               LET s == Sheet(nx, ny, b, ax, sg, x)
                   f == [kind |-> "file", hast |-> hast \/ hasf, hasf |-> hasf, pts |-> s.pts, tri |-> s.tri, nt |-> nt, dt |-> dt,
                         t0 |-> [i \in 1..Len(s.tri) |-> t0 + 3 * i - (i % 4)], v |-> [i \in 1..Len(s.tri) |-> v * i + (i % 3)]] IN
               /\ disk[d].kind = "none" \/ mem.kind = "mesh"
               /\ disk' = [disk EXCEPT ![d] = f]
               /\ UNCHANGED mem
               /\ Log("create", [d |-> d, f |-> f, pos |-> [i \in 1..Len(s.tri) |-> Pos(s, i)]])
Load == /\ More /\ \E d \in Pick({ x \in Files : disk[x].kind = "file" }) :
          /\ mem' = Loaded(disk[d], d)
          /\ UNCHANGED disk
          /\ Log("load", [d |-> d, pos |-> [i \in 1..Np(disk[d]) |-> Pos(disk[d], i)]])
\* a defect of the file makes loading fail, whatever the defect
Applies(b, f) == /\ b \in {"nt_attr", "dt_attr", "time_long", "time_short"} => f.hast
                 /\ b \in {"field_np", "field_nt", "field_nt-", "field_comp", "field_rank", "notime"} => f.hasf /\ f.nt > 0
BadLoad == /\ More /\ \E d \in Pick({ x \in Files : disk[x].kind = "file" }), b \in Pick(Bads) :
             /\ Applies(b, disk[d])
             /\ UNCHANGED <<disk, mem>>
             /\ Log("bad", [d |-> d, what |-> b, f |-> disk[d], pos |-> [i \in 1..Np(disk[d]) |-> Pos(disk[d], i)]])
InitMesh == /\ More /\ mem.kind = "mesh" /\ ~mem.init
            /\ mem' = [mem EXCEPT !.init = TRUE]
            /\ UNCHANGED disk
            /\ Log("init", [n |-> [i \in 1..Np(mem) |-> Nvec(mem, i)], nbh |-> [i \in 1..Np(mem) |-> [k \in 1..Np(mem) |-> IF k \in Nbh(mem, i) THEN 1 ELSE 0]]])
SetTrace == /\ More /\ mem.kind = "mesh"
            /\ \E i \in Pick(1..Np(mem)), t0 \in Pick(T0s), v \in Pick(Vals) :
                 /\ mem' = [mem EXCEPT !.t0[i] = IF mem.nt = 0 THEN 0 ELSE t0, !.v[i] = IF mem.nt = 0 THEN 0 ELSE v]
                 /\ UNCHANGED disk
                 /\ mem.nt > 0
                 /\ Log("set", [i |-> i, t0 |-> t0, v |-> v])
\* a trace of another length is refused
SetBad == /\ More /\ mem.kind = "mesh" /\ \E i \in Pick(1..Np(mem)), n \in Pick({1, 2, mem.nt + 1, mem.nt + 3}) :
            /\ n # mem.nt
            /\ UNCHANGED <<disk, mem>>
            /\ Log("setbad", [i |-> i, n |-> n])
Zero == /\ More /\ mem.kind = "mesh" /\ mem' = [mem EXCEPT !.v = [i \in 1..Np(mem) |-> 0]]
        /\ UNCHANGED disk /\ Log("zero", [d |-> 0])
Write == /\ More /\ mem.kind = "mesh" /\ \E d \in Pick(Files), own \in Pick(BOOLEAN) :
           LET t == IF own THEN mem.file ELSE d IN
           /\ disk' = [disk EXCEPT ![t] = FileOf(mem)]
           /\ UNCHANGED mem
           /\ Log("write", [d |-> t, own |-> own, pos |-> [i \in 1..Np(mem) |-> Pos(mem, i)]])
Init == disk = [d \in Files |-> None] /\ mem = None /\ h = <<>>
Next == IF \A d \in Files : disk[d].kind = "none" THEN Create
        ELSE IF mem.kind = "none" THEN Load \/ BadLoad
        ELSE Create \/ Load \/ Load \/ BadLoad \/ InitMesh \/ SetTrace \/ SetBad \/ Zero \/ Write \/ Write
Spec == Init /\ [][Next]_vars

\* neighbour relations are symmetric and reflexive; triangles are proper and name existing points
Neighbours == mem.kind = "mesh" => \A i, k \in 1..Np(mem) : /\ i \in Nbh(mem, i)
                                                         /\ (k \in Nbh(mem, i)) <=> (i \in Nbh(mem, k))
Proper == \A d \in Files : disk[d].kind = "file" =>
            \A i \in 1..Np(disk[d]) : /\ \A c \in Corners(disk[d], i) : c \in 0..(Len(disk[d].pts) - 1)
                                      /\ Nvec(disk[d], i) # <<0, 0, 0>>
\* writing then loading gives the same mesh back
RoundTrip == mem.kind = "mesh" => LET b == Loaded(FileOf(mem), mem.file) IN [b EXCEPT !.init = mem.init] = mem
Emit == (Len(h) = Depth) => PrintT(ToJson(h))
=============================================================================
