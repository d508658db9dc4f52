------------------------------ MODULE Observers ------------------------------
(***************************************************************************)
(* Observers as grids of cells with samples (C08).                          *)
(*                                                                         *)
(* Integration over source s adds (time traces) or assigns (snapshots) the  *)
(* field of s at the position and sample times of every cell, exactly once  *)
(* per cell whatever the number of threads.  Hence the content of a cell is *)
(* a linear combination of source fields taken at its own place and time,   *)
(* plus constants that were written explicitly.  An observer is represented *)
(* by the coefficients c[s] common to all cells and a list sp of single     *)
(* samples with other constants/coefficients.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS R, Kinds, Types, Nxs, Nys, Nts, Pitches, Origins, T0s, Dts, Dtxs, Threads, Vals, Depth, Sim
VARIABLES o, h
vars == <<o, h>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
None == [kind |-> "none"]
Live == { r \in 1..R : o[r].kind # "none" }
More == Len(h) < Depth
V(x, y) == [i \in 1..3 |-> x[i] + y[i]]
S(a, x) == [i \in 1..3 |-> a * x[i]]

\* geometry: position and start time of a cell.  Screens count cells from nx/2 (integer division), snapshots from the
\* geometric centre (pitches given in half units), points have one cell, meshes an arbitrary list
Pos(b, ix, iy) ==
  CASE b.kind = "screen" -> V(b.o, V(S(ix - (b.nx \div 2), S(2, b.dx)), S(iy - (b.ny \div 2), S(2, b.dy))))
    [] b.kind = "snapshot" -> V(b.o, V(S(2 * ix - (b.nx - 1), b.dx), S(2 * iy - (b.ny - 1), b.dy)))
    [] b.kind = "point" -> b.o
    [] OTHER -> V(b.o, V(S(ix * ix, b.dx), S(ix % 3, b.dy)))
T0(b, ix, iy) ==
  CASE b.kind = "screen" -> b.t0 + b.dtx * (ix - (b.nx \div 2)) + b.dty * (iy - (b.ny \div 2))
    [] b.kind = "mesh" -> b.t0 + b.dtx * ix
    [] OTHER -> b.t0
Cells(b) == [i \in 1..(b.nx * b.ny) |-> LET ix == (i - 1) \div b.ny
                                            iy == (i - 1) % b.ny IN
                                        [ix |-> ix, iy |-> iy, x |-> Pos(b, ix, iy), t |-> T0(b, ix, iy)]]
Size(b) == b.nx * b.ny * b.nt
Shape(b) == <<b.kind, b.nx, b.ny, b.nt>>

Content(b) == [c |-> b.c, sp |-> b.sp]
Rec(e, r) == h' = Append(h, e @@ [r |-> r, exc |-> FALSE, now |-> Content(o'[r])])
Exc(e, r) == UNCHANGED o /\ h' = Append(h, e @@ [r |-> r, exc |-> TRUE, now |-> Content(o[r])])

\* sample i (0-based) of observer b
Samp(b, i) == IF \E k \in 1..Len(b.sp) : b.sp[k].i = i THEN b.sp[CHOOSE k \in 1..Len(b.sp) : b.sp[k].i = i]
              ELSE [i |-> i, v |-> 0, c |-> b.c]
Put(b, s) == [b EXCEPT !.sp = Append(SelectSeq(b.sp, LAMBDA e : e.i # s.i), s)]
RECURSIVE Norm(_, _, _)
\* specials of the sum of two observers
Norm(a, b, is) == IF is = <<>> THEN <<>>
                  ELSE LET x == Samp(a, is[1])
                           y == Samp(b, is[1]) IN
                       << [i |-> is[1], v |-> x.v + y.v, c |-> <<x.c[1] + y.c[1], x.c[2] + y.c[2]>>] >> \o Norm(a, b, Tail(is))
RECURSIVE ToSeq(_)
ToSeq(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o ToSeq(T \ {m})
Sum(a, b) == [a EXCEPT !.c = <<a.c[1] + b.c[1], a.c[2] + b.c[2]>>,
                       !.sp = Norm(a, b, ToSeq({a.sp[k].i : k \in 1..Len(a.sp)} \cup {b.sp[k].i : k \in 1..Len(b.sp)}))]

New == /\ More /\ \E r \in Pick(1..R), kind \in Pick(Kinds), type \in Pick(Types), nx \in Pick(Nxs), ny \in Pick(Nys), nt \in Pick(Nts),
                     dx \in Pick(Pitches), dy \in Pick(Pitches), og \in Pick(Origins), t0 \in Pick(T0s), dt \in Pick(Dts), dtx \in Pick(Dtxs), dty \in Pick(Dtxs) :
         LET b == [kind |-> kind, type |-> type,
                   nx |-> IF kind = "point" THEN 1 ELSE nx,
                   ny |-> IF kind \in {"point", "mesh"} THEN 1 ELSE ny,
                   nt |-> IF kind = "snapshot" THEN 1 ELSE IF type = "lattice" \/ nt > 1 THEN nt ELSE 2,
                   dx |-> dx, dy |-> dy, o |-> og, t0 |-> t0, dt |-> dt, dtx |-> dtx, dty |-> dty, c |-> <<0, 0>>, sp |-> <<>>] IN
         /\ o' = [o EXCEPT ![r] = b]
         /\ Rec([op |-> "new", b |-> b, cells |-> Cells(b)], r)
Integrate == /\ More /\ Live # {} /\ \E r \in Pick(Live), s \in Pick(1..2), n \in Pick(Threads) :
               /\ o' = [o EXCEPT ![r] = IF @.kind = "snapshot" THEN [@ EXCEPT !.c = [k \in 1..2 |-> IF k = s THEN 1 ELSE 0], !.sp = <<>>]
                                        ELSE [@ EXCEPT !.c[s] = @ + 1, !.sp = [k \in 1..Len(@) |-> [@[k] EXCEPT !.c[s] = @ + 1]]]]
               /\ Rec([op |-> "integrate", s |-> s, n |-> n], r)
Set == /\ More /\ Live # {} /\ \E r \in Pick(Live), v \in Pick(Vals) : \E ix \in Pick(0..o[r].nx), iy \in Pick(0..o[r].ny), it \in Pick(0..o[r].nt) :
         LET b == o[r]
             e == [op |-> "set", ix |-> ix, iy |-> iy, it |-> it, v |-> v]
             in == ix < b.nx /\ iy < b.ny /\ it < b.nt IN
         \* a mesh is written cell by cell and has no sample index of its own, points and snapshots have fewer indices
         IF in THEN /\ Len(b.sp) < 6
                    /\ o' = [o EXCEPT ![r] = Put(b, [i |-> (ix * b.ny + iy) * b.nt + it, v |-> v, c |-> <<0, 0>>])]
                    /\ Rec(e, r)
         ELSE /\ \/ b.kind = "screen"
                 \/ b.kind = "snapshot" /\ (ix = b.nx \/ iy = b.ny)
                 \/ b.kind = "point" /\ it = b.nt
              /\ Exc(e, r)
\* r receives the sum of the buffers of r and q (as MPI_Reduce does)
AddBuf == /\ More /\ Live # {} /\ \E r \in Pick(Live), q \in Pick(Live) :
            LET e == [op |-> "addbuf", q |-> q] IN
            /\ Shape(o[r]) = Shape(o[q]) /\ o[r].type = o[q].type
            /\ Cells(o[r]) = Cells(o[q]) /\ o[r].dt = o[q].dt
            /\ o' = [o EXCEPT ![r] = Sum(o[r], o[q])]
            /\ Rec(e, r)
Round == /\ More /\ Live # {} /\ \E r \in Pick(Live) : UNCHANGED o /\ Rec([op |-> "roundtrip"], r)
BadBuf == /\ More /\ Live # {} /\ \E r \in Pick(Live), d \in Pick({-6, -1, 1, 6}) :
            Exc([op |-> "badbuf", d |-> d], r)
Zero == /\ More /\ Live # {} /\ \E r \in Pick(Live) :
          /\ o[r].kind = "mesh"
          /\ o' = [o EXCEPT ![r].c = <<0, 0>>, ![r].sp = <<>>]
          /\ Rec([op |-> "zero"], r)
File == /\ More /\ Live # {} /\ \E r \in Pick(Live) : UNCHANGED o /\ Rec([op |-> "file"], r)
\* a second observer of the same shape, as on another process
Clone == /\ More /\ Live # {} /\ \E r \in Pick(1..R), q \in Pick(Live) :
           LET b == [o[q] EXCEPT !.c = <<0, 0>>, !.sp = <<>>] IN
           /\ r # q
           /\ o' = [o EXCEPT ![r] = b]
           /\ Rec([op |-> "new", b |-> b, cells |-> Cells(b)], r)
Init == o = [r \in 1..R |-> None] /\ h = <<>>
Next == New \/ Clone \/ Integrate \/ Set \/ AddBuf \/ Round \/ BadBuf \/ Zero \/ File
Spec == Init /\ [][Next]_vars

\* every cell has its own place or (for degenerate pitches) index, and the centre cell is at the reference
Centre == \A r \in Live : o[r].kind = "screen" =>
            Pos(o[r], o[r].nx \div 2, o[r].ny \div 2) = o[r].o /\ T0(o[r], o[r].nx \div 2, o[r].ny \div 2) = o[r].t0
\* snapshots are symmetric about their centre
Symmetric == \A r \in Live : o[r].kind = "snapshot" =>
            V(Pos(o[r], 0, 0), Pos(o[r], o[r].nx - 1, o[r].ny - 1)) = S(2, o[r].o)
Indexed == \A r \in Live : \A k \in 1..Len(o[r].sp) : o[r].sp[k].i \in 0..(Size(o[r]) - 1)
SnapSingle == \A r \in Live : o[r].kind = "snapshot" => Size(o[r]) = o[r].nx * o[r].ny
Local == [][ Cardinality({ r \in 1..R : o'[r] # o[r] }) <= 1 ]_vars
Emit == Len(h) = Depth => PrintT(ToJson([R |-> R, h |-> h]))
=============================================================================
