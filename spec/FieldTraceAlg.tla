--------------------------- MODULE FieldTraceAlg ---------------------------
(***************************************************************************)
(* Field traces as values in registers.  A trace is a record               *)
(*   [t0, dt, d] : integer start time, integer spacing > 0, and a sequence *)
(*   of samples <<ex,ey,ez,bx,by,bz>> of integers.                         *)
(* Every action is one public operation; an operation with operands that   *)
(* do not fit together raises an exception and leaves everything as it     *)
(* was.  h records the history (operation, outcome, all registers).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS R,        \* number of registers
          Ns, T0s, Dts,
          Comps,    \* component values (multiples of the divisors used)
          Facs,     \* scale factors
          Deltas,   \* retardations
          Depth, Sim

VARIABLES regs, h
vars == <<regs, h>>

Null == [t0 |-> 0, dt |-> 0, d |-> <<>>, live |-> FALSE]
Regs == 1..R
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
N(t) == Len(t.d)
ZeroS == <<0, 0, 0, 0, 0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x

Add6(a, b) == [c \in 1..6 |-> a[c] + b[c]]
Sub6(a, b) == [c \in 1..6 |-> a[c] - b[c]]
Mul6(a, k) == [c \in 1..6 |-> a[c] * k]
Cross(a) == << a[2] * a[6] - a[3] * a[5], a[3] * a[4] - a[1] * a[6], a[1] * a[5] - a[2] * a[4] >>

Small(t, m) == \A i \in 1..N(t) : \A c \in 1..6 : Abs(t.d[i][c]) <= m
Divisible(t, k) == \A i \in 1..N(t) : \A c \in 1..6 : Abs(t.d[i][c]) % Abs(k) = 0

\* sample values offered to Set/Add: few patterns so that exhaustive runs stay small
Samples == { <<a, 0, 0, 0, b, 0>> : a, b \in Comps } \cup { <<0, a, b, b, 0, a>> : a, b \in Comps }
           \cup { <<a, b, a, b, a, a>> : a, b \in Comps }

\* dt * (field at time t): linear interpolation between neighbours, zero ramp of one spacing outside
FieldAt(tr, t) ==
    LET x == t - tr.t0
        j == x \div tr.dt              \* floor
        r == x % tr.dt
        f1 == IF j >= 0 /\ j < N(tr) THEN tr.d[j + 1] ELSE ZeroS
        f2 == IF j + 1 >= 0 /\ j + 1 < N(tr) THEN tr.d[j + 2] ELSE ZeroS
    IN [c \in 1..6 |-> f1[c] * (tr.dt - r) + f2[c] * r]

SameGrid(a, b) == N(a) = N(b) /\ a.t0 = b.t0 /\ a.dt = b.dt

Log(e, rg) == h' = Append(h, e @@ [regs |-> rg])
Ok(r, t, e) == /\ regs' = [regs EXCEPT ![r] = t] /\ Log(e @@ [exc |-> FALSE], regs')
Exc(e) == /\ UNCHANGED regs /\ Log(e @@ [exc |-> TRUE], regs)
Obs(e) == /\ UNCHANGED regs /\ Log(e @@ [exc |-> FALSE], regs)

More == Len(h) < Depth
Live == { r \in Regs : regs[r].live }

New == /\ More
       /\ \E r \in Pick(Regs), n \in Pick(Ns), t0 \in Pick(T0s), dt \in Pick(Dts) :
            Ok(r, [t0 |-> t0, dt |-> dt, d |-> [i \in 1..n |-> ZeroS], live |-> TRUE],
               [op |-> "new", r |-> r, n |-> n, t0 |-> t0, dt |-> dt])

\* a whole trace filled sample by sample (keeps histories short)
RECURSIVE FillSeq(_, _)
FillSeq(n, S) == IF n = 0 THEN <<>> ELSE Append(FillSeq(n - 1, S), RandomElement(S))
Fill == /\ More /\ Sim /\ Live # {}
        /\ \E r \in Pick(Live) : \E d \in {FillSeq(N(regs[r]), Samples)} :
             Ok(r, [regs[r] EXCEPT !.d = d], [op |-> "fill", r |-> r, v |-> d])

SetOp == /\ More /\ Live # {}
         /\ \E r \in Pick(Live), v \in Pick(Samples), o \in Pick({"set", "add"}) :
            \E i \in Pick(0..(N(regs[r]) + 1)) :
             LET e == [op |-> o, r |-> r, i |-> i, v |-> v] IN
             IF i >= N(regs[r]) THEN Exc(e)
             ELSE Ok(r, [regs[r] EXCEPT !.d[i + 1] = IF o = "set" THEN v ELSE Add6(@, v)], e)

ZeroOp == /\ More /\ Live # {}
          /\ \E r \in Pick(Live) : Ok(r, [regs[r] EXCEPT !.d = [i \in 1..N(regs[r]) |-> ZeroS]], [op |-> "zero", r |-> r])

SetT0 == /\ More /\ Live # {}
         /\ \E r \in Pick(Live), t \in Pick(T0s) : Ok(r, [regs[r] EXCEPT !.t0 = t], [op |-> "sett0", r |-> r, t0 |-> t])

CopyOp == /\ More /\ Live # {}
          /\ \E r \in Pick(Regs), s \in Pick(Live) : Ok(r, regs[s], [op |-> "copy", r |-> r, s |-> s])

Assign == /\ More /\ Live # {}
          /\ \E r \in Pick(Live), s \in Pick(Live) :
               LET e == [op |-> "assign", r |-> r, s |-> s] IN
               IF N(regs[r]) # N(regs[s]) THEN Exc(e) ELSE Ok(r, regs[s], e)

Combine == /\ More /\ Live # {}
           /\ \E a \in Pick(Live), b \in Pick(Live), d \in Pick(Regs), o \in Pick({"plus", "minus", "pluseq"}) :
              LET e == [op |-> o, r |-> IF o = "pluseq" THEN a ELSE d, a |-> a, b |-> b]
                  x == regs[a] y == regs[b] IN
              /\ Small(x, 200000) /\ Small(y, 200000)
              /\ IF ~SameGrid(x, y) THEN Exc(e)
                 ELSE Ok(e.r, [x EXCEPT !.d = [i \in 1..N(x) |-> IF o = "minus" THEN Sub6(x.d[i], y.d[i]) ELSE Add6(x.d[i], y.d[i])]], e)

\* scaling; dividing only where the model stays in the integers
ScaleOp == /\ More /\ Live # {}
         /\ \E a \in Pick(Live), d \in Pick(Regs), k \in Pick(Facs), o \in Pick({"mul", "div"}) :
              LET x == regs[a] IN
              /\ Small(x, 50000)
              /\ o = "div" => Divisible(x, k)
              /\ Ok(d, [x EXCEPT !.d = [i \in 1..N(x) |-> [c \in 1..6 |-> IF o = "mul" THEN x.d[i][c] * k ELSE
                                          (IF k < 0 THEN -(x.d[i][c] \div (-k)) ELSE x.d[i][c] \div k)]]],
                    [op |-> o, r |-> d, a |-> a, k |-> k])

GetAt == /\ More /\ Live # {}
         /\ \E r \in Pick(Live) : \E k \in Pick((-2 * regs[r].dt - 1)..((N(regs[r]) + 1) * regs[r].dt + 1)) :
              /\ Small(regs[r], 200000)
              /\ Obs([op |-> "at", r |-> r, t |-> regs[r].t0 + k, ret |-> FieldAt(regs[r], regs[r].t0 + k)])

Times == /\ More /\ Live # {}
         /\ \E r \in Pick(Live) : \E i \in Pick(0..(N(regs[r]) + 1)) :
              LET x == regs[r] e == [op |-> "time", r |-> r, i |-> i] IN
              IF i >= N(x) THEN Exc(e @@ [ret |-> <<>>])
              ELSE Obs(e @@ [ret |-> <<x.t0 + i * x.dt, x.t0 + (N(x) - 1) * x.dt, 2 * x.t0 + x.dt * N(x)>>])

Buffer == /\ More /\ Live # {}
          /\ \E r \in Pick(Live), s \in Pick(Live), extra \in Pick({-1, 0, 0, 1}) :
               \* get_buffer of s handed to set_buffer of r with announced size N(s)+extra for the write
               LET e == [op |-> "buffer", r |-> r, s |-> s, extra |-> extra]
                   nb == N(regs[s]) + extra IN
               /\ ~(extra # 0 /\ nb = N(regs[r]))
               /\ IF nb # N(regs[r]) \/ extra # 0 THEN Exc(e)
                  ELSE Ok(r, [regs[r] EXCEPT !.d = regs[s].d], e)

Derive == /\ More /\ Live # {}
          /\ \E s \in Pick(Live), r \in Pick(Regs) :
               LET x == regs[s] n == N(x) IN
               \* less than two samples have no derivative
               IF n < 2 THEN Exc([op |-> "deriv", r |-> r, s |-> s]) ELSE
               /\ Divisible(x, 2 * x.dt) /\ Small(x, 200000)
               /\ Ok(r, [x EXCEPT !.d = [i \in 1..n |-> [c \in 1..6 |->
                          IF i = 1 THEN (x.d[2][c] - x.d[1][c]) \div x.dt
                          ELSE IF i = n THEN (x.d[n][c] - x.d[n - 1][c]) \div x.dt
                          ELSE (x.d[i + 1][c] - x.d[i - 1][c]) \div (2 * x.dt)]]],
                     [op |-> "deriv", r |-> r, s |-> s])

\* frames: right-handed, given as signed axis permutations <<axis, sign>>
Frames == { << <<1, 1>>, <<2, 1>>, <<3, 1>> >>, << <<2, 1>>, <<3, 1>>, <<1, 1>> >>, << <<3, 1>>, <<1, 1>>, <<2, 1>> >>,
            << <<2, -1>>, <<1, 1>>, <<3, 1>> >>, << <<1, -1>>, <<2, -1>>, <<3, 1>> >>, << <<3, 1>>, <<2, -1>>, <<1, 1>> >> }
Transform == /\ More /\ Live # {}
             /\ \E r \in Pick(Live), f \in Pick(Frames) :
                  LET x == regs[r] IN
                  Ok(r, [x EXCEPT !.d = [i \in 1..N(x) |-> [c \in 1..6 |->
                       LET m == f[IF c <= 3 THEN c ELSE c - 3] IN
                       m[2] * x.d[i][IF c <= 3 THEN m[1] ELSE m[1] + 3]]]],
                     [op |-> "transform", r |-> r, f |-> f])

Cancel == /\ More /\ Live # {}
          /\ \E r \in Pick(Live), ax \in Pick(1..3), s \in Pick({1, -3}) :
               LET x == regs[r] IN
               Ok(r, [x EXCEPT !.d = [i \in 1..N(x) |-> [c \in 1..6 |-> IF c = ax \/ c = ax + 3 THEN 0 ELSE x.d[i][c]]]],
                  [op |-> "cancel", r |-> r, ax |-> ax, s |-> s])

RECURSIVE SumCross(_, _)
SumCross(d, i) == IF i = 0 THEN <<0, 0, 0>>
                  ELSE LET s == SumCross(d, i - 1) x == Cross(d[i]) IN <<s[1] + x[1], s[2] + x[2], s[3] + x[3]>>

PoyntingOp == /\ More /\ Live # {}
            /\ \E r \in Pick(Live) :
                 LET x == regs[r] s == SumCross(x.d, N(x)) IN
                 /\ Small(x, 4000)
                 /\ Obs([op |-> "poynting", r |-> r, ret |-> <<s[1] * x.dt, s[2] * x.dt, s[3] * x.dt>>])

\* target r receives the field of s delayed by del; the target keeps its own time frame.
\* The outcome is an exception iff no radiated energy arrives (all samples have E x B = 0).
Retard == /\ More /\ Live # {}
          /\ \E s \in Pick(Live), r \in Pick(Live), del \in Pick(Deltas) :
               LET x == regs[s] y == regs[r]
                   new == [i \in 1..N(y) |-> FieldAt(x, y.t0 + (i - 1) * y.dt - del)]
                   ok == [i \in 1..N(y) |-> [c \in 1..6 |-> new[i][c] \div x.dt]]
                   e == [op |-> "retard", r |-> r, s |-> s, del |-> del]
                   allzero == \A i \in 1..N(y) : Cross(ok[i]) = <<0, 0, 0>>
               IN /\ r # s /\ Small(x, 8000)
                  /\ \A i \in 1..N(y) : \A c \in 1..6 : new[i][c] % x.dt = 0
                  /\ allzero \/ SumCross(ok, N(y)) # <<0, 0, 0>>
                  /\ IF allzero
                     THEN /\ regs' = [regs EXCEPT ![r].d = ok] /\ Log(e @@ [exc |-> TRUE], regs')
                     ELSE Ok(r, [y EXCEPT !.d = ok], e)

Init == regs = [r \in Regs |-> Null] /\ h = <<>>

Next == \/ New \/ SetOp \/ Fill \/ ZeroOp \/ SetT0 \/ CopyOp \/ Assign \/ Combine \/ ScaleOp \/ GetAt
        \/ Times \/ Buffer \/ Derive \/ Transform \/ Cancel \/ PoyntingOp \/ Retard
        \/ (Sim /\ (New \/ Fill \/ Fill \/ Combine \/ Assign \/ Retard \/ Retard \/ GetAt))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the last operation changed at most its own destination
Frame == [][\A q \in Regs : regs'[q] # regs[q] => h'[Len(h')].r = q]_vars
\* refused operations change nothing (retardation reports an empty result after computing it)
Refusal == [][(h'[Len(h')].exc /\ h'[Len(h')].op # "retard") => regs' = regs]_vars
\* timing only changes where it is meant to
Timing == [][\A q \in Regs : (regs'[q].t0 # regs[q].t0 \/ regs'[q].dt # regs[q].dt)
               => h'[Len(h')].op \in {"new", "sett0", "copy", "assign", "plus", "minus", "mul", "div", "deriv"}]_vars

\* algebraic laws of the model itself
Laws == \A a, b \in Live : SameGrid(regs[a], regs[b]) =>
          \A i \in 1..N(regs[a]) : Sub6(Add6(regs[a].d[i], regs[b].d[i]), regs[b].d[i]) = regs[a].d[i]
OnGrid == \A a \in Live : Small(regs[a], 200000) => \A i \in 1..N(regs[a]) :
             FieldAt(regs[a], regs[a].t0 + (i - 1) * regs[a].dt) = Mul6(regs[a].d[i], regs[a].dt)
Outside == \A a \in Live : /\ FieldAt(regs[a], regs[a].t0 - regs[a].dt) = ZeroS
                           /\ FieldAt(regs[a], regs[a].t0 + N(regs[a]) * regs[a].dt) = ZeroS

Emit == Len(h) = Depth => PrintT(ToJson([h |-> h]))
=============================================================================
