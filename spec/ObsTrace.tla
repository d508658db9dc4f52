------------------------------ MODULE ObsTrace ------------------------------
(***************************************************************************)
(* Transition system of the deposit: one action per trajectory segment,    *)
(* with the case analysis on where the arrival interval lies relative to   *)
(* buckets and window.  TLC checks, for every configuration within the     *)
(* constants, that the bucket contents equal the integral definition       *)
(* (ObsTraceCore!Integral), that nothing is lost or counted twice, and     *)
(* prints each completed configuration with the expected contents for the  *)
(* replay against the implementation.                                      *)
(***************************************************************************)
EXTENDS ObsTraceCore, TLC, Json

CONSTANTS Ws,        \* sample spacings (even)
          Ns,        \* numbers of samples
          T0s,       \* start times of the window
          Pts,       \* numbers of trajectory points
          Segs,      \* possible segment lengths
          D,         \* common multiple of the segment lengths
          Margin     \* how far outside the window a trajectory may start

VARIABLES cfg, T, seg, tr, done
vars == <<cfg, T, seg, tr, done>>

RECURSIVE Acc(_, _)
Acc(start, ds) == IF ds = <<>> THEN <<start>> ELSE <<start>> \o Acc(start + Head(ds), Tail(ds))

Init ==
    /\ \E W \in Ws, N \in Ns, t0 \in T0s : cfg = [W |-> W, N |-> N, t0 |-> t0]
    /\ \E n \in Pts : \E ds \in [1..(n - 1) -> Segs] :
         \E s \in (cfg.t0 - Margin)..(cfg.t0 + cfg.N * cfg.W + 1) : T = Acc(s, ds)
    /\ seg = 1
    /\ tr = [i \in 0..(cfg.N - 1) |-> [k \in 1..Len(T) |-> 0]]
    /\ done = FALSE

\* add to bucket i the part [l,h] of segment s
Put(m, s, i, l, h) ==
    [m EXCEPT ![i] = [@ EXCEPT ![s]     = @ + SegCoef(T[s], T[s + 1], D, TRUE, l, h),
                               ![s + 1] = @ + SegCoef(T[s], T[s + 1], D, FALSE, l, h)]]

\* a fully covered bucket takes the field at its centre time
PutCentre(m, s, i) ==
    LET a == T[s] b == T[s + 1] c == cfg.t0 + i * cfg.W
    IN [m EXCEPT ![i] = [@ EXCEPT ![s]     = @ + 2 * (b - c) * cfg.W * (D \div (b - a)),
                                  ![s + 1] = @ + 2 * (c - a) * cfg.W * (D \div (b - a))]]

RECURSIVE PutRange(_, _, _, _)
PutRange(m, s, i, j) == IF i >= j THEN m ELSE PutRange(PutCentre(m, s, i), s, i + 1, j)

Idx(t) == RoundDiv(t - cfg.t0, cfg.W)

Misses == T[seg + 1] <= WinLo(cfg) \/ T[seg] >= WinHi(cfg)

SegMiss == /\ ~done /\ seg < Len(T) /\ Misses
           /\ seg' = seg + 1 /\ UNCHANGED <<cfg, T, tr, done>>

\* starts at or before the window's begin (may end inside or behind the window)
SegEnter ==
    /\ ~done /\ seg < Len(T) /\ ~Misses /\ T[seg] <= WinLo(cfg)
    /\ LET i2 == Min(Idx(T[seg + 1]), cfg.N)
           m1 == PutRange(tr, seg, 0, i2)
       IN tr' = IF i2 < cfg.N THEN Put(m1, seg, i2, Lo(cfg, i2), T[seg + 1]) ELSE m1
    /\ seg' = seg + 1 /\ UNCHANGED <<cfg, T, done>>

\* starts inside the window and ends in the same bucket
SegInOne ==
    /\ ~done /\ seg < Len(T) /\ ~Misses /\ T[seg] > WinLo(cfg)
    /\ Idx(T[seg]) = Min(Idx(T[seg + 1]), cfg.N)
    /\ tr' = Put(tr, seg, Idx(T[seg]), T[seg], T[seg + 1])
    /\ seg' = seg + 1 /\ UNCHANGED <<cfg, T, done>>

\* starts inside the window and ends in a later bucket or behind the window
SegSpan ==
    /\ ~done /\ seg < Len(T) /\ ~Misses /\ T[seg] > WinLo(cfg)
    /\ Idx(T[seg]) # Min(Idx(T[seg + 1]), cfg.N)
    /\ LET i1 == Idx(T[seg])
           i2 == Min(Idx(T[seg + 1]), cfg.N)
           m1 == Put(tr, seg, i1, T[seg], Hi(cfg, i1))
           m2 == PutRange(m1, seg, i1 + 1, i2)
       IN tr' = IF i2 < cfg.N THEN Put(m2, seg, i2, Lo(cfg, i2), T[seg + 1]) ELSE m2
    /\ seg' = seg + 1 /\ UNCHANGED <<cfg, T, done>>

Finish == /\ ~done /\ seg = Len(T) /\ done' = TRUE /\ UNCHANGED <<cfg, T, seg, tr>>

Next == SegMiss \/ SegEnter \/ SegInOne \/ SegSpan \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Upto == SubSeq(T, 1, seg)

\* every bucket holds exactly the integral of the field seen so far over that bucket
BucketExact ==
    seg > 1 => \A i \in 0..(cfg.N - 1) : \A k \in 1..seg :
        tr[i][k] = Integral(Upto, D, k, Lo(cfg, i), Hi(cfg, i))

RECURSIVE SumB(_, _)
SumB(k, i) == IF i < 0 THEN 0 ELSE tr[i][k] + SumB(k, i - 1)

\* conservation over the whole window
Conserved ==
    seg > 1 => \A k \in 1..seg : SumB(k, cfg.N - 1) = Integral(Upto, D, k, WinLo(cfg), WinHi(cfg))

\* the closed form used for validating recorded traces agrees
ClosedForm ==
    done => \A i \in 0..(cfg.N - 1) : \A k \in 1..Len(T) : tr[i][k] = BucketCoef(cfg, T, D, k, i)

\* a step with the same field at both ends deposits its part of the window, however far outside it begins or ends
Plain(k) == [i \in 0..(cfg.N - 1) |-> IF k = 0 THEN Max(0, Min(Hi(cfg, i), T[2]) - Lo(cfg, i)) ELSE Max(0, Hi(cfg, i) - Max(Lo(cfg, i), T[k]))]
FarAway ==
    (done /\ Len(T) > 1) =>
        LET n == Len(T)
            last(i) == IF n > 2 THEN SegCoef(T[n - 2], T[n - 1], D, FALSE, Max(Lo(cfg, i), T[n - 2]), Min(Hi(cfg, i), T[n - 1])) ELSE 0
            first(i) == IF n > 2 THEN SegCoef(T[2], T[3], D, TRUE, Max(Lo(cfg, i), T[2]), Min(Hi(cfg, i), T[3])) ELSE 0
        IN \A i \in 0..(cfg.N - 1) :
             /\ T[n] >= WinHi(cfg) => tr[i][n - 1] + tr[i][n] = 2 * D * Plain(n - 1)[i] + last(i)
             /\ T[1] <= WinLo(cfg) => tr[i][1] + tr[i][2] = 2 * D * Plain(0)[i] + first(i)

Emit == done => PrintT(ToJson([W |-> cfg.W, N |-> cfg.N, t0 |-> cfg.t0, T |-> T,
                               exp |-> [i \in 1..cfg.N |-> tr[i - 1]]]))
=============================================================================
