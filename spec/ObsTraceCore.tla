---------------------------- MODULE ObsTraceCore ----------------------------
(***************************************************************************)
(* Deposit of the field seen from one trajectory into a sampled trace.     *)
(* All times are integers in units of a fraction of the sample spacing W   *)
(* (W even), so every bucket edge  t0 + (i -+ 1/2) W  is an integer.       *)
(* Field values enter linearly: a result is a map from trajectory points   *)
(* to coefficients, scaled by 2*D*W where D is divisible by every segment  *)
(* length.  Point k therefore contributes coef[k]*F[k]/(2*D*W).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Lo(cfg, i) == cfg.t0 + i * cfg.W - cfg.W \div 2
Hi(cfg, i) == Lo(cfg, i) + cfg.W
WinLo(cfg) == Lo(cfg, 0)
WinHi(cfg) == Lo(cfg, cfg.N)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* integer rounding of x/W, halves away from zero towards +infinity (all uses have x >= -W/2)
RoundDiv(x, W) == (2 * x + W) \div (2 * W)

(***************************************************************************)
(* Declarative oracle: 2*D * integral of the piecewise linear field over   *)
(* [l,h] intersected with the trajectory, by unit intervals (all break     *)
(* points are integers so the trapezoid rule is exact on each of them).    *)
(* Result: coefficient of point k.                                         *)
(***************************************************************************)
Hat(T, D, k, seg, t) ==  \* D * value at time t of the k-th hat function, on segment seg
    LET a == T[seg] b == T[seg + 1]
    IN IF k = seg THEN (b - t) * (D \div (b - a))
       ELSE IF k = seg + 1 THEN (t - a) * (D \div (b - a)) ELSE 0

RECURSIVE SumUnit(_, _, _, _, _, _)
SumUnit(T, D, k, seg, t, h) ==
    IF t >= h THEN 0
    ELSE Hat(T, D, k, seg, t) + Hat(T, D, k, seg, t + 1) + SumUnit(T, D, k, seg, t + 1, h)

RECURSIVE SumSeg(_, _, _, _, _, _)
SumSeg(T, D, k, l, h, seg) ==
    IF seg >= Len(T) THEN 0
    ELSE SumUnit(T, D, k, seg, Max(l, T[seg]), Min(h, T[seg + 1])) + SumSeg(T, D, k, l, h, seg + 1)

Integral(T, D, k, l, h) == SumSeg(T, D, k, l, h, 1)

\* closed form of the same (used for long recorded traces): integral over [l,h] within one segment
SegCoef(a, b, D, first, l, h) ==
    IF l >= h THEN 0
    ELSE IF first THEN (h - l) * ((b - l) + (b - h)) * (D \div (b - a))
                  ELSE (h - l) * ((l - a) + (h - a)) * (D \div (b - a))

BucketCoef(cfg, T, D, k, i) ==
    (IF k < Len(T) THEN SegCoef(T[k], T[k + 1], D, TRUE, Max(Lo(cfg, i), T[k]), Min(Hi(cfg, i), T[k + 1])) ELSE 0)
    + (IF k > 1 THEN SegCoef(T[k - 1], T[k], D, FALSE, Max(Lo(cfg, i), T[k - 1]), Min(Hi(cfg, i), T[k])) ELSE 0)

=============================================================================
