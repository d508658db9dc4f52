------------------------------ MODULE Moments ------------------------------
(***************************************************************************)
(* Ensemble quantities of a bunch and linear correlations.                 *)
(* A particle is <<x,y,z,px,py,pz>> of integers (multiples of 1/Sc) and a  *)
(* start time.  All reported quantities are defined over all particles     *)
(* with equal weight; they are kept as integer sums:                       *)
(*   mean_c = S1[c]/n     rms_c^2 = (n*S2[c] - S1[c]^2)/n^2                *)
(*   bunching at c/(4 zu)*m = <<re, im>>/n  (z in units of zu)             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, Coords, Factors, Idx, Depth, Sim, Sc
VARIABLES parts, tms, h
vars == <<parts, tms, h>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE SumOf(_, _)
SumOf(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOf(f, n - 1)
N == Len(parts)
Col(ps, c) == [i \in 1..Len(ps) |-> ps[i][c]]
S1(ps, c) == SumOf(Col(ps, c), Len(ps))
S2(ps, c) == SumOf([i \in 1..Len(ps) |-> ps[i][c] * ps[i][c]], Len(ps))
Quarter(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Bunching(ps, m) == << SumOf([i \in 1..Len(ps) |-> Quarter(m * ps[i][3])[1]], Len(ps)),
                      SumOf([i \in 1..Len(ps) |-> Quarter(m * ps[i][3])[2]], Len(ps)) >>
P2(p) == p[4] * p[4] + p[5] * p[5] + p[6] * p[6]
Report(ps, ts) == [ n |-> Len(ps), s1 |-> [c \in 1..6 |-> S1(ps, c)],
                    v |-> [c \in 1..3 |-> Len(ps) * S2(ps, c) - S1(ps, c) * S1(ps, c)],
                    t |-> SumOf(ts, Len(ts)),
                    p2 |-> [i \in 1..Len(ps) |-> P2(ps[i])],
                    b |-> [m \in 1..4 |-> Bunching(ps, m)],
                    parts |-> ps, tms |-> ts ]
Rec(e) == h' = Append(h, e @@ [rep |-> Report(parts', tms')])
More == Len(h) < Depth

RECURSIVE Rand6(_)
Rand6(k) == IF k = 0 THEN <<>> ELSE Append(Rand6(k - 1), RandomElement(IF Len(h) >= 0 THEN Coords ELSE {}))
New == IF Sim THEN {Rand6(6)} ELSE { <<a, 0, b, b, a, 0>> : a, b \in Coords }
AddP == /\ More /\ N < MaxN
        /\ \E p \in New, t \in Pick({0, 3, -5}) :
             parts' = Append(parts, p) /\ tms' = Append(tms, t) /\ Rec([op |-> "add", p |-> p, t |-> t])
\* the dependent coordinate changes by factor times the offset of the independent one from its mean
Legal(i) == i \in 0..5
Corr == /\ More /\ N > 0
        /\ \E i \in Pick(Idx), d \in Pick(Idx), f \in Pick(Factors) :
           IF Legal(i) /\ Legal(d) /\ i # d
           THEN /\ (f * S1(parts, i + 1)) % N = 0
                /\ parts' = [k \in 1..N |-> [parts[k] EXCEPT ![d + 1] = @ + f * parts[k][i + 1] - (f * S1(parts, i + 1)) \div N]]
                /\ \A k \in 1..N : Abs(parts'[k][d + 1]) < 2000
                /\ tms' = tms /\ Rec([op |-> "corr", i |-> i, d |-> d, f |-> f])
           ELSE UNCHANGED <<parts, tms>> /\ Rec([op |-> "corr", i |-> i, d |-> d, f |-> f])
Drift == /\ More /\ N > 0
         /\ \E k \in Pick(1..N) : \E p \in New :
              parts' = [parts EXCEPT ![k] = p] /\ tms' = [tms EXCEPT ![k] = 7] /\ Rec([op |-> "move", k |-> k, p |-> p])
Init == parts = <<>> /\ tms = <<>> /\ h = <<>>
Next == AddP \/ Corr \/ Drift \/ (Sim /\ Corr)
Spec == Init /\ [][Next]_vars

\* correlations keep all means, and all coordinates but the dependent one
KeepMeans == [][ (h' # h /\ h'[Len(h')].op = "corr") =>
                   /\ \A c \in 1..6 : S1(parts', c) = S1(parts, c)
                   /\ \A c \in 1..6 : c # h'[Len(h')].d + 1 => \A k \in 1..N : parts'[k][c] = parts[k][c] ]_vars
NonNegative == \A c \in 1..3 : N * S2(parts, c) - S1(parts, c) * S1(parts, c) >= 0
Emit == Len(h) = Depth => PrintT(ToJson([sc |-> Sc, h |-> h]))
=============================================================================
