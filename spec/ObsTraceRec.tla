---------------------------- MODULE ObsTraceRec ----------------------------
(***************************************************************************)
(* Validation of recorded integrations: each line of the file is one run   *)
(* of the implementation - window, previous contents, the arrival times    *)
(* and fields of every particle, and the recorded samples.  One action per *)
(* deposited particle; the line is accepted iff the recorded samples are   *)
(* the previous contents plus the superposition of all particles.          *)
(***************************************************************************)
EXTENDS ObsTraceCore, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, p, acc, ok
vars == <<id, p, acc, ok>>

C(r) == [W |-> r.W, N |-> r.N, t0 |-> r.t0]

Init == /\ id \in 1..Len(Rec)
        /\ p = 0
        /\ acc = [i \in 1..Rec[id].N |-> Rec[id].pre[i]]
        /\ ok = TRUE

RECURSIVE Contribution(_, _, _, _)
Contribution(r, q, i, k) ==
    IF k = 0 THEN 0
    ELSE q.F[k] * BucketCoef(C(r), q.T, r.D, k, i - 1) + Contribution(r, q, i, k - 1)

Deposit == LET r == Rec[id] IN
    /\ p < Len(r.parts)
    /\ acc' = [i \in 1..r.N |-> acc[i] + Contribution(r, r.parts[p + 1], i, Len(r.parts[p + 1].T))]
    /\ p' = p + 1 /\ UNCHANGED <<id, ok>>

Close == LET r == Rec[id] IN
    /\ p = Len(r.parts)
    /\ ok' = (acc = r.out)
    /\ p' = p + 1 /\ UNCHANGED <<id, acc>>

Next == Deposit \/ Close
Spec == Init /\ [][Next]_vars
Accepted == ok \/ ~PrintT(ToJson([rejected |-> id, exp |-> acc]))
=============================================================================
