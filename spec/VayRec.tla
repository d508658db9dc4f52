------------------------------ MODULE VayRec ------------------------------
(***************************************************************************)
(* Validation of recorded tracking runs through arbitrary electric plus    *)
(* magnetic fields.  Each record is one call for one particle: how many    *)
(* points exist, how often and by how much earlier points changed, the     *)
(* elapsed time in units of the time step, and the residuals of the Vay    *)
(* equations in units of the numerical resolution.  The recorded run is a  *)
(* behaviour of the specification iff every record is the next step.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == 1000

VARIABLES i, n      \* next record; number of points of the particle tracked at present
vars == <<i, n>>
Abs(x) == IF x < 0 THEN -x ELSE x
Zero(v) == \A k \in 1..Len(v) : Abs(v[k]) <= Tol

Init == i = 1 /\ n = 0
Setup(r) == /\ r.op = "setup" /\ r.np = r.np0 /\ r.np >= 1
            /\ r.dT = 0 /\ Zero(r.x) /\ Zero(r.ph)          \* last point: time, place and momentum stay
            /\ Zero(r.pe) /\ Zero(r.a) /\ Zero(r.old)
            /\ n' = r.np
Step(r) == /\ r.op = "step" /\ r.np0 = n /\ r.np = n + 1
           /\ r.dT = 1000                                   \* exactly one time step
           /\ Zero(r.x)                                     \* X = X + c dt beta(end of the step before)
           /\ Zero(r.ph)                                    \* P = p + (E/c + beta x B) q/m dt/2
           /\ Zero(r.pe)                                    \* p' = P + (E/c + beta' x B) q/m dt/2
           /\ Zero(r.a)                                     \* A = q/m (beta_P x B + E/c)
           /\ Zero(r.old)                                   \* earlier points untouched
           /\ n' = n + 1
Next == /\ i <= Len(Trace) /\ i' = i + 1 /\ (Setup(Trace[i]) \/ Step(Trace[i]))
Spec == Init /\ [][Next]_vars
\* a record that is no step of the specification stops the behaviour before its end
NotStuck == i <= Len(Trace) => ENABLED Next
=============================================================================
