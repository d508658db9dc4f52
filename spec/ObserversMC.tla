----------------------------- MODULE ObserversMC -----------------------------
\* exhaustive sweep: create one observer, integrate, write the file
EXTENDS Observers
NextMC == \/ Len(h) = 0 /\ New
          \/ Len(h) = 1 /\ Integrate
          \/ Len(h) = 2 /\ File
SpecMC == Init /\ [][NextMC]_vars
=============================================================================
