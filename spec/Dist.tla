-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Coordinate distributions: arrays of nop points with dim coordinates.    *)
(* Registers hold the integer contents; Unspec marks values that are random   *)
(* by definition (fresh distributions, generated Gaussians).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS R, Dims, Nops, Vals, Facs, Depth, Sim
VARIABLES reg, h
vars == <<reg, h>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Unspec == 999999
Null == [dim |-> 0, nop |-> 0, a |-> <<>>]
Live == { r \in 1..R : reg[r].dim > 0 }
Rec(e) == h' = Append(h, e @@ [exc |-> FALSE, regs |-> reg'])
Exc(e) == UNCHANGED reg /\ h' = Append(h, e @@ [exc |-> TRUE, regs |-> reg])
More == Len(h) < Depth
Known(d) == \A i \in 1..d.nop : \A k \in 1..d.dim : d.a[i][k] # Unspec
RECURSIVE RandRow(_), RandRows(_, _)
RandRow(k) == IF k = 0 THEN <<>> ELSE Append(RandRow(k - 1), RandomElement(Vals))
RandRows(n, d) == IF n = 0 THEN <<>> ELSE Append(RandRows(n - 1, d), RandRow(d))

New == /\ More /\ \E r \in Pick(1..R), d \in Pick(Dims), n \in Pick(Nops) :
         \E rows \in IF Sim THEN {RandRows(n, d)} ELSE [1..n -> [1..d -> Vals]] :
           reg' = [reg EXCEPT ![r] = [dim |-> d, nop |-> n, a |-> rows]] /\ Rec([op |-> "new", r |-> r, d |-> d, n |-> n, rows |-> rows])
Set == /\ More /\ Live # {} /\ \E r \in Pick(Live) : \E i \in Pick(-1..reg[r].nop), k \in Pick(-1..reg[r].dim), v \in Pick(Vals) :
         /\ reg' = IF i \in 0..(reg[r].nop - 1) /\ k \in 0..(reg[r].dim - 1) THEN [reg EXCEPT ![r].a[i + 1][k + 1] = v] ELSE reg
         /\ Rec([op |-> "set", r |-> r, i |-> i, k |-> k, v |-> v])
Get == /\ More /\ Live # {} /\ \E r \in Pick(Live) : \E i \in Pick(-1..reg[r].nop), k \in Pick(-1..reg[r].dim) :
         /\ UNCHANGED reg
         /\ Rec([op |-> "get", r |-> r, i |-> i, k |-> k,
                 ret |-> IF i \in 0..(reg[r].nop - 1) /\ k \in 0..(reg[r].dim - 1) THEN reg[r].a[i + 1][k + 1] ELSE 0])
\* scaling, correlating and generating work on one dimension and ignore dimensions that do not exist
Bound(d) == \A i \in 1..d.nop : \A k \in 1..d.dim : d.a[i][k] # Unspec /\ d.a[i][k] < 3000 /\ d.a[i][k] > -3000
Scale == /\ More /\ Live # {} /\ \E r \in Pick(Live) : \E k \in Pick(-1..reg[r].dim), f \in Pick(Facs) :
           /\ Bound(reg[r])
           /\ reg' = IF k \in 0..(reg[r].dim - 1) THEN [reg EXCEPT ![r].a = [i \in 1..reg[r].nop |-> [@[i] EXCEPT ![k + 1] = @ * f]]] ELSE reg
           /\ Rec([op |-> "scale", r |-> r, k |-> k, f |-> f])
Corr == /\ More /\ Live # {} /\ \E r \in Pick(Live) : \E k \in Pick(-1..reg[r].dim), l \in Pick(-1..reg[r].dim), f \in Pick(Facs) :
          /\ Bound(reg[r])
          /\ reg' = IF k \in 0..(reg[r].dim - 1) /\ l \in 0..(reg[r].dim - 1) /\ k # l
                    THEN [reg EXCEPT ![r].a = [i \in 1..reg[r].nop |-> [@[i] EXCEPT ![l + 1] = @ + f * reg[r].a[i][k + 1]]]] ELSE reg
          /\ Rec([op |-> "corr", r |-> r, i |-> k, d |-> l, f |-> f])
Gauss == /\ More /\ Live # {} /\ \E r \in Pick(Live) : \E k \in Pick(-1..reg[r].dim) :
           /\ reg' = IF k \in 0..(reg[r].dim - 1) THEN [reg EXCEPT ![r].a = [i \in 1..reg[r].nop |-> [@[i] EXCEPT ![k + 1] = Unspec]]] ELSE reg
           /\ Rec([op |-> "gauss", r |-> r, k |-> k])
\* transfer through a buffer of  sz(source) + x  values into a distribution; sizes must agree exactly
Buf == /\ More /\ Live # {} /\ \E r \in Pick(Live), s \in Pick(Live), x \in Pick({-1, 0, 1}) :
         LET e == [op |-> "buf", r |-> r, s |-> s, x |-> x]
             n == reg[s].dim * reg[s].nop IN
         /\ ~(x = 1 /\ reg[r].dim * reg[r].nop = n + 1)     \* a longer buffer that fits is legitimate
         /\ IF x # 0 \/ reg[r].dim * reg[r].nop # n THEN Exc(e)
            ELSE /\ LET flat == [j \in 0..(n - 1) |-> reg[s].a[(j \div reg[s].dim) + 1][(j % reg[s].dim) + 1]] IN
                    reg' = [reg EXCEPT ![r].a = [i \in 1..reg[r].nop |-> [k \in 1..reg[r].dim |-> flat[(i - 1) * reg[r].dim + k - 1]]]]
                 /\ Rec(e)
Sub == /\ More /\ Live # {} /\ \E r \in Pick(1..R), s \in Pick(Live) : \E i \in Pick(0..reg[s].nop), n \in Pick(Nops) :
         /\ reg' = [reg EXCEPT ![r] = [dim |-> reg[s].dim, nop |-> n,
                     a |-> [j \in 1..n |-> [k \in 1..reg[s].dim |-> IF i + j <= reg[s].nop THEN reg[s].a[i + j][k] ELSE Unspec]]]]
         /\ Rec([op |-> "sub", r |-> r, s |-> s, i |-> i, n |-> n])
Init == reg = [r \in 1..R |-> Null] /\ h = <<>>
Next == New \/ Set \/ Get \/ Scale \/ Corr \/ Gauss \/ Buf \/ Sub
Spec == Init /\ [][Next]_vars
Shape == \A r \in 1..R : Len(reg[r].a) = reg[r].nop /\ \A i \in 1..reg[r].nop : Len(reg[r].a[i]) = reg[r].dim
OneRegister == [][ h' # h => Cardinality({ r \in 1..R : reg'[r] # reg[r] }) <= 1 ]_vars
Emit == Len(h) = Depth => PrintT(ToJson([R |-> R, h |-> h]))
=============================================================================
