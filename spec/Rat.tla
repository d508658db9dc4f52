-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Rational numbers <<numerator, denominator>> (denominator > 0, reduced)   *)
(* and vectors of them.                                                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == Gcd(Abs(n), Abs(d)) IN
           IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
I(n) == <<n, 1>>
Neg(a) == <<-a[1], a[2]>>
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
Sub(a, b) == Add(a, Neg(b))
\* cross-reduction before multiplying keeps the factors small
Mul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                 k == Gcd(Abs(b[1]), a[2]) IN
             IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
             ELSE <<(a[1] \div g) * (b[1] \div k), (a[2] \div k) * (b[2] \div g)>>
Inv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
Less(a, b) == Sub(a, b)[1] < 0
Leq(a, b) == Sub(a, b)[1] <= 0

VI(v) == [i \in 1..3 |-> I(v[i])]
V0 == <<I(0), I(0), I(0)>>
VAdd(u, v) == [i \in 1..3 |-> Add(u[i], v[i])]
VSub(u, v) == [i \in 1..3 |-> Sub(u[i], v[i])]
VScale(a, v) == [i \in 1..3 |-> Mul(a, v[i])]
VDot(u, v) == Add(Mul(u[1], v[1]), Add(Mul(u[2], v[2]), Mul(u[3], v[3])))
VCross(u, v) == << Sub(Mul(u[2], v[3]), Mul(u[3], v[2])),
                   Sub(Mul(u[3], v[1]), Mul(u[1], v[3])),
                   Sub(Mul(u[1], v[2]), Mul(u[2], v[1])) >>
=============================================================================
