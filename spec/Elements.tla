------------------------------ MODULE Elements ------------------------------
(***************************************************************************)
(* Fields of the external lattice elements.  Lengths are integers, times    *)
(* are in units of the length unit over c.  The field of an element at a    *)
(* time and place is a set of terms                                         *)
(*    [c |-> component (1..3 E, 4..6 B), u |-> unit, q |-> rational factor, *)
(*     f |-> sequence of <<function, rational argument>>]                    *)
(* i.e. everything discrete (regions, ramps, frames, signs) is decided here *)
(* exactly while transcendental functions stay symbolic.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

Term(c, u, q, f) == [c |-> c, u |-> u, q |-> q, f |-> f]
VDiff(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
DotI(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]

\* linear ramp over one period at both ends of the range  [-(N+1) l/2, (N+1) l/2)
Ramp(z, n, l) == LET z1 == Q(-(n + 1) * l, 2)
                     z2 == Q((n + 1) * l, 2)
                     a == IF Less(I(z), Add(z1, I(l))) THEN Div(Sub(I(z), z1), I(l)) ELSE I(1)
                     b == IF Leq(Sub(z2, I(l)), I(z)) THEN Div(Sub(z2, I(z)), I(l)) ELSE I(1) IN
                 IF Less(I(z), z1) \/ ~Less(I(z), z2) THEN I(0) ELSE Mul(a, b)

Planar(e, d) == LET r == Mul(I(e.B), Ramp(d[3], e.n, e.l))
                    pz == Q(d[3], e.l)
                    py == Q(d[2], e.l) IN
                << Term(5, "B", r, << <<"sin", pz>>, <<"cosh", py>> >>),
                   Term(6, "B", r, << <<"cos", pz>>, <<"sinh", py>> >>) >>
\* e.m/10: modulation, kx = e.k * kz / 4
Tgu(e, d) == LET r == Mul(I(e.B), Ramp(d[3], e.n, e.l))
                 pz == Q(d[3], e.l)
                 py == Q(d[2], e.l)
                 px == Q(e.k * d[1], 4 * e.l)
                 k == Q(e.k, 4)
                 s == Add(I(1), Mul(k, k))                   \* (ky/kz)^2
                 m == << <<"onep", <<e.m, 10>>, pz>> >>       \* 1 + m sin(2 pi pz)
                 y == <<"ratio", s, py>> IN                  \* ky * y
             << Term(5, "B", r, m \o << <<"sin", pz>>, <<"cosh", py>> >>),
                Term(6, "B", r, m \o << <<"cos", pz>>, <<"sinh", py>> >>),
                Term(4, "B", Mul(r, k), m \o << <<"isqrt", s>>, <<"cos", px>>, <<"sinhr", s, py>>, <<"sin", pz>> >>),
                Term(5, "B", r, m \o << <<"sin", px>>, <<"coshr", s, py>>, <<"sin", pz>> >>),
                Term(6, "B", r, m \o << <<"isqrt", s>>, <<"sin", px>>, <<"sinhr", s, py>>, <<"cos", pz>> >>) >>
VecTerms(c, u, v, q, f) == << Term(c, u, Mul(I(v[1]), q), f), Term(c + 1, u, Mul(I(v[2]), q), f), Term(c + 2, u, Mul(I(v[3]), q), f) >>
Hard(e, d) == IF DotI(VDiff(d, e.p1), e.n1) < 0 /\ DotI(VDiff(d, e.p2), e.n2) < 0 THEN VecTerms(4, "B", e.b, I(1), <<>>) ELSE <<>>
Soft(e, d) == << >> \o VecTerms(4, "B", e.b, I(-1), << <<"atanpi", Q(2 * DotI(VDiff(d, e.p1), e.n1), e.t1)>> >>)
                    \o VecTerms(4, "B", e.b, I(-1), << <<"atanpi", Q(2 * DotI(VDiff(d, e.p2), e.n2), e.t2)>> >>)
Homog(e) == VecTerms(1, "E", e.e, I(1), <<>>) \o VecTerms(4, "B", e.b, I(1), <<>>)
\* amplitude e.re + i e.im, wave length e.l, Rayleigh range e.z;  packet: duration e.tau
Gauss(e, d, t, env) == LET zz == d[3] * d[3] + e.z * e.z
                           rr == d[1] * d[1] + d[2] * d[2]
                           ph == Sub(Q(t - d[3], e.l), Q(rr * d[3], 2 * e.l * zz))
                           f == << <<"isqrt", Q(zz, e.z * e.z)>>, <<"expmpi", Q(rr * e.z, e.l * zz)>> >> \o env IN
                       << Term(1, "E", I(e.re), f \o << <<"cos", ph>> >>), Term(1, "E", I(-e.im), f \o << <<"sin", ph>> >>),
                          Term(5, "Ec", I(e.re), f \o << <<"cos", ph>> >>), Term(5, "Ec", I(-e.im), f \o << <<"sin", ph>> >>) >>
Local(e, x) == VDiff(x, e.o)
FieldOf(e, t, x) ==
  LET d == Local(e, x) IN
  CASE e.kind = "planar" -> Planar(e, d)
    [] e.kind = "tgu" -> Tgu(e, d)
    [] e.kind = "hard" -> Hard(e, d)
    [] e.kind = "soft" -> Soft(e, d)
    [] e.kind = "homog" -> Homog(e)
    [] e.kind = "wave" -> Gauss(e, d, t, <<>>)
    [] e.kind = "packet" -> Gauss(e, d, t - e.t, << <<"expm2", Q(t - e.t - d[3], e.tau)>> >>)
    [] OTHER -> <<>>
\* places where a one-sided convention decides: not compared
OnEdge(e, x) == LET d == Local(e, x) IN
  e.kind = "hard" /\ (DotI(VDiff(d, e.p1), e.n1) = 0 \/ DotI(VDiff(d, e.p2), e.n2) = 0)
\* all inside its own region?
Outside(e, x) == CASE e.kind \in {"planar", "tgu"} -> LET d == Local(e, x) IN 2 * d[3] <= -(e.n + 1) * e.l \/ 2 * d[3] >= (e.n + 1) * e.l
                   [] e.kind = "hard" -> LET d == Local(e, x) IN DotI(VDiff(d, e.p1), e.n1) >= 0 \/ DotI(VDiff(d, e.p2), e.n2) >= 0
                   [] OTHER -> FALSE
=============================================================================
