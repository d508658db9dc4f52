------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* The analysis modules of the repository (C18): TeufelScreen, TeufelWatch   *)
(* and MeshedField.                                                         *)
(*                                                                         *)
(* Slots: two files and two objects.  A session reads files into objects,    *)
(* copies objects, replaces traces of cells, writes objects to files and asks *)
(* for derived quantities.  The content of a cell is a token; Trace gives its *)
(* six field components at every sample.  Every derived quantity is defined   *)
(* here with integers: lengths, times and fields are integers in units that   *)
(* the harness chooses, irrational ones are given by their squares.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Nxs, Nys, Nots, T0s, Dts, Skews, Frames, Normals, Origins, Olds, Meshes, Toks, Nps, Coords, Moms, Circles, Steps, Sim
VARIABLES cfg, slot, log, pc
vars == <<cfg, slot, log, pc>>

Pick(S) == IF Sim THEN {TLCEval(RandomElement(IF Len(log) >= 0 THEN S ELSE {}))} ELSE S
None == [none |-> 0]
NoCells == <<>>

Cross(x, y) == << x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1] >>
Minus(x, y) == << x[1] - y[1], x[2] - y[2], x[3] - y[3] >>
Plus(x, y) == << x[1] + y[1], x[2] + y[2], x[3] + y[3] >>
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Neg(x) == << -x[1], -x[2], -x[3] >>
Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Sum(F(_), a, b) == LET s[i \in (a - 1)..b] == IF i < a THEN 0 ELSE F(i) + s[i - 1] IN s[b]

---------------------------------------------------------------------------
(* traces: six components E, B at samples 0 .. nt - 1 *)
Sample(tok, t) == [c \in 1..6 |-> IF tok = 0 THEN 0 ELSE ((tok * tok * (c + 2) + tok * (17 * t + 5 * c) + 7 * t * c + t * t * (c * c + tok)) % 7) - 3]
E(tok, t) == LET s == Sample(tok, t) IN <<s[1], s[2], s[3]>>
B(tok, t) == LET s == Sample(tok, t) IN <<s[4], s[5], s[6]>>
\* sum over the samples of E x B
Flow(tok, nt) == LET f(c) == LET term(t) == Cross(E(tok, t), B(tok, t))[c] IN Sum(term, 0, nt - 1) IN <<f(1), f(2), f(3)>>

\* 2 cos(2 pi m / n) for n in 1, 2, 3, 4, 6
TwoCos(m, n) == << 2, 0, 1, 0, -1, 0, -2, 0, -1, 0, 1, 0 >>[((m % n) * (12 \div n)) + 1]
\* twice the real part of F_k(a) conj F_k(b), and twice the squared modulus
Spectral2(a(_), b(_), k, nt) == LET row(s) == LET el(t) == a(s) * b(t) * TwoCos(k * (s + nt - t), nt) IN Sum(el, 0, nt - 1) IN Sum(row, 0, nt - 1)

---------------------------------------------------------------------------
(* screens *)
\* pairs of orthogonal pixel vectors with integer lengths
Frame(k) == << << <<1, 0, 0>>, <<0, 1, 0>>, 1, 1 >>, << <<3, 4, 0>>, <<0, 0, 2>>, 5, 2 >>, << <<0, 0, -3>>, <<0, 2, 0>>, 3, 2 >>,
               << <<2, 1, 2>>, <<1, 2, -2>>, 3, 3 >>, << <<-4, 0, 3>>, <<0, 1, 0>>, 5, 1 >> >>[k]
Normal(k) == << << <<0, 0, -1>>, 1 >>, << <<0, 0, 1>>, 1 >>, << <<0, 3, -4>>, 5 >>, << <<-2, 1, 2>>, 3 >>, << <<6, -2, 3>>, 7 >> >>[k]
Origin(k) == << <<0, 0, 0>>, <<5, -7, 2>>, <<-1, 0, 40>> >>[k]
\* the older file format stores positions: the normal follows from the pixels and there are no shifts of the start times
Screen(nx, ny, nots, t0, dt, sx, sy, fr, no, or, old) ==
  LET f == Frame(fr)
      n == IF old THEN <<Neg(Cross(f[1], f[2])), f[3] * f[4]>> ELSE Normal(no) IN
  [nx |-> nx, ny |-> ny, nots |-> nots, t0 |-> t0, dt |-> dt, dtx |-> IF old THEN 0 ELSE sx, dty |-> IF old THEN 0 ELSE sy,
   dx |-> f[1], dy |-> f[2], lx |-> f[3], ly |-> f[4], n |-> n[1], ln |-> n[2], o |-> Origin(or), xc |-> nx \div 2, yc |-> ny \div 2]
Cells(g) == 1..(g.nx * g.ny)
Ix(g, i) == (i - 1) \div g.ny
Iy(g, i) == (i - 1) % g.ny
Off(g, i) == <<Ix(g, i) - g.xc, Iy(g, i) - g.yc>>
Position(g, i) == [c \in 1..3 |-> g.o[c] + g.dx[c] * Off(g, i)[1] + g.dy[c] * Off(g, i)[2]]
Power(g, tok) == -Dot(g.n, Flow(tok, g.nots))
ScreenQuery(g, i, tok) ==
  LET nf == g.nots
      eh(t) == Dot(E(tok, t), g.dx)
      ev(t) == Dot(E(tok, t), g.dy)
      bh(t) == Dot(B(tok, t), g.dx)
      bv(t) == Dot(B(tok, t), g.dy) IN
  [start |-> g.t0 + g.dtx * Off(g, i)[1] + g.dty * Off(g, i)[2],
   pos |-> <<g.lx * Off(g, i)[1], g.ly * Off(g, i)[2]>>,
   trace |-> [t \in 1..nf |-> Sample(tok, t - 1)],
   power |-> Power(g, tok),
   plane |-> [t \in 1..nf |-> <<eh(t - 1), ev(t - 1), bh(t - 1), bv(t - 1)>>],
   specH |-> [k \in 1..(nf \div 2) |-> Spectral2(eh, eh, k - 1, nf) * Spectral2(bv, bv, k - 1, nf)],
   specV |-> [k \in 1..(nf \div 2) |-> Spectral2(ev, ev, k - 1, nf) * Spectral2(bh, bh, k - 1, nf)]]
Inside(g, i, r) == LET p == <<g.lx * Off(g, i)[1], g.ly * Off(g, i)[2]>> IN p[1] * p[1] + p[2] * p[2] <= r * r
ScreenTotals(g, cell, r) ==
  LET all(i) == Power(g, cell[i])
      circ(i) == IF Inside(g, i, r) THEN Power(g, cell[i]) ELSE 0
      axis == cell[g.xc * g.ny + g.yc + 1]
      n == g.nx * g.ny
      eh(t) == Dot(E(axis, t), g.dx)
      bv(t) == Dot(B(axis, t), g.dy) IN
  [r |-> r, total |-> Sum(all, 1, n) * g.lx * g.ly, circle |-> Sum(circ, 1, n) * g.lx * g.ly,
   axis |-> Flow(axis, g.nots),
   spec |-> [k \in 1..(g.nots \div 2) |-> Spectral2(eh, eh, k - 1, g.nots) * Spectral2(bv, bv, k - 1, g.nots)],
   peak |-> [c \in 1..6 |-> Max({Abs(Sample(cell[i], t)[c]) : i \in 1..n, t \in 0..(g.nots - 1)})]]

---------------------------------------------------------------------------
(* meshes *)
Mesh(k) ==
  << [pts |-> << <<0, 0, 0>>, <<2, 0, 0>>, <<0, 3, 0>> >>, tri |-> << <<0, 1, 2>> >>],
     [pts |-> << <<0, 0, 0>>, <<2, 0, 0>>, <<2, 2, 0>>, <<0, 2, 0>> >>, tri |-> << <<0, 1, 2>>, <<0, 2, 3>> >>],
     [pts |-> << <<1, -2, 5>>, <<4, 0, 1>>, <<0, 3, -2>>, <<-3, 1, 1>>, <<9, 9, 9>> >>, tri |-> << <<0, 1, 2>>, <<2, 0, 3>>, <<3, 1, 0>> >>],
     [pts |-> << <<0, 0, 0>>, <<3, 0, 0>>, <<0, 4, 0>>, <<0, 0, 12>> >>, tri |-> << <<0, 2, 1>>, <<0, 1, 3>>, <<0, 3, 2>>, <<1, 2, 3>> >>],
     [pts |-> << <<-1, -1, 0>>, <<1, -1, 0>>, <<1, 1, 2>>, <<-1, 1, 0>>, <<0, 0, 3>> >>, tri |-> << <<4, 0, 1>>, <<1, 2, 4>>, <<4, 2, 3>>, <<3, 0, 4>>, <<4, 1, 3>> >>] >>[k]
Corner(g, i, j) == g.pts[g.tri[i][j] + 1]
Wind(g, i) == Cross(Minus(Corner(g, i, 3), Corner(g, i, 1)), Minus(Corner(g, i, 2), Corner(g, i, 1)))
\* fields at a time: linear between the samples, nothing before the first and after the last one (values times dt)
At(tok, t0, dt, nt, t) ==
  IF t < t0 \/ t > t0 + (nt - 1) * dt THEN [c \in 1..6 |-> 0]
  ELSE LET k == (t - t0) \div dt
           r == (t - t0) % dt IN
       [c \in 1..6 |-> IF r = 0 THEN dt * Sample(tok, k)[c] ELSE (dt - r) * Sample(tok, k)[c] + r * Sample(tok, k + 1)[c]]
MeshQuery(s, i) ==
  LET g == s.g
      w == Wind(g, i)
      f == IF s.cell = NoCells \/ s.time = None THEN <<>> ELSE Flow(s.cell[i], s.time.nt) IN
  [centre |-> Plus(Corner(g, i, 1), Plus(Corner(g, i, 2), Corner(g, i, 3))), wind |-> w, size |-> Dot(w, w),
   box |-> [c \in 1..3 |-> <<Min({g.pts[k][c] : k \in DOMAIN g.pts}), Max({g.pts[k][c] : k \in DOMAIN g.pts})>>],
   trace |-> IF f = <<>> THEN <<>> ELSE [t \in 1..s.time.nt |-> Sample(s.cell[i], t - 1)],
   flow |-> IF f = <<>> THEN <<>> ELSE f,
   incident |-> IF f = <<>> THEN 0 ELSE -Dot(f, w)]
MeshAt(s, t) == [i \in DOMAIN s.cell |-> At(s.cell[i], s.time.t0[i], s.time.dt, s.time.nt, t)]
MeshReport(s) ==
  LET n == Len(s.g.tri)
      inc(i) == -Dot(Flow(s.cell[i], s.time.nt), Wind(s.g, i)) IN
  [np |-> Len(s.g.pts), size |-> [i \in 1..n |-> Dot(Wind(s.g, i), Wind(s.g, i))], incident2 |-> Sum(inc, 1, n),
   peak |-> Max({Dot(Flow(s.cell[i], s.time.nt), Flow(s.cell[i], s.time.nt)) : i \in 1..n})]
MeshTime(tok, n, nt, dt) == [t0 |-> [i \in 1..n |-> ((tok * 3 * i) % 7) - 3], nt |-> nt, dt |-> dt]

---------------------------------------------------------------------------
(* watch points: momenta in units of 1/12, 12 gamma, slopes in units of pi/4, 12 |p| = a + b sqrt 2 *)
Mom(k) ==
  << [p |-> <<0, 0, 9>>, g |-> 15, ax |-> 0, ay |-> 0, a |-> 9, b |-> 0], [p |-> <<0, 0, 5>>, g |-> 13, ax |-> 0, ay |-> 0, a |-> 5, b |-> 0],
     [p |-> <<24, 0, 24>>, g |-> 36, ax |-> 1, ay |-> 0, a |-> 0, b |-> 24], [p |-> <<-24, 0, 24>>, g |-> 36, ax |-> -1, ay |-> 0, a |-> 0, b |-> 24],
     [p |-> <<0, 24, 24>>, g |-> 36, ax |-> 0, ay |-> 1, a |-> 0, b |-> 24], [p |-> <<0, -24, 24>>, g |-> 36, ax |-> 0, ay |-> -1, a |-> 0, b |-> 24],
     [p |-> <<0, 0, 16>>, g |-> 20, ax |-> 0, ay |-> 0, a |-> 16, b |-> 0],
     [p |-> <<0, 0, -16>>, g |-> 20, ax |-> 4, ay |-> 4, a |-> 16, b |-> 0], [p |-> <<24, 0, -24>>, g |-> 36, ax |-> 3, ay |-> 4, a |-> 0, b |-> 24],
     [p |-> <<9, 0, 0>>, g |-> 15, ax |-> 2, ay |-> 0, a |-> 9, b |-> 0], [p |-> <<0, -5, 0>>, g |-> 13, ax |-> 0, ay |-> -2, a |-> 5, b |-> 0],
     [p |-> <<0, 0, 0>>, g |-> 12, ax |-> 0, ay |-> 0, a |-> 0, b |-> 0] >>[k]
\* N Sum(a b) - Sum(a) Sum(b)
Cov(n, f(_), h(_)) == LET fh(i) == f(i) * h(i) IN n * Sum(fh, 1, n) - Sum(f, 1, n) * Sum(h, 1, n)
Det(n, f(_), h(_)) == Cov(n, f, f) * Cov(n, h, h) - Cov(n, f, h) * Cov(n, f, h)
Beam(b) ==
  LET n == Len(b)
      X(i) == b[i].x[1]
      Y(i) == b[i].x[2]
      Z(i) == b[i].x[3]
      M(i) == Mom(b[i].m)
      G(i) == M(i).g
      Kin(i) == M(i).g - 12
      Ax(i) == M(i).ax
      Ay(i) == M(i).ay
      Pa(i) == M(i).a
      Pb(i) == M(i).b
      P(c) == LET p(i) == M(i).p[c] IN Sum(p, 1, n) IN
  [n |-> n, x |-> [i \in 1..n |-> b[i].x], p |-> [i \in 1..n |-> M(i).p], g |-> [i \in 1..n |-> G(i)],
   mean |-> <<Sum(X, 1, n), Sum(Y, 1, n), Sum(Z, 1, n)>>, pmean |-> <<P(1), P(2), P(3)>>, gmean |-> Sum(G, 1, n), kin |-> Sum(Kin, 1, n),
   slope |-> <<Sum(Ax, 1, n), Sum(Ay, 1, n)>>, bg |-> <<Sum(Pa, 1, n), Sum(Pb, 1, n)>>,
   rms |-> <<Cov(n, X, X), Cov(n, Y, Y), Cov(n, Z, Z)>>, erms |-> Cov(n, G, G),
   em |-> <<Det(n, X, Ax), Det(n, Y, Ay), Det(n, Z, G)>>]

---------------------------------------------------------------------------
(* sessions *)
Files == {"f1", "f2"}
Objs == {"o1", "o2"}
Slots == Files \cup Objs
Fresh(tok, n) == [i \in 1..n |-> (tok * (i + 1) + i * i) % 97]
NCell(s) == IF cfg.kind = "screen" THEN s.g.nx * s.g.ny ELSE Len(s.g.tri)

NewScreen(S(_)) ==
  \E nx \in Pick(Nxs), ny \in Pick(Nys), nots \in Pick(Nots), t0 \in Pick(T0s), dt \in Pick(Dts), sx \in Pick(Skews), sy \in Pick(Skews),
     fr \in Pick(Frames), no \in Pick(Normals), or \in Pick(Origins), old \in Pick(Olds), tok \in Pick(Toks) :
    LET o == old /\ nx >= 3 /\ ny >= 3 IN
    S([g |-> Screen(nx, ny, nots, t0, dt, sx, sy, fr, no, or, o), old |-> o, time |-> None, cell |-> Fresh(tok, nx * ny)])
NewMesh(S(_)) ==
  \E k \in Pick(Meshes), nt \in Pick(Nots), dt \in Pick(Dts), tok \in Pick(Toks), bare \in Pick({TRUE, FALSE}) :
    LET n == Len(Mesh(k).tri) IN
    S([g |-> Mesh(k), old |-> FALSE, time |-> IF bare THEN None ELSE MeshTime(tok, n, nt, dt), cell |-> IF bare THEN NoCells ELSE Fresh(tok, n)])
New(S(_)) == IF cfg.kind = "screen" THEN NewScreen(S) ELSE NewMesh(S)

Done(op) == log' = Append(log, op)
Nothing == [op |-> "", to |-> "", from |-> "", i |-> 0, tok |-> 0, exp |-> [none |-> 0], content |-> [none |-> 0]]

Begin ==
  /\ pc = "begin"
  /\ \E k \in Pick(Kinds) : cfg' = [kind |-> k]
  /\ pc' = "files" /\ UNCHANGED <<slot, log>>

\* the files that exist before the session
Provide ==
  /\ pc = "files" /\ cfg.kind # "watch"
  /\ New(LAMBDA s : /\ slot' = [slot EXCEPT !["f1"] = s]
                    /\ Done([Nothing EXCEPT !.op = "provide", !.to = "f1", !.content = s]))
  /\ pc' = "run" /\ UNCHANGED cfg

Watch ==
  /\ pc = "files" /\ cfg.kind = "watch"
  /\ \E n \in Pick(Nps) :
       \E b \in (IF Sim THEN {[i \in 1..n |-> [x |-> TLCEval([c \in 1..3 |-> RandomElement(IF i > 0 THEN Coords ELSE {})]), m |-> TLCEval(RandomElement(IF i > 0 THEN Moms ELSE {}))]]}
                 ELSE [1..n -> [x : [1..3 -> Coords], m : Moms]]) :
         Done([Nothing EXCEPT !.op = "watch", !.exp = Beam(b)])
  /\ pc' = "end" /\ UNCHANGED <<cfg, slot>>

Readable(s) == s # None /\ (cfg.kind = "mesh" => s.cell # NoCells /\ s.time # None)
Bare(s) == [s EXCEPT !.time = None, !.cell = NoCells]
Running == pc = "run" /\ Len(log) < Steps

Move(op, from, to, s) == slot' = [slot EXCEPT ![to] = s] /\ Done([Nothing EXCEPT !.op = op, !.from = from, !.to = to]) /\ UNCHANGED <<cfg, pc>>
Read == Running /\ \E f \in Files, o \in Objs : Readable(slot[f]) /\ Move("read", f, o, [slot[f] EXCEPT !.old = FALSE])
ReadMesh == Running /\ cfg.kind = "mesh" /\ \E f \in Files, o \in Objs : slot[f] # None /\ Move("readmesh", f, o, Bare(slot[f]))
Write == Running /\ \E f \in Files, o \in Objs : slot[o] # None /\ Move("write", o, f, slot[o])
WriteMesh == Running /\ cfg.kind = "mesh" /\ \E f \in Files, o \in Objs : slot[o] # None /\ Move("writemesh", o, f, Bare(slot[o]))
Copy == Running /\ \E o, q \in Objs : o # q /\ slot[o] # None /\ Move("copy", o, q, slot[o])
\* a mesh built from points and triangles, with or without fields
Make == Running /\ cfg.kind = "mesh" /\ \E o \in Objs :
  New(LAMBDA s : slot' = [slot EXCEPT ![o] = s] /\ Done([Nothing EXCEPT !.op = "make", !.to = o, !.content = s])) /\ UNCHANGED <<cfg, pc>>
Set == Running /\ \E o \in Objs, tok \in Pick(Toks \cup {0}) :
  /\ slot[o] # None /\ slot[o].cell # NoCells
  /\ \E i \in Pick(1..NCell(slot[o])) :
       /\ slot' = [slot EXCEPT ![o].cell[i] = tok]
       /\ Done([Nothing EXCEPT !.op = "set", !.to = o, !.i = i, !.tok = tok,
                               !.exp = [trace |-> [t \in 1..(IF cfg.kind = "screen" THEN slot[o].g.nots ELSE slot[o].time.nt) |-> Sample(tok, t - 1)]]])
       /\ UNCHANGED <<cfg, pc>>
Query == Running /\ \E o \in Objs :
  /\ slot[o] # None
  /\ \E i \in Pick(1..NCell(slot[o])) :
       /\ Done([Nothing EXCEPT !.op = "query", !.from = o, !.i = i,
                               !.exp = IF cfg.kind = "screen" THEN ScreenQuery(slot[o].g, i, slot[o].cell[i]) ELSE MeshQuery(slot[o], i)])
       /\ UNCHANGED <<cfg, slot, pc>>
AtTime == Running /\ cfg.kind = "mesh" /\ \E o \in Objs :
  /\ Readable(slot[o])
  /\ \E i \in Pick(1..NCell(slot[o])), k \in Pick(-1..(slot[o].time.nt)), r \in Pick({0, 0, 1}) :
       LET t == slot[o].time.t0[i] + k * slot[o].time.dt + r IN
       /\ Done([Nothing EXCEPT !.op = "at", !.from = o, !.i = t, !.exp = [v |-> MeshAt(slot[o], t)]])
       /\ UNCHANGED <<cfg, slot, pc>>
Totals == Running /\ cfg.kind = "screen" /\ \E f \in Files :
  /\ slot[f] # None /\ ~\E k \in DOMAIN log : log[k].op = "totals"
  /\ slot[f].g.nx >= 2 /\ slot[f].g.ny >= 2
  /\ \E r \in Pick(Circles) :
       /\ Done([Nothing EXCEPT !.op = "totals", !.from = f, !.exp = ScreenTotals(slot[f].g, slot[f].cell, r)])
       /\ UNCHANGED <<cfg, slot, pc>>
\* what the display program reports about a mesh file
Report == Running /\ cfg.kind = "mesh" /\ \E f \in Files :
  /\ Readable(slot[f]) /\ ~\E k \in DOMAIN log : log[k].op = "report"
  /\ Done([Nothing EXCEPT !.op = "report", !.from = f, !.exp = MeshReport(slot[f])])
  /\ UNCHANGED <<cfg, slot, pc>>
End == pc = "run" /\ Len(log) >= Steps /\ pc' = "end" /\ UNCHANGED <<cfg, slot, log>>

Init == cfg = [kind |-> ""] /\ slot = [s \in Slots |-> None] /\ log = <<>> /\ pc = "begin"
Next == Begin \/ Provide \/ Watch \/ Read \/ ReadMesh \/ Write \/ WriteMesh \/ Copy \/ Make \/ Set \/ Query \/ AtTime \/ Totals \/ Report \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Where a content comes from: the last operation on the slot decides, and only what was asked for is changed. *)
RECURSIVE Source(_, _), Token(_, _, _)
\* geometry of slot s after n operations
Source(s, n) ==
  IF n = 0 THEN None
  ELSE LET op == log[n] IN
       IF op.to # s \/ op.op = "set" THEN Source(s, n - 1)
       ELSE IF op.op \in {"provide", "make"} THEN op.content.g
       ELSE Source(op.from, n - 1)
Token(s, n, i) ==
  IF n = 0 THEN -1
  ELSE LET op == log[n] IN
       IF op.to # s THEN Token(s, n - 1, i)
       ELSE CASE op.op = "set" -> IF op.i = i THEN op.tok ELSE Token(s, n - 1, i)
              [] op.op \in {"provide", "make"} -> IF op.content.cell = NoCells THEN -1 ELSE op.content.cell[i]
              [] op.op \in {"readmesh", "writemesh"} -> -1
              [] OTHER -> Token(op.from, n - 1, i)
Provenance ==
  \A s \in Slots :
    IF slot[s] = None THEN Source(s, Len(log)) = None
    ELSE /\ slot[s].g = Source(s, Len(log))
         /\ \A i \in 1..NCell(slot[s]) : Token(s, Len(log), i) = IF slot[s].cell = NoCells THEN -1 ELSE slot[s].cell[i]
\* a file changes only by writing, an object never by operations on another one
Untouched == [][\A s \in Slots : slot'[s] # slot[s] => Len(log') > Len(log) /\ log'[Len(log')].to = s]_vars

\* the spectrum holds the energy: the sum over all channels is the sum over all samples (Parseval)
Parseval ==
  \A s \in Objs : cfg.kind = "screen" /\ slot[s] # None =>
    LET g == slot[s].g IN
    \A i \in Cells(g) :
      LET e(t) == Dot(E(slot[s].cell[i], t), g.dx)
          b(t) == Dot(B(slot[s].cell[i], t), g.dy)
          eb(t) == e(t) * b(t)
          ch(k) == Spectral2(e, b, k, g.nots) IN
      Sum(ch, 0, g.nots - 1) = 2 * g.nots * Sum(eb, 0, g.nots - 1)
\* reversing the normal reverses the incident energy; the centre has offset zero
Geometry ==
  \A s \in Slots : cfg.kind = "screen" /\ slot[s] # None =>
    LET g == slot[s].g IN
    /\ Dot(g.dx, g.dx) = g.lx * g.lx /\ Dot(g.dy, g.dy) = g.ly * g.ly /\ Dot(g.n, g.n) = g.ln * g.ln /\ Dot(g.dx, g.dy) = 0
    /\ Position(g, g.xc * g.ny + g.yc + 1) = g.o
    /\ \A i \in Cells(g) : Power([g EXCEPT !.n = Neg(g.n)], slot[s].cell[i]) = -Power(g, slot[s].cell[i])
\* second moments and emittances are no less than zero
Moments ==
  \A k \in DOMAIN log : log[k].op = "watch" =>
    LET b == log[k].exp IN (\A c \in 1..3 : b.rms[c] >= 0 /\ b.em[c] >= 0) /\ b.erms >= 0 /\ (b.n = 1 => b.rms = <<0, 0, 0>> /\ b.em = <<0, 0, 0>>)
\* the closed outline of a mesh: no energy is counted twice where the field is the same at every cell of a closed surface
Closed == \A s \in Slots : cfg.kind = "mesh" /\ slot[s] # None /\ slot[s].g = Mesh(4) =>
  \A c \in 1..3 : LET w(i) == Wind(slot[s].g, i)[c] IN Sum(w, 1, 4) = 0
\* the interpolation takes the values of the samples and is linear between
Samples ==
  \A k \in DOMAIN log : log[k].op = "at" => \A i \in DOMAIN log[k].exp.v : \A c \in 1..6 : Abs(log[k].exp.v[i][c]) <= 3 * Max(Dts)

PosOut(g) == [i \in 1..(g.nx * g.ny) |-> Position(g, i)]
Slot(s) ==
  IF s = None THEN [none |-> 0]
  ELSE IF cfg.kind = "screen" THEN [g |-> s.g, old |-> s.old, posn |-> IF s.old THEN PosOut(s.g) ELSE <<>>,
                                   cell |-> [i \in DOMAIN s.cell |-> [t \in 1..s.g.nots |-> Sample(s.cell[i], t - 1)]]]
  ELSE [g |-> s.g, time |-> IF s.time = None THEN [none |-> 0] ELSE s.time,
        cell |-> IF s.cell = NoCells THEN <<>> ELSE [i \in DOMAIN s.cell |-> [t \in 1..s.time.nt |-> Sample(s.cell[i], t - 1)]]]
OutOp(op) == [op EXCEPT !.content = IF op.op \in {"provide", "make"} THEN Slot(op.content) ELSE op.content]
Describe == [kind |-> cfg.kind,
             ops |-> [n \in DOMAIN log |-> OutOp(log[n])],
             final |-> [s \in Slots |-> Slot(slot[s])]]
Emit == pc = "end" => PrintT(ToJson(Describe))
=============================================================================
