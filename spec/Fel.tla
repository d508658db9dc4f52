-------------------------------- MODULE Fel --------------------------------
(***************************************************************************)
(* The one-dimensional radiation field co-moving with the beam (C06).      *)
(*                                                                         *)
(* Units: one cell = the way light travels in one time step.  Positions     *)
(* are quarter cells behind the head, times are eighths of a step.          *)
(*                                                                         *)
(* Every field value is a linear combination, with integer coefficients,    *)
(* of symbols: <<-1, i>> is the seed amplitude of cell i, <<n, d>> with     *)
(* n >= 0 is the current a unit source deposits during step n into a cell   *)
(* at d quarter cells distance (gaussian, sigma two cells).  The wave       *)
(* equation is therefore followed exactly; only the values of the symbols   *)
(* are real numbers (evaluated by the driver).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ns, Logs, Seeds, Modes, Frames, MaxPart, MaxStep, MaxOps, Charges, Accs, Refusals, Rarity, Sim

VARIABLES cfg, fld, prev, n, started, rec, ops, ph
vars == <<cfg, fld, prev, n, started, rec, ops, ph>>
\* in simulations, refusals (which end a history) are rare
Rare == IF Rarity > 1 THEN RandomElement(1..(Rarity + 0 * Len(ops))) = 1 ELSE TRUE
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

(* ---- linear combinations -------------------------------------------------*)
Zero == <<>>
Coef(f, s) == IF s \in DOMAIN f THEN f[s] ELSE 0
Lin(a, f, b, g) == LET D == { s \in (DOMAIN f) \cup (DOMAIN g) : a * Coef(f, s) + b * Coef(g, s) # 0 } IN
                   [s \in D |-> a * Coef(f, s) + b * Coef(g, s)]
Plus(f, g) == Lin(1, f, 1, g)
One(s, c) == IF c = 0 THEN Zero ELSE (s :> c)
Out(f) == { <<s[1], s[2], f[s]>> : s \in DOMAIN f }
OutRow(F) == [i \in 1..Cardinality(DOMAIN F) |-> Out(F[i - 1])]

(* ---- geometry -------------------------------------------------------------*)
Abs(x) == IF x < 0 THEN -x ELSE x
\* nearest cell of a position q (quarter cells; halves never occur)
Cell(q) == (q + 2) \div 4
Clear(q) == ((q + 400) % 4) # 2
InTime(t) == Abs(t) <= 2          \* a quarter of a time step
N == cfg.N
Cells == 0..(N - 1)

\* the shape factors of one source at q, coefficient c, during step n
Source(q, c, i) == IF Abs(i - Cell(q)) <= 10 THEN One(<<n, Abs(4 * i - q)>>, c) ELSE Zero
RECURSIVE SumSrc(_, _, _)
SumSrc(ps, k, i) == IF k = 0 THEN Zero ELSE Plus(SumSrc(ps, k - 1, i), Source(ps[k].q, ps[k].c, i))

\* one step of the wave equation on a grid whose head moves one cell; J is the source
Advance(f, p, J) ==
  [i \in Cells |-> IF i = 0 THEN Zero ELSE IF i = 1 THEN f[0]
                   ELSE Plus(Lin(1, f[i - 2], -1, p[i - 2]), Plus(f[i], J[i - 1]))]
Corrected(f, J) == [i \in Cells |-> IF i = 0 \/ i = N - 1 THEN f[i] ELSE Plus(f[i], J[i])]
NoJ == [i \in Cells |-> Zero]
Record(F, J, k) == IF cfg.log > 0 /\ k % cfg.log = 0 THEN Append(rec, [n |-> k, f |-> OutRow(F), j |-> OutRow(J)]) ELSE rec

(* ---- transitions ------------------------------------------------------------*)
Init == /\ cfg = [N |-> 0] /\ fld = <<>> /\ prev = <<>> /\ n = 0 /\ started = FALSE /\ rec = <<>> /\ ops = <<>> /\ ph = "new"

Create ==
  /\ ph = "new"
  /\ \E k \in Pick(Ns), l \in Pick(Logs), s \in Pick(Seeds), m \in Pick(Modes), fr \in Pick(1..Len(Frames)), np \in Pick(1..MaxPart), split \in Pick(1..3) :
       /\ cfg' = [N |-> k, log |-> l, seed |-> s, mode |-> m, frame |-> Frames[fr], np |-> np, split |-> split]
       /\ LET f0 == [i \in 0..(k - 1) |-> IF s = <<>> THEN Zero ELSE One(<<-1, i>>, 1)] IN
          /\ fld' = f0 /\ prev' = f0
          /\ rec' = <<[n |-> 0, f |-> OutRow(f0), j |-> [i \in 1..k |-> {}]]>>
  /\ n' = 0 /\ started' = FALSE /\ ops' = <<>> /\ ph' = "run"

\* grids of less than two cells and log intervals below one step are refused
CreateRefused ==
  /\ ph = "new" /\ "create" \in Refusals /\ RandomElement(1..12) = 1
  /\ \E k \in Pick({-1, 0, 1, 5}), l \in Pick({-1, 0}), fr \in Pick(1..Len(Frames)) :
       cfg' = [N |-> k, log |-> IF k < 2 THEN 1 ELSE l, step |-> TRUE, seed |-> <<>>, mode |-> <<1, 0>>, frame |-> Frames[fr], np |-> 0, split |-> 1]
  /\ ops' = <<[op |-> "create", ok |-> FALSE]>> /\ ph' = "done" /\ UNCHANGED <<fld, prev, n, started, rec>>
More == ph = "run" /\ Len(ops) < MaxOps
Note(o) == ops' = Append(ops, o)

\* the first step: no sources; the step width must be that of the beam
Start ==
  /\ More /\ ~started
  /\ Note([op |-> "init", ok |-> TRUE])
  /\ LET f == TLCEval(Advance(fld, prev, NoJ)) IN fld' = f /\ rec' = Record(f, NoJ, n + 1)
  /\ prev' = fld /\ n' = n + 1 /\ started' = TRUE /\ UNCHANGED <<cfg, ph>>
StartRefused ==
  /\ More /\ ~started /\ "init" \in Refusals /\ RandomElement(1..5) = 1
  /\ \E d \in Pick({-1, 1, 100}) : Note([op |-> "init", ok |-> FALSE, dt |-> d])
  /\ ph' = "done" /\ UNCHANGED <<cfg, fld, prev, n, started, rec>>

\* positions inside the grid
Inside == { q \in 1..(4 * N - 5) : Clear(q) }
Outside == {-9, -3, -1, 4 * N + 5, 4 * N + 9, 4 * N + 400}
\* a particle: charge, acceleration along (polarisation, magnetic direction, propagation), 5/gamma
Part(q, e, a, g, t, tr) == [q |-> q, e |-> e, a |-> a, g |-> g, t |-> t, tr |-> tr, c |-> e * a[1] * g]
Draw(Qs, Ts) == Part(CHOOSE q \in Pick(Qs) : TRUE, CHOOSE e \in Pick(Charges) : TRUE, CHOOSE a \in Pick(Accs) : TRUE,
                     CHOOSE g \in Pick({5, 4, 3}) : TRUE, CHOOSE t \in Pick(Ts) : TRUE, CHOOSE x \in Pick({0, 3, -7}) : TRUE)
Step ==
  /\ More /\ started /\ n < MaxStep
  /\ \E ps \in {TLCEval([k \in 1..cfg.np |-> Draw(Inside, {-1, 0, 1})])} :
       LET J == TLCEval([i \in Cells |-> SumSrc(ps, cfg.np, i)])
           f == TLCEval(Advance(fld, prev, J)) IN
       /\ Note([op |-> "step", ok |-> TRUE, nots |-> n, p |-> ps])
       /\ fld' = f /\ prev' = TLCEval(Corrected(fld, J)) /\ rec' = Record(f, J, n + 1)
       /\ n' = n + 1
  /\ UNCHANGED <<cfg, started, ph>>
\* beam at another step, a particle at another time, a particle off the grid
StepRefused ==
  /\ More /\ started /\ Rare
  /\ \E why \in Pick(Refusals \ {"init", "create"}), bad \in Pick(1..cfg.np) :
       \E ps \in {TLCEval([k \in 1..cfg.np |-> IF k = bad /\ why = "place" THEN Draw(Outside, {0})
                                       ELSE IF k = bad /\ why = "time" THEN Draw(Inside, {-8, -3, 3, 8})
                                       ELSE Draw(Inside, {0})])} :
         Note([op |-> "step", ok |-> FALSE, nots |-> IF why = "nots" THEN n + (CHOOSE d \in Pick({-1, 1, 5}) : TRUE) ELSE n, p |-> ps])
  /\ ph' = "done" /\ UNCHANGED <<cfg, fld, prev, n, started, rec>>

\* the field at a place (quarter cells behind the head) and time (eighths of a step from the present)
Probe ==
  /\ More /\ Rarity > 1
  /\ \E q \in Pick({ x \in (-9)..(4 * N + 8) : Clear(x) }), t \in Pick({-8, -3, -1, 0, 1, 3, 8}), tr \in Pick({0, 5, -11}) :
       LET ok == InTime(t) /\ Cell(q) \in Cells IN
       Note([op |-> "probe", ok |-> ok, q |-> q, t |-> t, tr |-> tr, f |-> IF ok THEN Out(fld[Cell(q)]) ELSE {}])
  /\ UNCHANGED <<cfg, fld, prev, n, started, rec, ph>>
\* all cells at the present
ProbeAll ==
  /\ More /\ Rarity > 1
  /\ Note([op |-> "all", ok |-> TRUE, f |-> OutRow(fld)])
  /\ UNCHANGED <<cfg, fld, prev, n, started, rec, ph>>
Write ==
  /\ More /\ cfg.log > 0 /\ Rarity > 1
  /\ Note([op |-> "write", ok |-> TRUE, rec |-> rec])
  /\ UNCHANGED <<cfg, fld, prev, n, started, rec, ph>>
\* the whole coupling as in a program run: particles at rest fall back one cell per step until they leave the grid
Run ==
  /\ More /\ ops = <<>> /\ ~started /\ cfg.seed = <<>> /\ (MaxOps > 1 => Rare)
  /\ \E ps \in {TLCEval([k \in 1..cfg.np |-> Draw({ q \in 1..(4 * N - 1) : Clear(q) /\ Cell(q) \in Cells }, {0})])} :
     \E steps \in Pick({3, N, 2 * N}) :
       LET last == CHOOSE m \in { ps[k].q : k \in 1..cfg.np } : \A k \in 1..cfg.np : ps[k].q <= m
           can == CHOOSE k \in 0..N : Cell(last + 4 * k) \in Cells /\ Cell(last + 4 * (k + 1)) \notin Cells IN
       Note([op |-> "run", ok |-> TRUE, p |-> ps, steps |-> steps, done |-> IF steps < can THEN steps ELSE can])
  /\ ph' = "done" /\ UNCHANGED <<cfg, fld, prev, n, started, rec>>
Stop == ph = "run" /\ (Len(ops) = MaxOps \/ n = MaxStep) /\ ph' = "done" /\ UNCHANGED <<cfg, fld, prev, n, started, rec, ops>>
Next == Create \/ CreateRefused \/ Start \/ StartRefused \/ Step \/ StepRefused \/ Probe \/ ProbeAll \/ Write \/ Run \/ Stop
Spec == Init /\ [][Next]_vars

(* ---- properties ---------------------------------------------------------------*)
\* without sources a packet that is zero in the first two cells stays where it is in the moving grid: as soon as no
\* source was ever seen, cells further back than the disturbance of the first two cells carry exactly the seed
Sources == UNION { { s \in DOMAIN fld[i] : s[1] >= 0 } : i \in DOMAIN fld }
Edge == {<<-1, 0>>, <<-1, 1>>}
CoMoving == ph # "new" /\ DOMAIN fld # {} /\ Sources = {} /\ cfg.seed # <<>> =>
   \A i \in Cells : i >= 2 => \A s \in DOMAIN fld[i] : s \notin Edge => s = <<-1, i>> /\ fld[i][s] = 1
\* light speed: a source cannot act ahead of itself: every symbol of step m in cell i stems from a cell at most one
\* cell ahead in the moving grid per step passed (cells ahead of the source move away from nothing faster than light)
Causal == ph # "new" => \A i \in DOMAIN fld : \A s \in DOMAIN fld[i] : s[1] >= 0 => s[1] < n
Lockstep == ph # "new" => n >= 0 /\ (started <=> n >= 1)
RecordSteps == ph # "new" => \A k \in 1..Len(rec) : rec[k].n = (k - 1) * (IF cfg.log > 0 THEN cfg.log ELSE 1)
\* size of the optical mode at step k, relative to the waist; arguments of the seed (cosine in periods, gaussian)
ModeAt(k) == <<cfg.mode[1] * cfg.mode[1] + (k - cfg.mode[2]) * (k - cfg.mode[2]), cfg.mode[1] * cfg.mode[1]>>
SeedAt(i) == IF cfg.seed = <<>> THEN <<>> ELSE << <<i - cfg.seed[2], cfg.seed[1]>>, <<i - cfg.seed[2], cfg.seed[3]>> >>
Emit == ph = "done" => PrintT(ToJson([cfg |-> cfg, ops |-> ops, size |-> [k \in 1..MaxStep |-> ModeAt(k)], amp |-> [i \in 1..N |-> SeedAt(i - 1)]]))
=============================================================================
