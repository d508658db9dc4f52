------------------------------- MODULE Input -------------------------------
(***************************************************************************)
(* The input file and its interpretation (C10).  The state machine is the   *)
(* interpreter: it walks through the document in processing order (the      *)
(* definitions directly under the root, then the sections lattice, beam,    *)
(* tracking and observer) carrying the environment of variables, and        *)
(* decides for every attribute the expression found there and its value at  *)
(* that moment.  The behaviour is a complete document together with its     *)
(* meaning: the values of every object to be created, the printed values    *)
(* in order and, for a document carrying a defect, the section which has to  *)
(* refuse it.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Names,        \* variable names
          Lits,         \* literals
          Units,        \* names of predefined constants
          Forms,        \* expression forms
          Kinds,        \* object kinds to use
          MaxItems,     \* per section
          MaxCalc,      \* definitions in one place
          Defective,    \* whether a defect is planted
          Sim
VARIABLES sure,         \* printouts which must appear: a refused object need not evaluate its definitions
          phase,        \* index into Order of the section being interpreted, 0 = root, 5 = finished
          n,            \* items so far in the section
          env, cur, doc, log, k, perm, rej
vars == <<sure, phase, n, env, cur, doc, log, k, perm, rej>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Order == <<"lattice", "beam", "tracking", "observer">>
NONE == [kind |-> "none"]

----------------------------------------------------------------------------
(* Grammar: for every kind the evaluation order of its attributes.          *)
(* <<path, class, group>>: class of admissible values, optional group       *)
R(p, c) == <<p, c, "">>
G(p, c, g) == <<p, c, g>>
Vec(p, cx, cy, cz) == <<R(p \o "/x", cx), R(p \o "/y", cy), R(p \o "/z", cz)>>
VecG(p, cx, cy, cz, g) == <<G(p \o "/x", cx, g), G(p \o "/y", cy, g), G(p \o "/z", cz, g)>>
V3(p) == Vec(p, "any", "any", "any")
C0 == <<R("", "calc")>>
Corr == <<G("correlations", "calc", "corr"),
          G("correlations/linear#1/indep", "idx", "corr"), G("correlations/linear#1/dep", "idx", "corr"), G("correlations/linear#1/factor", "any", "corr"),
          G("correlations/linear#2/indep", "idx", "corr2"), G("correlations/linear#2/dep", "idx", "corr2"), G("correlations/linear#2/factor", "any", "corr2")>>
Log == <<G("log/file", "file", "log"), G("log/step", "cnt", "logstep")>>
Src == <<G("source", "src", "src")>>
Rows(kind) ==
  CASE kind = "planar" -> C0 \o V3("position") \o <<R("field/B", "any"), R("field/period", "pos"), R("field/N", "cnt")>>
    [] kind = "tgu" -> C0 \o V3("position") \o <<R("field/B", "any"), R("field/kx", "any"), G("field/modulation", "any", "mod"), R("field/period", "pos"), R("field/N", "cnt")>>
    [] kind = "wave" -> C0 \o V3("position") \o <<R("field/ReA", "any"), R("field/ImA", "any"), R("field/lambda", "pos"), R("field/rayleigh", "pos")>>
    [] kind = "packet" -> C0 \o V3("position") \o <<R("position/t", "any"), R("field/ReA", "any"), R("field/ImA", "any"), R("field/lambda", "pos"), R("field/rayleigh", "pos"), R("field/tau", "pos")>>
    [] kind = "source" -> <<R("file", "screenfile")>> \o C0 \o V3("position") \o <<R("position/t", "any")>>
    [] kind = "hard" -> C0 \o V3("B") \o V3("p1") \o V3("n1") \o V3("p2") \o V3("n2")
    [] kind = "soft" -> C0 \o V3("B") \o V3("p1") \o V3("n1") \o V3("p2") \o V3("n2") \o <<R("transition/l1", "pos"), R("transition/l2", "pos")>>
    [] kind = "background" -> C0 \o VecG("E", "any", "any", "any", "E") \o VecG("B", "any", "any", "any", "B")
    [] kind = "particle" -> C0 \o <<R("gamma", "gam"), R("charge", "chg"), R("cmr", "nz"), G("time/t0", "any", "time")>> \o V3("position") \o Vec("momentum", "any", "any", "pos") \o Log
    [] kind = "bunch" -> C0 \o <<R("gamma", "gam"), R("charge", "chg"), R("cmr", "nz"), R("n", "cnt"),
                                G("time", "calc", "time"), G("time/t0", "any", "time"),
                                R("position", "calc")>> \o V3("position") \o
                         <<G("position/xrms", "pos", "xrms"), G("position/yrms", "pos", "yrms"), G("position/zrms", "pos", "zrms"), G("position/zft", "pos", "zft"),
                           R("momentum", "calc")>> \o Vec("momentum", "any", "any", "pos") \o
                         <<G("momentum/xrms", "pos", "xprms"), G("momentum/yrms", "pos", "yprms"), G("momentum/delta", "pos", "delta")>> \o Corr \o Log \o
                         <<G("log/bunching-freq", "pos", "bf"), G("trajectories/file", "file", "traj"), G("trajectories/step", "cnt", "trajstep"), G("trajectories/particles", "cnt", "trajpart")>>
    [] kind = "SDDS" -> <<R("file", "sddsfile")>> \o C0 \o <<G("dir", "calc", "dir")>> \o VecG("dir", "any", "any", "pos", "dir") \o Corr \o Log \o <<G("log/bunching-freq", "pos", "bf")>>
    [] kind = "probe" -> <<R("file", "file"), G("step", "cnt", "probestep"), G("number", "cnt", "number")>>
    [] kind = "tracking" -> <<R("delta_t", "pos"), R("n", "rint")>>
    [] kind = "fel1d" -> C0 \o <<R("N", "rint")>> \o V3("position") \o Vec("prop", "any", "any", "pos") \o Vec("pol", "pos", "any", "zero") \o
                         <<G("log/file", "file", "log"), G("log/step", "cnt", "logstep"), R("mode/zR", "pos"), R("mode/w0", "pos"), R("mode/zwaist", "any"),
                           G("seed/E0", "any", "seed"), G("seed/lambda", "posc", "seed"), G("seed/tau", "pos", "seed"), G("seed/tstart", "any", "seed")>>
    [] kind \in {"watch", "watch-sdds"} -> <<R("step", "rint"), R("file", "file")>>
    [] kind = "snapshot" -> <<R("file", "file")>> \o C0 \o <<R("time/t0", "any")>> \o V3("position") \o V3("hpitch") \o <<R("hpitch/n", "cnt")>> \o V3("vpitch") \o <<R("vpitch/n", "cnt")>> \o Src
    [] kind = "screen" -> <<R("file", "file")>> \o C0 \o V3("position") \o V3("hpitch") \o <<G("hpitch/dt", "any", "dtx"), R("hpitch/n", "cnt")>> \o V3("vpitch") \o
                          <<G("vpitch/dt", "any", "dty"), R("vpitch/n", "cnt"), R("time/t0", "any"), R("time/dt", "pos"), R("time/n", "cnt")>> \o Src
    [] kind = "mesh" -> <<R("file", "meshfile")>> \o C0 \o Src
    [] kind = "point" -> <<R("file", "file")>> \o C0 \o V3("position") \o <<R("time/t0", "any"), R("time/dt", "pos"), R("time/n", "cnt")>> \o Src
    [] OTHER -> <<>>
Groups(kind) == {r[3] : r \in ToSet(Rows(kind))} \ {""}
\* optional attributes which only exist together with others
Implies == {<<"logstep", "log">>, <<"bf", "log">>, <<"trajstep", "traj">>, <<"trajpart", "traj">>, <<"corr2", "corr">>}
GoodGroups(gs) == \A d \in Implies : d[1] \in gs => d[2] \in gs
KindsOf(sec) == CASE sec = "lattice" -> {"planar", "tgu", "wave", "packet", "source", "hard", "soft", "background"}
                  [] sec = "beam" -> {"particle", "bunch", "SDDS", "probe"}
                  [] sec = "tracking" -> {"fel1d", "watch", "watch-sdds"}
                  [] sec = "observer" -> {"snapshot", "screen", "mesh", "point"}
                  [] OTHER -> {}
\* what must not be missing: every child or attribute whose absence, or replacement by something unknown, makes the input illegal
Defects(kind) ==
  CASE kind = "planar" \/ kind = "tgu" \/ kind = "wave" \/ kind = "packet" -> {"drop position", "drop field", "type"}
    [] kind = "source" -> {"drop file", "drop position"}
    [] kind = "hard" -> {"drop B", "drop p1", "drop n1", "drop p2", "drop n2", "type"}
    [] kind = "soft" -> {"drop B", "drop p1", "drop n1", "drop p2", "drop n2", "drop transition", "type"}
    [] kind = "particle" -> {"drop position", "drop momentum", "drop log/file"}
    [] kind = "bunch" -> {"drop position", "drop momentum", "drop log/file", "drop trajectories/file", "drop correlations/linear#1/indep", "drop correlations/linear#1/dep",
                          "drop correlations/linear#1/factor", "drop correlations/linear#2/factor", "correlation"}
    [] kind = "SDDS" -> {"drop file", "drop log/file", "drop correlations/linear#1/indep", "drop correlations/linear#2/dep", "drop correlations/linear#1/factor", "correlation"}
    [] kind = "probe" -> {"drop file"}
    [] kind = "tracking" -> {"drop delta_t", "drop n", "method", "nomethod"}
    [] kind = "fel1d" -> {"drop N", "drop position", "drop prop", "drop pol", "drop mode", "drop log/file"}
    [] kind \in {"watch", "watch-sdds"} -> {"drop step", "drop file"}
    [] kind = "snapshot" -> {"drop file", "drop time", "drop position", "drop hpitch", "drop vpitch", "drop hpitch/n", "drop vpitch/n", "source"}
    [] kind = "screen" -> {"drop file", "drop time", "drop position", "drop hpitch", "drop vpitch", "drop hpitch/n", "drop vpitch/n", "drop time/n", "source"}
    [] kind = "mesh" -> {"drop file", "source", "nofile"}
    [] kind = "point" -> {"drop file", "drop time", "drop position", "drop time/n", "source"}
    [] OTHER -> {}
\* a defect needs the part it concerns
Needs(d) == CASE d = "drop log/file" -> {"log"} [] d = "drop trajectories/file" -> {"traj"} [] d \in {"drop correlations/linear#1/indep", "drop correlations/linear#1/dep", "drop correlations/linear#1/factor", "correlation"} -> {"corr"}
              [] d \in {"drop correlations/linear#2/factor", "drop correlations/linear#2/dep"} -> {"corr", "corr2"} [] d = "source" -> {"src"} [] OTHER -> {}
SectionDefects == {"missing", "unknown"}      \* the section is missing, an unknown element in it

----------------------------------------------------------------------------
(* Expressions: text and value.  A value is n times the predefined constant  *)
(* u ("1": the plain number).  An expression which cannot be evaluated        *)
(* counts as zero and is reported.                                           *)
Undef == [n |-> 0, u |-> "none"]
Val(i) == [n |-> i, u |-> "1"]
Bad(x, tok) == [x |-> x, v |-> Val(0), ok |-> FALSE, tok |-> tok]
Good(x, v) == [x |-> x, v |-> v, ok |-> TRUE, tok |-> ""]
Num(i) == IF i < 0 THEN "(" \o ToString(i) \o ")" ELSE ToString(i)
Atoms == {Good(Num(i), Val(i)) : i \in Lits} \cup {Good(a, env[a]) : a \in {b \in Names : env[b].u = "1"}}
Abs(i) == IF i < 0 THEN -i ELSE i
Make(f, a, b, c) ==
  LET i == a.v.n  j == b.v.n  l == c.v.n
      r == CASE f = "atom" -> Good(a.x, a.v)
             [] f = "add" -> Good(a.x \o "+" \o b.x, Val(i + j))
             [] f = "sub" -> Good(a.x \o " - " \o b.x, Val(i - j))
             [] f = "mul" -> Good(a.x \o "*" \o b.x, Val(i * j))
             [] f = "prec" -> Good(a.x \o "+" \o b.x \o "*" \o c.x, Val(i + (j * l)))
             [] f = "left" -> Good(a.x \o "-" \o b.x \o "-" \o c.x, Val((i - j) - l))
             [] f = "paren" -> Good("(" \o a.x \o "+" \o b.x \o ")*" \o c.x, Val((i + j) * l))
             [] f = "neg" -> Good("-" \o a.x, Val(0 - i))
             [] f = "half" -> Good("(" \o a.x \o "+" \o a.x \o ")/2", Val(i))
             [] f = "root" -> Good("sqrt(" \o a.x \o "*" \o a.x \o ")", Val(Abs(i)))
             [] f = "cond" -> Good("(" \o a.x \o "<" \o b.x \o ") ? " \o c.x \o " : " \o b.x, Val(IF i < j THEN l ELSE j))
             [] OTHER -> Good(a.x, a.v)
  IN IF Abs(r.v.n) > 200 THEN Good(a.x, a.v) ELSE r
\* n times a predefined constant, a variable holding such a value
Special(f, a, u, nm, tok) ==
  CASE f = "const" -> Good("(" \o a.x \o ")*" \o u, [n |-> a.v.n, u |-> u])
    [] f = "name" -> IF env[nm].u = "none" THEN Bad(nm, "") ELSE Good(nm, env[nm])
    [] f = "undef" -> Bad("u" \o tok \o "+1", "u" \o tok)
    [] f = "syntax" -> Bad("3+*q" \o tok, "q" \o tok)
    [] OTHER -> Good(a.x, a.v)
\* the expressions to be tried at a place where a value of the class is expected
OfClass(cl, f, a, b, c, u, nm, tok) ==
  LET e == Make(f, a, b, c)  s == Special(f, a, u, nm, tok)  v == e.v.n IN
  CASE cl = "any" -> IF f \in {"const", "name", "undef", "syntax"} THEN s ELSE e
    [] cl = "pos" -> Good("(" \o e.x \o ")*(" \o e.x \o ")+1", Val((v * v) + 1))
    [] cl = "posc" -> Good("((" \o e.x \o ")*(" \o e.x \o ")+1)*_c", [n |-> (v * v) + 1, u |-> "_c"])
    [] cl = "gam" -> Good("2+(" \o e.x \o ")*(" \o e.x \o ")", Val((v * v) + 2))
    [] cl = "chg" -> IF f \in {"neg", "sub"} THEN Good("-((" \o e.x \o ")*(" \o e.x \o ")+1)*_e", [n |-> -((v * v) + 1), u |-> "_e"])
                     ELSE Good("((" \o e.x \o ")*(" \o e.x \o ")+1)*_e", [n |-> (v * v) + 1, u |-> "_e"])
    [] cl = "nz" -> IF v = 0 THEN Good("-3", Val(-3)) ELSE e
    [] cl = "rint" -> IF f = "add" THEN Good("abs(" \o e.x \o ")+2.25", Val(Abs(v) + 2)) ELSE IF f = "sub" THEN Good("abs(" \o e.x \o ")+1.75", Val(Abs(v) + 2)) ELSE Good("abs(" \o e.x \o ")+2", Val(Abs(v) + 2))
    [] cl = "idx" -> IF v \in 0..5 THEN e ELSE Good(ToString(v % 6), Val(v % 6))
    [] cl = "cnt" -> Good(ToString((Abs(v) % 4) + 1), Val((Abs(v) % 4) + 1))
    [] cl = "zero" -> Good("0", Val(0))
    [] cl = "src" -> IF f \in {"neg", "sub", "mul", "left", "cond", "name"} THEN Good("lattice", Val(1)) ELSE Good("beam", Val(0))
    [] OTHER -> Good(cl \o tok, Val(0))        \* file names
CalcClass == {"any"}
Exprs(cl) == LET A == Atoms IN
             IF cl \in {"file", "screenfile", "sddsfile", "meshfile", "zero"} THEN {OfClass(cl, "atom", Good("1", Val(1)), Good("1", Val(1)), Good("1", Val(1)), "_c", "a", ToString(k))}
             ELSE IF Sim THEN UNION { {OfClass(cl, f, a, b, c, u, nm, ToString(k)) : c \in Pick(A), u \in Pick(Units), nm \in Pick(Names)} : f \in Pick(Forms), a \in Pick(A), b \in Pick(A) }
             ELSE {OfClass(cl, f, a, a, a, u, nm, ToString(k)) : f \in Forms, a \in A, u \in Units, nm \in Names}

----------------------------------------------------------------------------
Open == cur.kind # "none"
AllRows == Rows(cur.kind)
Present(r) == r[3] = "" \/ r[3] \in cur.gs
RECURSIVE NextRow(_, _, _)
NextRow(rows, gs, i) == IF i > Len(rows) THEN i ELSE IF rows[i][3] = "" \/ rows[i][3] \in gs THEN i ELSE NextRow(rows, gs, i + 1)
New(kind, gs, df) == [kind |-> kind, gs |-> gs, df |-> df, row |-> NextRow(Rows(kind), gs, 1), nc |-> 0, attrs |-> <<>>, calcs |-> <<>>]

\* a definition and / or printout: the effect on variables, the log and the tokens
Calc(e, var, prt) == [x |-> e.x, ok |-> e.ok, tok |-> e.tok, var |-> var, print |-> IF prt THEN "p" \o ToString(k) ELSE ""]
Effect(e, var, prt) ==
  /\ env' = IF var # "" /\ e.ok THEN [env EXCEPT ![var] = e.v] ELSE env
  /\ log' = IF prt /\ e.ok THEN Append(log, [tag |-> "p" \o ToString(k), v |-> e.v]) ELSE log
  /\ sure' = IF Open /\ cur.df # "" THEN sure ELSE Len(log')
  /\ k' = k + 1

\* definition as an item of a section or directly under the root
DefineItem ==
  /\ phase \in 0..4 /\ ~Open /\ n < MaxItems /\ rej = "" /\ MaxCalc > 0
  /\ phase = 3 => \E i \in 1..Len(doc) : doc[i].kind = "tracking"
  /\ \E e \in Exprs("any"), var \in Pick(Names \cup {""}), prt \in Pick(BOOLEAN), slot \in Pick(0..4) :
       /\ var # "" \/ prt
       /\ Effect(e, var, prt)
       /\ doc' = Append(doc, [kind |-> "calc", sec |-> phase, slot |-> slot, c |-> Calc(e, var, prt)])
  /\ n' = n + 1
  /\ UNCHANGED <<phase, cur, perm, rej>>
\* start with an object
OpenItem ==
  /\ phase \in 1..4 /\ ~Open /\ n < MaxItems /\ rej = ""
  /\ phase = 3 => \E i \in 1..Len(doc) : doc[i].kind = "tracking"
  /\ \E kind \in Pick(KindsOf(Order[phase]) \cap Kinds) : \E df \in IF ~Defective THEN {""} ELSE IF Sim THEN Pick(Defects(kind) \cup {""}) ELSE Defects(kind) :
     \E gs \in IF Sim THEN Pick({g \in SUBSET Groups(kind) : GoodGroups(g)}) ELSE {Needs(df)} :
       /\ Needs(df) \subseteq gs
       /\ cur' = New(kind, gs, df)
  /\ UNCHANGED <<sure, phase, n, env, doc, log, k, perm, rej>>
\* the attributes of the tracking section itself come first
OpenTracking ==
  /\ phase = 3 /\ ~Open /\ ~\E i \in 1..Len(doc) : doc[i].kind = "tracking"
  /\ \E df \in IF Defective THEN Pick(Defects("tracking") \cup {""}) ELSE {""} : cur' = New("tracking", {}, IF rej = "" THEN df ELSE "")
  /\ UNCHANGED <<sure, phase, n, env, doc, log, k, perm, rej>>
More == cur.row <= Len(AllRows)
Row == AllRows[cur.row]
InnerCalc ==
  /\ Open /\ More /\ Row[2] = "calc" /\ cur.nc < MaxCalc
  /\ \E e \in Exprs("any"), var \in Pick(Names \cup {""}), prt \in Pick(BOOLEAN) :
       /\ var # "" \/ prt
       /\ Effect(e, var, prt)
       /\ cur' = [cur EXCEPT !.nc = @ + 1, !.calcs = Append(@, Calc(e, var, prt) @@ [place |-> Row[1]])]
  /\ UNCHANGED <<phase, n, doc, perm, rej>>
Advance == NextRow(AllRows, cur.gs, cur.row + 1)
DoneCalc ==
  /\ Open /\ More /\ Row[2] = "calc"
  /\ cur' = [cur EXCEPT !.row = Advance, !.nc = 0]
  /\ UNCHANGED <<sure, phase, n, env, doc, log, k, perm, rej>>
Attribute ==
  /\ Open /\ More /\ Row[2] # "calc"
  /\ \E e \in Exprs(Row[2]) :
       cur' = [cur EXCEPT !.row = Advance, !.attrs = Append(@, [p |-> Row[1], x |-> e.x, v |-> e.v, ok |-> e.ok, tok |-> e.tok])]
  /\ k' = k + 1
  /\ UNCHANGED <<sure, phase, n, env, doc, log, perm, rej>>
Close ==
  /\ Open /\ ~More
  /\ doc' = Append(doc, [kind |-> cur.kind, sec |-> phase, attrs |-> cur.attrs, calcs |-> cur.calcs, gs |-> cur.gs, df |-> cur.df])
  /\ cur' = NONE
  /\ n' = IF cur.kind = "tracking" THEN n ELSE n + 1
  /\ rej' = IF cur.df # "" THEN Order[phase] ELSE rej
  /\ UNCHANGED <<sure, phase, env, log, k, perm>>
\* a defect of the section as such; nothing behind it is interpreted
SectionDefect ==
  /\ Defective /\ phase \in 1..4 /\ ~Open /\ rej = ""
  /\ phase = 3 => \E i \in 1..Len(doc) : doc[i].kind = "tracking"
  /\ \E df \in Pick(SectionDefects) :
       /\ doc' = Append(doc, [kind |-> "section", sec |-> phase, df |-> df])
       /\ df = "missing" => ~\E i \in 1..Len(doc) : doc[i].sec = phase /\ doc[i].kind # "tracking"
  /\ rej' = Order[phase]
  /\ UNCHANGED <<sure, phase, n, env, cur, log, k, perm>>
NextSection ==
  /\ phase < 5 /\ ~Open
  /\ phase = 3 => \E i \in 1..Len(doc) : doc[i].kind = "tracking"
  /\ phase' = IF rej # "" THEN 5 ELSE phase + 1
  /\ n' = 0
  /\ UNCHANGED <<sure, env, cur, doc, log, k, perm, rej>>
Init == /\ sure = 0 /\ phase = 0 /\ n = 0 /\ env = [a \in Names |-> Undef] /\ cur = NONE /\ doc = <<>> /\ log = <<>> /\ k = 1 /\ rej = ""
        /\ perm \in IF ~Sim THEN {Order} ELSE Pick(SetToAllKPermutations({"lattice", "beam", "tracking", "observer"}) \cap [1..4 -> {"lattice", "beam", "tracking", "observer"}])
Next == DefineItem \/ OpenItem \/ OpenTracking \/ InnerCalc \/ DoneCalc \/ Attribute \/ Close \/ SectionDefect \/ NextSection
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* The meaning of the variables and of the log depends only on the definitions, never on the objects
RECURSIVE CalcsOf(_)
CalcsOf(d) == IF d = <<>> THEN <<>> ELSE LET i == Head(d) IN (IF i.kind = "calc" THEN <<i.c>> ELSE IF i.kind = "section" THEN <<>> ELSE i.calcs) \o CalcsOf(Tail(d))
AllCalcs == CalcsOf(doc) \o (IF Open THEN cur.calcs ELSE <<>>)
LogIsPrints == LET c == SelectSeq(AllCalcs, LAMBDA x : x.print # "" /\ x.ok) IN
               /\ Len(log) = Len(c) /\ \A i \in 1..Len(c) : c[i].print = log[i].tag
Assigned == \A a \in Names : env[a].u # "none" <=> \E i \in 1..Len(AllCalcs) : AllCalcs[i].var = a /\ AllCalcs[i].ok
\* a variable once defined stays defined
Monotone == [][\A a \in Names : env[a].u # "none" => env'[a].u # "none"]_vars
\* only one defect, and nothing is interpreted behind it
OneDefect == Cardinality({i \in 1..Len(doc) : doc[i].kind # "calc" /\ doc[i].df # ""}) <= 1
Ordered == \A i, j \in 1..Len(doc) : i < j => doc[i].sec <= doc[j].sec
RefusedLast == rej # "" => ~\E i \in 1..Len(doc) : doc[i].sec > phase
SureIsPrefix == sure <= Len(log) /\ (sure < Len(log) => (rej # "" \/ (Open /\ cur.df # "")))
Emit == phase = 5 => PrintT(ToJson([doc |-> doc, log |-> log, sure |-> sure, rej |-> rej, perm |-> perm]))
=============================================================================
