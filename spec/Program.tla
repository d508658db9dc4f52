------------------------------ MODULE Program ------------------------------
(* The tracking program as a system of P communicating processes: every one reads the input,   *)
(* the first one's beam is broadcast, consecutive chunks of particles are tracked by the       *)
(* processes, after every step the new coordinates are gathered into every process's copy of   *)
(* the complete beam (the source of the interaction fields and of the recorded output), and    *)
(* at the end the fields seen by the observers are summed over the processes.                   *)
(*                                                                                              *)
(* The state of a particle is the symbol [id, k, org]: particle id (position in the input)     *)
(* after k steps, drawn by process org (every process draws its own random numbers).  The      *)
(* collective operations are split into entering (contribute) and leaving (result available    *)
(* when everyone has entered), so the processes run freely between them.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Functions, SequencesExt

CONSTANTS Sim,              \* TRUE: configurations are drawn at random
          MaxP, MaxBunches, MaxSize, MaxSteps, MaxWatches, Intervals, Numbers, Observers

VARIABLES cfg, pc, round, own, master, tracked, mail, reduced, seen, records, files, fields

vars == <<cfg, pc, round, own, master, tracked, mail, reduced, seen, records, files, fields>>

Procs == 0..(cfg.P - 1)
SumSeq(s) == FoldSeq(+, 0, s)
NumPart == SumSeq(cfg.bunches)
(* particles per process, rounded up: the last processes may have less or none *)
Chunk == (NumPart + cfg.P - 1) \div cfg.P
Owner(i) == (i - 1) \div Chunk
Min2(a, b) == IF a < b THEN a ELSE b
BunchStart(b) == SumSeq(SubSeq(cfg.bunches, 1, b - 1))
BunchPart(b, s) == SubSeq(s, BunchStart(b) + 1, BunchStart(b) + cfg.bunches[b])
Pad == [id |-> 0, k |-> 0, org |-> 0]
Particle(i, k, org) == [id |-> i, k |-> k, org |-> org]
Whole(k) == [i \in 1..NumPart |-> Particle(i, k, 0)]

-----------------------------------------------------------------------------
(* configurations *)
OneOf(S) == CHOOSE x \in {RandomElement(S)} : TRUE
None == [step |-> 0, num |-> 0]
Requests == {None} \cup [step : Intervals, num : Numbers]

(* the argument (always zero) makes the expression depend on the state, so that it is drawn anew in every run *)
RandomCfg(zero) ==
    LET nb == OneOf((1 + zero)..MaxBunches)
        ns == OneOf(0..MaxSteps)
        nw == OneOf(0..MaxWatches)
        no == OneOf(0..4)
    IN  [ P |-> OneOf((1 + zero)..MaxP), bunches |-> [b \in 1..nb |-> OneOf(1..MaxSize)], nots |-> ns,
          watch |-> [w \in 1..nw |-> [step |-> OneOf(0..(ns + 2)), type |-> OneOf({"hdf5", "sdds"})]],
          log  |-> [b \in 1..nb |-> OneOf({0} \cup Intervals)],
          traj |-> [b \in 1..nb |-> OneOf(Requests)],
          probe |-> OneOf(Requests),
          obs |-> [o \in 1..no |-> OneOf(Observers)] ]

(* a systematic set for exhaustive checking *)
AllCfgs ==
    IF Sim THEN {} ELSE
    { [ P |-> p, bunches |-> bs, nots |-> n, watch |-> ws, log |-> [b \in 1..Len(bs) |-> l],
        traj |-> [b \in 1..Len(bs) |-> IF b = 1 THEN None ELSE t], probe |-> t, obs |-> <<"beam", "lattice">>] :
        p \in 1..MaxP, bs \in UNION {[1..nb -> 1..MaxSize] : nb \in 1..MaxBunches}, n \in 0..MaxSteps,
        ws \in {<<>>, <<[step |-> 1, type |-> "hdf5"], [step |-> 0, type |-> "sdds"]>>,
                <<[step |-> MaxSteps + 1, type |-> "hdf5"], [step |-> 2, type |-> "hdf5"], [step |-> 2, type |-> "sdds"]>>},
        l \in {0} \cup Intervals, t \in {None} \cup [step : Intervals, num : {2}] }

Setting(c) ==
    [ pc |-> [p \in 0..(c.P - 1) |-> "read"],
      round |-> [p \in 0..(c.P - 1) |-> 0],          \* number of completed steps
      none |-> [p \in 0..(c.P - 1) |-> <<>>],
      mail |-> [p \in 0..(c.P - 1) |-> <<<<>>, <<>>>>],  \* contributions to the last two gathers
      fields |-> [o \in 1..Len(c.obs) |-> [p \in 0..(c.P - 1) |-> <<>>]] ]

Start(c) ==
    LET s == Setting(c) IN
    /\ cfg = c /\ pc = s.pc /\ round = s.round
    /\ own = s.none /\ master = s.none /\ tracked = s.none
    /\ mail = s.mail
    /\ reduced = s.round                    \* number of observers this process has contributed to
    /\ seen = s.none                        \* what the interaction fields were given
    /\ records = <<>>                       \* logger records: [log, bunch, k, what]
    /\ files = <<>>                         \* watch points written, in order
    /\ fields = s.fields

NoCfg == [P |-> 0, bunches |-> <<>>, nots |-> 0, watch |-> <<>>, log |-> <<>>, traj |-> <<>>, probe |-> None, obs |-> <<>>]
Init == IF Sim THEN Start(NoCfg) ELSE \E c \in AllCfgs : Start(c)

(* a random configuration for every simulated run *)
Choose ==
    /\ cfg.P = 0
    /\ \E c \in {TLCEval(RandomCfg(cfg.P))} :
        LET s == Setting(c) IN
        /\ cfg' = c /\ pc' = s.pc /\ round' = s.round
        /\ own' = s.none /\ master' = s.none /\ tracked' = s.none
        /\ mail' = s.mail /\ reduced' = s.round /\ seen' = s.none /\ records' = <<>> /\ files' = <<>> /\ fields' = s.fields

-----------------------------------------------------------------------------
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]

(* every process creates the beam from the input with its own random numbers *)
Read(p) ==
    /\ pc[p] = "read"
    /\ own' = [own EXCEPT ![p] = [i \in 1..NumPart |-> Particle(i, 0, p)]]
    /\ Goto(p, "bcast")
    /\ UNCHANGED <<cfg, round, master, tracked, mail, reduced, seen, records, files, fields>>

(* the first process's coordinates replace everybody's *)
Broadcast(p) ==
    /\ pc[p] = "bcast"
    /\ own[0] # <<>>
    /\ master' = [master EXCEPT ![p] = own[0]]
    /\ Goto(p, "distribute")
    /\ UNCHANGED <<cfg, round, own, tracked, mail, reduced, seen, records, files, fields>>

(* the sequential distribution loop: walk over all particles, next process when a chunk is full *)
RECURSIVE Distribute(_, _, _, _)
Distribute(p, i, node, count) ==
    IF i > NumPart THEN <<>>
    ELSE LET rest == IF count + 1 = Chunk THEN Distribute(p, i + 1, node + 1, 0) ELSE Distribute(p, i + 1, node, count + 1)
         IN  (IF node = p THEN <<master[p][i]>> ELSE <<>>) \o rest

(* records of the loggers requested for step k (all of them at step 0); what the first process holds *)
TrajNum(b) == Min2(cfg.traj[b].num, cfg.bunches[b])
ProbeNum == Min2(cfg.probe.num, Len(tracked'[0]))
LogRecords(k) ==
    LET bs == 1..Len(cfg.bunches)
        due(s) == s > 0 /\ (k = 0 \/ k % s = 0)
        logs == FlattenSeq([b \in bs |-> IF due(cfg.log[b]) THEN <<[log |-> "log", bunch |-> b, k |-> k, what |-> BunchPart(b, master'[0])]>> ELSE <<>>])
        trajs == FlattenSeq([b \in bs |-> IF due(cfg.traj[b].step) THEN <<[log |-> "traj", bunch |-> b, k |-> k, what |-> SubSeq(BunchPart(b, master'[0]), 1, TrajNum(b))]>> ELSE <<>>])
        probe == IF due(cfg.probe.step) THEN <<[log |-> "probe", bunch |-> 0, k |-> k, what |-> SubSeq(tracked'[0], 1, ProbeNum)]>> ELSE <<>>
    IN  logs \o trajs \o probe
WatchFiles(k) ==
    FlattenSeq([w \in 1..Len(cfg.watch) |-> IF cfg.watch[w].step = k THEN <<[watch |-> w, k |-> k, what |-> master'[0]]>> ELSE <<>>])

StepDone(p, k) ==
    IF p = 0 THEN records' = records \o LogRecords(k) /\ files' = files \o WatchFiles(k)
    ELSE UNCHANGED <<records, files>>

Setup(p) ==
    /\ pc[p] = "distribute"
    /\ tracked' = [tracked EXCEPT ![p] = Distribute(p, 1, 0, 0)]
    /\ master' = master
    /\ StepDone(p, 0)
    /\ seen' = [seen EXCEPT ![p] = <<master[p]>>]
    /\ Goto(p, IF cfg.nots = 0 THEN "observe" ELSE "step")
    /\ UNCHANGED <<cfg, round, own, mail, reduced, fields>>

(* track one's own particles by one step; the fields they see depend on what the interactions were given *)
DoStep(p) ==
    /\ pc[p] = "step"
    /\ Len(seen[p]) = round[p] + 1
    /\ tracked' = [tracked EXCEPT ![p] = [j \in DOMAIN @ |-> [@[j] EXCEPT !.k = @ + 1]]]
    /\ Goto(p, "contribute")
    /\ UNCHANGED <<cfg, round, own, master, mail, reduced, seen, records, files, fields>>

Contribute(p) ==
    /\ pc[p] = "contribute"
    /\ mail' = [mail EXCEPT ![p][1 + (round[p] % 2)] = tracked[p] \o [j \in 1..(Chunk - Len(tracked[p])) |-> Pad]]
    /\ round' = [round EXCEPT ![p] = @ + 1]
    /\ Goto(p, "gather")
    /\ UNCHANGED <<cfg, own, master, tracked, reduced, seen, records, files, fields>>

(* leave the gather when everyone has contributed to this round *)
Gather(p) ==
    /\ pc[p] = "gather"
    /\ \A q \in Procs : round[q] >= round[p]
    /\ LET all == FlattenSeq([q \in 1..cfg.P |-> mail[q - 1][1 + ((round[p] - 1) % 2)]])
       IN  master' = [master EXCEPT ![p] = SubSeq(all, 1, NumPart)]
    /\ tracked' = tracked
    /\ StepDone(p, round[p])
    /\ seen' = [seen EXCEPT ![p] = Append(@, master'[p])]
    /\ Goto(p, IF round[p] < cfg.nots THEN "step" ELSE "observe")
    /\ UNCHANGED <<cfg, round, own, mail, reduced, fields>>

(* fields of the beam: every process integrates those of its own particles; fields of the lattice *)
(* exist once, the first process alone integrates them                                            *)
Observe(p) ==
    /\ pc[p] = "observe"
    /\ reduced[p] < Len(cfg.obs)
    /\ LET o == reduced[p] + 1 IN
       fields' = [fields EXCEPT ![o][p] = IF cfg.obs[o] = "beam" THEN [j \in DOMAIN tracked[p] |-> tracked[p][j].id]
                                          ELSE IF p = 0 THEN <<"lattice">> ELSE <<>>]
    /\ reduced' = [reduced EXCEPT ![p] = @ + 1]
    /\ Goto(p, "reduce")
    /\ UNCHANGED <<cfg, round, own, master, tracked, mail, seen, records, files>>

Reduce(p) ==
    /\ pc[p] = "reduce"
    /\ p # 0 \/ \A q \in Procs : reduced[q] >= reduced[p]      \* the sum is available at the first process
    /\ Goto(p, "observe")
    /\ UNCHANGED <<cfg, round, own, master, tracked, mail, reduced, seen, records, files, fields>>

Finish(p) ==
    /\ pc[p] = "observe"
    /\ reduced[p] = Len(cfg.obs)
    /\ Goto(p, "done")
    /\ UNCHANGED <<cfg, round, own, master, tracked, mail, reduced, seen, records, files, fields>>

Act(p) == Read(p) \/ Broadcast(p) \/ Setup(p) \/ DoStep(p) \/ Contribute(p) \/ Gather(p) \/ Observe(p) \/ Reduce(p) \/ Finish(p)
Done == cfg.P > 0 /\ \A p \in Procs : pc[p] = "done"
Stop == Done /\ UNCHANGED vars
(* the input is read and the communication buffers are sized before anything is shared; steps of  *)
(* different processes on their own data commute                                                   *)
Next == (\E p \in Procs : Act(p)) \/ Stop
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Choose \/ \E p \in Procs : Act(p)]_vars
LiveSpec == Spec /\ \A p \in 0..(MaxP - 1) : WF_vars(p \in Procs /\ Act(p))

-----------------------------------------------------------------------------
(* properties *)
AllReady == cfg.P > 0 /\ \A p \in Procs : pc[p] \notin {"read", "bcast", "distribute"}

(* every particle is tracked by exactly one process, in the order of the beam *)
Partition == AllReady =>
    /\ \A i \in 1..NumPart : \E p \in Procs : (p = Owner(i)) /\ Cardinality({j \in DOMAIN tracked[p] : tracked[p][j].id = i}) = 1
    /\ SumSeq([q \in 1..cfg.P |-> Len(tracked[q - 1])]) = NumPart

(* after the gather of round k every process holds all particles after k steps at their places *)
(* (checked when it is appended) *)
Gathered == \A p \in Procs : seen[p] # <<>> => Last(seen[p]) = Whole(Len(seen[p]) - 1)

(* no process is more than one step ahead *)
Lockstep == \A p, q \in Procs : (round[p] # 0 /\ round[q] # 0) => round[p] <= round[q] + 1

(* contents of the records *)
RecordsRight ==
    /\ \A r \in DOMAIN records : \A j \in DOMAIN records[r].what : records[r].what[j].k = records[r].k /\ records[r].what[j].org = 0
    /\ \A r \in DOMAIN records : records[r].log = "log" => records[r].what = BunchPart(records[r].bunch, Whole(records[r].k))
    /\ \A f \in DOMAIN files : files[f].what = Whole(files[f].k)

(* at the end: exactly the requested output *)
Logged(kind, b) == SelectSeq(records, LAMBDA r : r.log = kind /\ r.bunch = b)
Multiples(s) == IF s = 0 THEN <<>> ELSE [j \in 1..(1 + (cfg.nots \div s)) |-> (j - 1) * s]
StepsOf(rs) == [j \in DOMAIN rs |-> rs[j].k]
Complete == Done =>
    /\ \A b \in DOMAIN cfg.bunches : /\ StepsOf(Logged("log", b)) = Multiples(cfg.log[b])
                                     /\ StepsOf(Logged("traj", b)) = Multiples(cfg.traj[b].step)
    /\ StepsOf(Logged("probe", 0)) = Multiples(cfg.probe.step)
    /\ \A w \in DOMAIN cfg.watch : Cardinality({f \in DOMAIN files : files[f].watch = w}) = (IF cfg.watch[w].step <= cfg.nots THEN 1 ELSE 0)
    /\ \A p \in Procs : round[p] = cfg.nots
(* the sums of the observed fields contain every particle / the lattice exactly once *)
SumAll(o) == FlattenSeq([q \in 1..cfg.P |-> fields[o][q - 1]])
FieldsOnce == Done =>
    \A o \in DOMAIN cfg.obs : SumAll(o) = IF cfg.obs[o] = "beam" THEN [i \in 1..NumPart |-> i] ELSE <<"lattice">>

AtEnd == Done => RecordsRight /\ Partition

Terminates == <>Done

-----------------------------------------------------------------------------
Expected == [ cfg |-> cfg, chunk |-> Chunk, tracked |-> [q \in 1..cfg.P |-> Len(tracked[q - 1])],
              files |-> [w \in DOMAIN cfg.watch |->
                  LET fs == SelectSeq(files, LAMBDA f : f.watch = w) IN [j \in DOMAIN fs |-> [k |-> fs[j].k, ids |-> [i \in DOMAIN fs[j].what |-> fs[j].what[i].id]]]],
              log |-> [b \in DOMAIN cfg.bunches |-> StepsOf(Logged("log", b))],
              traj |-> [b \in DOMAIN cfg.bunches |-> [steps |-> StepsOf(Logged("traj", b)),
                                                      ids |-> IF cfg.traj[b].step = 0 THEN <<>> ELSE [j \in 1..TrajNum(b) |-> BunchStart(b) + j]]],
              probe |-> [steps |-> StepsOf(Logged("probe", 0)),
                         ids |-> IF cfg.probe.step = 0 THEN <<>> ELSE [j \in 1..Min2(cfg.probe.num, NumPart) |-> j],
                         impl |-> IF cfg.probe.step = 0 THEN <<>> ELSE [j \in 1..Min2(cfg.probe.num, Len(tracked[0])) |-> j]],
              obs |-> [o \in DOMAIN cfg.obs |-> SumAll(o)] ]
Emit == Done => PrintT(ToJson(Expected))
=============================================================================
