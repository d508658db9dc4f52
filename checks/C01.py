import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

INV = "INVARIANTS Partition Gathered Lockstep RecordsRight Complete FieldsOnce"
CFG = "SPECIFICATION Spec\n" + INV + "\nCHECK_DEADLOCK TRUE\n"
SIM = "SPECIFICATION SimSpec\nINVARIANTS Gathered AtEnd Complete FieldsOnce Emit\nCHECK_DEADLOCK FALSE\n"
BASE = dict(Sim="TRUE", MaxP="6", MaxBunches="4", MaxSize="4", MaxSteps="9", MaxWatches="3", Intervals="1..4", Numbers="{1, 2, 50}", Observers='{"beam", "lattice"}')


def check(c):
    prog = Program(c)
    # all interleavings of small configurations, and termination
    k = dict(BASE, Sim="FALSE", MaxP="3", MaxBunches="2", MaxSize="2", MaxSteps=str(c.scale(1, 2)), Intervals=c.scale("{1}", "{1, 2}"), Numbers="{2}")
    r = c.tlc("Program", CFG, consts=k, timeout=800)
    c.log("all interleavings: %d states" % r.distinct)
    k = dict(k, MaxP="2", MaxBunches="2", MaxSize="1", MaxSteps="1", Intervals="{1}")
    r = c.tlc("Program", "SPECIFICATION LiveSpec\nPROPERTIES Terminates\n", consts=k, timeout=800)
    c.log("termination: %d states" % r.distinct)
    # random configurations of the model, run by the program
    r = c.tlc("Program", SIM, consts=BASE, simulate=c.scale(160, 1600), depth=1000, timeout=800)
    es = {json.dumps(e, sort_keys=True): e for e in r.printed}
    es = [es[k] for k in sorted(es)]
    c.rng.shuffle(es)
    more = [e for e in es if e["cfg"]["P"] > 1]
    c.log("%d random runs of the model, %d with several processes" % (len(es), len(more)))
    stat = c.extra.setdefault("runs", {})

    def count(e, kind):
        for s in (kind, "%s/%d processes" % (kind, e["cfg"]["P"]), "%s/more processes than particles" % kind if e["cfg"]["P"] > sum(e["cfg"]["bunches"]) else "", "%s/idle process" % kind if 0 in e["tracked"] else ""):
            if s:
                stat[s] = stat.get(s, 0) + 1

    n1, n2, n3 = c.scale((34, 34, 12), (340, 340, 110))
    jobs = [("decode", e) for e in more[:n1]] + [("sum", e) for e in more[-n2:] if e["cfg"]["obs"]]
    jobs = [(kind, e, random.Random(c.seed * 1000 + i), c.rng.choice([1, 1, 2, 3]), c.rng.randrange(1, 1 << 30) if c.rng.random() < 0.6 else 0) for i, (kind, e) in enumerate(jobs)]

    def work(j):
        kind, e, rng, th, sched = j
        return (sum_run if kind == "sum" else decode_run)(prog, e, rng, th, sched)

    values = 0
    for j, (err, known, what) in zip(jobs, prog.map(jobs, work)):
        c.traces += 1
        count(j[1], j[0])
        values += what["values"] if what and "values" in what else 0
        if known:
            c.violation("probe file of %d processes" % j[1]["cfg"]["P"], what, known)
        for x in err[:1]:
            c.violation("%d processes, %d threads, bunches %s: %s" % (j[1]["cfg"]["P"], j[3], j[1]["cfg"]["bunches"], "; ".join(err)[:700]), what)
    c.log("%d decoded runs" % len(jobs))
    # complete physics: the same document on one and on several processes / threads
    pick = sorted(more, key=lambda e: (len(set(e["cfg"]["bunches"])), sum(e["cfg"]["bunches"])))[-n3:]

    def physics(a):
        i, e = a
        err = Err()
        xml, files, outs = physics_document(random.Random(i), e)
        ref = prog.run(xml, 1, 1, 0, files)
        got = prog.run(xml, e["cfg"]["P"], 1 + i % 4, i * 77 + 1 if i % 2 else 0, files)
        n = 0
        what = {"cfg": e["cfg"], "threads": 1 + i % 4, "input": xml}
        if ref[0] != 0 or got[0] != 0:
            err("exit status %s (one process) / %s (%d processes): %s" % (ref[0], got[0], e["cfg"]["P"], (ref[2] if ref[0] else got[2])[-400:]))
        else:
            for f in outs:
                try:
                    n += same_content(content(os.path.join(got[1], f)), content(os.path.join(ref[1], f)), 1e-10, f, err)
                except (OSError, KeyError, ValueError) as x:
                    err("%s: %s" % (f, x))
        prog.clean(ref[1])
        prog.clean(got[1])
        return e, err, n, what

    for e, err, n, what in prog.map(list(enumerate(pick)), physics):
        c.traces += 1
        count(e, "physics")
        values += n
        if err:
            c.violation("%d processes, %d threads against one: %s" % (e["cfg"]["P"], what["threads"], "; ".join(err)[:700]), what)
    c.log("%d comparisons of decompositions" % len(pick))
    c.extra["values_compared"], c.extra["program_runs"] = values, prog.runs
    c.samples += [j[1]["cfg"] for j in jobs[:2]]
    for s in ("decode/idle process", "sum/idle process", "decode/2 processes", "sum/5 processes", "physics"):
        if not stat.get(s):
            raise CheckError("vacuous: %s never exercised" % s)


if __name__ == "__main__":
    sys.exit(main("C01", check))
