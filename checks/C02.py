import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

INV = "INVARIANTS Partition Gathered Lockstep RecordsRight Complete FieldsOnce"
SIM = "SPECIFICATION SimSpec\nINVARIANTS Gathered AtEnd Complete FieldsOnce Emit\nCHECK_DEADLOCK FALSE\n"
CFG = "SPECIFICATION Spec\n" + INV + "\nCHECK_DEADLOCK TRUE\n"
BASE = dict(Sim="TRUE", MaxP="1", MaxBunches="4", MaxSize="4", MaxSteps="14", MaxWatches="6", Intervals="1..6", Numbers="{1, 2, 3, 4, 50}", Observers='{"beam", "lattice"}')


def check(c):
    prog = Program(c)
    k = dict(BASE, Sim="FALSE", MaxP="1", MaxBunches=c.scale("2", "3"), MaxSize="2", MaxSteps="5", Intervals="{1, 2, 3}", Numbers="{2}")
    r = c.tlc("Program", CFG, consts=k, timeout=800)
    c.log("all small configurations: %d states" % r.distinct)
    es = []
    for what, consts, n in [("one process", dict(), c.scale(110, 1100)),
                            ("long runs", dict(MaxSteps="60", MaxBunches="2", MaxSize="3", Intervals="{1, 7, 13, 20, 59, 60, 61}", MaxWatches="8"), c.scale(20, 200)),
                            ("no steps", dict(MaxSteps="0"), c.scale(6, 60)),
                            ("processes", dict(MaxP="4"), c.scale(30, 300))]:
        r = c.tlc("Program", SIM, consts=dict(BASE, **consts), simulate=n, depth=3000, timeout=800)
        got = {json.dumps(e, sort_keys=True): e for e in r.printed}
        es += [got[k] for k in sorted(got)]
        c.log("%s: %d runs of the model" % (what, len(got)))
    stat = c.extra.setdefault("requests", {})

    def count(s):
        stat[s] = stat.get(s, 0) + 1

    jobs = [(e, random.Random(c.seed * 1000 + i), c.rng.choice([1, 1, 2]), c.rng.randrange(1, 1 << 30) if c.rng.random() < 0.5 else 0) for i, e in enumerate(es)]
    values = 0
    for j, (err, known, what) in zip(jobs, prog.map(jobs, lambda j: decode_run(prog, *j), 6)):
        cfg = j[0]["cfg"]
        c.traces += 1
        values += what.get("values", 0)
        steps = [w["step"] for w in cfg["watch"]]
        for w in cfg["watch"]:
            count("watch/%s/%s" % (w["type"], "initial" if w["step"] == 0 else "final" if w["step"] == cfg["nots"] else "beyond the end" if w["step"] > cfg["nots"] else "between"))
        if len(set(steps)) < len(steps):
            count("several watch points at the same step")
        if steps != sorted(steps):
            count("watch points out of order")
        for b, s in enumerate(cfg["log"]):
            if s:
                count("log/interval %s" % ("1" if s == 1 else "beyond the end" if s > cfg["nots"] else "divides" if cfg["nots"] % s == 0 else "does not divide"))
        for b, t in enumerate(cfg["traj"]):
            if t["step"]:
                count("trajectories/%s" % ("all" if t["num"] >= cfg["bunches"][b] else "some"))
        if cfg["probe"]["step"]:
            count("probe/%s" % ("all" if cfg["probe"]["num"] >= sum(cfg["bunches"]) else "some"))
        if known:
            c.violation("probe file of %d processes" % cfg["P"], what, known)
        if err:
            c.violation("bunches %s, %d steps, %d processes: %s" % (cfg["bunches"], cfg["nots"], cfg["P"], "; ".join(err)[:700]), what)
    c.log("%d decoded runs" % len(jobs))

    # requests that make no sense are refused before anything is written
    bad = []
    for v in ("0", "-1", "-7"):
        bad += [("log of a particle, step " + v, [particle(5.0, -1e-15, (0, 0, 0)).replace("</particle>", '<log file="l.sdds" step="%s"/></particle>' % v)]),
                ("log of a bunch, step " + v, [bunch(2, 5.0, -1e-15, (0, 0, 0)).replace("</bunch>", '<log file="l.sdds" step="%s"/></bunch>' % v)]),
                ("trajectories, step " + v, [bunch(2, 5.0, -1e-15, (0, 0, 0)).replace("</bunch>", '<trajectories file="t.h5" step="%s"/></bunch>' % v)]),
                ("probe, step " + v, [bunch(2, 5.0, -1e-15, (0, 0, 0)), '<probe file="p.h5" step="%s" number="1"/>' % v]),
                ("log of an imported bunch, step " + v, [sdds_bunch("in.sdds").replace("</SDDS>", '<log file="l.sdds" step="%s"/></SDDS>' % v)])]

    def refused(b):
        rc, d, text = prog.run(document("", b[1], DT, 4, '<watch step="0" file="w.h5"/>', ""), 1, 1, 0, [("in.sdds", elegant([(0, 0, 0, 0, 0, 5.0)], 1e-15))])
        have = set(os.listdir(d)) - {"console.txt", "input.xml", "in.sdds"}
        prog.clean(d)
        return b[0], rc, have, text

    for name, rc, have, text in prog.map(bad, refused, 6):
        c.traces += 1
        count("refused interval")
        if rc == 0 or rc == "timeout" or have or "SIGFPE" in text or rc in (-8, 136):
            c.violation("%s: the program ended with %s having written %s: %s" % (name, rc, sorted(have), text[-200:]), {"case": name})

    # no request changes the tracking or the content of another output
    # (the beam must have no random numbers; the comparison is exact)
    pick = [e for e in es if e["cfg"]["P"] == 1 and len(e["cfg"]["bunches"]) >= 2][:c.scale(4, 24)]

    def independent(a):
        i, e = a
        rng = random.Random(c.seed * 31 + i)
        err, n = Err(), 0
        xml, files, outs = physics_document(rng, e)
        full = prog.run(xml, 1, 1, 0, files)
        if full[0] != 0:
            err("the program ended with %s: %s" % (full[0], full[2][-400:]))
        subsets = [{o} for o in outs] + [set(o for o in outs if rng.random() < 0.5) for _ in range(3)]
        rng.shuffle(subsets)
        for keep in subsets[:c.scale(6, 14)]:
            if not keep:
                continue
            xml1, files1, _ = physics_document(rng, e, keep=keep)
            one = prog.run(xml1, 1, 1, 0, files1)
            if one[0] != 0:
                err("only %s requested: the program ended with %s: %s" % (sorted(keep), one[0], one[2][-300:]))
                continue
            have = set(os.listdir(one[1])) - {"console.txt", "input.xml"} - {f[0] for f in files1}
            if have != keep - {f[0] for f in files1}:
                err("requested %s, written %s" % (sorted(keep), sorted(have)))
            for f in sorted(keep):
                try:
                    n += same_content(content(os.path.join(one[1], f)), content(os.path.join(full[1], f)), 0.0, "%s with and without other output" % f, err)
                except (OSError, KeyError, ValueError) as x:
                    err("%s: %s" % (f, x))
            prog.clean(one[1])
        prog.clean(full[1])
        return e, err, n, xml

    for e, err, n, xml in prog.map(list(enumerate(pick)), independent, 4):
        c.traces += 1
        values += n
        count("independence of the requests")
        if err:
            c.violation("output requests influence each other: %s" % "; ".join(err)[:700], {"cfg": e["cfg"], "input": xml})
    c.extra["values_compared"], c.extra["program_runs"] = values, prog.runs
    c.samples += [e["cfg"] for e in es[:2]]
    for s in ["watch/%s/%s" % (t, w) for t in ("hdf5", "sdds") for w in ("initial", "final", "beyond the end", "between")] + \
             ["several watch points at the same step", "watch points out of order", "log/interval 1", "log/interval beyond the end", "log/interval divides",
              "log/interval does not divide", "trajectories/all", "trajectories/some", "probe/all", "probe/some"]:
        if not stat.get(s):
            raise CheckError("vacuous: %s never exercised" % s)


if __name__ == "__main__":
    sys.exit(main("C02", check))
