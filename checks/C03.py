import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import beammachine as bm


RCFG = """SPECIFICATION Spec
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
"""


def recorded(c):
    """Runs through arbitrary E+B fields (irrational momenta): recorded and validated against VayRec.tla."""
    drv = c.build_driver("vayrec")
    beh = [{"seed": c.seed * 100000 + i, "nb": c.rng.randint(1, 2), "np": c.rng.randint(1, 3), "steps": c.rng.randint(1, 8),
            "again": c.rng.choice([-1, -1, 2, 3])} for i in range(c.scale(150, 3000))]
    out = c.run_driver(drv, beh)
    lines, owner = [], []
    for b, o in zip(beh, out):
        c.traces += 1
        if "died" in o:
            c.violation("recorded tracking: implementation died (%s)" % o["died"], b)
            continue
        for r in o["recs"]:
            lines.append(json.dumps(r))
            owner.append((b, r))
    start = 0
    for attempt in range(6):
        tr = c.path("vay.ndjson")
        with open(tr, "w") as f:
            f.write("\n".join(lines[start:]) + "\n")
        r = c.tlc("VayRec", RCFG, env={"TRACE": tr}, workers=1, expect_ok=False, timeout=600)
        if r.ok:
            break
        if not r.violated:
            raise CheckError("TLC failed on VayRec:\n" + r.trace())
        k = max(int(x) for x in re.findall(r"i = (\d+)", r.trace()))
        b, rec = owner[start + k - 1]
        c.violation("recorded tracking call is no step of the specification: %s" % json.dumps(rec), {"behaviour": b, "record": rec})
        # continue behind the particle's record sequence
        nxt = start + k
        while nxt < len(lines) and not (owner[nxt][1]["op"] == "setup" and owner[nxt][1]["np"] == 1):
            nxt += 1
        start = nxt
        if start >= len(lines):
            break
    c.log("recorded tracking: %d calls validated" % len(lines))


def check(c):
    drv = c.build_driver("beammachine")
    # bounded exhaustive: every sequence of kicks (set-up + steps) for one particle
    one = dict(NB="1", MaxP="1", Ops='{"nd", "trackb"}', Sim="FALSE", Depth="4", QMs="{<<-1,1>>}", Bases="{<<1,-2,3>>}", Times="{3}",
               Moms="{<<2,-2,2>>}" if not c.thorough else "{<<0,0,4>>, <<2,-2,2>>, <<0,0,0>>}", EKicks="{<<0,0,0>>, <<1,2,-3>>, <<0,0,2>>}", BKicks="{<<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<1,-1,1>>}", Drifts="{<<2,1,5>>}")
    bm.run(c, drv, one, what="exhaustive kick sequences")
    # random: several bunches, charges, copies in mid-track
    sim = dict(NB="3", Ops='{"nd", "cb", "add", "copy", "serT", "abeam", "track", "trackb", "dt"}', Weight='"step"', Depth="16", MaxPt="9")
    bm.run(c, drv, sim, sim=c.scale(800, 12000), depth=20, what="tracking histories")
    recorded(c)
    bm.require(c, "step", "setup")


if __name__ == "__main__":
    sys.exit(main("C03", check))
