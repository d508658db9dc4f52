import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
INVARIANTS Monotone Unique Subluminal Physics Emit
CHECK_DEADLOCK FALSE
"""
AX = "<<%d,%d,%d,%d,%d,%d>>"
REST = AX % (1, 1, 0, 1, 1, 1)


def mom(axis, sign, k):
    bn, bd, gn, gd = {"3": (3, 5, 5, 4), "4": (4, 5, 5, 3), "5": (5, 13, 13, 12), "12": (12, 13, 13, 5)}[k]
    return AX % (axis, sign, bn, bd, gn, gd)


ALLM = "{" + ", ".join([REST] + [mom(a, s, k) for a in (1, 2, 3) for s in (1, -1) for k in ("3", "4", "5", "12")]) + "}"
DIRS = [(1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (0, 0, -1, 1), (-1, 0, 0, 1), (3, 4, 0, 5), (0, -3, 4, 5), (4, 0, -3, 5), (1, 2, 2, 3), (-2, 1, 2, 3),
        (2, 3, 6, 7), (-6, 2, 3, 7), (3, -6, -2, 7), (4, 4, 7, 9), (-7, 4, 4, 9), (1, -8, 4, 9)]
ALLD = "{" + ", ".join("<<%d,%d,%d,%d>>" % d for d in DIRS) + "}"
BASE = dict(MaxPart="1", MaxSeg="2", MaxObs="1", Charges="{-1}", Starts="{<<0,0,0>>}", Times="{0}", Moms=ALLM,
            Accs="{<<0,0,0>>}", Dirs=ALLD, Ranges="{12600}", NearRanges="{}", PreTimes="{1, 8}", Fracs="{1, 2, 3}", Sim="FALSE")


def check(c):
    drv = c.build_driver("retarded")
    runs = [
        # every direction of motion x every direction of view, straight line: part before, on and after the trajectory
        ("single segment", dict(MaxSeg="1", Moms="{" + ", ".join([REST, mom(1, 1, "3"), mom(2, -1, "12"), mom(3, 1, "4"), mom(3, -1, "5")]) + "}",
                                Accs="{<<0,0,0>>, <<1,-2,3>>}", NearRanges="{1260}", PreTimes="{1, 8, 100}", Times="{-7800, 520}"), None),
        ("kinked trajectories", dict(MaxPart="1", MaxSeg="5", MaxObs="8", Charges="{-1, 1, -3, 7}", Times="{0, -1000, 3000, 17, -1300000}",
                                     Starts="{<<0,0,0>>, <<300,-20,1000>>, <<-5000,70,3>>}", Accs="{<<0,0,0>>, <<1,-2,3>>, <<0,5,0>>, <<-40,0,7>>}",
                                     Ranges="{12600, 25200}", NearRanges="{1260, 315}", PreTimes="{1, 4, 20, 60}", Sim="TRUE"), c.scale(1200, 12000)),
        ("groups", dict(MaxPart="4", MaxSeg="4", MaxObs="6", Charges="{-1, 1, -3, 7}", Times="{0, -520, 260, 17}",
                        Starts="{<<0,0,0>>, <<300,-20,100>>, <<-500,70,3>>, <<60,60,-60>>}", Accs="{<<0,0,0>>, <<1,-2,3>>, <<0,5,0>>}",
                        Ranges="{12600, 25200}", NearRanges="{1260}", PreTimes="{1, 2, 4, 20}", Sim="TRUE"), c.scale(1200, 12000)),
    ]
    tot = dict(n=0, exact=0, skipped=0)
    for what, consts, sim in runs:
        k = dict(BASE)
        k.update(consts)
        if not sim and c.thorough:
            k["Moms"] = ALLM
        r = c.tlc("Retarded", CFG, consts=k, simulate=sim, depth=60, timeout=800)
        beh = r.printed
        for i, b in enumerate(beh):
            b["U"] = [1.0 / 299792458.0, 3e-16, 2.0 ** -40, 1e-9][i % 4]
            b["T0"], b["X0"] = [(0.0, [0, 0, 0]), (100.0, [0, 0, 0]), (-3000.0, [500, 0, -20000])][i % 3]
            b["mass"], b["split"], b["tol"], b["near"] = [1.0, 1836.0][i % 2], 1 + i % 3, 1e-6, 6000
        c.log("%s: %d states, %d behaviours" % (what, r.distinct, len(beh)))
        out = c.run_driver(drv, beh)
        for o in out:
            for x in tot:
                tot[x] += o.get(x, 0)
        c.compare(beh, out, expected=lambda b: [], what=what)
        kinds = c.extra.setdefault("observations", {})
        for b in beh:
            for o in b["obs"]:
                kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
        c.samples.append(beh[-1])
    c.extra["fields_compared"] = tot
    for k in ("index", "pre", "segment", "after"):
        if not kinds.get(k):
            raise CheckError("vacuous: no observation of kind " + k)
    if tot["n"] < tot["skipped"]:
        raise CheckError("vacuous: %s" % tot)


if __name__ == "__main__":
    sys.exit(main("C12", check))
