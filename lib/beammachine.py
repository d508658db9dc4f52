"""Shared by the checks that use spec/BeamMachine.tla."""
from vf import *

CFG = """SPECIFICATION Spec
INVARIANTS CurrentIsLast VayLaws Owned Emit
PROPERTIES StepLaws Refused
CHECK_DEADLOCK FALSE
"""
BASE = dict(NB="2", MaxP="3", MaxPt="5", Ops='{"nd"}', QMs="{<<-1, 1>>, <<2, 1>>, <<-3, 5>>}",
            Bases="{<<0,0,0>>, <<1,-2,3>>, <<-4,5,0>>, <<10,0,-7>>, <<3,3,3>>, <<-20,6,11>>, <<2,0,0>>}",
            Moms="{<<0,0,0>>, <<0,0,4>>, <<2,-2,2>>, <<6,0,0>>, <<-3,1,12>>, <<2,4,-6>>}",
            Accs="{<<0,0,0>>, <<1,-2,5>>}", Times="{0, 3, -2, 8}", Dts="{2, 4}",
            EKicks="{<<0,0,0>>, <<1,0,0>>, <<0,-2,0>>, <<1,2,-3>>, <<0,0,2>>, <<2,2,2>>, <<-4,0,0>>}",
            BKicks="{<<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,-1>>, <<1,1,1>>, <<-1,1,1>>}",
            Drifts="{<<1,0,0>>, <<0,3,-2>>, <<2,1,5>>}", Deltas="{<<1,0,0>>, <<-2,5,3>>, <<0,0,0>>}", Facs="{1, -1, 2}",
            Normals="{<<1,0,0>>, <<0,-2,0>>, <<0,0,3>>, <<1,1,0>>, <<0,1,-1>>, <<-1,0,1>>}",
            QTimes="{-3, -2, 0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 40}", InitTrk='{"vay"}', InitDts="{2}", Weight='"none"',
            Depth="10", Sim="TRUE")
UNITS = [(1.0, 2.0 ** -40, 1.0), (0.001, 2.0 ** -50, 6.25e6), (0.37, 2.0 ** -42, 1000.0), (10.0, 2.0 ** -33, 1.0)]


def run(c, drv, consts, sim=None, depth=None, what="", need=(), timeout=800):
    k = dict(BASE)
    k.update(consts)
    r = c.tlc("BeamMachine", CFG, consts=k, simulate=sim, depth=depth, workers=1 if sim else None, timeout=timeout)
    beh = r.printed
    ops = c.extra.setdefault("operations", {})
    for i, b in enumerate(beh):
        b["XU"], b["TU"], b["CS"] = UNITS[i % len(UNITS)]
        for e in b["h"]:
            o = e["op"] + ("/refused" if e["exc"] else "")
            ops[o] = ops.get(o, 0) + 1
    c.log("%s: %d states, %d histories" % (what, r.distinct, len(beh)))
    out = c.run_driver(drv, beh)
    c.extra["image_fields"] = c.extra.get("image_fields", 0) + sum(o.get("images", 0) for o in out)
    c.compare(beh, out, expected=lambda b: [], what=what)
    if beh:
        c.samples.append([{k: v for k, v in e.items() if k != "st"} for e in beh[-1]["h"]])
    return beh


def require(c, *ops):
    for o in ops:
        if not c.extra.get("operations", {}).get(o):
            raise CheckError("vacuous: operation %s never exercised" % o)
