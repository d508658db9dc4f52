import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import beammachine as bm

MCFG = """SPECIFICATION Spec
INVARIANTS NonNegative Emit
PROPERTIES KeepMeans
CHECK_DEADLOCK FALSE
"""
DCFG = """SPECIFICATION Spec
INVARIANTS Shape Emit
PROPERTIES OneRegister
CHECK_DEADLOCK FALSE
"""


def spec(c, drv, module, cfg, what, consts, sim=None, depth=None):
    r = c.tlc(module, cfg, consts=consts, simulate=sim, depth=depth, timeout=800)
    beh = r.printed
    ops = c.extra.setdefault("operations", {})
    for i, b in enumerate(beh):
        b["XU"], b["TU"] = [(1.0, 1.0), (1e-3, 1e-12), (37.0, 3e-9)][i % 3]
        if module == "Moments":
            b["base"] = [0, 0, 2.0 ** 20][(i // 3) % 3]
        for e in b["h"]:
            k = what + ":" + e["op"] + ("/refused" if e.get("exc") else "")
            ops[k] = ops.get(k, 0) + 1
    c.log("%s: %d states, %d histories" % (what, r.distinct, len(beh)))
    out = c.run_driver(drv, beh)
    c.compare(beh, out, expected=lambda b: [], what=what)


def check(c):
    drv = c.build_driver("beammachine")
    ex = dict(NB="2", MaxP="2", Ops='{"nb", "nd", "cb", "del", "add", "copy", "addnew", "rep", "abeam", "cbeam"}', Sim="FALSE", Depth=c.scale("3", "4"),
              QMs="{<<-1,1>>, <<2,1>>}", Bases="{<<1,-2,3>>}", Times="{3}", Moms="{<<2,-2,2>>}", MaxPt="3")
    if c.thorough:
        ex["QMs"] = "{<<-1,1>>}"
    bm.run(c, drv, ex, what="exhaustive bookkeeping")
    sim = dict(NB="4", MaxP="4", MaxPt="2", Depth="24", Ops='{"nb", "nd", "cb", "del", "copy", "ser", "addnew", "rep", "abeam", "cbeam"}')
    bm.run(c, drv, sim, sim=c.scale(600, 6000), depth=30, what="bookkeeping histories")
    drv = c.build_driver("moments")
    spec(c, drv, "Moments", MCFG, "exhaustive ensembles",
         dict(MaxN="2", Coords="{0, 8, -20}" if c.thorough else "{8, -20}", Factors="{1, -2}" if c.thorough else "{-2}", Idx="{-1, 0, 2, 4, 5, 6}" if not c.thorough else "-1..6", Depth="3", Sim="FALSE", Sc="8"))
    spec(c, drv, "Moments", MCFG, "ensembles",
         dict(MaxN="5", Coords="{0, 1, -5, 12, 60, -60, 36, 7}", Factors="{1, -2, 3, 0}", Idx="-1..6", Depth="12", Sim="TRUE", Sc="12"), sim=c.scale(800, 8000), depth=16)
    spec(c, drv, "Dist", DCFG, "exhaustive distributions",
         dict(R="2", Dims="{1, 2}", Nops="{0, 2}" if c.thorough else "{1}", Vals="{3, -5}", Facs="{2}", Depth="3", Sim="FALSE"))
    spec(c, drv, "Dist", DCFG, "distributions",
         dict(R="3", Dims="{1, 2, 3, 6, 7}", Nops="{0, 1, 2, 3, 4}", Vals="{0, 1, -3, 17, 100}", Facs="{2, -1, 0}", Depth="14", Sim="TRUE"), sim=c.scale(600, 6000), depth=18)
    bm.require(c, "rep", "add", "cb", "cbeam", "ensembles:corr", "distributions:buf/refused", "distributions:sub", "distributions:gauss")


if __name__ == "__main__":
    sys.exit(main("C13", check))
