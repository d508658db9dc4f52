import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
INVARIANTS Laws OnGrid Outside Emit
PROPERTIES Frame Refusal Timing
CHECK_DEADLOCK FALSE
"""
KEEP = ("exc", "regs", "ret")


def expected(b):
    out = []
    for e in b["h"]:
        x = {"exc": e["exc"], "regs": e["regs"]}
        if "ret" in e and not (e["op"] == "time" and e["exc"]):
            x["ret"] = e["ret"]
        elif e["op"] == "time":
            x["ret"] = e["ret"]
        out.append(x)
    return out


def check(c):
    drv = c.build_driver("fieldtrace")
    # bounded exhaustive: all histories of length 3 over two registers
    ex = dict(R="2", Ns="{0, 2}", T0s="{0, 3}", Dts="{2}", Comps="{4}", Facs="{2}", Deltas="{0, 1}", Depth="3", Sim="FALSE")
    if c.thorough:
        ex = dict(ex, Ns="{0, 1, 2}", Comps="{0, 4}", Facs="{-2, 2}", Deltas="{0, 1, 2}")
    res = c.tlc("FieldTraceAlg", CFG, consts=ex, timeout=800)
    beh = res.printed
    c.log("exhaustive: %d states, %d histories" % (res.distinct, len(beh)))
    # random long histories generated by the same specification
    sim = dict(R="3", Ns="{0, 1, 2, 3, 5}", T0s="{0, 1, -4, 6, 13}", Dts="{1, 2, 4}", Comps="{0, 48, -96, 240, -480}",
               Facs="{2, -3, 4, -1}", Deltas="{0, 1, -2, 4, 9, 40}", Depth="14", Sim="TRUE")
    # fewer shapes make grids match more often
    sim2 = dict(sim, R="3", Ns="{3}", T0s="{0, 4}", Dts="{2}", Depth="16")
    n = c.scale(500, 6000)
    for s in (sim, sim2):
        r = c.tlc("FieldTraceAlg", CFG, consts=s, simulate=n, depth=25, workers=1, timeout=800)
        c.log("simulation: %d states, %d histories" % (r.distinct, len(r.printed)))
        beh += r.printed
    ops = {}
    for i, b in enumerate(beh):
        b["R"] = max(len(e["regs"]) for e in b["h"])
        b["U"], b["TU"] = [(1.0, 1.0), (0.5, 0.25), (3.7, 1.0), (1e3, 1.0 / 4096)][i % 4]
        for e in b["h"]:
            ops[e["op"] + ("/refused" if e["exc"] else "")] = ops.get(e["op"] + ("/refused" if e["exc"] else ""), 0) + 1
    out = c.run_driver(drv, beh)
    c.compare(beh, out, expected=expected, what="field trace history")
    c.extra["operations"] = ops
    c.samples.append([{k: e[k] for k in e if k != "regs"} for e in beh[-1]["h"]])
    for o in ("retard", "retard/refused", "plus", "plus/refused", "pluseq/refused", "minus", "minus/refused", "assign/refused", "deriv", "buffer", "buffer/refused", "at"):
        if not ops.get(o):
            raise CheckError("vacuous: operation %s never exercised" % o)


if __name__ == "__main__":
    sys.exit(main("C05", check))
