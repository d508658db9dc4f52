import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
INVARIANTS Centre Symmetric Indexed SnapSingle Emit
PROPERTIES Local
CHECK_DEADLOCK FALSE
"""
BASE = dict(R="3", Kinds='{"screen", "snapshot", "point", "mesh"}', Types='{"beam", "bunch", "lattice"}', Nxs="{1, 2, 3, 4, 5, 7}", Nys="{1, 2, 3, 4, 5, 6}",
            Nts="{1, 2, 3, 5}", Pitches="{<<1,0,0>>, <<0,1,0>>, <<0,0,2>>, <<-3,1,0>>, <<2,-2,1>>}", Origins="{<<0,0,0>>, <<3,-5,100>>}",
            T0s="{0, -7, 20}", Dts="{2, 4}", Dtxs="{0, 1, -3}", Threads="{1, 2, 3, 4, 8}", Vals="{0, 1, -9, 1000}", Depth="18", Sim="TRUE")


def check(c):
    drv = c.build_driver("observers")
    runs = [
        # every observer kind, source type and grid size once
        ("all grids", dict(R="1", Nxs="{1, 2, 3, 4, 5}", Nys="{1, 2, 3, 4}", Nts="{1, 3}", Pitches="{<<1,0,0>>, <<0,2,1>>}", Origins="{<<3,-5,100>>}", T0s="{-7}",
                           Dts="{2}", Dtxs="{1, -3}", Threads="{3}", Vals="{7}", Depth="3", Sim="FALSE"), None),
        ("histories", dict(), c.scale(900, 9000)),
        ("reductions", dict(Nxs="{2, 3}", Nys="{3}", Nts="{2}", Pitches="{<<1,0,0>>, <<0,1,0>>}", Origins="{<<0,0,5>>}", T0s="{0}", Dts="{2}", Dtxs="{1}", Types='{"beam", "lattice"}', Depth="24"),
         c.scale(400, 4000)),
        ("many threads", dict(R="1", Nxs="{16, 9}", Nys="{12, 17}", Nts="{4}", Threads="{8}", Depth="6"), c.scale(150, 1500)),
    ]
    ops = c.extra.setdefault("operations", {})
    n = files = 0
    for what, consts, sim in runs:
        k = dict(BASE)
        k.update(consts)
        cfg = CFG
        if what == "all grids":
            cfg = cfg.replace("Spec\n", "SpecMC\n", 1)
        r = c.tlc("ObserversMC" if what == "all grids" else "Observers", cfg, consts=k, simulate=sim, depth=40, timeout=800)
        beh = [b for b in r.printed if any(e["op"] != "new" for e in b["h"])]
        for i, b in enumerate(beh):
            b["L"], b["TU"], b["FU"] = [(1.0, 1e-3, 1.0), (1e-3, 2e-12, 1e6), (0.37, 1e-9, 40.0)][i % 3]
            b["spin"] = what == "many threads"
            for e in b["h"]:
                o = e["op"] + ("/refused" if e["exc"] else "")
                ops[o] = ops.get(o, 0) + 1
                if e["op"] == "new":
                    o = "new/%s/%s" % (e["b"]["kind"], e["b"]["type"])
                    ops[o] = ops.get(o, 0) + 1
        c.log("%s: %d states, %d histories" % (what, r.distinct, len(beh)))
        out = c.run_driver(drv, beh)
        n += sum(o.get("n", 0) for o in out)
        files += sum(o.get("files", 0) for o in out)
        c.compare(beh, out, expected=lambda b: [], what=what)
    c.extra["samples_compared"], c.extra["files_read_back"] = n, files
    c.samples.append([{k: v for k, v in e.items() if k != "cells"} for e in beh[-1]["h"]])
    for o in ["integrate", "set", "set/refused", "addbuf", "roundtrip", "badbuf/refused", "zero", "file"] + \
             ["new/%s/%s" % (a, b) for a in ("screen", "snapshot", "point", "mesh") for b in ("beam", "bunch", "lattice")]:
        if not ops.get(o):
            raise CheckError("vacuous: %s never exercised" % o)


if __name__ == "__main__":
    sys.exit(main("C08", check))
