import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = "SPECIFICATION Spec\nINVARIANTS ImportOK Complete Emit\nCHECK_DEADLOCK FALSE\n"
v = lambda x: "<<" + ",".join(map(str, x)) + ">>"
r = lambda *x: "<<" + ",".join("<<%d,%d>>" % p for p in x) + ">>"
DIRS = [((0, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1)), ((2, 0, 0), (1, 0, 0, 1), (0, 0, 1, 1)), ((0, -3, 0), (0, -1, 0, 1), (1, 0, 0, 1)), ((0, 0, -1), (0, 0, -1, 1), (1, 0, 0, 1)),
        ((-1, 0, 0), (-1, 0, 0, 1), (0, 0, 1, 1)), ((3, 4, 0), (3, 4, 0, 5), (4, -3, 0, 5)), ((12, 5, 0), (12, 5, 0, 13), (0, 0, 1, 1)), ((0, 6, 8), (0, 3, 4, 5), (1, 0, 0, 1)),
        ((-3, 0, 4), (-3, 0, 4, 5), (4, 0, 3, 5)), ((12, 0, -5), (12, 0, -5, 13), (5, 0, 12, 13))]
ANG = "{" + ", ".join([r((0, 1), (0, 1), (1, 1)), r((3, 4), (0, 1), (5, 4)), r((0, 1), (-4, 3), (5, 3)), r((2, 1), (2, 1), (3, 1)), r((1, 2), (-1, 1), (3, 2)), r((-2, 1), (2, 1), (3, 1))]) + "}"
MOM = "{" + ", ".join([r((3, 4), (3, 5)), r((4, 3), (4, 5)), r((12, 5), (12, 13)), r((0, 1), (0, 1)), r((40, 9), (40, 41))]) + "}"
BADS = "nofile garbage empty noParticles noCharge nox noxp noy noyp nop not textx textt textyp more less negative truncated".split()
BASE = dict(MaxBunch="4", MaxPart="4", MaxRow="5", MaxOps="10", Vals="{0, 1, -1, 2, 5, -7}", Angles=ANG, Moments=MOM, Dirs="{" + ", ".join(v(map(v, d)) for d in DIRS) + "}",
            Charges="{-1, 1, -3, 7}", Names="{8, 60, 97, 98, 99, 100, 101, 130, 200}", Bads="{" + ", ".join('"%s"' % b for b in BADS) + "}", Modes='{"ascii", "binary", "extra"}', Sim="TRUE")


def check(c):
    drv = c.build_driver("beamfile")
    runs = [
        ("beams and files", dict(), c.scale(500, 8000)),
        ("imports", dict(MaxOps="3"), c.scale(800, 8000)),
        ("defects", dict(MaxOps="1", MaxBunch="1"), c.scale(600, 3000)),
        ("many particles", dict(MaxOps="4", MaxRow="40", MaxPart="60", MaxBunch="3"), c.scale(60, 800)),
    ]
    ops = c.extra.setdefault("operations", {})
    n = 0
    for what, consts, sim in runs:
        k = dict(BASE)
        k.update(consts)
        t = c.tlc("BeamFile", CFG, consts=k, simulate=sim, depth=14, timeout=700)
        seen, beh = set(), []
        for i, h in enumerate(t.printed):
            s = json.dumps(h, sort_keys=True)
            if s in seen:
                continue
            seen.add(s)
            beh.append({"h": h, "T": [1e-9, 2.0 ** -30, 3.7e-14][i % 3]})
            for o in h:
                w = o["op"] + ("/" + o["bad"] if "bad" in o else "/" + o["f"] if "f" in o else "/" + o["mode"] if "mode" in o else "")
                ops[w] = ops.get(w, 0) + 1
        c.log("%s: %d states, %d histories" % (what, t.distinct, len(beh)))
        out = c.run_driver(drv, beh)
        n += sum(o.get("n", 0) for o in out)
        c.compare(beh, out, expected=lambda b: [], what=what)
    c.extra["values_compared"] = n
    c.samples.append([{x: y for x, y in o.items() if x not in ("rows", "b", "c")} for o in beh[-1]["h"]])
    for o in ["bunch", "move", "write/hdf5", "write/sdds", "writebunch", "nowrite/hdf5", "nowrite/sdds", "import/ascii", "import/binary", "import/extra"] + ["import/" + b for b in BADS]:
        if not ops.get(o):
            raise CheckError("vacuous: no " + o)


if __name__ == "__main__":
    sys.exit(main("C17", check))
