import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
INVARIANTS Distinct Ordered Confined Emit
PROPERTIES OnlyOne
CHECK_DEADLOCK FALSE
"""


def rec(**k):
    f = lambda v: '"%s"' % v if isinstance(v, str) else "<<%s>>" % ",".join(map(str, v)) if isinstance(v, tuple) else str(v)
    return "[" + ", ".join("%s |-> %s" % (a, f(b)) for a, b in k.items()) + "]"


POOL = [rec(kind="planar", B=3, l=24, n=n) for n in (1, 2, 5)] + [rec(kind="planar", B=-7, l=48, n=2)] + \
       [rec(kind="tgu", B=5, l=24, n=2, k=k, m=m) for k, m in ((3, 0), (-3, 2), (0, 5), (1, -3))] + \
       [rec(kind="hard", b=(1, -2, 5), p1=(0, 0, -30), n1=(0, 0, -1), p2=(0, 0, 42), n2=(0, 0, 1)),
        rec(kind="hard", b=(0, 7, 0), p1=(5, 0, 0), n1=(-3, 0, -4), p2=(0, 9, 60), n2=(0, 4, 3)),
        rec(kind="soft", b=(2, 3, -1), p1=(0, 0, -30), n1=(0, 0, -1), t1=12, p2=(0, 0, 42), n2=(0, 0, 1), t2=5),
        rec(kind="soft", b=(0, 0, 4), p1=(5, 0, 0), n1=(-1, 0, 0), t1=3, p2=(20, 9, 60), n2=(1, 0, 0), t2=24),
        rec(kind="homog", e=(1, 2, -3), b=(0, 0, 0)), rec(kind="homog", e=(0, 0, 0), b=(4, -5, 6)), rec(kind="homog", e=(1, 0, 9), b=(-2, 1, 1)),
        rec(kind="wave", re=2, im=0, l=24, z=36), rec(kind="wave", re=-1, im=3, l=40, z=90),
        rec(kind="packet", re=2, im=0, l=24, z=36, tau=30, t=0), rec(kind="packet", re=1, im=-4, l=36, z=48, tau=20, t=15), rec(kind="packet", re=0, im=5, l=24, z=60, tau=50, t=-33),
        rec(kind="planar", B=2, l=36, n=0), rec(kind="tgu", B=5, l=36, n=0, k=2, m=1)]
S = lambda xs: "{" + ", ".join(map(str, xs)) + "}"


def check(c):
    drv = c.build_driver("lattice")
    zs = list(range(-96, 97, 6)) + [-7, 5, 13, 25, -31, 500]
    runs = [
        ("every element on a grid", dict(Pool=S(POOL), Origins="{<<0,0,0>>, <<8,-3,36>>}", MaxEl="1", Depth="2", TQ="{0, 18}",
                                         XQ="{0, 7}" if not c.thorough else "{0, 7, -16}", YQ="{0, -4}", ZQ=S(zs), Sim="FALSE"), None),
        ("short histories", dict(Pool=S([POOL[0], POOL[8], POOL[12]]), Origins="{<<0,0,6>>}", MaxEl="3", Depth=c.scale("4", "5"), TQ="{3}", XQ="{1}", YQ="{2}", ZQ="{11}", Sim="FALSE"), None),
        ("long histories", dict(Pool=S(POOL), Origins="{<<0,0,0>>, <<8,-3,36>>, <<-5,2,-50>>}", MaxEl="8", Depth="30", TQ="{0, 18, -5, 40}",
                                XQ="{0, 7, -16, 3}", YQ="{0, -4, 2}", ZQ=S(zs), Sim="TRUE"), c.scale(800, 8000)),
    ]
    n = 0
    ops = c.extra.setdefault("operations", {})
    for what, k, sim in runs:
        r = c.tlc("Lattice", CFG, consts=k, simulate=sim, depth=60, timeout=800)
        beh = [b for b in r.printed]
        for i, b in enumerate(beh):
            b["L"], b["EU"], b["BU"] = [(1.0, 1.0, 1.0), (0.001, 1e6, 0.3), (0.013, 2.5e9, 12.0)][i % 3]
            for e in b["h"]:
                o = e["op"] + ("/refused" if e.get("ok") is False else "") + ("/" + e["e"]["kind"] if "e" in e else "")
                ops[o] = ops.get(o, 0) + 1
        c.log("%s: %d states, %d histories" % (what, r.distinct, len(beh)))
        out = c.run_driver(drv, beh)
        n += sum(o.get("n", 0) for o in out)
        c.compare(beh, out, expected=lambda b: [], what=what)
    c.extra["element_fields_compared"] = n
    c.samples.append(beh[-1]["h"][:4])
    for o in ("add/planar", "add/tgu", "add/hard", "add/soft", "add/homog", "add/wave", "add/packet", "remove", "remove/refused", "at", "at/refused", "probe"):
        if not ops.get(o):
            raise CheckError("vacuous: %s never exercised" % o)


if __name__ == "__main__":
    sys.exit(main("C11", check))
