import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
INVARIANTS Stable Nested Closed Removed Apart Emit
PROPERTIES Pure
CHECK_DEADLOCK FALSE
"""
UNSTABLE = """SPECIFICATION Spec
INVARIANTS Stable
CHECK_DEADLOCK FALSE
"""
PLACES = "{<<0,-15,40>>, <<10,0,20>>, <<20,10,60>>, <<-3,2,50>>, <<5,5,90>>, <<-10,20,-20>>}"
MODS = ("bunch", "add", "replace", "shift", "mirror", "corr", "clear", "elem", "rem", "resetup", "setup", "step")
QUERIES = ("coord", "pfield", "ptrace", "pstate", "bfield", "btrace", "moments", "afield", "atrace", "totals", "lfield", "efield")


def check(c):
    small = dict(NB="1", MaxPart="3", MaxEl="1", MaxSteps="2", MaxPend="2", Kinds='{"planar"}', Seeds="{1}", Times="{20}", Places="{<<0,-15,40>>}",
                 Freqs="{3}", Depth="6", Sim="FALSE", Wait="TRUE")
    # the specification itself: what it says about cones holds in every short history ...
    r = c.tlc("Eval", CFG, consts=dict(small, Depth=c.scale("5", "6"), MaxPend=c.scale("1", "2")), timeout=800)
    short = r.printed
    c.log("short histories: %d states, %d histories" % (r.distinct, len(short)))
    # ... and needs modifications to wait for the queries
    r = c.tlc("Eval", UNSTABLE, consts=dict(small, Wait="FALSE"), expect_ok=False, timeout=300)
    if r.ok or not r.violated:
        raise CheckError("Stable should fail when modifications do not wait for queries")
    big = dict(NB="2", MaxPart="9", MaxEl="6", MaxSteps="24", MaxPend="4", Kinds='{"planar", "tgu", "wave", "packet", "hard", "soft", "homog", "source"}',
               Seeds="{1, 2, 3, 4, 5, 6, 7, 8}", Times="{-30, 23, 60, 110, 250, 400}", Places=PLACES, Freqs="{3, 11}", Depth="45", Sim="TRUE", Wait="TRUE")
    beh = c.tlc("Eval", CFG.replace("Nested Closed Removed Apart ", ""), consts=big, simulate=c.scale(160, 2500), depth=120, timeout=1500).printed
    # and everything about a small world: the same few arguments before and after every modification
    few = dict(big, NB="1", MaxPart="4", MaxEl="2", Times="{60, 110}", Places="{<<0,-15,40>>, <<10,0,20>>}", Freqs="{3}", Depth="50")
    beh += c.tlc("Eval", CFG, consts=few, simulate=c.scale(100, 1500), depth=120, timeout=1500).printed
    # TLC prints every last step it considered: keep one
    beh = list({json.dumps(b["h"][:-1], sort_keys=True): b for b in beh}.values())
    c.rng.shuffle(short)
    beh += short[:c.scale(300, 4000)]
    drv = c.build_driver("eval")
    ops = c.extra.setdefault("operations", {})
    for b in beh:
        b["threads"], b["repeat"] = 4, 8
        for e in b["h"]:
            o = e["q"] if e["op"] == "query" else e["op"]
            ops[o] = ops.get(o, 0) + 1
    out = c.run_driver(drv, beh)
    c.compare(beh, out, expected=lambda b: [], what="histories of modifications and queries")
    for k in ("queries", "parallel", "cone", "zero"):
        c.extra[k] = sum(o.get(k, 0) for o in out)
    c.log("%d histories, %d answers compared with fresh worlds, %d answers given in parallel" % (len(beh), c.extra["queries"], c.extra["parallel"]))
    c.samples.append([{k: v for k, v in e.items()} for e in beh[0]["h"][:12]])
    for o in MODS + QUERIES:
        if not ops.get(o):
            raise CheckError("vacuous: %s never exercised" % o)
    if c.extra["zero"] > 0.5 * c.extra["queries"]:
        raise CheckError("vacuous: most answers are zero")


if __name__ == "__main__":
    sys.exit(main("C19", check))
