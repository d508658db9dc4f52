import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = "SPECIFICATION Spec\nINVARIANTS CoMoving Causal Lockstep RecordSteps Emit\nCHECK_DEADLOCK FALSE\n"
# given propagation and polarisation directions (the latter neither normalised nor orthogonal) and the frame that follows
FR = [((0, 0, 1), (1, 0, 0), (0, 0, 1, 1), (1, 0, 0, 1), (0, 1, 0, 1)),
      ((2, 0, 0), (5, 3, 4), (1, 0, 0, 1), (0, 3, 4, 5), (0, -4, 3, 5)),
      ((3, 4, 0), (3, 4, 2), (3, 4, 0, 5), (0, 0, 1, 1), (4, -3, 0, 5)),
      ((0, 0, -3), (0, 1, 7), (0, 0, -1, 1), (0, 1, 0, 1), (1, 0, 0, 1)),
      ((1, 2, 2), (2, 1, -2), (1, 2, 2, 3), (2, 1, -2, 3), (-2, 2, -1, 3))]
v = lambda x: "<<" + ",".join(map(str, x)) + ">>"
FRAMES = "<<" + ", ".join("[prop |-> %s, pol |-> %s, P |-> %s, E |-> %s, B |-> %s]" % tuple(map(v, f)) for f in FR) + ">>"
BASE = dict(Ns="{3, 5, 8, 14, 30}", Logs="{0, 1, 2, 3}", Seeds="{<<>>, <<4, 3, 2>>, <<7, -2, 3>>, <<3, 12, 4>>, <<5, 1, 20>>}", Modes="{<<3, 0>>, <<5, 2>>, <<100, -7>>, <<2, 6>>}", Frames=FRAMES,
            MaxPart="4", MaxStep="8", MaxOps="14", Charges="{-1, 1, -3, 7}", Accs="{<<1,0,0>>, <<-2,5,3>>, <<0,4,-1>>, <<3,-1,2>>, <<0,0,0>>, <<40,0,0>>}",
            Refusals='{"create", "init", "nots", "time", "place"}', Rarity="8", Sim="TRUE")


def check(c):
    drv = c.build_driver("fel")
    ops = c.extra.setdefault("operations", {})
    tot = dict(val=0, ref=0, file=0)
    runs = [
        ("coupled histories", dict(), c.scale(1000, 12000)),
        ("long coupling", dict(Ns="{9, 14}", MaxOps="11", MaxStep="10", MaxPart="2", Refusals="{}", Seeds="{<<>>}"), c.scale(500, 6000)),
        ("propagation only", dict(Ns="{6, 10}", Charges="{0}", Seeds="{<<7, -2, 3>>, <<3, 5, 1>>}", MaxPart="1", MaxOps="18", MaxStep="9", Refusals="{}"), c.scale(150, 2000)),
        ("program runs", dict(Ns="{2, 3, 6, 15}", Seeds="{<<>>}", MaxOps="1", Rarity="1", Refusals="{}", MaxPart="4"), c.scale(150, 1500)),
        ("refusals", dict(Ns="{3, 9}", MaxOps="4", Rarity="1", Seeds="{<<4, 3, 2>>}"), c.scale(500, 3000)),
        ("smallest grids", dict(Ns="{2, 3}", MaxOps="10", MaxPart="2"), c.scale(150, 1500)),
    ]
    k = 0
    for what, consts, sim in runs:
        m = dict(BASE)
        m.update(consts)
        r = c.tlc("Fel", CFG, consts=m, simulate=sim, depth=24, timeout=700)
        seen, beh = set(), []
        for b in r.printed:
            t = json.dumps(b, sort_keys=True)
            if t in seen:
                continue
            seen.add(t)
            b["dt"], b["E0"], b["A0"], b["w0"] = [(1e-13, 1e6, 1e11, 1e-3), (2.0 ** -43, 3.0, 1e9, 0.01), (3e-12, 2e9, 1e14, 1e-4)][k % 3]
            b["origin"], b["id"] = [[0, 0, 0], [3, -200, 1000], [0, 0, -77]][(k // 3) % 3], k
            k += 1
            beh.append(b)
            for o in b["ops"]:
                n = o["op"] + ("" if o["ok"] else "/refused")
                ops[n] = ops.get(n, 0) + 1
        c.log("%s: %d states, %d behaviours" % (what, r.distinct, len(beh)))
        out = c.run_driver(drv, beh)
        for o in out:
            for x in tot:
                tot[x] += (o or {}).get(x, 0)
        c.compare(beh, out, expected=lambda b: [], what=what)
    c.extra["checked"] = tot
    c.samples.append({"cfg": beh[-1]["cfg"], "ops": [o["op"] for o in beh[-1]["ops"]]})
    for o in "create/refused init init/refused step step/refused probe probe/refused all write run".split():
        if not ops.get(o):
            raise CheckError("vacuous: no " + o)


if __name__ == "__main__":
    sys.exit(main("C06", check))
