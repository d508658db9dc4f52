import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
INVARIANT BucketExact
INVARIANT Conserved
INVARIANT ClosedForm
INVARIANT FarAway
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def check(c):
    drv = c.build_driver("obstrace")
    # 1. exhaustive model checking; every configuration is replayed against the code
    runs = [("{2}", "{2, 3}", "{0, -3, 5}", "{2, 3}", "{1, 2, 3, 8}", 24, 7),
            ("{4}", "{2, 3}", "{1, 6}", "{2}", "{1, 2, 3, 4, 5, 6, 8, 9, 12, 20}", 360, 21)]
    if c.thorough:
        runs += [("{2}", "{2, 4}", "{-1, 0, 7}", "{4}", "{1, 2, 3, 5}", 30, 9),
                 ("{4, 6}", "{2, 5}", "{-5, 0, 3}", "{3}", "{1, 2, 3, 6, 10, 15}", 30, 17),
                 ("{8}", "{2, 3, 6}", "{0, 11}", "{2}", "{1,2,3,4,5,6,7,8,9,10,12,14,15,16,18,20,21,24,28,30,36,40,60}", 2520, 61)]
    vias = ["particle", "bunch", "beam"]
    for r in runs:
        res = c.tlc("ObsTrace", CFG, timeout=800, consts=dict(zip(("Ws", "Ns", "T0s", "Pts", "Segs", "D", "Margin"), r)))
        D = r[5]
        beh = []
        for i, b in enumerate(res.printed):
            b["mode"] = "basis"
            b["D"] = D
            b["via"] = vias[i % 3]
            # exactly representable time units keep ties on bucket edges exact; others put them to either side
            b["unit"] = [1.0, 0.25, 0.5e-12, 1.0 / 1024][i % 4]
            b["base"] = [0, 0, 0, 64][i % 4]
            beh.append(b)
        c.log("model %s: %d states, %d behaviours" % (r[:2], res.distinct, len(beh)))
        out = c.run_driver(drv, beh)
        c.compare(beh, out, what="deposit")
        # the same with a first or last step that begins or ends very far outside the window (the field being the same at both ends)
        far = []
        for b in c.rng.sample(beh, min(len(beh), c.scale(4000, 40000))):
            T, n = b["T"], len(b["T"])
            lo = b["t0"] - b["W"] // 2
            for s, ok in ((1, n > 1 and T[-1] >= lo + b["N"] * b["W"]), (-1, n > 1 and T[0] <= lo)):
                if ok:
                    x, y = (n - 2, n - 1) if s > 0 else (1, 0)
                    e = [[v + (row[y] if i == x else 0) if i != y else 0 for i, v in enumerate(row)] for row in b["exp"]]
                    far.append(dict(b, far=s * 10.0 ** c.rng.choice([3, 6, 9, 9.5, 10, 12]), exp=e))
        out = c.run_driver(drv, far)
        c.compare(far, out, what="deposit of steps reaching far outside the window")
        c.extra["far"] = c.extra.get("far", 0) + len(far)
        c.samples.append({k: beh[len(beh) // 2][k] for k in ("W", "N", "t0", "T", "exp")})
    # 2. recorded integrations with many particles, validated by the specification
    n = c.scale(300, 3000)
    beh = []
    for i in range(n):
        rng = c.rng
        W = rng.choice([2, 4, 6, 8])
        N = rng.randint(2, 12)
        t0 = rng.randint(-30, 30)
        parts, bunches = [], []
        for _ in range(rng.randint(0, 3)):
            bl = []
            for _ in range(rng.randint(0, 3)):
                npts = rng.randint(1, 7)
                t = t0 + rng.randint(-4 * W, N * W)
                T = [t]
                for _ in range(npts - 1):
                    t += rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])
                    T.append(t)
                bl.append({"T": T, "F": [rng.randint(-9, 9) for _ in T]})
            bunches.append(bl)
            parts += bl
        D = 120
        real = rng.random() < 0.4
        b = {"mode": "sum", "W": W, "N": N, "t0": t0, "D": D, "pre": [rng.randint(-50, 50) * 120 for _ in range(N)],
             "bunches": bunches, "parts": parts, "real": real}
        if real:
            b["unit"] = 1e-12
            b["obs"] = [0.1 * rng.randint(-5, 5), 0.3, -0.2]
            b["R"] = 0.3 * rng.randint(1, 9)
            b["amp"] = 1e-3
        else:
            b["unit"] = rng.choice([1.0, 0.125, 3e-13])
            b["base"] = rng.choice([0, 1024])
        beh.append(b)
    out = c.run_driver(drv, beh)
    rec, ids = [], []
    for i, (b, o) in enumerate(zip(beh, out)):
        if "died" in o or not isinstance(o.get("obs"), list) or any(isinstance(x, str) for x in o["obs"]):
            c.violation("recorded integration not explainable: %s" % short(o), {"behaviour": b, "output": o})
            continue
        rec.append({"W": b["W"], "N": b["N"], "t0": b["t0"], "D": b["D"], "pre": b["pre"], "out": o["obs"],
                    "parts": [p for p in b["parts"] if len(p["T"]) >= 2]})
        ids.append(i)
    tf = c.path("rec.ndjson")
    with open(tf, "w") as f:
        for r in rec:
            f.write(json.dumps(r) + "\n")
    res = c.tlc("ObsTraceRec", "SPECIFICATION Spec\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tf},
                expect_ok=False, extra=["-continue"])
    if not res.ok and not res.violated:
        raise CheckError("TLC failed: " + res.text[-2000:])
    c.traces += len(rec)
    for p in res.printed:
        b = beh[ids[p["rejected"] - 1]]
        c.violation("recorded samples are not the superposition of the particles' fields: expected %s got %s" %
                    (short(p["exp"]), short(rec[p["rejected"] - 1]["out"])), {"behaviour": b, "exp": p["exp"]})
    if c.extra["far"] < 200:
        raise CheckError("vacuous: hardly any step reaches far outside the window")
    c.extra["recorded_particles"] = sum(len(b["parts"]) for b in beh)


if __name__ == "__main__":
    sys.exit(main("C04", check))
