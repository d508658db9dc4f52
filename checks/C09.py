import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

GEOS = "{" + ", ".join("[dx |-> <<%s>>, dy |-> <<%s>>, dyo |-> <<%s>>, nv |-> <<%s>>, nl |-> %d, a |-> %d]" % t for t in [
    ("3,0,0", "0,4,0", "0,4,0", "0,0,-1", 1, 12), ("0,2,0", "0,0,3", "0,0,3", "-1,0,0", 1, 6), ("3,4,0", "0,0,5", "0,0,5", "-4,3,0", 5, 25),
    ("-2,0,0", "0,0,1", "0,0,1", "0,-1,0", 1, 2), ("2,0,0", "3,4,0", "0,5,0", "0,0,-1", 1, 10), ("6,6,3", "1,-2,2", "1,-2,2", "-2,1,2", 3, 27)]) + "}"
SBAD = ["nofile", "garbage", "noscreen", "noNx", "noNy", "noNOTS", "nodt", "nofield", "rank3", "rank5", "nx+", "nx-", "ny+", "ny-", "nt+", "nt-", "comp3", "comp7",
        "swapped", "screen3", "screen5", "screen4x4", "truncated", "single"]
MBAD = ["nofile", "garbage", "truncated", "no_corners", "no_pos", "no_tri", "ncp_attr", "np_attr", "nt_attr", "dt_attr", "ncp_big", "ncp_small", "np_big", "np_small",
        "pos_long", "pos_short", "tri_long", "tri_short", "index_high", "index_neg", "time_long", "time_short", "field_np", "field_nt", "field_nt-", "field_comp", "field_rank", "notime"]
one = lambda geos, i: "{[" + geos[2:-2].split("], [")[i] + "]}"
tset = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"
SCFG = "SPECIFICATION Spec\nINVARIANTS GeoOK Transversal Emit\nCHECK_DEADLOCK FALSE\n"
MCFG = "SPECIFICATION Spec\nINVARIANTS Neighbours Proper RoundTrip Emit\nCHECK_DEADLOCK FALSE\n"
SBASE = dict(Geos=GEOS, Nxs="{1, 2, 3}", Nys="{1, 2, 4}", Nts="{2, 3, 5}", Dts="{1, 2, 5}", Dtxs="{0, 1, -2}", Origins="{<<0,0,0>>, <<3,-5,100>>}", Times="{0, -7, 20}",
             Seeds="0..6", Dists="{-6, -4, -3, -1, 1, 2, 3, 4, 5, 12}", Side="{0, 1, -1, 2}", Bads=tset(SBAD), Depth="9", Sim="TRUE")
MBASE = dict(Nxs="{1, 2, 3}", Nys="{1, 2}", Bumps="{0, 1, 2}", Axes="{<<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<2,1,3>>, <<1,3,2>>, <<3,2,1>>}",
             Signs="{<<1,1,1>>, <<-1,1,1>>, <<1,-1,1>>, <<1,1,-1>>, <<-1,-1,-1>>}", Nts="{1, 2, 4}", Dts="{1, 3}", T0s="{0, -7, 20}", Vals="{0, 1, 2, 5}",
             Bads=tset(MBAD), Extras="{0, 1, 2, 3}", Depth="14", Sim="TRUE")


def check(c):
    drv = c.build_driver("screens")
    ops = c.extra.setdefault("operations", {})
    n = lit = 0
    runs = [
        ("every screen defect", "SourceScr", SCFG, dict(Sim="FALSE", Geos=one(GEOS, 2), Nxs="{2}", Nys="{3}", Nts="{3}", Dts="{2}", Dtxs="{1}", Origins="{<<3,-5,100>>}",
                                                        Times="{-7}", Seeds="{3}", Depth="2"), None),
        ("every mesh defect", "Mesh", MCFG, dict(Sim="FALSE", Nxs="{2}", Nys="{1, 2}", Bumps="{1}", Axes="{<<2,3,1>>}", Signs="{<<1,-1,1>>}", Nts="{2}", Dts="{3}", T0s="{-7}",
                                                 Vals="{5}", Extras="{0}", Depth="2"), None),
        ("screens", "SourceScr", SCFG, dict(), c.scale(60, 1500)),
        ("one cell", "SourceScr", SCFG, dict(Nxs="{1}", Nys="{1}", Dists="{-6, -1, 1, 2, 3, 5, 12, 20}", Side="{0, 1, 3, -4}", Depth="10"), c.scale(60, 1500)),
        ("plain pairs", "SourceScr", SCFG, dict(Geos=one(GEOS, 0), Nxs="{1, 2}", Nys="{2}", Dtxs="{0, 1, -1}", Dists="{-4, -3, 3, 4}", Side="{0, 1, -1}", Depth="9"), c.scale(50, 1000)),
        ("files", "SourceScr", SCFG, dict(Nxs="{1, 2, 7}", Nys="{1, 3}", Nts="{2, 3, 9}", Dists="{3, 4}", Side="{0, 1}", Depth="4"), c.scale(200, 3000)),
        ("meshes", "Mesh", MCFG, dict(), c.scale(90, 1500)),
        ("mesh files", "Mesh", MCFG, dict(Nxs="{1, 2}", Depth="6"), c.scale(120, 1500)),
    ]
    for what, mod, cfg, consts, sim in runs:
        k = dict(SBASE if mod == "SourceScr" else MBASE)
        k.update(consts)
        r = c.tlc(mod, cfg, consts=k, simulate=sim, depth=24, timeout=700)
        beh = []
        for i, h in enumerate(r.printed):
            LL, TT, FU = [(1.0, 1e-3, 1.0), (1e-3, 2e-12, 1e6), (0.37, 1e-9, 40.0)][i % 3]
            beh.append({"kind": "mesh" if mod == "Mesh" else "screen", "L": LL, "T": TT, "FU": FU, "h": h})
            for e in h:
                o = ("mesh/" if mod == "Mesh" else "screen/") + e["op"]
                ops[o] = ops.get(o, 0) + 1
                w = e.get("what") or (e["a"].get("what") if "a" in e else None)
                if w:
                    ops[o + "/" + w] = ops.get(o + "/" + w, 0) + 1
        c.log("%s: %d states, %d histories" % (what, r.distinct, len(beh)))
        out = c.run_driver(drv, beh)
        n += sum(o.get("n", 0) for o in out)
        lit += sum(o.get("lit", 0) for o in out)
        c.compare(beh, out, expected=lambda b: [], what=what)
    c.extra["values_compared"], c.extra["points_with_field"] = n, lit
    c.samples.append([{k: v for k, v in e.items() if k != "data"} for e in r.printed[-1]][:2])
    for o in ["mesh/" + x for x in "create load init set setbad zero write".split()] + ["screen/" + x for x in "record load optional query energy".split()] + \
             ["mesh/bad/" + x for x in MBAD] + ["screen/bad/" + x for x in SBAD]:
        if not ops.get(o):
            raise CheckError("vacuous: %s never exercised" % o)
    if lit < 200:
        raise CheckError("vacuous: hardly any point sees the source")


if __name__ == "__main__":
    sys.exit(main("C09", check))
