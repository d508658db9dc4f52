import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

INV = "SPECIFICATION Spec\nINVARIANTS Provenance Parseval Geometry Moments Closed Samples\nPROPERTY Untouched\nCHECK_DEADLOCK FALSE\n"
SIM = "SPECIFICATION Spec\nINVARIANTS Moments Closed Samples Emit\nCHECK_DEADLOCK FALSE\n"
one = dict(Kinds='{"screen"}', Nxs="{2}", Nys="{1}", Nots="{2}", T0s="{0}", Dts="{1}", Skews="{1}", Frames="{2}", Normals="{1}", Origins="{1}", Olds="{FALSE}", Meshes="{1}",
           Toks="{3}", Nps="{1}", Coords="{0}", Moms="{1}", Circles="{1}", Steps="5", Sim="FALSE")
RND = dict(one, Nxs="{1, 2, 3, 4}", Nys="{1, 2, 3, 5}", Nots="{1, 2, 3, 4, 6}", T0s="{0, -7, 12}", Dts="{1, 2, 3}", Skews="{0, 1, -2}", Frames="1..5", Normals="1..5", Origins="1..3",
           Olds="{TRUE, FALSE, FALSE}", Meshes="1..5", Toks="1..40", Nps="1..5", Coords="-3..3", Moms="1..12", Circles="0..7", Steps="12", Sim="TRUE")
DRIVER = os.path.join(DRV, "analysis.py")


def specification(c):
    for kw in (dict(Steps=c.scale("5", "6")),
               dict(Nots="{3, 4}", Steps=c.scale("2", "3"), Toks=c.scale("1..8", "1..20"), Frames="1..5", Normals="{1, 4}", Nxs="{1, 2}"),
               dict(Kinds='{"mesh"}', Steps=c.scale("4", "5")),
               dict(Kinds='{"mesh"}', Steps="3", Meshes="1..5", Nots=c.scale("{3}", "{1, 3}"), Dts="{2}", Toks=c.scale("{3}", "{3, 8}")),
               dict(Kinds='{"watch"}', Nps=c.scale("{1, 2}", "{1, 2, 3}"), Coords="{-1, 2}", Moms="{1, 3, 9}")):
        r = c.tlc("Analysis", INV, consts=dict(one, **kw))
        c.log(kw, r.distinct)


def sessions(c):
    n = 0
    for kinds, count in (('{"screen"}', c.scale(480, 3200)), ('{"mesh"}', c.scale(400, 3200)), ('{"watch"}', c.scale(400, 3200))):
        b = c.tlc("Analysis", SIM, consts=dict(RND, Kinds=kinds), simulate=count, depth=30, timeout=900).printed
        for x in b:
            x["seed"] = c.rng.randrange(1 << 30)
            for o in x["ops"]:
                c.extra["op " + o["op"]] = c.extra.get("op " + o["op"], 0) + 1
        # no display, small batches on all cores
        k = 40
        parts = [b[i:i + k] for i in range(0, len(b), k)]
        with ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(lambda p: c.run_driver(DRIVER, p, env=dict(OMP_NUM_THREADS="1")), parts))
        for p, o in zip(parts, outs):
            bad = 0
            for x, y in zip(p, o):
                c.traces += 1
                d = y.get("obs", [y.get("died", "no answer")])
                if d:
                    bad += 1
                    c.violation("analysis %s: %s" % (x["kind"], d[0]), {"behaviour": x, "output": y})
            if bad >= 30:
                return
        n += len(b)
        c.samples.append(b[0])
    for op in ("read", "write", "copy", "set", "query", "totals", "readmesh", "writemesh", "make", "at", "report", "watch"):
        if not c.extra.get("op " + op):
            raise CheckError("no session with " + op)


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-13 * np.max(np.abs(b), initial=0)))


def plotted(got, d, err):
    """the display scripts draw the numbers of the files"""
    n = 0

    def curve(at, what, g, x, y, tol=1e-9):
        x, y = np.asarray(x, float), np.asarray(y, float)
        for a, b in g["curves"]:
            a, b = np.asarray(a), np.asarray(b)
            if a.shape == x.shape and b.shape == y.shape and np.all(np.abs(a - x) <= 1e-9 * np.max(np.abs(x), initial=0)) and np.all(np.abs(b - y) <= tol * np.max(np.abs(y), initial=0)):
                return
        err("%s: no curve with %s" % (at, what))
    for at, g in got.items():
        if "raised" in g:
            err("%s: %s" % (at, g["raised"]))
            continue
        name, base, *args = at.split(" ")
        t = content(os.path.join(d, base))
        col = lambda k: t["col:" + k]
        if name == "plot_BeamParameters.py":
            tm = 1e9 * col("t")
            for v in "xyz":
                curve(at, v, g, tm, col(v + "_av"))
                curve(at, v + "_rms", g, tm, col(v + "_rms") * (1e12 / C if v == "z" else 1e3), 2e-3)
            for k, v in ((("delta", col("delta")), ("BF", col("BF")), ("gamma", col("gamma") - col("gamma")[0])) if args else [("bg" + v, col("bg%s_av" % v)) for v in "xyz"]):
                curve(at, k, g, tm, v)
            n += 9 * tm.size
        elif name == "plot_PointObservation.py":
            for k in ("Ex", "Ey", "Ez", "Bx", "By", "Bz"):
                curve(at, k, g, 1e9 * col("t"), col(k))
            N = len(col("t"))
            dt = (col("t")[-1] - col("t")[0]) / (N - 1)
            if args:
                sp = np.real(np.fft.fft(col("Ex")) * np.conj(np.fft.fft(col("By"))))[:N // 2] / (4e-7 * math.pi) * 2 * dt * dt
                curve(at, "spectrum", g, 1e-12 * np.arange(N // 2) / (N * dt), 1e18 * sp)
            n += 7 * N
        elif name == "plot_Screen_TD.py":
            a, f = {k.split("@")[1]: float(v) for k, v in t.items() if k.startswith("Screen@")}, t["ElMagField"]
            nx, ny = int(a["Nx"]), int(a["Ny"])
            for ix, iy in ((nx // 2, ny // 2), (nx - 1, 0)):
                tm = 1e9 * (a["t0"] + a["dtx"] * (ix - nx // 2) + a["dty"] * (iy - ny // 2) + np.arange(int(a["NOTS"])) * a["dt"])
                for k in range(6):
                    curve(at, "component %d of cell (%d,%d)" % (k, ix, iy), g, tm, f[ix, iy, :, k])
                    n += tm.size
        elif name == "plot_SingleFrequency.py":
            a, f, s = {k.split("@")[1]: float(v) for k, v in t.items() if k.startswith("Screen@")}, t["ElMagField"], t["Screen"]
            nx, ny = int(a["Nx"]), int(a["Ny"])
            tm = a["t0"] + (a["dtx"] * (np.arange(nx) - nx // 2))[:, None, None] + (a["dty"] * (np.arange(ny) - ny // 2))[None, :, None] + np.arange(int(a["NOTS"])) * a["dt"]
            amp = [np.sum(f[:, :, :, k] * np.exp(2j * math.pi * float(args[0]) * tm), axis=2) for k in (0, 1)]
            m = max(np.max(np.abs(x)) for x in amp)
            if len(g["images"]) != 4:
                err("%s: %d images" % (at, len(g["images"])))
                continue
            im = [np.asarray(x[2]).T for x in g["images"]]
            M = max(np.max(im[0]), np.max(im[2]))
            for k in (0, 1):
                w = amp[k] / m
                if im[2 * k].shape != w.shape or np.max(np.abs(im[2 * k] / M * np.exp(1j * im[2 * k + 1]) - w)) > 1e-7:
                    err("%s: amplitude and phase of component %d" % (at, k))
                x, y = np.asarray(g["images"][2 * k][0]), np.asarray(g["images"][2 * k][1])
                ex = np.linalg.norm(s[2]) * (np.arange(nx + 1) - nx // 2 - 0.5)
                ey = np.linalg.norm(s[3]) * (np.arange(ny + 1) - ny // 2 - 0.5)
                if not (near12(x, np.tile(ex, (ny + 1, 1))) and near12(y, np.tile(ey[:, None], (1, nx + 1)))):
                    err("%s: edges of the cells" % at)
            n += 4 * f.size
        elif name == "plot_Snapshot.py":
            f = t["ElMagField"]
            for k in range(6):
                if not any(np.shape(x) == np.shape(y) and np.array_equal(x, y) for x in g["images"] for y in (f[:, :, k], f[:, :, k].T)):
                    err("%s: no image of component %d" % (at, k))
            n += f.size
    kinds = sorted({k.split(" ")[0] for k in got})
    if len(kinds) != 5:
        raise CheckError("scripts used: %s" % kinds)
    return n


def near12(a, b):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * np.max(np.abs(b), initial=0)))


def program_files(c):
    """Files written by the program, read by the modules; meshes written by the module, used by the program."""
    prog = Program(c)

    def run(i):
        rng = random.Random(c.seed * 100 + i)
        e = {"cfg": {"bunches": [rng.randrange(1, 5) for _ in range(rng.randrange(1, 4))], "log": [rng.choice([1, 3, 7]) for _ in range(3)]}}
        xml, fs, outs = physics_document(rng, e, fel=False)
        pts = [(0, 0, 0.002), (2e-3, 0, 0.002), (2e-3, 2e-3, 0.002), (0, 2e-3, 0.003)]
        m = dict(pts=pts, tri=[(0, 1, 2), (0, 2, 3)], t0=[1e-12, 2e-12], nt=14, dt=9e-13)
        rc, d, text = prog.run(xml, P=1, threads=1, files=fs)
        err = Err()
        if rc != 0:
            raise CheckError("the program failed: %s %s" % (rc, text[-400:]))
        call = lambda *a: subprocess.run([DRIVER] + list(a), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        res = os.path.join(c.dir, "files%d.json" % i)
        call("--files", d, res)
        got = json.load(open(res))
        n = 0
        for f, g in got.items():
            if "raised" in g:
                err("%s: %s" % (f, g["raised"]))
                continue
            base = f.split(":")[0]
            t = content(os.path.join(d, base))
            if base.startswith("w"):
                if base.endswith(".h5"):
                    a = t["electrons"]
                    want = dict(zip(("x", "y", "z", "bgx", "bgy", "bgz"), a.T))
                else:
                    want = {k: t["col:" + s] for k, s in zip(("x", "y", "z", "bgx", "bgy", "bgz"), ("x", "y", "z", "px", "py", "pz"))}
                want["gamma"] = np.sqrt(1 + want["bgx"] ** 2 + want["bgy"] ** 2 + want["bgz"] ** 2)
                want["NOP"] = len(want["x"])
            elif base.startswith("log"):
                col = {"t": "t", "gamma": "gamma", "delta": "delta", "BF": "BF"}
                for v in ("x", "y", "z"):
                    col.update({v + "_avg": v + "_av", v + "_rms": v + "_rms", "bg%s_avg" % v: "bg%s_av" % v})
                want = {k: t["col:" + s] for k, s in col.items()}
            elif "Screen" in t:
                s, at = t["Screen"], {k.split("@")[1]: float(v) for k, v in t.items() if k.startswith("Screen@")}
                want = dict(A=t["ElMagField"], Nx=at["Nx"], Ny=at["Ny"], nots=at["NOTS"], origin=s[0], normal=s[1], dX=s[2], dY=s[3])
                want.update({k: at[k] for k in ("t0", "dt", "dtx", "dty")})
                x = np.arange(int(at["Nx"])) - int(at["Nx"]) // 2
                y = np.arange(int(at["Ny"])) - int(at["Ny"]) // 2
                want["start"] = at["t0"] + at["dtx"] * x[:, None] + at["dty"] * y[None, :]
            else:
                want = dict(points=t["MeshCornerPoints"], triangles=t["MeshTriangles"], pos=t["ObservationPosition"], A=t["ElMagField"], t0=t["ObservationTime"],
                            Nt=t["ObservationTime@Nt"], dt=t["ObservationTime@dt"])
                k = same_content(content(os.path.join(d, "copy_" + base)), t, 0.0, "copy of " + base, err)
                n += k
            for k, v in want.items():
                n += np.size(v)
                if not near(g[k], v):
                    err("%s %s: %s, the file has %s" % (f, k, short(g[k]), short(np.asarray(v).tolist())))
        call("--plots", d, res)
        n += plotted(json.load(open(res)), d, err)
        kinds = sorted({re.sub(r"\d+\.|:.*", ".", f).rstrip(".") for f in got})
        if kinds != ["log.sdds", "o.h5", "w.h5", "w.sdds"]:
            raise CheckError("files of the program: %s" % kinds)
        # the same run with meshes that the module has written
        js = os.path.join(c.dir, "mesh%d.json" % i)
        with open(js, "w") as f:
            json.dump(m, f)
        rc2, d2, text2 = prog.run(xml, P=1, threads=1, files=[(a, (lambda fn: call("--mesh", js, fn)) if b is mesh_file else b) for a, b in fs])
        if rc2 != 0:
            err("the program ends with %s on a mesh written by the module: %s" % (rc2, text2[-200:]))
        else:
            for a, b in fs:
                if b is mesh_file:
                    x, y = content(os.path.join(d2, a)), content(os.path.join(d, a))
                    n += same_content({k: x[k] for k in ("ElMagField", "ObservationTime")}, {k: y[k] for k in ("ElMagField", "ObservationTime")}, 1e-12, "mesh of the module " + a, err)
                    if not np.any(x["ElMagField"]):
                        err(a + ": no fields")
        prog.clean(d), prog.clean(d2)
        return n, err, e

    for n, err, e in prog.map(range(c.scale(3, 24)), run):
        c.traces += 1
        c.extra["numbers read from files of the program"] = c.extra.get("numbers read from files of the program", 0) + n
        if err:
            c.violation("files of the program: " + err[0], {"deviations": list(err), "configuration": e})


def check(c):
    specification(c)
    sessions(c)
    program_files(c)


if __name__ == "__main__":
    sys.exit(main("C18", check))
