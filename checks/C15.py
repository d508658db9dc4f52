import glob, multiprocessing, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from program import *

INV = "INVARIANTS Complete Kept Barrier Verdict Flat Symmetric Causal Linear"
CFG = "SPECIFICATION Spec\n" + INV + "\nCHECK_DEADLOCK FALSE\n"
SIM = "SPECIFICATION Spec\nINVARIANTS Complete Kept Verdict Causal Emit\nCHECK_DEADLOCK FALSE\n"
BAD = ["missing", "garbage", "truncated", "directory", "empty", "no_corners", "no_pos", "no_tri", "index_high", "index_neg", "pos_long", "tri_short", "field_np", "field_nt", "time_short", "nodt"]
one = dict(Progs='{"propagate", "reflection"}', Modes='{"poly"}', Nargs="{3}", SrcStates='{"ok"}', TgtStates='{"ok"}', OutStates='{"new"}', Grids="{<<3, 3, 1, 1>>}", Fans="{0}",
           Winds="{1}", Jitters="{0}", Masks="{0}", Seeds="{3}", Nts="{3}", Dts="{3}", T0s="{0}", TNs="{2}", TNts="{3}", TDts="{2}", TT0s="{2}", Dists="{12}", Bends="{0}",
           Skews="{0}", Stags="{0}", Sim="FALSE")
sset = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"
RND = dict(one, Sim="TRUE", Nargs="{3, 4}", OutStates='{"new", "old", "target", "source"}', Grids="{<<3, 3, 1, 1>>, <<3, 4, 2, 1>>, <<4, 3, 1, 3>>, <<2, 2, 1, 1>>, <<2, 3, 1, 2>>}", Fans="0..4",
           Winds="{1, -1, 0}", Jitters="0..5", Masks="{0}", Seeds="1..60", Nts="{2, 3, 5, 8}", Dts="{1, 2, 5, 9}", T0s="{0, -40, 7, 1000}", TNs="{1, 2, 3, 7}", TNts="{1, 2, 6}",
           TDts="{1, 4, 7}", TT0s="{-12, -3, 0, 3, 9}", Dists="{4, 12, -5, 30, -21}", Skews="{0, 3, -17}", Stags="{0, 1, 2}", Bends="{0, 1, 2}")


def rotation(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    k = rng.randrange(4)
    if k == 0:  # axis parallel
        q = np.array([[1, 0, 0, 0], [1, 1, 0, 0], [1, 0, 1, 0], [0, 1, 0, 0], [1, -1, 0, 0], [1, 1, 1, 1]][rng.randrange(6)], float)
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


class World:
    """The specification's units and frame, placed somewhere in the laboratory."""
    def __init__(self, rng):
        self.L = rng.choice([1e-3, 1e-2, 0.1])
        self.tau = self.L / C
        self.E0 = rng.choice([1.0, 1e6, 3e-4])
        self.R = rotation(rng)
        self.o = np.array([rng.choice([0.0, 0.3, -2.0]) for _ in range(3)])

    def place(self, p):
        return self.o + self.L * np.array(p, float).reshape(-1, 3) @ self.R.T

    def field(self, f):
        """(..., 6) integer fields of the local frame"""
        f = np.array(f, float)
        return np.concatenate([self.E0 * f[..., :3] @ self.R.T, self.E0 / C * f[..., 3:] @ self.R.T], axis=-1)

    def back(self, f):
        return np.concatenate([f[..., :3] @ self.R / self.E0, f[..., 3:] @ self.R * C / self.E0], axis=-1)


def write_source(fn, w, e, f, nt=None):
    s, cfg = e["src"], e["cfg"]
    write_mesh(fn, w.place(s["pts"]), s["tri"], w.place(s["pos"]), np.array(e["st0"], float) * w.tau, cfg["dt"] * w.tau, f.shape[1] if nt is None else nt, f)


def write_target(fn, w, e, rng):
    s, cfg = e["tgt"], e["cfg"]
    n, nt = len(s["tri"]), cfg["tnt"]
    f = None if rng.random() < 0.3 else np.array([rng.uniform(-9, 9) for _ in range(n * nt * 6)]).reshape(n, nt, 6)
    notime = nt == 0 and rng.random() < 0.5
    if notime:
        f = None
    write_mesh(fn, w.place(s["pts"]), s["tri"], w.place(s["pos"]), np.array(e["tt0"], float) * w.tau, cfg["tdt"] * w.tau, nt, f)
    if notime:
        # the program supplies a time frame without samples
        with h5py.File(fn, "a") as f:
            del f["ObservationTime"]


def spoil(fn, what, rng):
    if what == "ok":
        return True
    if what in ("missing", "directory"):
        os.remove(fn)
        if what == "directory":
            os.mkdir(fn)
        return True
    if what in ("garbage", "empty", "truncated"):
        b = open(fn, "rb").read()
        b = {"garbage": b"SDDS1\n" + b"\x00\x7f" * 500, "empty": b"", "truncated": b[:len(b) * rng.randrange(2, 8) // 10]}[what]
        with open(fn, "wb") as f:
            f.write(b)
        return True
    with h5py.File(fn, "a") as f:
        def put(name, a):
            at = {k: (v, v.dtype) for k, v in f[name].attrs.items()}
            del f[name]
            d = f.create_dataset(name, data=a)
            for k, (v, t) in at.items():
                d.attrs.create(k, v, dtype=t)
        if what.startswith("field") and "ElMagField" not in f:
            return False
        if what in ("no_corners", "no_pos", "no_tri"):
            del f[{"no_corners": "MeshCornerPoints", "no_pos": "ObservationPosition", "no_tri": "MeshTriangles"}[what]]
        elif what in ("index_high", "index_neg"):
            t = f["MeshTriangles"][()]
            t[-1, rng.randrange(3)] = len(f["MeshCornerPoints"]) if what == "index_high" else -1
            f["MeshTriangles"][...] = t
        elif what == "pos_long":
            put("ObservationPosition", np.concatenate([f["ObservationPosition"][()]] * 2))
        elif what == "tri_short":
            put("MeshTriangles", f["MeshTriangles"][()][:, :2])
        elif what == "field_np":
            put("ElMagField", np.concatenate([f["ElMagField"][()]] * 2))
        elif what == "field_nt":
            put("ElMagField", np.concatenate([f["ElMagField"][()]] * 2, axis=1))
        elif what == "time_short":
            put("ObservationTime", f["ObservationTime"][()][:0])
        elif what == "nodt":
            del f["ObservationTime"].attrs["dt"]
        else:
            raise CheckError("unknown defect " + what)
    return True


def start(prog, d, args, threads):
    env = dict(os.environ, OMP_NUM_THREADS=str(threads))
    # (the runs are spread over processes: what does not end is counted in files)
    hung = os.path.join(os.path.dirname(prog), "hung-")
    if len(glob.glob(hung + "*")) >= 3:
        return "timeout", "not run: earlier runs did not end"
    try:
        p = subprocess.run([prog] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=90)
    except subprocess.TimeoutExpired as x:
        os.close(tempfile.mkstemp(prefix="hung-", dir=os.path.dirname(prog))[0])
        return "timeout", (x.stdout or b"").decode(errors="replace")
    return p.returncode, p.stdout.decode(errors="replace")


def read(fn):
    try:
        return h5all(fn)
    except (OSError, KeyError) as x:
        return {"error": np.array([0.0]), str(x)[:60]: np.array([0.0])}


def poly_reference(e):
    """sum of the terms of the specification, and the size of what is summed"""
    cfg = e["cfg"]
    v = np.zeros((cfg["tn"], cfg["tnt"], 6))
    m = np.zeros_like(v)
    hits = 0
    for j, a in enumerate(e["terms"]):
        for it, terms in enumerate(a):
            hits += len(terms)
            if terms:
                t = np.array(terms, float)
                R = np.sqrt(t[:, :1])
                P = R[:, :, None] ** (np.arange(4) - 3) / (16 * np.pi * cfg["dt"] ** 2)
                x = t[:, 1:].reshape(-1, 6, 4) * P
                v[j, it], m[j, it] = x.sum(axis=(0, 2)), np.abs(x).sum(axis=(0, 2))
    return v, m, hits


def free_reference(e, f):
    """the same propagation for arbitrary fields f on an arbitrary mesh (units of the specification)"""
    cfg, S = e["cfg"], e["src"]
    pos = np.array(S["pos"], float)
    N = np.array(e["n"], float)
    A2 = np.linalg.norm(N, axis=1)
    N = N / A2[:, None]
    nt, dt = cfg["nt"], float(cfg["dt"])
    t0 = np.array(e["st0"], float)
    f = np.array(f, float)
    if cfg["prog"] == "reflection":
        E, B = f[..., :3], f[..., 3:]
        nn = N[:, None, :]
        f = np.concatenate([2 * nn * np.sum(E * nn, -1, keepdims=True) - E, B - 2 * nn * np.sum(B * nn, -1, keepdims=True)], axis=-1)
    D = np.gradient(f, dt, axis=1) if nt > 1 else np.zeros_like(f)

    def at(F, t0, t):
        r = (np.asarray(t) - t0) / dt
        r = np.where(np.abs(r - np.round(r)) < 1e-9, np.round(r), r)
        k = np.floor(r).astype(int)
        x = (r - k)[..., None]
        g = np.concatenate([np.zeros((1, 6)), F, np.zeros((1, 6))])
        c = lambda i: g[np.clip(i + 1, 0, len(F) + 1)]
        return c(k) * (1 - x) + c(k + 1) * x
    An = np.zeros_like(f)
    worst = 0
    for i in range(len(N)):
        n = N[i]
        u = np.cross(n, [1.0, 0, 0] if abs(n[0]) < 0.8 else [0, 1.0, 0])
        u /= np.linalg.norm(u)
        v = np.cross(n, u)
        nb = [k - 1 for k in e["nbh"][i]]
        d = pos[nb] - pos[i]
        a, b = d @ u, d @ v
        M = np.stack([np.ones(len(nb)), a, b, a * a, b * b, a * b], axis=1)
        s = np.linalg.svd(M, compute_uv=False)
        if len(s) < 6 or s[5] < 1e-3 * s[0] / max(1.0, s[0]) or s[5] < 1e-4:
            return None, None
        T = np.stack([u, v, n])
        pin = np.linalg.pinv(M)
        ts = t0[i] + dt * np.arange(nt)
        F = np.stack([at(f[k], t0[k], ts) for k in nb])  # nbh, nt, 6
        loc = np.concatenate([F[..., :3] @ T.T, F[..., 3:] @ T.T], axis=-1)
        fit = np.einsum("mk,ktc->mtc", pin, loc)
        gx, gy = fit[1], fit[2]
        dl = np.concatenate([D[i][:, :3] @ T.T, D[i][:, 3:] @ T.T], axis=-1)
        g = np.stack([gx[:, 2] - dl[:, 4], gy[:, 2] + dl[:, 3], -gx[:, 0] - gy[:, 1], gx[:, 5] + dl[:, 1], gy[:, 5] - dl[:, 0], -gx[:, 3] - gy[:, 4]], axis=-1)
        An[i] = np.concatenate([g[:, :3] @ T, g[:, 3:] @ T], axis=-1)
        worst = max(worst, float(np.max(np.abs(g), initial=0)))
    v = np.zeros((cfg["tn"], cfg["tnt"], 6))
    m = np.zeros((cfg["tn"], cfg["tnt"], 1))
    for j in range(cfg["tn"]):
        T = e["tt0"][j] + cfg["tdt"] * np.arange(cfg["tnt"])
        for i in range(len(N)):
            r = np.array(e["tgt"]["pos"][j], float) - pos[i]
            R = np.linalg.norm(r)
            w = r @ N[i]
            a = A2[i] / (8 * np.pi)
            p = [-w / R ** 3 * at(f[i], t0[i], T - R), -w / R ** 2 * at(D[i], t0[i], T - R), at(An[i], t0[i], T - R) / R]
            v[j] += a * sum(p)
            m[j] += a * np.max(sum(abs(x) for x in p), axis=-1, keepdims=True)
    return v, m + 1e-12


def job(scratch, exe, e, seed):
    rng = random.Random(seed)
    cfg, err, info = e["cfg"], [], {"hits": 0, "values": 0, "kind": []}
    w = World(rng)
    threads = rng.choice([1, 2, 3, 8])
    d = tempfile.mkdtemp(prefix="run-", dir=scratch)
    tools = exe[cfg["prog"]]
    nsrc, nt = len(e["src"]["tri"]), cfg["nt"]
    if cfg["mode"] == "poly":
        raw = np.array(e["f"], float).reshape(nsrc, nt, 6)
    else:
        kind = rng.choice(["any", "any", "cell", "E", "B", "sparse", "component"])
        raw = np.array([rng.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(nsrc * nt * 6)], float).reshape(nsrc, nt, 6)
        if kind == "cell":
            keep = rng.randrange(nsrc)
            raw[[i for i in range(nsrc) if i != keep]] = 0
        elif kind == "sparse":
            raw[:, [i for i in range(nt) if i != nt // 2]] = 0
        elif kind == "E":
            raw[..., 3:] = 0
        elif kind == "B":
            raw[..., :3] = 0
        elif kind == "component":
            raw[..., [i for i in range(6) if i != rng.randrange(6)]] = 0
        info["kind"].append(kind)
    S, T, O = (os.path.join(d, x) for x in ("source.h5", "target.h5", "result.h5"))
    write_source(S, w, e, w.field(raw))
    write_target(T, w, e, rng)
    geometry = read(T)
    okfiles = spoil(S, cfg["src"], rng) and spoil(T, cfg["tgt"], rng)
    if not okfiles:
        shutil.rmtree(d, True)
        return [], None
    out = {"new": "result.h5", "old": "result.h5", "target": "target.h5", "source": "source.h5", "nodir": "nowhere/result.h5", "dir": "result.h5"}[cfg["out"]]
    if cfg["out"] == "old":
        with open(O, "w") as f:
            f.write("an older file")
    if cfg["out"] == "dir":
        os.mkdir(O)
    args = ["source.h5", "target.h5", out, "more"][:cfg["nargs"]]
    snap = lambda: {os.path.relpath(os.path.join(a, x), d): (open(os.path.join(a, x), "rb").read() if x in fs else None) for a, ds, fs in os.walk(d) for x in ds + fs}
    before = snap()
    rc, text = start(tools, d, args, threads)
    at = "%s %s (%d threads)" % (cfg["prog"], " ".join(args), threads)
    after = snap()
    if not e["ok"]:
        if rc == 0 or rc == "timeout":
            err.append("%s: source %s, target %s, output %s, %d samples: ended with %s" % (at, cfg["src"], cfg["tgt"], cfg["out"], nt, rc))
        if not text.strip():
            err.append("%s: no message" % at)
        if cfg["nargs"] < 3 and "usage" not in text.lower():
            err.append("%s: missing arguments, but no explanation of the usage" % at)
        if before != after:
            err.append("%s: failed run changed %s" % (at, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))))
    elif rc != 0:
        err.append("%s ended with %s: %s" % (at, rc, text[-300:]))
    else:
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        if [x for x in ch if x != out]:
            err.append("%s: changed %s" % (at, ch))
        r = read(os.path.join(d, out))
        for k in geometry:
            if k != "ElMagField" and (k not in r or not np.array_equal(r[k], geometry[k])):
                err.append("%s: %s of the target is not kept: %s" % (at, k, r.get(k)))
        got = r.get("ElMagField")
        if got is None or got.shape != (cfg["tn"], cfg["tnt"], 6):
            err.append("%s: fields %s" % (at, None if got is None else got.shape))
        else:
            got = w.back(got)

            def compare(got, v, m, what, tol=2e-7):
                info["values"] += got.size
                # components mix by rotation: the scale is that of all components
                m = np.max(m, axis=-1, keepdims=True)
                bad = ~(np.abs(got - v) <= tol * m + 1e-13)
                if np.any(bad):
                    i = tuple(int(x) for x in np.argwhere(bad)[0])
                    err.append("%s: %s cell %d sample %d component %d is %.9g expected %.9g (%d of %d differ)" % (at, what, i[0], i[1], i[2], got[i], v[i], bad.sum(), bad.size))
            v, m = free_reference(e, raw)
            if cfg["mode"] == "poly":
                pv, pm, info["hits"] = poly_reference(e)
                if v is not None and not np.all(np.abs(v - pv) <= 1e-7 * np.max(pm, axis=-1, keepdims=True) + 1e-9):
                    raise CheckError("the evaluation of free fields does not reproduce the specification")
                if v is None:
                    # the cells around one of the cells lie on a conic: the fit is not determined
                    info["kind"].append("undetermined fit")
                    info["hits"] = 0
                else:
                    compare(got, pv, pm, "field of")
            else:
                if v is not None:
                    info["hits"] = int(np.count_nonzero(v))
                    compare(got, v, m, "field of")
                    scale = m
                else:
                    info["kind"].append("no reference")
                    scale = None
                # superposition of complementary parts
                if rng.random() < 0.5:
                    part = np.array([rng.random() < 0.5 for _ in range(nsrc)])
                    parts = [raw * part[:, None, None], raw * ~part[:, None, None]]
                    info["kind"].append("cells")
                elif rng.random() < 0.6:
                    parts = [raw.copy(), raw.copy()]
                    parts[0][..., 3:], parts[1][..., :3] = 0, 0
                    info["kind"].append("E+B")
                else:
                    parts = [4 * raw, -3 * raw]
                    info["kind"].append("scaled")
                tot = np.zeros_like(got)
                mag = np.abs(got)
                for p in parts:
                    write_source(S, w, e, w.field(p))
                    if cfg["out"] == "target":
                        write_target(T, w, e, rng)
                    rc, text = start(tools, d, args, rng.choice([1, 2, 5]))
                    q = read(os.path.join(d, out)).get("ElMagField")
                    if rc != 0 or q is None or q.shape != tot.shape:
                        err.append("%s: superposition run ended with %s, %s" % (at, rc, text[-200:]))
                        break
                    q = w.back(q)
                    tot += q
                    mag = mag + np.abs(q)
                else:
                    compare(got, tot, mag + (0 if scale is None else scale) + 1e-6 * np.max(mag, initial=0), "superposition (%s), " % info["kind"][-1])
    shutil.rmtree(d, True)
    return err, info


def check(c):
    c.build_lib()
    builders = ThreadPoolExecutor(2)
    building = {p: builders.submit(c.build_program, p) for p in ("propagate", "reflection")}
    # every order of the cells, every kind of failure
    r = c.tlc("Propagate", CFG, consts=dict(one, Modes='{"free"}', Grids="{<<1, 2, 1, 1>>, <<1, 1, 1, 1>>}", TNs=c.scale("{1, 3}", "{1, 5}"), Nargs="{0, 1, 2, 3}", SrcStates='{"ok", "bad"}',
                                            TgtStates='{"ok", "bad"}', Nts="{1, 2}", OutStates='{"new", "old", "target", "source", "nodir"}', Winds="{1, 0}"), timeout=700)
    c.log("all runs of a small model: %d states" % r.distinct)
    r = c.tlc("Propagate", CFG, consts=dict(one, Sim="TRUE", Grids="{<<2, 2, 1, 1>>, <<2, 1, 3, 1>>}", Fans="{0, 1}", Winds="{1, -1, 0}", Seeds="1..60", Jitters="0..5", Masks="0..8", Nts="{2, 5}",
                                            TT0s="{-12, -3, 0, 3, 9}", TNs="{1}", Dists="{4, 12, -5}"), simulate=c.scale(24, 400), depth=20, timeout=700)
    c.log("superposition and causality of the specification: %d states" % r.distinct)
    r = c.tlc("Propagate", "SPECIFICATION Live\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n", consts=dict(one, Grids="{<<1, 1, 1, 1>>}", SrcStates='{"ok", "bad"}', OutStates='{"new", "nodir"}'), timeout=700)
    exe = {p: b.result() for p, b in building.items()}
    c.log("built")
    runs = [
        # the result of every failure that can occur, alone and together
        ("arguments", dict(one, Nargs="{0, 1, 2, 3, 4}", Grids="{<<1, 1, 1, 1>>}", Modes='{"free"}', OutStates='{"new", "old", "nodir", "dir"}'), None),
        ("bad source", dict(one, SrcStates=sset(BAD), Grids="{<<1, 1, 1, 1>>}", Modes='{"free"}', OutStates='{"new", "old"}'), None),
        ("bad target", dict(one, TgtStates=sset(BAD), Grids="{<<1, 1, 1, 1>>}", Modes='{"free"}', OutStates='{"new", "old"}'), None),
        ("short traces", dict(one, Nts="{0, 1}", Grids="{<<1, 1, 1, 1>>}", Modes='{"free"}', OutStates='{"new", "old", "target"}'), None),
        ("no samples", dict(one, TNts="{0}", TNs="{1, 3}", Modes='{"free"}'), None),
        ("polynomial fields", dict(RND), c.scale(120, 1500)),
        ("partial fields", dict(RND, Masks="1..8", Fans="{0}"), c.scale(50, 700)),
        ("bent meshes", dict(RND, Modes='{"free"}', Grids="{<<3, 3, 1, 1>>, <<3, 4, 2, 1>>, <<2, 2, 3, 2>>, <<1, 2, 1, 1>>, <<5, 4, 2, 3>>}", Dists="{15, -14, 40}"), c.scale(150, 1500)),
    ]
    stat = c.extra.setdefault("runs", {})
    hits = values = 0
    for what, consts, sim in runs:
        r = c.tlc("Propagate", SIM, consts=consts, simulate=sim, depth=20, timeout=700)
        es = {json.dumps(e, sort_keys=True): e for e in r.printed}
        es = [es[k] for k in sorted(es)]
        c.log("%s: %d different runs" % (what, len(es)))
        # processes: a file that is open in one thread would be inherited by programs another one starts
        with multiprocessing.get_context("fork").Pool(6) as pool:
            res = pool.starmap(job, [(c.dir, exe, e, c.seed * 100000 + i) for i, e in enumerate(es)], chunksize=4)
        for e, (err, info) in zip(es, res):
            if info is None:
                stat["inapplicable"] = stat.get("inapplicable", 0) + 1
                continue
            c.traces += 1
            hits += info["hits"]
            values += info["values"]
            cfg = e["cfg"]
            for k in [what, cfg["prog"], "output " + cfg["out"], "%d source cells" % len(e["src"]["tri"])] + ["fields: " + k for k in info["kind"]] + \
                    (["source " + cfg["src"]] if cfg["src"] != "ok" else []) + (["target " + cfg["tgt"]] if cfg["tgt"] != "ok" else []) + ["ended well" if e["ok"] else "refused"]:
                stat[k] = stat.get(k, 0) + 1
            for x in err[:1]:
                c.violation("%s: %s" % (what, "; ".join(err)[:600]), {"cfg": cfg, "errors": err[:5]})
    c.samples.append({"cfg": es[0]["cfg"], "neighbours": es[0]["nbh"][0]})
    c.extra["contributions"], c.extra["values_compared"] = hits, values
    for k in ["propagate", "reflection", "fields: E+B", "fields: cells", "fields: scaled", "32 source cells", "24 source cells", "ended well", "refused"] + ["source " + b for b in BAD] + \
             ["target " + b for b in BAD] :
        if not stat.get(k):
            raise CheckError("vacuous: %s never exercised" % k)
    if hits < 8000:
        raise CheckError("vacuous: hardly anything arrives (%d)" % hits)


if __name__ == "__main__":
    sys.exit(main("C15", check))
