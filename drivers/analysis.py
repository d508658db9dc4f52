#!/usr/bin/env python3
"""Sessions of the specification Analysis with the analysis modules of the repository.
usage: analysis.py IN OUT     (one JSON behaviour per line; results {"obs": [deviations]})
       analysis.py --files DIR OUT    read files written by the program, give their content
       analysis.py --plots DIR OUT    run the display scripts on these files, give the curves and images they draw
       analysis.py --mesh IN OUT      write a mesh for the program"""
import contextlib, copy, io, json, math, os, re, runpy, sys, tempfile, traceback, types
from unittest.mock import MagicMock
import random
import warnings
warnings.simplefilter("ignore")
import numpy as np
import h5py

SCRIPTS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "scripts")
sys.dont_write_bytecode = True
sys.path.insert(0, SCRIPTS)


class Anything:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        return MagicMock()


# display is not part of what is looked at
for m in ("matplotlib", "matplotlib.pyplot", "matplotlib.ticker", "matplotlib.patches", "vtk", "pygmsh"):
    sys.modules[m] = MagicMock()
sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]
sys.modules["vtk"].vtkInteractorStyleTrackballCamera = Anything

MU0 = 1.25663706212e-6
C = 299792458.0
MEC2 = 510998.95
TOL = 1e-8


class Dev(list):
    def __call__(self, what, want, got, tol=TOL, size=None):
        """deviation of numbers or arrays; size: magnitude of what is summed up"""
        w, g = np.asarray(want, float), np.asarray(got)
        if g.dtype.kind not in "fiu" or w.shape != g.shape:
            self.append("%s: shape %s, expected %s (%s)" % (what, g.shape, w.shape, g.dtype))
            return
        if not w.size:
            return
        m = np.max(np.abs(w)) if size is None else size if tol == 1.0 else max(np.max(np.abs(w)), np.max(np.abs(size)))
        if not np.all(np.abs(g - w) <= tol * m):
            k = np.unravel_index(np.argmax(np.where(np.isfinite(g), np.abs(g - w), np.inf)), w.shape) if w.shape else ()
            self.append("%s%s: %r, expected %r" % (what, list(map(int, k)) if w.shape else "", g[k].item(), w[k].item()))

    def same(self, what, want, got):
        if want != got:
            self.append("%s: %r, expected %r" % (what, got, want))


def quiet(fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn(*a, **k)
    return r, out.getvalue()


def script(name, *args):
    old = sys.argv
    sys.argv = [name] + list(args)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            try:
                runpy.run_path(os.path.join(SCRIPTS, name), run_name="__main__")
            except SystemExit as x:
                if x.code:
                    raise RuntimeError("%s ended with %s" % (name, x.code))
    finally:
        sys.argv = old
    return out.getvalue()


def numbers(text, label):
    """the numbers behind a label; vectors may go on in the next line"""
    k = text.find(label)
    if k < 0:
        raise RuntimeError("no line %r in the output" % label)
    rest = text[k + len(label):]
    line = rest[:rest.index("]")] if rest.lstrip().startswith("[") else rest.split("\n")[0]
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf", line.split("V/m")[0].split("J")[0])]


class Units:
    def __init__(self, r):
        self.L = 2.0 ** r.randrange(-12, 4)
        self.T = 2.0 ** r.randrange(-50, -30)
        self.E = 2.0 ** r.randrange(-4, 30)
        self.B = 2.0 ** r.randrange(-30, 3)
        self.S = self.E * self.B / MU0


# ------------------------------------------------------------------ screens

def screen_raw(c, u):
    g = c["g"]
    f = np.array(c["cell"], float).reshape(g["nx"], g["ny"], g["nots"], 6) * np.array([u.E] * 3 + [u.B] * 3)
    s = np.array([np.array(g["o"]) * u.L, np.array(g["n"]) / g["ln"], np.array(g["dx"]) * u.L, np.array(g["dy"]) * u.L], float)
    return s, f


def provide_screen(fn, c, u):
    g = c["g"]
    s, f = screen_raw(c, u)
    with h5py.File(fn, "w") as h:
        d = h.create_dataset("ElMagField", data=f)
        if c["old"]:
            p = h.create_dataset("ObservationPosition", data=np.array(c["posn"], float).reshape(g["nx"], g["ny"], 3) * u.L)
            p.attrs["Nx"], p.attrs["Ny"] = np.int32(g["nx"]), np.int32(g["ny"])
            d.attrs["NOTS"], d.attrs["t0"], d.attrs["dt"] = np.int32(g["nots"]), g["t0"] * u.T, g["dt"] * u.T
        else:
            a = h.create_dataset("Screen", data=s).attrs
            a["Nx"], a["Ny"], a["NOTS"] = np.uint32(g["nx"]), np.uint32(g["ny"]), np.uint32(g["nots"])
            a["t0"], a["dt"], a["dtx"], a["dty"] = g["t0"] * u.T, g["dt"] * u.T, g["dtx"] * u.T, g["dty"] * u.T


def check_screen_file(fn, c, u, err, at):
    if c["old"]:
        return
    g = c["g"]
    s, f = screen_raw(c, u)
    with h5py.File(fn, "r") as h:
        err.same(at + " entries", ["ElMagField", "Screen"], sorted(h.keys()))
        err(at + " geometry", s, h["Screen"][()])
        err(at + " field", f, h["ElMagField"][()])
        a = h["Screen"].attrs
        for k, v in (("Nx", g["nx"]), ("Ny", g["ny"]), ("NOTS", g["nots"])):
            err.same(at + " " + k, v, int(a[k]))
        for k in ("t0", "dt", "dtx", "dty"):
            err(at + " " + k, g[k] * u.T, a[k])


def check_screen(o, c, u, err, at):
    g = c["g"]
    s, f = screen_raw(c, u)
    err(at + " field", f, o.A)
    err.same(at + " shape", (g["nx"], g["ny"]), tuple(int(x) for x in o.shape()))
    err.same(at + " samples", g["nots"], int(o.nots))
    for k, v in zip(("origin", "normal", "dX", "dY"), s):
        err(at + " " + k, v, getattr(o, k))
    for k in ("t0", "dt", "dtx", "dty"):
        err(at + " " + k, g[k] * u.T, getattr(o, k))


def query_screen(o, c, op, u, err, at):
    g, x = c["g"], op["exp"]
    ix, iy = (op["i"] - 1) // g["ny"], (op["i"] - 1) % g["ny"]
    at = "%s cell (%d,%d)" % (at, ix, iy)
    err(at + " start time", x["start"] * u.T, o.getStartTime(ix, iy), size=(abs(g["t0"]) + 5) * u.T)
    err(at + " position", np.array(x["pos"]) * u.L, o.screenPos(ix, iy))
    e, b = o.getFieldTrace(ix, iy)
    tr = np.array(x["trace"], float)
    err(at + " E", tr[:, :3] * u.E, e)
    err(at + " B", tr[:, 3:] * u.B, b)
    w = u.S * u.T * g["dt"]
    err(at + " energy", x["power"] / g["ln"] * w, o.totalPowerDensity(ix, iy), size=g["nots"] * w)
    pl = np.array(x["plane"], float)
    for k, (n, l, un) in enumerate((("EH", "lx", u.E), ("EV", "ly", u.E), ("BH", "lx", u.B), ("BV", "ly", u.B))):
        err("%s %s" % (at, n), pl[:, k] / g[l] * un, o.getInPlaneFields(ix, iy)[k], size=un)
    dt = g["dt"] * u.T
    for n in ("H", "V"):
        f, a = getattr(o, "spectralDensity" + n)(ix, iy)
        k = np.arange(g["nots"] // 2)
        err("%s channels %s" % (at, n), k / (g["nots"] * dt), f)
        want = np.sqrt(np.array(x["spec" + n], float)) / 2 / (g["lx"] * g["ly"]) * u.S * 2 * dt * dt
        err("%s spectrum %s" % (at, n), want, a, size=g["nots"] ** 2 * u.S * 2 * dt * dt)
        if hasattr(o, "frequency") and len(k):
            err("%s frequency %s" % (at, n), k / (g["nots"] * dt), [o.frequency(int(i)) for i in k])
    if hasattr(o, "df"):
        err(at + " df", 1 / (g["nots"] * dt), o.df())


def totals_screen(fn, c, op, u, err, at):
    g, x = c["g"], op["exp"]
    t = script("plot_Screen.py", fn, "-circ", repr(x["r"] * u.L))
    w = 1e6 * u.S * u.T * g["dt"]
    area = u.L ** 2
    n = g["nx"] * g["ny"] * g["nots"] * g["lx"] * g["ly"]
    err(at + " total energy", [x["total"] / g["ln"] * w * area], numbers(t, "integrated energy = "), 1e-6, n * w * area)
    err(at + " energy in circle", [x["circle"] / g["ln"] * w * area], numbers(t, "integrated energy in circle = "), 1e-6, n * w * area)
    err(at + " axis", np.array(x["axis"]) * w, numbers(t, "energy flow density on axis = "), 1e-4)
    dt = g["dt"] * u.T
    sp = np.sqrt(np.array(x["spec"], float)).sum() / 2 / (g["lx"] * g["ly"]) * 1e6 * u.S * 2 * dt / g["nots"]
    err(at + " spectrum on axis", [sp], numbers(t, "total spectral power density on axis = "), 1e-5, g["nots"] * w)
    for k, nm in enumerate(("Ex", "Ey", "Ez", "Bx", "By", "Bz")):
        err("%s peak %s" % (at, nm), [x["peak"][k] * (u.E if k < 3 else u.B)], numbers(t, "peak %s = " % nm), 1e-6)


# ------------------------------------------------------------------ meshes

def mesh_raw(c, u):
    g = c["g"]
    p = np.array(g["pts"], float) * u.L
    t = np.array(g["tri"], int)
    return p, t, (p[t[:, 0]] + p[t[:, 1]] + p[t[:, 2]]) / 3


def mesh_fields(c, u):
    if "none" in c["time"]:
        return None, None
    return np.array(c["time"]["t0"], float) * u.T, np.array(c["cell"], float).reshape(len(c["cell"]), c["time"]["nt"], 6) * np.array([u.E] * 3 + [u.B] * 3)


def provide_mesh(fn, c, u):
    p, t, m = mesh_raw(c, u)
    t0, f = mesh_fields(c, u)
    with h5py.File(fn, "w") as h:
        h.create_dataset("MeshCornerPoints", data=p).attrs["Ncp"] = np.int32(len(p))
        h.create_dataset("MeshTriangles", data=t.astype(np.int32)).attrs["Ntri"] = np.int32(len(t))
        h.create_dataset("ObservationPosition", data=m).attrs["Np"] = np.int32(len(t))
        if t0 is not None:
            a = h.create_dataset("ObservationTime", data=t0).attrs
            a["Nt"], a["dt"] = np.int32(c["time"]["nt"]), c["time"]["dt"] * u.T
            h.create_dataset("ElMagField", data=f)


def make_mesh(mod, c, u):
    p, t, m = mesh_raw(c, u)
    o = mod.MeshedField(p, t)
    t0, f = mesh_fields(c, u)
    if t0 is not None:
        o.t0, o.A, o.Nt, o.dt = t0, f, c["time"]["nt"], c["time"]["dt"] * u.T
    return o


def check_mesh_file(fn, c, u, err, at):
    p, t, m = mesh_raw(c, u)
    t0, f = mesh_fields(c, u)
    with h5py.File(fn, "r") as h:
        err.same(at + " entries", sorted(["MeshCornerPoints", "MeshTriangles", "ObservationPosition"] + ([] if t0 is None else ["ObservationTime", "ElMagField"])), sorted(h.keys()))
        err(at + " corners", p, h["MeshCornerPoints"][()])
        err(at + " triangles", t, h["MeshTriangles"][()])
        err(at + " centres", m, h["ObservationPosition"][()])
        err.same(at + " types", ["f8", "i4", "f8"], [h[k].dtype.str[1:] for k in ("MeshCornerPoints", "MeshTriangles", "ObservationPosition")])
        err.same(at + " counts", [len(p), len(t), len(t)], [int(h["MeshCornerPoints"].attrs["Ncp"]), int(h["MeshTriangles"].attrs["Ntri"]), int(h["ObservationPosition"].attrs["Np"])])
        if t0 is not None and "ObservationTime" in h and "ElMagField" in h:
            err(at + " start times", t0, h["ObservationTime"][()])
            err.same(at + " Nt", c["time"]["nt"], int(h["ObservationTime"].attrs["Nt"]))
            err(at + " dt", c["time"]["dt"] * u.T, h["ObservationTime"].attrs["dt"])
            err(at + " field", f, h["ElMagField"][()])


def check_mesh(o, c, u, err, at):
    p, t, m = mesh_raw(c, u)
    t0, f = mesh_fields(c, u)
    err(at + " corners", p, o.points)
    err(at + " triangles", t, o.triangles)
    err(at + " centres", m, np.array(o.pos))
    err.same(at + " cells", len(t), int(o.Np))
    if t0 is None:
        err.same(at + " without fields", [0, 0, 0], [int(np.size(o.A)), int(np.size(o.t0)), int(o.Nt)])
    else:
        err(at + " start times", t0, o.t0)
        err(at + " field", f, o.A)
        err.same(at + " Nt", c["time"]["nt"], int(o.Nt))
        err(at + " dt", c["time"]["dt"] * u.T, o.dt)


def query_mesh(o, c, op, u, err, at):
    x, i = op["exp"], op["i"] - 1
    at = "%s cell %d" % (at, i)
    s = math.sqrt(x["size"])
    err(at + " centre", np.array(x["centre"]) * u.L / 3, o.pos[i], size=u.L)
    err(at + " area", s / 2 * u.L ** 2, o.MeshArea()[i])
    err(at + " normal", np.array(x["wind"]) / s, o.MeshNormal(i))
    err(at + " normals", np.array(x["wind"]) / s, o.MeshNormals()[i])
    err(at + " box", np.array(x["box"]) * u.L, np.array(o.BoundingBox()))
    if x["trace"]:
        nt = c["time"]["nt"]
        w = u.S * u.T * c["time"]["dt"]
        err(at + " trace", np.array(x["trace"]) * np.array([u.E] * 3 + [u.B] * 3), o.FieldTrace(i))
        err(at + " energy flow", np.array(x["flow"]) * w, o.EnergyFlowVector(i), size=nt * w)
        err(at + " incident energy", x["incident"] / s * w, o.NormalEnergyFlow(i), size=nt * w)


def report_mesh(fn, c, op, u, err, at):
    x = op["exp"]
    t = script("plot_MeshedField.py", fn)
    w = u.S * u.T * c["time"]["dt"]
    size = np.sqrt(np.array(x["size"], float))
    err.same(at + " counts", [x["np"], len(size)], [int(re.search(r"^(\d+) points", t, re.M).group(1)), int(re.search(r"^(\d+) triangles", t, re.M).group(1))])
    area = 1e4 * size.sum() / 2 * u.L ** 2
    err(at + " area", [area], numbers(t, "total mesh area = ")[:1], 1.0, max(0.6e-3, 1e-9 * area))
    err(at + " pulse energy", [1e6 * x["incident2"] / 2 * u.L ** 2 * w], numbers(t, "total pulse energy = "), 1e-5, 1e6 * size.sum() * u.L ** 2 * w)
    err(at + " peak", [math.sqrt(x["peak"]) * w], numbers(t, "peak energy density = ")[:1], 1e-5)


# ------------------------------------------------------------------ watch points

COLS = ["t", "x", "y", "z", "px", "py", "pz", "p", "xp", "yp", "gamma"]


def write_sdds(fn, rows):
    with open(fn, "w") as f:
        f.write("SDDS1\n&parameter name=NumberOfParticles, type=long, &end\n&parameter name=Charge, units=C, type=double, &end\n")
        for c in COLS:
            f.write("&column name=%s, type=double, &end\n" % c)
        f.write("&data mode=ascii, &end\n%d\n%.17g\n%d\n" % (len(rows), -1e-12 * len(rows), len(rows)))
        for r in rows:
            f.write(" ".join(repr(float(x)) for x in r) + "\n")


def watch(d, op, u, err, r, teufel):
    x = op["exp"]
    n = x["n"]
    pos = np.array(x["x"], float) * u.L
    mom = np.array(x["p"], float) / 12
    g = np.array(x["g"], float) / 12
    h5, sd = os.path.join(d, "watch.h5"), os.path.join(d, "watch.sdds")
    with h5py.File(h5, "w") as h:
        h.create_dataset("electrons", data=np.concatenate([pos, mom], axis=1))
    with np.errstate(all="ignore"):
        rows = [[3e-9 + i * 1e-12] + list(pos[i]) + list(mom[i]) + [math.sqrt(float(mom[i] @ mom[i])), mom[i][0] / mom[i][2], mom[i][1] / mom[i][2], g[i]] for i in range(n)]
    write_sdds(sd, rows)
    for fn, k in ((h5, "hdf5"), (sd, "sdds")):
        w, _ = quiet(teufel.TeufelWatch.read, fn)
        err.same(k + " particles", n, int(w.NOP))
        for j, a in enumerate("xyz"):
            err("%s %s" % (k, a), pos[:, j], getattr(w, a))
            err("%s bg%s" % (k, a), mom[:, j], getattr(w, "bg" + a), size=np.max(np.abs(mom)))
        err(k + " gamma", g, w.gamma)
        with np.errstate(all="ignore"):
            p = w.parameters()
        err.same(k + " N", n, int(p["N"]))
        L = 4 * u.L
        for j, a in enumerate("xyz"):
            err("%s %s_mean" % (k, a), x["mean"][j] / n * u.L, p[a + "_mean"], size=L)
            err("%s bg%s_mean" % (k, a), x["pmean"][j] / 12 / n, p["bg%s_mean" % a], size=1)
            err("%s %s_rms" % (k, a), math.sqrt(x["rms"][j]) / n * u.L, p[a + "_rms"], size=L)
        err(k + " t_rms", math.sqrt(x["rms"][2]) / n * u.L / C, p["t_rms"], size=L / C)
        for j, a in enumerate("xy"):
            err("%s %sp_mean" % (k, a), x["slope"][j] * math.pi / 4 / n, p[a + "p_mean"], size=1)
        err(k + " gamma mean", x["gmean"] / 12 / n, p["gamma"])
        err(k + " E_tot", x["gmean"] / 12 / n * MEC2, p["E_tot"])
        err(k + " E_kin", x["kin"] / 12 / n * MEC2, p["E_kin"], size=MEC2)
        err(k + " E_rms", math.sqrt(x["erms"]) / 12 / n * MEC2, p["E_rms"], size=MEC2)
        bg = (x["bg"][0] + x["bg"][1] * math.sqrt(2)) / 12 / n
        err(k + " betagamma", bg, p["betagamma"], size=1)
        for j, (a, un) in enumerate((("ex_n_rms", bg * u.L * math.pi / 4), ("ey_n_rms", bg * u.L * math.pi / 4), ("ez_rms", MEC2 / 12 * u.L / C))):
            if x["em"][j]:      # of a line in phase space only rounding is left
                err("%s %s" % (k, a), math.sqrt(x["em"][j]) / n ** 2 * un, p[a])
        if all(m[2] for m in mom) and n > 1:
            with np.errstate(all="ignore"):
                t = script("plot_Watch.py", fn)
            err.same(k + " reported particles", n, int(re.search(r"beam of (\d+) particles", t).group(1)))
            m = numbers_after(t, "mean    x")
            s = numbers_after(t, "r.m.s.  x")
            q = numbers_after(t, "mean    bg_x")
            ur = np.array([1e3, 1e3, 1.0])
            err(k + " reported position", np.array(x["mean"]) / n * u.L * ur, m, 1.0, 0.6e-3)
            err(k + " reported size", np.sqrt(np.array(x["rms"], float)) / n * u.L * 1e3, s, 1.0, 0.6e-3)
            err(k + " reported momentum", np.array(x["pmean"]) / 12 / n, q, 1.0, 0.6e-3)


def numbers_after(t, label):
    line = re.search(r"^" + re.escape(label) + r"=.*$", t, re.M).group(0)
    return [float(v) for v in re.findall(r"=\s*([-+]?[0-9.]+(?:e[-+]\d+)?|nan|inf)", line)]


# ------------------------------------------------------------------ sessions

def session(b, d, n):
    import screen, teufel, MeshedFields
    err = Dev()
    r = random.Random(n)
    u = Units(r)
    if b["kind"] == "watch":
        u.L = 2.0 ** r.randrange(-10, 0)
        watch(d, b["ops"][0], u, err, r, teufel)
        return err
    scr = b["kind"] == "screen"
    fn = lambda s: os.path.join(d, s + ".h5")
    obj, what = {}, {}
    for k, op in enumerate(b["ops"]):
        at = "step %d %s" % (k + 1, op["op"])
        o = op["op"]
        if o in ("read", "readmesh", "copy", "write", "writemesh"):
            w = copy.deepcopy(what[op["from"]])
            if o in ("readmesh", "writemesh"):
                w["time"], w["cell"] = {"none": 0}, []
            if o == "read" and scr:
                w["old"] = False
        if o == "provide":
            what[op["to"]] = op["content"]
            (provide_screen if scr else provide_mesh)(fn(op["to"]), op["content"], u)
        elif o == "make":
            what[op["to"]] = op["content"]
            obj[op["to"]] = make_mesh(MeshedFields, op["content"], u)
        elif o == "read":
            if scr:
                mod = r.choice([teufel, screen])
                obj[op["to"]] = quiet(mod.TeufelScreen.read, fn(op["from"]), **({"printout": r.random() < 0.5} if mod is teufel else {}))[0]
                (check_screen)(obj[op["to"]], w, u, err, at)
            else:
                obj[op["to"]] = quiet(MeshedFields.MeshedField.ReadMeshedField, fn(op["from"]))[0]
            what[op["to"]] = w
        elif o == "readmesh":
            obj[op["to"]] = quiet(MeshedFields.MeshedField.ReadMesh, fn(op["from"]))[0]
            what[op["to"]] = w
        elif o == "copy":
            obj[op["to"]] = copy.deepcopy(obj[op["from"]])
            what[op["to"]] = w
        elif o == "write":
            if scr:
                obj[op["from"]].write(fn(op["to"]))
            else:
                quiet(obj[op["from"]].WriteMeshedField, fn(op["to"]))
            what[op["to"]] = w
            (check_screen_file if scr else check_mesh_file)(fn(op["to"]), w, u, err, at)
        elif o == "writemesh":
            quiet(obj[op["from"]].WriteMesh, fn(op["to"]))
            what[op["to"]] = w
        elif o == "set":
            c = what[op["to"]]
            tr = np.array(op["exp"]["trace"], float) * np.array([u.E] * 3 + [u.B] * 3)
            c["cell"] = copy.deepcopy(c["cell"])
            c["cell"][op["i"] - 1] = op["exp"]["trace"]
            if scr:
                e, m = tr[:, :3].copy(), tr[:, 3:].copy()
                obj[op["to"]].setFieldTrace((op["i"] - 1) // c["g"]["ny"], (op["i"] - 1) % c["g"]["ny"], e, m)
                e[:], m[:] = 1e9, -1e9
            else:
                obj[op["to"]].A[op["i"] - 1] = tr
        elif o == "query":
            (query_screen if scr else query_mesh)(obj[op["from"]], what[op["from"]], op, u, err, at)
        elif o == "at":
            c = what[op["from"]]
            f = np.array(op["exp"]["v"], float) / c["time"]["dt"] * np.array([u.E] * 3 + [u.B] * 3)
            g = obj[op["from"]].FieldsAtTime(op["i"] * u.T)
            err(at + " E", f[:, :3], np.asarray(g)[:, :3], size=u.E)
            err(at + " B", f[:, 3:], np.asarray(g)[:, 3:], size=u.B)
        elif o == "totals":
            totals_screen(fn(op["from"]), what[op["from"]], op, u, err, at)
        elif o == "report":
            report_mesh(fn(op["from"]), what[op["from"]], op, u, err, at)
        else:
            raise RuntimeError("unknown operation " + o)
        if len(err) > 8:
            return err
    for s, c in b["final"].items():
        if "none" in c:
            continue
        if s.startswith("f"):
            (check_screen_file if scr else check_mesh_file)(fn(s), c, u, err, "at the end " + s)
        else:
            (check_screen if scr else check_mesh)(obj[s], c, u, err, "at the end " + s)
    return err


def files(d):
    """what the modules make of files written by the program"""
    import screen, teufel, MeshedFields
    out = {}
    arr = lambda o, names: {k: np.asarray(getattr(o, k), float).tolist() for k in names}
    for f in sorted(os.listdir(d)):
        fn = os.path.join(d, f)
        try:
            if re.match(r"w\d+\.", f):
                out[f] = arr(quiet(teufel.TeufelWatch.read, fn)[0], ["x", "y", "z", "bgx", "bgy", "bgz", "gamma", "NOP"])
            elif f.startswith("log"):
                out[f] = {k: v.tolist() for k, v in quiet(teufel.readTeufelBeamLog, fn)[0].items()}
            elif re.match(r"o\d+\.h5", f):
                with h5py.File(fn, "r") as h:
                    kind = "mesh" if "MeshTriangles" in h else "screen" if "Screen" in h else ""
                if kind == "screen":
                    for m in (teufel, screen):
                        o = quiet(m.TeufelScreen.read, fn)[0]
                        out[f + ":" + m.__name__] = arr(o, ["A", "Nx", "Ny", "nots", "origin", "normal", "dX", "dY", "t0", "dt", "dtx", "dty"])
                        out[f + ":" + m.__name__]["start"] = [[o.getStartTime(i, j) for j in range(o.Ny)] for i in range(o.Nx)]
                elif kind == "mesh":
                    o = quiet(MeshedFields.MeshedField.ReadMeshedField, fn)[0]
                    out[f] = arr(o, ["points", "triangles", "pos", "A", "t0", "Nt", "dt"])
                    quiet(o.WriteMeshedField, os.path.join(d, "copy_" + f))
        except BaseException as x:
            out[f] = {"raised": "%s: %s" % (type(x).__name__, str(x)[:200])}
    return out


def drawn(name, *args):
    """curves and images handed over to the display, and the console output"""
    plt = sys.modules["matplotlib.pyplot"]
    plt.reset_mock()
    with np.errstate(all="ignore"):
        text = script(name, *args)
    arr = lambda x: np.asarray(x, float).tolist()
    curves, images = [], []
    for c in plt.mock_calls:
        fn, a = c[0].split(".")[-1], c[1]
        if fn == "plot" and len(a) >= 2 and not isinstance(a[1], str):
            curves.append([arr(a[0]), arr(a[1])])
        elif fn == "contourf":
            images.append(arr(next(x for x in a if np.ndim(x) == 2)))
        elif fn == "pcolormesh":
            images.append([arr(x) for x in a[:3]])
    return {"curves": curves, "images": images, "text": text}


def plots(d):
    out = {}
    for f in sorted(os.listdir(d)):
        fn = os.path.join(d, f)
        jobs = []
        if f.startswith("log"):
            jobs = [("plot_BeamParameters.py",), ("plot_BeamParameters.py", "--bunching")]
        elif re.match(r"o\d+\.sdds", f):
            jobs = [("plot_PointObservation.py",), ("plot_PointObservation.py", "--spectrum")]
        elif re.match(r"o\d+\.h5", f):
            with h5py.File(fn, "r") as h:
                if "Screen" in h:
                    a = h["Screen"].attrs
                    jobs = [("plot_Screen_TD.py", "-xy", str(int(a["Nx"]) - 1), "0"), ("plot_SingleFrequency.py", repr(0.21 / float(a["dt"])))]
                elif "MeshTriangles" not in h:
                    jobs = [("plot_Snapshot.py",)]
        for j in jobs:
            key = " ".join([j[0]] + [f] + list(j[1:]))
            try:
                out[key] = drawn(j[0], fn, *j[1:])
            except BaseException as x:
                out[key] = {"raised": "%s: %s" % (type(x).__name__, str(x)[:200])}
    return out


def main():
    if sys.argv[1] == "--plots":
        with open(sys.argv[3], "w") as f:
            json.dump(plots(sys.argv[2]), f)
        return
    if sys.argv[1] == "--files":
        with open(sys.argv[3], "w") as f:
            json.dump(files(sys.argv[2]), f)
        return
    if sys.argv[1] == "--mesh":
        import MeshedFields
        a = json.load(open(sys.argv[2]))
        o = MeshedFields.MeshedField(np.array(a["pts"], float), np.array(a["tri"], int))
        o.t0, o.Nt, o.dt = np.array(a["t0"], float), a["nt"], a["dt"]
        o.A = np.zeros((o.Np, o.Nt, 6))
        o.WriteMeshedField(sys.argv[3])
        return
    inp, outp = sys.argv[1:3]
    with open(inp) as f, open(outp, "w") as g:
        for n, line in enumerate(f):
            b = json.loads(line)
            with tempfile.TemporaryDirectory(dir=os.path.dirname(os.path.abspath(outp))) as d:
                try:
                    r = {"obs": [str(x)[:300] for x in session(b, d, b.get("seed", n))][:8]}
                except BaseException as x:
                    r = {"obs": ["raised %s" % "".join(traceback.format_exception_only(type(x), x)).strip()[:200] + " in " +
                                 " < ".join("%s:%s" % (os.path.basename(t.filename), t.name) for t in reversed(traceback.extract_tb(x.__traceback__)[-3:]))]}
            g.write(json.dumps(r) + "\n")
            g.flush()


if __name__ == "__main__":
    main()
