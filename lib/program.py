"""Running the tracking program (one or several MPI processes) and reading what it writes."""
import os, re, shutil, signal, struct, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import h5py
from vf import *

C = 299792458.0
ME = 0.51099895e6
Q = 1.602176634e-19


class Program:
    def __init__(self, c, name="teufel"):
        self.c = c
        self.exe = c.build_program(name)
        self.so = c.path("schedule.so")
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", "-I/usr/lib/x86_64-linux-gnu/openmpi/include",
                               os.path.join(DRV, "schedule.c"), "-o", self.so])
        self.n = 0
        self.runs = 0

    # the message passing library failed before the program did anything (seen now and then on a busy machine)
    NOT_STARTED = ("Local abort before MPI_INIT completed", "An error occurred in MPI_Init", "orte_init failed", "ORTE was unable to reliably start")

    def run(self, xml, P=1, threads=1, sched=0, files=(), timeout=100):
        """Run in a fresh directory; returns (exit status or 'timeout', directory, console output)."""
        for k in range(5):
            rc, d, text = self.attempt(xml, P, threads, sched, files, timeout)
            if rc in (0, "timeout") or k == 4 or not any(m in text for m in self.NOT_STARTED):
                self.runs += 1
                return rc, d, text
            self.clean(d)
            time.sleep(1 + k)

    def attempt(self, xml, P, threads, sched, files, timeout):
        if len(self.c.hangs) >= 3:
            raise Hang()
        d = tempfile.mkdtemp(prefix="run-", dir=self.c.dir)
        # a session directory of its own: runs ending at the same time remove a shared one
        session = tempfile.mkdtemp(prefix="s-", dir=self.c.dir)
        with open(os.path.join(d, "input.xml"), "w") as f:
            f.write(xml)
        for name, content in files:
            if callable(content):
                content(os.path.join(d, name))
            else:
                with open(os.path.join(d, name), "w") as f:
                    f.write(content)
        env = dict(os.environ)
        env.update(OMP_NUM_THREADS=str(threads), OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", VERIF_SCHED=str(sched),
                   TMPDIR=session, OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1",
                   OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl="self,vader",
                   OMPI_MCA_orte_tmpdir_base=session)
        prog = ["env", "LD_PRELOAD=" + self.so, self.exe, "input.xml"]
        cmd = (["mpirun", "-n", str(P)] if P > 1 else []) + prog
        out = os.path.join(d, "console.txt")
        with open(out, "wb") as f:
            p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
                for s in (signal.SIGTERM, signal.SIGKILL):
                    try:
                        os.killpg(p.pid, s)
                        p.wait(5)
                    except (ProcessLookupError, subprocess.TimeoutExpired):
                        pass
                self.c.hang("the program does not end", {"input": xml, "processes": P, "threads": threads})
        with open(out, "rb") as f:
            text = f.read().decode(errors="replace")
        shutil.rmtree(session, True)
        return rc, d, text

    def map(self, jobs, fn, workers=4):
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, jobs))

    def clean(self, d):
        shutil.rmtree(d, True)


# ---------------------------------------------------------------- readers
class SDDSFile:
    """ASCII and (little endian, row ordered) binary SDDS files with numeric columns."""
    SIZES = {"double": ("d", 8), "long": ("i", 4), "float": ("f", 4), "short": ("h", 2)}

    def __init__(self, fn):
        with open(fn, "rb") as f:
            b = f.read()
        if not b.startswith(b"SDDS"):
            raise ValueError("not an SDDS file: " + fn)
        self.par, self.col, ptypes, ctypes = {}, {}, [], []
        pos = 0
        while True:
            e = b.index(b"\n", pos)
            line = b[pos:e].decode(errors="replace")
            pos = e + 1
            m = re.match(r"&(parameter|column|data)\b(.*)", line)
            if m:
                kv = dict(re.findall(r"(\w+)\s*=\s*(\"[^\"]*\"|[^,\s]+)", m.group(2)))
                if m.group(1) == "parameter":
                    ptypes.append((kv["name"], kv["type"]))
                elif m.group(1) == "column":
                    ctypes.append((kv["name"], kv["type"]))
                else:
                    mode = kv["mode"]
                    self.colmajor = kv.get("column_major_order", "0") == "1"
                    break
        if mode == "ascii":
            lines = [l for l in b[pos:].decode(errors="replace").splitlines() if not l.startswith("!")]
            for i, (n, t) in enumerate(ptypes):
                self.par[n] = float(lines[i])
            k = len(ptypes)
            self.rows = int(lines[k])
            tab = " ".join(lines[k + 1:]).split()
            if len(tab) != self.rows * len(ctypes):
                raise ValueError("table of %d values for %d rows x %d columns" % (len(tab), self.rows, len(ctypes)))
            a = np.array([float(x) for x in tab]).reshape(self.rows, len(ctypes))
            for j, (n, t) in enumerate(ctypes):
                self.col[n] = a[:, j]
        else:
            (self.rows,) = struct.unpack_from("<i", b, pos)
            pos += 4
            for n, t in ptypes:
                f, s = self.SIZES[t]
                (self.par[n],) = struct.unpack_from("<" + f, b, pos)
                pos += s
            dt = np.dtype([(n, "<" + {"double": "f8", "long": "i4", "float": "f4", "short": "i2"}[t]) for n, t in ctypes])
            if self.colmajor:
                for n, t in ctypes:
                    k = np.dtype({"double": "<f8", "long": "<i4", "float": "<f4", "short": "<i2"}[t])
                    self.col[n] = np.frombuffer(b, k, self.rows, pos).astype(float)
                    pos += k.itemsize * self.rows
            else:
                a = np.frombuffer(b, dt, self.rows, pos)
                for n, t in ctypes:
                    self.col[n] = a[n].astype(float)


def h5all(fn):
    """All datasets and attributes of an HDF5 file."""
    out = {}
    with h5py.File(fn, "r") as f:
        def visit(name, o):
            if isinstance(o, h5py.Dataset):
                out[name] = np.array(o[()], dtype=float)
            for k, v in o.attrs.items():
                out[name + "@" + k] = np.array(v, dtype=float)
        f.visititems(visit)
    return out


def content(fn):
    if fn.endswith(".sdds"):
        s = SDDSFile(fn)
        d = {"col:" + k: v for k, v in s.col.items()}
        d.update({"par:" + k: np.array(v) for k, v in s.par.items()})
        return d
    return h5all(fn)


# ---------------------------------------------------------------- input documents
def particle(gamma, q, pos, dirn=(0, 0, 1), t0=0.0, log=None, cmr=-1.0):
    s = '<particle gamma="%r" charge="%r" cmr="%r">' % (gamma, q, cmr)
    if t0:
        s += '<time t0="%r"/>' % t0
    s += '<position x="%r" y="%r" z="%r"/><momentum x="%r" y="%r" z="%r"/>' % (tuple(map(float, pos)) + tuple(map(float, dirn)))
    if log:
        s += '<log file="%s" step="%d"/>' % log
    return s + "</particle>"


def bunch(n, gamma, q, pos, zft=0.0, log=None, traj=None, bf=None, cmr=-1.0, extra="", momextra=""):
    s = '<bunch gamma="%r" charge="%r" cmr="%r" n="%d">' % (gamma, q, cmr, n)
    s += '<position x="%r" y="%r" z="%r"' % tuple(map(float, pos))
    if zft:
        s += ' zft="%r"' % zft
    s += extra + '/><momentum x="0.0" y="0.0" z="1.0"%s/>' % momextra
    if log:
        s += '<log file="%s" step="%d"%s/>' % (log + (' bunching-freq="%r"' % bf if bf else "",))
    if traj:
        s += '<trajectories file="%s" step="%d" particles="%d"/>' % traj
    return s + "</bunch>"


def sdds_bunch(fn, log=None):
    s = '<SDDS file="%s">' % fn
    if log:
        s += '<log file="%s" step="%d"/>' % log
    return s + "</SDDS>"


def elegant(rows, charge):
    """rows: (x, xp, y, yp, t, p)"""
    s = "SDDS1\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, units=C, type=double, &end\n"
    for n in ("x", "xp", "y", "yp", "t", "p"):
        s += "&column name=%s, type=double, &end\n" % n
    s += "&data mode=ascii, &end\n%d\n%r\n%d\n" % (len(rows), charge, len(rows))
    for r in rows:
        s += " ".join(repr(float(v)) for v in r) + "\n"
    return s


def document(lattice, beam, dt, n, tracking, observers):
    return ('<?xml version="1.0"?>\n<teufel description="verification" author="verification">\n<lattice>%s</lattice>\n<beam>\n%s\n</beam>\n'
            '<tracking method="Vay" delta_t="%r" n="%d">%s</tracking>\n<observer>%s</observer>\n</teufel>\n') % (
        lattice, "\n".join(beam), dt, n, tracking, observers)


def write_mesh(fn, pts, tris, cells, t0, dt, nt, fields=None):
    with h5py.File(fn, "w") as f:
        d = f.create_dataset("MeshCornerPoints", data=np.array(pts, float))
        d.attrs.create("Ncp", len(pts), dtype=np.int32)
        d = f.create_dataset("ObservationPosition", data=np.array(cells, float))
        d.attrs.create("Np", len(cells), dtype=np.int32)
        d = f.create_dataset("MeshTriangles", data=np.array(tris, np.int32))
        d.attrs.create("Ntri", len(tris), dtype=np.int32)
        d = f.create_dataset("ObservationTime", data=np.array(t0, float))
        d.attrs.create("Nt", nt, dtype=np.int32)
        d.attrs.create("dt", float(dt))
        if fields is not None:
            f.create_dataset("ElMagField", data=np.array(fields, float))


# ---------------------------------------------------------------- decoding runs of free particles
class Err(list):
    def __call__(self, s):
        if len(self) < 8:
            self.append(s)


def observer_xml(kind, source, fn):
    """Observers around a beam that moves from the origin along z for some ps."""
    src = ' source="%s"' % source if source == "lattice" or sum(map(ord, fn)) % 2 else ""
    if kind == "point":
        return '<point file="%s"%s><position x="0.002" y="-0.001" z="0.003"/><time t0="1e-12" dt="7e-13" n="24"/></point>' % (fn, src)
    if kind == "screen":
        return ('<screen file="%s"%s><position x="0.001" y="0.001" z="0.003"/><hpitch x="1e-3" y="0.0" z="0.0" n="3"/><vpitch x="0.0" y="1.5e-3" z="0.0" n="2"/>'
                '<time t0="9e-12" dt="5e-13" n="12"/></screen>') % (fn, src)
    if kind == "snapshot":
        return ('<snapshot file="%s"%s><time t0="8e-12"/><position x="0.0" y="0.002" z="0.0005"/><hpitch x="1e-3" y="0.0" z="0.0" n="2"/>'
                '<vpitch x="0.0" y="0.0" z="4e-4" n="3"/></snapshot>') % (fn, src)
    return '<mesh file="%s"%s/>' % (fn, src)


def mesh_file(fn):
    pts = [(0, 0, 0.002), (2e-3, 0, 0.002), (2e-3, 2e-3, 0.002), (0, 2e-3, 0.003)]
    tris = [(0, 1, 2), (0, 2, 3)]
    cells = [np.mean([pts[i] for i in t], axis=0) for t in tris]
    write_mesh(fn, pts, tris, cells, [1e-12, 2e-12], 9e-13, 14)


def observer_name(o, kind):
    return "o%d.%s" % (o, "sdds" if kind == "point" else "h5")


DT = 0.9e-12


def decode_run(prog, e, rng, threads, sched):
    """Run a configuration with free particles whose coordinates identify particle and step.
    Returns (errors, known finding hit, description)."""
    cfg, err = e["cfg"], Err()
    nots, N = cfg["nots"], sum(cfg["bunches"])
    beam, files, parts, forms = [], [], [], []
    for b, n in enumerate(cfg["bunches"], 1):
        gamma = 4.0 + 3.0 * b
        bg = (gamma * gamma - 1.0) ** 0.5
        v = bg / gamma * C
        log = ("log%d.sdds" % b, cfg["log"][b - 1]) if cfg["log"][b - 1] else None
        tr = cfg["traj"][b - 1]
        traj = ("traj%d.h5" % b, tr["step"], tr["num"]) if tr["step"] else None
        t0 = rng.choice([0.0, 0.0, 3e-12])
        form = "bunch" if traj else rng.choice(["bunch", "sdds", "particle"] if n == 1 else ["bunch", "sdds", "same"])
        forms.append(form)
        if form == "particle":
            pos = (1e-3 * b, -2e-3, 1e-5 * b)
            beam.append(particle(gamma, -1e-17 * b, pos, log=log, t0=t0))
            parts.append((pos, bg, v, t0, 1e-17 * b))
        elif form == "sdds":
            fn, t0 = "in%d.sdds" % b, 0.0
            rows = [(1e-3 * b + 1e-5 * i, 0, 2e-4 * i, 0, 1e-13 * i, bg) for i in range(n)]
            files.append((fn, elegant(rows, 1e-17 * n)))
            beam.append(sdds_bunch(fn, log=log))
            ta = 1e-13 * (n - 1) / 2
            parts += [((r[0], -r[2], v * (ta - r[4])), bg, v, t0, 1e-17) for r in rows]
        else:
            zft = 1e-4 if form == "bunch" else 0.0
            pos = (1e-3 * b, 5e-4 * b, 0.0)
            bf = 1e12 if rng.random() < 0.3 else None
            s = bunch(n, gamma, -1e-17 * n, pos, zft=zft, log=log, traj=traj, bf=bf)
            if t0:
                s = s.replace("<position", '<time t0="%r"/><position' % t0, 1)
            beam.append(s)
            parts += [((pos[0], pos[1], None if zft else 0.0), bg, v, t0, 1e-17)] * n
    if cfg["probe"]["step"]:
        beam.insert(rng.randrange(len(beam) + 1), '<probe file="probe.h5" step="%d" number="%d"/>' % (cfg["probe"]["step"], cfg["probe"]["num"]))
    tracking = ""
    for w, x in enumerate(cfg["watch"], 1):
        tracking += '<%s step="%d" file="w%d.%s"/>' % ("watch" if x["type"] == "hdf5" else "watch-sdds", x["step"], w, "h5" if x["type"] == "hdf5" else "sdds")
    kinds = [["point", "snapshot", "screen"][rng.randrange(3)] for o in cfg["obs"]]
    obs = "".join(observer_xml(k, s, observer_name(o, k)) for o, (k, s) in enumerate(zip(kinds, cfg["obs"]), 1))
    xml = document("", beam, DT, nots, tracking, obs)
    rc, d, text = prog.run(xml, cfg["P"], threads, sched, files)
    what = {"cfg": cfg, "threads": threads, "sched": sched, "forms": forms, "input": xml}
    known = None
    if rc != 0:
        err("the program ended with %s: %s" % (rc, text[-400:]))
        prog.clean(d)
        return err, None, what
    z0 = {}
    seen = 0

    def state(at, i, k, x=None, p=None, t=None):
        """coordinates recorded as those of particle i (1..N) after k steps"""
        nonlocal seen
        seen += 1
        pos, bg, v, t0, q = parts[i - 1]
        dz = v * k * DT
        z = pos[2] if pos[2] is not None else z0.get(i)
        if z is None:
            if not abs(x[2] - dz) <= 1.0001e-4 * 0.5 * 2:
                err("%s: particle %d after %d steps at z=%r" % (at, i, k, x[2]))
            z = z0[i] = x[2] - dz
        e = np.array([pos[0], pos[1], z + dz])
        if not np.all(np.abs(np.array(x) - e) <= 1e-12 * max(1.0, abs(dz)) + 1e-13):
            err("%s: particle %d after %d steps at %s expected %s" % (at, i, k, list(x), list(e)))
        if p is not None and not np.all(np.abs(np.array(p) - [0, 0, bg]) <= 1e-9 * bg):
            err("%s: momentum of particle %d after %d steps %s" % (at, i, k, list(p)))
        if t is not None and not abs(t - (t0 + k * DT)) <= 1e-9 * DT * (k + 10):
            err("%s: time of particle %d after %d steps %r" % (at, i, k, t))

    def rows(at, a, ids, k):
        if a.shape != (len(ids), 6):
            err("%s: shape %s, expected %d particles" % (at, a.shape, len(ids)))
            return
        for r, i in zip(a, ids):
            state(at, i, k, r[:3], r[3:])

    expected = {"console.txt", "input.xml"} | {f[0] for f in files}
    try:
        for w, x in enumerate(cfg["watch"], 1):
            fn = "w%d.%s" % (w, "h5" if x["type"] == "hdf5" else "sdds")
            for f in e["files"][w - 1]:
                expected.add(fn)
                if not os.path.exists(os.path.join(d, fn)):
                    err("watch point %s of step %d missing" % (fn, f["k"]))
                    continue
                s = content(os.path.join(d, fn))
                if x["type"] == "hdf5":
                    rows(fn, s["electrons"], f["ids"], f["k"])
                else:
                    if len(s["col:x"]) != len(f["ids"]):
                        err("%s: %d rows" % (fn, len(s["col:x"])))
                        continue
                    for j, i in enumerate(f["ids"]):
                        state(fn, i, f["k"], [s["col:x"][j], s["col:y"][j], s["col:z"][j]], [s["col:px"][j], s["col:py"][j], s["col:pz"][j]], s["col:t"][j])
        for b, n in enumerate(cfg["bunches"], 1):
            base = sum(cfg["bunches"][:b - 1])
            tr = e["traj"][b - 1]
            if tr["steps"]:
                fn = "traj%d.h5" % b
                expected.add(fn)
                s = content(os.path.join(d, fn))
                a = s["Trajectories"]
                if a.shape != (len(tr["steps"]), len(tr["ids"]), 6) or s["Trajectories@NOTS"] != len(tr["steps"]) or s["Trajectories@NOP"] != len(tr["ids"]):
                    err("%s: shape %s expected %d records of %d particles" % (fn, a.shape, len(tr["steps"]), len(tr["ids"])))
                else:
                    for k, r in zip(tr["steps"], a):
                        rows(fn, r, tr["ids"], k)
            if e["log"][b - 1]:
                fn = "log%d.sdds" % b
                expected.add(fn)
                s = content(os.path.join(d, fn))
                steps = e["log"][b - 1]
                if len(s["col:t"]) != len(steps) or s["par:NumberTimeSteps"] != len(steps):
                    err("%s: %d records expected steps %s" % (fn, len(s["col:t"]), steps))
                    continue
                if s["par:NumberParticles"] != n:
                    err("%s: %r particles" % (fn, s["par:NumberParticles"]))
                ps = parts[base:base + n]
                bg, v, t0 = ps[0][1], ps[0][2], ps[0][3]
                zs = [p[0][2] if p[0][2] is not None else z0.get(base + 1 + j) for j, p in enumerate(ps)]
                for j, k in enumerate(steps):
                    seen += 1
                    x = np.mean([p[0][0] for p in ps]); y = np.mean([p[0][1] for p in ps])
                    g = [s["col:" + c][j] for c in ("t", "x_av", "y_av", "bgx_av", "bgy_av", "bgz_av", "gamma")]
                    ex = [t0 + k * DT, x, y, 0, 0, bg, (bg * bg + 1) ** 0.5]
                    sc = [DT, 1e-3, 1e-3, 1, 1, bg, bg]
                    for c, a, q, h in zip(("t", "x_av", "y_av", "bgx_av", "bgy_av", "bgz_av", "gamma"), g, ex, sc):
                        if not abs(a - q) <= 1e-9 * h * (k + 10):
                            err("%s: record %d (step %d): %s = %r expected %r" % (fn, j, k, c, a, q))
                    if None not in zs:
                        ez = np.mean(zs) + v * k * DT
                    else:
                        # mean of the random positions: the same in every record
                        key = ("mean", b)
                        z0.setdefault(key, s["col:z_av"][j] - v * k * DT)
                        ez = z0[key] + v * k * DT
                        if abs(z0[key]) > 1e-4:
                            err("%s: record %d z_av = %r" % (fn, j, s["col:z_av"][j]))
                    if not abs(s["col:z_av"][j] - ez) <= 1e-10 * (k + 10) * 1e-3:
                        err("%s: record %d (step %d): z_av = %r expected %r" % (fn, j, k, s["col:z_av"][j], ez))
        pr = e["probe"]
        if pr["steps"]:
            expected.add("probe.h5")
            a = content(os.path.join(d, "probe.h5"))["Probe"]
            ids = pr["ids"]
            if a.shape[1:2] == (len(pr["impl"]),) and pr["impl"] != pr["ids"]:
                known, ids = "probe-other-process", pr["impl"]
            if a.shape != (len(pr["steps"]), len(ids), 16):
                err("probe.h5: shape %s expected %d records of %d particles" % (a.shape, len(pr["steps"]), len(ids)))
            else:
                for k, r in zip(pr["steps"], a):
                    for i, q in zip(ids, r):
                        state("probe.h5", i, k, q[1:4], q[4:7], q[0])
                        if np.any(q[7:] != 0):
                            err("probe.h5: accelerations or fields of free particle %d after %d steps: %s" % (i, k, list(q[7:])))
        for o, k in enumerate(kinds, 1):
            fn = observer_name(o, k)
            expected.add(fn)
            if not os.path.exists(os.path.join(d, fn)):
                err("observer file %s missing" % fn)
            elif cfg["obs"][o - 1] == "lattice":
                s = content(os.path.join(d, fn))
                if any(np.any(s[x] != 0) for x in s if x == "ElMagField" or x in ("col:Ex", "col:Ey", "col:Ez", "col:Bx", "col:By", "col:Bz")):
                    err("%s: fields of an empty lattice" % fn)
        have = set(os.listdir(d))
        if have != expected:
            err("files %s missing, %s not requested" % (sorted(expected - have), sorted(have - expected)))
    except (OSError, KeyError, ValueError, IndexError) as x:
        err("unreadable output: %s: %s" % (type(x).__name__, x))
    prog.clean(d)
    what["values"] = seen
    return err, known, what


# ---------------------------------------------------------------- decoding sums of fields
BG_E, BG_B = (3e5, -2e5, 1e5), (0.002, 0.001, -0.003)
UNITS = {}


def sum_document(charges, nots, kinds, sources):
    """particles of bunch b carry charge charges[b] each and all start at the same place"""
    lat = '<background><E x="%r" y="%r" z="%r"/><B x="%r" y="%r" z="%r"/></background>' % (BG_E + BG_B)
    beam = []
    for n, q, form in charges:
        beam.append(particle(8.0, -q, (0, 0, 0)) if form == "particle" else bunch(n, 8.0, -q * n, (0, 0, 0)))
    obs = "".join(observer_xml(k, s, observer_name(o, k)) for o, (k, s) in enumerate(zip(kinds, sources), 1))
    return document(lat, beam, 2.4e-12 / nots, nots, "", obs)


def field_of(fn, kind):
    s = content(fn)
    if kind == "point":
        return np.array([s["col:" + c] for c in ("Ex", "Ey", "Ez", "Bx", "By", "Bz")]).T
    return s["ElMagField"].reshape(-1, 6)


def sum_run(prog, e, rng, threads, sched):
    """Every bunch's particles carry 8^(b-1) elementary units of charge, so that the observed fields in
    units of the field of one such particle spell out (octal) how often each bunch's particles were counted."""
    cfg, err = e["cfg"], Err()
    kinds = [["point", "snapshot", "screen", "mesh"][rng.randrange(4)] for o in cfg["obs"]]
    if not kinds:
        return err, None, None
    forms = ["particle" if n == 1 and rng.random() < 0.5 else "bunch" for n in cfg["bunches"]]
    q0 = 1e-18
    nots = max(cfg["nots"], 1)
    mesh = [(observer_name(o, k), mesh_file) for o, k in enumerate(kinds, 1) if k == "mesh"]
    key = (nots, tuple(kinds), tuple(cfg["obs"]))
    if key not in UNITS:
        rc, d, text = prog.run(sum_document([(1, q0, "particle")], nots, kinds, cfg["obs"]), 1, 1, 0, mesh)
        if rc != 0:
            err("the program ended with %s: %s" % (rc, text[-400:]))
            return err, None, {"cfg": cfg}
        UNITS[key] = [field_of(os.path.join(d, observer_name(o, k)), k) for o, k in enumerate(kinds, 1)]
        prog.clean(d)
        for o, (k, s) in enumerate(zip(kinds, cfg["obs"])):
            if s == "beam" and not np.any(UNITS[key][o]):
                err("observer %d (%s): no field of a single particle" % (o + 1, k))
    xml = sum_document([(n, q0 * 8 ** b, f) for b, (n, f) in enumerate(zip(cfg["bunches"], forms))], nots, kinds, cfg["obs"])
    what = {"cfg": cfg, "threads": threads, "sched": sched, "input": xml, "values": 0}
    rc, d, text = prog.run(xml, cfg["P"], threads, sched, mesh)
    if rc != 0:
        err("the program ended with %s: %s" % (rc, text[-400:]))
    else:
        want = sum(n * 8 ** b for b, n in enumerate(cfg["bunches"]))
        for o, (k, s) in enumerate(zip(kinds, cfg["obs"]), 1):
            try:
                a = field_of(os.path.join(d, observer_name(o, k)), k)
            except (OSError, KeyError, ValueError) as x:
                err("observer %d (%s): %s" % (o, k, x))
                continue
            u = UNITS[key][o - 1]
            if a.shape != u.shape:
                err("observer %d: shape %s expected %s" % (o, a.shape, u.shape))
                continue
            what["values"] += a.size
            if s == "lattice":
                m = np.array(BG_E + BG_B)
                if not np.all(np.abs(a - m) <= 1e-12 * np.abs(m)):
                    err("observer %d (%s of the lattice): fields %s times the lattice field" % (o, k, np.unique(np.round(a / m, 6)).tolist()[:6]))
            elif not np.all(np.abs(a - want * u) <= 1e-9 * want * np.max(np.abs(u), axis=0)):
                i = np.argmax(np.abs(u[:, 0]))
                r = a[i, 0] / u[i, 0] if u[i, 0] else float("nan")
                err("observer %d (%s of the beam): the fields are those of %s (octal) particles instead of %s" %
                    (o, k, oct(int(round(r))) if r == r and abs(r) < 1e15 else r, oct(want)))
    prog.clean(d)
    return err, None, what


# ---------------------------------------------------------------- complete physics: comparison of decompositions
def physics_document(rng, e, fel=True, keep=None):
    """An undulator with a co-moving field, several bunches, all kinds of output. Returns (xml, files, output names).
    keep: set of output names to request (None: all)."""
    cfg = e["cfg"]
    steps = 60
    dt = 1.1e-13
    lat = '<undulator type="planar" name="U"><units/>'
    lat = ('<background><B x="0.001" y="0.0005" z="0.0"/></background>'
           '<undulator type="planar" name="U"><position x="0.0" y="0.0" z="0.004"/><field B="0.4" period="0.003" N="4"/></undulator>')
    outs, beam, files = [], [], []

    def want(n):
        outs.append(n)
        return keep is None or n in keep
    for b, n in enumerate(cfg["bunches"], 1):
        pos = (2e-5 * b, -1e-5 * b, -3e-5 * b)
        lg = cfg["log"][b - 1] or 7
        log = ("log%d.sdds" % b, lg) if want("log%d.sdds" % b) else None
        if n == 1 and b % 2:
            beam.append(particle(15.0, -1e-13 * b, pos, dirn=(0.001 * b, 0, 1), log=log))
        elif b % 3 == 0:
            # identical particles
            tr = ("traj%d.h5" % b, 9, 2) if want("traj%d.h5" % b) else None
            beam.append(bunch(n, 15.0, -1e-13 * n, pos, log=log, traj=tr, bf=2e12))
        else:
            rows = [(2e-5 * ((7 * i + b) % 5), 1e-4 * (i % 3), 1e-5 * i, -1e-4 * (i % 2), 2e-14 * i + 1e-14 * b, 14.5 + 0.1 * i) for i in range(n)]
            files.append(("in%d.sdds" % b, elegant(rows, 2e-13 * n)))
            beam.append(sdds_bunch("in%d.sdds" % b, log=log))
    tr = ""
    for w, (k, t) in enumerate([(0, "hdf5"), (steps, "hdf5"), (steps // 2, "sdds"), (steps, "sdds")], 1):
        fn = "w%d.%s" % (w, "h5" if t == "hdf5" else "sdds")
        if want(fn):
            tr += '<%s step="%d" file="%s"/>' % ("watch" if t == "hdf5" else "watch-sdds", k, fn)
    if fel:
        log = '<log file="fel.h5" step="6"/>' if want("fel.h5") else ""
        tr += ('<fel1d N="40"><position x="0.0" y="0.0" z="3e-4"/><prop x="0.0" y="0.0" z="1.0"/><pol x="1.0" y="0.0" z="0.0"/>'
               '<mode zR="0.02" w0="0.0003" zwaist="0.005"/><seed E0="2e8" lambda="2e-4" tau="1e-12" tstart="1e-12"/>%s</fel1d>') % log
    obs = ""
    for o, (k, s) in enumerate([("point", "beam"), ("snapshot", "beam"), ("screen", "beam"), ("mesh", "beam"), ("point", "lattice"), ("snapshot", "lattice"), ("mesh", "lattice")], 1):
        fn = observer_name(o, k)
        if want(fn):
            obs += observer_xml(k, s, fn)
            if k == "mesh":
                files.append((fn, mesh_file))
    return document(lat, beam, dt, steps, tr, obs), files, outs


def same_content(a, b, tol, at, err):
    """compare two outputs; tol relative to the largest value of the data set"""
    if sorted(a) != sorted(b):
        err("%s: entries %s / %s" % (at, sorted(a), sorted(b)))
        return 0
    n = 0
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            err("%s %s: shape %s / %s" % (at, k, x.shape, y.shape))
            continue
        n += x.size
        if x.size and not np.array_equal(x, y):
            m = np.max(np.abs(y[np.isfinite(y)])) if np.any(np.isfinite(y)) else 0.0
            with np.errstate(invalid="ignore"):
                bad = ~((np.abs(x - y) <= tol * m) | (x == y) | (np.isnan(x) & np.isnan(y)))
            if np.any(bad):
                i = tuple(int(j) for j in np.argwhere(bad)[0]) if x.ndim else ()
                err("%s %s%s: %r / %r (largest value %r)" % (at, k, list(i), float(x[i]), float(y[i]), float(m)))
    return n
