"""Framework shared by all checks: scratch directories, builds from /repo's working tree,
TLC runs, driver runs, known findings, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, random, signal, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
INC = ["-I/usr/include/eigen3", "-I/usr/include/hdf5/serial", "-I" + REPO + "/lib/SDDS",
       "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
H5 = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/lib"
LIBS = ["-Wl,-rpath," + H5 + ":" + MPI, H5 + "/libhdf5_cpp.so", H5 + "/libhdf5.so",
        REPO + "/lib/SDDS/libSDDS1.a", REPO + "/lib/SDDS/libmdblib.a", REPO + "/lib/SDDS/libmdbcommon.a",
        REPO + "/lib/SDDS/liblzma.a", MPI + "/libmpi_cxx.so", MPI + "/libmpi.so",
        "-lpugixml", "-lmuparser", "-lz", "-lm", "-ldl", "-lpthread"]
MAINS = {"teufel_hybrid.cpp", "propagate.cpp", "reflection.cpp", "cavity.cpp"}
NCPU = os.cpu_count() or 4


class Hang(BaseException):
    pass


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.hangs = []
        self.known_hits = {}
        self.known = load_known(pid)
        self.lib = None
        self.libkind = None
        os.environ.setdefault("OMP_NUM_THREADS", "4")

    # ---------------------------------------------------------------- misc
    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    # ---------------------------------------------------------------- build
    def build_lib(self, flags=("-O1",), name="lib"):
        """Compile every library source of /repo/src (like CMake's aux_source_directory) into an archive."""
        out = self.path(name)
        os.makedirs(out, exist_ok=True)
        make_config_h(out)
        srcs = sorted(f for f in os.listdir(SRC) if f.endswith((".cpp", ".cxx", ".cc", ".C", ".c")) and f not in MAINS)
        base = ["g++", "-std=c++11", "-fopenmp", "-w", "-m64", "-pthread", "-I" + out, "-I" + SRC] + list(flags) + INC
        jobs = [(base + ["-c", os.path.join(SRC, f), "-o", os.path.join(out, f + ".o")], f) for f in srcs]
        run_jobs(jobs)
        objs = [os.path.join(out, f + ".o") for f in srcs]
        arc = os.path.join(out, "libteufel.a")
        if os.path.exists(arc):
            os.unlink(arc)
        subprocess.check_call(["ar", "rcs", arc] + objs)
        self.lib = arc
        self.libflags = list(flags)
        self.libdir = out
        return arc

    def build_bin(self, name, sources, flags=None, extra=()):
        if not self.lib:
            self.build_lib()
        out = self.path(name)
        fl = self.libflags if flags is None else list(flags)
        jobs, objs = [], []
        for s in sources:
            o = out + "." + os.path.basename(s) + ".o"
            std = "-std=c++17" if s.startswith(VERIF) else "-std=c++11"
            jobs.append((["g++", std, "-fopenmp", "-w", "-m64", "-pthread", "-I" + self.libdir, "-I" + SRC, "-I" + DRV]
                         + fl + INC + list(extra) + ["-c", s, "-o", o], s))
            objs.append(o)
        run_jobs(jobs)
        run_jobs([(["g++", "-fopenmp"] + fl + objs + [self.lib] + LIBS + ["-o", out], name)])
        return out

    def build_driver(self, name, extra=()):
        return self.build_bin("drv_" + name, [os.path.join(DRV, name + ".cpp")], extra=extra)

    def build_program(self, name):
        src = {"teufel": "teufel_hybrid.cpp", "propagate": "propagate.cpp", "reflection": "reflection.cpp"}[name]
        return self.build_bin(name, [os.path.join(SRC, src)])

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, simulate=None, depth=None, workers=None, timeout=600, expect_ok=True,
            heap="3g", count=True, extra=(), consts=None, seed=None):
        """Run TLC on spec/<module>.tla with the given cfg text. Returns TlcResult.
        Large simulations are split over several single-worker processes (reproducible seeds)."""
        if simulate and seed is None:
            from concurrent.futures import ThreadPoolExecutor
            np_ = max(1, min(NCPU, simulate // 50))
            per = (simulate + np_ - 1) // np_
            with ThreadPoolExecutor(np_) as ex:
                rs = list(ex.map(lambda i: self.tlc(module, cfg, env, per, depth, 1, timeout, False, "2g", False, extra, consts,
                                                    seed=self.seed * 1000 + i), range(np_)))
            r = rs[0]
            for o in rs[1:]:
                r.printed += o.printed
                r.distinct += o.distinct
                r.generated += o.generated
                r.violated += o.violated
                if r.ok and not o.ok:
                    r.ok, r.rc, r.text = False, o.rc, o.text
            if count:
                self.states += r.distinct
                self.transitions += r.generated
            if expect_ok and not r.ok:
                raise CheckError("TLC failed on %s:\n%s" % (module, r.trace()))
            return r
        wd = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), wd)
        if consts:
            # constants are bound through a generated model module (the cfg grammar knows no expressions)
            with open(os.path.join(wd, "MC.tla"), "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
                for k, v in consts.items():
                    f.write("const_%s == %s\n" % (k, v))
                f.write("====\n")
            cfg = cfg + "\nCONSTANTS\n" + "\n".join("  %s <- const_%s" % (k, k) for k in consts) + "\n"
            main = "MC"
        else:
            main = module
        with open(os.path.join(wd, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if simulate else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-config", "run.cfg",
               "-metadir", os.path.join(wd, "meta"), "-workers", str(workers or NCPU), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed if seed is None else seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += list(extra) + [main + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on %s" % module)
        r = TlcResult(p.stdout, p.returncode, simulate)
        shutil.rmtree(wd, True)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        if expect_ok and not r.ok:
            raise CheckError("TLC failed on %s:\n%s" % (module, r.trace()))
        return r

    # ---------------------------------------------------------------- drivers
    def hang(self, what, data):
        """Something that takes seconds did not end in minutes. The third time the check stops with a violation."""
        self.hangs.append((what, data))
        if len(self.hangs) >= 3:
            raise Hang()

    def run_driver(self, binary, behaviours, timeout=None, env=None, args=()):
        """Feed behaviours (list of JSON-able dicts) to a driver; returns list of outputs (None where it died)."""
        timeout = timeout or self.scale(200, 400)
        if len(self.hangs) >= 3:
            raise Hang()
        if len(behaviours) > 400:
            from concurrent.futures import ThreadPoolExecutor
            n = (len(behaviours) + NCPU - 1) // NCPU
            parts = [behaviours[i:i + n] for i in range(0, len(behaviours), n)]
            for i in range(0, len(parts)):
                while len(parts[i]) > 400 and len(parts) < 1000:
                    parts.append(parts[i][400:])      # keeps every call short; order restored below
                    parts[i] = parts[i][:400]
            with ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(lambda p: self.run_driver(binary, p, timeout, env, args), parts))
            order = {}
            for p, o in zip(parts, res):
                for b, x in zip(p, o):
                    order[id(b)] = x
            return [order[id(b)] for b in behaviours]
        fin = tempfile.mktemp(prefix="in-", suffix=".ndjson", dir=self.dir)
        fout = fin.replace("in-", "out-")
        e = dict(os.environ)
        e.update(env or {})
        outs = []
        todo = list(behaviours)
        while todo:
            with open(fin, "w") as f:
                for b in todo:
                    f.write(json.dumps(b) + "\n")
            if os.path.exists(fout):
                os.unlink(fout)
            died = None
            try:
                p = subprocess.run([binary, fin, fout] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   timeout=timeout, env=e, cwd=self.dir)
                if p.returncode != 0:
                    text = p.stderr.decode(errors="replace")
                    i = text.find("runtime error:")
                    died = "exit %d: %s" % (p.returncode, text[max(0, i - 200):i + 1500] if i >= 0 else text[-500:])
            except subprocess.TimeoutExpired:
                died = "timeout"
                self.hang("driver %s does not end" % os.path.basename(binary), {"behaviours": todo[:1] if len(todo) == 1 else len(todo)})
                timeout = min(timeout, 100)
            got = []
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
            outs += got
            if len(got) >= len(todo):
                break
            # the driver died on behaviour len(got)
            outs.append({"died": died or "no output"})
            todo = todo[len(got) + 1:]
            if sum(1 for o in outs if "died" in o) > 20:
                outs += [{"died": "skipped after too many crashes"}] * len(todo)
                break
        for f in (fin, fout):
            if os.path.exists(f):
                os.unlink(f)
        return outs

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, data, key=None):
        """Record a violation; key identifies known findings."""
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        self.violations.append({"what": what, "data": data})

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, self.known[k]))
        rc = 0
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:8]}
        cov.update(self.extra)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.violations:
            rp = os.path.join(ev_dir, "%s.replay.json" % self.id)
            with open(rp, "w") as f:
                json.dump(self.violations[:10], f, indent=1, default=str)
            ev["violations"] = [{"summary": str(v["what"])[:300], "replay": rp} for v in self.violations[:10]]
            for v in self.violations[:5]:
                print("  " + str(v["what"])[:1000])
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            rc = 1
        with open(os.path.join(ev_dir, "%s.json" % self.id), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log("done: states=%d transitions=%d traces=%d violations=%d" %
                 (self.states, self.transitions, self.traces, len(self.violations)))
        return rc

    # ---------------------------------------------------------------- comparison helpers
    def compare(self, behaviours, outputs, expected=lambda b: b["exp"], observed=lambda o: o.get("obs"), what="", limit=30,
                key=lambda b: None):
        """Step-wise comparison of the model's expected observations with the implementation's."""
        bad = 0
        for b, o in zip(behaviours, outputs):
            self.traces += 1
            if "died" in o:
                self.violation("%s: implementation died (%s)" % (what, o["died"]), {"behaviour": b, "output": o}, key(b))
                bad += 1
            else:
                e, g = expected(b), observed(o)
                if e != g:
                    i = first_diff(e, g)
                    self.violation("%s: model and implementation disagree at %s: expected %s, got %s" %
                                   (what, i[0], short(i[1]), short(i[2])), {"behaviour": b, "output": o, "at": i[0]}, key(b))
                    bad += 1
            if bad >= limit:
                break
        return bad


def short(x):
    s = json.dumps(x)
    return s if len(s) < 300 else s[:300] + "..."


def first_diff(a, b, path="$"):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, "%s[%d]" % (path, i))
        return (path + ".length", len(a), len(b)) if len(a) != len(b) else (path, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k, "<absent>") != b.get(k, "<absent>"):
                return first_diff(a.get(k, "<absent>"), b.get(k, "<absent>"), "%s.%s" % (path, k))
    return (path, a, b)


class TlcResult:
    def __init__(self, text, rc, simulate):
        self.text = text
        self.rc = rc
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
        if m:
            self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"number of states generated: (\d+)", text)
            n = int(m[-1]) if m else 0
            if not n:
                m = re.findall(r"Progress: ([\d,]+) states checked", text)
                n = int(m[-1].replace(",", "")) if m else 0
            self.generated = self.distinct = n
        self.ok = rc == 0
        self.violated = re.findall(r"Error: Invariant (\S+) is violated", text)
        self.deadlock = "Deadlock reached" in text
        self.semantic = rc in (11, 12, 13)       # deadlock, safety, liveness violations
        self.printed = []
        for line in text.splitlines():
            if line.startswith('"') and line.endswith('"') and len(line) > 2 and line[1] in "[{":
                try:
                    self.printed.append(json.loads(json.loads(line)))
                except ValueError:
                    pass

    def trace(self):
        i = self.text.find("Error:")
        return self.text[i:i + 6000]


def make_config_h(out):
    vals = {"TEUFEL_VERSION_MAJOR": "0", "TEUFEL_VERSION_MINOR": "0", "TEUFEL_VERSION_PATCH": "0"}
    try:
        with open(os.path.join(REPO, "CMakeLists.txt")) as f:
            for m in re.finditer(r"set\s*\(\s*(TEUFEL_VERSION_\w+)\s+(\d+)\s*\)", f.read()):
                vals[m.group(1)] = m.group(2)
        with open(os.path.join(SRC, "config.h.in")) as f:
            t = f.read()
    except OSError:
        t = "".join("#define %s @%s@\n" % (k, k) for k in vals)
    t = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), t)
    with open(os.path.join(out, "config.h"), "w") as f:
        f.write(t)


def run_jobs(jobs):
    """Run compile jobs in parallel; a failing one is an error of the check (exit 2)."""
    running, todo = [], list(jobs)
    fail = None
    while todo or running:
        while todo and len(running) < NCPU and not fail:
            cmd, name = todo.pop(0)
            running.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), name))
        p, name = running.pop(0)
        out, _ = p.communicate()
        if p.returncode != 0 and not fail:
            fail = (name, out)
        if fail and not running:
            break
    if fail:
        raise CheckError("build of %s failed:\n%s" % (fail[0], fail[1][-3000:]))


def load_known(pid):
    """known-findings.txt: 'known: property=<id> key=<key> <text>' / 'fixed: property=<id> <commit> <text>'"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    done = threading.Event()

    def overdue():
        # a check that has found something says so even when the code under test makes it crawl
        if done.wait(780) or not (c.violations or c.hangs):
            return
        if c.hangs and not c.violations:
            c.violation(*c.hangs[0])
        rc = c.finish()
        sys.stdout.flush()
        os._exit(rc)
    if c.tier == "quick":
        threading.Thread(target=overdue, daemon=True).start()
    try:
        fn(c)
        done.set()
        rc = c.finish()
    except Hang:
        done.set()
        c.violation("%s (after %d such runs the check stops)" % (c.hangs[0][0], len(c.hangs)), [h[1] for h in c.hangs[:3]])
        rc = c.finish()
    except CheckError as e:
        done.set()
        print("CHECK-ERROR %s: %s" % (pid, e))
        # a violation found before the error is still a violation
        rc = c.finish() if c.violations else 2
    return rc


def lcm(*xs):
    from math import gcd
    r = 1
    for x in xs:
        r = r * x // gcd(r, x)
    return r
