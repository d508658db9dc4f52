"""C20: the histories the specifications generate for the other properties, replayed into builds of the library and the
programs in which every access outside an object, every use of freed memory and every undefined operation ends the process,
and in two builds which differ in nothing but what uninitialised memory holds."""
import copy, glob, importlib, multiprocessing, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, program
from vf import *

SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
FILL = {"zero": ("-ftrivial-auto-var-init=zero", "0"), "pattern": ("-ftrivial-auto-var-init=pattern", "171")}
LIBRARY = ["C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C19"]
PROGRAMS = ["C01", "C02", "C15"]


MEM = "SPECIFICATION Spec\nINVARIANTS OneOwner NoDangling NothingLost Emit\nCHECK_DEADLOCK FALSE\n"


class Enough(BaseException):
    pass


class Replayer(Check):
    """A check whose builds, amounts and verdicts are those of C20."""

    def __init__(self, master, pid):
        super().__init__("C20")
        self.builds, self.pid = master.builds, pid
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.use("pattern")
        self.differ, self.reports, self.died, self.runs, self.compared = [], [], [], 0, 0
        self.end = master.t0 + self.scale(560, 3000)

    def log(self, *a):
        pass

    def use(self, fill):
        self.fill = fill
        self.lib, self.libflags, self.libdir = self.builds[fill]

    def environment(self, fill):
        return dict(ASAN_OPTIONS="detect_leaks=0:verify_asan_link_order=0:allocator_may_return_null=1:max_malloc_fill_size=100000000:malloc_fill_byte=%s:log_path=%s"
                    % (FILL[fill][1], self.path("san")), UBSAN_OPTIONS="print_stacktrace=1:log_path=%s" % self.path("san"))

    def build_lib(self, *a, **k):
        return self.lib

    def build_driver(self, name, extra=()):
        out = {}
        for f in FILL:
            self.use(f)
            out[f] = self.build_bin("drv_%s_%s" % (name, f), [os.path.join(DRV, name + ".cpp")], extra=extra)
        self.use("pattern")
        return out

    def build_program(self, name):
        if name != "teufel":
            return super().build_program(name)
        return self.build_bin(name + "-" + self.fill, [os.path.join(SRC, "teufel_hybrid.cpp")], extra=["-include", os.path.join(DRV, "vmsize.h")])

    def tlc(self, module, cfg, env=None, simulate=None, depth=None, workers=None, timeout=600, expect_ok=True, heap="3g", count=True, extra=(), consts=None, seed=None):
        self.late()
        n = self.scale(40, 400)
        r = super().tlc(module, cfg, env, min(simulate, n) if simulate else None, depth, 2, timeout, False, heap, count, extra, consts, seed)
        if len(r.printed) > 3 * n:
            r.printed = self.rng.sample(sorted(r.printed, key=json.dumps), 3 * n)
        return r

    def late(self):
        if time.time() > self.end:
            raise Enough("out of time")

    def look(self, what, data):
        found = False
        for f in glob.glob(self.path("san.*")):
            with open(f, errors="replace") as h:
                t = h.read()
            os.unlink(f)
            if "ERROR: AddressSanitizer" in t or "runtime error:" in t:
                self.reports.append((what, t[:3000], data))
                found = True
        return found

    def run_driver(self, binary, behaviours, timeout=None, env=None, args=()):
        n = self.scale(150, 1500)
        todo = self.rng.sample(behaviours, n) if len(behaviours) > n else list(behaviours)
        res = {}
        for i in range(0, len(todo), 50):
            self.late()
            part, outs = todo[i:i + 50], {}
            for f in FILL:
                outs[f] = super().run_driver(binary[f], part, 200, dict(env or {}, OMP_NUM_THREADS="1", **self.environment(f)), args)
                if self.look(os.path.basename(binary[f]), [b for b, o in zip(part, outs[f]) if "died" in o][:3]) and len(self.reports) > 5:
                    raise Enough("several reports")
            for b, x, y in zip(part, outs["zero"], outs["pattern"]):
                res[id(b)] = y
                for o in (x, y):
                    if "died" in o:
                        self.died.append(o["died"])
                        if "runtime error:" in o["died"]:
                            self.reports.append((os.path.basename(binary[f]), o["died"], b))
                if "died" not in x and "died" not in y:
                    self.compared += 1
                    if json.dumps(x) != json.dumps(y):
                        self.differ.append((b, x, y))
        self.runs += len(todo)
        return [res.get(id(b), {"died": "not run"}) for b in behaviours]

    def violation(self, *a, **k):
        pass

    def compare(self, *a, **k):
        return 0

    def hang(self, what, data):
        pass


def program_run(orig, r, limit):
    """Program.run with the sanitizers' environment, for at most limit runs, each in both builds."""
    other = {}

    def run(self, xml, P=1, threads=1, sched=0, files=(), timeout=100):
        with LOCK:
            r.late()
            if r.runs >= limit:
                raise Enough("%d runs" % limit)
            r.runs += 1
            if not other:
                r.use("zero")
                other["exe"] = r.build_program("teufel")
                r.use("pattern")
        # (bunches with a spread are drawn at random, differently in every run)
        xml = re.sub(r' \w*(zft|rms)="[^"]*"', "", xml)
        res = orig(self, xml, P, threads, sched, files, timeout)
        twin = copy.copy(self)
        twin.exe = other["exe"]
        os.environ.update(r.environment("zero"))
        res2 = orig(twin, xml, P, threads, sched, files, timeout)
        os.environ.update(r.environment("pattern"))
        with LOCK:
            r.look("teufel with %d processes, %d threads" % (P, threads), {"input": xml})
        if res[0] == 0 and res2[0] == 0:
            err = program.Err()
            for f in sorted(os.listdir(res[1])):
                if f.endswith((".h5", ".hdf5", ".sdds")):
                    try:
                        program.same_content(program.content(os.path.join(res2[1], f)), program.content(os.path.join(res[1], f)), 1e-10, f, err)
                    except (OSError, KeyError, ValueError, struct.error) as x:
                        err("%s: %s" % (f, x))
            r.compared += 1
            if err:
                r.differ.append(({"input": xml, "processes": P, "threads": threads}, [], err[:3]))
        self.clean(res2[1])
        return res
    return run


def ownership(r, c):
    """Memory.tla: who owns what, what exists at every moment."""
    drv = r.build_driver("memory")
    k = dict(MaxObj="4", Depth=c.scale("4", "5"), MaxNew="2", Kinds='{"P", "B", "M", "L", "E"}')
    beh = c.tlc("Memory", MEM + "PROPERTIES ForGood Blame Frame\n", consts=k, timeout=800).printed
    n = len(beh)
    for kinds, count in (('{"P", "B", "M", "L", "E"}', c.scale(250, 4000)), ('{"P", "B", "M"}', c.scale(250, 4000))):
        beh += c.tlc("Memory", MEM, consts=dict(k, MaxObj="14", Depth="16", MaxNew="3", Kinds=kinds), simulate=count, depth=20, timeout=800).printed
    todo = c.rng.sample(beh[:n], min(n, c.scale(3000, 60000))) + beh[n:]
    c.log("ownership: %d short and %d long histories" % (n, len(beh) - n))
    ops = {}
    for b in todo:
        for e in b["h"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    out = c.run_driver(drv["pattern"], todo, env=r.environment("pattern"))
    r.look("ownership history", [b for b, o in zip(todo, out) if "died" in o][:3])
    for what, text, data in r.reports:
        c.violation("ownership: %s %s" % (what, [l for l in text.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l][:1]), {"report": text, "behaviours": data})
    c.compare(todo, out, expected=lambda b: [], what="ownership history")
    c.extra["ownership_operations"] = ops
    for o in ("new", "newfull", "copyP", "copyB", "give", "replace", "clear", "remove", "delete"):
        if ops.get(o, 0) < 100:
            raise CheckError("vacuous: hardly any %s" % o)


LOCK = threading.Lock()
RUN = program.Program.run


def one(job):
    """All histories of one check; what is found."""
    master, pid = job
    mod = importlib.import_module(pid)
    r = Replayer(master, pid)
    try:
        os.environ["OMP_NUM_THREADS"] = "1"
        os.environ.update(r.environment("pattern"))
        program.Program.run = program_run(RUN, r, r.scale(40, 400))
        mod.check(r)
        end = "complete"
    except (Enough, CheckError, Hang) as x:
        end = str(x)[:200]
    except BaseException as x:      # judged on what a changed program answers, which is not this property's business
        end = "%s: %s" % (type(x).__name__, str(x)[:200])
    r.look(pid, None)
    return dict(pid=pid, reports=r.reports, differ=r.differ[:5], compared=r.compared, died=r.died, runs=r.runs or r.traces, states=r.states, transitions=r.transitions, end=end, wall=time.time() - r.t0)


def check(c):
    c.builds = {}
    for f, (flag, _) in FILL.items():
        c.build_lib(SAN + [flag], "lib-" + f)
        c.builds[f] = (c.lib, c.libflags, c.libdir)
    c.log("built")
    ownership(Replayer(c, "C20"), c)
    only = os.environ.get("VERIF_ONLY", "").split()
    pids = [p for p in ["C15"] + LIBRARY + ["C01", "C02"] if not only or p in only]
    from concurrent.futures import ProcessPoolExecutor, as_completed
    res = []
    with ProcessPoolExecutor(6, mp_context=multiprocessing.get_context("fork")) as ex:
        for f in as_completed([ex.submit(one, (c, p)) for p in pids]):
            x = f.result()
            c.log("%s: %d runs, %d compared, %d reports, %d differ, %s (%.0f s)" % (x["pid"], x["runs"], x["compared"], len(x["reports"]), len(x["differ"]), x["end"], x["wall"]))
            for t in sorted(set(x["died"]))[:3]:
                c.log("  died: " + t[-300:])
            res.append(x)
    stat = c.extra.setdefault("runs", {})
    for x in sorted(res, key=lambda x: x["pid"]):
        c.states += x["states"]
        c.transitions += x["transitions"]
        c.traces += x["runs"]
        stat[x["pid"]] = x["runs"]
        for what, text, data in x["reports"]:
            line = [l for l in text.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l][:1]
            where = [l.strip() for l in text.splitlines() if l.lstrip().startswith("#") and REPO in l][:3]
            c.violation("histories of %s, %s: %s %s" % (x["pid"], what, line, where), {"report": text, "behaviours": data})
        for h, a, b in x["differ"]:
            i = first_diff(a, b)
            c.violation("a history of %s gives different answers depending on what uninitialised memory holds: at %s %s / %s" % (x["pid"], i[0], short(i[1]), short(i[2])),
                        {"behaviour": h, "zero": a, "pattern": b})
    c.extra["histories_compared"] = sum(x["compared"] for x in res)
    c.samples += [{"histories": x["pid"], "runs": x["runs"], "end": x["end"]} for x in res[:8]]
    for p in PROGRAMS + LIBRARY:
        if not only and not stat.get(p) and not c.violations and time.time() < c.t0 + c.scale(560, 3000):
            raise CheckError("vacuous: no history of %s" % p)


if __name__ == "__main__":
    sys.exit(main("C20", check))
