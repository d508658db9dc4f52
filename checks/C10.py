import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from program import Program
from xml.sax.saxutils import quoteattr

KINDS = ["planar", "tgu", "wave", "packet", "source", "hard", "soft", "background", "particle", "bunch", "SDDS", "probe", "fel1d", "watch", "watch-sdds", "snapshot", "screen", "mesh", "point"]
FORMS = ["atom", "add", "sub", "mul", "prec", "left", "paren", "neg", "half", "root", "cond", "const", "name", "undef", "syntax"]
tset = lambda l: "{" + ", ".join('"%s"' % x for x in l) + "}"
BASE = dict(Names=tset(["a", "b", "dd"]), Lits="{0, 1, 2, 5, -3, 7}", Units=tset(["_c", "_e", "_pi", "_mec2", "_eps0", "_h"]), Forms=tset(FORMS), Kinds=tset(KINDS),
            MaxItems="4", MaxCalc="2", Defective="FALSE", Sim="TRUE")
CFG = "SPECIFICATION Spec\nINVARIANTS LogIsPrints Assigned OneDefect SureIsPrefix Ordered RefusedLast Emit\nPROPERTIES Monotone\nCHECK_DEADLOCK FALSE\n"
ELEM = {"planar": ("undulator", "planar"), "tgu": ("undulator", "transverse gradient"), "wave": ("wave", "gaussian"), "packet": ("wave", "packet"), "source": ("screen", None),
        "hard": ("dipole", "hard edge"), "soft": ("dipole", "soft edge")}
SECT = ["", "lattice", "beam", "tracking", "observer"]


class Node:
    def __init__(self, name, attrs=()):
        self.name, self.attrs, self.kids = name, list(attrs), []

    def child(self, name):
        for k in self.kids:
            if k.name == name:
                return k
        k = Node(name)
        self.kids.append(k)
        return k

    def text(self, ind=0):
        nm = self.name.split("#")[0]
        s = "  " * ind + "<" + nm + "".join(" %s=%s" % (a, quoteattr(v)) for a, v in self.attrs)
        if not self.kids:
            return s + "/>\n"
        return s + ">\n" + "".join(k.text(ind + 1) for k in self.kids) + "  " * ind + "</" + nm + ">\n"


def calc(c):
    a = []
    if c["print"]:
        a.append(("print", c["print"] + " = "))
    if c["var"]:
        a.append(("var", c["var"]))
    return Node("calc", a + [("eq", c["x"])])


def build(node, d, rng):
    """attributes, children and inner definitions of one object"""
    drop = d["df"][5:] if d["df"].startswith("drop ") else None
    for a in d["attrs"]:
        p = a["p"].split("/")
        if drop and (a["p"] == drop or a["p"].startswith(drop + "/")):
            if a["p"] == drop and len(p) > 1:       # the child stays, without this attribute
                n = node
                for x in p[:-1]:
                    n = n.child(x)
            continue
        n = node
        for x in p[:-1]:
            n = n.child(x)
        n.attrs.append((p[-1], a["x"]))
    kids = list(node.kids)
    if rng.random() < 0.5 and d["kind"] not in ("tracking",):
        rng.shuffle(node.kids)           # the order of the children is of no importance
    # the definitions of one place keep their order but may stand anywhere between the other children
    places = {}
    for c in d["calcs"]:
        places.setdefault(c["place"], []).append(calc(c))
    for pl, cs in places.items():
        if drop and pl == drop:
            continue
        n = node
        for x in [x for x in pl.split("/") if x]:
            n = n.child(x)
        pos = sorted(rng.randint(0, len(n.kids)) for _ in cs)
        for i, (q, cn) in enumerate(zip(pos, cs)):
            n.kids.insert(q + i, cn)
    if d["df"] == "source":
        node.attrs = [(a, "everything" if a == "source" else v) for a, v in node.attrs]
    if d["df"] == "correlation":
        node.child("correlations").kids.insert(rng.randint(0, 1), Node("quadratic", [("indep", "0"), ("dep", "1"), ("factor", "1")]))


def layout(b, i, rng):
    """the document as text; every file name is made unique"""
    root = Node("teufel", [("description", "conformance"), ("author", "verif")])
    sec = {s: Node(s) for s in SECT[1:]}
    rootcalcs, missing, extra = [], None, []
    for d in b["doc"]:
        s = sec.get(SECT[d["sec"]])
        if d["kind"] == "calc":
            if d["sec"] == 0:
                rootcalcs.append((d["slot"], calc(d["c"])))
            else:
                s.kids.append(calc(d["c"]))
            continue
        if d["kind"] == "section":
            if d["df"] == "missing":
                missing = SECT[d["sec"]]
            else:
                s.kids.append(Node("thing", [("name", "x")]))
            continue
        for a in d["attrs"]:
            if a["p"].endswith("file"):
                a["x"] = "%s_%d" % (a["x"], i)
        if d["kind"] == "tracking":
            if d["df"] != "nomethod":
                s.attrs.append(("method", "Euler" if d["df"] == "method" else "Vay"))
            build(s, d, rng)
            continue
        nm, ty = ELEM.get(d["kind"], (d["kind"], None))
        n = Node(nm)
        if d["kind"] not in ("watch", "watch-sdds", "probe"):
            n.attrs.append(("name", "%s%d" % (d["kind"], len(s.kids))))
        if d["df"] == "type":
            ty = rng.choice(["unheard of", ty + "x", ""])
        if ty is not None:
            n.attrs.append(("type", ty))
        build(n, d, rng)
        s.kids.append(n)
    order = b["perm"]
    slots = sorted(x for x, _ in rootcalcs)     # the definitions keep their order
    cs = [c for _, c in rootcalcs]
    for k in range(5):
        while slots and slots[0] == k:
            slots.pop(0)
            root.kids.append(cs.pop(0))
        if k < 4 and order[k] != missing:
            root.kids.append(sec[order[k]])
    return '<?xml version="1.0"?>\n' + root.text()


def tokens(b):
    t = []
    for d in b["doc"]:
        if d["kind"] == "calc":
            t.append(d["c"]["tok"])
        elif d["kind"] != "section":
            if d["df"]:
                continue
            t += [a["tok"] for a in d["attrs"]] + [c["tok"] for c in d["calcs"]]
    return [x for x in t if x]


def fixup(b):
    """a bunch with a spread has many particles (counts are literal numbers)"""
    for d in b["doc"]:
        if d["kind"] == "bunch" and any(a["p"].endswith("rms") or a["p"].endswith("zft") or a["p"].endswith("delta") for a in d["attrs"]):
            for a in d["attrs"]:
                if a["p"] == "n":
                    a["x"], a["v"] = "900", {"n": 900, "u": "1"}


def program(c, refused):
    """the program as a whole: a document which is refused ends it with a failure, on any number of processes, and nothing is written"""
    pr = Program(c)
    good = '<?xml version="1.0"?>\n<teufel description="d" author="a">\n<lattice/><beam/><tracking method="Vay" delta_t="1" n="2"/><observer/>\n</teufel>\n'
    jobs = [("a complete document", good, True), ("root", good.replace("teufel", "devil"), False), ("syntax", good.replace("</teufel>", ""), False), ("empty", "", False),
            ("encoding", good[:60], False)]
    c.rng.shuffle(refused)
    seen, pick = set(), []
    for b in refused:
        key = [(d["kind"], d["df"]) for d in b["doc"] if d["kind"] != "calc" and d["df"]][0]
        if key not in seen:
            seen.add(key)
            pick.append(b)
    pick += [b for b in refused if b not in pick][:c.scale(0, 300)]
    pick = pick[:c.scale(40, 600)]
    jobs += [("%s in %s" % ([d["df"] for d in b["doc"] if d["kind"] != "calc" and d["df"]][0], b["rej"]), b["xml"], False) for b in pick]

    def run(j):
        i, (what, xml, ok) = j
        P = 1 + i % 3 % 2
        rc, d, text = pr.run(xml, P=P, timeout=120)
        files = [f for f in os.listdir(d) if f not in ("input.xml", "console.txt") and not f.startswith("core")]
        pr.clean(d)
        if rc == "timeout":
            return "does not end"
        if (rc == 0) != ok:
            return "exit status %s" % rc
        return "files written: " + " ".join(sorted(files)) if files else None
    for (i, (what, xml, ok)), bad in zip(enumerate(jobs), pr.map(enumerate(jobs), run, workers=12)):
        if bad:
            c.violation("the program with %s: %s" % (what, bad), {"what": what, "xml": xml, "processes": 1 + i % 3 % 2, "bad": bad})
    c.log("program runs with refused documents: %d, %d kinds of defects" % (len(jobs), len(seen)))
    c.extra["program_runs"] = len(jobs)


def check(c):
    drv = c.build_driver("input")
    ops, defs, refused = {}, {}, []
    n = 0
    runs = [("every defect", dict(Sim="FALSE", Names=tset(["a"]), Lits="{1}", Units=tset(["_c"]), Forms=tset(["atom"]), MaxItems="1", MaxCalc="0", Defective="TRUE"), None),
            ("documents", dict(), c.scale(250, 6000)),
            ("defects inside documents", dict(Defective="TRUE", MaxItems="3"), c.scale(150, 3000)),
            ("definitions", dict(Kinds=tset(["planar", "tgu", "hard", "soft", "background", "particle", "bunch", "SDDS", "fel1d", "point"]), Names=tset(["a", "b"]), MaxItems="5", MaxCalc="4",
                                 Forms=tset(["atom", "add", "sub", "mul", "prec", "name"]), Lits="{1, 2, -1}"), c.scale(100, 3000)),
            ("beams", dict(Kinds=tset(["particle", "bunch", "SDDS", "probe"]), MaxItems="6", Forms=tset(["atom", "add", "mul", "cond", "const"])), c.scale(100, 3000)),
            ("observers", dict(Kinds=tset(["snapshot", "screen", "mesh", "point"]), MaxItems="5"), c.scale(100, 2000)),
            ("trackings", dict(Kinds=tset(["fel1d", "watch", "watch-sdds"]), MaxItems="5"), c.scale(100, 2000))]
    idx = 0
    for what, consts, sim in runs:
        k = dict(BASE)
        k.update(consts)
        r = c.tlc("Input", CFG, consts=k, simulate=sim, depth=900, timeout=800)
        docs = [b for b in r.printed]
        for b in docs:
            fixup(b)
            b["xml"] = layout(b, idx, c.rng)
            b["toks"] = tokens(b)
            idx += 1
            for d in b["doc"]:
                ops[d["kind"]] = ops.get(d["kind"], 0) + 1
                if d["kind"] != "calc" and d["df"]:
                    x = "%s: %s" % (SECT[d["sec"]] if d["kind"] == "section" else d["kind"], d["df"])
                    defs[x] = defs.get(x, 0) + 1
        c.log("%s: %d states, %d documents" % (what, r.distinct, len(docs)))
        out = c.run_driver(drv, docs, timeout=c.scale(200, 600))
        n += sum(o.get("n", 0) for o in out)
        c.compare(docs, out, expected=lambda b: [], what=what)
        if what in ("every defect", "defects inside documents"):
            refused += [b for b in docs if b["rej"] and not any(d["kind"] in ("source", "SDDS", "mesh") and d["df"] not in ("drop file", "nofile") for d in b["doc"])]
        if what == "documents":
            c.samples.append(docs[-1]["xml"][:1500])
    program(c, refused)
    c.extra["objects"], c.extra["defects"], c.extra["values_compared"] = ops, defs, n
    for kd in KINDS + ["calc", "tracking"]:
        if ops.get(kd, 0) < 10:
            raise CheckError("vacuous: hardly any %s" % kd)
    if len(defs) < 75:
        raise CheckError("vacuous: only %d kinds of defects" % len(defs))


if __name__ == "__main__":
    sys.exit(main("C10", check))
