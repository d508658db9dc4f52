"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (all rows are caught by the check named)."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
f = os.path.join(V, "DESIGN.md")
t = open(f).read().split("\n")
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded*", "*", "meta.json")), key=lambda m: m.split("/")[-2]):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/")))
idx = [i for i, l in enumerate(t) if re.match(r"\| C\d\d-\w+ \| C\d\d \|", l)]
t[idx[0]:idx[-1] + 1] = rows
open(f, "w").write("\n".join(t))
