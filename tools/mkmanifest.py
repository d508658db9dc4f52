#!/usr/bin/env python3
"""Generates MANIFEST.json from the checks present in checks/ (text of technique/notes below)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "checks", p + ".py")) and p in TECH["checks"]:
        t, n = TECH["checks"][p]
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p, "thorough_cmd": "python3 checks/%s.py" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": TECH["not_applicable"].get(p, "check under construction, not yet claimed")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; conformance drivers in drivers/; one runner per property in checks/. "
              "VERIF_TIER selects the bounds, VERIF_SEED every random choice."}
m["hooks"] = {"guard": "none", "enable": "no hooks: all observations are made through the public API, the tests' extension points, output files and an MPI profiling layer linked by the checks", "source_commits": []}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
