#!/usr/bin/env python3
"""mkseed.py SPECFILE: write seeded/<id>/ folders from a python file with calls of
seed(id, prop, [(file, old, new[, nth])], needs, breaks, demo_cpp | sh=...)."""
import difflib, json, os, shutil, subprocess, sys, tempfile
REPO = "/repo"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = r'''#!/bin/bash
# builds demo.cpp against the built library and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial; M=/usr/lib/x86_64-linux-gnu/openmpi; S=$R/lib/SDDS
g++ -O1 -std=c++11 -fopenmp -w -I"$R/src" -I"$R/_build" -I"$S" -I/usr/include/hdf5/serial -I/usr/include/eigen3 -I$M/include "$D/demo.cpp" \
  "$R/_build/libTEUFELlib.a" $H/libhdf5_cpp.so $H/libhdf5.so $S/libSDDS1.a $S/libmdblib.a $S/libmdbcommon.a $S/liblzma.a \
  $M/lib/libmpi_cxx.so $M/lib/libmpi.so -lpugixml -lmuparser -lz -lm -ldl -lpthread -Wl,-rpath,$H:$M/lib -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
'''
HEAD = '''#include <cstdio>
#include <cmath>
#include <vector>
#include <string>
#include "global.h"
#include "vector.h"
#include "fields.h"
#include "fieldtrace.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''
def seed(id, prop, edits, needs, breaks, cpp=None, sh=None, files=None):
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    texts = {}
    for e in edits:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else 0
        t = texts.get(f) or open(os.path.join(REPO, f)).read()
        n = t.count(old)
        assert n > nth, "%s: %r found %d times in %s" % (id, old, n, f)
        assert n == 1 or len(e) > 3, "%s: %r ambiguous (%d) in %s" % (id, old, n, f)
        i = -1
        for _ in range(nth + 1):
            i = t.index(old, i + 1)
        texts[f] = t[:i] + new + t[i + len(old):]
    for f, t in texts.items():
        a = open(os.path.join(REPO, f)).read().splitlines(True)
        patch += "".join(difflib.unified_diff(a, t.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if cpp is not None:
        open(os.path.join(d, "demo.cpp"), "w").write(HEAD + cpp)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(sh)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    subprocess.check_call(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")])
    print("wrote", id)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
