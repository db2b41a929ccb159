#!/usr/bin/env python3
"""Record the largest observed error / unit tolerance per (kind of result, problem,
method, decade of rtol) into harness/ctol.h; run by hand on a tree believed right."""
import os, sys, subprocess, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import fzbuild
from plans import EXES
best = collections.defaultdict(float)
out = os.environ.get("FZ_CTOL_OUT", "/tmp/ctol.ratio")   # added to if it exists
for tier in sys.argv[1:] or ["quick", "thorough"]:
    for v in (["ship", "o0", "gf13", "clang"] if tier == "quick" else ["ship"]):
        exo, exu = (fzbuild.build_exe(v, e, **EXES[e]) for e in ("exo", "exu"))
        for s, exe in [(s, exo) for s in ["C12", "C13", "C14", "C15", "C16", "C24"]] + [("C25", exu)]:
            subprocess.run([exe, "--sel", s, "--out", "/dev/null"] + (["--thorough"] if tier == "thorough" else []), env=dict(os.environ, FZ_RATIO=out, FZ_CTOL="1e5"))
for l in open(out):
    if len(l.split()) != 2: continue
    g, r = l.split(); best[int(g)] = max(best[int(g)], float(r))
with open(os.path.join(V, "harness/ctol.h"), "w") as o:
    o.write("// written by tools/mkctol.py: {group, largest error / unit tolerance seen}\n")
    for g in sorted(best): o.write("{%d, %.3g},\n" % (g, best[g]))
