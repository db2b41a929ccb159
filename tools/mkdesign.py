#!/usr/bin/env python3
"""DESIGN.md = DESIGN.head.md + generated table of explored families + DESIGN.tail.md + planted bugs."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + "/DESIGN.head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); f = V + "/evidence/%s.json" % p["id"]
    o += "### %s %s\n\n" % (p["id"], p["title"])
    o += "Beyond the tests: %s\n\n" % p["why_tests_cant"]
    if os.path.exists(f):
        d = json.load(open(f)); c = d["coverage"]
        o += "Quick run: %s executions, %s comparisons, %s states, %.0f s.\n\n" % (format(c.get("executions", 0), ","), format(c.get("checks", 0), ","), format(c.get("states", 0), ","), d["wall_s"])
        seen = set()
        for x in c.get("families", []):
            if x["family"] in seen: continue
            seen.add(x["family"]); o += "- `%s` (%s): %s\n" % (x["family"], format(x["space"], ","), x["rule"])
        o += "\n"
o += open(V + "/DESIGN.tail.md").read()
o += "## 8. Planted bugs and what catches them\n\nvcheck counts only changes to C sources; changes to Fortran sources are kept in seeded_fortran/.\n\n"
r = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/seeded_fortran/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o += "- `%s` (%s): %s -- %s\n" % (i, m["property"], m["what_it_breaks"], r.get(i, "not run yet"))
open(V + "/DESIGN.md", "w").write(o)
