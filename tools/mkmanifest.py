#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plans import PLANS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
MC = "bounded-exhaustive exploration of the real library (stateless model checking: every program/input/history of the stated families is executed and compared step by step with an independent reference model)"
TECH = {
 "C05": "exhaustive enumeration of all nested-environment histories up to a depth on the real library, lock-step with a reference model",
 "C08": "exhaustive enumeration of programs, record sizes and growth points on the real library built with initial capacities 1,2,3,7 and default, with and without bounds checks and AddressSanitizer, lock-step with a reference model",
 "C16": "exhaustive fault enumeration: every allocation failure point of every solve scenario, and every kind of unsolvable problem, executed on the real code",
 "C17": "exhaustive repetition of all operation kinds and their pairs under an allocation monitor (interposed allocator) on the real code",
 "C21": "exhaustive differential execution of the program suite over all supported build configurations",
 "C22": "exhaustive enumeration of helper calls (types, positions, values) with the exit status as the observation",
 "C26": "explicit-state model of one step of the variable-order methods, checked for conformance against every internal step of every solve of exhaustively enumerated families on the real code",
 "C23": "exhaustive enumeration of small systems/vectors (all integer matrices up to a size, all aliasings and coefficient cases) on the real kernels",
}
NOTE = {
 "default": "Covers every element of the finite families written in the evidence file (no sampling); outside those families nothing is claimed. Trusts the C++ reference model, libquadmath and the compiler.",
 "C16": "Every single and every sticky allocation failure of each listed solve scenario, and each listed kind of failing set-up; larger systems or other failure causes are not covered.",
}
NA = {}
checks = []
for p in props:
    if p in PLANS:
        checks.append(dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=TECH.get(p, MC), level=PLANS[p]["level"], level_note=NOTE.get(p, NOTE["default"])))
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in PLANS]
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
  notes="Checks build the library out of tree under /verif/build (ignored by git) from /repo's working tree; no hooks in /repo are needed. Known and fixed findings: known-findings.txt."),
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
