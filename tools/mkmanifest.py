#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import specs
NA = {"C25": "convergence and local optimality are properties of the external Sleipnir solver's continuous numerics, which is "
             "not installed; there is no finite state space of this repository's code to enumerate"}
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in specs.SPECS:
        NA.setdefault(i, "check not built yet")
        continue
    s = specs.SPECS[i]
    checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i,
                       thorough_cmd="python3 bin/check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique=s.get("technique", specs.TECHNIQUE), level="model_checking",
                       level_note=s.get("note", specs.NOTE)))
m = dict(version=1, setup_cmd="true", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks in /repo are needed: the checks compile /repo's sources unchanged against stand-ins for its external "
               "dependencies. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
