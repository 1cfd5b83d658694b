#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.py and checks.py."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import properties, checks
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in properties.PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
have = []
for j in checks.JOBS:
    if j["p"] not in have and j["p"].startswith("P"):
        have.append(j["p"])
have.sort()
m = dict(version=1, setup_cmd="python3 vf.py --setup",
         hooks=dict(guard="none", enable="no hooks are needed: the checks compile /repo's sources as they are", source_commits=[]),
         checks=[dict(property=p, quick_cmd="python3 vf.py %s --tier quick" % p, thorough_cmd="python3 vf.py %s --tier thorough" % p,
                      technique="solver-based symbolic execution of the real code's LLVM IR (Z3), counterexamples replayed natively",
                      level="model_checking", level_note=checks.PROPS[p]["note"], evidence_file="evidence/%s.json" % p) for p in have],
         not_applicable=[dict(property=p["id"], reason=checks.NA.get(p["id"], "no check built yet")) for p in properties.PROPERTIES if p["id"] not in have])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(have), "checks;", len(m["not_applicable"]), "not applicable")
