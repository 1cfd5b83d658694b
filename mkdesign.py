#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, properties.py, checks.py, seedtool results and the last evidence."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [here, os.path.join(here, "design")]
import properties, checks, oracles
def rd(n): return open(os.path.join(here, "design", n)).read().rstrip() + "\n\n"
costs_f = os.path.join(here, "design", "costs.json")
costs = json.load(open(costs_f)) if os.path.exists(costs_f) else {}
for p in properties.PROPERTIES:
    f = os.path.join(here, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        d = json.load(open(f))
        if d["tier"] == "quick" and not d["violations"]:
            costs[p["id"]] = dict(wall=round(d["wall_s"]), paths=d["coverage"]["states"], queries=d["coverage"]["queries_discharged"])
json.dump(costs, open(costs_f, "w"), indent=1, sort_keys=True)
out = rd("head.md") + "## Properties\n\n"
def short(s): return " ".join(s.split())
for p in properties.PROPERTIES:
    i = p["id"]; out += "### %s %s\n\n" % (i, p["title"])
    out += short(p["statement"]) + "\n\n"
    jobs = [j for j in checks.JOBS if j["p"] == i]
    if not jobs:
        out += "*Not applicable:* %s\n\n" % checks.NA.get(i, "no check built yet"); continue
    o = oracles.O.get(i, ("", ""))
    out += "- *Explored:* %s.\n- *Oracle:* %s\n- *Beyond tests:* %s\n" % (checks.PROPS[i]["note"].rstrip("."), o[0], o[1])
    srcs = []
    for j in jobs:
        for s in j["src"]:
            if s not in srcs: srcs.append(s)
    out += "- *Harness:* %s over %s.\n" % (", ".join(sorted({"`harness/%s`" % j["h"] for j in jobs})), ", ".join("`%s`" % s.replace("src/onion/", "") for s in srcs))
    out += "- *Bounds (quick / thorough):*\n"
    for j in jobs:
        def b(d): return ", ".join("%s=%s" % kv for kv in d.items()) or "fixed"
        pre = j.get("preempt"); pt = ""
        if pre: pt = "; preemptions " + (str(pre) if not isinstance(pre, dict) else "%s / %s" % (pre["quick"], pre["thorough"]))
        txt = j["bounds"].replace("|", "\\|")
        out += "  - `%s`: %s (%s / %s%s)\n" % (j["name"], txt, b(j["quick"]), b(j["thorough"]), pt)
    if checks.PROPS[i]["assume"]: out += "- *Outside:* %s.\n" % "; ".join(checks.PROPS[i]["assume"]).rstrip(".")
    if i in costs: out += "- *Cost (quick, 8 cores):* about %d s, %d paths, %d solver queries.\n" % (costs[i]["wall"], costs[i]["paths"], costs[i]["queries"])
    out += "\n"
out += rd("tail.md")
sf = os.path.join(here, "design", "seeded.json")
if os.path.exists(sf):
    out += "## Planted bugs\n\n" + rd("planted.md") + "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
    for b in json.load(open(sf)): out += "| `%s` | %s | %s | %s |\n" % (b["id"], b["property"], b["breaks"].replace("|", "\\|"), b.get("caught", "?"))
open(os.path.join(here, "DESIGN.md"), "w").write(out)
