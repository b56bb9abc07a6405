#!/usr/bin/env python3
"""Writes tools/costs.json (quoted in DESIGN.md) from the quick runs in evidence/."""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); r = {}
for f in sorted(glob.glob(H + "/evidence/*.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e["tier"] != "quick": continue
    r[e["property"]] = "%d jobs, %d paths, %d equivalence goals (%d of them became the same normalised term), %d SMT queries and %d sweep queries, %d s of solver time, %d s in all (8 cores)" % (
        c.get("jobs", 0), c.get("states", 0), c.get("equivalence_goals", 0), c.get("equivalence_goals_structural", 0), c.get("smt_queries", 0), c.get("sweep_queries", 0), c.get("solver_seconds", 0), e["wall_s"])
json.dump(r, open(H + "/tools/costs.json", "w"), indent=1)
