#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, props/*.py, tools/design_notes.json, known_findings.json and seeded/*/meta.json."""
import json, os, sys, glob, importlib.util
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/lib", H + "/props"]
N = json.load(open(H + "/tools/design_notes.json"))
NA = json.load(open(H + "/tools/not_applicable.json"))
o = open(H + "/tools/design_head.md").read()
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    o += "### %s — %s\n\n" % (i, p["title"])
    f = H + "/props/%s.py" % i
    if not os.path.exists(f):
        o += "Not applicable: %s\n\n" % NA.get(i, "no check built"); continue
    sp = importlib.util.spec_from_file_location("p_" + i, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    n = N["checks"].get(i, "")
    src = sorted({u.src for u in getattr(m, "UNITS", [])}) or ["repo_tools.py"]
    o += "*Decides:* %s\n\n*Harness:* %s. *Bounds:* %s.\n\n*Outside:* %s.\n" % (n, ", ".join("`harness/%s`" % s for s in src), m.BOUNDS, m.OUTSIDE)
    a = getattr(m, "ASSUME", [])
    if a: o += "\n*Assumes:* %s.\n" % "; ".join(a)
    try:
        e = json.load(open(H + "/tools/costs.json")).get(i)
        if e: o += "\n*Quick check:* %s.\n" % e
    except OSError: pass
    o += "\n"
o += open(H + "/tools/design_mid.md").read()
k = json.load(open(H + "/known_findings.json"))
o += "\nOpen findings: %s.\n\n" % (len(k["findings"]) or "none")
for x in k["findings"]: o += "* %s (%s): %s\n" % (x["id"], x["property"], x["what"])
o += "Repaired (each a `fix:` commit in /repo):\n\n"
for x in k["fixed"]: o += "* " + x[len("fixed: "):] + "\n"
o += "\n## 6. Planted bugs\n\n" + N["plants_head"] + "\n\n| plant | property | caught by | what it breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    x = json.load(open(d)); i = d.split("/")[-2]
    o += "| %s | %s | %s | %s |\n" % (i, x["property"], N["caught"].get(i, "check " + x["property"]), x["what_it_breaks"].replace("|", "/"))
o += "\n" + N.get("plants_tail", "") + "\n"
open(H + "/DESIGN.md", "w").write(o)
