#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl, props/*.py and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib"); sys.path.insert(0, HERE + "/props")
import importlib.util
NA = json.load(open(HERE + "/tools/not_applicable.json"))
checks, na = [], []
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)["id"]
    f = HERE + "/props/%s.py" % p
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")}); continue
    sp = importlib.util.spec_from_file_location("prop_" + p, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": getattr(m, "TECHNIQUE", "bounded symbolic execution of the compiled IR with SMT (z3), term equivalence by SAT sweeping, native replay"),
                   "level": "model_checking", "level_note": ("Bounds: " + m.BOUNDS + ". Not covered: " + m.OUTSIDE + ".") if m.BOUNDS else "See DESIGN.md."})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
