#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, sys
p = "/verif/known_findings.json"; d = json.load(open(p)); l = d.setdefault("fixed", [])
e = "fixed: property=%s %s %s" % tuple(sys.argv[1:4])
if e not in l: l.append(e)
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
