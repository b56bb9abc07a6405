#!/usr/bin/env python3
"""Where the last run of a property spent its time: prof.py ID (by entry and by each parameter value)."""
import sys, glob, json, os, collections
w = max(glob.glob("/verif/build/w/%s-*" % sys.argv[1]), key=os.path.getmtime)
rows = []
for f in glob.glob(w + "/res-*/j*.json"):
    try: j = json.load(open(f))
    except Exception: continue
    rows.append(j)
if not rows: sys.exit("no rows")
if len(sys.argv) > 2: print(list(rows[0].keys()))
def t(j): return j.get("secs", 0)
ag = collections.defaultdict(float)
for j in rows:
    e = j.get("entry"); ag[e] += t(j)
    for i, p in enumerate(j.get("params", [])): ag[(e, i, p)] += t(j)
for k, v in sorted(ag.items(), key=lambda x: -x[1])[:30]: print("%8.1f %s" % (v, k))
print("top jobs"); 
for j in sorted(rows, key=lambda j: -t(j))[:15]: print("%8.1f %s %s" % (t(j), j.get("entry"), j.get("params")))
