#!/usr/bin/env python3
"""mkplant.py ID PROP FILE NEEDS BREAKS: reads edits from stdin (OLD / ==== / NEW, edits separated by ####) and writes /verif/seeded/ID/patch.diff and meta.json.
A line '@@@@ path' inside the input switches to another file."""
import sys, os, difflib, json
pid, prop, path, needs, breaks = sys.argv[1:6]
d = "/verif/seeded/" + pid; os.makedirs(d, exist_ok=True)
new = {}
for blk in sys.stdin.read().split("\n####\n"):
    if blk.startswith("@@@@ "):
        path, blk = blk[5:].split("\n", 1); path = path.strip()
    if not blk.strip(): continue
    a, b = (blk.strip("\n") + "\n").split("\n====\n"); b = b.rstrip("\n")
    if path not in new: new[path] = open("/repo/" + path).read()
    assert new[path].count(a) == 1, (new[path].count(a), a)
    new[path] = new[path].replace(a, b)
out = ""
for p, s in new.items():
    out += "diff --git a/%s b/%s\n" % (p, p)
    out += "".join(difflib.unified_diff(open("/repo/" + p).read().splitlines(True), s.splitlines(True), "a/" + p, "b/" + p))
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
