from spec import *
j = jobs("last", [(n,) for n in range(6)]) + jobs("find", [(n, f) for n in range(6) for f in range(n + 1)]) + jobs("contains", [(n, m) for n in range(7) for m in range(4)])
UNITS = [Unit("split", "text.cc", j, shim=True, defs=["-DDO_SPLIT"])]
BOUNDS = "every text of up to 5 bytes with every separator; Contains: texts up to 6 bytes, needles up to 3 bytes and every character"
OUTSIDE = "longer texts; absl::StrSplit itself is a stand-in that drives the delimiter as documented"
COVERS = ["absent", "present"]
