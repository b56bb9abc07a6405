from spec import *
D = lambda x: ["-DDO_" + x]
st = jobs("store", [(t, h) for t in range(13) for h in range(9)]) + jobs("strings", [()])
hi = jobs("array", [(n, 2, o) for n in (0, 2) for o in range(12)]) + jobs("object", [(n, 2, o) for n in (0, 2) for o in range(9)])
cp = jobs("copy", [(s, d, h) for s in (0, 2, 4, 8, 10, 11, 12) for d in (0, 4, 8, 10) for h in range(9)]) + jobs("child", [(s, h) for s in (7, 8, 9, 10, 11, 12) for h in range(4)])
cm = jobs("pairs", [(a, b, 2, 2) for a in range(13) for b in range(13)] + [(s, t, x, y) for s in (8, 10, 11) for t in (8, 10, 11) for x in (0, 4) for y in (1, 3)]) + jobs("objects", [(a, b) for a in range(3) for b in range(3)]) + jobs("order", [(1, 1, 1), (2, 2, 1), (1, 2, 2)]) + jobs("rawcmp", [(k, v) for k in range(7) for v in range(8)])
se = jobs("print", [(m, s, a, b) for m in range(3) for s in range(7) for a, b in ((0, 2), (1, 4), (3, 5), (6, 4))] + [(m, 7, 1, 0) for m in range(3)])
hi += jobs("array", [(3, 3, o) for o in range(12)], t=800, tier="thorough") + jobs("object", [(3, 3, o) for o in range(9)], t=800, tier="thorough")
cm += jobs("objects", [(3, b) for b in range(4)], t=800, tier="thorough") + jobs("order", [(2, 2, 2), (3, 2, 1)], t=800, tier="thorough")
UNITS = [Unit("ser", "json.cc", se, shim=True, defs=D("SER"), repo_srcs=["mbo/types/stringify.cc"]), Unit("store", "json.cc", st, shim=True, defs=D("STORE")), Unit("hist", "json.cc", hi, shim=True, defs=D("HIST")), Unit("copy", "json.cc", cp, shim=True, defs=D("COPY")), Unit("cmp", "json.cc", cm, shim=True, defs=D("CMP"))]
BOUNDS = "every way of storing a value with every scalar value and every text of up to 2 bytes; arrays that start with 0 or 2 elements, objects with 0 or 2 of three properties, then any 2 operations (thorough 3); copies, moves, swaps and part-of-itself assignments of trees of depth up to 3; comparisons of all pairs of 13 tree shapes with arbitrary leaves, of objects filled in any order with up to 2 properties (thorough 3) and transitivity over three objects; printing in every mode of trees of depth up to 3 with arbitrary texts of one byte, names of up to 2 bytes and numbers of magnitude up to 20"
OUTSIDE = "floating point values (the stream stand-in cannot print them; comparing them is decided under T02); larger trees; MakeString on a value that already is a string (keeps the old text, as MakeArray and MakeObject keep theirs); the order of two different objects beyond being a total order; values above 0x7f in text are printed as they are"
ASSUME = ["absl::flat_hash_map is a list stand-in that iterates in order of insertion; results are compared for all orders of insertion, which stands for all iteration orders; the other abseil stand-ins behave as documented"]
COVERS = ["stored", "strings", "array history", "object history", "copied", "part", "compared", "objects", "ordered", "raw", "printed"]
