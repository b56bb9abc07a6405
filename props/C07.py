from spec import *
j = []
for k in (0, 1): j += [(k, n, 0) for n in range(17)] + [(k, n, 3) for n in range(4)] + [(k, n, 2) for n in (7, 8, 15, 16)]
j += [(2, n, 2) for n in (0, 1, 2, 3, 4, 7, 8, 15, 16)] + [(3, n, 3) for n in range(4)] + [(3, 5, 2)]
j += [(k, n, m) for k in (4, 5) for n in range(4 if k == 4 else 3) for m in (3, 7, 11)] + [(4, n, m) for n in (5, 6, 7, 8) for m in (2, 6, 10)]
j += [(k, n, 3) for k in (6, 7) for n in range(4)] + [(7, 6, 2), (6, 6, 2)]
j += [(1, n, 15) for n in range(4)]
def wide(d):  # the configuration with the largest unroll limit
    import os
    t = open(os.environ.get("MBO_REPO", "/repo") + "/mbo/config/internal/config.h.in").read()
    os.makedirs(d + "/mbo/config", exist_ok=True)
    open(d + "/mbo/config/config_gen.h", "w").write(t.replace("kUnrollMaxCapacityDefault = 16;", "kUnrollMaxCapacityDefault = 32;"))
jw = jobs("lookup_set", [(8, n, 0) for n in range(33)] + [(9, n, 0) for n in list(range(0, 32, 4)) + [31, 32]])
jw += jobs("lookup_set", [(9, n, 0) for n in range(33)], tier="thorough")
js = jobs("lookup_set", j) + jobs("lookup_set", [(k, n, 3) for k in (0, 1, 2) for n in range(5, 9)], tier="thorough", t=600) + jobs("lookup_set", [(k, n, 2) for k in (0, 1, 2) for n in range(5, 17)], tier="thorough", t=300)
b = [(k, n, m) for k in (0, 1, 2, 3, 4, 5) for n in ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33) if k in (2, 3) else (0, 1, 2, 3, 7, 8, 33)) for m in (0,)] + [(k, n, 3) for k in (2, 3) for n in (1, 2, 3)] + [(k, n, 3) for k in (0, 1) for n in (2,)]
b += [(k, n, m) for k in (5, 8) for n in (1, 2) for m in (3, 7, 11)] + [(k, n, 2) for k in (6, 7) for n in (0, 1, 2, 3, 8)]
jb = jobs("lookup_big", b) + jobs("lookup_big", [(k, n, m) for k in range(9) for n in range(34) for m in (2, 6, 10) if m == 2 or k in (5, 8)], tier="thorough", t=300)
m = [(k, n, 3) for k in (0, 1, 4, 5) for n in range(4)] + [(k, n, mm) for k in (2, 3) for n in range(4) for mm in (3, 7, 11)] + [(0, 8, 2), (1, 8, 2)] + [(1, n, 15) for n in range(4)]
jm = jobs("lookup_map", m) + jobs("lookup_text", [(n, l) for n in range(4) for l in (0, 1, 2) if l or n < 2], t=120)
UNITS = [Unit("wide", "limited_lookup.cc", jw, shim=True, defs=["-DDO_SMALL", "-DWIDE"], gen=wide), Unit("small", "limited_lookup.cc", js, shim=True, defs=["-DDO_SMALL"]), Unit("big", "limited_lookup.cc", jb, shim=True, defs=["-DDO_BIG"]), Unit("map", "limited_lookup.cc", jm, shim=True, defs=["-DDO_MAP"])]
BOUNDS = "every probe (own key type, exactly and coarsely comparable foreign types, a wider integer, string views) against every content of up to 3 (thorough: 8) symbolic keys, and against every size 0..32 with evenly spaced keys (which for one probe and a comparator-only algorithm is every order type), capacities 5, 6, 8, 16, and 32 with the unroll limit configured to 32 (unrolled) and 33 (beyond), all option flags and both CompareLess and other comparators"
OUTSIDE = "capacities above 33; probes whose comparison is inconsistent with the key order"

for J, E in ((js, "lookup_set"), (jm, "lookup_map")): J += jobs(E, [(k, n, 3) for k in range(4) for n in (4, 5)], tier="thorough", t=600)
