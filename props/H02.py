from spec import *
W = dict(mumbo=128, jumbo=128, xxh64=32, sip=8)
js = []
for a, w in W.items():
    P = sorted({0, 1, 7, 8, 15, 16, 17, w - 1, w, w + 1, 2 * w})
    js += jobs("st_" + a, [(1, 0, n) for n in P] + [(2, 3, x, y) for x in P for y in P])
    Q = [1, w - 1, w, w + 1]
    js += jobs("st_" + a, [(3, 6, x, y, z) for x in Q for y in Q for z in Q])
    js += jobs("st_" + a, [(4, 15, 1, w - 1, 1, 3), (4, 10, w, 3, 5, w - 8), (5, 31, 3, 0, w + 3, 0, 2 * w - 7), (5, 4, 10, 6, 1, 0, 1), (6, 63, 5, 5, 5, 1, 1, w)])
    js += jobs("st_" + a, [(3, 7, x, y, z) for x in (0, 2, 9, 15, w // 2, 2 * w - 1) for y in (0, 1, 6, 15, w // 2, w - 2, 3 * w) for z in (0, 4, 16, w - 3)] + [(2, 3, x, y) for x in range(w + 2) for y in (1, 5, 17, w)], tier="thorough")
for a in ("mumbo", "xxh64", "sip"):
    js += jobs("many_" + a, [(1, 40), (1, 150), (3, 100), (7, 60), (13, 33), (16, 40), (17, 30), (100, 20), (129, 9), (1, 300)])
js += jobs("st_default", [(0, 0), (3, 9), (16, 1), (120, 30), (128, 200)])
UNITS = [Unit("hash", "hash.cc", js)]
BOUNDS = "every content and every seed for each listed cut of the input into up to 6 pieces around the buffer sizes (128, 32, 8) and the last-16-bytes window, with the value read after any piece, copies continued; loops of up to 300 equal pieces"
OUTSIDE = "other piece lengths; more pieces; inputs longer than 2000 bytes"
