from spec import *
R = {"sha3_224": 144, "sha3_256": 136, "sha3_384": 104, "sha3_512": 72}
js = []
def ls(r): return sorted({0, 1, 7, 8, 9, r // 2, r - 9, r - 8, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 1000})
for a, r in R.items(): js += jobs(a, ls(r)) + jobs(a + "_alg", [0, 5, r - 1, r]) + jobs(a, [n for n in range(2 * r + 2) if n not in ls(r)], tier="thorough")
OUTN = [1, 16, 32, 64, 135, 136, 137, 167, 168, 169, 272, 337, 512, 1400]
for n in OUTN:
    for a, r in (("shake128", 168), ("shake256", 136)):
        q = ls(r) if n == 32 else [0, 3, r - 1, r]
        js += jobs("%s_%d" % (a, n), q) + jobs("%s_%d" % (a, n), [x for x in (ls(r) if n != 32 else range(2 * r + 2)) if x not in q], tier="thorough")
UNITS = [Unit("digest", "digest.cc", js)]
BOUNDS = "every message content of each listed length (around 0, 1 and 2 times the rate; 1000 bytes; thorough: every length up to two rates); SHAKE output sizes 1..512 bytes around one, two and three rates, 1400 bytes"
OUTSIDE = "longer messages and outputs"
