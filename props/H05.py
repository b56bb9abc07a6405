from spec import *
import bzl2cc, gen
def g(d): open(d + "/bzl_gen.h", "w").write(bzl2cc.hash_header(gen.REPO))
N = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 31, 32, 33, 40, 48, 49, 63, 64, 65, 100, 112, 113, 127, 128, 129, 144, 145, 200, 255, 256, 257, 300]
js = []
for a in ("mumbo", "dumbo", "fnv1a"):
    js += jobs("bz_" + a, [(n, 0) for n in N]) + jobs("bz_" + a, [(n, 1) for n in (0, 1, 2, 3, 5, 8, 9, 12, 17)])
    js += jobs("bz_" + a, [(n, 0) for n in range(400) if n not in N] + [512, 513], tier="thorough", t=200) + jobs("bz_" + a, [(n, 1) for n in range(40)], tier="thorough", t=200)
js += jobs("bz_default", [0, 1, 4, 10, 20]) + jobs("bz_unprintable", [(1, 0), (3, 1), (5, 4)])
js += jobs("bz_mangle", [(v, s, b) for v, s in ((0, 0), (6, 0), (6, 3), (1, 12)) for b in (0, 1, 2, 7, 256)])
UNITS = [Unit("bzl", "bzl.cc", js, gen=g)]
BOUNDS = "every byte list and every seed at each listed length (0..300 around every length class; thorough: every length 0..399) and every printable string of 0..17 characters, default seeds, refusal of other characters; mangle constants for every version and seed string of the listed lengths and bucket counts 0, 1, 2, 7, 256"
OUTSIDE = "other lengths; the Starlark interpreter itself: hash.bzl and hash_mangle_seed.bzl are translated from their source on every run, integers checked never to leave 128 bits"
ASSUME = ["lib/bzl2cc.py translates the used Starlark subset faithfully (validated by replaying solver models natively and by evaluating hash.bzl as Python)"]
