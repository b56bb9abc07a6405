from spec import *
from hashlens import EDGE, REST
js = []
for a in ("fnv1a", "xxh64", "xxh3", "xxh3_128", "rapid", "murmur3", "sip24", "sip13"):
    m = 2 if a == "murmur3" else 1
    js += jobs("h_" + a, [(n, m) for n in EDGE], t=60) + jobs("h_" + a, [(n, m) for n in REST], tier="thorough", t=200)
    if a.startswith("xxh3"): js += jobs("h_" + a, [(n, 0) for n in (0, 5, 241, 256, 257, 1024, 1025, 1089, 2049)])
for a in ("fnv1a_def", "xxh64_alg", "xxh64_def", "xxh3_def", "xxh3_128_alg", "rapid_alg", "murmur3_64", "murmur3_alg", "sip_alg"):
    js += jobs("h_" + a, [(n, 2 if "murmur" in a else 1) for n in (0, 3, 8, 17, 33, 130, 241)])
UNITS = [Unit("hash", "hash.cc", js)]
BOUNDS = "every content and every seed (murmur3: every 32 bit seed, SipHash: every 128 bit key) at each listed length, 0..3000 bytes around every length-class boundary; thorough: every length 0..419 and lengths to 8193"
OUTSIDE = "other lengths"
