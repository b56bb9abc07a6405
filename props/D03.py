from spec import *
L = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 54, 55, 56, 57, 60, 62, 63, 64, 65, 100, 118, 119, 120, 121, 127, 128, 129, 183, 184, 192, 1000]
js = jobs("md5", L) + jobs("md5_alg", [0, 5, 56, 64]) + jobs("md5", [n for n in range(330) if n not in L], tier="thorough")
js += jobs("md5_counter", [0, 1, 55, 56, 65], t=120)
UNITS = [Unit("digest", "digest.cc", js)]
BOUNDS = "every message content of each listed length: quick up to 192 bytes around every padding and block boundary and 1000 bytes, thorough every length 0..329"
OUTSIDE = "longer messages"
BOUNDS += "; total message length: every value of the length counter (up to 2^61 bytes, 2^64 where the standard allows) by setting the observed counter word of the incremental state"
COVERS = ["digest", "counter"]
