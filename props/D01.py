from spec import *
A32 = ["sha1", "sha224", "sha256"]; A64 = ["sha384", "sha512", "sha512_224", "sha512_256"]
L32 = [0, 1, 2, 3, 4, 7, 8, 31, 32, 54, 55, 56, 57, 60, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 183, 184, 192, 1000]
L64 = [0, 1, 2, 7, 8, 63, 64, 65, 110, 111, 112, 113, 120, 126, 127, 128, 129, 238, 239, 240, 255, 256, 257, 1000]
js = []
for a in A32: js += jobs(a, L32) + jobs(a + "_alg", [0, 5, 56, 64]) + jobs(a, [n for n in range(0, 260) if n not in L32], tier="thorough")
for a in A64: js += jobs(a, L64) + jobs(a + "_alg", [0, 5, 112, 128]) + jobs(a, [n for n in range(0, 390) if n not in L64], tier="thorough")
for a in A32: js += jobs(a + "_counter", [0, 1, 55, 56, 65], t=120)
for a in A64: js += jobs(a + "_counter", [0, 1, 111, 112, 129], t=120)
UNITS = [Unit("digest", "digest.cc", js)]
BOUNDS = "every message content of each listed length: quick up to 257 bytes around every padding and block boundary and 1000 bytes, thorough every length 0..259 (SHA-1/224/256) and 0..389 (SHA-384/512 and SHA-512/t); reference written from FIPS 180-4 in harness/ref_digest.h"
OUTSIDE = "longer messages"
BOUNDS += "; total message length: every value of the length counter (up to 2^61 bytes, 2^64 where the standard allows) by setting the observed counter word of the incremental state"
COVERS = ["digest", "counter"]
