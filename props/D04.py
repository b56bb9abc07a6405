from spec import *
L = [0, 1, 2, 7, 8, 63, 64, 65, 126, 127, 128, 129, 130, 191, 255, 256, 257, 384, 1000, 4096, 16385]
js = []
for a in ("blake2b", "blake2b_256"):
    js += jobs(a, L) + jobs(a + "_alg", [0, 5, 128]) + jobs(a, [n for n in range(400) if n not in L], tier="thorough")
    K = [(0, 0), (0, 5), (1, 0), (1, 1), (31, 3), (32, 128), (63, 127), (64, 0), (64, 1), (64, 127), (64, 128), (64, 129), (64, 256)]
    js += jobs(a + "_keyed", K) + jobs(a + "_keyed", [(k, n) for k in range(65) for n in (0, 1, 127, 128, 129) if (k, n) not in K], tier="thorough")
    js += jobs(a + "_keyed_stream", [(0, 0, 0), (0, 1, 128), (1, 0, 0), (5, 0, 128), (64, 127, 1), (64, 128, 0), (64, 128, 1), (32, 1, 256)])
for a in ("blake2b", "blake2b_256"): js += jobs(a + "_counter", [1, 128, 129], t=120)
UNITS = [Unit("digest", "digest.cc", js)]
BOUNDS = "every message and key content of each listed length: messages to 384 bytes around the 128-byte block boundaries and of 1000, 4096 and 16385 bytes (thorough: every length to 399), keys of 0..64 bytes (thorough: every key length), one-shot and two-piece incremental"
OUTSIDE = "longer messages"
BOUNDS += "; total message length: every value of the length counter (up to 2^61 bytes, 2^64 where the standard allows) by setting the observed counter word of the incremental state"
COVERS = ["digest", "counter"]
