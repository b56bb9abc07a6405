from spec import *
L = [0, 1, 2, 31, 63, 64, 65, 127, 128, 129, 512, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 3073, 4096, 4097, 5121, 8193, 16385, 32769, 65537, 131073]
js = jobs("blake3", L, t=120) + jobs("blake3_alg", [0, 5, 64, 1025])
js += jobs("blake3", [n for n in range(0, 300) if n not in L] + [6145, 7169, 12289, 262145], tier="thorough", t=600)
for n in (1, 31, 32, 63, 64, 65, 128, 129, 200, 1000, 16500):
    js += jobs("b3xof_%d" % n, [0, 64, 65, 1024, 1025]) + jobs("b3keyed_%d" % n, [0, 1, 64, 1024, 1025]) + jobs("b3derive_%d" % n, [(0, 0), (1, 1), (64, 64), (65, 1025)])
    js += jobs("b3xof_%d" % n, [1, 2049, 3073], tier="thorough") + jobs("b3derive_%d" % n, [(1025, 5), (3, 2049)], tier="thorough")
js += jobs("b3keyed_stream", [(0, 0), (1, 63), (64, 0), (64, 1), (1024, 1), (1023, 2), (1, 2048), (2048, 1)])
js += jobs("blake3_counter", [1, 1024, 1025, 2048], t=120)
UNITS = [Unit("digest", "digest.cc", js)]
BOUNDS = "every message, key and context content of each listed length: messages to 131073 bytes around block, chunk and subtree boundaries (thorough to 262145), XOF outputs of 1..16500 bytes in hash, keyed and derive-key mode"
OUTSIDE = "longer messages (more than 257 chunks), longer outputs"
BOUNDS += "; total message length: every value of the length counter (up to 2^61 bytes, 2^64 where the standard allows) by setting the observed counter word of the incremental state"
COVERS = ["digest", "counter"]
