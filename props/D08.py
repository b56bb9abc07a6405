from spec import *
js = []
for a, b in dict(sha1=64, sha224=64, sha256=64, md5=64, sha384=128, sha512=128, sha512_224=128, sha512_256=128, sha3_224=144, sha3_256=136, sha3_384=104, sha3_512=72, blake2b=128, blake2b_256=128, blake3=64).items():
    pad = {64: 9, 128: 17 if a.startswith("sha") else 1}.get(b, 1)
    q = sorted({0, 1, 5, b - pad, b - pad + 1, b - 1, b, b + 1, 2 * b})
    js += jobs(a, q) + jobs(a + "_alg", [0, b]) + jobs(a, [n for n in range(2 * b + 2) if n not in q], tier="thorough")
    js += jobs(a + "_stream", [(2, 1, 0), (2, b - 1, 1), (2, b, 1), (3, b - 1, 2, b), (2, 3, 2 * b)])
for n in (1, 32, 64, 169, 337):
    js += jobs("shake128_%d" % n, [0, 3, 167, 168]) + jobs("shake256_%d" % n, [0, 3, 135, 136])
js += jobs("shake128_stream", [(2, 167, 2)]) + jobs("shake256_stream", [(2, 135, 2)])
js += jobs("blake3", [1023, 1024, 1025, 2049, 3073, 4097], t=120)
for n in (1, 32, 64, 65, 200): js += jobs("b3xof_%d" % n, [0, 65]) + jobs("b3keyed_%d" % n, [1, 1025]) + jobs("b3derive_%d" % n, [(1, 1), (65, 1025)])
for a in ("blake2b", "blake2b_256"): js += jobs(a + "_keyed", [(0, 5), (1, 1), (64, 0), (64, 128)])
for a, b in (("sha1", 64), ("sha256", 64), ("sha512", 128), ("md5", 64), ("sha3_256", 136), ("blake2b", 128), ("blake3", 64)): js += jobs("hmac_" + a, [(0, 0), (3, 5), (b, b), (b + 1, 1)])
UNITS = [Unit("digest_ct", "digest.cc", js, defs=[CONSTEVAL])]
BOUNDS = "every message and key content of each listed length with every constant-evaluation branch (std::is_constant_evaluated) taken on its compile-time side, compared with the same references as the run-time build in D01 to D07"
OUTSIDE = "other lengths; what only a compiler's constant evaluator would reject (the repository's static_asserts show it accepts these functions)"
ASSUME = ["std::is_constant_evaluated() is forced to true to select the compile-time branches; the abstract machine is otherwise the same"]
