from spec import *
B = dict(sha1=64, sha224=64, sha256=64, md5=64, sha384=128, sha512=128, sha512_224=128, sha512_256=128, sha3_224=144, sha3_256=136, sha3_384=104, sha3_512=72, blake2b=128, blake2b_256=128, blake3=64)
js = []
for a, b in B.items():
    q = [(0, 0), (1, 3), (b - 1, 1), (b, 0), (b, b), (b + 1, 1), (2 * b, b - 1), (2 * b + 1, 2)]
    js += jobs("hmac_" + a, q) + jobs("hmac_" + a, [(k, n) for k in [2, 20, 32, b // 2, b - 2, b + 2, 3 * b] for n in (0, 5, b - 9, b, b + 1)], tier="thorough")
    js += jobs("hmacs_" + a, [(0, 0, 0), (3, 1, 2), (b, b - 1, 1), (b + 1, 0, b), (b - 1, b, 1)])
    js += jobs("hmacs_" + a, [(k, x, y) for k in (5, b, b + 1) for x in (0, 1, b - 1, b, b + 1) for y in (1, b)], tier="thorough")
UNITS = [Unit("digest", "digest.cc", js)]
BOUNDS = "every key and message content of the listed lengths: keys of 0 to 2 blocks+1 (thorough 3 blocks) on both sides of the block size, messages around the block size, one-shot and incremental in two pieces with a read in the middle"
OUTSIDE = "other lengths; HMAC over SHAKE (no fixed digest size)"
