from spec import *
B = dict(sha1=64, sha224=64, sha256=64, md5=64, sha384=128, sha512=128, sha512_224=128, sha512_256=128, sha3_224=144, sha3_256=136, sha3_384=104, sha3_512=72, blake2b=128, blake2b_256=128, blake3=64, shake128=168, shake256=136)
js = []
def cuts(b):
    q = [(1, 0), (2, 0, 0), (2, 1, 0), (2, 0, 1), (3, 1, 1, 1), (2, b - 1, 1), (2, b, 0), (2, b, 1), (2, 1, b - 1), (2, 1, b), (3, b - 1, 1, b), (3, b - 1, 2, b - 1), (2, 3, 2 * b), (2, 2 * b, b), (3, b // 2, b, b // 2), (3, b, b, 1), (3, 2, 2 * b - 1, 0), (2, b + 3, b - 3)]
    t = [(2, i, b + 1 - i) for i in range(0, b + 2)] + [(3, i, b, j) for i in (0, 1, b - 1, b, b + 1) for j in (0, 1, b - 1, b, b + 1)] + [(4, 1, b - 2, 1, 1), (5, 1, 1, b - 2, b, 1), (2, b - 9, 9), (2, 3 * b + 1, b)]
    return q, [x for x in t if x not in q]
for a, b in B.items():
    q, t = cuts(b)
    js += jobs(a + "_stream", q) + jobs(a + "_stream", t, tier="thorough")
js += jobs("blake3_stream", [(2, 1024, 1), (2, 1023, 2), (3, 1024, 1024, 1), (2, 1, 2048), (3, 1000, 1048, 1025)], t=120)
js += jobs("blake3_stream", [(4, 1024, 1024, 1024, 1024), (2, 4096, 1), (3, 3072, 1024, 1025), (2, 1, 4096), (2, 5000, 300)], tier="thorough", t=300)
UNITS = [Unit("digest", "digest.cc", js)]
BOUNDS = "every message content, cut into up to 5 pieces whose lengths lie around the algorithm's block size (empty pieces included); the digest is read between all pieces and read twice at the end, and a copied state is advanced independently"
OUTSIDE = "other piece lengths, more pieces, longer messages"
