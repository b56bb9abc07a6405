from spec import *
P = [(n, h) for n in range(0, 9) for h in range(0, n + 2)] + [(n, h) for n in (2, 5) for h in (1000, 1001)] + [(n, h) for h in (32, 40, 64) for n in (h - 1, h, h + 2, h + 3, h + 5)] + [(131, 128), (20, 2)]
T = [(n, h) for n in range(9, 40) for h in range(0, n + 2)] + [(n, 128) for n in range(126, 140)]
UNITS = [Unit("checksum", "checksum.cc", jobs("line", P) + jobs("line", T, tier="thorough"), repo_srcs=["mbo/digest/checksum.cc"]),
         Unit("hex", "digest.cc", [j for e in ("hex1", "hex16", "hex32", "hex64") for j in jobs(e, [[]])])]
BOUNDS = "every line content of length 0..8 with every expected digest length (thorough 0..39), the real digest lengths 32/40/64/128 with names of 0 to 3 bytes, and absurd expected lengths near SIZE_MAX; hex rendering of every value of 1, 16, 32 and 64 byte digests"
OUTSIDE = "longer lines"
COVERS = ["accepted", "rejected", "hex"]
