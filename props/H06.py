from spec import *
N = [0, 1, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 32, 40, 130, 240]
js = jobs("complete", N) + jobs("complete", [n for n in range(241) if n not in N], tier="thorough") + jobs("folds", [()]) + jobs("order", [()]) + jobs("text", [()])
UNITS = [Unit("hash", "hash.cc", js), Unit("mangle", "hash.cc", jobs("mangle", [0, 1, 8, 17, 130]), defs=["-DWITH_MANGLE"])]
BOUNDS = "every pair of 64 bit values for the folds, the combination and the ordering; every content and seed at each listed length (0..240) for algorithm structs offering only 64 bits, only 128 bits, 64 and 32 bits, and 64 and 128 bits; the mangle with the constant of the generated header"
OUTSIDE = "other lengths; mangle constants of other build configurations (their selection is part of H05)"
