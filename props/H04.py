from spec import *
A = ["mumbo", "dumbo", "fambo", "xxh64", "xxh3", "rapid", "sip", "fnv1a", "jumbo", "xxh3_128", "murmur3", "dumbo128", "fambo128", "sip128", "rapid128", "xxh64_128", "murmur3_64", "tembo34", "tembo44", "tembo54", "tembo74", "tembo88", "tembo124", "tembo168"]
js = []
for a in A:
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 33, 48, 63, 64, 65, 80, 100, 127, 128, 129, 150):
        js += jobs("sens_" + a, [(n, i) for i in sorted({0, 1, 2, 3, n // 3, n // 2, (2 * n) // 3, n - 9, n - 8, n - 2, n - 1}) if 0 <= i < n])
        js += jobs("sens_" + a, [(n, i) for i in range(n)], tier="thorough")
    js += jobs("sens_" + a, [(n, 1000000 + i) for n in (0, 1, 5, 16, 40, 130) for i in (0, 1, 31, 32, 63)])
    js += jobs("sens_" + a, [(n, 1000000 + i) for n in (0, 1, 3, 4, 8, 9, 16, 17, 64, 240, 300) for i in range(64)], tier="thorough")
    js += jobs("align_" + a, [(n, 1 + n % 7) for n in list(range(0, 70)) + [80, 96, 97, 112, 113, 127, 128, 129, 144, 224, 225, 240, 241, 255, 256, 257, 300, 512, 513]])
    js += jobs("align_" + a, [(n, o) for n in list(range(70, 400)) + [1023, 1024, 1025] for o in (3,)], tier="thorough")
for n in (241, 256, 300): js += jobs("sens_xxh3", [(n, i) for i in (0, 63, 64, n - 65, n - 64, n - 1)]) + jobs("sens_xxh3_128", [(n, i) for i in (0, 63, 64, n - 65, n - 64, n - 1)])
UNITS = [Unit("hash", "hash.cc", js)]
BOUNDS = "every content and seed at each listed length, each hash (mumbo, jumbo, dumbo, fambo, 7 tembo variants, xxh64, xxh3 64/128, rapidhash, murmur3, SipHash, FNV-1a and the 128 bit completions): no read outside a buffer of exactly the given size, no undefined behaviour, the same value at another alignment with other neighbouring bytes, and for each listed byte and seed bit a pair of inputs differing only there with different values in each lane"
OUTSIDE = "other lengths and byte positions; how strongly a byte influences the value (statistical quality)"
