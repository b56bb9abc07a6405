from spec import *
nm = [(n, m) for n in range(4) for m in range(4)]
j = jobs("compare_vector", [(k, n, m) for k in (0, 2) for n, m in nm] + [(k, n, m) for k in (1, 3) for n in range(4) for m in range(5)])
j += jobs("compare_set", [(k, n, m) for k in range(5) for n, m in nm]) + jobs("compare_map", [(k, n, m) for k in range(3) for n, m in nm] + [(3, n, m) for n in range(3) for m in range(3)])
j += jobs("compare_float", [(n, m) for n in range(3) for m in range(3)])
j += jobs("compare_map", [(3, n, m) for n, m in nm if n > 2 or m > 2], tier="thorough", t=300) + jobs("compare_set", [(1, n, m) for n in range(4) for m in (4, 5)], tier="thorough", t=300) + jobs("compare_map", [(1, n, m) for n in range(4) for m in (4, 5)], tier="thorough", t=300)
UNITS = [Unit("cmp", "limited_compare.cc", j, shim=True)]
BOUNDS = "all ordered pairs of contents of sizes up to 3 (vectors: 3 and 4; thorough: up to 5), all element values (32 bit, mixed 32 and 64 bit, heap-owning, and double up to size 2 including NaN), equal and different capacities, std::less, reversed and CompareLess order"
OUTSIDE = "larger sizes (the loops are the same); element types whose own comparison is inconsistent"
