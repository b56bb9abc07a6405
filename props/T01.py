from spec import *
UNITS = [Unit("cmp", "types_cmp.cc", jobs("cmp_int", [(i, j) for i in range(16) for j in range(16) if i == j or (i and j)]) + jobs("cmp_mixed", [(f, i) for f in (0, 1) for i in (0, 3, 4, 6, 7, 9)] + [(1, 8)]) + jobs("cmp_mixed", [(f, i) for f in (0, 1) for i in range(16)], tier="thorough") + jobs("cmp_float_double", [()]))]
BOUNDS = "every pair of the 15 integer types other than bool, bool with bool, every integer type (bool included) with float and double, float with double: all values; the quick tier pairs floating values with seven of the integer types"
OUTSIDE = "bool against another integer type (compared by truth value); long double against other types; pointers and enumerations"
