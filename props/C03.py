from spec import *
OPS = range(24)
CAP = {0: 3, 1: 3, 2: 3, 3: 3, 4: 3, 5: 3, 6: 3, 7: 17, 8: 17, 9: 1, 10: 4, 11: 3}
def sizes(k): return range(CAP[k] + 1) if k not in (7, 8) else (0, 1, 3)
slow = lambda k, n, o: (o == 20 and n > 2 and k) or (k in (7, 8) and o == 3 and n > 1)
js = jobs("set_step", [(k, n, o) for k in (0, 1, 3, 4, 5, 6, 9) for n in sizes(k) for o in OPS if not slow(k, n, o)], t=120)
js += jobs("set_step", [(k, n, o) for k in (2, 10, 11) for n in sizes(k) for o in OPS], t=300, tier="thorough")
js += jobs("set_step", [(k, n, o) for k in (7, 8) for n in sizes(k) for o in (0, 1, 2, 3, 4, 6, 7, 8, 10, 13, 16) if not slow(k, n, o)], t=120)
js += jobs("set_step", [(k, n, o) for k in (0, 1, 3, 4, 5, 6, 7, 8, 9) for n in sizes(k) for o in (3, 20) if slow(k, n, o)], t=600, tier="thorough")
js += jobs("set_tok", [(1, n, o) for n in range(4) for o in (0, 2, 4, 6, 7, 11, 15, 22)], t=120)
js += jobs("set_step", [(12, n, o) for n in (7, 8) for o in (0, 4, 6, 7, 15, 22)], t=200)
js += jobs("set_hist", [(0, n, 2) for n in range(4)], t=200) + jobs("set_hist", [(k, n, 3) for k in (0, 3) for n in range(3)], t=800, tier="thorough")
UNITS = [Unit("set", "limited_ordered.cc", js, shim=True, defs=["-DDO_SET"])]
BOUNDS = "every operation, key, position and range from every state of capacity 3 and 1 (thorough: 4) with all key values (and from 7 and 8 evenly spaced keys of capacity 8), for std::less, CompareLess, a coarse comparator, a stateful comparator (thorough: a reversed one too) and the option sets default, kNoOptimizeIndexOf, kRequireSortedInput, and kCustomIndexOfBeyondUnroll beyond the unroll limit (sizes 0, 1, 3); conversions between capacities and between comparators, into empty and non-empty targets; histories of 2 (thorough: 3) arbitrary operations"
OUTSIDE = "larger contents; swap and assignment between sets whose comparators differ in state; the throwing requirement mode"
