from spec import *
OPS = list(range(24)) + list(range(30, 43))
CAP = {0: 3, 1: 3, 2: 3, 3: 3, 4: 3, 5: 3, 6: 3, 7: 17, 8: 17, 9: 1, 10: 4, 11: 3}
def sizes(k): return range(CAP[k] + 1) if k not in (7, 8) else (0, 1, 3)
js = jobs("map_step", [(k, n, o) for k in (0, 1, 4) for n in sizes(k) for o in OPS if o != 20 or n < 2] + [(k, n, o) for k in (3, 5, 6, 9) for n in sizes(k) for o in (0, 2, 4, 7, 10, 13, 17, 30, 31, 32, 33, 34, 35, 37)], t=120)
js += jobs("map_step", [(k, n, o) for k in (2, 3, 6, 10, 11) for n in sizes(k) for o in OPS], t=300, tier="thorough")
js += jobs("map_step", [(k, n, o) for k in (7, 8) for n in sizes(k) for o in (0, 2, 4, 7, 30, 33, 34)], t=120)
js += jobs("map_tok", [(1, n, o) for n in range(4) for o in (0, 2, 4, 6, 11, 15, 22, 30, 31, 32, 34, 37, 38, 39, 40)], t=120)
js += jobs("map_step", [(k, n, 20) for k in (0, 1, 4) for n in (2, 3)], t=600, tier="thorough")
js += jobs("map_step", [(12, n, o) for n in (7, 8) for o in (0, 4, 6, 7, 15, 22, 31, 33, 34)], t=200)
js += jobs("map_hist", [(0, n, 2) for n in range(4)], t=200) + jobs("map_hist", [(k, n, 3) for k in (0, 3) for n in range(3)], t=800, tier="thorough")
UNITS = [Unit("map", "limited_ordered.cc", js, shim=True, defs=["-DDO_MAP"])]
BOUNDS = "every operation, key, mapped value, position and range from every state of capacity 3 (thorough: 4) with all key and mapped values (and from 7 and 8 evenly spaced keys of capacity 8), for std::less, CompareLess, a coarse and a stateful comparator and the option sets default, kNoOptimizeIndexOf, kRequireSortedInput and kCustomIndexOfBeyondUnroll; arguments that refer to own elements; conversions between capacities and between comparators, into empty and non-empty targets; histories of 2 (thorough: 3) arbitrary operations"
OUTSIDE = "larger contents; swap and assignment between maps whose comparators differ in state; the throwing requirement mode"
