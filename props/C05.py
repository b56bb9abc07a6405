from spec import *
jv = jobs("beyond_int", [(c, n, o) for c in (0, 1, 3) for n in range(c + 1) for o in range(33)]) + jobs("beyond_tok", [(3, n, o) for n in range(4) for o in range(33)])
jv += jobs("beyond_int", [(c, n, o) for c in (2, 4, 5) for n in range(c + 1) for o in range(33)], tier="thorough") + jobs("beyond_tok", [(c, n, o) for c in (1, 2, 4) for n in range(c + 1) for o in range(33)], tier="thorough")
K = {0: 3, 1: 3, 3: 3, 4: 3, 5: 3, 6: 3, 9: 1}
js = jobs("set_beyond", [(k, n, o) for k in K for n in range(K[k] + 1) for o in range(10)])
jm = jobs("map_beyond", [(k, n, o) for k in K for n in range(K[k] + 1) for o in range(18)])
js += jobs("set_beyond", [(k, n, o) for k in (2, 10, 11) for n in range(5 if k == 10 else 4) for o in range(10)], tier="thorough")
jm += jobs("map_beyond", [(k, n, o) for k in (2, 10, 11) for n in range(5 if k == 10 else 4) for o in range(18)], tier="thorough")
UNITS = [Unit("vec", "limited_vector.cc", jv, shim=True), Unit("set", "limited_ordered.cc", js, shim=True, defs=["-DDO_SET"]), Unit("map", "limited_ordered.cc", jm, shim=True, defs=["-DDO_MAP"])]
BOUNDS = "every operation that would exceed the capacity or leave [begin, end), with all positions and all 64 bit counts and indices, from every state of LimitedVector of capacity 0, 1, 3 (thorough: 0..5) and of LimitedSet and LimitedMap of capacity 1, 3 (thorough: 4) with six comparator and option choices; in each the process must end by the requirement's abort, before any access out of bounds"
OUTSIDE = "the throwing requirement mode (kRequireThrows); larger capacities"
