from spec import *
V = range(37); S = [o for o in range(22) if o != 20]; M = S + list(range(30, 43))
jv = jobs("step_tok", [(c, n, o) for c in (1, 3) for n in range(c + 1) for o in V]) + jobs("step_tok", [(c, n, o) for c in (2, 4, 5) for n in range(c + 1) for o in V], tier="thorough")
jv += jobs("hist_tok", [(2, n, 2) for n in range(3)], t=120) + jobs("hist_tok", [(3, n, 2) for n in range(4)] + [(2, n, 3) for n in range(3)], t=600, tier="thorough") + jobs("make_tok", [()])
js = jobs("set_tok", [(0, n, o) for n in range(4) for o in S], t=120) + jobs("set_tok", [(k, n, o) for k in (1, 2) for n in range(4 if k == 1 else 5) for o in S], t=400, tier="thorough")
js += jobs("set_tok_hist", [(0, n, 2) for n in range(4)], t=300, tier="thorough")
jm = jobs("map_tok", [(0, n, o) for n in range(4) for o in M if n < 3 or o not in (19,)], t=120) + jobs("map_tok", [(k, n, o) for k in (1, 2) for n in range(4 if k == 1 else 5) for o in M], t=400, tier="thorough")
jm += jobs("map_tok_hist", [(0, n, 2) for n in range(3)], t=600, tier="thorough")
UNITS = [Unit("vec", "limited_vector.cc", jv, shim=True), Unit("set", "limited_ordered.cc", js, shim=True, defs=["-DDO_SET"]), Unit("map", "limited_ordered.cc", jm, shim=True, defs=["-DDO_MAP"])]
BOUNDS = "an element type that owns one heap cell from construction to destruction, in every operation at every position, count and range from every state of LimitedVector of capacity 1 and 3 (thorough: 1..5), LimitedSet and LimitedMap (both key and mapped type) of capacity 3 (thorough: 4, other comparators), all values; and two-operation histories"
OUTSIDE = "larger capacities; element constructors that throw; the kEmptyDestructor option with owning elements"
