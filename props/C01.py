from spec import *
OPS = range(37)
js = jobs("step_int", [(c, n, o) for c in (1, 3, 4) for n in range(c + 1) for o in OPS]) + jobs("step_tok", [(c, n, o) for c in (3, 4) for n in range(c + 1) for o in OPS])
js += jobs("step_int", [(9, n, o) for n in (6, 8, 9) for o in OPS])
js += jobs("step_int", [(c, n, o) for c in (2, 5) for n in range(c + 1) for o in OPS], tier="thorough") + jobs("step_tok", [(c, n, o) for c in (1, 2, 5) for n in range(c + 1) for o in OPS], tier="thorough")
js += jobs("hist_int", [(3, n, 2) for n in range(4)], t=120) + jobs("hist_int", [(2, n, 3) for n in range(3)] + [(3, n, 3) for n in range(4)], t=600, tier="thorough")
js += jobs("make", [()])
UNITS = [Unit("vec", "limited_vector.cc", js, shim=True)]
BOUNDS = "every operation at every position, count and own-element argument from every state (all element values) of capacities 1, 3 and 4 (thorough: 1..5) and from 6, 8 and 9 elements of capacity 9, and histories of 2 (thorough: 3) arbitrary operations; the state is exactly size and contents, so single steps from every state cover longer histories of these capacities"
OUTSIDE = "other capacities; element types other than a 32 bit integer and a heap-owning type; the throwing requirement mode"
