from spec import *
def J(n, m, t): return jobs("ref_hist", [(n, k) for k in range(3)], tier=t) + jobs("wrap_hist", [(m, k) for k in range(2)], tier=t) + jobs("req_hist", [(m,)], tier=t)
UNITS = [Unit("opt", "types_opt.cc", J(2, 2, "quick") + J(4, 3, "thorough") + jobs("ref_cmp", [(0,), (1,)]) + jobs("ref_none", [(0,), (1,), (2,)]) + jobs("req_copy", [()]), shim=True)]
BOUNDS = "every history of up to 2 (thorough 4) operations on an optional reference over 3 targets and of 2 (thorough 3) on a wrapper pair or a required value, from every state; 32 bit and heap-owning targets, const and not, all values"
OUTSIDE = "longer histories; targets that die while referred to; hashing and printing (see T06)"
