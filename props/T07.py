from spec import *
def J(n, m, t): return jobs("value", [(n,)], tier=t) + jobs("pointer", [(m,)], tier=t) + jobs("container", [(n,)], tier=t) + jobs("queue", [(m,)], tier=t)
UNITS = [Unit("opaque", "types_opaque.cc", J(4, 5, "quick") + J(5, 6, "thorough") + jobs("value", [(1,)]) + jobs("macro", [()]) + jobs("nodestruct", [()]), shim=True)]
BOUNDS = "every history of up to 4 (thorough 5) operations on a pair of opaque values and on an opaque vector and its copies, and of 5 (thorough 6) on a pair of opaque pointers and on a queue behind a proxy; heap-owning contents, all values; NoDestruct with every constructor form"
OUTSIDE = "longer histories; copy construction from a non-const opaque value (does not compile); other containers behind a proxy"
