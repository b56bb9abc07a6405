from spec import *
j = jobs("hist", [(2,)]) + jobs("hist", [(3, 1, a, b) for a in range(3) for b in range(3)], tier="thorough") + jobs("build", [()]) + jobs("compare", [()]) + jobs("none", [()])
UNITS = [Unit("ref", "types_data.cc", j, shim=True), Unit("const", "types_data.cc", j, defs=["-DCONST_REF"], shim=True)]
BOUNDS = "every history of up to 2 (thorough 3) operations on two objects, each starting empty, owning or referring, with mutable and const references to two targets; heap-owning data, all values"
OUTSIDE = "longer histories; assignments whose source is part of the object's own value; targets that die while referred to; assigning an lvalue to an object with a const reference type (does not compile)"
