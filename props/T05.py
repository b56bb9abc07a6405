from spec import *
J = jobs("decompose", [(n,) for n in range(41)])
K = jobs("kinds", [(k,) for k in range(10)])
E = jobs("relate", [(k,) for k in range(6)]) + jobs("construct", [()])
UNITS = [Unit("sizes", "extend.cc", J, shim=True, defs=["-DDO_SIZES"]),
         Unit("gcc_sizes", "extend.cc", jobs("decompose", [(n,) for n in range(14)]), shim=True, defs=["-DDO_SIZES", "-DIS_CLANGD", "-DMAXN=13"]),
         Unit("gcc_more", "extend.cc", jobs("decompose", [(n,) for n in range(14, 41)], tier="thorough"), shim=True, defs=["-DDO_SIZES", "-DIS_CLANGD"]),
         Unit("kinds", "extend.cc", K, shim=True, defs=["-DDO_KINDS"]),
         Unit("gcc_kinds", "extend.cc", jobs("kinds", [(k,) for k in range(10) if k not in (0, 6, 8)]), shim=True, defs=["-DDO_KINDS", "-DIS_CLANGD"]),
         Unit("extend", "extend.cc", E, shim=True, defs=["-DDO_EXTEND"])]
BOUNDS = "structs of every size 0 to 40 with fields alternating between 1 and 2 bytes, as lvalue, const lvalue and rvalue, all values, by clang's way of counting fields, and sizes 0 to 13 (thorough 40) also by GCC's; ten kinds of structs (arrays, std::array, nested, empty base, strings and optionals, move-only, references, pointers); Extend structs of 1, 2, 3 and 6 fields compared with all values of two objects"
OUTSIDE = "with GCC, structs with C arrays or references as fields (they do not compile); comparing an Extend struct with a std::tuple (ambiguous, does not compile with clang); structs of more than 40 fields (refused at compile time); printing by extenders (T06)"
COVERS = ["decomposed", "kinds", "extended", "other struct", "constructed"]
