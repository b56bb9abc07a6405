from spec import *
D = lambda x: ["-DDO_" + x]
st = jobs("status", [(0,), (1,)]) + jobs("payload", [(n,) for n in range(3)]) + jobs("payload", [(3,)], t=600, tier="thorough")
va = jobs("element", [(n, 0) for n in range(4)] + [(n, 1) for n in range(3)]) + jobs("shape", [(n, m, e) for e in (0, 1) for n in range(3) for m in range(3)]) + jobs("text", [(n, m) for n in range(4) for m in range(4)] + [(4, 3), (4, 2)])
va += jobs("element", [(4, 0), (3, 1)], t=800, tier="thorough") + jobs("shape", [(3, 3, e) for e in (0, 1)], t=600, tier="thorough") + jobs("text", [(4, 4), (5, 3), (5, 4)], t=800, tier="thorough")
UNITS = [Unit("status", "matchers.cc", st, shim=True, defs=D("STATUS")), Unit("values", "matchers.cc", va, shim=True, defs=D("VALUES"), repo_srcs=["mbo/strings/indent.cc"])]
BOUNDS = 'every status code against every wanted and alternative code, messages and expected messages of one of 3 letters, up to 2 payloads (thorough 3) with any of 3 urls and contents, plain and in a StatusOr with every 32 bit value; up to 3 elements (thorough 4) of any 32 bit value in a container, list of pairs or map; capacities and transformed containers of up to 2 (thorough 3) elements; golden texts of up to 4 and texts of up to 3 characters over a, b, space and line feed (thorough 5 and 4). Verdicts are taken without an explanation, with one (numbers below 5 then) and negated'
OUTSIDE = 'the wording of descriptions and explanations; the ASSERT macros; the runfiles directory; longer inputs'
ASSUME = ["gmock's and gtest's own headers are executed as installed; of their library a few functions that print or report are stand-ins", "the abseil stand-ins in shim/ behave as documented"]
COVERS = ["status", "holds", "payloads", "element", "transformed", "text"]
