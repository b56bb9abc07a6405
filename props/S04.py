from spec import *
j = jobs("one", [(k, n, 0) for k in range(7) for n in range(3)] + [(k, 4, 1) for k in range(7)] + [(0, 5, 2), (3, 5, 2)])
j += jobs("many", [(k, n, 0) for k in range(7) for n in range(3)] + [(k, 4, 1) for k in range(7)])
j += jobs("one", [(k, 3, 0) for k in range(7)] + [(k, 5, 1) for k in (0, 1, 2, 5)] + [(0, 6, 2)], t=600) + jobs("many", [(k, 3, 0) for k in range(7)] + [(k, 5, 1) for k in (0, 2, 5)], t=600)
UNITS = [Unit("parse", "parse.cc", j, shim=True, repo_srcs=["mbo/strings/parse.cc"])]
BOUNDS = "seven option sets (stop characters, stop string, split characters and custom escapes fixed or symbolic) with the four switches symbolic; every text of up to 2 bytes (thorough 3), every text of 4 (thorough 5) characters over both quotes, backslash, comma, a letter and #, and numeric escapes of 5 (thorough 6) characters"
OUTSIDE = "longer texts, longer option strings; the wording of error messages"
COVERS = ["unimplemented", "invalid", "stopped", "whole", "several parts"]
