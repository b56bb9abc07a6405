from spec import *
from F01 import SRC
j = []
for a in range(3):
  q = "quick" if a == 0 else "thorough"
  j += jobs("equal", [(a, 0, n, m, 0, 0) for n in range(3) for m in range(n, n + 2) if m < 3], tier="quick") + jobs("equal", [(a, 0, 2, 1, 2, 1)])
  j += jobs("equal", [(a, 0, 2, 2, 2, e) for e in (1, 2, 4)] + [(a, 0, 2, 3, 3, 3)] + [(a, 0, 2, 2, 1, 0)] + [(a, f, 2, 1 if a == 0 else 2, 1, 0) for f in (1, 2, 3)], tier=q)
  j += jobs("equal", [(a, 0, 3, 2, k, 0) for k in (0, 1)] + [(a, 0, 3, 2, 2, e) for e in (1, 2, 4)] + [(a, 0, 3, 3, 3, 3)], t=800, tier="thorough")
j += jobs("equal", [(0, 0, 2, 2, 3, 5)]) + jobs("ignoring", [(0, 1, 2, 3, 1, 0), (0, 0, 3, 2, 0, 0), (0, 1, 3, 1, 2, 1), (0, 0, 2, 2, 2, 2), (1, 1, 2, 2, 1, 0), (2, 0, 2, 2, 0, 0)]) + jobs("ignoring", [(a, 1, 3, 3, b, 0) for a in range(3) for b in (0, 1)], t=800, tier="thorough")
UNITS = [Unit("equal", "diff.cc", j, shim=True, repo_srcs=SRC, defs=["-DDO_EQUAL"])]
BOUNDS = 'all texts of up to 2 and 2 bytes (thorough 3 and 2, 3 and 3) over 4 letter alphabets (letters of both cases, space, tab, #, line feed), every combination of the white space options, ignore_case, ignore_blank_lines and ignore_missing_final_newline, context 0 and 1; with comment stripping (plain and parsed), a regex replacement of either side and ignore_matching_lines for one pattern each; the diff is also applied, for the white space options, ignore_case and comment stripping; Myers, for single cases naive and direct (thorough: all)'
OUTSIDE = 'longer texts; RE2 is replaced by a regular expression matcher of the shim; abseil by the shim; ignore_matching_chunks = false'
COVERS = ["equal", "different", "patched"]
