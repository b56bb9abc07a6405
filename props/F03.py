from spec import *
from F01 import SRC
j = jobs("minimal", [(n, m, 0, 1) for n in range(5) for m in range(5) if n + m < 8] + [(3, 3, 1, 1), (3, 4, 0, 0)])
j += jobs("minimal", [(4, 4, 0, 1), (4, 4, 0, 0)] + [(n, m, 1, 1) for n in (4, 5) for m in (4, 5)], t=800, tier="thorough")
UNITS = [Unit("minimal", "diff.cc", j, shim=True, repo_srcs=SRC, defs=["-DDO_MINIMAL"])]
BOUNDS = 'all texts of up to 4 and 3 (thorough 4 and 4, with empty lines up to 5 and 5) lines of one arbitrary byte, with and without the minimal option (below the cost limit both promise a minimal script)'
OUTSIDE = 'longer texts; texts beyond the cost limit without the minimal option'
COVERS = ["several changes"]
