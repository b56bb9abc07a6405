from spec import *
from hashlens import EDGE, REST
js = []
for a in ("mumbo", "jumbo", "dumbo"):
    js += jobs("h_" + a, [(n, 1) for n in EDGE]) + jobs("h_" + a, [(n, 1) for n in REST], tier="thorough", t=200)
for a in ("mumbo_def", "mumbo_alg", "jumbo64", "jumbo_def", "mumbo128", "dumbo_def"):
    js += jobs("h_" + a, [(n, 1) for n in (0, 1, 3, 8, 16, 17, 64, 130)])
UNITS = [Unit("hash", "hash.cc", js)]
BOUNDS = "every content and every seed at each listed length, 0..3000 bytes around every length-class boundary; thorough: every length 0..419 and lengths to 8193"
OUTSIDE = "other lengths; fambo and tembo, which have no definition outside their code"
