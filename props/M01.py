from spec import *
SRC = ["mbo/mope/mope.cc", "mbo/strings/parse.cc", "mbo/status/status_builder.cc"]
# tags(shape, n, config, alphabet)
tg = jobs("tags", [(s, 1, c, 0) for s in range(15) for c in (1, 3)] + [(s, 2, 1, 1) for s in (0, 1, 2, 3, 4, 5, 6, 7, 10, 13)])
tg += jobs("tags", [(s, 2, c, 0) for s in range(15) for c in range(4)] + [(s, n, 1, 1) for s in range(15) for n in (2, 3)], t=600, tier="thorough")
# tokens(config, fixed, n, fixed2, closing)
tk = jobs("tokens", [(c, 100, 2, 100, 0) for c in range(4)] + [(1, 7, 2, 100, 1), (3, 7, 1, 100, 1), (1, 12, 1, 100, 2), (3, 12, 1, 100, 2), (1, 15, 1, 100, 3), (1, 9, 1, 10, 4), (3, 9, 1, 10, 4), (3, 22, 1, 100, 1), (1, 22, 1, 100, 1)])
tk += jobs("tokens", [(c, 100, 3, 100, 0) for c in range(4)] + [(c, f, 3, 100, e) for c in (1, 3) for f, e in ((7, 1), (12, 2), (15, 3))], t=800, tier="thorough")
tk += jobs("values", [()]) + jobs("shown", [()]) + jobs("range", [(w, s) for w in range(4) for s in range(12)]) + jobs("setters", [(3,)]) + jobs("names", [(n,) for n in range(4)])
ii = jobs("ini", [(1, 10), (2, 10)]) + jobs("ini", [(3, g) for g in (1, 3, 5, 7)]) + jobs("ini", [(3, g) for g in (0, 2, 4, 6, 8, 9)], t=300, tier="thorough")
UNITS = [Unit("tags", "mope.cc", tg, shim=True, repo_srcs=SRC, defs=["-DDO_TAGS"]), Unit("tokens", "mope.cc", tk, shim=True, repo_srcs=SRC, defs=["-DDO_TOKENS"]),
  Unit("ini", "mope.cc", ii, flags=FS, shim=True, repo_srcs=SRC + ["mbo/mope/ini.cc", "mbo/file/ini/ini_file.cc", "mbo/file/file.cc"], defs=["-DDO_INI"])]
BOUNDS = "templates with one arbitrary byte (two of the 18 that matter) in 15 places of tags, sections, loops, lists, joiners and controls, against 2 (4) sets of values; every sequence of two of 23 tags and texts (thorough three), also inside a section, a loop, a list and a nested section; all values and context values of up to two bytes; loops with start and end within 3 of 0, 1000 and the limits of int and 12 steps, as numbers and as names of values; all sequences of three SetValue/AddSection calls; all names of up to three bytes; INI files with up to three groups out of 10 (nested and repeated)"
OUTSIDE = "longer templates and values; templates with bytes from 128 up (the pattern stand-in treats them as in Latin-1 names: not letters); CRLF line ends of section tags (the CR alone counts as the line end); the mope command line (M02)"
ASSUME = ["RE2 is the backtracking stand-in of shim/re2 (leftmost, greedy) and abseil the stand-ins of shim/absl; ParseString and ParseStringList (S04) give the joiners and lists"]
COVERS = ["refused", "expanded", "range", "setters", "names", "ini"]
