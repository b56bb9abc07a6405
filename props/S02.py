from spec import *
j = jobs("indent", [(n, 0) for n in range(6)] + [(6, 1)]) + jobs("indent", [(6, 0), (7, 1)], t=600, tier="thorough")
UNITS = [Unit("indent", "text.cc", j, shim=True, repo_srcs=["mbo/strings/indent.cc"], defs=["-DDO_INDENT"])]
BOUNDS = "every text of up to 5 bytes (thorough 6); every text of 6 (thorough 7) characters over blank, tab, line feed and a letter"
OUTSIDE = "longer texts; absl's StrSplit, StrJoin and ConsumePrefix are stand-ins written from their documentation"
COVERS = ["blank last line", "indent removed", "indent absent"]
