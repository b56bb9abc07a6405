from spec import *
from F01 import SRC
from I03 import WRAP
j = jobs("flags", [(k,) for k in range(35)]) + jobs("trouble", [()]) + jobs("unknown", [()])
UNITS = [Unit("tool", "diff_tool.cc", j, flags=FS, shim=True, repo_srcs=SRC + ["mbo/diff/diff_options.cc", "mbo/file/artefact.cc", "mbo/file/file.cc", "mbo/strings/indent.cc"], native_flags=["-Wl,--wrap=" + w for w in WRAP])]
BOUNDS = "the real main(): each flag (also those that only matter together) with pairs of texts that differ in 2 and 2 arbitrary letters of an alphabet that shows the flag, with and without a line more; every choice of up to 3 arguments that are a file, a directory or missing; unknown names of 3 letters"
OUTSIDE = "combinations of independent flags; flag parsing; what the options mean (F01, F02)"
ASSUME = ["file streams, std::cout and std::cerr are the stand-ins of harness/tool.h and shim_fs on an in-memory file tree; abseil flags are set directly; RE2 is the stand-in of shim/re2"]
COVERS = ["equal", "different", "no trouble", "trouble"]
