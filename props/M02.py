from spec import *
from M01 import SRC
from I03 import WRAP
j = jobs("sets", [(0, 0), (0, 2)] + [(n, 0) for n in (1, 2, 3, 4)] + [(n, 1) for n in (0, 1, 2)]) + jobs("values", [(n,) for n in (0, 1, 2)]) + jobs("ini", [(n,) for n in (0, 1, 2)]) + jobs("inputs", [()])
j += jobs("sets", [(5, 0), (3, 1)], tier="thorough", t=600) + jobs("ini", [(3,), (4,)], tier="thorough", t=600)
UNITS = [Unit("tool", "mope_tool.cc", j, flags=FS, shim=True, repo_srcs=SRC + ["mbo/mope/ini.cc", "mbo/file/ini/ini_file.cc", "mbo/file/artefact.cc", "mbo/file/file.cc"], native_flags=["-Wl,--wrap=" + w for w in WRAP])]
BOUNDS = "the real main(): one --set entry of up to 4 of the letters a, s, ':', '=', 1 (thorough 5), also before or after each of 5 others (up to 2, thorough 3), arbitrary values of up to 2 bytes, INI files with up to 2 (thorough 4) of 7 letters after a group, against a template with nested sections, values and a default; output to standard output, a new file, an existing file and a directory; template and INI file present, missing and a directory"
OUTSIDE = "splitting of the flag at commas and flag parsing; longer entries; other templates (M01)"
ASSUME = ["file streams, std::cout and std::cerr are the stand-ins of harness/tool.h and shim_fs on an in-memory file tree; abseil flags are set directly; RE2 is the stand-in of shim/re2; the expansion itself is the library's (M01)"]
COVERS = ["expanded", "refused"]
