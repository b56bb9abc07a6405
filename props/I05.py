from spec import *
j = jobs("forms", [(f, p, 0) for f in range(8) for p in range(4)] + [(f, p, 1) for f in (0, 1, 2, 6, 7) for p in range(3)]) + jobs("filters", [(p, 0) for p in range(5)] + [(p, 1) for p in range(3)]) + jobs("fields", [(p,) for p in (0, 1)]) + jobs("sums", [(0, m) for m in range(1, 7)] + [(2, 5)]) + jobs("errors", [()])
j += jobs("fields", [(p,) for p in (2, 3, 4)], t=800, tier="thorough") + jobs("sums", [(p, m) for p in range(1, 5) for m in range(7)], t=800, tier="thorough")
UNITS = [Unit("glob_tool", "glob_tool.cc", j, flags=FS, shim=True, repo_srcs=["mbo/file/glob.cc", "mbo/status/status_builder.cc"])]
BOUNDS = "directories of three entries, at most one of them a directory with one entry, names of one of two letters with or without a leading '.' and an ending, sizes 0, 1, 12 and 1234; five glob and three RE2 patterns; the root given absolute, relative, as '.', with '..', apart from or as part of the pattern; all combinations of the filter flags, of the field flags, and of the summary flags"
OUTSIDE = "symbolic links and special files; names that are not ASCII; the order of the entries; larger directories; where a pattern that is the only argument is split from the root (I04)"
ASSUME = ["std::filesystem and std::fstream are the in-memory stand-ins of shim_fs (path arithmetic was compared with libstdc++'s on all short paths); the functions of the abseil stand-ins in shim/ behave as documented", 'RE2 is the stand-in of shim/re2, a matcher of the subset of the syntax that the conversion emits, which itself runs symbolically', 'which paths a pattern matches is decided by I04']
COVERS = ["shown", "nothing", "error"]
