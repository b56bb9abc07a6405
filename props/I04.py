from spec import *
j = jobs("match", [(n, 0, 2, o) for n in range(3) for o in range(4)] + [(3, a, 2, 0) for a in (1, 2, 3, 5, 6)])
j += jobs("split", [(n, 0, 0) for n in range(3)] + [(4, a, 0) for a in (1, 2)])
j += jobs("walk", [(p, r, q, 1, 0) for p in range(9) for r in (0, 1) for q in (0, 1)] + [(p, r, 1, 0, f) for p in (0, 2) for r in (0, 1) for f in range(1, 8)])
j += jobs("match", [(3, 0, 2, 0), (3, 0, 2, 3)] + [(4, a, 3, 0) for a in range(1, 7)] + [(3, a, 3, 0) for a in range(1, 7)], t=800, tier="thorough") + jobs("split", [(5, 1, 0), (5, 2, 0), (3, 0, 0), (3, 0, 3)], t=800, tier="thorough")
UNITS = [Unit("glob", "glob.cc", j, flags=FS, shim=True, repo_srcs=["mbo/file/glob.cc", "mbo/status/status_builder.cc"], defs=[])]
BOUNDS = 'all patterns of up to 2 arbitrary characters with each of the four option sets, of 3 characters from five alphabets of special characters, all paths of 2 arbitrary characters without line feed (thorough: patterns of 3 arbitrary and of 4 special characters, paths of 3); splits of patterns of up to 2 arbitrary and 4 special characters; Glob over trees of up to 5 entries with nine patterns, recursive and not, relative or not, with every sequence of answers of the callback; roots that are absolute, relative, empty, end in a slash or contain dots'
OUTSIDE = "bytes outside ASCII; paths with line feeds; the order of entries of one directory; symbolic links; options of RE2; GlobSplitParts; where the root of a pattern with ranges disabled and '[' ends"
ASSUME = ["std::filesystem and std::fstream are the in-memory stand-ins of shim_fs (path arithmetic was compared with libstdc++'s on all short paths); the functions of the abseil stand-ins in shim/ behave as documented", 'RE2 is the stand-in of shim/re2, a matcher of the subset of the syntax that the conversion emits, which itself runs symbolically']
COVERS = ["rejected", "matched", "split", "walked"]
