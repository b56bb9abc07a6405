from spec import *
j = jobs("normalize", [(n, 1) for n in range(6)] + [(7, 0)]) + jobs("join", [(a, b, 9, 9, 0) for a in range(4) for b in range(4)] + [(a, 9, 9, 9, 0) for a in (2, 4)] + [(a, b, c, 9, 0) for a in range(3) for b in range(3) for c in range(3)] + [(1, 1, 1, 1, 1), (2, 2, 9, 9, 1)])
j += jobs("normalize", [(7, 1), (10, 0)], t=800, tier="thorough") + jobs("join", [(3, 3, 3, 9, 0), (4, 4, 9, 9, 0), (2, 2, 2, 2, 0), (2, 2, 2, 9, 1), (3, 3, 9, 9, 1)], t=800, tier="thorough")
UNITS = [Unit("path", "file.cc", j, flags=FS, shim=True, repo_srcs=["mbo/file/file.cc"], defs=["-DDO_PATH"])]
BOUNDS = "paths of up to 5 arbitrary bytes and of 7 characters '/', '.', 'a' (thorough 7 and 10); joins of two parts of up to 3 (4) such characters, of three of up to 2 and of arbitrary bytes of 1 and 2 (thorough up to 4 parts); both forms of joining"
OUTSIDE = 'Windows paths; paths with a zero byte; the form of joining that takes std::filesystem::path parts'
ASSUME = ["std::filesystem and std::fstream are the in-memory stand-ins of shim_fs (path arithmetic was compared with libstdc++'s on all short paths); the functions of the abseil stand-ins in shim/ behave as documented"]
COVERS = ["normalised", "joined"]
