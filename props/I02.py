from spec import *
j = jobs("parse", [(n, 0) for n in range(6)] + [(6, 1)]) + jobs("round", [(1, g, k, v, 0) for g in range(3) for k in range(3) for v in range(3)] + [(2, 1, 1, 1, 1)]) + jobs("ask", [(n,) for n in range(3)])
j += jobs("parse", [(6, 0), (7, 1)], t=800, tier="thorough") + jobs("round", [(3, 1, 1, 0, 1), (1, 3, 3, 2, 0), (2, 1, 2, 1, 1)], t=800, tier="thorough") + jobs("ask", [(3,)], t=800, tier="thorough")
UNITS = [Unit("ini", "file.cc", j, flags=FS, shim=True, repo_srcs=["mbo/file/file.cc", "mbo/file/ini/ini_file.cc"], defs=["-DDO_INI"])]
BOUNDS = "all texts of up to 5 arbitrary bytes and of 6 bytes of '[]=;# LF a' (thorough 6 and 7); one entry with group, key and value of up to 2 arbitrary bytes, two entries of one (thorough three entries); up to two (thorough three) entries that overwrite each other, read back with arbitrary groups and keys of one byte, present or not"
OUTSIDE = "longer texts; keys and values that the format cannot express (white space around values, '=' or line feeds in keys, keys that read as a comment or a group): these are not claimed to survive"
ASSUME = ["std::filesystem and std::fstream are the in-memory stand-ins of shim_fs (path arithmetic was compared with libstdc++'s on all short paths); the functions of the abseil stand-ins in shim/ behave as documented"]
COVERS = ["parsed", "round trip", "present", "absent"]
