from spec import *
j = jobs("compute", [(a, n) for a in range(17) for n in (0, 3)]) + jobs("defaults", [()]) + jobs("names", [(n,) for n in range(0, 8)]) + jobs("names", [(n,) for n in (10, 11, 12)])
j += jobs("big", [(65535, 1), (65536, 1), (65537, 1), (65537, 2), (131073, 1)]) + jobs("cut", [(0,), (1,), (65535,), (65536,), (65537,), (65546,)]) + jobs("list", [(n,) for n in (1, 2, 3)])
j += jobs("verify", [(0, 0, 0), (1, 0, 0), (2, 0, 1), (1, 1, 0)]) + jobs("verify", [(2, 0, 0), (2, 1, 1)], tier="thorough", t=300) + jobs("sums", [()]) + jobs("cycle", [(n, m) for n in (1, 2, 4) for m in (0, 2)])
UNITS = [Unit("tool", "digest_tool.cc", j, flags=FS, shim=True, repo_srcs=["mbo/digest/checksum.cc", "mbo/strings/indent.cc"])]
BOUNDS = "the real main(): every algorithm with every content of 0 and 3 bytes, algorithm names of every content up to 7 and of 10 to 12 bytes, contents around the 65536-byte buffer, every choice of up to 3 files of 6 kinds (readable, empty, directory, missing, not to be opened, failing to read), checksum files of up to 2 lines of 9 kinds with right, wrong and upper-case digests (with arbitrary first and last digits), all flags, file names of 1, 2 and 4 arbitrary bytes for the cycle of printing and checking"
OUTSIDE = "file names with a line feed; flag parsing; --cwd; read errors of standard input (libstdc++ reports them as its end)"
ASSUME = ["file streams, std::cin, std::cout and std::cerr are the stand-ins of harness/tool.h on an in-memory file tree; abseil flags are set directly"]
COVERS = ["computed", "known", "unknown", "cut", "error", "failed", "verified", "cycle"]
