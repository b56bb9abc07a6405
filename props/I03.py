from spec import *
WRAP = ["open", "fdopen", "close", "fgetc", "getc", "ferror", "feof", "fclose", "fread", "fgets", "fopen"]
j = jobs("set", [(n, e, f) for n in range(5) for e in (9, 0, 3, 6) for f in (0, 1, 2)]) + jobs("get", [(n, f) for n in (0, 1, 2, 4, 7, 8, 9) for f in (0, 1, 2)]) + jobs("readable", [(n, f) for n in (0, 2, 8, 9) for f in (0, 1)])
j += jobs("lines", [(n, f) for n in (0, 1, 2, 3, 4, 8, 9) for f in (0, 1)] + [(6, 0)]) + jobs("mtime", [()])
UNITS = [Unit("io", "file.cc", j, flags=FS, shim=True, repo_srcs=["mbo/file/file.cc"], defs=["-DDO_IO"], native_flags=["-Wl,--wrap=" + w for w in WRAP])]
BOUNDS = 'contents of up to 4 arbitrary bytes (9 reads); a missing file and a directory in the place of a file; every combination of up to two failing operations of the file system (open, write, flush, close, read) in any place; any number of lines asked for; file times from 1920 to 2174'
OUTSIDE = 'contents longer than a buffer; operations interrupted by signals; the real file system (stand-ins record and fail the calls)'
ASSUME = ["std::filesystem and std::fstream are the in-memory stand-ins of shim_fs (path arithmetic was compared with libstdc++'s on all short paths); the functions of the abseil stand-ins in shim/ behave as documented", 'open, fdopen, fgetc, getc, fread, fgets, ferror, feof, fclose and close are stand-ins that read the in-memory tree; a read that fails sets the error flag of the stream']
COVERS = ["write error", "written", "read", "read error", "line error", "lines"]
