HARNESS = "repo_tools.py"; DIRS = ["/repo/tools"]; PYTHON = True
def jobs(f, ps, t=60, tier="quick"): return [(f, list(p), t, tier) for p in ps]
JOBS = jobs("align", [(s, 3, 0) for s in range(11)] + [(s, 4, 1) for s in range(1, 5)] + [*[(s, 4, 0) for s in (0, 1, 3, 4, 9)], (3, 5, 1), (5, 4, 2), (6, 5, 2), (7, 5, 2), (3, 1, 9), (0, 2, 9)])
JOBS += jobs("build", [(1, 0), (1, 1), (2, 0), (1, 2), (2, 2)]) + jobs("complaints", [(0,), (1,)]) + jobs("headers", [(0,), (1,)]) + jobs("asserts", [(1, 0), (2, 0), (1, 7), (1, 8)]) + jobs("caches", [(n,) for n in range(4)])
JOBS += jobs("report", [(1, 2, 0), (1, 1, 1)]) + jobs("limits", [(h, w) for h in (0, 2) for w in range(3)]) + jobs("patches", [(2,)]) + jobs("select", [(n,) for n in range(4)]) + jobs("newest", [(1,), (2,), (3,)]) + jobs("versions", [(n,) for n in (3, 5)])
JOBS += jobs("align", [(s, n, a) for s in range(11) for n, a in ((4, 0), (5, 1), (5, 2))] + [(s, 2, 9) for s in range(11)], 300, "thorough") + jobs("build", [(2, 1), (1, 3), (3, 0)], 300, "thorough") + jobs("asserts", [(3, 0)], 300, "thorough") + jobs("report", [(1, 2, 1), (2, 1, 0), (1, 3, 0)], 400, "thorough") + jobs("patches", [(3,)], 400, "thorough") + jobs("versions", [(6,), (7,)], 400, "thorough") + jobs("caches", [(4,)], 400, "thorough")
JOBS += jobs("grouping", [(1,), (2,)]) + jobs("skipped", [(1,), (2,)])
TECHNIQUE = "bounded symbolic execution of the Python source with SMT (z3): one run per feasible path over symbolic strings and integers, replay in plain Python"
BOUNDS = "Markdown of 11 forms (tables with and without outer pipes, ragged, indented, several, inside code blocks of both kinds) with up to 4 symbolic characters of '|-: a', backslash and line feed (5 of the others; one arbitrary ASCII character), against an independent aligner, and twice; BUILD files of up to two rules (thorough three) of 5 kinds in 5 layouts with names of up to 6 symbolic characters and all forms of labels; unreadable files; headers in nested packages; status assertions with names of up to 2 symbolic characters 0, 7 and 8 lines ahead; up to 3 caches; LCOV reports of up to 2 facts (thorough 3, and two files) with each marker; all integer percentages, floors, category floors and targets of a metric with the others in one of four states; diffs of 2 (3) parts; policy patterns over paths of 3 symbolic characters; up to 3 report records; versions of up to 5 (7) symbolic characters"
OUTSIDE = "the command lines and files of the tools (only the functions that decide); characters outside ASCII; the HTML pages except their status and order; coverage_sources' symbolic links; percentages are concrete numbers of concrete counts; shell scripts; trigger_release and the Bazel rules"
ASSUME = ["the Python source is run with its string literals, str, int, re and fnmatch replaced by the symbolic ones of lib/pysx.py; sampled paths are run again in plain Python"]
COVERS = ["grouped", "skipped", "aligned", "lint", "complaints", "headers", "asserts", "caches", "coverage", "limits", "patches", "select", "newest", "versions"]
