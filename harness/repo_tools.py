# Y01: the repository's Python tools against what their documentation says, written independently.
import align_markdown_tables as mdt
import build_rules
import cache_cleanup
import check_cc_library_tested as tested
import check_cc_target_naming as naming
import check_headers_claimed as claimed
import check_status_assert as assertion
import coverage
import coverage_index as index
import coverage_sources as sources


class File:
    """Stands for a path: its name, its text (None: cannot be read)."""
    def __init__(self, name, text=None): self.name = name; self.text = text
    def read_text(self, encoding=None):
        if self.text is None: raise OSError("no")
        return self.text
    def is_file(self): return self.text is not None


# -- Markdown tables
def ref_cells(line):
    s = line.strip(); out = []; cur = ""; i = 0; ended = False
    if len(s) and s[0] == "|": i = 1
    while i < len(s):
        ended = False
        if s[i] == "\\" and i + 1 < len(s): cur += s[i] + s[i + 1]; i += 2; continue
        if s[i] == "|": out.append(cur.strip()); cur = ""; ended = True
        else: cur += s[i]
        i += 1
    if not ended: out.append(cur.strip())
    return out


def delimiter(c):
    k = 0
    if k < len(c) and c[k] == ":": k += 1
    d = k
    while k < len(c) and c[k] == "-": k += 1
    if k == d: return None
    end = k < len(c) and c[k] == ":"
    if k + (1 if end else 0) != len(c): return None
    return (d > 0, end)


def fence(line):
    """(character, length, only fence and spaces) of a code fence."""
    s = line.lstrip(); k = 0
    while k < len(s) and k < 99 and (s[0] == "`" or s[0] == "~") and s[k] == s[0]: k += 1
    return (s[0], k, not len(s[k:].strip())) if k >= 3 else None


def ref_align(text):
    lines = text.split("\n"); out = []; i = 0; code = None
    while i < len(lines):
        line = lines[i]; f = fence(line)
        if code:
            if f and f[0] == code[0] and f[1] >= code[1] and f[2]: code = None
            out.append(line); i += 1; continue
        if f: code = f; out.append(line); i += 1; continue
        if "|" in line and i + 1 < len(lines) and "|" in lines[i + 1]:
            marks = [delimiter(c) for c in ref_cells(lines[i + 1])]
            if all(m is not None for m in marks):
                rows = [line]; j = i + 2
                while j < len(lines) and "|" in lines[j] and not fence(lines[j]): rows.append(lines[j]); j += 1
                cells = [ref_cells(r) for r in rows]; n = max([len(marks)] + [len(c) for c in cells])
                for c in cells: c.extend([""] * (n - len(c)))
                marks.extend([(False, False)] * (n - len(marks)))
                w = [max([3] + [len(c[k]) for c in cells]) for k in range(n)]
                lead = line[:len(line) - len(line.lstrip())]

                def cell(t, k):
                    pad = w[k] - len(t); l, r = marks[k]
                    left = pad if r and not l else 0 if not r else pad // 2 + (pad & w[k] & 1)
                    return " " * left + t + " " * (pad - left)
                made = [lead + "| " + " | ".join([cell(c[k], k) for k in range(n)]) + " |" for c in cells]
                made.insert(1, lead + "| " + " | ".join([(":" if m[0] else "-") + "-" * (x - 2) + (":" if m[1] else "-") for m, x in zip(marks, w)]) + " |")
                out.extend(made); i = j; continue
        out.append(line); i += 1
    return "\n".join(out)


SHAPES = [("", ""), ("|a|b", "|\n|-|-|\n|c|d|"), ("a|b\n", "\n|cc|dd"), ("|a|\n|-|\n", ""), ("|x|\n|-|\n|", "|\n"), ("```\n|a|\n|-|\n", "\n|b|\n|-|\n"), ("~~~~\n", "\n|b|\n|-|\n"), ("", "|a|\n|-|\n"), ("|a|b|\n|", "|-|\n|long|er|\n"), ("|a|b|\n|-|", "|\n\n|long|er|\n"), ("|a|\n|:-:|\n|bb", "|\n|cccc|")]
ALPHABETS = ["|-: a\\\n", "|:- \\a", "`~ |-", "|\\a"]


def align(sx, shape, n, alphabet):
    pre, post = SHAPES[shape]; t = pre + sx.str(n, "t", ALPHABETS[alphabet] if alphabet < 9 else None) + post
    if alphabet == 9: sx.assume("\r" not in t)
    got = mdt.align_text(t); sx.trace(got); sx.equal(got, ref_align(t), "the table is not aligned as documented")
    sx.equal(mdt.align_text(got), got, "aligning twice changes the text again"); sx.cover("aligned")


# -- BUILD files
KINDS = ["cc_library", "cc_test", "x_test", "cc_binary", "sh_test"]


def label(sx, k, names):
    form = sx.choice(["local", "full", "other", "module", "file"], k + "f"); n = sx.choice(names, k + "n")
    text = {"local": ":" + n, "full": "//p/q:" + n, "other": "//p/r:" + n, "module": "@m//p/q:" + n, "file": n}[form]
    return text, n if form in ("local", "full") else None


def rules(sx, count, style):
    """A BUILD file of count rules with the answers the lints have to give."""
    names = ["a_cc", "b", "a"]; text = sx.choice(["", 'load(\n    "//x:y.bzl",\n    "name",\n)\n\n# c\n'], "head") if style == 0 else ""; lines = text.count("\n") + 1; libs = []; seen = []; bad = []
    for r in range(count):
        k = "r" + "01234"[r]; kind = sx.choice(KINDS[:3 if r == 0 else 2], k + "k") if style != 3 else sx.choice(KINDS, k + "k"); name = sx.choice(names, k + "n") if style != 2 else sx.str(3, k + "n", "ac_") + sx.choice(["", "_cc", "_cc_"], k + "s")
        deps = []; local = []
        if style != 2 and (r > 0 or count == 1):
            for d in range(1 if style < 3 else 2):
                t, n = label(sx, k + "01"[d], names[:2]); deps.append(t)
                if n is not None: local.append(n)
        form = sx.choice([0, 1, 2, 3, 4], k + "m") if style in (1, 3) else r
        D = '"' + '", "'.join(deps) + '"' if deps else ""
        if form == 0: body = ["    name = \"" + name + "\",", "    srcs = [\":" + "a_cc\"],"] + (["    deps = [", *["        \"" + d + "\"," for d in deps], "    ],"] if deps else []) + ["    tags = [", "        \":b\",", "    ],"]; rule = [kind + "(", *body, ")"]
        elif form == 1: rule = [kind + "(", "    testonly = 1,", "    name = \"" + name + "\",", "    deps = [" + D + "],", "    data = [\":a_cc\"],", ")"]
        elif form == 2: rule = [kind + "(name = \"" + name + "\")"]; local = []
        elif form == 3: rule = [kind + "(", "    name = \"" + name + "\",", "    hdrs = [\"h.h\"],", "    deps = select({", "        \"//c:d\": [" + D + "],", "    }),", ")"]
        else: rule = [kind + "(", "    name = \"" + name + "\",", "    deps = [" + D + "] + [", "        \"//z:z\",", "    ],", "    visibility = [\":b\"],", ")", ""]
        if kind == "cc_library": libs.append((lines, name))
        if kind.endswith("_test"): seen += local
        if kind == "cc_library" and not name.endswith("_cc"): bad.append((lines, name))
        text += "\n".join(rule) + "\n"; lines += len(rule)
    return text, libs, seen, bad


def build(sx, count, style):
    text, libs, seen, bad = rules(sx, count, style)
    got = naming.violations(None, text); sx.trace([list(g) for g in got])
    sx.equal([(g[0], g[1]) for g in got], bad, "the misnamed libraries are not those reported")
    got = tested.untested_libraries(text, "p/q"); sx.trace([list(g) for g in got])
    sx.equal(got, [l for l in libs if not any(l[1] == s for s in seen)], "the libraries without a test are not those reported"); sx.cover("lint")


class Where(File):
    def relative_to(self, root):
        if not self.name.startswith("/r/"): raise ValueError("outside")
        return Where(self.name[3:], self.text)
    @property
    def parent(self): return self.name.rpartition("/")[0] or "."
    def __str__(self): return self.name


def complaints(sx, how):
    name = sx.choice(["a", "a_cc"], "n"); text = "cc_library(\n    name = \"" + name + "\",\n)\n"; ok = sx.flag("readable"); t = sx.flag("test")
    if t: text += "cc_test(\n    name = \"t\",\n    deps = [\"//p:" + name + "\"],\n)\n"
    f = Where("/r/p/BUILD", text if ok else None); got = (tested if how else naming).check([f], "/r")
    want = 1 if not ok else (0 if t else 1) if how else (0 if name == "a_cc" else 1)
    sx.equal(len(got), want, "the number of complaints")
    if ok and want: sx.check(("p/BUILD:1: " in got[0]) and ("'" + name + "'") in got[0], "the complaint does not say where")
    sx.cover("complaints")


# -- headers, status assertions, caches
def headers(sx, how):
    class Root:
        def __init__(self, name): self.name = name
    files = {}; sub = sx.choice(["m/x", "m", "m/x/y"], "dir"); head = sx.choice(["a.h", "ba.h"], "h"); listed = sx.choice(["a.h", "x/a.h", "y/a.h", "x/y/a.h", "ba.h", "x/ba.h", "y/ba.h", "x/y/ba.h", "a.hh"], "l")
    builds = [d for d in ("m", "m/x") if sx.flag(d)]
    import tempfile, os
    from pathlib import Path
    with tempfile.TemporaryDirectory() as tmp:
        root = Path(tmp)
        for d in builds:
            (root / d).mkdir(parents=True, exist_ok=True); (root / d / "BUILD.bazel").write_text(sx.real("hdrs = [\"" + (listed if how or d == builds[-1] else "none") + "\"],\n"))
        path = sub + "/" + head; got = claimed.check([path], root)
    owner = [d for d in ("m/x", "m") if d in builds and (path + "/").startswith(d + "/")][:1]
    want = bool(owner) and (listed == path[len(owner[0]) + 1:]) and (how or owner[0] == builds[-1])
    sx.equal(len(got), 0 if want else 1, "a header is claimed exactly when its package lists it"); sx.cover("headers")


def asserts(sx, n, gap):
    name = sx.str(n, "a", "ab_"); used = sx.str(n, "u", "ab_"); how = sx.choice(["*{}", "{}->x", "{}.x", "x{}->", "*{}x", "&{}"], "how"); sp = sx.choice(["", " "], "sp")
    text = "  ASSERT_THAT(" + sp + name + ", IsOk());\n" + "f();\n" * gap + "  g(" + how.replace("{}", used) + ");\n"

    class Source:
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def read(self): return text
    assertion.open = lambda *a, **k: Source(); got = assertion.check("x_test.cc")
    hit = used == name and (how == "*{}" or how == "{}->x")  # the name has to be a whole word
    sx.equal(len(got), 1 if hit and gap < 8 else 0, "a dereferenced value is reported exactly when its IsOk was asserted"); sx.cover("asserts")


def caches(sx, n):
    prefix = sx.str(1, "p", "ab"); items = [{"key": sx.str(2, "k" + "0123"[i], "ab"), "createdAt": sx.str(1, "t" + "0123"[i], "123"), "id": i} for i in range(n)]
    for i in range(n):
        for j in range(i): sx.assume(items[i]["createdAt"] != items[j]["createdAt"])
    got = cache_cleanup.expired_cache_ids(items, prefix); sx.trace(list(got))
    hit = [c for c in items if c["key"][0] == prefix[0]]
    want = [c["id"] for c in hit if any(c["createdAt"] < d["createdAt"] for d in hit)]
    sx.equal(sorted(got), sorted(want), "all but the newest matching cache expire"); sx.cover("caches")


# -- coverage
def percent(c, t): return round(100.0 * c / t, 2) if t else None


def report(sx, files, facts, marked):
    """An LCOV report, read back and counted."""
    text = ""; want = {}
    source = {}
    for f in range(files):
        k = "f" + "012"[f]; name = sx.choice(["mbo/a.cc", "/w/mbo/b.cc", "/w/other.cc", "C:\\w\\mbo\\b.cc"], k); logical = "mbo/a.cc" if name == "mbo/a.cc" else None if name == "/w/other.cc" else "mbo/b.cc"
        text += "SF:" + name + "\n"; w = want.setdefault(logical, [{}, [], []]); lines = {}
        for i in range(facts):
            n = k + "0123"[i]; what = sx.choice(["DA", "FN", "BRDA"], n + "w"); line = sx.choice([1, 2, 3], n + "l"); hits = sx.choice([0, 1, 2], n + "h"); L = "0123"[line]; H = "0123"[hits]
            if what == "DA": text += "DA:" + L + "," + H + "\n"; w[0][line] = w[0].get(line, 0) + hits
            elif what == "FN": text += "FN:" + L + ",fn" + n + "\nFNDA:" + H + ",fn" + n + "\n"; w[1].append((line, hits))
            else: text += "BRDA:" + L + ",0,1," + ("-" if hits == 2 else H) + "\n"; w[2].append((line, hits == 1))
        text += "end_of_record\n"
    want.pop(None, None); mark = sx.choice(["", "LCOV_EXCL_LINE", "LCOV_EXCL_BR_LINE", "LCOV_EXCL_FUNC_LINE", "LCOV_MERGE_FUNC_LINE"], "mark") if marked else ""; brace = sx.choice([1, 2], "brace") if marked else 1

    class Root:
        def __truediv__(self, name): return File(name, ("int f()" + (" {" if brace == 1 else "") + " // " + mark + "\n" + (" {" if brace == 2 else "") + "x\n}\n") if marked else None)
    got = coverage.parse_lcov(File("l", text), Root())
    for w in want.values():
        span = (1,) if brace == 1 else (1, 2)
        if mark == "LCOV_EXCL_LINE": w[0] = {k: v for k, v in w[0].items() if k != 1}
        if mark in ("LCOV_EXCL_LINE", "LCOV_EXCL_BR_LINE"): w[2] = [b for b in w[2] if b[0] != 1]
        if mark == "LCOV_EXCL_FUNC_LINE": w[1] = [f for f in w[1] if f[0] not in span]
        if mark == "LCOV_MERGE_FUNC_LINE":
            m = [f[1] for f in w[1] if f[0] in span]; w[1] = [f for f in w[1] if f[0] not in span] + ([(1, max(m))] if m else [])
    sx.equal(sorted(got), sorted(want), "the files of the report")
    for name, w in want.items():
        sx.equal(got[name].lines, w[0], "the lines of the report"); sx.equal(sorted(got[name].functions), sorted(w[1]), "the functions of the report"); sx.equal(sorted(got[name].branches), sorted(w[2]), "the branches of the report")
    changed = {"mbo/a.cc": {1, 2}} if sx.flag("patch") else None
    c = coverage.counts(got, changed); sx.trace([c[m] for m in ("lines", "functions", "branches")])
    part = lambda name, line: changed is None or (name == "mbo/a.cc" and line in (1, 2))
    L = [h > 0 for n, w in want.items() for l, h in w[0].items() if part(n, l)]; F = [h > 0 for n, w in want.items() for l, h in w[1] if changed is None]; B = [t for n, w in want.items() for l, t in w[2] if part(n, l)]
    for m, v in (("lines", L), ("functions", F), ("branches", B)): sx.equal(c[m], {"covered": sum(v), "total": len(v), "percent": percent(sum(v), len(v))}, "the coverage counted")
    if changed:
        miss = coverage.uncovered_patch_locations(got, changed); n = "mbo/a.cc:"; w = want.get("mbo/a.cc", [{}, [], []])
        sx.equal(miss[0], sorted([n + "0123"[l] for l, h in w[0].items() if l < 3 and h == 0]), "the changed lines not covered")
        sx.equal(miss[1], sorted(set([n + "0123"[l] for l, t in w[2] if l < 3 and not t])), "the changed branches not covered")
    sx.cover("coverage")


def limits(sx, how, which):
    """Floors, targets and the status of a category: one metric is free, the others take one of four states."""
    names = ("lines", "functions", "branches"); have = {}; floor = {}; over = {}; free = names[which]
    for m in names:
        if m != free:
            have[m] = {"percent": sx.choice([None, 10, 60, 90], "p"), "covered": 1, "total": 2}; floor[m] = 80
            if m != "branches": over[m] = 50
            continue
        have[m] = {"percent": None if sx.flag("none_" + m) else sx.int(0, 100, "p_" + m), "covered": 1, "total": 2}
        if how == 2 or sx.flag("has_" + m): floor[m] = sx.int(0, 100, "min_" + m)
        if sx.flag("over_" + m): over[m] = sx.int(0, 100, "cat_" + m)
    policy = {"minimum": floor, "categories": {"c": {"minimum": over, "include": []}} if sx.flag("cat") or how == 2 else {}}
    floors, targets = coverage.thresholds(policy); sx.equal(floors["overall"], floor, "the overall floor"); sx.equal(targets["overall"], floor, "the overall target")
    if "c" not in policy["categories"]: sx.equal(len(floors), 1, "the categories"); sx.cover("limits"); return
    both = {m: over.get(m, floor.get(m)) for m in names if m in over or m in floor}; sx.equal(floors["c"], both, "the floor of a category"); sx.equal(targets["c"], floor, "the target of a category")
    bad = [m for m in names if m in both and (have[m]["percent"] is None or have[m]["percent"] < both[m])]
    got = coverage.failures({"overall": {m: {"percent": 100} for m in names}, "c": have}, floors)
    sx.equal(len(got), len(bad), "the floors that are not reached")
    none = [m[0].upper() for m in names if m in both and have[m]["percent"] is None]; fail = [m[0].upper() for m in names if m in bad and have[m]["percent"] is not None]
    low = [m[0].upper() for m in names if m in both and m not in bad and have[m]["percent"] < floor.get(m, both[m])]
    parts = [p + ": " + "/".join(v) for p, v in (("NO DATA", none), ("FAIL", fail), ("LOW", low)) if v]
    sx.equal(coverage.coverage_status(have, both, floor), "N/A" if not both else "**" + "; ".join(parts) + "**" if parts else "OK", "the status of a category")
    if how == 2:
        bad = [m[0].upper() for m in names if have[m]["percent"] is None or have[m]["percent"] < both[m]]
        sx.equal(index._status(have, both, floor), "FAIL: " + "/".join(bad) if bad else "LOW: " + "/".join(low) if low else "OK", "the status on the report page")
    sx.cover("limits")


def patches(sx, n):
    """The lines a diff adds."""
    text = ""; want = {}; path = None
    for i in range(n):
        k = "h" + "0123"[i]; what = sx.choice(["file", "gone", "hunk", "one", "noise"], k)
        if what == "file": path = sx.choice(["mbo/a", "mbo/b"], k + "f"); text += "--- a/x\n+++ b/" + path + "\n"
        elif what == "noise": text += "+added -1,2 +3,4\n-gone\n"
        elif what == "gone": text += "diff --git a/mbo/a b/mbo/a\nindex 1..2\n"
        else:
            s = sx.choice([0, 1, 7, 12], k + "s"); l = sx.choice([0, 1, 2, 3], k + "l") if what == "hunk" else 1
            text += "@@ -3,2 +" + {0: "0", 1: "1", 7: "7", 12: "12"}[s] + ("," + "0123"[l] if what == "hunk" else "") + " @@ void f(+5,6)\n"
            if path is not None: want.setdefault(path, set()).update(range(s, s + l))

    class Run:
        PIPE = None
        @staticmethod
        def run(*a, **k): return File.__new__(File)
    r = File("", None); r.stdout = text; Run.run = staticmethod(lambda *a, **k: r); coverage.subprocess = Run
    got = coverage.changed_lines("base"); sx.equal({k: v for k, v in got.items() if v}, {k: v for k, v in want.items() if v}, "the changed lines are not those the diff adds"); sx.cover("patches")


def select(sx, n):
    path = "mbo/" + sx.str(n, "p", "ab/."); data = {path: 1}; inc = sx.choice([["mbo/**"], ["mbo/a*"], ["mbo/a/*", "mbo/b"], []], "inc"); exc = sx.choice([[], ["*.b"], ["mbo/[!a]*"]], "exc"); p = path[4:]
    policy = {"include": inc, "exclude": exc}; i = [True, p.startswith("a"), p.startswith("a/") or p == "b", False][[["mbo/**"], ["mbo/a*"], ["mbo/a/*", "mbo/b"], []].index(inc)]
    e = [False, p.endswith(".b"), n > 0 and not p.startswith("a")][[[], ["*.b"], ["mbo/[!a]*"]].index(exc)]
    sx.equal(len(coverage.select_files(data, policy)), 1 if i and not e else 0, "the files selected are not those of the policy")
    sx.equal(len(coverage.select_files(data, {})), 1, "without a policy all files are selected"); sx.cover("select")


def newest(sx, n):
    values = [{"target": sx.choice(["main", "pr/1"], "t" + "012"[i]), "n": i, "source": {"created_at": sx.str(2, "c" + "012"[i], "12"), "run_id": sx.int(1, 3, "r" + "012"[i]), "run_attempt": sx.int(1, 2, "a" + "012"[i])}} for i in range(n)]
    def less(a, b):
        a, b = a["source"], b["source"]
        if a["created_at"] != b["created_at"]: return a["created_at"] < b["created_at"]
        if a["run_id"] != b["run_id"]: return a["run_id"] < b["run_id"]
        return a["run_attempt"] < b["run_attempt"]
    got = index.latest_metadata(values)
    for t in ("main", "pr/1"):
        mine = [v for v in values if v["target"] == t]; sx.equal(t in got, len(mine) > 0, "the targets reported")
        if mine: sx.check(not any(less(got[t], v) for v in mine), "an older report replaces a newer one"); sx.equal(got[t]["target"], t, "the report of another target")
    if n > 1: sx.equal(index.is_newer(values[0], values[1]), not less(values[0], values[1]), "is_newer")
    sx.cover("newest")


def versions(sx, n):
    a = sx.str(n, "a", "01."); b = sx.str(n, "b", "01."); num = lambda s: [int(x) for x in s.split(".")]
    ok = lambda s: s.count(".") == 2 and all(len(x) > 0 for x in s.split("."))
    ka, kb = index._version_key(a), index._version_key(b)
    if ok(a) and ok(b): sx.equal(ka < kb, num(a) < num(b), "releases are not ordered by number")
    if ok(a) and not ok(b): sx.check(kb < ka, "an unknown release comes before a known one")
    sx.cover("versions")


class Tree:
    """A path that records the links made below it."""
    made = {}
    def __init__(self, name): self.name = name
    def resolve(self): return self
    def __truediv__(self, s): return Tree(self.name + "/" + s)
    @property
    def parent(self): return Tree(self.name.rpartition("/")[0])
    def mkdir(self, **k): pass
    def exists(self): return any(k == self.name for k in Tree.made)
    def is_symlink(self): return False
    def symlink_to(self, t): Tree.made[self.name] = t.name
    def __str__(self): return self.name


def grouping(sx, n):
    Tree.made = {}; text = ""; want = []; links = []; policy = {"categories": {"A": {"include": ["mbo/a*"]}, "B": {"include": ["mbo/b*", "mbo/c"] + (["mbo/ab"] if sx.flag("both") else [])}}}; both = len(policy["categories"]["B"]["include"]) == 3; fails = False
    if sx.flag("exclude"): policy["exclude"] = ["*x"]
    for i in range(n):
        k = "r" + "012"[i]; name = sx.choice(["mbo/a", "mbo/ab", "mbo/b", "mbo/c", "mbo/ax", "mbo/d", "other/a"][:3 if i else 7], k); full = i == 0 and sx.flag(k + "w"); count = sx.choice(["LF:0\n", "LF:3\n", "FNF:0\nBRF:10\n", ""][:2 if i else 4], k + "c")
        path = ("/w/" if full else "") + name; rec = "TN:\nSF:" + path + "\nDA:1,2\n" + count; text += rec + "end_of_record\n"
        if count == "LF:0\n" or count == "" or not name.startswith("mbo/") or (name.endswith("x") and "exclude" in policy): continue
        cats = [c for c, hit in (("A", name.startswith("mbo/a")), ("B", name.startswith("mbo/b") or name == "mbo/c" or (both and name == "mbo/ab"))) if hit]
        if len(cats) != 1: fails = True; break
        want.append(rec.replace("SF:" + path, "SF:/s/" + cats[0] + "/" + name) + "end_of_record\n"); links.append(("/s/" + cats[0] + "/" + name, "/w/" + name))
    try: got = sources.grouped(text, policy, Tree("/s"), Tree("/w"))
    except ValueError: sx.check(fails, "a report is refused whose sources all belong to one category"); sx.cover("grouped"); return
    sx.check(not fails, "a source of no or of two categories is accepted"); sx.equal(got, "".join(want), "the records selected")
    sx.equal(sorted(Tree.made.items()), sorted(set(links)), "the links made"); sx.cover("grouped")


def skipped(sx, n):
    class Parts: pass
    p = Parts(); p.parts = tuple([sx.choice(["a", "external", "third_party", ".git", "bazel-", "bazel-out", "xbazel-out", "externals", ".github"], "p" + "012"[i]) for i in range(n)])
    sx.equal(build_rules.is_skipped(p), any(x in ("external", "third_party", ".git") or x.startswith("bazel-") for x in p.parts), "the trees that are skipped"); sx.cover("skipped")
