"""Renders the two headers mbo's build generates (config_gen.h, hash_mangle_seed_gen.h) from /repo's BUILD/bzl files."""
import os, re, sys

REPO = os.environ.get("MBO_REPO", "/repo")


def starlark(path, **extra):
    """Evaluates a .bzl file that is plain enough to be Python."""
    def fail(*a, **k):
        raise ValueError("%s: fail(%s)" % (path, a))
    class Attr:
        def __getattr__(self, _): return lambda *a, **k: None
    class Struct:
        def __init__(self, **kw): self.__dict__.update(kw)
    env = {"load": lambda *a, **k: None, "fail": fail, "rule": lambda **k: (lambda **kk: None)}
    env["type"] = lambda x: {"str": "string", "NoneType": "NoneType"}.get(type(x).__name__, type(x).__name__)
    env.update(attr=Attr(), Label=lambda x: x, struct=Struct, native=Attr(), **extra)
    src = open(path).read().replace(".elems()", "")
    exec(compile(src, path, "exec"), env)
    return env


def flag_default(pkg, name, dflt):
    t = open(os.path.join(REPO, pkg, "BUILD.bazel")).read()
    m = re.search(r'name\s*=\s*"%s"[^)]*?build_setting_default\s*=\s*([^,\n]+)' % name, t, re.S)
    if not m:
        return dflt
    v = m.group(1).strip()
    if v in ("True", "False"):
        return v == "True"
    return v.strip(chr(34)) if v.startswith(chr(34)) else int(v)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def render(out):
    t = open(REPO + "/mbo/config/internal/config.h.in").read()
    t = t.replace("kRequireThrows = false;", "kRequireThrows = %s;" % str(flag_default("mbo/config", "require_throws", False)).lower())
    t = t.replace("kUnrollMaxCapacityDefault = 16;", "kUnrollMaxCapacityDefault = %d;" % flag_default("mbo/config", "limited_ordered_max_unroll_capacity", 16))
    put(out + "/mbo/config/config_gen.h", t)
    bzl = starlark(REPO + "/mbo/hash/hash.bzl")
    sg = starlark(REPO + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=bzl["hash"])
    mod = re.sub(r"#.*", "", open(REPO + "/MODULE.bazel").read())
    ver = re.search(r'module\([^)]*version\s*=\s*"([^"]*)"', mod, re.S).group(1)
    c = sg["mangle_constant"](ver, flag_default("mbo/hash", "mangle_seed", ""), flag_default("mbo/hash", "mangle_seed_buckets", 0))
    put(out + "/mbo/hash/hash_mangle_seed_gen.h", sg["_HEADER"].replace("@MANGLE_CONSTANT@", "0x%XULL" % c))


if __name__ == "__main__":
    render(sys.argv[1])
