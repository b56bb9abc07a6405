"""Translates Starlark functions (a Python subset) into C++ over a dynamic value type, so that the engine can execute them symbolically."""
import ast

PRELUDE = r'''
#pragma once
#include <cstdint>
#include <vector>
#include "sx.h"
namespace bzl {
typedef unsigned __int128 u128;
inline bool gFailed = false;
inline void bad(const char* m) { (void)m; gFailed = true; }
struct V {  // None, Int (also Bool), Chr (a one character string), Str (characters), List (list or tuple), Map (a table over characters)
  enum K { None, Int, Chr, Str, List, Map } k = None;
  u128 i = 0; std::vector<V> l;
  V() {} V(u128 x) : k(Int), i(x) {} V(unsigned long long x) : k(Int), i(x) {} V(int x) : k(Int), i((u128)(unsigned)x) {} V(bool b) : k(Int), i(b) {} V(unsigned long x) : k(Int), i(x) {}
  V(const V&) = default; V& operator=(const V&) = default;
};
inline V list() { V r; r.k = V::List; return r; }
template <class... A> V mk(A... a) { V r = list(); (r.l.push_back(V(a)), ...); return r; }
inline V str(std::string_view s) { V r; r.k = V::Str; for (unsigned char c : s) { V x; x.k = V::Chr; x.i = c; r.l.push_back(x); } return r; }
inline u128 in(const V& a) { if (a.k != V::Int) bad("integer expected"); return a.i; }
inline size_t ix(const V& a) { u128 x = in(a); return (size_t)x; }
inline V add(const V& a, const V& b) {
  if (a.k == V::Str || a.k == V::Chr || a.k == V::List) {
    V r = a; if (a.k == V::Chr) { r = V(); r.k = V::Str; r.l.push_back(a); }
    if (b.k == V::Chr) r.l.push_back(b); else for (auto& x : b.l) r.l.push_back(x);
    return r;
  }
  u128 x = in(a), y = in(b), s = x + y; if (s < x) bad("integer wider than 128 bits"); return V(s);
}
inline V sub(const V& a, const V& b) { if (in(a) < in(b)) bad("negative integer"); return V(in(a) - in(b)); }
inline bool small(u128 x) { return (uint64_t)(x >> 64) == 0; }
inline V mul(const V& a, const V& b) { if (!small(in(a)) || !small(in(b))) bad("integer wider than 128 bits"); return V((u128)(uint64_t)a.i * (uint64_t)b.i); }
inline V div_(const V& a, const V& b) { return V((u128)((uint64_t)in(a) / (uint64_t)in(b))); }
inline V mod(const V& a, const V& b) { if (!small(in(a)) || !small(in(b))) bad("integer wider than 64 bits"); return V((u128)((uint64_t)a.i % (uint64_t)b.i)); }
inline V band(const V& a, const V& b) { return V(in(a) & in(b)); }
inline V bor(const V& a, const V& b) { return V(in(a) | in(b)); }
inline V bxor(const V& a, const V& b) { return V(in(a) ^ in(b)); }
inline V shl(const V& a, const V& b) { unsigned n = (unsigned)in(b); u128 x = in(a); if (n >= 128 || (n && (x >> (128 - n)) != 0)) { bad("integer wider than 128 bits"); return V(0); } return V(x << n); }
inline V shr(const V& a, const V& b) { unsigned n = (unsigned)in(b); return V(n >= 128 ? (u128)0 : in(a) >> n); }
inline bool truth(const V& a) { return a.k == V::Int || a.k == V::Chr ? a.i != 0 : !a.l.empty(); }
inline bool lt(const V& a, const V& b) { return in(a) < in(b); }
inline bool eq(const V& a, const V& b) {
  if (a.k != b.k) return false;
  if (a.k == V::Int || a.k == V::Chr) return a.i == b.i;
  if (a.l.size() != b.l.size()) return false;
  for (size_t i = 0; i < a.l.size(); ++i) if (!eq(a.l[i], b.l[i])) return false;
  return true;
}
inline V at(const V& a, const V& i) {
  if (a.k == V::Map) { V r; r.k = V::Int; uint8_t c = (uint8_t)i.i, t = (uint8_t)a.l[c].i; int f_ = sx_feasible(t != c); if (f_) r.i = t; else r.i = c; return r; }  // the same value, in a simpler form
  size_t n = ix(i); if (n >= a.l.size()) { bad("index out of range"); return V(0); } return a.l[n];
}
inline V& ref(V& a, const V& i) { size_t n = ix(i); if (n >= a.l.size()) { bad("index out of range"); static V z; return z; } return a.l[n]; }
inline bool has(const V& m, const V& x) { if (m.k == V::Map) return m.l[256 + (size_t)(uint8_t)x.i].i != 0; for (auto& y : m.l) if (eq(x, y)) return true; return false; }
inline V len(const V& a) { return V((u128)a.l.size()); }
inline V range(const V& a) { V r = list(); for (size_t i = 0; i < ix(a); ++i) r.l.push_back(V((u128)i)); return r; }
inline V range(const V& a, const V& b) { V r = list(); for (size_t i = ix(a); i < ix(b); ++i) r.l.push_back(V((u128)i)); return r; }
inline V range(const V& a, const V& b, const V& c) { V r = list(); for (size_t i = ix(a); i < ix(b); i += ix(c)) r.l.push_back(V((u128)i)); return r; }
inline V enumerate(const V& a) { V r = list(); for (size_t i = 0; i < a.l.size(); ++i) r.l.push_back(mk(V((u128)i), a.l[i])); return r; }
inline V type(const V& a) { return str(a.k == V::Int ? "int" : a.k == V::Chr || a.k == V::Str ? "string" : a.k == V::List ? "list" : "NoneType"); }
inline V sum(const V& a) { V r(0); for (auto& x : a.l) r = add(r, x); return r; }
inline V min(const V& a, const V& b) { return lt(a, b) ? a : b; }
inline V max(const V& a, const V& b) { return lt(a, b) ? b : a; }
inline V elems(const V& a) { V r = a; r.k = V::List; return r; }
inline V lst(const V& a) { V r = a; r.k = V::List; return r; }
inline V rev(const V& a) { V r = list(); for (size_t i = a.l.size(); i-- > 0;) r.l.push_back(a.l[i]); return r; }
inline V slice(const V& a, size_t lo, size_t hi) { V r; r.k = a.k; if (hi > a.l.size()) hi = a.l.size(); for (size_t i = lo; i < hi; ++i) r.l.push_back(a.l[i]); return r; }
inline V fail(const char* m) { bad(m); return V(); }
inline V chars(const uint8_t* val, const uint8_t* has) { V r; r.k = V::Map; for (int i = 0; i < 256; ++i) r.l.push_back(V((int)val[i])); for (int i = 0; i < 256; ++i) r.l.push_back(V((int)has[i])); return r; }
}
'''


class Untranslatable(Exception):
    pass


BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "div_", ast.Mod: "mod", ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.LShift: "shl", ast.RShift: "shr"}
BUILTIN = {"len", "range", "enumerate", "type", "sum", "min", "max"}


class Tr:
    def __init__(self, env, prefix, alias):
        self.env, self.prefix, self.alias, self.tmp = env, prefix, alias, 0

    def const(self, v):
        if v is None: return "V()"
        if isinstance(v, bool): return "V(%s)" % str(v).lower()
        if isinstance(v, int):
            if v < 0 or v >> 128: raise Untranslatable("integer constant")
            return "V(((u128)0x%xULL << 64) | (u128)0x%xULL)" % (v >> 64, v & (2**64 - 1))
        if isinstance(v, str):
            return "str(std::string_view(\"%s\", %d))" % ("".join("\\%03o" % b for b in v.encode("latin-1")), len(v))
        if isinstance(v, (list, tuple)): return "mk(%s)" % ", ".join(self.const(x) for x in v) if v else "list()"
        if isinstance(v, dict):
            val, has = [0] * 256, [0] * 256
            for a, b in v.items():
                if not (isinstance(a, str) and len(a) == 1 and isinstance(b, int) and 0 <= b < 256): raise Untranslatable("dictionary")
                val[ord(a)], has[ord(a)] = b, 1
            self.tmp += 1
            n = "%st%d" % (self.prefix, self.tmp)
            self.tables.append("static const uint8_t %s_v[256] = {%s}, %s_h[256] = {%s};" % (n, ",".join(map(str, val)), n, ",".join(map(str, has))))
            return "chars(%s_v, %s_h)" % (n, n)
        raise Untranslatable("constant %r" % (v,))

    def glob(self, name):
        v = self.env[name]
        self.used.add(name)
        return self.prefix + name + "()"

    def e(self, n, sc):
        if isinstance(n, ast.Constant): return self.const(n.value)
        if isinstance(n, ast.Name):
            if n.id in sc: return "v_" + n.id
            if n.id in ("True", "False"): return "V(%s)" % n.id.lower()
            if n.id in self.env: return self.glob(n.id)
            raise Untranslatable("name " + n.id)
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str): return "V()"
            f = BIN.get(type(n.op))
            if not f: raise Untranslatable("operator")
            return "%s(%s, %s)" % (f, self.e(n.left, sc), self.e(n.right, sc))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): return "V(!truth(%s))" % self.e(n.operand, sc)
        if isinstance(n, ast.BoolOp):
            op = " && " if isinstance(n.op, ast.And) else " || "
            return "V(%s)" % op.join("truth(%s)" % self.e(x, sc) for x in n.values)
        if isinstance(n, ast.IfExp): return "(truth(%s) ? %s : %s)" % (self.e(n.test, sc), self.e(n.body, sc), self.e(n.orelse, sc))
        if isinstance(n, ast.Compare):
            out, left = [], n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = self.e(left, sc), self.e(right, sc)
                out.append({ast.Lt: "lt(%s, %s)" % (a, b), ast.Gt: "lt(%s, %s)" % (b, a), ast.LtE: "!lt(%s, %s)" % (b, a), ast.GtE: "!lt(%s, %s)" % (a, b), ast.Eq: "eq(%s, %s)" % (a, b), ast.NotEq: "!eq(%s, %s)" % (a, b), ast.In: "has(%s, %s)" % (b, a), ast.NotIn: "!has(%s, %s)" % (b, a)}.get(type(op)) or self.bad("comparison"))
                left = right
            return "V(bool(%s))" % " && ".join(out)
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                lo = "ix(%s)" % self.e(n.slice.lower, sc) if n.slice.lower else "0"
                hi = "ix(%s)" % self.e(n.slice.upper, sc) if n.slice.upper else "(size_t)-1"
                if n.slice.step: self.bad("slice step")
                return "slice(%s, %s, %s)" % (self.e(n.value, sc), lo, hi)
            return "at(%s, %s)" % (self.e(n.value, sc), self.e(n.slice, sc))
        if isinstance(n, (ast.List, ast.Tuple)): return ("mk(%s)" % ", ".join(self.e(x, sc) for x in n.elts)) if n.elts else "list()"
        if isinstance(n, ast.ListComp):
            if len(n.generators) != 1: self.bad("comprehension")
            g = n.generators[0]
            body = []
            s2 = set(sc)
            self.tmp += 1
            it = "it%d" % self.tmp
            decl = self.target(g.target, it, s2, body)
            cond = "".join("if (!truth(%s)) continue; " % self.e(c, s2) for c in g.ifs)
            return "[&] { V r_ = list(); for (auto& %s : (%s).l) { %s %s r_.l.push_back(%s); } return r_; }()" % (it, self.e(g.iter, sc), decl, cond, self.e(n.elt, s2))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr == "elems" and not n.args: return "elems(%s)" % self.e(f.value, sc)
                if isinstance(f.value, ast.Name) and f.value.id in self.alias: return self.call(self.alias[f.value.id] + f.attr, n, sc)
                self.bad("method " + f.attr)
            if f.id == "fail": return 'fail("fail()")'
            if f.id == "list": return "lst(%s)" % self.e(n.args[0], sc)
            if f.id == "reversed": return "rev(%s)" % self.e(n.args[0], sc)
            if f.id == "int" and len(n.args) == 1: return self.e(n.args[0], sc)
            if f.id in BUILTIN: return "%s(%s)" % (f.id, ", ".join(self.e(a, sc) for a in n.args))
            if f.id in self.env: return self.call(self.prefix + f.id, n, sc)
        raise Untranslatable(ast.dump(n)[:80])

    def bad(self, m): raise Untranslatable(m)

    def call(self, name, n, sc):
        if any(isinstance(a, ast.Starred) for a in n.args): self.bad("star")
        args = [self.e(a, sc) for a in n.args]
        if n.keywords:
            fn = name[len(self.prefix):] if name.startswith(self.prefix) else None
            if fn not in self.sigs: self.bad("keyword call")
            for p in self.sigs[fn][len(args):]:
                k = [x for x in n.keywords if x.arg == p]
                if not k: self.bad("keyword call")
                args.append(self.e(k[0].value, sc))
        return "%s(%s)" % (name, ", ".join(args))

    def target(self, t, src, sc, out):
        """declarations that bind a loop/comprehension target to the C++ expression src"""
        if isinstance(t, ast.Name):
            sc.add(t.id)
            return "V v_%s = %s;" % (t.id, src)
        return " ".join(self.target(x, "%s.l[%d]" % (src, i), sc, out) for i, x in enumerate(t.elts))

    def assign(self, t, src, sc):
        if isinstance(t, ast.Name): return "v_%s = %s;" % (t.id, src)
        if isinstance(t, (ast.Tuple, ast.List)):
            self.tmp += 1
            x = "tu%d" % self.tmp
            return "{ V %s = %s; if (%s.l.size() != %d) bad(\"unpack\"); else { %s } }" % (x, src, x, len(t.elts), " ".join(self.assign(y, "%s.l[%d]" % (x, i), sc) for i, y in enumerate(t.elts)))
        if isinstance(t, ast.Subscript): return "{ V x_ = %s; ref(%s, %s) = x_; }" % (src, self.e(t.value, sc), self.e(t.slice, sc))
        self.bad("assignment")

    def st(self, n, sc, ind):
        p = "  " * ind
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant): return ""
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("append", "extend"):
                o = self.e(n.value.func.value, sc)
                a = self.e(n.value.args[0], sc)
                return p + ("%s.l.push_back(%s);\n" % (o, a) if n.value.func.attr == "append" else "%s = add(%s, %s);\n" % (o, o, a))
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "fail": return p + "{ bad(\"fail()\"); return V(); }\n"
            return p + self.e(n.value, sc) + ";\n"
        if isinstance(n, ast.Assign):
            if len(n.targets) != 1: self.bad("assignment")
            return p + self.assign(n.targets[0], self.e(n.value, sc), sc) + "\n"
        if isinstance(n, ast.AugAssign):
            t = n.target
            f = BIN.get(type(n.op)) or self.bad("operator")
            return p + self.assign(t, "%s(%s, %s)" % (f, self.e(t, sc), self.e(n.value, sc)), sc) + "\n"
        if isinstance(n, ast.Return): return p + "return %s;\n" % (self.e(n.value, sc) if n.value else "V()")
        if isinstance(n, ast.If):
            s = p + "if (truth(%s)) {\n%s%s}" % (self.e(n.test, sc), self.body(n.body, sc, ind + 1), p)
            if n.orelse: s += " else {\n%s%s}" % (self.body(n.orelse, sc, ind + 1), p)
            return s + "\n"
        if isinstance(n, ast.For):
            if n.orelse: self.bad("for-else")
            self.tmp += 1
            it = "it%d" % self.tmp
            return p + "{ V c_%s = %s; for (auto& %s : c_%s.l) {\n%s%s\n%s%s} }\n" % (it, self.e(n.iter, sc), it, it, p + "  ", self.assign(n.target, it, sc), self.body(n.body, sc, ind + 1), p)
        if isinstance(n, ast.Break): return p + "break;\n"
        if isinstance(n, ast.Continue): return p + "continue;\n"
        if isinstance(n, ast.Pass): return ""
        self.bad(type(n).__name__)

    def body(self, b, sc, ind): return "".join(self.st(x, sc, ind) for x in b)

    def func(self, fn):
        if fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs: self.bad("signature")
        params = [a.arg for a in fn.args.args]
        names = set(params)
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): names.add(x.id)
        out = []
        nd = len(fn.args.defaults)
        for k in range(nd, 0, -1):  # overloads that supply the defaults
            full = params[:len(params) - k]
            miss = [self.e(d, set()) for d in fn.args.defaults[nd - k:]]
            out.append("inline V %s%s(%s) { return %s%s(%s); }\n" % (self.prefix, fn.name, ", ".join("V v_" + a for a in full), self.prefix, fn.name, ", ".join(["v_" + a for a in full] + miss)))
        s = "inline V %s%s(%s) {\n" % (self.prefix, fn.name, ", ".join("V v_" + a for a in params))
        loc = sorted(names - set(params))
        if loc: s += "  V %s;\n" % ", ".join("v_" + x for x in loc)
        s += self.body(fn.body, names, 1) + "  return V();\n}\n"
        return s + "".join(out)


def translate(src, env, prefix, roots, alias=None):
    """-> C++ text defining prefix+name for every function in `roots` and what they use; env: evaluated module constants"""
    tree = ast.parse(src)
    fns = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    t = Tr(env, prefix, alias or {})
    t.used, t.tables, t.sigs = set(), [], {k: [a.arg for a in f.args.args] for k, f in fns.items()}
    done, todo, code, protos = set(), list(roots), [], []
    while todo:
        f = todo.pop()
        if f in done: continue
        done.add(f)
        code.append(t.func(fns[f]))
        protos.append("V %s%s(%s);" % (prefix, f, ", ".join("V" for _ in fns[f].args.args)))
        for x in ast.walk(fns[f]):
            if isinstance(x, ast.Name) and x.id in fns: todo.append(x.id)
    for f in done: t.used.discard(f)
    g = []
    for k in sorted(t.used):
        if k in fns: continue
        g.append("inline const V& %s%s() { static const V v = %s; return v; }" % (prefix, k, t.const(env[k])))
    return "namespace bzl {\n" + "\n".join(t.tables) + "\n" + "\n".join(protos) + "\n" + "\n".join(g) + "\n" + "\n".join(reversed(code)) + "}\n"


def hash_header(repo):
    import gen
    p = repo + "/mbo/hash/hash.bzl"
    env = gen.starlark(p)
    tree = ast.parse(open(p).read())
    names = {}
    for n in tree.body:  # hash = struct(dumbo = _dumbo, ...)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "struct":
            for k in n.value.keywords: names[k.arg] = k.value.id
    out = PRELUDE + translate(open(p).read(), env, "b_", sorted(set(names.values())))
    for k in ("dumbo", "fnv1a", "mumbo"):
        out += "namespace bzl { template <class... A> V hash_%s(A... a) { return b_%s(a...); } }\n" % (k, names[k])
    q = repo + "/mbo/hash/internal/hash_mangle_seed.bzl"
    e2 = gen.starlark(q, hash=env["hash"])
    src = open(q).read()
    # only the part before the rule definitions is needed
    out += translate(src, e2, "m_", ["mangle_constant"], alias={"hash": "hash_"})
    return out
