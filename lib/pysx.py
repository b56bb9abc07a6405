"""Symbolic execution of Python source: the module under test is parsed, its string literals become symbolic strings
(class S), and it is run once per feasible path; every test on symbolic data asks z3 which outcomes are possible.

A path is replayed by its trail of decisions; the solver holds the path condition as a stack. Predicates fork at once
and return plain bools, so containers, sorting and comprehensions of the code under test work unchanged."""
import ast, builtins, fnmatch as _fnmatch, os, re as _re, sys, types
from re import _constants as K, _parser as P
import z3

ALL = (1 << 128) - 1


class Infeasible(Exception):
    pass


class Stop(Exception):
    """A bound of the engine was reached: the job is not fully explored."""


class Engine:
    def __init__(self):
        self.s = z3.Solver(); self.trail = []; self.pos = 0; self.mod = None; self.forks = self.queries = self.sat = 0; self.time = 0.0; self.syms = []; self.cache = {}

    def check(self):
        import time
        t = time.time(); r = self.s.check(); self.time += time.time() - t; self.queries += 1
        if r == z3.unknown: raise Stop("solver: unknown")
        if r == z3.sat: self.sat += 1; return self.s.model()
        return None

    def model(self):
        if self.mod is None:
            self.mod = self.check()
            if self.mod is None: raise Infeasible()
        return self.mod

    def branch(self, e):
        if isinstance(e, bool): return e
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if self.pos < len(self.trail):
            v = self.trail[self.pos][1]; self.pos += 1; return v
        if len(self.trail) > 4000: raise Stop("too many decisions")
        m = self.model(); v = z3.is_true(m.eval(e, model_completion=True)); other = z3.Not(e) if v else e
        self.s.push(); self.s.add(other); m2 = self.check(); self.s.pop()
        self.s.push(); self.s.add(e if v else z3.Not(e))
        if m2 is not None: self.forks += 1
        self.trail.append([e, v, m2 is not None, m2]); self.pos += 1; return v

    def next(self):
        """Prepares the next path; False when there is none."""
        while self.trail:
            e, v, alt, m = self.trail.pop(); self.s.pop()
            if alt:
                self.s.push(); self.s.add(z3.Not(e) if v else e); self.trail.append([e, not v, False, None]); self.mod = m; return True
        return False

    def begin(self):
        self.pos = 0; self.syms = []

    def assume(self, c):
        if not c: raise Infeasible()

    # -- characters
    def test(self, c, mask):
        """Is character c (code or symbol) in the set given by mask?"""
        if not isinstance(c, C): return bool(mask >> c & 1) if c < 128 else False
        mask &= c.dom
        if mask == 0: return False
        if mask == c.dom: return True
        k = (c.name, mask); e = self.cache.get(k)
        if e is None:
            ors = []; i = 0
            while i < 128:
                if mask >> i & 1:
                    j = i
                    while j + 1 < 128 and mask >> (j + 1) & 1: j += 1
                    ors.append(c.v == i if i == j else z3.And(z3.UGE(c.v, i), z3.ULE(c.v, j))); i = j
                i += 1
            e = self.cache[k] = z3.Or(ors) if len(ors) > 1 else ors[0]
        return self.branch(e)

    def value(self, c):
        """A concrete value for c on this path (forks over all others)."""
        if not isinstance(c, C): return c
        if c.dom & (c.dom - 1) == 0: return c.dom.bit_length() - 1
        lo = 0
        while True:
            if self.pos < len(self.trail):  # replaying: the decisions say which values were tried
                e, v, _, _ = self.trail[self.pos]; x = e.arg(1).as_long() if z3.is_eq(e) else None
                if x is None: raise Stop("trail")
            else: x = self.model().eval(c.v, model_completion=True).as_long()
            if self.branch(c.v == x): return x


E = Engine()


class C:
    """A symbolic character with a set of possible values."""
    __slots__ = ("name", "v", "dom")

    def __init__(self, name, dom):
        self.name, self.dom = name, dom; self.v = z3.BitVec(name, 8)


def mask_of(chars): return sum(1 << ord(c) for c in set(chars))


SPACE = mask_of(c for c in map(chr, range(128)) if c.isspace()); DIGIT = mask_of("0123456789"); WORD = mask_of(c for c in map(chr, range(128)) if c.isalnum()) | 1 << ord("_")
BREAKS = mask_of("\n\r\v\f\x1c\x1d\x1e")


def ceq(a, b):
    if a is b: return True
    if not isinstance(a, C) and not isinstance(b, C): return a == b
    if not isinstance(a, C): a, b = b, a
    if not isinstance(b, C): return E.test(a, 1 << b if b < 128 else 0)
    return E.branch(a.v == b.v)


def cexpr(a, b):
    """a == b as an expression (or a bool)."""
    if a is b: return True
    if not isinstance(a, C) and not isinstance(b, C): return a == b
    if not isinstance(a, C): a, b = b, a
    if not isinstance(b, C): return False if b > 127 or not a.dom >> b & 1 else a.v == b
    return a.v == b.v


def clt(a, b):
    if not isinstance(a, C) and not isinstance(b, C): return a < b
    if not isinstance(b, C): return E.test(a, (1 << min(b, 128)) - 1)
    if not isinstance(a, C): return E.test(b, ALL & ~((1 << min(a + 1, 128)) - 1))
    return E.branch(z3.ULT(a.v, b.v))


def S_(x): return x if isinstance(x, S) else S(x)


class S:
    """A string of concrete and symbolic characters; its length is concrete."""
    __slots__ = ("c",)

    def __init__(self, x=""):
        self.c = x.c if isinstance(x, S) else tuple(map(ord, x)) if isinstance(x, builtins.str) else tuple(x)

    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __hash__(self): return 0x5a5a
    def __iter__(self): return iter([S((c,)) for c in self.c])
    def __getitem__(self, i): return S(self.c[i]) if isinstance(i, slice) else S((self.c[i],))
    def __add__(self, o): return S(self.c + S_(o).c) if isinstance(o, (S, builtins.str)) else NotImplemented
    def __radd__(self, o): return S(S_(o).c + self.c)
    def __mul__(self, n): return S(self.c * n)
    __rmul__ = __mul__

    def same(self, o):
        if len(self.c) != len(o.c): return False
        es = []
        for a, b in zip(self.c, o.c):
            e = cexpr(a, b)
            if e is False: return False
            if e is not True: es.append(e)
        return E.branch(z3.And(es) if len(es) > 1 else es[0]) if es else True

    def __eq__(self, o): return self.same(S_(o)) if isinstance(o, (S, builtins.str)) else False
    def __ne__(self, o): return not self == o

    def __lt__(self, o):
        o = S_(o)
        for a, b in zip(self.c, o.c):
            if ceq(a, b): continue
            return clt(a, b)
        return len(self.c) < len(o.c)

    def __gt__(self, o): return S_(o) < self
    def __le__(self, o): return not S_(o) < self
    def __ge__(self, o): return not self < o
    def __contains__(self, o): return self.find(o) >= 0
    def __str__(self): return "".join(chr(x) if x < 0x110000 else "?" for x in map(E.value, self.c))
    def __repr__(self): return repr(str(self))
    def __fspath__(self): return str(self)
    def __float__(self): return float(str(self))
    def __int__(self): return builtins.int(str(self))
    def __mod__(self, o): return S(str(self) % o)
    def __format__(self, spec): return format(str(self), spec)
    def __reduce__(self): return (builtins.str, (str(self),))

    def at(self, o, i): return i >= 0 and i + len(o) <= len(self) and self[i:i + len(o)].same(o)

    def find(self, o, start=0, end=None):
        o = S_(o); n = len(self) if end is None else end
        for i in range(start, n - len(o) + 1):
            if self.at(o, i): return i
        return -1

    def rfind(self, o):
        o = S_(o)
        for i in range(len(self) - len(o), -1, -1):
            if self.at(o, i): return i
        return -1

    def index(self, o):
        i = self.find(o)
        if i < 0: raise ValueError("substring not found")
        return i

    def count(self, o): return len(self.split(o)) - 1
    def startswith(self, o, i=0): return any(self.startswith(x, i) for x in o) if isinstance(o, tuple) else self.at(S_(o), i)
    def endswith(self, o): return any(map(self.endswith, o)) if isinstance(o, tuple) else self.at(S_(o), len(self) - len(o))
    def removeprefix(self, o): return self[len(o):] if self.startswith(o) else self
    def removesuffix(self, o): return self[:len(self) - len(o)] if len(o) and self.endswith(o) else self

    def _set(self, chars):
        if chars is None: return lambda c: E.test(c, SPACE)
        cs = S_(chars).c; return lambda c: any(ceq(c, x) for x in cs)

    def lstrip(self, chars=None):
        f = self._set(chars); i = 0
        while i < len(self.c) and f(self.c[i]): i += 1
        return self[i:]

    def rstrip(self, chars=None):
        f = self._set(chars); i = len(self.c)
        while i > 0 and f(self.c[i - 1]): i -= 1
        return self[:i]

    def strip(self, chars=None): return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []; i = b = 0
        if sep is None:
            s = self.lstrip()
            while s:
                if maxsplit >= 0 and len(out) >= maxsplit: out.append(s.rstrip()); break
                i = 0
                while i < len(s) and not E.test(s.c[i], SPACE): i += 1
                out.append(s[:i]); s = s[i:].lstrip()
            return out
        sep = S_(sep)
        while i <= len(self) - len(sep):
            if (maxsplit < 0 or len(out) < maxsplit) and self.at(sep, i): out.append(self[b:i]); i += len(sep); b = i
            else: i += 1
        return out + [self[b:]]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0: return [S(x) for x in str(self).rsplit(sep and str(sep), maxsplit)]
        out = []; s = self
        while maxsplit > len(out):
            i = s.rfind(sep)
            if i < 0: break
            out.insert(0, s[i + len(sep):]); s = s[:i]
        return [s] + out

    def partition(self, sep):
        i = self.find(sep); return (self, S(), S()) if i < 0 else (self[:i], S_(sep), self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep); return (S(), S(), self) if i < 0 else (self[:i], S_(sep), self[i + len(sep):])

    def splitlines(self, keepends=False):
        out = []; b = i = 0
        while i < len(self):
            if not E.test(self.c[i], BREAKS): i += 1; continue
            e = i + 1
            if e < len(self) and E.test(self.c[i], 1 << 13) and E.test(self.c[e], 1 << 10): e += 1
            out.append(self[b:e if keepends else i]); b = i = e
        return out + [self[b:]] if b < len(self) else out

    def replace(self, a, b, n=-1): return S_(b).join(self.split(a, n))

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if not isinstance(x, (S, builtins.str)): raise TypeError("sequence item %d: expected str instance" % i)
            if i: out += self.c
            out += S_(x).c
        return S(out)

    def ljust(self, w, f=" "): return self + S(f) * max(0, w - len(self))
    def rjust(self, w, f=" "): return S(f) * max(0, w - len(self)) + self

    def center(self, w, f=" "):
        p = max(0, w - len(self)); l = p // 2 + (p & w & 1); return S(f) * l + self + S(f) * (p - l)

    def isspace(self): return bool(self.c) and all(E.test(c, SPACE) for c in self.c)
    def isdigit(self): return bool(self.c) and all(E.test(c, DIGIT) for c in self.c)
    def encode(self, *a): return str(self).encode(*a)

    def __getattr__(self, n):  # anything else: on every concrete value
        f = getattr(str(self), n)

        def g(*a, **k):
            r = f(*[str(x) if isinstance(x, S) else x for x in a], **k)
            return S(r) if isinstance(r, builtins.str) else [S(x) for x in r] if isinstance(r, list) else r
        return g


class _StrMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (S, builtins.str))


class Str(metaclass=_StrMeta):
    def __new__(cls, x="", *a): return x if isinstance(x, S) else S(builtins.str(x, *a) if a else type(x).__str__(x))


class I:
    """A symbolic integer."""
    __slots__ = ("v",)

    def __init__(self, v): self.v = v
    def __hash__(self): return 0x5a5b
    def __bool__(self): return E.branch(self.v != 0)

    def __int__(self):
        while True:
            if E.pos < len(E.trail): x = E.trail[E.pos][0].arg(1).as_long()
            else: x = E.model().eval(self.v, model_completion=True).as_long()
            if E.branch(self.v == x): return x
    __index__ = __int__
    def __float__(self): return float(int(self))
    def __str__(self): return str(int(self))
    def __repr__(self): return str(int(self))
    def __format__(self, spec): return format(int(self), spec)


def _v(x): return x.v if isinstance(x, I) else x


def _op(n, f, cmp):
    def g(a, b):
        if isinstance(b, float): return getattr(float(a), n)(b)
        if not isinstance(b, (I, builtins.int)): return NotImplemented
        r = f(a.v, _v(b)); return E.branch(z3.simplify(r)) if cmp else I(r)
    return g


for _n, _f in (("__eq__", lambda a, b: a == b), ("__ne__", lambda a, b: a != b), ("__lt__", lambda a, b: a < b), ("__le__", lambda a, b: a <= b), ("__gt__", lambda a, b: a > b), ("__ge__", lambda a, b: a >= b)): setattr(I, _n, _op(_n, _f, True))
for _n, _f in (("__add__", lambda a, b: a + b), ("__radd__", lambda a, b: b + a), ("__sub__", lambda a, b: a - b), ("__rsub__", lambda a, b: b - a), ("__mul__", lambda a, b: a * b), ("__rmul__", lambda a, b: b * a)): setattr(I, _n, _op(_n, _f, False))
I.__truediv__ = lambda a, b: int(a) / (int(b) if isinstance(b, I) else b)
I.__rtruediv__ = lambda a, b: b / int(a)
I.__neg__ = lambda a: I(-a.v)


class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (I, builtins.int))


class Int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a): return x if isinstance(x, I) else builtins.int(str(x) if isinstance(x, S) else x, *a)


# -- regular expressions: a backtracking matcher over sre's own parse of the pattern
def _in_mask(items):
    neg = False; m = 0
    for op, a in items:
        if op is K.NEGATE: neg = True
        elif op is K.LITERAL: m |= 1 << a if a < 128 else 0
        elif op is K.RANGE: m |= sum(1 << i for i in range(a[0], min(a[1], 127) + 1))
        elif op is K.CATEGORY: m |= {K.CATEGORY_DIGIT: DIGIT, K.CATEGORY_NOT_DIGIT: ALL & ~DIGIT, K.CATEGORY_SPACE: SPACE, K.CATEGORY_NOT_SPACE: ALL & ~SPACE, K.CATEGORY_WORD: WORD, K.CATEGORY_NOT_WORD: ALL & ~WORD}[a]
        else: raise Stop("regex set %s" % op)
    return ALL & ~m if neg else m


def _dotall(x):
    """The parsed pattern with '.' standing for every character."""
    if isinstance(x, (list, P.SubPattern)): return [_dotall(v) for v in x]
    if isinstance(x, tuple): return (K.IN, [(K.RANGE, (0, 127))]) if len(x) == 2 and x[0] is K.ANY else tuple(map(_dotall, x))
    return x


class Match:
    def __init__(self, s, b, e, g, n, names): self.string, self.b, self.e, self.g, self.n, self.names = s, b, e, g, n, names

    def _span(self, k):
        if not isinstance(k, builtins.int): k = self.names[str(k)]
        return (self.b, self.e) if k == 0 else self.g.get(k)

    def _one(self, k, d=None):
        p = self._span(k); return d if p is None else self.string[p[0]:p[1]]

    def group(self, *ks): return self._one(0) if not ks else self._one(ks[0]) if len(ks) == 1 else tuple(map(self._one, ks))
    __getitem__ = _one
    def groups(self, d=None): return tuple(self._one(k, d) for k in range(1, self.n + 1))
    def groupdict(self, d=None): return {S(k): self._one(v, d) for k, v in self.names.items()}
    def start(self, k=0): return (self._span(k) or (-1, -1))[0]
    def end(self, k=0): return (self._span(k) or (-1, -1))[1]
    def span(self, k=0): return self._span(k) or (-1, -1)
    def __bool__(self): return True


class Pattern:
    def __init__(self, p, flags=0):
        self.pattern = S_(p); t = P.parse(str(p), builtins.int(flags)); self.t = list(t); self.flags = t.state.flags; self.groups_n = t.state.groups - 1; self.names = dict(t.state.groupdict)
        if self.flags & (_re.I | _re.X): raise Stop("regex flags")

    def _m(self, s, nodes, k, i, g, cont):
        if k == len(nodes): return cont(i, g)
        op, a = nodes[k]; nxt = lambda j, h: self._m(s, nodes, k + 1, j, h, cont)
        one = None
        if op is K.LITERAL: one = 1 << a if a < 128 else 0
        elif op is K.NOT_LITERAL: one = ALL & ~(1 << a)
        elif op is K.IN: one = _in_mask(a)
        elif op is K.ANY: one = ALL if self.flags & _re.S else ALL & ~(1 << 10)
        if one is not None: return nxt(i + 1, g) if i < len(s) and E.test(s.c[i], one) else None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = a; hi = None if hi is K.MAXREPEAT else hi; sub = list(sub)

            def rep(n, i, h, last):
                more = lambda: self._m(s, sub, 0, i, h, lambda j, h2: rep(n + 1, j, h2, i)) if (hi is None or n < hi) and not (n > lo and last == i) else None
                if n < lo: return more()
                if op is K.MIN_REPEAT: return nxt(i, h) or more()
                return more() or nxt(i, h)
            return rep(0, i, g, -1)
        if op is K.POSSESSIVE_REPEAT or op is K.ATOMIC_GROUP:
            sub = list(a) if op is K.ATOMIC_GROUP else [(K.MAX_REPEAT, a)]
            r = self._m(s, sub, 0, i, g, lambda j, h: (j, h)); return nxt(*r) if r else None
        if op is K.SUBPATTERN:
            n, add, dele, sub = a
            if dele or add & ~_re.S: raise Stop("regex flags")
            if add: sub = _dotall(sub)
            return self._m(s, list(sub), 0, i, g, lambda j, h: nxt(j, h if n is None else {**h, n: (i, j)}))
        if op is K.BRANCH:
            for b in a[1]:
                r = self._m(s, list(b), 0, i, g, nxt)
                if r: return r
            return None
        if op is K.GROUPREF:
            p = g.get(a)
            if p is None: return None
            w = s[p[0]:p[1]]; return nxt(i + len(w), g) if s.at(w, i) else None
        if op in (K.ASSERT, K.ASSERT_NOT):
            if a[0] < 0:
                raise Stop("regex lookbehind") if len(list(a[1])) != 1 or a[1].getwidth() != (1, 1) else None
            r = self._m(s, list(a[1]), 0, i + (a[0] if a[0] < 0 else 0), g, lambda j, h: (j, h)) if a[0] > 0 or i > 0 else None
            return nxt(i, g) if bool(r) == (op is K.ASSERT) else None
        if op is K.AT:
            ml = self.flags & _re.M; nl = lambda j: E.test(s.c[j], 1 << 10)
            w = lambda j: 0 <= j < len(s) and E.test(s.c[j], WORD)
            ok = {K.AT_BEGINNING: lambda: i == 0 or bool(ml) and nl(i - 1), K.AT_BEGINNING_STRING: lambda: i == 0, K.AT_END_STRING: lambda: i == len(s),
                  K.AT_END: lambda: i == len(s) or (nl(i) if ml or i == len(s) - 1 else False), K.AT_BOUNDARY: lambda: w(i - 1) != w(i), K.AT_NON_BOUNDARY: lambda: w(i - 1) == w(i)}[a]()
            return nxt(i, g) if ok else None
        raise Stop("regex node %s" % op)

    def _at(self, s, i, full=False):
        r = self._m(s, self.t, 0, i, {}, lambda j, g: (j, g) if not full or j == len(s) else None)
        return Match(s, i, r[0], r[1], self.groups_n, self.names) if r else None

    def match(self, s, i=0): return self._at(S_(s), i)
    def fullmatch(self, s): return self._at(S_(s), 0, True)

    def search(self, s, i=0):
        s = S_(s)
        for j in range(i, len(s) + 1):
            m = self._at(s, j)
            if m: return m
        return None

    def finditer(self, s):
        s = S_(s); out = []; i = 0
        while i <= len(s):
            m = self.search(s, i)
            if not m: break
            out.append(m); i = m.e if m.e > m.b else m.e + 1
        return out

    def findall(self, s): return [m.group() if self.groups_n == 0 else (m.groups(S())[0] if self.groups_n == 1 else m.groups(S())) for m in self.finditer(s)]

    def split(self, s, maxsplit=0):
        s = S_(s); out = []; b = 0
        for m in self.finditer(s)[:maxsplit or None]: out.append(s[b:m.b]); out += m.groups(); b = m.e
        return out + [s[b:]]

    def sub(self, r, s, count=0):
        s = S_(s); out = []; b = 0
        for m in self.finditer(s)[:count or None]:
            if callable(r): t = r(m)
            else:
                t = S(); q = str(r); i = 0
                while i < len(q):
                    if q[i] == "\\" and i + 1 < len(q):
                        if q[i + 1].isdigit(): t += m.group(builtins.int(q[i + 1])) or S(); i += 2; continue
                        if q[i + 1] == "g":
                            e = q.index(">", i); k = q[i + 3:e]; t += m.group(builtins.int(k) if k.isdigit() else k) or S(); i = e + 1; continue
                        t += {"n": "\n", "t": "\t"}.get(q[i + 1], q[i + 1]); i += 2; continue
                    t += q[i]; i += 1
            out.append(s[b:m.b]); out.append(S_(t)); b = m.e
        return S().join(out + [s[b:]])


def _mod(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); return m


_pats = {}


def _compile(p, flags=0):
    if isinstance(p, Pattern): return p
    if all(not isinstance(c, C) for c in S_(p).c):
        k = (str(p), builtins.int(flags))
        if k not in _pats: _pats[k] = Pattern(p, flags)
        return _pats[k]
    return Pattern(p, flags)


def _escape(s):
    out = S(); sp = mask_of("".join(c for c in map(chr, range(128)) if _re.escape(c) != c))
    for c in S_(s).c: out += S((92, c)) if E.test(c, sp) else S((c,))
    return out


re = _mod("re", compile=_compile, escape=_escape, Pattern=Pattern, Match=Match, error=_re.error, **{f: getattr(_re, f) for f in ("M", "MULTILINE", "S", "DOTALL", "I", "IGNORECASE", "A", "ASCII", "X", "VERBOSE", "U")})
for _n in ("match", "fullmatch", "search", "finditer", "findall", "split"): setattr(re, _n, (lambda n: lambda p, s, *a, flags=0: getattr(_compile(p, flags), n)(s, *a))(_n))
re.sub = lambda p, r, s, count=0, flags=0: _compile(p, flags).sub(r, s, count)


def _fn(name, pat): return bool(_compile(_fnmatch.translate(str(pat))).match(S_(name)))


fnmatch = _mod("fnmatch", fnmatchcase=_fn, fnmatch=_fn, filter=lambda ns, p: [n for n in ns if _fn(n, p)], translate=lambda p: S(_fnmatch.translate(str(p))))


def In(a, b):
    return a in (S(b) if isinstance(b, builtins.str) else b)


def F(*parts):
    """An f-string: literal parts and (value, conversion, format) triples."""
    out = S()
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if isinstance(v, I) and not spec: out += S((0x200000,)); continue  # a number in a message: some text, equal to no other
            if conv == 114: v = S(repr(v))
            out += v if isinstance(v, S) and not spec else S(type(v).__format__(v, str(spec)) if spec else type(v).__str__(v))
        else: out += p
    return out


class Wrap(ast.NodeTransformer):
    def visit_Expr(self, n):
        return n if isinstance(n.value, ast.Constant) and isinstance(n.value.value, builtins.str) else self.generic_visit(n)

    def visit_Constant(self, n):
        return ast.copy_location(ast.Call(ast.Name("sx_S_", ast.Load()), [n], []), n) if isinstance(n.value, builtins.str) else n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.copy_location(ast.Call(ast.Name("sx_in_", ast.Load()), [n.left, n.comparators[0]], []), n)
            return c if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
        return n

    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target); n.value = self.visit(n.value) if n.value else None; return n

    def visit_arg(self, n): return n

    def visit_FunctionDef(self, n):
        r, n.returns = n.returns, None; self.generic_visit(n); n.returns = r; return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("sx_F_", ast.Load()), parts, []), n)


_loaded = {}


def load(path, symbolic, dirs):
    """Executes the Python file at path as a module, its text transformed for symbolic strings when symbolic."""
    key = (path, symbolic)
    if key in _loaded: return _loaded[key]
    name = ("sx_" if symbolic else "nat_") + os.path.basename(path)[:-3]
    m = types.ModuleType(name); m.__file__ = path; sys.modules[name] = m; _loaded[key] = m
    tree = ast.parse(open(path).read(), path)
    real = builtins.__import__

    def imp(n, g=None, l=None, fl=(), level=0):
        for d in dirs:
            if os.path.exists(d + "/" + n + ".py"): return load(d + "/" + n + ".py", symbolic, dirs)
        if symbolic and n == "re": return re
        if symbolic and n == "fnmatch": return fnmatch
        return real(n, g, l, fl, level)
    b = dict(builtins.__dict__); b["__import__"] = imp; b["print"] = lambda *a, **k: None
    if symbolic:
        tree = ast.fix_missing_locations(Wrap().visit(tree)); b["str"] = Str; b["int"] = Int; m.__dict__.update(sx_S_=S, sx_F_=F, sx_in_=In)
        b["ord"] = lambda s: E.value(S_(s).c[0]); b["chr"] = lambda c: S(builtins.chr(c)); b["repr"] = lambda x: S(repr(x)); b["format"] = lambda x, s="": S(format(x, str(s)))
        b["getattr"] = lambda o, n, *d: getattr(o, str(n), *d); b["hasattr"] = lambda o, n: hasattr(o, str(n)); b["setattr"] = lambda o, n, v: setattr(o, str(n), v)
    m.__dict__["__builtins__"] = b
    saved = list(sys.path); exec(compile(tree, path, "exec"), m.__dict__); sys.path[:] = saved
    return m


# -- what a harness sees
class Violation(Exception):
    pass


class Sx:
    """The harness interface; values is None when symbolic, else the concrete inputs by name."""
    def __init__(self, values=None):
        self.values = values; self.checks = 0; self.covers = set(); self.traces = []; self.decl = []

    def _declare(self, name, v, con):
        if name not in _declared:
            _declared.add(name)
            t = E.trail
            for _ in t: E.s.pop()
            E.s.add(con)
            for e, d, _, _ in t: E.s.push(); E.s.add(e if d else z3.Not(e))
            E.mod = None
        self.decl.append((name, v))

    def str(self, n, name, alphabet=None):
        name = builtins.str(name)
        if self.values is not None: return self.values[name]
        dom = ALL if alphabet is None else mask_of(builtins.str(alphabet)); cs = []
        for i in range(n):
            k = "%s[%d]" % (name, i); c = _chars.get((k, dom))
            if c is None: c = _chars[k, dom] = C(k, dom)
            if k not in _declared:
                ors = [c.v == j for j in range(128) if dom >> j & 1] if dom != ALL else [z3.ULT(c.v, 128)]
                self._declare(k, None, z3.Or(ors))
            cs.append(c)
        s = S(cs); self.decl.append((name, s)); return s

    def int(self, lo, hi, name):
        name = builtins.str(name)
        if self.values is not None: return self.values[name]
        v = z3.Int(name)
        if name not in _declared: self._declare(name, None, z3.And(v >= lo, v <= hi))
        i = I(v); self.decl.append((name, i)); return i

    def choice(self, xs, name):
        return xs[builtins.int(self.int(0, len(xs) - 1, name))]

    def flag(self, name): return bool(self.int(0, 1, name))

    def assume(self, c):
        if not c: raise Infeasible()

    def check(self, c, msg):
        self.checks += 1
        if not c: raise Violation(builtins.str(msg))

    def real(self, s): return builtins.str(s)
    def equal(self, a, b, msg): self.check(a == b, msg)
    def cover(self, name): self.covers.add(builtins.str(name))
    def trace(self, x): self.traces.append(x)

    def inputs(self):
        """The inputs of this path, from the solver's model."""
        m = E.model(); out = {}; ev = lambda v: m.eval(v, model_completion=True).as_long()
        for k, v in self.decl:
            if isinstance(v, I): out[k] = ev(v.v)
            elif isinstance(v, S): out[k] = "".join(chr(ev(c.v)) for c in v.c)
        return out

    def shown(self):
        m = E.model()

        def show(x):
            if isinstance(x, S): return "".join(chr(m.eval(c.v, model_completion=True).as_long() if isinstance(c, C) else c) for c in x.c)
            if isinstance(x, I): return m.eval(x.v, model_completion=True).as_long()
            if isinstance(x, dict): return {show(k): show(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)): return [show(v) for v in x]
            return x
        return [show(x) for x in self.traces]


_declared = set(); _chars = {}


def reset():
    E.__init__(); _declared.clear(); _chars.clear()
