"""Derives the constants the published standards define (FIPS 180-4, RFC 1321) from their definitions -> harness/ref_const.h."""
import math
from decimal import Decimal, getcontext
getcontext().prec = 80


def iroot(n, k):
    lo, hi = 0, 1
    while hi ** k <= n:
        hi *= 2
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= n: lo = m
        else: hi = m
    return lo


def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r


def frac(p, k, bits):
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)


def arr(t, name, v, w):
    return "inline constexpr %s %s[%d] = {%s};\n" % (t, name, len(v), ", ".join("0x%0*xU%s" % (w, x, "LL" if w == 16 else "") for x in v))


def md5_t(i):
    x = Decimal(i) % (2 * Decimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899"))
    s, t, n = Decimal(0), x, 1
    while abs(t) > Decimal(10) ** -60:
        s += t; t = -t * x * x / ((n + 1) * (n + 2)); n += 2
    return int(abs(s) * 2 ** 32)


P = primes(80)
o = "// Generated by tools/mkconst.py from the definitions in FIPS 180-4 and RFC 1321.\n#pragma once\n#include <cstdint>\nnamespace ref {\n"
o += arr("uint32_t", "K256", [frac(p, 3, 32) for p in P[:64]], 8)
o += arr("uint64_t", "K512", [frac(p, 3, 64) for p in P], 16)
o += arr("uint32_t", "H256", [frac(p, 2, 32) for p in P[:8]], 8)
o += arr("uint32_t", "H224", [frac(p, 2, 64) & 0xffffffff for p in P[8:16]], 8)
o += arr("uint64_t", "H512", [frac(p, 2, 64) for p in P[:8]], 16)
o += arr("uint64_t", "H384", [frac(p, 2, 64) for p in P[8:16]], 16)
o += arr("uint32_t", "MD5T", [md5_t(i) for i in range(1, 65)], 8)
o += "}\n"
open(__file__.rsplit("/", 2)[0] + "/harness/ref_const.h", "w").write(o)
