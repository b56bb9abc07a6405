#include "term.h"
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <algorithm>
#include <bit>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>

namespace sx {
std::vector<VarInfo> gVars;
std::vector<T> gTerms;

const char* opName(Op o) {
  static const char* n[] = {"const","var","sum","add","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr",
    "concat","extract","sext","ite","eq","ult","slt","fadd","fsub","fmul","fdiv","fsqrt","fconv","sitofp","uitofp","fptosi","fptoui","fround"};
  return n[(int)o];
}

namespace {
// ---- arena
char* gArena = nullptr; size_t gLeft = 0;
void* alloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (n > gLeft) { size_t sz = std::max<size_t>(n, 1 << 22); gArena = (char*)malloc(sz); gLeft = sz; }
  void* p = gArena; gArena += n; gLeft -= n; return p;
}
// ---- hash-cons table
std::vector<T> gTab; size_t gCount = 0;
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; return h; }
uint64_t hashOf(Op op, unsigned w, uint64_t c, T const* a, unsigned n, const uint64_t* k, const APInt* big) {
  uint64_t h = mix(0x1234567 + (int)op, w);
  h = mix(h, c);
  for (unsigned i = 0; i < n; ++i) { h = mix(h, a[i]->id + 0x55); if (k) h = mix(h, k[i]); }
  if (big) for (unsigned i = 0; i < big->getNumWords(); ++i) h = mix(h, big->getRawData()[i]);
  h ^= h >> 32;
  return h;
}
void grow() {
  size_t n = gTab.empty() ? (1 << 16) : gTab.size() * 2;
  std::vector<T> old; old.swap(gTab); gTab.assign(n, nullptr);
  for (T t : old) if (t) { size_t i = t->hash & (n - 1); while (gTab[i]) i = (i + 1) & (n - 1); gTab[i] = t; }
}
void analyse(T t);
T intern(Op op, unsigned w, uint64_t c, T const* a, unsigned n, const uint64_t* k = nullptr, const APInt* big = nullptr) {
  uint64_t h = hashOf(op, w, c, a, n, k, big);
  if (gCount * 2 >= gTab.size()) grow();
  size_t m = gTab.size() - 1, i = h & m;
  while (T t = gTab[i]) {
    if (t->hash == h && t->op == op && t->w == w && t->c == c && t->n == n && !memcmp(t->a, a, n * sizeof(T)) &&
        (!k || !memcmp(t->k, k, n * 8)) && (!big || *big == *t->big)) return t;
    i = (i + 1) & m;
  }
  T t = (T)alloc(sizeof(Term));
  t->op = op; t->w = w; t->n = n; t->id = gTerms.size(); t->hash = h; t->c = c; t->big = nullptr; t->k = nullptr;
  t->a = (T*)alloc(n * sizeof(T) + 1);
  if (n) memcpy(t->a, a, n * sizeof(T));
  if (k) { t->k = (uint64_t*)alloc(n * 8); memcpy(t->k, k, n * 8); }
  if (big) t->big = new APInt(*big);
  t->depth = 0; t->hasUndef = 0;
  for (unsigned j = 0; j < n; ++j) { t->depth = std::max(t->depth, a[j]->depth + 1); t->hasUndef |= a[j]->hasUndef; }
  if (op == Op::Var) t->hasUndef = gVars[c].undef;
  gTerms.push_back(t);
  gTab[i] = t; ++gCount;
  analyse(t);
  return t;
}
uint64_t bitsUpTo(uint64_t umax) { return umax ? maskw(64 - std::countl_zero(umax)) : 0; }

void analyse(T t) {
  unsigned w = t->w;
  if (w > 64) { t->kz = t->ko = 0; t->umin = 0; t->umax = ~0ULL; return; }
  uint64_t M = maskw(w), kz = 0, ko = 0, lo = 0, hi = M;
  switch (t->op) {
    case Op::Const: ko = t->c; kz = ~t->c & M; lo = hi = t->c; break;
    case Op::Sum: {
      __uint128_t mx = t->c, mn = t->c; bool ok = true; unsigned tz = t->c ? std::countr_zero(t->c) : 64;
      for (unsigned i = 0; i < t->n; ++i) {
        mx += (__uint128_t)t->k[i] * t->a[i]->umax; mn += (__uint128_t)t->k[i] * t->a[i]->umin;
        if (mx > M) ok = false;
        if (!ok) { mx = 0; mn = 0; }
        unsigned atz = std::countr_one(t->a[i]->kz);
        tz = std::min<unsigned>(tz, std::min(64u, atz + (unsigned)std::countr_zero(t->k[i])));
      }
      if (ok) { lo = mn; hi = mx; }
      else if (t->c) {
        // x + (-c) with x >= c : subtract constant
        __uint128_t mx2 = 0, mn2 = 0; bool ok2 = true;
        for (unsigned i = 0; i < t->n; ++i) { mx2 += (__uint128_t)t->k[i] * t->a[i]->umax; mn2 += (__uint128_t)t->k[i] * t->a[i]->umin; if (mx2 > M) { ok2 = false; break; } }
        uint64_t neg = (-t->c) & M;
        if (ok2 && mn2 >= neg) { lo = mn2 - neg; hi = mx2 - neg; }
      }
      if (tz) kz |= maskw(std::min(tz, w));
      break;
    }
    case Op::Mul: {
      __uint128_t mx = (__uint128_t)t->a[0]->umax * t->a[1]->umax;
      if (mx <= M) { hi = mx; lo = t->a[0]->umin * t->a[1]->umin; }
      unsigned tz = std::countr_one(t->a[0]->kz) + std::countr_one(t->a[1]->kz);
      kz |= maskw(std::min(tz, w)); if (tz == 0) {}
      if (tz == 0) kz = 0;
      break;
    }
    case Op::UDiv: if (t->a[1]->umin) { hi = t->a[0]->umax / t->a[1]->umin; lo = t->a[0]->umin / t->a[1]->umax; } break;
    case Op::URem: hi = t->a[0]->umax; if (t->a[1]->umin) hi = std::min(hi, t->a[1]->umax - 1); break;
    case Op::And: kz = t->a[0]->kz | t->a[1]->kz; ko = t->a[0]->ko & t->a[1]->ko; hi = std::min(t->a[0]->umax, t->a[1]->umax); break;
    case Op::Or: kz = t->a[0]->kz & t->a[1]->kz; ko = t->a[0]->ko | t->a[1]->ko; lo = std::max(t->a[0]->umin, t->a[1]->umin); break;
    case Op::Xor: {
      kz = M; ko = 0;
      for (unsigned i = 0; i < t->n; ++i) {
        uint64_t z = t->a[i]->kz, o = t->a[i]->ko;
        uint64_t nz = (kz & z) | (ko & o), no = (kz & o) | (ko & z);
        kz = nz; ko = no;
      }
      break;
    }
    case Op::Not: kz = t->a[0]->ko; ko = t->a[0]->kz; lo = M - t->a[0]->umax; hi = M - t->a[0]->umin; break;
    case Op::LShr: hi = t->a[0]->umax; break;
    case Op::Concat: {
      lo = hi = 0;
      for (unsigned i = 0; i < t->n; ++i) {
        unsigned aw = t->a[i]->w;
        auto sh = [&](uint64_t v) { return aw >= 64 ? 0 : v << aw; };
        kz = sh(kz) | t->a[i]->kz; ko = sh(ko) | t->a[i]->ko; lo = sh(lo) | t->a[i]->umin; hi = sh(hi) | t->a[i]->umax;
      }
      break;
    }
    case Op::Extract: {
      T a = t->a[0];
      if (a->w <= 64) {
        kz = (a->kz >> t->c) & M; ko = (a->ko >> t->c) & M;
        uint64_t h2 = a->umax >> t->c;
        if (h2 <= M) { hi = h2; lo = a->umin >> t->c; }
      }
      break;
    }
    case Op::SExt: {
      T a = t->a[0]; uint64_t s = 1ULL << (a->w - 1), ext = M & ~maskw(a->w);
      kz = a->kz; ko = a->ko;
      if (a->kz & s) { kz |= ext; lo = a->umin; hi = a->umax; } else if (a->ko & s) ko |= ext;
      break;
    }
    case Op::Ite: kz = t->a[1]->kz & t->a[2]->kz; ko = t->a[1]->ko & t->a[2]->ko;
      lo = std::min(t->a[1]->umin, t->a[2]->umin); hi = std::max(t->a[1]->umax, t->a[2]->umax); break;
    default: break;
  }
  // combine
  kz &= M; ko &= M;
  kz |= M & ~bitsUpTo(hi);
  lo = std::max(lo, ko); hi = std::min(hi, M & ~kz);
  // common leading bits of lo and hi are known
  if (lo <= hi) {
    uint64_t diff = lo ^ hi; uint64_t pre = diff ? (M & ~bitsUpTo(diff)) : M;
    ko |= lo & pre; kz |= ~lo & pre & M;
  }
  t->kz = kz; t->ko = ko; t->umin = lo; t->umax = hi;
}
T gSmallConst[65][257];
}  // namespace

void initTerms() { gTerms.reserve(1 << 20); }

T mkConst(uint64_t v, unsigned w) {
  if (w > 64) return mkConstBig(APInt(w, v));
  v &= maskw(w);
  if (v < 257) { T& s = gSmallConst[w][v]; if (!s) s = intern(Op::Const, w, v, nullptr, 0); return s; }
  return intern(Op::Const, w, v, nullptr, 0);
}
T mkConstBig(const APInt& v) {
  if (v.getBitWidth() <= 64) return mkConst(v.getZExtValue(), v.getBitWidth());
  return intern(Op::Const, v.getBitWidth(), 0, nullptr, 0, nullptr, &v);
}
APInt constVal(T t) { return t->w <= 64 ? APInt(t->w, t->c) : *t->big; }
T mkVar(const std::string& name, unsigned w, bool undef) {
  assert(w <= 64);
  gVars.push_back({name, w, undef});
  return intern(Op::Var, w, gVars.size() - 1, nullptr, 0);
}
static T mk1(Op op, unsigned w, T a, uint64_t c = 0) { return intern(op, w, c, &a, 1); }
static T mk2(Op op, unsigned w, T a, T b, uint64_t c = 0) { T x[2] = {a, b}; return intern(op, w, c, x, 2); }
static bool allOnes(T t) { return t->isConst() && (t->w <= 64 ? t->c == maskw(t->w) : t->big->isAllOnes()); }
static bool isZero(T t) { return t->isConst() && (t->w <= 64 ? t->c == 0 : t->big->isZero()); }
static bool isOne(T t) { return t->isConst() && (t->w <= 64 ? t->c == 1 : t->big->isOne()); }

// ---------------------------------------------------------------- linear sums (w<=64)
static constexpr unsigned kSumCap = 4000, kEqCap = 6;
struct Lin { uint64_t c = 0; std::vector<std::pair<T, uint64_t>> t; };
// concat(extract(x, w-1-k..0), 0_k)  ==  x << k
static bool asShl(T t, T& x, unsigned& k) {
  if (t->op != Op::Concat || t->n != 2 || !isZero(t->a[1])) return false;
  T e = t->a[0]; k = t->a[1]->w;
  if (e->op == Op::Extract && e->c == 0 && e->a[0]->w == t->w) { x = e->a[0]; return true; }
  return false;
}
static void addLin(Lin& L, T t, uint64_t k, unsigned w) {
  uint64_t M = maskw(w); k &= M;
  if (!k) return;
  if (t->isConst()) { L.c = (L.c + k * t->c) & M; return; }
  if (t->op == Op::Sum) {
    L.c = (L.c + k * t->c) & M;
    if (L.t.empty()) { for (unsigned i = 0; i < t->n; ++i) { uint64_t q = (k * t->k[i]) & M; if (q) L.t.push_back({t->a[i], q}); } return; }  // operands of a Sum are atoms
    for (unsigned i = 0; i < t->n; ++i) addLin(L, t->a[i], k * t->k[i], w);
    return;
  }
  if (t->op == Op::Not && w > 1) {  // ~x = -x - 1
    L.c = (L.c - k) & M; addLin(L, t->a[0], -k, w); return;
  }
  T x; unsigned s;
  if (asShl(t, x, s)) { addLin(L, x, k << s, w); return; }
  for (auto& p : L.t) if (p.first == t) { p.second = (p.second + k) & M; return; }
  L.t.push_back({t, k});
}
static T mkShlC(T a, unsigned k) {
  if (k == 0) return a;
  if (k >= a->w) return mkConst(0, a->w);
  return mkConcat2(mkExtract(a, 0, a->w - k), mkConst(0, k));
}
static T finishLin(Lin& L, unsigned w) {
  auto& v = L.t;
  v.erase(std::remove_if(v.begin(), v.end(), [](auto& p) { return p.second == 0; }), v.end());
  if (v.empty()) return mkConst(L.c, w);
  if (v.size() == 1) {
    uint64_t k = v[0].second;
    if (L.c == 0) {
      if (k == 1) return v[0].first;
      if (std::has_single_bit(k)) return mkShlC(v[0].first, std::countr_zero(k));
    }
    if (k == maskw(w) && L.c == maskw(w) && w > 1) return mkNot(v[0].first);  // -x-1 = ~x
  }
  // disjoint bits: addition is or
  if (v.size() <= 2) {
    T parts[3]; unsigned np = 0; bool ok = true; uint64_t used = 0;
    for (auto& p : v) {
      if (!std::has_single_bit(p.second)) { ok = false; break; }
      T q = mkShlC(p.first, std::countr_zero(p.second));
      uint64_t may = maskw(w) & ~q->kz;
      if (may & used) { ok = false; break; }
      used |= may; parts[np++] = q;
    }
    if (ok && (L.c & used)) ok = false;
    if (ok && np + (L.c != 0) >= 2) {
      // only when structural segments exist, to keep sums like i+1 linear
      bool seg = true;
      for (unsigned i = 0; i < np; ++i) if (parts[i]->op != Op::Concat) seg = false;
      if (L.c && np == 1 && parts[0]->op == Op::Concat) {
        // require the constant to live in constant segments
        unsigned pos = w; uint64_t cm = 0;
        for (unsigned i = 0; i < parts[0]->n; ++i) { pos -= parts[0]->a[i]->w; if (isZero(parts[0]->a[i])) cm |= maskw(parts[0]->a[i]->w) << pos; }
        seg = (L.c & ~cm) == 0;
        // keep small linear offsets (zext(x)*k + c) linear
        if (seg && parts[0]->n == 2 && isZero(parts[0]->a[0])) seg = false;
      }
      if (seg && np >= 1) {
        T r = parts[0];
        if (np == 2) r = mkOr(r, parts[1]);
        if (L.c) r = mkOr(r, mkConst(L.c, w));
        return r;
      }
    }
  }
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
  llvm::SmallVector<T, 8> a; llvm::SmallVector<uint64_t, 8> k;
  for (auto& p : v) { a.push_back(p.first); k.push_back(p.second); }
  return intern(Op::Sum, w, L.c, a.data(), a.size(), k.data());
}
static T linComb(T a, uint64_t ka, T b, uint64_t kb) {
  unsigned w = a->w;
  auto cnt = [](T t) { return t->op == Op::Sum ? t->n : t->isConst() ? 0u : 1u; };
  Lin L;
  if (cnt(a) + cnt(b) <= kSumCap) { addLin(L, a, ka, w); addLin(L, b, kb, w); }
  else {
    // avoid blow-up: treat the larger operand as an atom, but let constants move
    auto addAtom = [&](T t, uint64_t k) {
      if (t->op == Op::Sum && t->c && t->n >= 1) {
        Lin in; for (unsigned i = 0; i < t->n; ++i) in.t.push_back({t->a[i], t->k[i]});
        T body = finishLin(in, w);
        L.c = (L.c + k * t->c) & maskw(w); k &= maskw(w);
        for (auto& p : L.t) if (p.first == body) { p.second = (p.second + k) & maskw(w); return; }
        L.t.push_back({body, k});
      } else if (t->op == Op::Sum) {
        k &= maskw(w);
        for (auto& p : L.t) if (p.first == t) { p.second = (p.second + k) & maskw(w); return; }
        L.t.push_back({t, k});
      } else addLin(L, t, k, w);
    };
    if (cnt(a) >= cnt(b)) { addAtom(a, ka); if (cnt(b) + 1 <= kSumCap) addLin(L, b, kb, w); else addAtom(b, kb); }
    else { addAtom(b, kb); if (cnt(a) + 1 <= kSumCap) addLin(L, a, ka, w); else addAtom(a, ka); }
  }
  return finishLin(L, w);
}
T mkAdd(T a, T b) {
  assert(a->w == b->w);
  if (a->w == 1) return mkXor(a, b);
  if (a->isConst() && b->isConst()) return mkConstBig(constVal(a) + constVal(b));
  if (isZero(a)) return b;
  if (isZero(b)) return a;
  if (a->w <= 64) return linComb(a, 1, b, 1);
  if (a->id > b->id) std::swap(a, b);
  if (b->isConst()) std::swap(a, b);
  if (a->isConst() && b->op == Op::Add && b->a[0]->isConst()) return mkAdd(mkConstBig(constVal(a) + constVal(b->a[0])), b->a[1]);
  // narrow: both zero extended and the sum fits: zext(x)+zext(y) with <=64 total bits
  auto eff = [](T t) -> unsigned {  // effective width
    if (t->isConst()) return constVal(t).getActiveBits();
    if (t->op == Op::Concat && isZero(t->a[0])) return t->w - t->a[0]->w;
    return t->w;
  };
  unsigned e = std::max(eff(a), eff(b)) + 1;
  if (e <= 64) return mkZExt(mkAdd(mkTrunc(a, e), mkTrunc(b, e)), a->w);
  return mk2(Op::Add, a->w, a, b);
}
T mkNeg(T a) {
  if (a->w <= 64) { if (a->w == 1) return a; Lin L; addLin(L, a, ~0ULL, a->w); return finishLin(L, a->w); }
  return mkAdd(mkNot(a), mkConst(1, a->w));
}
T mkSub(T a, T b) {
  if (a == b) return mkConst(0, a->w);
  if (a->w == 1) return mkXor(a, b);
  if (a->isConst() && b->isConst()) return mkConstBig(constVal(a) - constVal(b));
  if (isZero(b)) return a;
  if (a->w <= 64) return linComb(a, 1, b, ~0ULL);
  return mkAdd(a, mkNeg(b));
}
T mkMulC(T a, uint64_t k) {
  if (a->w > 64) return mkMul(a, mkConst(k, a->w));
  Lin L; addLin(L, a, k, a->w); return finishLin(L, a->w);
}
T mkMul(T a, T b) {
  assert(a->w == b->w);
  if (a->isConst() && b->isConst()) return mkConstBig(constVal(a) * constVal(b));
  if (a->w == 1) return mkAnd(a, b);
  if (b->isConst()) std::swap(a, b);
  if (isZero(a)) return a;
  if (isOne(a)) return b;
  if (a->isConst() && a->w <= 64) {
    if (b->op == Op::Sum && b->n > 3) { Lin L; L.t.push_back({b, a->c}); return finishLin(L, a->w); }
    return mkMulC(b, a->c);
  }
  if (a->isConst() && constVal(a).isPowerOf2()) return mkShlC(b, constVal(a).logBase2());
  if (!a->isConst() && a->id > b->id) std::swap(a, b);
  return mk2(Op::Mul, a->w, a, b);
}
// A division by a constant with the value of t (through zero extensions and value preserving truncations), or null.
static T asDiv(T t) {
  for (;;) {
    if (t->op == Op::Concat && t->n == 2 && isZero(t->a[0])) { t = t->a[1]; continue; }
    if (t->op == Op::Extract && t->c == 0 && t->a[0]->op == Op::UDiv && t->a[0]->w <= 64 && t->a[0]->umax <= maskw(t->w)) { t = t->a[0]; continue; }
    break;
  }
  return t->op == Op::UDiv && t->w <= 64 && t->a[1]->isConst() ? t : nullptr;
}
T mkUDiv(T a, T b) {
  if (b->isConst() && !isZero(b)) {
    if (a->isConst()) return mkConstBig(constVal(a).udiv(constVal(b)));
    APInt v = constVal(b);
    if (T d = a->w <= 64 ? asDiv(a) : nullptr) {  // (x / c) / d = x / (c * d)
      __uint128_t m = (__uint128_t)d->a[1]->c * b->c;
      if (m > maskw(d->w)) return mkConst(0, a->w);
      T r = mkUDiv(d->a[0], mkConst((uint64_t)m, d->w));
      return r->w > a->w ? mkTrunc(r, a->w) : mkZExt(r, a->w);
    }
    if (v.isPowerOf2()) return mkLShr(a, mkConst(v.logBase2(), a->w));
    if (a->w <= 64 && a->umax < v.getZExtValue()) return mkConst(0, a->w);
    if (a->w <= 64) {  // narrow
      unsigned need = std::max<unsigned>(64 - std::countl_zero(a->umax), v.getActiveBits());
      if (need < a->w && need > 0) return mkZExt(mk2(Op::UDiv, need, mkTrunc(a, need), mkTrunc(b, need)), a->w);
    }
  }
  if (isZero(b)) return mkConstBig(APInt::getAllOnes(a->w));
  return mk2(Op::UDiv, a->w, a, b);
}
T mkURem(T a, T b) {
  if (b->isConst() && !isZero(b)) {
    if (a->isConst()) return mkConstBig(constVal(a).urem(constVal(b)));
    APInt v = constVal(b);
    if (v.isPowerOf2()) { unsigned k = v.logBase2(); return k ? mkZExt(mkExtract(a, 0, k), a->w) : mkConst(0, a->w); }
    if (a->w <= 64 && a->umax < v.getZExtValue()) return a;
    if (a->w <= 64) {
      unsigned need = std::max<unsigned>(64 - std::countl_zero(a->umax), v.getActiveBits());
      if (need < a->w && need > 0) return mkZExt(mk2(Op::URem, need, mkTrunc(a, need), mkTrunc(b, need)), a->w);
    }
  }
  if (isZero(b)) return a;
  return mk2(Op::URem, a->w, a, b);
}
static bool knownNonNeg(T t) { return t->w <= 64 ? (t->kz >> (t->w - 1)) & 1 : (t->op == Op::Concat && isZero(t->a[0])); }
T mkSDiv(T a, T b) {
  if (a->isConst() && b->isConst() && !isZero(b)) return mkConstBig(constVal(a).sdiv(constVal(b)));
  if (knownNonNeg(a) && knownNonNeg(b)) return mkUDiv(a, b);
  if (isOne(b)) return a;
  return mk2(Op::SDiv, a->w, a, b);
}
T mkSRem(T a, T b) {
  if (a->isConst() && b->isConst() && !isZero(b)) return mkConstBig(constVal(a).srem(constVal(b)));
  if (knownNonNeg(a) && knownNonNeg(b)) return mkURem(a, b);
  return mk2(Op::SRem, a->w, a, b);
}

// ---------------------------------------------------------------- bitwise
// segment-wise combination when one side is constant in every segment
static bool segmentable(T t) { return t->op == Op::Concat; }
static T segCombine(Op op, T a, T b);
static unsigned constRuns(T c) {  // number of runs of equal bits
  APInt v = constVal(c); unsigned runs = 1;
  for (unsigned i = 1; i < c->w; ++i) if (v[i] != v[i - 1]) ++runs;
  return runs;
}
static void cutsOf(T t, std::vector<unsigned>& cuts) {
  if (t->op == Op::Concat) { unsigned p = t->w; for (unsigned i = 0; i < t->n; ++i) { p -= t->a[i]->w; if (p) cuts.push_back(p); } }
}
static void constCuts(T c, std::vector<unsigned>& cuts) {
  APInt v = constVal(c);
  for (unsigned i = 1; i < c->w; ++i) if (v[i] != v[i - 1]) cuts.push_back(i);
}
static bool trySeg(Op op, T a, T b, T& out) {
  // conditions
  if (a->isConst() && !b->isConst()) std::swap(a, b);
  bool bc = b->isConst();
  if (!bc && !(segmentable(a) && segmentable(b)) && !((segmentable(a) || segmentable(b)) && op == Op::And)) {
    // x op concat(...): only useful for Or/Xor when one side has const zero segments covering; skip if other is opaque
    if (!(segmentable(a) || segmentable(b))) return false;
  }
  std::vector<unsigned> cuts;
  if (bc) {
    if (op == Op::Xor && !segmentable(a)) return false;
    if (constRuns(b) > (segmentable(a) ? 9 : 5)) return false;
    if (op != Op::Xor) constCuts(b, cuts);
    cutsOf(a, cuts);
    if (op == Op::Xor) {
      // only when a has a constant segment
      bool hasC = false; for (unsigned i = 0; i < a->n; ++i) if (a->a[i]->isConst()) hasC = true;
      if (!hasC) return false;
    }
  } else {
    cutsOf(a, cuts); cutsOf(b, cuts);
  }
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.empty() || cuts.size() > 40) return false;
  cuts.push_back(a->w);
  std::vector<T> segs; unsigned lo = 0;
  std::vector<std::pair<T, T>> prs;
  bool any = false;
  for (unsigned c : cuts) {
    T x = mkExtract(a, lo, c - lo), y = mkExtract(b, lo, c - lo);
    bool cst = x->isConst() || y->isConst();
    if (!cst && !bc) return false;
    if (!cst) return false;
    any |= cst;
    prs.push_back({x, y}); lo = c;
  }
  if (!any) return false;
  for (auto it = prs.rbegin(); it != prs.rend(); ++it) {
    T x = it->first, y = it->second;
    if (x->isConst()) std::swap(x, y);
    T r;
    if (op == Op::And) { if (!(isZero(y) || allOnes(y) || x->isConst())) return false; r = mkAnd(x, y); }
    else if (op == Op::Or) { if (!(isZero(y) || allOnes(y) || x->isConst())) return false; r = mkOr(x, y); }
    else { r = mkXor(x, y); }
    segs.push_back(r);
  }
  out = mkConcat(segs);
  return true;
}
T mkAnd(T a, T b) {
  assert(a->w == b->w);
  if (a == b) return a;
  if (a->isConst() && b->isConst()) return mkConstBig(constVal(a) & constVal(b));
  if (b->isConst()) std::swap(a, b);
  if (isZero(a)) return a;
  if (allOnes(a)) return b;
  if ((a->op == Op::Not && a->a[0] == b) || (b->op == Op::Not && b->a[0] == a)) return mkConst(0, a->w);
  if (a->w <= 64) {
    uint64_t M = maskw(a->w), z = a->kz | b->kz;
    if ((z & M) == M) return mkConst(0, a->w);
    if (a->isConst() && ((~a->c & ~b->kz) & M) == 0) return b;  // mask is a no-op
  }
  if (a->w > 1) { T r; if (trySeg(Op::And, a, b, r)) return r; }
  if (a->isConst() && b->op == Op::And && b->a[0]->isConst()) return mkAnd(mkAnd(a, b->a[0]), b->a[1]);
  if (a->w == 1) {
    // absorption: x & (x|y), x & (x&y), x & (~x | y)
    for (int i = 0; i < 2; ++i, std::swap(a, b)) {
      if (b->op == Op::Or && (b->a[0] == a || b->a[1] == a)) return a;
      if (b->op == Op::And && (b->a[0] == a || b->a[1] == a)) return b;
      T na = a->op == Op::Not ? a->a[0] : nullptr;
      if (b->op == Op::And) for (int j = 0; j < 2; ++j) { T q = b->a[j]; if (q == na || (q->op == Op::Not && q->a[0] == a)) return mkConst(0, 1); }
      if (b->op == Op::Not && b->a[0]->op == Op::And) {  // a & ~(p & q)
        T in = b->a[0];
        for (int j = 0; j < 2; ++j) {
          T q = in->a[j];
          if (q == a) return mkAnd(a, mkNot(in->a[1 - j]));
          if (q == na || (q->op == Op::Not && q->a[0] == a)) return a;
        }
      }
    }
  }
  if (!a->isConst() && a->id > b->id) std::swap(a, b);
  return mk2(Op::And, a->w, a, b);
}
T mkOr(T a, T b) {
  assert(a->w == b->w);
  if (a == b) return a;
  if (a->isConst() && b->isConst()) return mkConstBig(constVal(a) | constVal(b));
  if (b->isConst()) std::swap(a, b);
  if (isZero(a)) return b;
  if (allOnes(a)) return a;
  if ((a->op == Op::Not && a->a[0] == b) || (b->op == Op::Not && b->a[0] == a)) return mkConstBig(APInt::getAllOnes(a->w));
  if (a->w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
  T r; if (trySeg(Op::Or, a, b, r)) return r;
  if (a->op == Op::And && b->op == Op::And)  // disjoint: (x & p) | (~x & q) = (x & p) ^ (~x & q)
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
      T x = a->a[i], y = b->a[j];
      if ((x->op == Op::Not && x->a[0] == y) || (y->op == Op::Not && y->a[0] == x)) return mkXor(a, b);
    }
  if (a->isConst() && b->op == Op::Or && b->a[0]->isConst()) return mkOr(mkOr(a, b->a[0]), b->a[1]);
  if (!a->isConst() && a->id > b->id) std::swap(a, b);
  return mk2(Op::Or, a->w, a, b);
}
T mkNot(T a) {
  if (a->isConst()) return mkConstBig(~constVal(a));
  if (a->op == Op::Not) return a->a[0];
  if (a->op == Op::Concat) {
    std::vector<T> v; for (unsigned i = 0; i < a->n; ++i) v.push_back(mkNot(a->a[i]));
    bool hasC = false; for (unsigned i = 0; i < a->n; ++i) hasC |= a->a[i]->isConst();
    if (hasC) return mkConcat(v);
  }
  if (a->w == 1 && a->op == Op::Ite) return mkIte(a->a[0], mkNot(a->a[1]), mkNot(a->a[2]));
  return mk1(Op::Not, a->w, a);
}
static constexpr unsigned kXorCap = 6000;
T mkXor(T a, T b) {
  assert(a->w == b->w);
  if (a == b) return mkConst(0, a->w);
  if (a->isConst() && b->isConst()) return mkConstBig(constVal(a) ^ constVal(b));
  if (b->isConst()) std::swap(a, b);
  if (isZero(a)) return b;
  if (allOnes(a)) return mkNot(b);
  if (a->op == Op::Not) return mkNot(mkXor(a->a[0], b));
  if (b->op == Op::Not) return mkNot(mkXor(a, b->a[0]));
  if (a->w == 1) {
    // x ^ y as boolean: keep as xor
  } else { T r; if (trySeg(Op::Xor, a, b, r)) return r; }
  // flatten n-ary: operands are sorted by id, equal ones cancel
  auto cnt = [](T t) { return t->op == Op::Xor ? t->n : 1u; };
  llvm::SmallVector<T, 16> v;
  APInt cst(a->w, 0);
  bool fa = a->op == Op::Xor, fb = b->op == Op::Xor;
  if (cnt(a) + cnt(b) > kXorCap) { if (cnt(a) >= cnt(b)) fa = false; else fb = false; }
  T* pa = fa ? a->a : &a; unsigned na = fa ? a->n : 1; T* pb = fb ? b->a : &b; unsigned nb = fb ? b->n : 1;
  auto take = [&](T t) { if (t->isConst()) cst ^= constVal(t); else v.push_back(t); };
  for (unsigned i = 0, j = 0; i < na || j < nb;) {
    if (i < na && pa[i]->isConst()) { take(pa[i++]); continue; }
    if (j < nb && pb[j]->isConst()) { take(pb[j++]); continue; }
    if (j >= nb || (i < na && pa[i]->id < pb[j]->id)) v.push_back(pa[i++]);
    else if (i >= na || pb[j]->id < pa[i]->id) v.push_back(pb[j++]);
    else { ++i; ++j; }
  }
  if (v.size() >= 2) {  // constant pieces of concatenations move to the constant; disjoint ones are put together
    auto hasC = [](T t) { if (t->op != Op::Concat) return false; for (unsigned i = 0; i < t->n; ++i) if (t->a[i]->isConst()) return true; return false; };
    llvm::SmallVector<T, 8> part; bool ch = false;
    for (T t : v) if (hasC(t)) { part.push_back(t); for (unsigned i = 0; i < t->n; ++i) ch |= t->a[i]->isConst() && !isZero(t->a[i]); }
    if (part.size() >= 2 || ch) {
      llvm::SmallVector<T, 8> orig = part;
      for (T& t : part) {
        std::vector<T> z; unsigned p = t->w;
        for (unsigned i = 0; i < t->n; ++i) { p -= t->a[i]->w; if (t->a[i]->isConst()) { cst ^= constVal(t->a[i]).zext(t->w).shl(p); z.push_back(mkConst(0, t->a[i]->w)); } else z.push_back(t->a[i]); }
        t = mkConcat(z);
      }
      for (bool again = true; again;) {
        again = false;
        for (unsigned i = 0; i < part.size() && !again; ++i) for (unsigned j = i + 1; j < part.size(); ++j) {
          T r = nullptr;
          if (part[i] == part[j]) { part.erase(part.begin() + j); part.erase(part.begin() + i); again = true; break; }
          if (part[i]->op == Op::Concat && part[j]->op == Op::Concat && trySeg(Op::Xor, part[i], part[j], r)) { part[i] = r; part.erase(part.begin() + j); again = true; break; }
        }
      }
      std::sort(orig.begin(), orig.end(), [](T x, T y) { return x->id < y->id; }); std::sort(part.begin(), part.end(), [](T x, T y) { return x->id < y->id; });
      if (orig.size() != part.size() || !std::equal(orig.begin(), orig.end(), part.begin())) {
        llvm::SmallVector<T, 16> keep; for (T t : v) if (!hasC(t)) keep.push_back(t);
        for (T t : part) if (!t->isConst()) keep.push_back(t); else cst ^= constVal(t);
        if (keep.empty()) return mkConstBig(cst);
        if (keep.size() == 1) return cst.isZero() ? keep[0] : mkXor(mkConstBig(cst), keep[0]);
        v = keep;
      }
    }
  }
  bool inv = false;
  if (cst.isAllOnes()) { inv = true; cst = APInt(a->w, 0); }
  if (!cst.isZero()) v.push_back(mkConstBig(cst));
  T r;
  if (v.empty()) r = mkConst(0, a->w);
  else if (v.size() == 1) r = v[0];
  else { std::sort(v.begin(), v.end(), [](T x, T y) { return x->id < y->id; }); r = intern(Op::Xor, a->w, 0, v.data(), v.size()); }
  return inv ? mkNot(r) : r;
}
T mkShl(T a, T b) {
  if (b->isConst()) { APInt k = constVal(b); if (k.uge(a->w)) return mkConst(0, a->w); return mkShlC(a, k.getZExtValue()); }
  if (isZero(a)) return a;
  return mk2(Op::Shl, a->w, a, b);
}
T mkLShr(T a, T b) {
  if (b->isConst()) {
    APInt k = constVal(b); if (k.uge(a->w)) return mkConst(0, a->w);
    unsigned s = k.getZExtValue(); if (!s) return a;
    return mkZExt(mkExtract(a, s, a->w - s), a->w);
  }
  if (isZero(a)) return a;
  return mk2(Op::LShr, a->w, a, b);
}
T mkAShr(T a, T b) {
  if (knownNonNeg(a)) return mkLShr(a, b);
  if (b->isConst()) {
    APInt k = constVal(b); unsigned s = k.uge(a->w) ? a->w - 1 : k.getZExtValue(); if (!s) return a;
    return mkSExt(mkExtract(a, s, a->w - s), a->w);
  }
  return mk2(Op::AShr, a->w, a, b);
}
T mkZExt(T a, unsigned w) { assert(w >= a->w); return w == a->w ? a : mkConcat2(mkConst(0, w - a->w), a); }
T mkSExt(T a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (a->isConst()) return mkConstBig(constVal(a).sext(w));
  if (knownNonNeg(a)) return mkZExt(a, w);
  if (a->op == Op::SExt) return mkSExt(a->a[0], w);
  if (a->w == 1) return mkIte(a, mkConstBig(APInt::getAllOnes(w)), mkConst(0, w));
  return mk1(Op::SExt, w, a);
}
T mkTrunc(T a, unsigned w) { return mkExtract(a, 0, w); }

T mkConcat2(T hi, T lo) { return mkConcat({hi, lo}); }
static bool mergeAdj(T& hi, T lo) {  // merges lo into hi if possible
  if (hi->isConst() && lo->isConst()) { hi = mkConstBig(constVal(hi).concat(constVal(lo))); return true; }
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w) {
    hi = mkExtract(hi->a[0], lo->c, hi->w + lo->w); return true;
  }
  if (hi->op == Op::Extract && hi->a[0] == lo && hi->c == lo->w) {}
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a[0] == lo->a[0]) {
    hi = mkIte(hi->a[0], mkConcat2(hi->a[1], lo->a[1]), mkConcat2(hi->a[2], lo->a[2])); return true;
  }
  // bits of sext: concat(extract(sext(x),..)) handled by extract of same base
  return false;
}
T mkConcat(const std::vector<T>& in) {
  llvm::SmallVector<T, 16> v; unsigned w = 0;
  std::function<void(T)> push = [&](T t) {
    if (t->op == Op::Concat) { for (unsigned i = 0; i < t->n; ++i) push(t->a[i]); return; }
    if (!v.empty() && mergeAdj(v.back(), t)) {
      // the merged item may itself be a concat or merge backwards
      T m = v.back();
      if (m->op == Op::Concat) { v.pop_back(); for (unsigned i = 0; i < m->n; ++i) push(m->a[i]); }
      else if (v.size() >= 2) { T top = v.pop_back_val(); push(top); }
      return;
    }
    v.push_back(t);
  };
  for (T t : in) { w += t->w; push(t); }
  if (v.size() == 1) return v[0];
  // pieces that are slices, each in its own place, of one word, some of them xor-ed with something
  for (unsigned round = 0, p = w, i = 0; i < v.size() && round < 1; ++i) {
    p -= v[i]->w; T base = nullptr;
    auto cand = [&](T t) { return t->op == Op::Extract && t->a[0]->w == w && t->c == p ? t->a[0] : nullptr; };
    T q = v[i]->op == Op::Not ? v[i]->a[0] : v[i];
    llvm::SmallVector<T, 4> bases;
    if (T c = cand(q)) bases.push_back(c);
    else if (q->op == Op::Xor) { for (unsigned k = 0; k < q->n && bases.size() < 4; ++k) if (T c = cand(q->a[k])) bases.push_back(c); }
    if (bases.empty()) break;
    ++round;
    for (T bs : bases) {
      std::vector<T> rest; unsigned pp = w; bool ok = true;
      for (unsigned k = 0; k < v.size() && ok; ++k) {
        pp -= v[k]->w; T sl = mkExtract(bs, pp, v[k]->w), rr = nullptr;
        if (v[k] == sl) rr = mkConst(0, v[k]->w);
        else if (sl->op != Op::Extract) { ok = false; break; }
        else {
          T x = v[k]->op == Op::Not ? v[k]->a[0] : v[k]; bool has = x == sl;
          if (x->op == Op::Xor) for (unsigned m = 0; m < x->n; ++m) has |= x->a[m] == sl;
          if (!has) { ok = false; break; }
          rr = mkXor(v[k], sl);
        }
        rest.push_back(rr);
      }
      if (ok) return mkXor(bs, mkConcat(rest));
    }
  }
  return intern(Op::Concat, w, 0, v.data(), v.size());
}
static bool structural(T t) { return t->isConst() || t->op == Op::Concat || t->op == Op::SExt; }
// How a slice of t looks: 0 = constant, 1 = whole pieces of a concatenation, 2 = anything else.
static int sliceKind(T t, unsigned lo, unsigned w) {
  if (t->isConst()) return 0;
  if (t->op == Op::SExt) { T x = t->a[0]; return lo + w <= x->w ? (x->isConst() || (lo == 0 && w == x->w) ? 1 : sliceKind(x, lo, w)) : 1; }
  if (t->op != Op::Concat) return t->w <= 64 && (((t->kz | t->ko) >> lo) & maskw(w)) == maskw(w) ? 0 : 2;
  unsigned p = t->w; bool cst = true, whole = true;
  for (unsigned i = 0; i < t->n; ++i) {
    unsigned h = p; p -= t->a[i]->w;
    unsigned l = std::max(p, lo), u = std::min(h, lo + w);
    if (l >= u) continue;
    if (!t->a[i]->isConst()) { cst = false; if (u - l != t->a[i]->w) { int k = t->a[i]->op == Op::Concat || t->a[i]->op == Op::SExt ? 2 : 2; (void)k; whole = false; } }
  }
  return cst ? 0 : whole ? 1 : 2;
}
T mkExtract(T a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w && w > 0);
  if (w == a->w) return a;
  switch (a->op) {
    case Op::Const: return mkConstBig(constVal(a).extractBits(w, lo));
    case Op::Extract: return mkExtract(a->a[0], a->c + lo, w);
    case Op::Concat: {
      unsigned p = a->w; std::vector<T> v;
      for (unsigned i = 0; i < a->n; ++i) {
        unsigned h = p; p -= a->a[i]->w;  // piece covers [p, h)
        unsigned l = std::max(p, lo), u = std::min(h, lo + w);
        if (l < u) v.push_back(mkExtract(a->a[i], l - p, u - l));
      }
      return v.size() == 1 ? v[0] : mkConcat(v);
    }
    case Op::SExt: {
      T x = a->a[0];
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      if (lo < x->w) return mkSExt(mkExtract(x, lo, x->w - lo), w);
      return mkSExt(mkExtract(x, x->w - 1, 1), w);
    }
    case Op::Ite:
      if ((structural(a->a[1]) || a->a[1]->op == Op::Ite) && (structural(a->a[2]) || a->a[2]->op == Op::Ite))
        return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
      break;
    case Op::Not: {
      T x = a->a[0];
      if (sliceKind(x, lo, w) < 2) return mkNot(mkExtract(x, lo, w));
      break;
    }
    case Op::And: case Op::Or: {
      int x = sliceKind(a->a[0], lo, w), y = sliceKind(a->a[1], lo, w);
      if (x == 0 || y == 0 || (x == 1 && y == 1)) {
        T p = mkExtract(a->a[0], lo, w), q = mkExtract(a->a[1], lo, w);
        return a->op == Op::And ? mkAnd(p, q) : mkOr(p, q);
      }
      break;
    }
    case Op::Xor: {
      unsigned other = 0, whole = 0;
      for (unsigned i = 0; i < a->n; ++i) { int k = sliceKind(a->a[i], lo, w); other += k == 2; whole += k == 1; }
      if (other == 0 || (other == 1 && whole == 0)) {
        T r = mkExtract(a->a[0], lo, w);
        for (unsigned i = 1; i < a->n; ++i) r = mkXor(r, mkExtract(a->a[i], lo, w));
        return r;
      }
      break;
    }
    case Op::Sum:
      if (lo == 0) {
        bool st = true; for (unsigned i = 0; i < a->n; ++i) st &= structural(a->a[i]);
        if (st) {
          Lin L; L.c = a->c & maskw(w);
          if (w == 1) { T r = mkConst(a->c & 1, 1); for (unsigned i = 0; i < a->n; ++i) if (a->k[i] & 1) r = mkXor(r, mkExtract(a->a[i], 0, 1)); return r; }
          for (unsigned i = 0; i < a->n; ++i) addLin(L, mkExtract(a->a[i], 0, w), a->k[i], w);
          return finishLin(L, w);
        }
      }
      if (a->umax <= maskw(lo)) return mkConst(0, w);
      break;
    case Op::Mul:
      if (lo == 0 && structural(a->a[0]) && structural(a->a[1])) {
        T x = mkExtract(a->a[0], 0, w), y = mkExtract(a->a[1], 0, w);
        return mkMul(x, y);
      }
      break;
    case Op::Add:
      if (lo == 0) return mkAdd(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
      break;
    default: break;
  }
  if (a->w <= 64) {
    uint64_t M = maskw(w), kz = (a->kz >> lo) & M, ko = (a->ko >> lo) & M;
    if ((kz | ko) == M) return mkConst(ko, w);
  }
  return mk1(Op::Extract, w, a, lo);
}
T mkIte(T c, T a, T b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->a[0], b, a);
  if (a->op == Op::Ite && a->a[0] == c) a = a->a[1];
  if (b->op == Op::Ite && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (a->w == 1) {
    if (a == c) a = mkConst(1, 1);
    if (b == c) b = mkConst(0, 1);
    if (a->isConst(1)) return b->isConst(0) ? c : mkOr(c, b);
    if (a->isConst(0)) return b->isConst(1) ? mkNot(c) : mkAnd(mkNot(c), b);
    if (b->isConst(0)) return mkAnd(c, a);
    if (b->isConst(1)) return mkOr(mkNot(c), a);
  }
  if (b->op == Op::Ite && b->a[1] == a) return mkIte(mkOr(c, b->a[0]), a, b->a[2]);
  T x[3] = {c, a, b};
  return intern(Op::Ite, a->w, 0, x, 3);
}
T mkEq(T a, T b) {
  assert(a->w == b->w);
  if (a == b) return mkBool(true);
  if (a->isConst() && b->isConst()) return mkBool(constVal(a) == constVal(b));
  if (b->isConst()) std::swap(a, b);  // const first
  unsigned w = a->w;
  if (w <= 64) {
    if ((a->ko & b->kz) || (a->kz & b->ko)) return mkBool(false);
    if (a->umin > b->umax || b->umin > a->umax) return mkBool(false);
  }
  if (w == 1) {
    if (a->isConst()) return a->c ? b : mkNot(b);
    return mkNot(mkXor(a, b));
  }
  if (a->isConst()) {
    if (T d = w <= 64 ? asDiv(b) : nullptr) {
      __uint128_t lo = (__uint128_t)a->c * d->a[1]->c, hi = lo + d->a[1]->c; uint64_t M = maskw(d->w);
      if (lo > M) return mkBool(false);
      T ge = mkNot(mkUlt(d->a[0], mkConst((uint64_t)lo, d->w)));
      return hi > M ? ge : mkAnd(ge, mkUlt(d->a[0], mkConst((uint64_t)hi, d->w)));
    }
    if (b->op == Op::Concat) {
      T r = mkBool(true); unsigned p = w;
      for (unsigned i = 0; i < b->n; ++i) { p -= b->a[i]->w; r = mkAnd(r, mkEq(mkExtract(a, p, b->a[i]->w), b->a[i])); if (r->isConst(0)) return r; }
      return r;
    }
    if (b->op == Op::Ite && (b->a[1]->isConst() || b->a[2]->isConst())) return mkIte(b->a[0], mkEq(a, b->a[1]), mkEq(a, b->a[2]));
    if (b->op == Op::Not) return mkEq(mkNot(a), b->a[0]);
    if (b->op == Op::Xor && b->a[b->n - 1]->isConst()) {}
    if (b->op == Op::SExt) {
      T x = b->a[0]; APInt v = constVal(a);
      if (v.trunc(x->w).sext(w) != v) return mkBool(false);
      return mkEq(mkConstBig(v.trunc(x->w)), x);
    }
    if (b->op == Op::Sum) {
      if (b->n == 1) {
        uint64_t k = b->k[0], r = (a->c - b->c) & maskw(w);
        if (k == 1) return mkEq(mkConst(r, w), b->a[0]);
        if (k == maskw(w)) return mkEq(mkConst(-r, w), b->a[0]);
        if (k & 1) { uint64_t inv = k; for (int i = 0; i < 6; ++i) inv *= 2 - k * inv; return mkEq(mkConst(r * inv, w), b->a[0]); }
        // k * x == r without overflow
        __uint128_t mx = (__uint128_t)k * b->a[0]->umax;
        if (mx <= maskw(w)) { if (r % k) return mkBool(false); return mkEq(mkConst(r / k, w), b->a[0]); }
      } else if (b->n == 2 && b->c == 0 && a->c == 0) {
        if (b->k[0] == 1 && b->k[1] == maskw(w)) return mkEq(b->a[0], b->a[1]);
        if (b->k[1] == 1 && b->k[0] == maskw(w)) return mkEq(b->a[0], b->a[1]);
      } else if (b->c) {
        Lin L; for (unsigned i = 0; i < b->n; ++i) L.t.push_back({b->a[i], b->k[i]});
        return mkEq(mkConst(a->c - b->c, w), finishLin(L, w));
      }
    }
  } else {
    if (w <= 64 && (a->op == Op::Sum || b->op == Op::Sum)) {
      auto cnt = [](T t) { return t->op == Op::Sum ? t->n : 1u; };
      if (cnt(a) + cnt(b) <= kEqCap) {
        T d = mkSub(a, b);
        if (d->isConst()) return mkBool(d->c == 0);
        // x + c == x' style cancellation
        if (d->op != Op::Sum || d->n < cnt(a) + cnt(b)) return mkEq(mkConst(0, w), d);
      }
    }
    if (a->op == Op::Concat && b->op == Op::Concat) {
      // leading / trailing equal pieces, or same cut
      if (a->a[0]->isConst() || b->a[0]->isConst() || a->a[0]->w == b->a[0]->w) {
        unsigned k = std::min(a->a[0]->w, b->a[0]->w);
        T hi = mkEq(mkExtract(a, w - k, k), mkExtract(b, w - k, k));
        if (hi->isConst(0)) return hi;
        return mkAnd(hi, mkEq(mkExtract(a, 0, w - k), mkExtract(b, 0, w - k)));
      }
      if (a->a[a->n - 1]->isConst() || b->a[b->n - 1]->isConst()) {
        unsigned k = std::min(a->a[a->n - 1]->w, b->a[b->n - 1]->w);
        T lo = mkEq(mkExtract(a, 0, k), mkExtract(b, 0, k));
        if (lo->isConst(0)) return lo;
        return mkAnd(mkEq(mkExtract(a, k, w - k), mkExtract(b, k, w - k)), lo);
      }
    }
    if (a->op == Op::Not && b->op == Op::Not) return mkEq(a->a[0], b->a[0]);
    if (a->op == Op::SExt && b->op == Op::SExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
    if (a->id > b->id) std::swap(a, b);
  }
  return mk2(Op::Eq, 1, a, b);
}
T mkUlt(T a, T b) {
  assert(a->w == b->w);
  if (a == b) return mkBool(false);
  if (a->isConst() && b->isConst()) return mkBool(constVal(a).ult(constVal(b)));
  if (isZero(b)) return mkBool(false);
  if (a->w <= 64) {
    if (a->umax < b->umin) return mkBool(true);
    if (a->umin >= b->umax) return mkBool(false);
    if (b->isConst(1)) return mkEq(a, mkConst(0, a->w));
    if (isZero(a)) return mkNot(mkEq(b, a));
    if (a->isConst() && a->c == maskw(a->w) - 1) return mkEq(b, mkConst(maskw(a->w), a->w));
    if (b->isConst() && b->c == maskw(a->w)) return mkNot(mkEq(a, b));
  }
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (a->w <= 64 && b->isConst()) {
    if (T d = asDiv(a)) {  // x / c < K
      __uint128_t m = (__uint128_t)b->c * d->a[1]->c;
      return m > maskw(d->w) ? mkBool(true) : mkUlt(d->a[0], mkConst((uint64_t)m, d->w));
    }
    if (a->op == Op::Sum && a->n == 1 && (__uint128_t)a->k[0] * a->a[0]->umax + a->c <= maskw(a->w)) {  // k * x + c < K
      if (a->c >= b->c) return mkBool(false);
      return mkUlt(a->a[0], mkConst((b->c - a->c - 1) / a->k[0] + 1, a->w));
    }
  }
  if (a->w <= 64 && a->isConst()) {
    if (T d = asDiv(b)) {  // K < x / c
      __uint128_t m = ((__uint128_t)a->c + 1) * d->a[1]->c;
      return m > maskw(d->w) ? mkBool(false) : mkNot(mkUlt(d->a[0], mkConst((uint64_t)m, d->w)));
    }
    if (b->op == Op::Sum && b->n == 1 && (__uint128_t)b->k[0] * b->a[0]->umax + b->c <= maskw(b->w)) {  // K < k * x + c
      if (a->c < b->c) return mkBool(true);
      return mkNot(mkUlt(b->a[0], mkConst((a->c - b->c) / b->k[0] + 1, b->w)));
    }
  }
  if (a->op == Op::Not && b->op == Op::Not) return mkUlt(b->a[0], a->a[0]);
  // common leading segment
  auto lead = [](T t) { return t->op == Op::Concat ? t->a[0]->w : t->isConst() ? t->w : 0u; };
  if ((a->op == Op::Concat || a->isConst()) && (b->op == Op::Concat || b->isConst()) && !(a->isConst() && b->isConst())) {
    unsigned k = std::min(lead(a), lead(b));
    if (k && k < a->w) {
      T x = mkExtract(a, a->w - k, k), y = mkExtract(b, a->w - k, k);
      if (x == y) return mkUlt(mkExtract(a, 0, a->w - k), mkExtract(b, 0, a->w - k));
    }
    // common trailing zero segment
    auto last = [](T t) { return t->op == Op::Concat ? t->a[t->n - 1]->w : t->w; };
    k = std::min(last(a), last(b));
    if (k && k < a->w) {
      T x = mkExtract(a, 0, k), y = mkExtract(b, 0, k);
      if (x == y) return mkUlt(mkExtract(a, k, a->w - k), mkExtract(b, k, a->w - k));
      // zext'ed: const low part
      if (a->op == Op::Concat && b->isConst() && isZero(x)) {  // (x<<k) < c  <=>  x < ceil(c / 2^k)
        APInt c = constVal(b); APInt q = c.lshr(k); if (!isZero(y)) q += 1;
        if (!q.isZero() && q.getActiveBits() <= a->w - k) return mkUlt(mkExtract(a, k, a->w - k), mkConstBig(q.trunc(a->w - k)));
      }
    }
  }
  if (a->op == Op::Ite && b->isConst() && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
  if (b->op == Op::Ite && a->isConst() && b->a[1]->isConst() && b->a[2]->isConst()) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
  return mk2(Op::Ult, 1, a, b);
}
T mkSlt(T a, T b) {
  if (a == b) return mkBool(false);
  if (a->isConst() && b->isConst()) return mkBool(constVal(a).slt(constVal(b)));
  if (a->w == 1) return mkAnd(a, mkNot(b));
  bool na = knownNonNeg(a), nb = knownNonNeg(b);
  if (na && nb) return mkUlt(a, b);
  if (a->w <= 64) {
    uint64_t s = 1ULL << (a->w - 1);
    bool ga = a->ko & s, gb = b->ko & s;
    if (ga && nb) return mkBool(true);
    if (na && gb) return mkBool(false);
    if (ga && gb) return mkUlt(a, b);
  }
  if (isZero(b)) return mkExtract(a, a->w - 1, 1);
  if (allOnes(a)) return mkNot(mkExtract(b, b->w - 1, 1));
  if (a->op == Op::SExt && b->isConst()) {
    unsigned iw = a->a[0]->w; APInt v = constVal(b);
    if (v.isSignedIntN(iw)) return mkSlt(a->a[0], mkConstBig(v.trunc(iw)));
    return mkBool(!v.isNegative());
  }
  if (b->op == Op::SExt && a->isConst()) {
    unsigned iw = b->a[0]->w; APInt v = constVal(a);
    if (v.isSignedIntN(iw)) return mkSlt(mkConstBig(v.trunc(iw)), b->a[0]);
    return mkBool(v.isNegative());
  }
  if (a->op == Op::SExt && b->op == Op::SExt && a->a[0]->w == b->a[0]->w) return mkSlt(a->a[0], b->a[0]);
  if (a->op == Op::Ite && b->isConst() && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkSlt(a->a[1], b), mkSlt(a->a[2], b));
  return mk2(Op::Slt, 1, a, b);
}

// ---------------------------------------------------------------- floats
const llvm::fltSemantics& fltSem(unsigned w) {
  switch (w) {
    case 16: return llvm::APFloat::IEEEhalf();
    case 32: return llvm::APFloat::IEEEsingle();
    case 64: return llvm::APFloat::IEEEdouble();
    case 80: return llvm::APFloat::x87DoubleExtended();
    case 128: return llvm::APFloat::IEEEquad();
  }
  abort();
}
static APInt evalFloat(Op op, unsigned w, uint64_t aux, const std::vector<APInt>& a) {
  using llvm::APFloat;
  auto RN = APFloat::rmNearestTiesToEven;
  auto F = [&](const APInt& v) { return APFloat(fltSem(v.getBitWidth()), v); };
  switch (op) {
    case Op::FAdd: { auto x = F(a[0]); x.add(F(a[1]), RN); return x.bitcastToAPInt(); }
    case Op::FSub: { auto x = F(a[0]); x.subtract(F(a[1]), RN); return x.bitcastToAPInt(); }
    case Op::FMul: { auto x = F(a[0]); x.multiply(F(a[1]), RN); return x.bitcastToAPInt(); }
    case Op::FDiv: { auto x = F(a[0]); x.divide(F(a[1]), RN); return x.bitcastToAPInt(); }
    case Op::FConv: { auto x = F(a[0]); bool l; x.convert(fltSem(w), RN, &l); return x.bitcastToAPInt(); }
    case Op::SIToFP: { APFloat x(fltSem(w)); x.convertFromAPInt(a[0], true, RN); return x.bitcastToAPInt(); }
    case Op::UIToFP: { APFloat x(fltSem(w)); x.convertFromAPInt(a[0], false, RN); return x.bitcastToAPInt(); }
    case Op::FPToSI: { llvm::APSInt r(w, false); bool e; F(a[0]).convertToInteger(r, APFloat::rmTowardZero, &e); return r; }
    case Op::FPToUI: { llvm::APSInt r(w, true); bool e; F(a[0]).convertToInteger(r, APFloat::rmTowardZero, &e); return r; }
    case Op::FRound: { auto x = F(a[0]); static const llvm::RoundingMode m[] = {llvm::RoundingMode::TowardNegative, llvm::RoundingMode::TowardPositive, llvm::RoundingMode::TowardZero, llvm::RoundingMode::NearestTiesToEven, llvm::RoundingMode::NearestTiesToAway}; x.roundToIntegral(m[aux]); return x.bitcastToAPInt(); }
    default: fprintf(stderr, "evalFloat: unsupported\n"); abort();
  }
}
T mkFloat(Op op, unsigned w, const std::vector<T>& args, uint64_t aux) {
  bool all = true; for (T t : args) all &= t->isConst();
  if (all && op != Op::FSqrt) { std::vector<APInt> v; for (T t : args) v.push_back(constVal(t)); return mkConstBig(evalFloat(op, w, aux, v)); }
  return intern(op, w, aux, args.data(), args.size());
}

T rebuild(T t, const std::vector<T>& a) {
  switch (t->op) {
    case Op::Const: case Op::Var: return t;
    case Op::Sum: {
      T r = mkConst(t->c, t->w);
      // rebuild left to right, keeping the normal form
      Lin L; L.c = t->c;
      unsigned total = 0; for (T x : a) total += x->op == Op::Sum ? x->n : 1;
      if (total <= kSumCap) { for (unsigned i = 0; i < t->n; ++i) addLin(L, a[i], t->k[i], t->w); return finishLin(L, t->w); }
      for (unsigned i = 0; i < t->n; ++i) r = mkAdd(r, mkMul(mkConst(t->k[i], t->w), a[i]));
      return r;
    }
    case Op::Add: return mkAdd(a[0], a[1]);
    case Op::Mul: return mkMul(a[0], a[1]);
    case Op::UDiv: return mkUDiv(a[0], a[1]);
    case Op::SDiv: return mkSDiv(a[0], a[1]);
    case Op::URem: return mkURem(a[0], a[1]);
    case Op::SRem: return mkSRem(a[0], a[1]);
    case Op::And: return mkAnd(a[0], a[1]);
    case Op::Or: return mkOr(a[0], a[1]);
    case Op::Xor: { T r = a[0]; for (unsigned i = 1; i < t->n; ++i) r = mkXor(r, a[i]); return r; }
    case Op::Not: return mkNot(a[0]);
    case Op::Shl: return mkShl(a[0], a[1]);
    case Op::LShr: return mkLShr(a[0], a[1]);
    case Op::AShr: return mkAShr(a[0], a[1]);
    case Op::Concat: return mkConcat(a);
    case Op::Extract: return mkExtract(a[0], t->c, t->w);
    case Op::SExt: return mkSExt(a[0], t->w);
    case Op::Ite: return mkIte(a[0], a[1], a[2]);
    case Op::Eq: return mkEq(a[0], a[1]);
    case Op::Ult: return mkUlt(a[0], a[1]);
    case Op::Slt: return mkSlt(a[0], a[1]);
    default: return mkFloat(t->op, t->w, a, t->c);
  }
}

std::string termStr(T t, int d) {
  char buf[64];
  if (t->isConst()) { if (t->w <= 64) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)t->c, t->w); return buf; } llvm::SmallString<64> s; t->big->toString(s, 16, false, true); return std::string(s) + ":" + std::to_string(t->w); }
  if (t->op == Op::Var) return gVars[t->c].name + "#" + std::to_string(t->c);
  if (d <= 0) return "t" + std::to_string(t->id);
  std::string s = "(" + std::string(opName(t->op)) + ":" + std::to_string(t->w);
  if (t->op == Op::Extract || t->op == Op::Sum) s += "@" + std::to_string(t->c);
  for (unsigned i = 0; i < t->n; ++i) { s += " "; if (t->op == Op::Sum && t->k[i] != 1) s += std::to_string((int64_t)t->k[i]) + "*"; s += termStr(t->a[i], d - 1); }
  return s + ")";
}

// ---------------------------------------------------------------- evaluation
void Evaluator::compute(T t) {
  auto sm = [&](T x) -> uint64_t { return x->isConst() ? x->c : small_[x->id]; };
  bool wide = t->w > 64;
  for (unsigned i = 0; i < t->n; ++i) wide |= t->a[i]->w > 64;
  bool flt = t->op >= Op::FAdd;
  if (!wide && !flt) {
    uint64_t M = maskw(t->w), r = 0;
    auto sx = [](uint64_t v, unsigned w) -> int64_t { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (t->op) {
      case Op::Const: r = t->c; break;
      case Op::Var: r = m_.get(t->c) & M; break;
      case Op::Sum: r = t->c; for (unsigned i = 0; i < t->n; ++i) r += t->k[i] * sm(t->a[i]); break;
      case Op::Add: r = sm(t->a[0]) + sm(t->a[1]); break;
      case Op::Mul: r = sm(t->a[0]) * sm(t->a[1]); break;
      case Op::UDiv: { uint64_t b = sm(t->a[1]); r = b ? sm(t->a[0]) / b : ~0ULL; break; }
      case Op::URem: { uint64_t b = sm(t->a[1]); r = b ? sm(t->a[0]) % b : sm(t->a[0]); break; }
      case Op::SDiv: { int64_t a = sx(sm(t->a[0]), t->w), b = sx(sm(t->a[1]), t->w); r = b == 0 ? (a < 0 ? 1 : ~0ULL) : b == -1 ? -(uint64_t)a : (uint64_t)(a / b); break; }
      case Op::SRem: { int64_t a = sx(sm(t->a[0]), t->w), b = sx(sm(t->a[1]), t->w); r = b == 0 ? (uint64_t)a : b == -1 ? 0 : (uint64_t)(a % b); break; }
      case Op::And: r = sm(t->a[0]) & sm(t->a[1]); break;
      case Op::Or: r = sm(t->a[0]) | sm(t->a[1]); break;
      case Op::Xor: for (unsigned i = 0; i < t->n; ++i) r ^= sm(t->a[i]); break;
      case Op::Not: r = ~sm(t->a[0]); break;
      case Op::Shl: { uint64_t b = sm(t->a[1]); r = b >= t->w ? 0 : sm(t->a[0]) << b; break; }
      case Op::LShr: { uint64_t b = sm(t->a[1]); r = b >= t->w ? 0 : sm(t->a[0]) >> b; break; }
      case Op::AShr: { uint64_t b = sm(t->a[1]); int64_t a = sx(sm(t->a[0]), t->w); r = a >> (b >= t->w ? t->w - 1 : b); break; }
      case Op::Concat: for (unsigned i = 0; i < t->n; ++i) r = (t->a[i]->w >= 64 ? 0 : r << t->a[i]->w) | sm(t->a[i]); break;
      case Op::Extract: r = sm(t->a[0]) >> t->c; break;
      case Op::SExt: r = sx(sm(t->a[0]), t->a[0]->w); break;
      case Op::Ite: r = sm(t->a[0]) ? sm(t->a[1]) : sm(t->a[2]); break;
      case Op::Eq: r = sm(t->a[0]) == sm(t->a[1]); break;
      case Op::Ult: r = sm(t->a[0]) < sm(t->a[1]); break;
      case Op::Slt: r = sx(sm(t->a[0]), t->a[0]->w) < sx(sm(t->a[1]), t->a[0]->w); break;
      default: abort();
    }
    small_[t->id] = r & M;
    return;
  }
  auto bg = [&](T x) -> APInt { return x->isConst() ? constVal(x) : x->w <= 64 ? APInt(x->w, small_[x->id]) : big_[x->id]; };
  APInt r(t->w, 0);
  switch (t->op) {
    case Op::Const: r = constVal(t); break;
    case Op::Add: r = bg(t->a[0]) + bg(t->a[1]); break;
    case Op::Mul: r = bg(t->a[0]) * bg(t->a[1]); break;
    case Op::UDiv: { APInt b = bg(t->a[1]); r = b.isZero() ? APInt::getAllOnes(t->w) : bg(t->a[0]).udiv(b); break; }
    case Op::URem: { APInt b = bg(t->a[1]); r = b.isZero() ? bg(t->a[0]) : bg(t->a[0]).urem(b); break; }
    case Op::SDiv: { APInt b = bg(t->a[1]); r = b.isZero() ? APInt::getAllOnes(t->w) : bg(t->a[0]).sdiv(b); break; }
    case Op::SRem: { APInt b = bg(t->a[1]); r = b.isZero() ? bg(t->a[0]) : bg(t->a[0]).srem(b); break; }
    case Op::And: r = bg(t->a[0]) & bg(t->a[1]); break;
    case Op::Or: r = bg(t->a[0]) | bg(t->a[1]); break;
    case Op::Xor: for (unsigned i = 0; i < t->n; ++i) r ^= bg(t->a[i]); break;
    case Op::Not: r = ~bg(t->a[0]); break;
    case Op::Shl: { APInt b = bg(t->a[1]); r = b.uge(t->w) ? APInt(t->w, 0) : bg(t->a[0]).shl(b); break; }
    case Op::LShr: { APInt b = bg(t->a[1]); r = b.uge(t->w) ? APInt(t->w, 0) : bg(t->a[0]).lshr(b); break; }
    case Op::AShr: { APInt b = bg(t->a[1]); r = bg(t->a[0]).ashr(b.uge(t->w) ? t->w - 1 : b.getZExtValue()); break; }
    case Op::Concat: { unsigned p = t->w; for (unsigned i = 0; i < t->n; ++i) { p -= t->a[i]->w; r.insertBits(bg(t->a[i]), p); } break; }
    case Op::Extract: r = bg(t->a[0]).extractBits(t->w, t->c); break;
    case Op::SExt: r = bg(t->a[0]).sext(t->w); break;
    case Op::Ite: r = bg(t->a[0]).isZero() ? bg(t->a[2]) : bg(t->a[1]); break;
    case Op::Eq: r = APInt(1, bg(t->a[0]) == bg(t->a[1])); break;
    case Op::Ult: r = APInt(1, bg(t->a[0]).ult(bg(t->a[1]))); break;
    case Op::Slt: r = APInt(1, bg(t->a[0]).slt(bg(t->a[1]))); break;
    default: { std::vector<APInt> v; for (unsigned i = 0; i < t->n; ++i) v.push_back(bg(t->a[i])); r = evalFloat(t->op, t->w, t->c, v); }
  }
  if (t->w <= 64) small_[t->id] = r.getZExtValue(); else big_[t->id] = r;
}
void Evaluator::run(T root) {
  std::vector<std::pair<T, unsigned>> st; st.push_back({root, 0});
  auto done = [&](T t) { return t->isConst() || (t->w <= 64 ? small_.count(t->id) : big_.count(t->id)); };
  if (done(root)) return;
  while (!st.empty()) {
    auto& [t, i] = st.back();
    if (i < t->n) { T c = t->a[i++]; if (!done(c)) st.push_back({c, 0}); continue; }
    T x = t; st.pop_back();
    if (!done(x)) compute(x);
  }
}
uint64_t Evaluator::eval64(T t) { if (t->isConst()) return t->c; run(t); return small_[t->id]; }
APInt Evaluator::eval(T t) { if (t->isConst()) return constVal(t); run(t); return t->w <= 64 ? APInt(t->w, small_[t->id]) : big_[t->id]; }

const std::vector<uint32_t>& varsOf(T t) {
  static std::unordered_map<uint32_t, std::vector<uint32_t>> memo;
  auto it = memo.find(t->id);
  if (it != memo.end()) return it->second;
  // iterative collection without memoising every inner node
  std::vector<uint32_t> out; std::vector<T> st{t}; std::unordered_map<uint32_t, bool> seen; seen[t->id] = true;
  while (!st.empty()) {
    T x = st.back(); st.pop_back();
    if (x->op == Op::Var) { out.push_back(x->c); continue; }
    if (x != t) { auto j = memo.find(x->id); if (j != memo.end()) { out.insert(out.end(), j->second.begin(), j->second.end()); continue; } }
    for (unsigned i = 0; i < x->n; ++i) if (!x->a[i]->isConst() && !seen[x->a[i]->id]) { seen[x->a[i]->id] = true; st.push_back(x->a[i]); }
  }
  std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
  return memo[t->id] = std::move(out);
}
std::string opHistogram(T root) {
  std::map<std::string, int> h; std::vector<T> st{root}; std::unordered_map<uint32_t, bool> seen; seen[root->id] = 1;
  while (!st.empty()) { T x = st.back(); st.pop_back(); h[opName(x->op)]++; for (unsigned i = 0; i < x->n; ++i) if (!seen[x->a[i]->id]) { seen[x->a[i]->id] = 1; st.push_back(x->a[i]); } }
  std::string s; for (auto& p : h) s += p.first + "=" + std::to_string(p.second) + " "; return s;
}
}  // namespace sx
