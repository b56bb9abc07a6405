// Comparison operators of the limited containers against the lexicographic comparison of their contents.
#include "tok.h"
#include <compare>
#include <functional>
#include <utility>
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
#include "mbo/types/compare.h"
using namespace mbo::container;
namespace {
struct Down { bool operator()(uint32_t a, uint32_t b) const { return b < a; } };
struct Dbl { double d; };
// The model: elements as (key, value) pairs of numbers.
struct Seq { uint64_t k[8], v[8]; size_t n = 0; };
inline int order(const Seq& a, const Seq& b) {  // lexicographic
  int r = 0;
  for (size_t i = 0; i < (a.n < b.n ? a.n : b.n); ++i) {
    const int c = 2 * (int{a.k[i] > b.k[i]} - int{a.k[i] < b.k[i]}) + (int{a.v[i] > b.v[i]} - int{a.v[i] < b.v[i]});
    const int s = int{c > 0} - int{c < 0};
    r += (1 - r * r) * s;
  }
  const int t = int{a.n > b.n} - int{a.n < b.n};
  return r + (1 - r * r) * t;
}
template <class A, class B> void rel(const A& a, const B& b, int c) {
  sx_assert((a == b) == (c == 0), "== is elementwise equality"); sx_assert((a != b) == (c != 0), "!= is its negation");
  sx_assert((a < b) == (c < 0), "< is the lexicographic order"); sx_assert((a > b) == (c > 0), "> is the lexicographic order");
  sx_assert((a <= b) == (c <= 0), "<= is the lexicographic order"); sx_assert((a >= b) == (c >= 0), ">= is the lexicographic order");
  const auto o = a <=> b; sx_assert((o < 0) == (c < 0), "<=> less"); sx_assert((o > 0) == (c > 0), "<=> greater"); sx_assert((o == 0) == (c == 0), "<=> equal");
  sx_trace(static_cast<uint64_t>(c + 1));
}
template <class E> Seq seq(const char* nk, const char* nv, size_t n, bool map) { Seq s; s.n = n; for (size_t i = 0; i < n; ++i) { s.k[i] = u32(nk, i); s.v[i] = map ? u32(nv, i) : 0; } return s; }
template <class T> T as(uint64_t v) { if constexpr (std::is_integral_v<T>) return static_cast<T>(v); else return T(static_cast<uint32_t>(v)); }
template <class T> uint64_t wide(T v) { return static_cast<uint64_t>(v); }
template <class VA, class VB, class TA, class TB> void vec(size_t n, size_t m) {
  Seq s = seq<TA>("a", "", n, false), t = seq<TB>("b", "", m, false);
  VA a; VB b; for (size_t i = 0; i < n; ++i) a.push_back(as<TA>(s.k[i])); for (size_t i = 0; i < m; ++i) b.push_back(as<TB>(t.k[i]));
  rel(a, b, order(s, t)); rel(b, a, order(t, s)); rel(a, a, 0);
}
template <class C> void sorted(const Seq& s) { for (size_t i = 1; i < s.n; ++i) sx_assume(C()(static_cast<uint32_t>(s.k[i - 1]), static_cast<uint32_t>(s.k[i]))); }
template <class SA, class SB, class T, class CA, class CB> void set(size_t n, size_t m) {
  Seq s = seq<T>("a", "", n, false), t = seq<T>("b", "", m, false); sorted<CA>(s); sorted<CB>(t);
  SA a; SB b; for (size_t i = 0; i < n; ++i) a.emplace(as<T>(s.k[i])); for (size_t i = 0; i < m; ++i) b.emplace(as<T>(t.k[i]));
  rel(a, b, order(s, t)); rel(b, a, order(t, s)); rel(a, a, 0);
}
template <class SA, class SB, class T, class CA, class CB> void map(size_t n, size_t m) {
  Seq s = seq<T>("a", "v", n, true), t = seq<T>("b", "w", m, true); sorted<CA>(s); sorted<CB>(t);
  SA a; SB b; for (size_t i = 0; i < n; ++i) a.emplace(as<T>(s.k[i]), as<T>(s.v[i])); for (size_t i = 0; i < m; ++i) b.emplace(as<T>(t.k[i]), as<T>(t.v[i]));
  rel(a, b, order(s, t)); rel(b, a, order(t, s)); rel(a, a, 0);
}
using U = uint32_t; using Std = std::less<U>; using CL = mbo::types::CompareLess<U>;
}  // namespace
#define P sx_param(1), sx_param(2)
SX_JOB compare_vector() {  // (kind, size, size)
  switch (sx_param(0)) {
    case 0: vec<LimitedVector<U, 3>, LimitedVector<U, 3>, U, U>(P); break;
    case 1: vec<LimitedVector<U, 3>, LimitedVector<U, 5>, U, U>(P); break;
    case 2: vec<LimitedVector<Tok, 3>, LimitedVector<Tok, 4>, Tok, Tok>(P); break;
    case 3: vec<LimitedVector<U, 3>, LimitedVector<uint64_t, 4>, U, uint64_t>(P); break;
    default: break;
  }
}
SX_JOB compare_set() {
  switch (sx_param(0)) {
    case 0: set<LimitedSet<U, 3>, LimitedSet<U, 3>, U, Std, Std>(P); break;
    case 1: set<LimitedSet<U, 3, Std>, LimitedSet<U, 5, Std>, U, Std, Std>(P); break;
    case 2: set<LimitedSet<U, 3, Down>, LimitedSet<U, 4, Down>, U, Down, Down>(P); break;
    case 3: set<LimitedSet<U, 3, CL>, LimitedSet<U, 4, Std>, U, Std, Std>(P); break;
    case 4: set<LimitedSet<Tok, 3, std::less<Tok>>, LimitedSet<Tok, 4, std::less<Tok>>, Tok, Std, Std>(P); break;
    default: break;
  }
}
SX_JOB compare_map() {
  switch (sx_param(0)) {
    case 0: map<LimitedMap<U, U, 3>, LimitedMap<U, U, 3>, U, Std, Std>(P); break;
    case 1: map<LimitedMap<U, U, 3, Std>, LimitedMap<U, U, 5, Std>, U, Std, Std>(P); break;
    case 2: map<LimitedMap<U, U, 3, Down>, LimitedMap<U, U, 4, Down>, U, Down, Down>(P); break;
    case 3: map<LimitedMap<Tok, Tok, 3, std::less<Tok>>, LimitedMap<Tok, Tok, 4, std::less<Tok>>, Tok, Std, Std>(P); break;
    default: break;
  }
}
SX_JOB compare_float() {  // unordered elements: never equal, never ordered
  LimitedVector<double, 3> a, b; const size_t n = sx_param(0), m = sx_param(1); bool eq = n == m; 
  double x[3], y[3]; for (size_t i = 0; i < n; ++i) { sx_make(&x[i], 8, nm("a", i)); a.push_back(x[i]); } for (size_t i = 0; i < m; ++i) { sx_make(&y[i], 8, nm("b", i)); b.push_back(y[i]); }
  for (size_t i = 0; i < n; ++i) if (i < m) eq &= x[i] == y[i];
  bool lt = false, un = false; for (size_t i = 0; i < n; ++i) if (i < m) { const bool open = !lt & !un; lt |= open & (x[i] < y[i]); un |= open & !(x[i] == y[i]) & !(x[i] < y[i]); }
  lt |= !lt & !un & (n < m);
  sx_assert((a == b) == eq, "== of floating point elements"); sx_assert((a < b) == lt, "< of floating point elements");
}
