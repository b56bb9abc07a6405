// Every lookup path of LimitedSet and LimitedMap against a linear scan, on both sides of the unrolling threshold.
#include "tok.h"
#include <functional>
#include <string>
#include <string_view>
#include <utility>
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/types/compare.h"
using namespace mbo::container;
using F = LimitedOptionsFlag;
namespace {
struct Key { uint32_t v = 0; friend auto operator<=>(const Key&, const Key&) = default; friend bool operator==(const Key&, const Key&) = default; };
struct Probe { uint32_t v; };                         // compares exactly
struct Coarse { uint32_t v; };                        // compares without the low two bits: may match several keys
uint32_t val(const Key& k) { return k.v; }
using ::val;
struct Trans {  // transparent, not a CompareLess
  using is_transparent = void;
  bool operator()(const Key& a, const Key& b) const { return a.v < b.v; }
  bool operator()(const Key& a, const Probe& b) const { return a.v < b.v; }
  bool operator()(const Probe& a, const Key& b) const { return a.v < b.v; }
  bool operator()(const Key& a, const Coarse& b) const { return (a.v >> 2) < (b.v >> 2); }
  bool operator()(const Coarse& a, const Key& b) const { return (a.v >> 2) < (b.v >> 2); }
};
struct Half { bool operator()(uint32_t a, uint32_t b) const { return (a >> 1) < (b >> 1); } };
struct Down { bool operator()(uint32_t a, uint32_t b) const { return b < a; } };
template <class Cmp, class K, class Q> bool less(const K& a, const Q& b) { return Cmp()(a, b); }
template <class S, class K, class M, class Cmp> struct L {
  static constexpr bool kSet = std::is_void_v<M>;
  template <class E> static uint32_t keyAt(const E& e) { if constexpr (kSet) return val(e); else return val(e.first); }
  // The probe q against the linear scan. all: also the paths that do not depend on the unrolling.
  template <class Q> static void look(S& s, const K* k, size_t n, const Q& q, bool all) {
    size_t lo = 0, hi = 0;
    for (size_t i = 0; i < n; ++i) { lo += Cmp()(k[i], q); hi += !Cmp()(q, k[i]); }
    const bool has = hi > lo;
    const S& c = s;
    const size_t at = c.index_of(q);
    sx_assert((at != S::npos) == has, "index_of finds a key exactly when there is one");
    if (at != S::npos) sx_assert((at >= lo) & (at < hi), "index_of finds an equivalent element");
    auto f = c.find(q); sx_assert((f != c.end()) == has, "find agrees with the scan");
    if (f != c.end()) { const size_t d = static_cast<size_t>(f - c.begin()); sx_assert((d >= lo) & (d < hi), "find finds an equivalent element"); }
    sx_assert(c.contains(q) == has, "contains agrees with the scan");
    if (!all) return;
    auto g = s.find(q); sx_assert((g != s.end()) == has, "non-const find agrees with the scan");
    if (g != s.end()) { const size_t d = static_cast<size_t>(g - s.begin()); sx_assert((d >= lo) & (d < hi), "non-const find finds an equivalent element"); }
    sx_assert(static_cast<size_t>(c.lower_bound(q) - c.begin()) == lo, "lower_bound"); sx_assert(static_cast<size_t>(c.upper_bound(q) - c.begin()) == hi, "upper_bound");
    sx_assert(static_cast<size_t>(s.lower_bound(q) - s.begin()) == lo, "non-const lower_bound"); sx_assert(static_cast<size_t>(s.upper_bound(q) - s.begin()) == hi, "non-const upper_bound");
    auto [a, b] = c.equal_range(q); sx_assert(static_cast<size_t>(a - c.begin()) == lo, "equal_range first"); sx_assert(static_cast<size_t>(b - c.begin()) == hi, "equal_range last");
    auto [x, y] = s.equal_range(q); sx_assert(static_cast<size_t>(x - s.begin()) == lo, "non-const equal_range first"); sx_assert(static_cast<size_t>(y - s.begin()) == hi, "non-const equal_range last");
    sx_assert(c.count(q) == hi - lo, "count");
    if constexpr (!kSet) if (c.contains(q)) { uint32_t v = val(c.at(q)); bool ok = false; for (size_t i = 0; i < n; ++i) ok |= (v == static_cast<uint32_t>(100 + i)) & (i >= lo) & (i < hi); sx_assert(ok, "at() is the mapped value of an equivalent key"); sx_assert(&s.at(q) == &c.at(q), "at() const and not"); }
  }
  static void fill(S& s, K* k, size_t n, bool sym) {
    for (size_t i = 0; i < n; ++i) {
      K x{}; uint32_t v = sym ? u32("k", i) : static_cast<uint32_t>(7 + 5 * (std::is_same_v<Cmp, Down> ? n - i : i));
      if constexpr (std::is_same_v<K, Key>) x.v = v; else x = K(v);
      if (i) { if (sym) sx_assume(Cmp()(k[i - 1], x)); }
      k[i] = x;
      if constexpr (kSet) s.emplace(x); else s.emplace(x, static_cast<uint32_t>(100 + i));
    }
  }
  static K mk(uint32_t v) { if constexpr (std::is_same_v<K, Key>) return Key{v}; else return K(v); }
  static void run(size_t n, size_t mode) {  // mode: bit 0 symbolic keys, bit 1 all paths, bits 2..: probe type
    S s; K k[40]; fill(s, k, n, mode & 1);
    const uint32_t q = u32("q", 0); const bool all = mode & 2;
    switch (mode >> 2) {
      case 0: { const K kq = mk(q); look(s, k, n, kq, all); if (all) erase(s, k, n, kq); break; }
      case 1: if constexpr (std::is_same_v<Cmp, Trans>) { look(s, k, n, Probe{q}, all); if (all) erase(s, k, n, Probe{q}); } break;
      case 2: if constexpr (std::is_same_v<Cmp, Trans>) { look(s, k, n, Coarse{q}, all); if (all) erase(s, k, n, Coarse{q}); } break;
      default: if constexpr (mbo::types::IsCompareLess<Cmp>) { uint64_t w = sx_u64("w"); look(s, k, n, w, all); } break;
    }
  }
  template <class Q> static void erase(S& s, const K* k, size_t n, const Q& q) {
    size_t lo = 0, hi = 0;
    for (size_t i = 0; i < n; ++i) { lo += Cmp()(k[i], q); hi += !Cmp()(q, k[i]); }
    const size_t r = s.erase(q); sx_assert(r == hi - lo, "erase by key erases every equivalent element");
    sx_assert(s.size() == n - r, "size after erase");
    size_t i = 0; const size_t a = sx_concretize(lo), b = sx_concretize(hi);
    for (const auto& e : s) { if (i == a) i = b; sx_assert(keyAt(e) == val(k[i]), "erase keeps the other elements"); ++i; }
  }
};
template <size_t C, F... O> constexpr LimitedOptions<C, O...> Opt{};
using U = uint32_t; using Std = std::less<U>; using CL = mbo::types::CompareLess<U>;
template <class K, auto O, class Cmp> using SL = L<LimitedSet<K, O, Cmp>, K, void, Cmp>;
template <class K, auto O, class Cmp> using ML = L<LimitedMap<K, U, O, Cmp>, K, U, Cmp>;
using Strs = LimitedSet<std::string, 4, mbo::types::CompareLess<std::string>>;
}  // namespace
#define ARGS sx_param(1), sx_param(2)
#ifdef DO_SMALL
#ifdef WIDE
static_assert(mbo::config::kUnrollMaxCapacityDefault == 32);
#endif
SX_JOB lookup_set() {  // (kind, size, mode)
  switch (sx_param(0)) {
    case 0: SL<U, Opt<16>, Std>::run(ARGS); break;
    case 1: SL<U, Opt<16>, CL>::run(ARGS); break;
    case 2: SL<U, Opt<16, F::kNoOptimizeIndexOf>, Std>::run(ARGS); break;
    case 3: SL<U, Opt<5>, Std>::run(ARGS); break;
    case 4: SL<Key, Opt<8>, Trans>::run(ARGS); break;
    case 5: SL<Key, Opt<6, F::kNoOptimizeIndexOf>, Trans>::run(ARGS); break;
    case 6: SL<U, Opt<6>, Half>::run(ARGS); break;
    case 7: SL<U, Opt<6>, Down>::run(ARGS); break;
#ifdef WIDE
    case 8: SL<U, Opt<32>, Std>::run(ARGS); break;
    case 9: SL<U, Opt<32>, CL>::run(ARGS); break;
#endif
    default: break;
  }
}
#endif
#ifdef DO_BIG
SX_JOB lookup_big() {  // beyond the unroll limit
  switch (sx_param(0)) {
    case 0: SL<U, Opt<33>, Std>::run(ARGS); break;
    case 1: SL<U, Opt<33>, CL>::run(ARGS); break;
    case 2: SL<U, Opt<33, F::kCustomIndexOfBeyondUnroll>, Std>::run(ARGS); break;
    case 3: SL<U, Opt<33, F::kCustomIndexOfBeyondUnroll>, CL>::run(ARGS); break;
    case 4: SL<U, Opt<33, F::kNoOptimizeIndexOf>, CL>::run(ARGS); break;
    case 5: SL<Key, Opt<33, F::kCustomIndexOfBeyondUnroll>, Trans>::run(ARGS); break;
    case 6: ML<U, Opt<33, F::kCustomIndexOfBeyondUnroll>, Std>::run(ARGS); break;
    case 7: ML<U, Opt<33, F::kCustomIndexOfBeyondUnroll>, CL>::run(ARGS); break;
    case 8: SL<Key, Opt<33>, Trans>::run(ARGS); break;
    default: break;
  }
}
#endif
#ifdef DO_MAP
SX_JOB lookup_map() {
  switch (sx_param(0)) {
    case 0: ML<U, Opt<8>, Std>::run(ARGS); break;
    case 1: ML<U, Opt<8>, CL>::run(ARGS); break;
    case 2: ML<Key, Opt<6>, Trans>::run(ARGS); break;
    case 3: ML<Key, Opt<6, F::kNoOptimizeIndexOf>, Trans>::run(ARGS); break;
    case 4: ML<U, Opt<6>, Half>::run(ARGS); break;
    case 5: ML<U, Opt<6, F::kNoOptimizeIndexOf>, Std>::run(ARGS); break;
    default: break;
  }
}
SX_JOB lookup_text() {  // string keys, looked up by string_view
  const size_t n = sx_param(0), len = sx_param(1);
  Strs s; std::string k[4];
  for (size_t i = 0; i < n; ++i) { sx::Buf b(len, nm("t", i)); k[i] = std::string(reinterpret_cast<const char*>(b.p), len); if (i) sx_assume(k[i - 1] < k[i]); s.emplace(k[i]); }
  sx::Buf qb(len, "q"); std::string_view q(reinterpret_cast<const char*>(qb.p), len);
  size_t lo = 0; bool has = false; for (size_t i = 0; i < n; ++i) { lo += std::string_view(k[i]) < q; has |= std::string_view(k[i]) == q; }
  sx_assert(s.contains(q) == has, "contains agrees with the scan");
  auto it = s.find(q); sx_assert((it != s.end()) == has, "find agrees with the scan"); if (it != s.end()) sx_assert(static_cast<size_t>(it - s.begin()) == lo, "find finds the element");
  sx_assert(static_cast<size_t>(s.lower_bound(q) - s.begin()) == lo, "lower_bound"); sx_assert(s.count(q) == size_t{has}, "count");
  if (has) { const std::string_view own = *s.find(q); sx_assert(s.erase(own) == 1, "erase by a view of the own key"); sx_assert(s.size() == n - 1, "erases one"); }
}
#endif
