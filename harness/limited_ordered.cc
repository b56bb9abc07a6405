// LimitedSet and LimitedMap against a sorted array: every operation from every state of a small capacity.
#include "tok.h"
#include <functional>
#include <initializer_list>
#include <iterator>
#include <utility>
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/types/compare.h"
using namespace mbo::container;
using F = LimitedOptionsFlag;
namespace {
template <class K> struct Greater { bool operator()(const K& a, const K& b) const { return val(b) < val(a); } };
template <class K> struct Half { bool operator()(const K& a, const K& b) const { return (val(a) >> 1) < (val(b) >> 1); } };
template <class K> struct Dir { bool rev = false; bool operator()(const K& a, const K& b) const { if (rev) return val(b) < val(a); return val(a) < val(b); } };
template <class C> struct Ord { static bool lt(const C&, uint32_t a, uint32_t b) { return a < b; } };
template <class K> struct Ord<Greater<K>> { static bool lt(const Greater<K>&, uint32_t a, uint32_t b) { return b < a; } };
template <class K> struct Ord<Half<K>> { static bool lt(const Half<K>&, uint32_t a, uint32_t b) { return (a >> 1) < (b >> 1); } };
template <class K> struct Ord<Dir<K>> { static bool lt(const Dir<K>& d, uint32_t a, uint32_t b) { return d.rev ? b < a : a < b; } };
struct OM { uint32_t k[24], v[24]; size_t n = 0;
  void ins(size_t p, uint32_t kk, uint32_t vv) { for (size_t i = n; i > p; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[p] = kk; v[p] = vv; ++n; }
  void del(size_t p, size_t c) { for (size_t i = p + c; i < n; ++i) { k[i - c] = k[i]; v[i - c] = v[i]; } n -= c; } };
template <class E> concept IsPairE = requires(E e) { e.first; e.second; };
template <class E> uint32_t keyOf(const E& e) { if constexpr (IsPairE<E>) return val(e.first); else return val(e); }
template <class E> uint32_t mapOf(const E& e) { if constexpr (IsPairE<E>) return val(e.second); else return 0; }
constexpr LimitedOptions<3, F::kNoOptimizeIndexOf> kNoOpt{};
constexpr LimitedOptions<3, F::kRequireSortedInput> kSorted{};
constexpr LimitedOptions<17, F::kCustomIndexOfBeyondUnroll> kCustom{};
template <class S> constexpr bool kIsSorted = false;
template <class K, class C> constexpr bool kIsSorted<LimitedSet<K, kSorted, C>> = true;
template <class K, class M, class C> constexpr bool kIsSorted<LimitedMap<K, M, kSorted, C>> = true;
template <class K, class M, size_t N, class Cm> struct Alt { using type = LimitedMap<K, M, N, Cm>; };
template <class K, size_t N, class Cm> struct Alt<K, void, N, Cm> { using type = LimitedSet<K, N, Cm>; };
template <class S, class K, class M, class Cmp, size_t C> struct OW {
  static constexpr bool kSet = std::is_same_v<M, void>;
  using MT = std::conditional_t<kSet, K, M>;
  using It = typename S::iterator; using CIt = typename S::const_iterator;
  static bool lt(const Cmp& c, uint32_t a, uint32_t b) { return Ord<Cmp>::lt(c, a, b); }
  static bool eq(const Cmp& c, uint32_t a, uint32_t b) { return !lt(c, a, b) & !lt(c, b, a); }
  static size_t rank(const Cmp& c, const OM& m, uint32_t x) { size_t r = 0; for (size_t i = 0; i < m.n; ++i) r += lt(c, m.k[i], x); return r; }
  static bool has(const Cmp& c, const OM& m, uint32_t x) { bool r = false; for (size_t i = 0; i < m.n; ++i) r |= eq(c, m.k[i], x); return r; }
  static void same(const S& s, const OM& m, const Cmp& c) {
    sx_assert(s.size() == m.n, "size equals the model's"); sx_assert(s.empty() == (m.n == 0), "empty() agrees");
    sx_assert(s.capacity() == C, "capacity()"); sx_assert(s.max_size() == C, "max_size()");
    size_t i = 0;
    for (auto it = s.begin(); it != s.end(); ++it) { if (i < m.n) { sx_assert(keyOf(*it) == m.k[i], "iteration yields the model's keys"); if (!kSet) sx_assert(mapOf(*it) == m.v[i], "iteration yields the model's mapped values"); } ++i; }
    sx_assert(i == m.n, "iteration visits size elements");
    for (i = 0; i < m.n; ++i) sx_assert(keyOf(s.at_index(i)) == m.k[i], "at_index()");
    i = m.n; for (auto it = s.rbegin(); it != s.rend(); ++it) { --i; sx_assert(keyOf(*it) == m.k[i], "reverse iteration"); }
    sx_assert(i == 0, "reverse iteration visits size elements");
    for (i = 0; i + 1 < m.n; ++i) sx_assert(lt(c, m.k[i], m.k[i + 1]), "keys strictly increase");
    sx_assert(s.end() - s.begin() == static_cast<std::ptrdiff_t>(m.n), "end() - begin()"); sx_assert(s.cend() - s.cbegin() == static_cast<std::ptrdiff_t>(m.n), "cend() - cbegin()");
    i = m.n; for (auto it = s.crbegin(); it != s.crend(); ++it) { --i; sx_assert(keyOf(*it) == m.k[i], "const reverse iteration"); }
    if (m.n) { sx_assert(&*s.begin() == s.data(), "data() is the first element"); auto it = s.begin(); it += static_cast<std::ptrdiff_t>(m.n - 1); sx_assert(keyOf(*it) == m.k[m.n - 1], "+="); sx_assert(keyOf(s.begin()[static_cast<std::ptrdiff_t>(m.n - 1)]) == m.k[m.n - 1], "it[]"); auto jt = it--; sx_assert(jt - it == 1, "post --"); jt = it++; sx_assert(it - jt == 1, "post ++"); it -= static_cast<std::ptrdiff_t>(m.n - 1); sx_assert(it == s.begin(), "-="); sx_assert((it <=> s.end()) < 0, "iterator order"); sx_assert(it < s.end(), "iterator order"); --(++it); sx_assert(it == s.cbegin(), "++ and --"); sx_assert(s.begin() + 1 - 1 == s.begin(), "+ and -"); }
  }
  static void probe(S& s, const OM& m, const Cmp& c) {
    uint32_t q = u32("q", 0); const K kq(q); const bool h = has(c, m, q); const size_t r = rank(c, m, q);
    sx_assert(s.contains(kq) == h, "contains() agrees with the model");
    auto it = std::as_const(s).find(kq); sx_assert((it != std::as_const(s).end()) == h, "find() agrees with the model");
    if (it != std::as_const(s).end()) sx_assert(static_cast<size_t>(it - std::as_const(s).begin()) == r, "find() finds the element");
  }
  static K mk(uint32_t x) { return K(x); }
  static MT mv(uint32_t x) { return MT(x); }
  template <class E> static E el(uint32_t k, uint32_t v) { if constexpr (IsPairE<E>) return E(K(k), MT(v)); else return E(k); }
  using E = typename S::value_type;
  static void fill(S& s, OM& m, size_t n, const char* name, const Cmp& c, bool order = true) {
    for (size_t i = 0; i < n; ++i) {
      uint32_t x = C == 8 ? static_cast<uint32_t>(i + 1) * (name[0] == 'e' ? 0x100U : 0x180U) : u32(name, i), y = 0;  // for the one larger capacity evenly spaced keys
      if (C != 8) if (i) sx_assume(lt(c, m.k[i - 1], x));
      if constexpr (!kSet) y = u32(name[0] == 'e' ? "ev" : "dv", i);
      m.k[i] = x; m.v[i] = y; m.n = i + 1;
    }
    if (order) for (size_t i = 0; i < n; ++i) s.emplace(el<E>(m.k[i], m.v[i])); else for (size_t i = n; i-- > 0;) s.emplace(el<E>(m.k[i], m.v[i]));
  }
  static void usable(S& s) {
    sx_assert(s.size() <= C, "moved-from size within capacity"); for (const auto& x : s) sx_trace(keyOf(x) * 0);
    s.clear(); sx_assert(s.empty(), "clear() empties"); if (C) { s.emplace(el<E>(7, 9)); sx_assert(s.size() == 1, "usable after a move"); sx_assert(keyOf(*s.begin()) == 7, "usable after a move"); }
  }
  // After an insertion-like call for key x: checks the result and updates the model. assign: an existing value is replaced.
  static void inserted(S& s, OM& m, const Cmp& c, const std::pair<It, bool>& r, uint32_t x, uint32_t y, bool assign) {
    const bool h = has(c, m, x); const size_t rk = rank(c, m, x);
    sx_assert(r.second == !h, "inserted exactly when the key was absent");
    const size_t at = static_cast<size_t>(r.first - s.begin());
    sx_assert(at == rk, "the returned position holds the key");
    if (r.second) m.ins(at, x, y); else if (assign) m.v[at] = y;
  }
  static bool room(const OM& m, const Cmp& c, uint32_t x) { if (m.n < C) return true; sx_assume(has(c, m, x)); return true; }
  template <size_t N, class Cm> using Other = typename Alt<K, M, N, Cm>::type;
  static constexpr bool kStateful = requires(Cmp x) { x.rev; };
  template <class D> static void sameAs(const D& d, const OM& m, const char* what) {
    sx_assert(d.size() == m.n, what); size_t i = 0;
    for (auto it = d.begin(); it != d.end(); ++it) { if (i < m.n) { sx_assert(keyOf(*it) == m.k[i], what); if (!kSet) sx_assert(mapOf(*it) == m.v[i], what); } ++i; }
    sx_assert(i == m.n, what);
  }
  static void op(size_t o, S& s, OM& m, const Cmp& c) {
    const size_t n = m.n;
    if (C == 0) if (o < 11 || (o > 12 && o < 20)) return;
    if (n == 0) if (C == 0) if (o >= 30) return;
    uint32_t x = 0, y = 0;
    auto xy = [&] { x = u32("x", 0); if constexpr (!kSet) y = u32("y", 0); if (m.n == C) sx_assume(has(c, m, x)); };
    switch (o) {
      case 0: { if (C == 0) return; xy(); if constexpr (kSet) inserted(s, m, c, s.emplace(x), x, y, false); else inserted(s, m, c, s.emplace(x, y), x, y, false); break; }
      case 1: { if (C == 0) return; xy(); const E e = el<E>(x, y); inserted(s, m, c, s.insert(e), x, y, false); sx_assert(keyOf(e) == x, "insert copies"); break; }
      case 2: { if (C == 0) return; xy(); inserted(s, m, c, s.insert(el<E>(x, y)), x, y, false); break; }
      case 3: { if (n + 2 > C) return; xy(); uint32_t x2 = u32("x", 1), y2 = 0; if constexpr (!kSet) y2 = u32("y", 1); const E a[2] = {el<E>(x, y), el<E>(x2, y2)}; const size_t b4 = s.size(); s.insert(&a[0], &a[0] + 2); 
        OM o2 = m; // both keys in order, duplicates ignored
        sx_assert(s.size() - b4 == size_t{!has(c, m, x)} + size_t{!(has(c, m, x2) | eq(c, x, x2))}, "range insert adds each new key once");
        (void)o2; m.n = s.size(); for (size_t i = 0; i < m.n; ++i) { auto& e = *(s.begin() + static_cast<std::ptrdiff_t>(i)); uint32_t k = keyOf(e), v = mapOf(e); bool ok = false; for (size_t j = 0; j < o2.n; ++j) ok |= (k == o2.k[j]) & (v == o2.v[j]); ok |= (k == x) & (v == y) & !has(c, o2, x); ok |= (k == x2) & (v == y2) & !has(c, o2, x2) & !eq(c, x, x2); sx_assert(ok, "range insert adds only the given elements"); m.k[i] = k; m.v[i] = v; } break; }
      case 4: { if (!n) return; size_t p = sx_choice(n, "p"); auto it = s.erase(s.begin() + static_cast<std::ptrdiff_t>(p)); m.del(p, 1); sx_assert(it - s.begin() == static_cast<std::ptrdiff_t>(p), "erase returns the next position"); break; }
      case 5: { if (!n) return; size_t p = sx_choice(n, "p"); auto it = s.erase(s.cbegin() + static_cast<std::ptrdiff_t>(p)); m.del(p, 1); sx_assert(it - s.begin() == static_cast<std::ptrdiff_t>(p), "erase returns the next position"); break; }
      case 6: { size_t p = sx_choice(n + 1, "p"), k = sx_choice(n - p + 1, "k"); auto it = s.erase(s.cbegin() + static_cast<std::ptrdiff_t>(p), s.cbegin() + static_cast<std::ptrdiff_t>(p + k)); m.del(p, k); sx_assert(it - s.begin() == static_cast<std::ptrdiff_t>(p), "range erase returns the next position"); break; }
      case 7: { x = u32("x", 0); const K k(x); const size_t r = s.erase(k); const bool h = has(c, m, x); sx_assert(r == size_t{h}, "erase by key reports whether it erased"); size_t rk = sx_concretize(rank(c, m, x)); if (r) m.del(rk, 1); break; }
      case 8: { size_t i = 0; if (!n) return; i = sx_choice(n, "i"); const size_t r = s.erase(keyRef(*(s.begin() + static_cast<std::ptrdiff_t>(i)))); sx_assert(r == 1, "erase by the key of an own element"); m.del(i, 1); break; }
      case 9: { s.clear(); m.n = 0; break; }
      case 10: { S d(s); same(d, m, c); same(s, m, c); S e(d); d.clear(); same(e, m, c); if (n < C) { xy(); inserted(e, m, c, e.emplace(el<E>(x, y)), x, y, false); same(e, m, c); m = OM(); s.clear(); } break; }
      case 11: { size_t k = sx_choice(C + 1, "k"); S d(c); OM e; fill(d, e, k, "d", c); s = d; m = e; same(d, e, c); break; }
      case 12: { S& r = s; s = r; break; }
      case 13: { S d(std::move(s)); same(d, m, c); usable(s); S e(std::move(d)); usable(d); if (n < C) { xy(); inserted(e, m, c, e.emplace(el<E>(x, y)), x, y, false); same(e, m, c); } s = std::move(e); usable(e); break; }
      case 14: { size_t k = sx_choice(C + 1, "k"); S d(c); OM e; fill(d, e, k, "d", c); s = std::move(d); m = e; usable(d); break; }
      case 15: { size_t k = sx_choice(C + 1, "k"); S d(c); OM e; fill(d, e, k, "d", c); s.swap(d); same(d, m, c); same(s, e, c); d.swap(s); same(s, m, c); same(d, e, c); s.swap(d); m = e; break; }
      case 16: { const auto* b = s.data(); S d(b, b + n, c); same(d, m, c); break; }
      case 17: { if (C < 2) return; xy(); uint32_t x2 = u32("x", 1), y2 = 0; if constexpr (!kSet) y2 = u32("y", 1); if (Sorted) sx_assume(!lt(c, x2, x)); S d({el<E>(x, y), el<E>(x2, y2)}, c); OM e; if (eq(c, x, x2)) { e.ins(0, x, y); } else if (lt(c, x, x2)) { e.ins(0, x, y); e.ins(1, x2, y2); } else { e.ins(0, x2, y2); e.ins(1, x, y); } same(d, e, c); break; }
      case 18: { OM e; S d(c); fill(d, e, sx_choice(C + 1, "k"), "d", c, false); same(d, e, c); s.clear(); m.n = 0; break; }  // descending insertion
      case 19: { S d(c); uint32_t a[3]; size_t k = C < 3 ? C : 3; for (size_t i = 0; i < k; ++i) { a[i] = u32("x", i); const bool h = has(c, m = (i ? m : OM()), a[i]); auto r = d.emplace(el<E>(a[i], 1)); sx_assert(r.second == !h, "inserted when absent"); size_t at = static_cast<size_t>(r.first - d.begin()); sx_assert(at == rank(c, m, a[i]), "position"); if (r.second) m.ins(at, a[i], kSet ? 0 : 1); } same(d, m, c); s = d; break; }
      case 20: { bool all = true, any = false; uint32_t q[2] = {u32("q", 1), u32("q", 2)}; for (uint32_t z : q) { all &= has(c, m, z); any |= has(c, m, z); } const std::initializer_list<K> il = {K(q[0]), K(q[1])}; sx_assert(s.contains_all(il) == all, "contains_all"); sx_assert(s.contains_any(il) == any, "contains_any"); sx_assert(s.contains_all(std::initializer_list<K>{}), "contains_all of nothing"); sx_assert(!s.contains_any(std::initializer_list<K>{}), "contains_any of nothing"); LimitedSet<K, 2, Cmp> o2(c); o2.emplace(q[0]); o2.emplace(q[1]); sx_assert(s.contains_all(o2) == all, "contains_all of a container"); sx_assert(s.contains_any(o2) == any, "contains_any of a container"); break; }
      case 21: { uint32_t p = u32("q", 3), q = u32("q", 4); sx_assert(s.key_comp()(K(p), K(q)) == lt(c, p, q), "key_comp() is the comparator"); const E a = el<E>(p, 1), b = el<E>(q, 2); sx_assert(s.value_comp()(a, b) == lt(c, p, q), "value_comp() compares keys"); break; }
      case 22: { if constexpr (!kStateful) {  // other capacities of the same comparator
        using D = Other<C + 2, Cmp>; D d(s); sameAs(d, m, "converting copy"); same(s, m, c);
        size_t k = sx_choice(C + 1, "k"); D e(c); OM em; for (size_t i = 0; i < k; ++i) { uint32_t z = u32("d", i); if (i) sx_assume(lt(c, em.k[i - 1], z)); em.ins(i, z, 0); e.emplace(el<typename D::value_type>(z, 3)); }
        e = s; sameAs(e, m, "converting assignment"); same(s, m, c);
        S t(s); D g(std::move(t)); sameAs(g, m, "converting move"); usable(t);
      } break; }
      case 23: { if constexpr (std::is_same_v<Cmp, std::less<K>> || std::is_same_v<Cmp, mbo::types::CompareLess<K>>) {  // another comparator
        using D = Other<C + 1, Greater<K>>; OM r; for (size_t i = 0; i < n; ++i) r.ins(i, m.k[n - 1 - i], m.v[n - 1 - i]);
        D d(s); sameAs(d, r, "converting copy under another order"); Other<C + 2, Cmp> b(d); sameAs(b, m, "converting copy back"); size_t k = sx_choice(C + 1, "k"); OM em; D e; for (size_t i = 0; i < k; ++i) { uint32_t z = u32("d", i); if (i) sx_assume(z < em.k[i - 1]); em.ins(i, z, 0); e.emplace(el<typename D::value_type>(z, 3)); }
        e = s; sameAs(e, r, "converting assignment under another order");
      } break; }
      default: if constexpr (!kSet) mapOp(o, s, m, c); break;
    }
  }
  static constexpr bool Sorted = kIsSorted<S>;
  template <class X> static const K& keyRef(const X& e) { if constexpr (IsPairE<X>) return e.first; else return e; }
  static void mapOp(size_t o, S& s, OM& m, const Cmp& c) requires(!kSet) {
    const size_t n = m.n; uint32_t x = 0, y = 0;
    auto xy = [&] { x = u32("x", 0); y = u32("y", 0); if (m.n == C) sx_assume(has(c, m, x)); };
    switch (o) {
      case 30: { xy(); const K k(x); inserted(s, m, c, s.try_emplace(k, y), x, y, false); sx_assert(val(k) == x, "try_emplace copies the key"); break; }
      case 31: { xy(); inserted(s, m, c, s.try_emplace(K(x), y), x, y, false); break; }
      case 32: { xy(); const K k(x); const M v(y); inserted(s, m, c, s.insert_or_assign(k, v), x, y, true); sx_assert(val(v) == y, "insert_or_assign copies"); break; }
      case 33: { xy(); inserted(s, m, c, s.insert_or_assign(K(x), M(y)), x, y, true); break; }
      case 34: { xy(); const K k(x); const bool h = has(c, m, x); const size_t r = rank(c, m, x), b4 = s.size(); M& v = s[k]; const bool fresh = s.size() != b4; sx_assert(fresh == !h, "operator[] inserts exactly when absent"); size_t at = sx_concretize(r); sx_assert(&v == &s.at_index(at).second, "operator[] returns the element"); if (fresh) { sx_assert(val(v) == 0, "a new value is default constructed"); m.ins(at, x, y); } else { sx_assert(val(v) == m.v[at], "operator[] keeps an existing value"); m.v[at] = y; } v = M(y); break; }
      case 35: { xy(); const bool h = has(c, m, x); const size_t r = rank(c, m, x), b4 = s.size(); M& v = s[K(x)]; const bool fresh = s.size() != b4; sx_assert(fresh == !h, "operator[] inserts exactly when absent"); size_t at = sx_concretize(r); sx_assert(&v == &s.at_index(at).second, "operator[] returns the element"); if (fresh) { sx_assert(val(v) == 0, "a new value is default constructed"); m.ins(at, x, y); } else { sx_assert(val(v) == m.v[at], "operator[] keeps an existing value"); m.v[at] = y; } v = M(y); break; }
      case 36: { if (!n) return; size_t i = sx_choice(n, "i"); x = u32("x", 0); sx_assume(eq(c, x, m.k[i])); y = u32("y", 0); sx_assert(val(std::as_const(s).at(K(x))) == m.v[i], "at()"); s.at(K(x)) = M(y); m.v[i] = y; break; }
      case 37: { if (!n) return; if (n == C) return; size_t i = sx_choice(n, "i"); xy(); y = m.v[i]; const M& own = std::as_const(s).at_index(i).second; inserted(s, m, c, s.try_emplace(K(x), own), x, y, false); break; }
      case 38: { if (!n) return; if (n == C) return; size_t i = sx_choice(n, "i"); xy(); y = m.v[i]; const M& own = std::as_const(s).at_index(i).second; const K k(x); inserted(s, m, c, s.insert_or_assign(k, own), x, y, true); break; }
      case 39: { if (!n) return; if (n == C) return; size_t i = sx_choice(n, "i"); xy(); y = m.v[i]; const M& own = std::as_const(s).at_index(i).second; inserted(s, m, c, s.emplace(K(x), own), x, y, false); break; }
      case 40: { if (!n) return; if (n == C) return; size_t i = sx_choice(n, "i"); xy(); y = m.v[i]; const M& own = std::as_const(s).at_index(i).second; const K k(x); inserted(s, m, c, s.try_emplace(k, own), x, y, false); break; }
      case 41: { if (!n) return; size_t i = sx_choice(n, "i"); y = u32("y", 0); (s.begin() + static_cast<std::ptrdiff_t>(i))->second = M(y); m.v[i] = y; break; }
      case 42: { if (!n) return; size_t i = sx_choice(n, "i"), j = sx_choice(n, "j"); y = m.v[j]; const M own(s.at_index(j).second); inserted(s, m, c, s.insert_or_assign(s.at_index(i).first, own), m.k[i], y, true); break; }
      default: break;
    }
  }
  static Cmp cmp() { Cmp c; if constexpr (requires { c.rev; }) c.rev = sx_choice(2, "rev"); return c; }
  static void step(size_t n, size_t o) {
    uint64_t live = sx_live_allocs();
    { const Cmp c = cmp(); S s(c); OM m; fill(s, m, n, "e", c); op(o, s, m, c); same(s, m, c); probe(s, m, c); sx_trace(m.n); }
    sx_assert(sx_live_allocs() == live, "every element is destroyed exactly once");
  }
  static void hist(size_t n, size_t len) {
    uint64_t live = sx_live_allocs();
    { const Cmp c = cmp(); S s(c); OM m; fill(s, m, n, "e", c);
      for (size_t i = 0; i < len; ++i) {
        uint32_t x = u32("h", i), y = kSet ? 0 : u32("w", i); const bool full = m.n == C;
        switch (sx_choice(kSet ? 4 : 7, "op")) {
          case 0: if (full) sx_assume(has(c, m, x)); inserted(s, m, c, s.insert(el<E>(x, y)), x, y, false); break;
          case 1: { const size_t r = s.erase(K(x)); sx_assert(r == size_t{has(c, m, x)}, "erase by key reports whether it erased"); size_t rk = sx_concretize(rank(c, m, x)); if (r) m.del(rk, 1); break; }
          case 2: { if (!m.n) break; size_t p = sx_choice(m.n, "p"); s.erase(s.begin() + static_cast<std::ptrdiff_t>(p)); m.del(p, 1); break; }
          case 3: { S d(s); s.clear(); s = std::move(d); break; }
          default: if constexpr (!kSet) { if (full) sx_assume(has(c, m, x)); switch (sx_choice(3, "mop")) { case 0: inserted(s, m, c, s.try_emplace(K(x), y), x, y, false); break; case 1: inserted(s, m, c, s.insert_or_assign(K(x), M(y)), x, y, true); break; default: { const size_t at = sx_concretize(rank(c, m, x)); const bool h = has(c, m, x); const size_t b4 = s.size(); s[K(x)] = M(y); const bool fresh = s.size() != b4; sx_assert(fresh == !h, "operator[] inserts when absent"); if (fresh) m.ins(at, x, y); else m.v[at] = y; } } }
        }
        same(s, m, c);
      } }
    sx_assert(sx_live_allocs() == live, "every element is destroyed exactly once");
  }
  static void beyond(size_t n, size_t o) {
    const Cmp c = cmp(); S s(c); OM m; fill(s, m, n, "e", c);
    uint32_t x = u32("x", 0); const bool h = has(c, m, x);
    sx_expect_abort(1);
    switch (o) {
      case 0: if (n < C) break; sx_assume(!h); s.emplace(el<E>(x, 1)); sx_fail("emplace beyond capacity returned");
      case 1: { if (n < C) break; sx_assume(!h); const E e = el<E>(x, 1); s.insert(e); sx_fail("insert beyond capacity returned"); }
      case 2: { if (n < C) break; sx_assume(!h); const E e[1] = {el<E>(x, 1)}; s.insert(&e[0], &e[0] + 1); sx_fail("range insert beyond capacity returned"); }
      case 3: s.erase(s.end()); sx_fail("erase(end()) returned");
      case 4: s.erase(s.cend()); sx_fail("erase(cend()) returned");
      case 5: if (n == C) break; s.erase(s.cbegin(), s.cend() + 1); sx_fail("erase beyond the end returned");
      case 6: if (!n) break; s.erase(s.cbegin() + 1, s.cbegin()); sx_fail("erase of a reversed range returned");
      case 7: { uint64_t i = sx_u64("i"); sx_assume(i >= n); sx_trace(keyOf(s.at_index(i))); sx_fail("at_index() past the size returned"); }
      case 8: { uint64_t i = sx_u64("i"); sx_assume(i >= n); sx_trace(keyOf(std::as_const(s).at_index(i))); sx_fail("const at_index() past the size returned"); }
      case 9: { if (n < C) break; sx_assume(!h); E a[C + 1]; makeRange(a, m, c, x); const E* b = &a[0]; S d(b, b + C + 1, c); sx_fail("construction from too many elements returned"); }
      default: if constexpr (!kSet) {
        switch (o) {
          case 10: { if (n < C) break; sx_assume(!h); const K k(x); s.try_emplace(k, 1U); sx_fail("try_emplace beyond capacity returned"); }
          case 11: if (n < C) break; sx_assume(!h); s.try_emplace(K(x), 1U); sx_fail("try_emplace beyond capacity returned");
          case 12: { if (n < C) break; sx_assume(!h); const K k(x); s.insert_or_assign(k, M(1U)); sx_fail("insert_or_assign beyond capacity returned"); }
          case 13: if (n < C) break; sx_assume(!h); s.insert_or_assign(K(x), M(1U)); sx_fail("insert_or_assign beyond capacity returned");
          case 14: { if (n < C) break; sx_assume(!h); const K k(x); s[k]; sx_fail("operator[] beyond capacity returned"); }
          case 15: if (n < C) break; sx_assume(!h); s[K(x)]; sx_fail("operator[] beyond capacity returned");
          case 16: sx_assume(!h); sx_trace(val(s.at(K(x)))); sx_fail("at() of an absent key returned");
          case 17: sx_assume(!h); sx_trace(val(std::as_const(s).at(K(x)))); sx_fail("const at() of an absent key returned");
          default: break;
        }
      }
    }
    sx_expect_abort(0); sx_cover("not applicable for this size");
  }
  template <class A> static void makeRange(A& a, const OM& m, const Cmp& c, uint32_t x) {  // the elements and x, in order
    (void)c; size_t i = 0; for (; i < m.n; ++i) put(a[i], m.k[i]); if (m.n) sx_assume(lt(c, m.k[m.n - 1], x)); put(a[i], x);
  }
  template <class A> static void put(A& a, uint32_t k) { std::destroy_at(&a); std::construct_at(&a, el<A>(k, 0)); }
};
template <class K, auto O, size_t C, class Cmp> using SW = OW<LimitedSet<K, O, Cmp>, K, void, Cmp, C>;
template <class K, auto O, size_t C, class Cmp> using MW = OW<LimitedMap<K, K, O, Cmp>, K, K, Cmp, C>;
}  // namespace
using U = uint32_t;
#define KIND(W, F) switch (sx_param(0)) { \
  case 0: W<U, 3, 3, std::less<U>>::F(sx_param(1), sx_param(2)); break; \
  case 1: W<U, 3, 3, mbo::types::CompareLess<U>>::F(sx_param(1), sx_param(2)); break; \
  case 2: W<U, 3, 3, Greater<U>>::F(sx_param(1), sx_param(2)); break; \
  case 3: W<U, 3, 3, Half<U>>::F(sx_param(1), sx_param(2)); break; \
  case 4: W<U, kNoOpt, 3, std::less<U>>::F(sx_param(1), sx_param(2)); break; \
  case 5: W<U, kSorted, 3, std::less<U>>::F(sx_param(1), sx_param(2)); break; \
  case 6: W<U, 3, 3, Dir<U>>::F(sx_param(1), sx_param(2)); break; \
  case 7: W<U, kCustom, 17, std::less<U>>::F(sx_param(1), sx_param(2)); break; \
  case 8: W<U, kCustom, 17, mbo::types::CompareLess<U>>::F(sx_param(1), sx_param(2)); break; \
  case 9: W<U, 1, 1, std::less<U>>::F(sx_param(1), sx_param(2)); break; \
  case 10: W<U, 4, 4, std::less<U>>::F(sx_param(1), sx_param(2)); break; \
  case 11: W<U, kNoOpt, 3, Half<U>>::F(sx_param(1), sx_param(2)); break; \
  case 12: W<U, 8, 8, std::less<U>>::F(sx_param(1), sx_param(2)); break; \
  default: break; }
#define KINDT(W, F) switch (sx_param(0)) { case 0: W<Tok, 3, 3, std::less<Tok>>::F(sx_param(1), sx_param(2)); break; case 1: W<Tok, 3, 3, mbo::types::CompareLess<Tok>>::F(sx_param(1), sx_param(2)); break; case 2: W<Tok, 4, 4, Half<Tok>>::F(sx_param(1), sx_param(2)); break; default: break; }
#ifdef DO_SET
SX_JOB set_step() { KIND(SW, step) }       // (kind, size, operation)
SX_JOB set_hist() { KIND(SW, hist) }       // (kind, size, length)
SX_JOB set_beyond() { KIND(SW, beyond) }
SX_JOB set_tok() { KINDT(SW, step) }
SX_JOB set_tok_hist() { KINDT(SW, hist) }
#endif
#ifdef DO_MAP
SX_JOB map_step() { KIND(MW, step) }
SX_JOB map_hist() { KIND(MW, hist) }
SX_JOB map_beyond() { KIND(MW, beyond) }
SX_JOB map_tok() { KINDT(MW, step) }
SX_JOB map_tok_hist() { KINDT(MW, hist) }
#endif
