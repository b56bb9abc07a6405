// LimitedVector against a plain array: every operation from every state of a small capacity, and short histories.
#include "tok.h"
#include <array>
#include <initializer_list>
#include <iterator>
#include <string_view>
#include <utility>
#include "mbo/container/limited_vector.h"
using mbo::container::LimitedVector;
using mbo::container::LimitedOptions;
using mbo::container::LimitedOptionsFlag;
namespace {
template <class T, size_t C> struct W {
  using V = LimitedVector<T, C>;
  static void same(const V& c, const Model& m) {
    sx_assert(c.size() == m.n, "size equals the model's");
    sx_assert(c.empty() == (m.n == 0), "empty() agrees");
    sx_assert(c.capacity() == C, "capacity()"); sx_assert(c.max_size() == C, "max_size()");
    sx_assert(static_cast<size_t>(c.end() - c.begin()) == m.n, "end() - begin() is the size");
    size_t i = 0;
    for (const T& x : c) { if (i < m.n) sx_assert(val(x) == m.v[i], "iteration yields the model's elements"); ++i; }
    sx_assert(i == m.n, "iteration visits size elements");
    for (i = 0; i < m.n; ++i) { sx_assert(val(c.at(i)) == m.v[i], "at(i)"); sx_assert(val(c[i]) == m.v[i], "operator[]"); sx_assert(val(c.data()[i]) == m.v[i], "data()[i]"); }
    if (m.n) { sx_assert(val(c.front()) == m.v[0], "front()"); sx_assert(val(c.back()) == m.v[m.n - 1], "back()"); }
    i = m.n; for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; sx_assert(val(*it) == m.v[i], "reverse iteration"); }
    sx_assert(i == 0, "reverse iteration visits size elements");
    i = m.n; for (auto it = c.crbegin(); it != c.crend(); ++it) { --i; sx_assert(val(*it) == m.v[i], "const reverse iteration"); }
    i = 0; for (auto it = c.cbegin(); it != c.cend(); ++it) { sx_assert(val(*it) == m.v[i], "const iteration"); ++i; }
  }
  static void rw(V& c, const Model& m) {  // the mutable accessors
    for (size_t i = 0; i < m.n; ++i) { sx_assert(&c.at(i) == &c[i], "at and [] name one element"); sx_assert(&c[i] == c.begin() + i, "elements are contiguous"); sx_assert(val(c.at(i)) == m.v[i], "at(i)"); }
    size_t i = m.n; for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; sx_assert(val(*it) == m.v[i], "reverse iteration"); }
    if (m.n) { sx_assert(&c.front() == c.begin(), "front() is the first"); sx_assert(&c.back() == c.end() - 1, "back() is the last"); }
  }
  static void fill(V& c, Model& m, size_t n, const char* name) { for (size_t i = 0; i < n; ++i) { uint32_t x = u32(name, i); c.push_back(T(x)); m.push(x); } }
  // A container that was moved from holds no dead elements and can be used again.
  static void usable(V& c) {
    size_t n = c.size(); sx_assert(n <= C, "moved-from size within capacity");
    for (const T& x : c) sx_trace(val(x) * 0);
    c.clear(); sx_assert(c.empty(), "clear() empties");
    if (C) { c.push_back(T(77U)); sx_assert(val(c.back()) == 77, "usable after a move"); }
  }
  static size_t pos(const V& c, size_t p, typename V::const_iterator it) { (void)p; return static_cast<size_t>(it - c.begin()); }
  static void op(size_t o, V& c, Model& m) {
    const size_t n = m.n, room = C - n;
    switch (o) {
      case 0: { if (!room) return; uint32_t x = u32("x", 0); const T t(x); auto& r = c.push_back(t); m.push(x); sx_assert(&r == &c.back(), "push_back returns the new element"); sx_assert(val(t) == x, "push_back copies"); break; }
      case 1: { if (!room) return; uint32_t x = u32("x", 0); auto& r = c.push_back(T(x)); m.push(x); sx_assert(&r == &c.back(), "push_back returns the new element"); break; }
      case 2: { if (!room) return; uint32_t x = u32("x", 0); auto& r = c.emplace_back(x); m.push(x); sx_assert(&r == &c.back(), "emplace_back returns the new element"); break; }
      case 3: { if (!n) return; c.pop_back(); --m.n; break; }
      case 4: { if (!room) return; size_t p = sx_choice(n + 1, "p"); uint32_t x = u32("x", 0); const T t(x); auto it = c.insert(c.cbegin() + p, t); m.ins(p, 1, &x, true); sx_assert(pos(c, p, it) == p, "insert returns the position"); sx_assert(val(t) == x, "insert copies"); break; }
      case 5: { if (!room) return; size_t p = sx_choice(n + 1, "p"); uint32_t x = u32("x", 0); auto it = c.insert(c.begin() + p, T(x)); m.ins(p, 1, &x, true); sx_assert(pos(c, p, it) == p, "insert returns the position"); break; }
      case 6: { size_t p = sx_choice(n + 1, "p"), k = sx_choice(room + 1, "k"); uint32_t x = u32("x", 0); const T t(x); auto it = c.insert(c.cbegin() + p, k, t); m.ins(p, k, &x, true); sx_assert(pos(c, p, it) == p, "insert returns the position"); sx_assert(val(t) == x, "insert copies"); break; }
      case 7: { size_t p = sx_choice(n + 1, "p"), k = sx_choice(room + 1, "k"); uint32_t x[C + 1]; uint32_t y[C + 1]; for (size_t i = 0; i < k; ++i) y[i] = x[i] = u32("x", i); auto it = c.insert(c.cbegin() + p, &y[0], &y[0] + k); m.ins(p, k, x, false); sx_assert(pos(c, p, it) == p, "insert returns the position"); break; }
      case 8: { if (room < 2) return; size_t p = sx_choice(n + 1, "p"); uint32_t x[2] = {u32("x", 0), u32("x", 1)}; auto it = c.insert(c.cbegin() + p, std::initializer_list<T>{T(x[0]), T(x[1])}); m.ins(p, 2, x, false); sx_assert(pos(c, p, it) == p, "insert returns the position"); break; }
      case 9: { if (!room) return; size_t p = sx_choice(n + 1, "p"); uint32_t x = u32("x", 0); auto it = c.emplace(c.cbegin() + p, x); m.ins(p, 1, &x, true); sx_assert(pos(c, p, it) == p, "emplace returns the position"); break; }
      case 10: { if (!n) return; size_t p = sx_choice(n, "p"); auto it = c.erase(c.cbegin() + p); m.del(p, 1); sx_assert(pos(c, p, it) == p, "erase returns the next position"); break; }
      case 11: { size_t p = sx_choice(n + 1, "p"), k = sx_choice(n - p + 1, "k"); auto it = c.erase(c.cbegin() + p, c.cbegin() + p + k); m.del(p, k); sx_assert(pos(c, p, it) == p, "erase returns the next position"); break; }
      case 12: { c.clear(); m.n = 0; break; }
      case 13: { size_t k = sx_choice(C + 1, "k"); c.resize(k); while (m.n < k) m.push(0); m.n = k; break; }
      case 14: { size_t k = sx_choice(C + 1, "k"); uint32_t x = u32("x", 0); const T t(x); c.assign(k, t); m.n = 0; while (m.n < k) m.push(x); break; }
      case 15: { size_t k = sx_choice(C + 1, "k"); T y[C + 1]; m.n = 0; for (size_t i = 0; i < k; ++i) { uint32_t x = u32("x", i); y[i] = T(x); m.push(x); } const T* b = &y[0]; c.assign(b, b + k); for (size_t i = 0; i < k; ++i) sx_assert(val(y[i]) == m.v[i], "assign from const iterators copies"); break; }
      case 16: { uint32_t x0 = u32("x", 0), x1 = u32("x", 1); if (C < 2) return; c.assign({T(x0), T(x1)}); m.n = 0; m.push(x0); m.push(x1); break; }
      case 17: { V d(c); same(d, m); same(c, m); V e(d); d.clear(); same(e, m); if (n) { e.at(0) = T(5U); } break; }
      case 18: { size_t k = sx_choice(C + 1, "k"); V d; Model e; fill(d, e, k, "d"); c = d; m = e; same(d, e); break; }
      case 19: { V& r = c; c = r; break; }
      case 20: { V d(std::move(c)); same(d, m); usable(c); V e(std::move(d)); usable(d); c = std::move(e); usable(e); break; }
      case 21: { size_t k = sx_choice(C + 1, "k"); V d; Model e; fill(d, e, k, "d"); c = std::move(d); m = e; usable(d); break; }
      case 22: { size_t k = sx_choice(C + 1, "k"); V d; Model e; fill(d, e, k, "d"); c.swap(d); same(d, m); same(c, e); d.swap(c); same(d, e); same(c, m); c.swap(d); m = e; break; }
      case 23: { if (!room) return; if (!n) return; size_t i = sx_choice(n, "i"); uint32_t x = m.v[i]; c.push_back(c[i]); m.push(x); break; }
      case 24: { if (!room) return; if (!n) return; size_t i = sx_choice(n, "i"), p = sx_choice(n + 1, "p"); uint32_t x = m.v[i]; c.insert(c.cbegin() + p, c[i]); m.ins(p, 1, &x, true); break; }
      case 25: { if (!room) return; if (!n) return; size_t i = sx_choice(n, "i"), p = sx_choice(n + 1, "p"), k = sx_choice(room + 1, "k"); uint32_t x = m.v[i]; c.insert(c.cbegin() + p, k, c[i]); m.ins(p, k, &x, true); break; }
      case 26: { if (!room) return; if (!n) return; size_t i = sx_choice(n, "i"), p = sx_choice(n + 1, "p"); uint32_t x = m.v[i]; c.emplace(c.cbegin() + p, std::as_const(c)[i]); m.ins(p, 1, &x, true); break; }
      case 27: { if (!room) return; if (!n) return; size_t i = sx_choice(n, "i"); uint32_t x = m.v[i]; c.emplace_back(c.at(i)); m.push(x); break; }
      case 28: { if (!room) return; if (!n) return; size_t i = sx_choice(n, "i"), p = sx_choice(n + 1, "p"); uint32_t x = m.v[i]; const T& r = c[i]; c.insert(c.cbegin() + p, r); m.ins(p, 1, &x, true); break; }
      case 29: { LimitedVector<T, C + 2> d(c); sx_assert(d.size() == n, "converting copy keeps the size"); for (size_t i = 0; i < n; ++i) sx_assert(val(d.at(i)) == m.v[i], "converting copy keeps the elements"); same(c, m); LimitedVector<T, C + 1> e; for (size_t k = sx_choice(C + 2, "k"); k > 0; --k) e.push_back(T(1U)); e = c; sx_assert(e.size() == n, "converting assignment keeps the size"); for (size_t i = 0; i < n; ++i) sx_assert(val(e.at(i)) == m.v[i], "converting assignment keeps the elements"); break; }
      case 30: { V c2(c); LimitedVector<T, C + 2> d(std::move(c)); sx_assert(d.size() == n, "converting move keeps the size"); for (size_t i = 0; i < n; ++i) sx_assert(val(d.at(i)) == m.v[i], "converting move keeps the elements"); usable(c); LimitedVector<T, C + 1> e; for (size_t k = sx_choice(C + 2, "k"); k > 0; --k) e.push_back(T(1U)); e = std::move(c2); sx_assert(e.size() == n, "converting move assignment keeps the size"); for (size_t i = 0; i < n; ++i) sx_assert(val(e.at(i)) == m.v[i], "converting move assignment keeps the elements"); usable(c2); m.n = c.size(); for (size_t i = 0; i < m.n; ++i) m.v[i] = val(c[i]); break; }
      case 31: { LimitedVector<T, C + 2> d; Model e; size_t k = sx_choice(C + 1, "k"); for (size_t i = 0; i < k; ++i) { uint32_t x = u32("d", i); d.push_back(T(x)); e.push(x); } d.swap(c); same(c, e); sx_assert(d.size() == n, "swap across capacities: size"); for (size_t i = 0; i < n; ++i) sx_assert(val(d.at(i)) == m.v[i], "swap across capacities: elements"); m = e; break; }
      case 32: { const T* b = c.data(); V d(b, b + n); same(d, m); break; }
      case 33: { if (C < 3) return; uint32_t x[3] = {u32("x", 0), u32("x", 1), u32("x", 2)}; V d{T(x[0]), T(x[1]), T(x[2])}; Model e; for (uint32_t y : x) e.push(y); same(d, e); break; }
      case 34: { c.reserve(sx_range(0, C, "r")); c.shrink_to_fit(); break; }
      case 35: { if (!n) return; size_t i = sx_choice(n, "i"); uint32_t x = u32("x", 0); switch (sx_choice(5, "how")) { case 0: c[i] = T(x); break; case 1: c.at(i) = T(x); break; case 2: *(c.begin() + i) = T(x); break; case 3: i = 0; c.front() = T(x); break; default: i = n - 1; c.back() = T(x); } m.v[i] = x; break; }
      default: { size_t k = sx_choice(n + 1, "k"); while (m.n > k) { c.pop_back(); --m.n; } break; }
    }
  }
  static constexpr size_t kOps = 37;
  static void step(size_t n, size_t o) {  // one operation from any contents of size n
    uint64_t live = sx_live_allocs();
    { V c; Model m; fill(c, m, n, "e"); op(o, c, m); same(c, m); rw(c, m); sx_trace(m.n); }
    sx_assert(sx_live_allocs() == live, "every element is destroyed exactly once");
  }
  static void hist(size_t n, size_t len) {
    static constexpr size_t kSet[] = {1, 4, 6, 9, 10, 11, 13, 20, 22, 24, 26, 36};
    uint64_t live = sx_live_allocs();
    { V c; Model m; fill(c, m, n, "e"); for (size_t s = 0; s < len; ++s) { op(kSet[sx_choice(std::size(kSet), "op")], c, m); same(c, m); } rw(c, m); }
    sx_assert(sx_live_allocs() == live, "every element is destroyed exactly once");
  }
  // Operations beyond capacity or bounds.
  static void beyond(size_t n, size_t o) {
    V c; Model m; fill(c, m, n, "e");
    const size_t room = C - n;
    sx_expect_abort(1);
    switch (o) {
      case 0: if (room) break; c.push_back(T(1U)); sx_fail("push_back beyond capacity returned");
      case 1: { if (room) break; const T t(1U); c.push_back(t); sx_fail("push_back beyond capacity returned"); }
      case 2: if (room) break; c.emplace_back(1U); sx_fail("emplace_back beyond capacity returned");
      case 3: if (n) break; c.pop_back(); sx_fail("pop_back of an empty vector returned");
      case 4: { if (room) break; size_t p = sx_choice(n + 1, "p"); const T t(1U); c.insert(c.cbegin() + p, t); sx_fail("insert beyond capacity returned"); }
      case 5: { if (room) break; size_t p = sx_choice(n + 1, "p"); c.insert(c.cbegin() + p, T(1U)); sx_fail("insert beyond capacity returned"); }
      case 6: { size_t p = sx_choice(n + 1, "p"); uint64_t k = sx_u64("k"); sx_assume(k > room); const T t(1U); c.insert(c.cbegin() + p, k, t); sx_fail("insert of too many elements returned"); }
      case 7: { size_t p = sx_choice(n + 1, "p"), k = room + 1 + sx_choice(3, "k"); uint32_t y[C + 8] = {}; c.insert(c.cbegin() + p, &y[0], &y[0] + k); sx_fail("insert of too long a range returned"); }
      case 8: { size_t p = sx_choice(n + 1, "p"); if (room >= 2) break; c.insert(c.cbegin() + p, std::initializer_list<T>{T(1U), T(2U)}); sx_fail("insert of too long a list returned"); }
      case 9: { if (room) break; size_t p = sx_choice(n + 1, "p"); c.emplace(c.cbegin() + p, 1U); sx_fail("emplace beyond capacity returned"); }
      case 10: c.erase(c.cend()); sx_fail("erase(end()) returned");
      case 11: if (n >= C) break; c.erase(c.cend() + 1); sx_fail("erase beyond the end returned");
      case 12: { size_t p = sx_choice(n + 1, "p"); if (n >= C) break; c.erase(c.cbegin() + p, c.cend() + 1); sx_fail("erase of a range beyond the end returned"); }
      case 13: { if (!n) break; size_t p = sx_choice(n, "p"); c.erase(c.cbegin() + p + 1, c.cbegin() + p); sx_fail("erase of a reversed range returned"); }
      case 14: { uint64_t k = sx_u64("k"); sx_assume(k > C); c.resize(k); sx_fail("resize beyond capacity returned"); }
      case 15: { uint64_t k = sx_u64("k"); sx_assume(k > C); const T t(1U); c.assign(k, t); sx_fail("assign of too many elements returned"); }
      case 16: { T y[C + 3]; const T* b = &y[0]; c.assign(b, b + C + 1 + sx_choice(2, "k")); sx_fail("assign of too long a range returned"); }
      case 17: { uint64_t k = sx_u64("k"); sx_assume(k > C); c.reserve(k); sx_fail("reserve beyond capacity returned"); }
      case 18: { uint64_t i = sx_u64("i"); sx_assume(i >= n); sx_trace(val(c.at(i))); sx_fail("at() past the size returned"); }
      case 19: { uint64_t i = sx_u64("i"); sx_assume(i >= n); sx_trace(val(c[i])); sx_fail("operator[] past the size returned"); }
      case 20: { uint64_t i = sx_u64("i"); sx_assume(i >= n); sx_trace(val(std::as_const(c).at(i))); sx_fail("const at() past the size returned"); }
      case 21: { uint64_t i = sx_u64("i"); sx_assume(i >= n); sx_trace(val(std::as_const(c)[i])); sx_fail("const operator[] past the size returned"); }
      case 22: { T y[C + 3]; const T* b = &y[0]; V d(b, b + C + 1 + sx_choice(2, "k")); sx_fail("construction from too long a range returned"); }
      case 23: { if (n >= C) break; if (!n) break; c.insert(c.cend() + 1, T(1U)); sx_fail("insert beyond the end returned"); }
      case 24: { if (n >= C) break; c.emplace(c.cend() + 1, 1U); sx_fail("emplace beyond the end returned"); }
      case 25: { if (n >= C) break; const T t(1U); c.insert(c.cend() + 1, 1, t); sx_fail("insert beyond the end returned"); }
      case 26: { LimitedVector<T, C + 2> d; size_t k = C + 1 + sx_choice(2, "k"); for (size_t i = 0; i < k; ++i) d.push_back(T(1U)); d.swap(c); sx_fail("swap beyond the other's capacity returned"); }
      case 27: { if (n >= C) break; uint32_t y[2] = {}; c.insert(c.cend() + 1, &y[0], &y[0] + 1); sx_fail("insert beyond the end returned"); }
      case 28: { uint32_t y[2] = {}; c.insert(c.cbegin(), &y[0] + 1, &y[0]); sx_fail("insert of a reversed range returned"); }
      case 29: { if constexpr (C == 3) { c.assign({T(1U), T(2U), T(3U), T(4U)}); sx_fail("assign of too long a list returned"); } break; }
      case 30: { if constexpr (C == 3) { V d{T(1U), T(2U), T(3U), T(4U)}; sx_fail("construction from too long a list returned"); } break; }
      case 31: { if (!n) break; c.insert(c.cbegin() - 1, T(1U)); sx_fail("insert before the begin returned"); }
      default: { if (!n) break; c.erase(c.cbegin() - 1); sx_fail("erase before the begin returned"); }
    }
    sx_expect_abort(0); sx_cover("not applicable for this size");
  }
};
template <class T> void byCap(void (*)(size_t, size_t), int) {}
}  // namespace
#define BYCAP(T, F) switch (sx_param(0)) { case 0: W<T, 0>::F(sx_param(1), sx_param(2)); break; case 1: W<T, 1>::F(sx_param(1), sx_param(2)); break; case 2: W<T, 2>::F(sx_param(1), sx_param(2)); break; case 3: W<T, 3>::F(sx_param(1), sx_param(2)); break; case 4: W<T, 4>::F(sx_param(1), sx_param(2)); break; case 9: W<T, 9>::F(sx_param(1), sx_param(2)); break; default: W<T, 5>::F(sx_param(1), sx_param(2)); }
SX_JOB step_int() { BYCAP(uint32_t, step) }    // (capacity, size, operation)
SX_JOB step_tok() { BYCAP(Tok, step) }
SX_JOB hist_int() { BYCAP(uint32_t, hist) }    // (capacity, size, length)
SX_JOB hist_tok() { BYCAP(Tok, hist) }
SX_JOB beyond_int() { BYCAP(uint32_t, beyond) }
SX_JOB beyond_tok() { BYCAP(Tok, beyond) }
SX_JOB make() {  // the helper functions
  using namespace mbo::container;
  uint32_t x[4]; for (size_t i = 0; i < 4; ++i) x[i] = u32("x", i);
  auto eq = [&](const auto& c, size_t n, size_t cap) { sx_assert(c.size() == n, "size"); sx_assert(c.capacity() == cap, "capacity"); for (size_t i = 0; i < n; ++i) sx_assert(c[i] == x[i], "elements in order"); };
  eq(MakeLimitedVector(x[0], x[1], x[2]), 3, 3);
  eq(MakeLimitedVector<5>(std::initializer_list<uint32_t>{x[0], x[1]}), 2, 5);
  const uint32_t* b = x; eq(MakeLimitedVector<6>(b + 0, b + 4), 4, 6);
  eq(ToLimitedVector(x), 4, 4); eq(ToLimitedVector(std::move(x)), 4, 4);
  auto r = MakeLimitedVector<3>(x[0]); sx_assert(r.size() == 3, "repeats"); for (uint32_t y : r) sx_assert(y == x[0], "repeats the value");
  auto z = MakeLimitedVector<uint32_t, 4>(); sx_assert(z.empty(), "empty"); sx_assert(z.capacity() == 4, "capacity");
  auto s = MakeLimitedVector("a", "bc"); sx_assert(s.size() == 2, "text size"); sx_assert(s[0] == "a", "text"); sx_assert(s[1] == "bc", "text");
  LimitedVector d{x[0], x[1]}; eq(d, 2, 2);
  LimitedVector<uint32_t, LimitedOptions<4, LimitedOptionsFlag::kEmptyDestructor>{}> k; k.push_back(x[0]); k.push_back(x[1]); k.erase(k.begin()); sx_assert(k.size() == 1, "size"); sx_assert(k[0] == x[1], "elements");
}
SX_JOB make_tok() {
  using namespace mbo::container;
  uint64_t live = sx_live_allocs();
  { Tok x[2] = {Tok(u32("x", 0)), Tok(u32("x", 1))}; const uint32_t v0 = val(x[0]), v1 = val(x[1]);
    auto a = ToLimitedVector(x); sx_assert(val(x[0]) == v0, "copied"); sx_assert(val(a[1]) == v1, "elements");
    auto b = ToLimitedVector(std::move(x)); sx_assert(val(b[0]) == v0, "moved"); sx_assert(val(b[1]) == v1, "moved");
    auto c = MakeLimitedVector<2>(Tok(v0)); sx_assert(val(c[1]) == v0, "repeats");
    auto d = MakeLimitedVector(Tok(v0), Tok(v1)); sx_assert(val(d[0]) == v0, "elements"); sx_assert(val(d[1]) == v1, "elements"); }
  sx_assert(sx_live_allocs() == live, "every element is destroyed exactly once");
}
