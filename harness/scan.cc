// AnyScan, ConstScan, ConvertingScan and ConvertContainer against the source sequence.
#include "tok.h"
#include <array>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "mbo/container/any_scan.h"
#include "mbo/container/convert_container.h"
#include "mbo/container/limited_map.h"
#include "mbo/container/limited_set.h"
#include "mbo/container/limited_vector.h"
using namespace mbo::container;
namespace {
using U = uint32_t; using Pair = std::pair<const U, U>;
uint64_t num(uint64_t v) { return v; } uint64_t num(const Tok& t) { return ::val(t); } uint64_t num(const Pair& p) { return (uint64_t{p.first} << 32) | p.second; }
// Everything a view must deliver: the n values of w, in order, repeatedly, also through copies.
template <class Scan> void once(Scan& s, const uint64_t* w, size_t n) {
  sx_assert(s.size() == n, "size() is the source's"); sx_assert(s.empty() == (n == 0), "empty() is the source's");
  size_t i = 0; for (auto&& x : s) { sx_assert(i < n, "the scan ends with the source"); if (i < n) sx_assert(num(x) == w[i], "range-for yields the source's elements"); ++i; }
  sx_assert(i == n, "range-for yields every element");
  i = 0; for (auto it = s.begin(); it != s.end(); ++it) { sx_assert(i < n, "the scan ends with the source"); if (i < n) sx_assert(num(*it) == w[i], "iteration yields the source's elements"); if constexpr (requires { it.operator->(); }) sx_assert(num(*it.operator->()) == w[i], "operator->"); ++i; }
  sx_assert(i == n, "iteration yields every element");
  i = 0; for (auto it = s.begin(); it != s.end();) { sx_assert(i < n, "the scan ends with the source"); if (i < n) sx_assert(num(*it++) == w[i], "*it++ yields the element before the increment"); ++i; }
  sx_assert(i == n, "post-increment visits every element");
  i = 0; for (auto it = s.cbegin(); !(it == s.cend()); ++it) { if (i < n) sx_assert(num(*it) == w[i], "cbegin() yields the source's elements"); ++i; }
  sx_assert(i == n, "cbegin() to cend() yields every element");
}
template <class Scan> void equality(Scan& s, size_t n) {  // iterators into the same source are equal exactly at the same position (views by reference, distinct elements)
  for (size_t a = 0; a <= n; ++a) for (size_t b = 0; b <= n; ++b) {
    auto x = s.begin(), y = s.begin(); for (size_t i = 0; i < a; ++i) ++x; for (size_t i = 0; i < b; ++i) ++y;
    sx_assert((x == y) == (a == b), "iterators are equal exactly at the same position"); sx_assert((x != y) == (a != b), "!= is the negation of ==");
  }
}
template <class Scan> void views(Scan& s, const uint64_t* w, size_t n) {
  once(s, w, n); const Scan& c = s; once(c, w, n);
  { Scan d(s); once(d, w, n); Scan e(std::move(d)); once(e, w, n); }
  auto it = s.begin(); Scan f(s); if (n) { sx_assert(num(*it) == w[0], "an iterator of one copy is independent of the other"); auto jt = f.begin(); ++jt; sx_assert(num(*it) == w[0], "an iterator of one copy is independent of the other"); }
  once(s, w, n);
}
struct Src { U x[4]; uint64_t w[4]; size_t n; Src(size_t n_) : n(n_) { for (size_t i = 0; i < n; ++i) { x[i] = u32("x", i); w[i] = x[i]; } } };
template <class C> C from(const Src& s) { C c; for (size_t i = 0; i < s.n; ++i) c.push_back(typename C::value_type(s.x[i])); return c; }
template <> std::forward_list<U> from<std::forward_list<U>>(const Src& s) { std::forward_list<U> c; for (size_t i = s.n; i-- > 0;) c.push_front(s.x[i]); return c; }
template <class C> void any(size_t n) {
  const uint64_t live = sx_live_allocs();
  { Src s(n); using T = typename C::value_type;
    { C c = from<C>(s); AnyScan<T> a(MakeAnyScan(c)); views(a, s.w, n); equality(a, n); for (T& x : a) x = T(static_cast<U>(num(x) ^ 1U)); size_t i = 0; for (const T& x : c) { sx_assert(num(x) == (s.w[i] ^ 1), "AnyScan refers to the source's elements"); ++i; } }
    { AnyScan<T> a(MakeAnyScan(from<C>(s))); views(a, s.w, n); equality(a, n); }
    { const C c = from<C>(s); AnyScan<const T> a(MakeAnyScan(c)); views(a, s.w, n); }
    { AnyScan<T>* p = nullptr; { AnyScan<T> a(MakeAnyScan(from<C>(s))); p = new AnyScan<T>(a); } once(*p, s.w, n); delete p; } }
  sx_assert(sx_live_allocs() == live, "nothing leaks");
}
template <class C> void constScan(size_t n) {
  const uint64_t live = sx_live_allocs();
  { Src s(n); using T = typename C::value_type;
    { const C c = from<C>(s); ConstScan<T> a(MakeConstScan(c)); views(a, s.w, n); equality(a, n); }
    { C c = from<C>(s); ConstScan<T> a(MakeConstScan(c)); views(a, s.w, n); }
    { ConstScan<T>* p = nullptr; { ConstScan<T> a(MakeConstScan(from<C>(s))); p = new ConstScan<T>(a); } views(*p, s.w, n); delete p; } }
  sx_assert(sx_live_allocs() == live, "nothing leaks");
}
template <class C> void convScan(size_t n) {
  const uint64_t live = sx_live_allocs();
  { Src s(n);
    { const C c = from<C>(s); ConvertingScan<uint64_t> a(MakeConvertingScan(c)); views(a, s.w, n); }
    { C c = from<C>(s); ConvertingScan<uint64_t> a(MakeConvertingScan(c)); views(a, s.w, n); }
    { ConvertingScan<uint64_t>* p = nullptr; { ConvertingScan<uint64_t> a(MakeConvertingScan(from<C>(s))); p = new ConvertingScan<uint64_t>(a); } views(*p, s.w, n); delete p; } }
  sx_assert(sx_live_allocs() == live, "nothing leaks");
}
using Set = LimitedSet<U, 4>; using Map = LimitedMap<U, U, 4>;
void ordered(size_t n) {  // sets and maps (const keys)
  const uint64_t live = sx_live_allocs();
  { Src s(n); U y[4]; uint64_t wm[4]; for (size_t i = 0; i < n; ++i) { y[i] = u32("y", i); wm[i] = (uint64_t{s.x[i]} << 32) | y[i]; if (i) sx_assume(s.x[i - 1] < s.x[i]); }
    Set t; Map m; for (size_t i = 0; i < n; ++i) { t.emplace(s.x[i]); m.emplace(s.x[i], y[i]); }
    { ConstScan<U> a(MakeConstScan(t)); views(a, s.w, n); } { ConstScan<U> a(MakeConstScan(Set(t))); views(a, s.w, n); } { ConvertingScan<uint64_t> a(MakeConvertingScan(t)); views(a, s.w, n); }
    { AnyScan<Pair> a(MakeAnyScan(m)); views(a, wm, n); for (auto& [k, v] : a) v ^= 1; size_t i = 0; for (auto& [k, v] : m) { sx_assert(v == (y[i] ^ 1), "AnyScan refers to the source's elements"); v ^= 1; ++i; } }
    { ConstScan<Pair> a(MakeConstScan(m)); views(a, wm, n); equality(a, n); } { ConstScan<Pair> a(MakeConstScan(Map(m))); views(a, wm, n); } }
  sx_assert(sx_live_allocs() == live, "nothing leaks");
}
template <class Scan> void takes(const Scan& s, const uint64_t* w, size_t n) { once(s, w, n); Scan c(s); once(c, w, n); }
void initList() {
  Src s(3); const std::initializer_list<U> il = {s.x[0], s.x[1], s.x[2]};
  takes<ConstScan<U>>(il, s.w, 3); takes<ConvertingScan<uint64_t>>(MakeConvertingScan(il), s.w, 3); takes<AnyScan<const U>>(MakeAnyScan(il), s.w, 3);
  takes<ConstScan<U>>({s.x[0], s.x[1], s.x[2]}, s.w, 3); takes<AnyScan<const U>>({s.x[0], s.x[1], s.x[2]}, s.w, 3); takes<ConvertingScan<U>>({s.x[0], s.x[1], s.x[2]}, s.w, 3);
  const std::array<U, 3> ar = {s.x[0], s.x[1], s.x[2]}; ConstScan<U> a(MakeConstScan(ar)); views(a, s.w, 3);
}
struct Texts { std::vector<std::string> t; Texts(size_t n, size_t len) { for (size_t i = 0; i < n; ++i) { sx::Buf b(len, nm("t", i)); t.emplace_back(b.p, len); } } };
void text(size_t n, size_t len) {  // strings seen as views
  const Texts s(n, len);
  { ConvertingScan<std::string_view> a(MakeConvertingScan(s.t)); ConvertingScan<std::string_view> b(a); for (int r = 0; r < 2; ++r) { size_t i = 0; for (std::string_view v : b) { sx_assert(i < n, "the scan ends with the source"); sx_assert(sx::same(v, s.t[i]), "the strings in order"); ++i; } sx_assert(i == n, "every string"); } }
  { ConvertingScan<std::string> a(MakeConvertingScan(std::vector<std::string>(s.t))); size_t i = 0; for (std::string v : a) { sx_assert(sx::same(v, s.t[i]), "the strings in order"); ++i; } sx_assert(i == n, "every string"); sx_assert(a.size() == n, "size"); }
  { AnyScan<std::string> a(MakeAnyScan(std::vector<std::string>(s.t))); size_t i = 0; for (auto it = a.begin(); it != a.end(); ++it) { std::string v = std::move(*it); sx_assert(sx::same(v, s.t[i]), "elements can be moved out"); ++i; } sx_assert(i == n, "every string"); }
}
void convText(size_t n, size_t len) {
  const Texts k(n, len); std::vector<std::string> s = k.t;
  auto is = [&](const auto& c) { sx_assert(c.size() == n, "as many elements"); size_t i = 0; for (const auto& v : c) { if (i < n) sx_assert(sx::same(v, k.t[i]), "the same elements in order"); ++i; } };
  { std::vector<std::string> v = ConvertContainer(s); is(v); is(s); }
  { std::deque<std::string> v = ConvertContainer(s); is(v); is(s); }
  { std::vector<std::string> v = ConvertContainer(k.t); is(v); is(k.t); }
  { std::vector<std::string> v = ConvertContainer(std::vector<std::string>(s)); is(v); }
  { std::vector<std::string_view> v = ConvertContainer(k.t); is(v); }
  { std::vector<std::string> v = ConvertContainer(s, [](std::string x) { x += '!'; return x; }); sx_assert(v.size() == n, "as many elements"); for (size_t i = 0; i < n; ++i) { sx_assert(v[i].size() == len + 1, "the function is applied"); sx_assert(sx::same(v[i].substr(0, len), k.t[i]), "the function is applied to the element"); } is(s); }
  { std::vector<size_t> v = ConvertContainer(s, [](const std::string& x) { return x.size(); }); sx_assert(v.size() == n, "as many elements"); for (size_t x : v) sx_assert(x == len, "the function is applied"); is(s); }
  { auto up = ConvertContainer(k.t); LimitedVector<std::string, 4> v = up; is(v); LimitedVector<std::string, 4> w = up; is(w); }
}
void conv(size_t n) {
  const uint64_t live = sx_live_allocs();
  { Src s(n); std::vector<U> v = from<std::vector<U>>(s);
    auto is = [&](const auto& c) { sx_assert(c.size() == n, "as many elements"); size_t i = 0; for (const auto& x : c) { if (i < n) sx_assert(num(x) == s.w[i], "the same elements in order"); ++i; } };
    { std::vector<uint64_t> o = ConvertContainer(v); is(o); } { std::deque<U> o = ConvertContainer(v); is(o); } { LimitedVector<U, 4> o = ConvertContainer(v); is(o); } { std::vector<U> o = ConvertContainer(from<LimitedVector<U, 4>>(s)); is(o); }
    { std::vector<Tok> t = from<std::vector<Tok>>(s); std::vector<Tok> o = ConvertContainer(t); is(o); is(t); std::vector<U> p = ConvertContainer(t, [](const Tok& x) { return ::val(x); }); is(p); is(t); std::vector<Tok> q = ConvertContainer(std::move(t)); is(q); }
    { std::vector<U> o = ConvertContainer(v, [](U x) { return ~x; }); sx_assert(o.size() == n, "as many elements"); for (size_t i = 0; i < n; ++i) sx_assert(o[i] == ~s.x[i], "the function is applied in order"); }
    { LimitedSet<U, 4> o = ConvertContainer(v); for (size_t i = 0; i < n; ++i) sx_assert(o.contains(s.x[i]), "every element arrives"); for (U x : o) { bool in = false; for (size_t i = 0; i < n; ++i) in |= x == s.x[i]; sx_assert(in, "only the source's elements"); } }
    if (n == 2) { std::vector<U> o = ConvertContainer({s.x[0], s.x[1]}); is(o); const std::initializer_list<U> il = {s.x[0], s.x[1]}; std::vector<uint64_t> p = ConvertContainer(il); is(p); std::vector<U> q = ConvertContainer(il, [](U x) { return x; }); is(q); } }
  sx_assert(sx_live_allocs() == live, "nothing leaks");
}
void ends(size_t n) {  // dereferencing at the end stops
  Src s(n); std::vector<U> v = from<std::vector<U>>(s); AnyScan<U> a(MakeAnyScan(v)); auto it = a.begin(); for (size_t i = 0; i < n; ++i) ++it;
  sx_assert(it == a.end(), "reaches the end"); sx_assert(it.operator->() == nullptr, "operator-> at the end is null");
  sx_expect_abort(1); sx_trace(*it); sx_fail("dereferenced the end");
}
}  // namespace
SX_JOB scan_any() { switch (sx_param(0)) { case 0: any<std::vector<U>>(sx_param(1)); break; case 2: any<std::deque<U>>(sx_param(1)); break; case 3: any<LimitedVector<U, 4>>(sx_param(1)); break; case 4: any<std::vector<Tok>>(sx_param(1)); break; default: break; } }
SX_JOB scan_const() { switch (sx_param(0)) { case 0: constScan<std::vector<U>>(sx_param(1)); break; case 2: constScan<std::deque<U>>(sx_param(1)); break; case 3: constScan<LimitedVector<U, 4>>(sx_param(1)); break; case 4: constScan<std::vector<Tok>>(sx_param(1)); break; default: break; } }
SX_JOB scan_conv() { switch (sx_param(0)) { case 0: convScan<std::vector<U>>(sx_param(1)); break; case 2: convScan<std::deque<U>>(sx_param(1)); break; case 3: convScan<LimitedVector<U, 4>>(sx_param(1)); break; default: break; } }
SX_JOB scan_ordered() { ordered(sx_param(0)); }
SX_JOB scan_init() { initList(); }
SX_JOB scan_text() { text(sx_param(0), sx_param(1)); }
SX_JOB scan_end() { ends(sx_param(0)); }
SX_JOB convert() { conv(sx_param(0)); }
SX_JOB convert_text() { convText(sx_param(0), sx_param(1)); }
