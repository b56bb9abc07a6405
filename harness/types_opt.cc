// T03: OptionalRef, RefWrap and Required under every history of operations.
#include <optional>
#include <string>
#include <string_view>
#include "mbo/types/optional_ref.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/required.h"
#include "tok.h"
namespace mbo::log { std::string Demangle(const char* /*name*/) { return {}; } }  // text of fatal messages only
using namespace mbo::types;
namespace {
constexpr int kT = 3;
int ord(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
int ord3(uint32_t a, uint32_t b) { return static_cast<int>(a > b) - static_cast<int>(a < b); }
template<typename T> struct Cells {
  T c[kT] = {T(u32("c", 0)), T(u32("c", 1)), T(u32("c", 2))}; uint32_t m[kT];
  Cells() { for (int i = 0; i < kT; ++i) m[i] = val(c[i]); }
  void check() { for (int i = 0; i < kT; ++i) sx_assert(val(c[i]) == m[i], "a target changed without being assigned to"); }
};
template<typename T> void state(OptionalRef<T>& r, int k, Cells<std::remove_const_t<T>>& cs) {
  const auto& cr = r;
  sx_assert(r.has_value() == (k >= 0), "has_value does not tell whether the reference is bound");
  sx_assert(static_cast<bool>(r) == (k >= 0), "the bool conversion does not tell whether the reference is bound");
  sx_assert((r == std::nullopt) == (k < 0), "comparison with nullopt does not tell whether the reference is bound");
  sx_assert(!(r < std::nullopt), "a reference orders before nullopt");
  sx_assert(ord(r <=> std::nullopt) == (k >= 0), "the order against nullopt is wrong");
  if (k >= 0) {
    sx_assert(&r.value() == &cs.c[k], "value() is not the bound object"); sx_assert(&cr.value() == &cs.c[k], "const value() is not the bound object");
    sx_assert(&*r == &cs.c[k], "* is not the bound object"); sx_assert(&*cr == &cs.c[k], "const * is not the bound object");
    sx_assert(r.operator->() == &cs.c[k], "-> is not the bound object"); sx_assert(cr.operator->() == &cs.c[k], "const -> is not the bound object");
  }
  cs.check();
}
template<typename T> void step(OptionalRef<T>& r, int& k, Cells<std::remove_const_t<T>>& cs, const char* name, int i) {
  (void)i; size_t op = sx_choice(std::is_const_v<T> ? 5 : 7, name);
  switch (op) {
    case 0: { auto& x = r.reset(); sx_assert(&x == &r, "reset does not return the reference"); k = -1; break; }
    case 1: case 2: case 3: { int t = static_cast<int>(op) - 1; auto& x = r.set_ref(cs.c[t]); sx_assert(&x == &r, "set_ref does not return the reference"); k = t; break; }
    case 4: { OptionalRef<T> c(r); state(c, k, cs); OptionalRef<T> m(std::move(c)); state(m, k, cs); c.reset(); state(m, k, cs); state(r, k, cs); sx_assert(r == m, "a copy is not equal to its source"); break; }
    default: if constexpr (!std::is_const_v<T>) {
      if (k < 0) { break; }
      T v(u32(op == 5 ? "x" : "y", i)); uint32_t w = val(v);
      if (op == 5) { r = v; sx_assert(val(v) == w, "assigning a value changes it"); } else { r = std::move(v); }
      cs.m[k] = w;
    }
  }
  state(r, k, cs);
}
template<typename T> void hist() {
  Cells<std::remove_const_t<T>> cs; int ks = static_cast<int>(sx_choice(3, "start"));
  OptionalRef<T> r = ks == 0 ? OptionalRef<T>() : ks == 1 ? OptionalRef<T>(std::nullopt) : OptionalRef<T>(cs.c[0]); int k = ks == 2 ? 0 : -1;
  state(r, k, cs);
  for (size_t i = 0; i < sx_param(0); ++i) step<T>(r, k, cs, nm("op", i), static_cast<int>(i));
}
template<typename T> OptionalRef<T> mk(T* c, const char* n, int& k) { k = static_cast<int>(sx_choice(3, n)) - 1; return k < 0 ? OptionalRef<T>() : OptionalRef<T>(c[k]); }
template<typename T> void cmp() {
  T c[2] = {T(u32("c", 0)), T(u32("c", 1))}; T o(u32("o", 0)); int i, j; auto a = mk<T>(c, "a", i); auto b = mk<T>(c, "b", j);
  int want = i < 0 || j < 0 ? ord3(i >= 0, j >= 0) : ord3(val(c[i]), val(c[j]));
  sx_assert((a == b) == (want == 0), "== does not compare the targets, with empty equal to empty only");
  sx_assert((a != b) == (want != 0), "!= does not compare the targets");
  sx_assert((a < b) == (want < 0), "< does not compare the targets with empty first");
  sx_assert((a > b) == (want > 0), "> does not compare the targets with empty first");
  sx_assert((a <= b) == (want <= 0), "<= does not compare the targets with empty first");
  sx_assert((a >= b) == (want >= 0), ">= does not compare the targets with empty first");
  sx_assert(ord(a <=> b) == want, "<=> does not compare the targets with empty first");
  int wo = i < 0 ? -1 : ord3(val(c[i]), val(o));
  sx_assert((a == o) == (wo == 0), "== with a value is wrong"); sx_assert((a < o) == (wo < 0), "< with a value is wrong"); sx_assert(ord(a <=> o) == wo, "<=> with a value is wrong");
  sx_assert((a > o) == (wo > 0), "> with a value is wrong"); sx_assert((o < a) == (wo > 0), "a value < a reference is wrong"); sx_assert((o == a) == (wo == 0), "a value == a reference is wrong");
}
template<typename T> void none() {
  T c(u32("c", 0)); OptionalRef<T> r; const OptionalRef<T>& cr = r;
  if (sx_choice(2, "was")) { r.set_ref(c); r.reset(); }
  size_t how = sx_choice(6, "how");
  sx_expect_abort(1);
  uint32_t s = 0;
  switch (how) {
    case 0: s = val(r.value()); break; case 1: s = val(cr.value()); break; case 2: s = val(*r); break; case 3: s = val(*cr); break; case 4: s = val(*r.operator->()); break;
    default: if constexpr (!std::is_const_v<T>) { r = c; } else { s = val(*cr.operator->()); }
  }
  sx_trace(s); sx_fail("access to an empty reference does not stop the program");
}
template<typename T> void wrapstate(RefWrap<T>& r, int k, Cells<T>& cs) {
  const auto& cr = r; cs.check();
  sx_assert(&r.get() == &cs.c[k], "get() is not the bound object"); sx_assert(&cr.get() == &cs.c[k], "const get() is not the bound object"); sx_assert(&*r == &cs.c[k], "* is not the bound object"); sx_assert(&*cr == &cs.c[k], "const * is not the bound object");
  sx_assert(r.operator->() == &cs.c[k], "-> is not the bound object"); sx_assert(cr.operator->() == &cs.c[k], "const -> is not the bound object");
  T& t = r; const T& ct = cr; sx_assert(&t == &cs.c[k], "the conversion is not the bound object"); sx_assert(&ct == &cs.c[k], "the const conversion is not the bound object");
}
template<typename T> void wrapcmp(const RefWrap<T>& r, const RefWrap<T>& o, const T& a, const T& b, const T& x) {
  int ab = static_cast<int>(a > b) - static_cast<int>(a < b), ax = static_cast<int>(a > x) - static_cast<int>(a < x);
  sx_assert(ord(r.template operator<=><T>(o)) == ab, "wrappers do not compare by their targets");
  sx_assert(ord(r <=> x) == ax, "a wrapper does not compare with a value by its target"); sx_assert((r >= x) == (ax >= 0), "a wrapper does not compare with a value by its target (>=)"); sx_assert((x < r) == (ax > 0), "a value does not compare with a wrapper by its target");
}
template<typename T> void wrap() {
  Cells<T> cs; RefWrap<T> r(cs.c[0]); int k = 0; RefWrap<T> o(cs.c[1]); int l = 1;
  for (size_t i = 0; i < sx_param(0); ++i) {
    switch (sx_choice(9, nm("op", i))) {
      case 0: case 1: case 2: break;
      case 3: r = o; k = l; break;
      case 4: r = std::move(o); k = l; break;
      case 5: { RefWrap<T> c(r); wrapstate(c, k, cs); o = c; l = k; break; }
      case 6: { uint32_t v = u32("x", i); r.get() = T(v); cs.m[k] = v; break; }
      case 7: r = cs.c[2]; k = 2; break;
      default: { uint32_t v = u32("y", i); *r = T(v); cs.m[k] = v; break; }
    }
    wrapstate(r, k, cs); wrapstate(o, l, cs);
    if constexpr (std::same_as<T, uint32_t>) { wrapcmp(r, o, cs.m[k], cs.m[l], u32("o", i)); }
  }
}
// Owns heap memory, can be moved into a new object but never assigned.
struct Fixed {
  explicit Fixed(uint32_t v) : t(v) {} Fixed(uint32_t a, uint32_t b) : t(a ^ b) {} Fixed() = default;
  Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; Fixed(Fixed&&) noexcept = default; Fixed& operator=(Fixed&&) = delete;
  const Tok& operator*() const { return t; }
  Tok t;
};
uint32_t val(const Fixed& f) { return *f.t.p; }
void required() {
  uint64_t live = sx_live_allocs();
  {
    uint32_t v = u32("v", 0); size_t how = sx_choice(4, "how");
    Required<Fixed> r = how == 0 ? Required<Fixed>(Fixed(v)) : how == 1 ? Required<Fixed>(v) : how == 2 ? Required<Fixed>(std::in_place, v, v ^ 1) : Required<Fixed>(std::in_place, v);
    if (how == 2) v = 1;
    for (size_t i = 0; i < sx_param(0); ++i) {
      switch (sx_choice(5, nm("op", i))) {
        case 0: { Fixed f(u32("w", i)); v = val(f); auto& x = r.emplace(std::move(f)); sx_assert(&x == &r, "emplace does not return the object"); break; }
        case 1: v = u32("x", i); r.emplace(v); break;
        case 2: { uint32_t a = u32("p", i), b = u32("q", i); v = a ^ b; r.emplace(a, b); break; }
        case 3: { Required<Fixed> n(std::move(r)); sx_assert(val(*n) == v, "a moved value is not the value"); r.emplace(std::move(*n)); break; }
        default: v = 0; r.emplace(); break;
      }
      const auto& cr = r; sx_assert(val(r.get()) == v, "get() is not the value given last"); sx_assert(val(cr.get()) == v, "const get() is not the value given last");
      sx_assert(val(*r) == v, "* is not the value given last"); sx_assert(val(*cr) == v, "const * is not the value given last"); sx_assert(r.operator->() == &r.get(), "-> is not the value"); sx_assert(cr.operator->() == &r.get(), "const -> is not the value");
      Fixed& f = r; const Fixed& cf = cr; sx_assert(&f == &r.get(), "the conversion is not the value"); sx_assert(&cf == &r.get(), "the const conversion is not the value");
    }
  }
  sx_assert(sx_live_allocs() == live, "a required value is not destroyed exactly once");
}
void reqcopy() {
  uint64_t live = sx_live_allocs();
  {
    uint32_t v = u32("v", 0), w = u32("w", 0); Required<Tok> r{Tok(v)}, q{Tok(w)};
    Required<uint32_t> rv(v), qv(w);
    sx_assert(ord(rv.operator<=><uint32_t>(qv)) == ord3(v, w), "required values do not compare by value"); sx_assert(ord(rv <=> w) == ord3(v, w), "a required value does not compare with a value");  sx_assert((rv >= w) == (v >= w), "a required value does not compare with a value (>=)");
    Required<Tok> c(q); c.emplace(r.get()); sx_assert(val(*c) == v, "emplace of a copy is not the value"); sx_assert(val(*r) == v, "emplace changes its argument"); sx_assert(val(*q) == w, "a copy is not independent");
    c.emplace(c.get()); sx_assert(val(*c) == v, "emplace of the own value loses it");
    c = q; sx_assert(val(*c) == w, "copy assignment is not the value"); c = std::move(r); sx_assert(val(*c) == v, "move assignment is not the value");
    Required<uint64_t> n(v); sx_assert(n.get() == v, "a converted value is not the value"); n.emplace(w); sx_assert(*n == w, "a converted value is not the value (emplace)");
  }
  sx_assert(sx_live_allocs() == live, "a required value is not destroyed exactly once");
}
}  // namespace
SX_JOB ref_hist() { if (sx_param(1) == 0) { hist<uint32_t>(); } else if (sx_param(1) == 1) { hist<Tok>(); } else { hist<const Tok>(); } }
SX_JOB ref_cmp() { if (sx_param(0)) { cmp<Tok>(); } else { cmp<uint32_t>(); } }
SX_JOB ref_none() { if (sx_param(0) == 0) { none<uint32_t>(); } else if (sx_param(0) == 1) { none<Tok>(); } else { none<const Tok>(); } }
SX_JOB wrap_hist() { if (sx_param(1)) { wrap<Tok>(); } else { wrap<uint32_t>(); } }
SX_JOB req_hist() { required(); }
SX_JOB req_copy() { reqcopy(); }
