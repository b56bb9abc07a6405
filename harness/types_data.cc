// T04: OptionalDataOrRef under every history of operations on two objects.
#include <optional>
#include <string>
#include "mbo/types/optional_data_or_ref.h"
#include "tok.h"
namespace mbo::log { std::string Demangle(const char* /*name*/) { return {}; } }  // text of fatal messages only
#ifdef CONST_REF
using O = mbo::types::OptionalDataOrConstRef<Tok>; constexpr bool kConst = true;
#else
using O = mbo::types::OptionalDataOrRef<Tok>; constexpr bool kConst = false;
#endif
namespace {
constexpr int kOwn = 9, kNone = -1;  // otherwise: the index of the target
int ord(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
int ord3(uint32_t a, uint32_t b) { return static_cast<int>(a > b) - static_cast<int>(a < b); }
struct Sys {
  Tok c[2] = {Tok(u32("c", 0)), Tok(u32("c", 1))}; uint32_t m[2];
  O a, b; int ka = kNone, kb = kNone; uint32_t va = 0, vb = 0;
  Sys() { m[0] = val(c[0]); m[1] = val(c[1]); }
  uint32_t value(int k, uint32_t v) { return k == kOwn ? v : m[k]; }
  void one(O& o, int k, uint32_t v) {
    const O& co = o;
    sx_assert(o.has_value() == (k != kNone), "has_value is wrong"); sx_assert(static_cast<bool>(o) == (k != kNone), "the bool conversion is wrong");
    sx_assert(o.HoldsData() == (k == kOwn), "HoldsData is wrong"); sx_assert(o.HoldsNullopt() == (k == kNone), "HoldsNullopt is wrong"); sx_assert(o.HoldsReference() == (k != kNone && k != kOwn), "HoldsReference is wrong");
    sx_assert((o == std::nullopt) == (k == kNone), "== nullopt is wrong"); sx_assert(ord(o <=> std::nullopt) == (k != kNone), "the order against nullopt is wrong"); sx_assert(!(o < std::nullopt), "an object orders before nullopt");
    Tok d(7);
    if (k == kNone) { sx_assert(&co.get(d) == &d, "get of an empty object is not the default"); return; }
    sx_assert(val(o.value()) == value(k, v), "value() is not the value given last"); sx_assert(val(*co) == value(k, v), "* is not the value given last");
    sx_assert(&co.value() == &o.value(), "value() and const value() differ"); sx_assert(&*o == &o.value(), "* and value() differ"); sx_assert(o.operator->() == &o.value(), "-> and value() differ"); sx_assert(co.operator->() == &o.value(), "const -> and value() differ");
    sx_assert(&co.get(d) == &o.value(), "get of a set object is not its value");
    bool alias = &o.value() == &c[0] || &o.value() == &c[1];
    if (k == kOwn) { sx_assert(!alias, "an owning object refers to foreign data"); } else { sx_assert(&o.value() == &c[k], "a referring object does not refer to its target"); }
  }
  void check() {
    one(a, ka, va); one(b, kb, vb);
    if (ka != kNone && ka == kOwn && kb == kOwn) { sx_assert(&a.value() != &b.value(), "two objects share owned data"); }
    sx_assert(val(c[0]) == m[0], "a target changed without being assigned to"); sx_assert(val(c[1]) == m[1], "a target changed without being assigned to (1)");
  }
  void start(O& o, int& k, uint32_t& v, const char* n) {
    switch (sx_param(1) ? sx_param(*(n + 1) == 'a' ? 2 : 3) : sx_choice(3, n)) { case 0: break; case 1: v = u32(n, 0); o.emplace(v); k = kOwn; break; default: o.set_ref(c[0]); k = 0; }
  }
  void step(const char* n, size_t i, bool first) {
    O& x = first ? a : b; O& y = first ? b : a; int& k = first ? ka : kb; int& l = first ? kb : ka; uint32_t& v = first ? va : vb; uint32_t& w = first ? vb : va;
    O* r = &x; size_t op = sx_choice(17, n);
    switch (op) {
      case 0: r = &x.reset(); k = kNone; break;
      case 1: r = &(x = std::nullopt); k = kNone; break;
      case 2: v = u32("e", i); r = &x.emplace(v); k = kOwn; break;
      case 3: { Tok t(u32("t", i)); v = val(t); r = &(x = std::move(t)); k = kOwn; break; }
      case 4: r = &x.set_ref(c[0]); k = 0; break;
      case 5: r = &x.set_ref(c[1]); k = 1; break;
      case 6: r = &(x = y); k = l; v = w; break;
      case 7: r = &(x = std::move(y)); k = l; v = w; if (l == kOwn) { l = kNone; } else { if (!y.has_value()) l = kNone; } break;
      case 8: { O* p = &x; r = &(x = *p); break; }
      case 9: { O* p = &x; r = &(x = std::move(*p)); break; }
      case 10: { uint32_t d = u32("d", i); Tok& t = x.as_data(d); if (k == kNone) { v = d; } else if (k != kOwn) { v = m[k]; } k = kOwn; sx_assert(&t == &x.value(), "as_data does not return the owned value"); break; }
      case 11: { Tok& t = x.as_data(); if (k == kNone) { v = 0; } else if (k != kOwn) { v = m[k]; } k = kOwn; uint32_t d = u32("s", i); t = Tok(d); v = d; break; }
      case 12: { O z(x); one(z, k, v); x.reset(); if (k == kOwn) one(z, k, v); k = kNone; break; }
      case 13: { O z(std::move(x)); one(z, k, v); if (k == kOwn || !x.has_value()) { one(x, kNone, 0); } x = std::move(z); break; }
#ifndef CONST_REF
      case 14: { if (k == kNone) break; uint32_t d = u32("f", i); *x = Tok(d); if (k == kOwn) { v = d; } else { m[k] = d; } break; }
      case 15: { Tok t(u32("g", i)); uint32_t d = val(t); r = &(x = t); sx_assert(val(t) == d, "assigning an lvalue changes it"); if (k == kNone || k == kOwn) { k = kOwn; v = d; } else { m[k] = d; } break; }
#endif
      default: { uint32_t d = u32("h", i); c[1] = Tok(d); m[1] = d; break; }
    }
    sx_assert(r == &x, "an operation does not return the object");
    check();
  }
};
}  // namespace
SX_JOB hist() {
  uint64_t live = sx_live_allocs();
  { Sys s; s.start(s.a, s.ka, s.va, "sa"); s.start(s.b, s.kb, s.vb, "sb"); s.check(); for (size_t i = 0; i < sx_param(0); ++i) s.step(nm("op", i), i, sx_choice(2, nm("who", i)) == 0); }
  sx_assert(sx_live_allocs() == live, "an owned value is not destroyed exactly once");
}
SX_JOB build() {
  uint64_t live = sx_live_allocs();
  { Sys s; uint32_t v = u32("v", 0);
    { O o; s.one(o, kNone, 0); } { O o(std::nullopt); s.one(o, kNone, 0); } { O o(Tok{v}); s.one(o, kOwn, v); } { O o(s.c[0]); s.one(o, 0, 0); }
    
#ifdef CONST_REF
    { const Tok& t = s.c[1]; O o(t); s.one(o, 1, 0); }
#endif
   
    { O o; const O n = o; O p(n); s.one(p, kNone, 0); } s.check(); }
  sx_assert(sx_live_allocs() == live, "an owned value is not destroyed exactly once (construction)");
}
SX_JOB compare() {
  Sys s; s.start(s.a, s.ka, s.va, "sa"); s.start(s.b, s.kb, s.vb, "sb");
  bool ha = s.ka != kNone, hb = s.kb != kNone; uint32_t x = ha ? s.value(s.ka, s.va) : 0, y = hb ? s.value(s.kb, s.vb) : 0;
  int want = ha && hb ? ord3(x, y) : static_cast<int>(ha) - static_cast<int>(hb);
#ifndef CONST_REF
  sx_assert((s.a == s.b) == (want == 0), "== does not compare the values with empty first"); sx_assert((s.a < s.b) == (want < 0), "< does not compare the values with empty first"); sx_assert((s.a != s.b) == (want != 0), "!= does not compare the values with empty first");
  sx_assert(ord(s.a <=> s.b) == want, "<=> does not compare the values with empty first"); sx_assert((s.a > s.b) == (want > 0), "> does not compare the values with empty first"); sx_assert((s.a <= s.b) == (want <= 0), "<= does not compare the values with empty first"); sx_assert((s.a >= s.b) == (want >= 0), ">= does not compare the values with empty first");
#endif
  Tok o(u32("o", 0)); int wo = ha ? ord3(x, val(o)) : -1;
  sx_assert((s.a == o) == (wo == 0), "== with a value is wrong"); sx_assert((s.a < o) == (wo < 0), "< with a value is wrong"); sx_assert(ord(s.a <=> o) == wo, "<=> with a value is wrong"); sx_assert((s.a > o) == (wo > 0), "> with a value is wrong"); sx_assert((o < s.a) == (wo > 0), "a value < an object is wrong");
}
SX_JOB none() {
  Sys s; size_t was = sx_choice(3, "was"); if (was == 1) { s.a.emplace(3U); s.a.reset(); } else if (was == 2) { s.a.set_ref(s.c[0]); s.a.reset(); }
  const O& c = s.a; size_t how = sx_choice(5, "how"); sx_expect_abort(1); uint32_t v = 0;
  switch (how) { case 0: v = val(s.a.value()); break; case 1: v = val(c.value()); break; case 2: v = val(*s.a); break; case 3: v = val(*c); break; default: v = val(*c.operator->()); }
  sx_trace(v); sx_fail("access to an empty object does not stop the program");
}
