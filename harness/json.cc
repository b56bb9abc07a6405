// J01: mbo::json::Json keeps, copies, compares and iterates what was stored.
#include <algorithm>
#include <cstdint>
#include <map>
#include <string>
#include <string_view>
#include <vector>
#include "mbo/json/json.h"
#include "sx.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
using mbo::json::Json;
namespace {
#ifdef MBO_ENGINE
std::ios_base::Init streams_ready;
#endif
enum { NUL, ARR, BOO, NUM, OBJ, STR };
struct M {
  int k = NUL; bool b = false, uns = false; int64_t s = 0; uint64_t u = 0; std::string t; std::vector<M> a; std::map<std::string, M> o;
};
const char* nm(const char* base, unsigned i) {
  static char pool[64][16]; static int n = 0; char* p = pool[n++ & 63]; int k = 0;
  while (base[k] && k < 12) { p[k] = base[k]; ++k; }
  p[k++] = static_cast<char>('a' + i % 26); p[k] = 0; return p;
}
void check(const Json& j, const M& m) {
  sx_assert(static_cast<int>(j.GetKind()) == m.k, "the kind is not that of the stored value");
  sx_assert(j.IsNull() == (m.k == NUL) && j.IsArray() == (m.k == ARR) && j.IsBool() == (m.k == BOO) && j.IsObject() == (m.k == OBJ) && j.IsString() == (m.k == STR) && j.IsNumber() == (m.k == NUM), "the kind predicates disagree with the stored value");
  sx_assert(static_cast<bool>(j) == (m.k != NUL), "bool conversion");
  sx_assert((j == std::nullopt) == (m.k == NUL), "comparison with nullopt");
  switch (m.k) {
    case BOO: sx_assert(j == m.b && !(j == !m.b), "the bool read back differs"); sx_assert(j.IsTrue() == m.b && j.IsFalse() == !m.b, "IsTrue/IsFalse"); break;
    case NUM:
      sx_assert(j.IsInteger() && !j.IsFloat() && j.IsSignedInt() == !m.uns && j.IsUnsignedInt() == m.uns, "the number representation");
      if (m.uns) { sx_assert(j == m.u, "the unsigned number read back differs"); sx_assert(!(j == (m.u ^ 1)), "the number equals another one"); }
      else { sx_assert(j == m.s, "the number read back differs"); sx_assert(!(j == (m.s ^ 1)), "the number equals another one"); }
      break;
    case STR: sx_assert(j == std::string_view(m.t), "the string read back differs"); sx_assert(!(j == m.t + "x"), "the string equals a longer one"); break;
    default: break;
  }
  const std::size_t n = m.k == ARR ? m.a.size() : m.k == OBJ ? m.o.size() : 0;
  sx_assert(j.size() == n && j.empty() == (n == 0), "size or empty is wrong");
  if (m.k == ARR) {
    std::size_t i = 0;
    for (const Json& e : j) { sx_assert(i < n, "iteration yields too many elements"); check(e, m.a[i++]); }
    sx_assert(i == n, "iteration yields too few elements");
    for (i = 0; i < n; ++i) sx_assert(&j[i] == &*(j.begin() + static_cast<std::ptrdiff_t>(i)) && &j.at(i) == &j[i], "indexing and iteration disagree");
    i = n; for (auto it = j.rbegin(); it != j.rend(); ++it) { sx_assert(i > 0 && &*it == &j[i - 1], "reverse iteration"); --i; }
    sx_assert(i == 0, "reverse iteration yields too few elements");
    i = 0; for (const Json& e : j.values()) { sx_assert(i < n && &e == &j[i], "values() of an array"); ++i; }
    sx_assert(i == n && j.values().size() == n && j.values().empty() == (n == 0), "values() of an array has the wrong size");
    i = 0; for (const Json& e : j.array_values()) { sx_assert(i < n && &e == &j[i], "array_values()"); ++i; }
    sx_assert(i == n, "array_values() has the wrong size");
    sx_assert(!j.contains("a"), "an array contains a property");
  }
  if (m.k == OBJ) {
    for (const char* key : {"a", "b", "c", ""}) sx_assert(j.contains(key) == (m.o.count(key) != 0), "contains is wrong");
    for (const auto& [key, v] : m.o) check(j[std::string_view(key)], v);
    std::size_t c = 0;
    for (const auto& name : j.property_names()) { sx_assert(m.o.count(name) == 1, "property_names() invents a name"); ++c; }
    sx_assert(c == n, "property_names() has the wrong size");
    c = 0; for (const auto& [name, v] : j.property_pairs()) { sx_assert(&v == &j.at(std::string_view(name)), "property_pairs() pairs a name with another value"); ++c; }
    sx_assert(c == n, "property_pairs() has the wrong size");
    c = 0; for (const Json& v : j.property_values()) { bool f = false; for (const auto& [key, x] : m.o) f |= &j[std::string_view(key)] == &v; sx_assert(f, "property_values() yields something else"); ++c; }
    sx_assert(c == n, "property_values() has the wrong size");
    c = 0; for (const Json& v : j.values()) { bool f = false; for (const auto& [key, x] : m.o) f |= &j[std::string_view(key)] == &v; sx_assert(f, "values() yields something else"); ++c; }
    sx_assert(c == n && j.values().size() == n, "values() of an object has the wrong size");
  }
}
void check_mutable(Json& j, const M& m) {
  std::size_t i = 0;
  if (m.k == ARR) { for (Json& e : j.values()) { sx_assert(i < m.a.size() && &e == &j[i], "values() of a mutable array"); ++i; } sx_assert(i == m.a.size(), "values() of a mutable array has the wrong size"); }
  if (m.k == OBJ) { for (Json& e : j.values()) { check(e, e == std::nullopt ? M() : M(m.o.at([&] { for (const auto& [k, v] : j.property_pairs()) if (&v == &e) return k; return std::string("?"); }()))); ++i; } sx_assert(i == m.o.size(), "values() of a mutable object has the wrong size"); }
}
void both(Json& j, const M& m) { check(j, m); check_mutable(j, m); }
// Leaves: 0 null, 1 bool, 2 signed, 3 unsigned, 4 string of 1, 5 empty array, 6 empty object
void leaf(Json& j, M& m, unsigned kind, const char* base, unsigned i) {
  m = M();
  switch (kind) {
    case 0: j = std::nullopt; break;
    case 1: { const bool b = sx::flag(nm(base, i)); m.k = BOO; m.b = b; j = b; break; }
    case 2: { const int64_t v = static_cast<int64_t>(sx_u64(nm(base, i))); m.k = NUM; m.s = v; j = v; break; }
    case 3: { const uint64_t v = sx_u64(nm(base, i)); m.k = NUM; m.uns = true; m.u = v; j = v; break; }
    case 4: { sx::Buf b(1, nm(base, i)); m.k = STR; m.t = std::string(b.sv()); j = m.t; break; }
    case 5: { Json x; x.MakeArray(); m.k = ARR; j = x; break; }
    default: { Json x; x.MakeObject(); m.k = OBJ; j = x; break; }
  }
}
const char* kKeys[3] = {"a", "b", "c"};
// Shapes: 0..6 leaves; 7 array [x], 8 array [x, y], 9 {a: x}, 10 {b: x, a: y}, 11 {a: [x], b: {c: y}}, 12 [[x], {a: y}]
void tree(Json& j, M& m, unsigned shape, unsigned l1, unsigned l2, const char* base) {
  if (shape < 7) { leaf(j, m, shape, base, 0); return; }
  M x, y; Json jx, jy; leaf(jx, x, l1, base, 1); leaf(jy, y, l2, base, 2);
  j.Reset(); m = M();
  auto arr = [](const M& e) { M r; r.k = ARR; r.a = {e}; return r; };
  auto obj = [](const char* k, const M& e) { M r; r.k = OBJ; r.o[k] = e; return r; };
  switch (shape) {
    case 7: j.emplace_back(jx); m = arr(x); break;
    case 8: j.emplace_back(jx); j.push_back(jy); m = arr(x); m.a.push_back(y); break;
    case 9: j["a"] = jx; m = obj("a", x); break;
    case 10: j["b"] = jx; j.emplace("a", jy); m = obj("b", x); m.o["a"] = y; break;
    case 11: j["a"].emplace_back(jx); j["b"]["c"] = jy; m = obj("a", arr(x)); m.o["b"] = obj("c", y); break;
    default: j.emplace_back(Json()).emplace_back(jx); { Json t; t["a"] = jy; j.emplace_back(t); } m = arr(arr(x)); m.a.push_back(obj("a", y)); break;
  }
}
int ref_cmp_num(const M& a, const M& b) {
  if (!a.uns && !b.uns) return a.s < b.s ? -1 : a.s > b.s;
  if (a.uns && b.uns) return a.u < b.u ? -1 : a.u > b.u;
  if (!a.uns) return a.s < 0 ? -1 : static_cast<uint64_t>(a.s) < b.u ? -1 : static_cast<uint64_t>(a.s) > b.u;
  return -ref_cmp_num(b, a);
}
bool ref_eq(const M& a, const M& b) {
  if (a.k != b.k) return false;
  switch (a.k) {
    case BOO: return a.b == b.b;
    case NUM: return ref_cmp_num(a, b) == 0;
    case STR: return a.t == b.t;
    case ARR: if (a.a.size() != b.a.size()) return false; for (std::size_t i = 0; i < a.a.size(); ++i) if (!ref_eq(a.a[i], b.a[i])) return false; return true;
    case OBJ: { if (a.o.size() != b.o.size()) return false; for (const auto& [k, v] : a.o) { auto it = b.o.find(k); if (it == b.o.end() || !ref_eq(v, it->second)) return false; } return true; }
    default: return true;
  }
}
bool has_obj(const M& a) { if (a.k == OBJ) return true; for (const M& e : a.a) if (has_obj(e)) return true; return false; }
int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0; }
int ref_cmp(const M& a, const M& b) {  // not for objects
  if (a.k != b.k) return a.k < b.k ? -1 : 1;
  switch (a.k) {
    case BOO: return a.b == b.b ? 0 : a.b < b.b ? -1 : 1;
    case NUM: return ref_cmp_num(a, b);
    case STR: { int c = a.t.compare(b.t); return c < 0 ? -1 : c > 0; }
    case ARR: for (std::size_t i = 0; i < a.a.size() && i < b.a.size(); ++i) if (int c = ref_cmp(a.a[i], b.a[i])) return c; return a.a.size() < b.a.size() ? -1 : a.a.size() > b.a.size();
    default: return 0;
  }
}
void compare(const Json& a, const M& ma, const Json& b, const M& mb) {
  const bool eq = ref_eq(ma, mb); const int c = sgn(a <=> b);
  sx_assert((a == b) == eq, "equality is not equality of the data");
  sx_assert((a != b) == !eq, "inequality is not inequality of the data");
  sx_assert((c == 0) == eq, "the order calls different data equal (or equal data different)");
  sx_assert(sgn(b <=> a) == -c, "the order is not antisymmetric");
  sx_assert((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "the comparison operators disagree with the order");
  if (ma.k != mb.k || !(has_obj(ma) || has_obj(mb))) sx_assert(c == ref_cmp(ma, mb), "the order is not by kind, number, text and element");
  sx_assert(a == a && (a <=> a) == 0, "a value differs from itself");
}
}  // namespace

#ifdef DO_STORE
template <class V> void store(V v, const M& m, unsigned how) {
  Json j;
  switch (how) {
    case 0: { Json t(v); both(t, m); sx_assert(t == v, "the value does not equal what was stored"); return; }
    case 1: j = v; break;
    case 2: { j = 7; j = v; break; }
    case 3: { Json p; Json& r = p.emplace_back(v); both(r, m); M pm; pm.k = ARR; pm.a = {m}; both(p, pm); return; }
    case 4: { Json p; p.push_back(1); p.push_back(v); M one; one.k = NUM; one.s = 1; M pm; pm.k = ARR; pm.a = {one, m}; both(p, pm); return; }
    case 5: { Json p; Json& r = p.emplace("b", v); both(r, m); M pm; pm.k = OBJ; pm.o["b"] = m; both(p, pm); return; }
    case 6: { Json p; p["c"] = v; p["a"] = 1; M one; one.k = NUM; one.s = 1; M pm; pm.k = OBJ; pm.o["c"] = m; pm.o["a"] = one; both(p, pm); return; }
    case 7: { Json p; p.MakeArray(); p.resize(2, v); M pm; pm.k = ARR; pm.a = {m, m}; both(p, pm); return; }
    default: j.emplace_back(1); j.clear(); j.Reset(); j = v; break;
  }
  both(j, m); sx_assert(j == v, "the value does not equal what was stored");
}
template <class I> void store_int(unsigned how) {
  const I v = sx::make<I>("v"); M m; m.k = NUM; m.uns = std::is_unsigned_v<I>; if constexpr (std::is_unsigned_v<I>) m.u = v; else m.s = v;
  store(v, m, how);
}
SX_JOB store() {
  const unsigned t = sx_param(0), how = sx_param(1); M m;
  switch (t) {
    case 0: store_int<int8_t>(how); break; case 1: store_int<int16_t>(how); break; case 2: store_int<int32_t>(how); break; case 3: store_int<int64_t>(how); break;
    case 4: store_int<uint8_t>(how); break; case 5: store_int<uint16_t>(how); break; case 6: store_int<uint32_t>(how); break; case 7: store_int<uint64_t>(how); break;
    case 8: { const bool b = sx::flag("v"); m.k = BOO; m.b = b; store(b, m, how); break; }
    case 9: { sx::Buf b(sx_choice(3, "n"), "v"); m.k = STR; m.t = std::string(b.sv()); store(std::string(b.sv()), m, how); break; }
    case 10: { sx::Buf b(sx_choice(3, "n"), "v"); m.k = STR; m.t = std::string(b.sv()); store(b.sv(), m, how); break; }
    case 11: { char b[3] = {}; sx_make(b, 2, "v"); m.k = STR; m.t = std::string(b); store(static_cast<const char*>(b), m, how); break; }
    default: store(std::nullopt, m, how == 0 ? 1 : how); break;
  }
  sx_cover("stored");
}
SX_JOB strings() {  // MakeString, Reset, clear, MakeArray, MakeObject
  Json j; M m; sx::Buf b(sx_choice(3, "n"), "v"); m.k = STR; m.t = std::string(b.sv());
  Json& r = j.MakeString(m.t); sx_assert(&r == &j, "MakeString returns something else"); both(j, m);
  j.clear(); both(j, M());
  M e; e.k = ARR; sx_assert(&j.MakeArray() == &j, "MakeArray returns something else"); both(j, e);
  j.emplace_back(1); M one; one.k = NUM; one.s = 1; e.a = {one}; j.MakeArray(); both(j, e);
  j.clear(); e.a.clear(); both(j, e);
  j.Reset(); both(j, M());
  M o; o.k = OBJ; sx_assert(&j.MakeObject() == &j, "MakeObject returns something else"); both(j, o);
  j["a"] = 1; o.o["a"] = one; j.MakeObject(); both(j, o);
  j.clear(); o.o.clear(); both(j, o);
  sx_cover("strings");
}
#endif

#ifdef DO_HIST
M num(int64_t v) { M m; m.k = NUM; m.s = v; return m; }
SX_JOB array() {
  Json j; M m; m.k = ARR; j.MakeArray();
  const unsigned start = sx_param(0), steps = sx_param(1), first = sx_param(2);
  for (unsigned i = 0; i < start; ++i) { const int64_t v = static_cast<int64_t>(sx_u64(nm("s", i))); j.push_back(v); m.a.push_back(num(v)); }
  for (unsigned s = 0; s < steps; ++s) {
    const std::size_t n = m.a.size();
    const unsigned op = s == 0 ? first : sx_choice(12, nm("op", s));
    const int64_t v = static_cast<int64_t>(sx_u64(nm("v", s)));
    auto pos = [&](unsigned lim, const char* b) { return static_cast<std::size_t>(sx_choice(lim, nm(b, s))); };
    switch (op) {
      case 0: { Json& r = j.emplace_back(v); m.a.push_back(num(v)); sx_assert(&r == &j[n], "emplace_back returns another element"); break; }
      case 1: j.push_back("t"); { M t; t.k = STR; t.t = "t"; m.a.push_back(t); } break;
      case 2: if (n == 0) break; j.pop_back(); m.a.pop_back(); break;
      case 3: { if (n == 0) break; const auto p = pos(n, "p"); j[p] = v; m.a[p] = num(v); break; }
      case 4: { if (n == 0) break; const auto p = pos(n, "p"); auto it = j.erase(j.begin() + static_cast<std::ptrdiff_t>(p)); m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(p)); sx_assert(it - j.begin() == static_cast<std::ptrdiff_t>(p), "erase returns another position"); break; }
      case 5: { const auto p = pos(n + 1, "p"), q = p + pos(n + 1 - p, "q"); auto it = j.erase(j.begin() + static_cast<std::ptrdiff_t>(p), j.begin() + static_cast<std::ptrdiff_t>(q)); m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(p), m.a.begin() + static_cast<std::ptrdiff_t>(q)); sx_assert(it - j.begin() == static_cast<std::ptrdiff_t>(p), "erase returns another position"); break; }
      case 6: { const auto k = pos(4, "p"); j.resize(k); m.a.resize(k); break; }
      case 7: { const auto k = pos(4, "p"); j.resize(k, v); m.a.resize(k, num(v)); break; }
      case 8: j.clear(); m.a.clear(); break;
      case 9: { if (n == 0) break; const auto p = pos(n, "p"); j.emplace_back(j[p]); M c = m.a[p]; m.a.push_back(c); break; }
      case 10: { if (n == 0) break; const auto p = pos(n, "p"); const auto cit = static_cast<const Json&>(j).values().begin(); auto at = cit; for (std::size_t i = 0; i < p; ++i) ++at; auto it = j.erase(at); m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(p)); sx_assert(it == j.values().end() || &*it == &j[p], "erase returns another value"); break; }
      default: { Json t = j; t.push_back(j); M c = m; c.a.push_back(m); j = t; m = c; break; }
    }
    both(j, m);
  }
  sx_cover("array history");
}
SX_JOB object() {
  Json j; M m; m.k = OBJ; j.MakeObject();
  const unsigned start = sx_param(0), steps = sx_param(1), first = sx_param(2);
  for (unsigned i = 0; i < start; ++i) { const int64_t v = static_cast<int64_t>(sx_u64(nm("s", i))); j[kKeys[2 - i]] = v; m.o[kKeys[2 - i]] = num(v); }
  for (unsigned s = 0; s < steps; ++s) {
    const unsigned op = s == 0 ? first : sx_choice(9, nm("op", s));
    const int64_t v = static_cast<int64_t>(sx_u64(nm("v", s)));
    const char* k = kKeys[sx_choice(3, nm("k", s))];
    switch (op) {
      case 0: { Json& r = j.emplace(k, v); m.o.emplace(k, num(v)); sx_assert(&r == &j[k], "emplace returns another property"); break; }
      case 1: j[k] = v; m.o[k] = num(v); break;
      case 2: j.at(k) = "t"; { M t; t.k = STR; t.t = "t"; m.o[k] = t; } break;
      case 3: { const auto n = j.erase(std::string_view(k)); sx_assert(n == m.o.erase(k), "erase returns the wrong number"); break; }
      case 4: j.clear(); m.o.clear(); break;
      case 5: { Json& r = j[k]; m.o[k]; check(r, m.o[k]); break; }
      case 6: { if (!m.o.count(k)) break; const auto vs = static_cast<const Json&>(j).values(); auto it = vs.begin(); while (&*it != &static_cast<const Json&>(j)[k]) ++it; j.erase(it); m.o.erase(k); break; }
      case 7: { const auto vs = static_cast<const Json&>(j).values(); j.erase(vs.begin(), vs.end()); m.o.clear(); break; }
      default: { if (m.o.count(k)) { j["b"] = j[k]; M t = m.o[k]; m.o["b"] = t; } break; }
    }
    both(j, m);
  }
  sx_cover("object history");
}
#endif

#ifdef DO_COPY
SX_JOB copy() {
  const unsigned s = sx_param(0), d = sx_param(1), how = sx_param(2);
  Json a, b; M ma, mb; tree(a, ma, s, sx_choice(2, "l1") ? 2 : 4, sx_choice(2, "l2") ? 0 : 1, "a"); tree(b, mb, d, 2, 2, "b");
  const Json& ca = a;
  switch (how) {
    case 0: { Json c(ca); both(c, ma); both(a, ma); c.Reset(); both(a, ma); break; }
    case 1: b = ca; both(b, ma); both(a, ma); b.clear(); both(a, ma); break;
    case 2: b = a; both(b, ma); both(a, ma); b.Reset(); both(a, ma); break;
    case 3: { Json c(std::move(a)); both(c, ma); a = b; both(a, mb); both(c, ma); break; }
    case 4: b = std::move(a); both(b, ma); a.Reset(); both(a, M()); both(b, ma); break;
    case 5: { Json& r = a; a = r; both(a, ma); a = ca; both(a, ma); break; }
    case 6: { std::unique_ptr<Json> p; b = p; both(b, M()); p = std::make_unique<Json>(a); b = p; both(b, ma); p.reset(); both(b, ma); break; }
    case 7: std::swap(a, b); both(a, mb); both(b, ma); break;
    case 8: { Json t(std::move(a)); a.clear(); sx_assert(a.empty() && a.size() == 0, "a moved from and cleared value is not empty"); both(t, ma); break; }
  }
  sx_cover("copied");
}
SX_JOB child() {  // a value is assigned one of its own parts, or put into itself
  const unsigned s = sx_param(0), how = sx_param(1);
  Json a; M ma; tree(a, ma, s, 2, 4, "a");
  switch (how) {
    case 0: if (ma.k == ARR) { M t = ma.a[0]; a = a[0]; ma = t; } else { M t = ma.o.begin()->second; a = a[ma.o.begin()->first]; ma = t; } break;
    case 1: if (ma.k == ARR) { M t = ma; a[0] = a; ma.a[0] = t; } else { M t = ma; a["a"] = a; ma.o["a"] = t; } break;
    case 2: if (ma.k == ARR) { M t = ma; a.push_back(a); ma.a.push_back(t); } else { M t = ma; a.emplace("c", a); ma.o["c"] = t; } break;
    default: if (ma.k == ARR) { M t = ma.a[0]; const Json& r = a[0]; a = r; ma = t; } else { M t = ma.o.begin()->second; const Json& r = a[ma.o.begin()->first]; a = r; ma = t; } break;
  }
  both(a, ma); sx_cover("part");
}
#endif

#ifdef DO_CMP
SX_JOB pairs() { Json a, b; M ma, mb; tree(a, ma, sx_param(0), sx_param(2), sx_param(3), "a"); tree(b, mb, sx_param(1), sx_param(2), sx_param(3), "b"); compare(a, ma, b, mb); sx_cover("compared"); }
// Objects filled in any order of keys
void fill(Json& j, M& m, unsigned n, const char* base) {
  j.MakeObject(); m.k = OBJ;
  for (unsigned i = 0; i < n; ++i) { const char* k = kKeys[sx_choice(3, nm(base, 10 + i))]; const int64_t v = static_cast<int64_t>(sx_range(0, 3, nm(base, i))); j[k] = v; M x; x.k = NUM; x.s = v; m.o[k] = x; }
}
SX_JOB objects() { Json a, b; M ma, mb; fill(a, ma, sx_param(0), "a"); fill(b, mb, sx_param(1), "b"); compare(a, ma, b, mb); sx_cover("objects"); }
SX_JOB order() {  // transitivity
  Json a, b, c; M ma, mb, mc; fill(a, ma, sx_param(0), "a"); fill(b, mb, sx_param(1), "b"); fill(c, mc, sx_param(2), "c");
  if ((a <=> b) < 0 && (b <=> c) < 0) sx_assert((a <=> c) < 0, "the order is not transitive");
  if ((a <=> b) == 0) sx_assert((a <=> c) == (b <=> c), "equal values are ordered differently");
  sx_cover("ordered");
}
template <class T> void raw(const Json& j, const M& m) {
  const T v = sx::make<T>("v"); M r; r.k = NUM; if constexpr (std::is_unsigned_v<T>) { r.uns = true; r.u = v; } else r.s = v;
  const int c = ref_cmp(m, r);
  sx_assert(sgn(j <=> v) == c && (j == v) == (c == 0) && (j < v) == (c < 0), "comparison with a raw number is not numeric");
}
SX_JOB rawcmp() {
  Json j; M m; leaf(j, m, sx_param(0), "a", 0);
  switch (sx_param(1)) {
    case 0: raw<int8_t>(j, m); break; case 1: raw<int32_t>(j, m); break; case 2: raw<int64_t>(j, m); break; case 3: raw<uint8_t>(j, m); break; case 4: raw<uint32_t>(j, m); break; case 5: raw<uint64_t>(j, m); break;
    case 6: { const bool b = sx::flag("v"); M r; r.k = BOO; r.b = b; const int c = ref_cmp(m, r); sx_assert(sgn(j <=> b) == c && (j == b) == (c == 0), "comparison with a raw bool"); break; }
    default: { sx::Buf b(sx_choice(3, "n"), "v"); M r; r.k = STR; r.t = std::string(b.sv()); const int c = ref_cmp(m, r); sx_assert(sgn(j <=> r.t) == c && (j == b.sv()) == (c == 0) && (j < b.sv()) == (c < 0), "comparison with raw text"); break; }
  }
  sx_cover("raw");
}
#endif

#ifdef DO_SER
#include "jsonp.h"
std::string dec(int64_t v) { std::string r = v < 0 ? "-" : ""; uint64_t u = v < 0 ? 0 - static_cast<uint64_t>(v) : static_cast<uint64_t>(v); char b[24]; int n = 0; do b[n++] = static_cast<char>('0' + u % 10); while (u /= 10); while (n) r.push_back(b[--n]); return r; }
void agree(const jsonp::V& v, const M& m, bool sorted) {
  switch (m.k) {
    case NUL: sx_assert(v.k == jsonp::kNull, "null is printed as something else"); break;
    case BOO: sx_assert(v.k == jsonp::kBool && v.b == m.b, "the printed bool differs"); break;
    case NUM: sx_assert(v.k == jsonp::kNumber && v.t == (m.uns ? dec(static_cast<int64_t>(m.u)) : dec(m.s)), "the printed number differs"); break;
    case STR: sx_assert(v.k == jsonp::kString && v.t == m.t, "the printed string decodes to another one"); break;
    case ARR: sx_assert(v.k == jsonp::kArray && v.a.size() == m.a.size(), "the printed array has another size"); for (std::size_t i = 0; i < m.a.size(); ++i) agree(v.a[i], m.a[i], sorted); break;
    default:
      sx_assert(v.k == jsonp::kObject && v.o.size() == m.o.size(), "the printed object has another size");
      for (const auto& [k, x] : v.o) { auto it = m.o.find(k); sx_assert(it != m.o.end(), "a printed property name is not one of the object"); agree(x, it->second, sorted); }
      for (std::size_t i = 1; i < v.o.size(); ++i) { sx_assert(v.o[i - 1].first != v.o[i].first, "a property is printed twice"); sx_assert(!sorted || v.o[i - 1].first < v.o[i].first, "the pretty form is not in the order of the names"); }
  }
}
void small(Json& j, M& m, unsigned kind, const char* base, unsigned i) {
  if (kind == 2) { const int64_t v = static_cast<int64_t>(sx_range(0, 40, nm(base, i))) - 20; m = M(); m.k = NUM; m.s = v; j = v; }
  else if (kind == 3) { const uint64_t v = sx_range(0, 20, nm(base, i)); m = M(); m.k = NUM; m.uns = true; m.u = v; j = v; }
  else leaf(j, m, kind, base, i);
}
SX_JOB print() {
  static const Json::SerializeMode kModes[3] = {Json::SerializeMode::kCompact, Json::SerializeMode::kLine, Json::SerializeMode::kPretty};
  const unsigned mode = sx_param(0), shape = sx_param(1), l1 = sx_param(2), l2 = sx_param(3);
  Json j; M m, x, y; Json jx, jy; small(jx, x, l1, "a", 1); small(jy, y, l2, "a", 2); m.k = OBJ; j.MakeObject();
  switch (shape) {
    case 0: break;
    case 1: j["a"] = jx; m.o["a"] = x; break;
    case 2: j["b"] = jx; j["a"] = jy; m.o["b"] = x; m.o["a"] = y; break;
    case 3: j["a"].emplace_back(jx); j["a"].push_back(jy); m.o["a"].k = ARR; m.o["a"].a = {x, y}; break;
    case 4: j["a"]["b"] = jx; j["a"]["a"] = jy; m.o["a"].k = OBJ; m.o["a"].o["b"] = x; m.o["a"].o["a"] = y; break;
    case 5: { Json o; o["c"] = jx; j["a"].push_back(o); j["b"] = jy; M mo; mo.k = OBJ; mo.o["c"] = x; m.o["a"].k = ARR; m.o["a"].a = {mo}; m.o["b"] = y; break; }
    default: { sx::Buf k(shape - 5, "k"); const std::string key(k.sv()); j[key] = jx; m.o[key] = x; break; }  // any name
  }
  const std::string out = j.Serialize(kModes[mode]);
  jsonp::V v; sx_assert(jsonp::parse(out, v), "the serialised form is not valid JSON");
  agree(v, m, mode == 2);
  sx_assert(!out.empty() && out.back() == '\n', "the serialised form does not end in a line feed");
  if (mode < 2) sx_assert(out.find('\n') == out.size() - 1, "the one line form has several lines");
  std::ostringstream os; sx_assert(&j.Stream(os, kModes[mode]) == &os && os.str() == out, "Stream prints something else than Serialize");
  sx_cover("printed");
}
#endif
