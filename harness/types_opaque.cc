// T07: opaque owners (values, pointers, containers), and the objects that are never destroyed.
#include <algorithm>
#include <deque>
#include <memory>
#include <vector>
#include "mbo/types/opaque.h"
#include "mbo/types/no_destruct.h"
#include "absl/strings/str_cat.h"
#include "tok.h"
struct Thing;  // forward declared until below
inline void OpaquePtrDeleterHook(Thing* ptr);
template<typename... Args> void OpaquePtrMakerHook(mbo::types::OpaquePtr<Thing>& ptr, Args&&... args);
using namespace mbo::types;
static int made, gone;
struct Thing {
  Thing(uint32_t v) : t(v) { ++made; } Thing() { ++made; } Thing(uint32_t a, uint32_t b) : t(a ^ b) { ++made; }
  Thing(const Thing& o) : t(o.t) { ++made; } Thing(Thing&& o) noexcept : t(std::move(o.t)) { ++made; } Thing& operator=(const Thing&) = default;
  ~Thing() { ++gone; }
  friend auto operator<=>(const Thing& a, const Thing& b) { return *a.t.p <=> *b.t.p; } friend bool operator==(const Thing& a, const Thing& b) { return *a.t.p == *b.t.p; }
  Tok t;
};
static int hooked;
template<typename... Args> void OpaquePtrMakerHook(mbo::types::OpaquePtr<Thing>& ptr, Args&&... args) { ptr.reset(new Thing(std::forward<Args>(args)...)); }
inline void OpaquePtrDeleterHook(Thing* ptr) { ++hooked; delete ptr; }
namespace mine { struct Rec { Rec(uint32_t v) : t(v) {} Rec() = default; Tok t; }; MBO_TYPES_OPAQUE_HOOKS(Rec) }
using Vec = std::vector<Tok>;
namespace std { MBO_TYPES_OPAQUE_HOOKS(Vec) }
namespace {
uint32_t val(const Thing& t) { return *t.t.p; }
int ord3(uint32_t a, uint32_t b) { return static_cast<int>(a > b) - static_cast<int>(a < b); }
int ord(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
using V = OpaqueValue<Thing>; using P = OpaquePtr<Thing>;
void vcheck(V& x, const V& y, uint32_t v, uint32_t w) {
  const V& cx = x;
  sx_assert(val(*x) == v, "the value is not the one stored"); sx_assert(val(*cx) == v, "the const value is not the one stored"); sx_assert(&*x == &*cx, "const access differs"); sx_assert(x.operator->() == &*x, "-> differs"); sx_assert(cx.operator->() == &*x, "const -> differs");
  sx_assert(val(*y) == w, "the other value changed"); sx_assert(&*x != &*y, "two owners share an object");
}
void vcmp(const V& x, const V& y, uint32_t v, uint32_t w) {
  sx_assert(ord(x <=> y) == ord3(v, w), "opaque values do not compare by value"); Thing t(w); sx_assert(ord(x <=> t) == ord3(v, w), "an opaque value does not compare with a value");
}
}  // namespace
SX_JOB value() {
  uint64_t live = sx_live_allocs();
  {
    uint32_t v = u32("v", 0), w = u32("w", 0); size_t how = sx_choice(4, "how");
    V a = how == 0 ? V(v) : how == 1 ? V(v, w) : how == 2 ? V() : V(Thing(v)), b(w); if (how == 1) v ^= w; if (how == 2) v = 0;
    for (size_t i = 0; i < sx_param(0); ++i) {
      switch (sx_choice(9, nm("op", i))) {
        case 0: a = static_cast<const V&>(b); v = w; break;
        case 1: { const V c = static_cast<const V&>(a); sx_assert(val(*c) == v, "a copy is not equal"); sx_assert(&*c != &*a, "a copy is not deep"); b = c; w = v; break; }
        case 2: { V c(std::move(a)); sx_assert(val(*c) == v, "a moved value is not equal"); a = std::move(c); break; }
        case 3: { V c(u32("c", i)); uint32_t x = val(*c); Thing* p = &*c; a = std::move(c); v = x; sx_assert(&*a == p, "moving copies the object"); break; }
        case 4: { const V* s = &a; a = *s; break; }
        case 5: { uint32_t x = u32("x", i); *a = Thing(x); v = x; break; }
        case 6: { V c(std::move(a)); a = static_cast<const V&>(b); v = w; break; }
        case 7: std::swap(a, b); std::swap(v, w); break;
        default: { uint32_t x = u32("y", i); a = V(x); v = x; break; }
      }
      vcheck(a, b, v, w);
    }
    if (sx_param(0) < 3) { vcmp(a, b, v, w); }
  }
  sx_assert(made == gone, "an object is not destroyed exactly once"); sx_assert(hooked > 0, "the deleter hook is not used"); sx_assert(sx_live_allocs() == live, "an object is leaked or freed twice");
}
SX_JOB pointer() {
  uint64_t live = sx_live_allocs();
  {
    uint32_t v = u32("v", 0), w = u32("w", 0); P a = MakeOpaquePtr<Thing>(v), b; uint32_t x = 0; bool ha = true, hb = false;
    for (size_t i = 0; i < sx_param(0); ++i) {
      int g = gone;
      switch (sx_choice(7, nm("op", i))) {
        case 0: b = std::move(a); sx_assert(!a, "a moved-from pointer still refers to the object"); sx_assert(gone - g == hb, "assignment does not destroy exactly the old object"); x = v; hb = ha; ha = false; break;
        case 1: a = std::move(b); sx_assert(!b, "a moved-from pointer still refers to the object"); sx_assert(gone - g == ha, "assignment does not destroy exactly the old object"); v = x; ha = hb; hb = false; break;
        case 2: a.reset(); sx_assert(gone - g == ha, "reset does not destroy exactly the object"); ha = false; break;
        case 3: { uint32_t y = u32("y", i); a = MakeOpaquePtr<Thing>(y, w); v = y ^ w; sx_assert(gone - g == ha, "assignment does not destroy exactly the old object (new)"); ha = true; break; }
        case 4: { P c(std::move(a)); sx_assert(!a, "a moved-from pointer still refers to the object"); if (ha) sx_assert(val(*c) == v, "a moved pointer is not the object"); ha = false; break; }
        default: std::swap(a, b); std::swap(v, x); std::swap(ha, hb); break;
      }
      sx_assert(static_cast<bool>(a) == ha, "a pointer is set when it must not be or the reverse"); sx_assert(static_cast<bool>(b) == hb, "a pointer is set when it must not be or the reverse (other)");
      if (ha) sx_assert(val(*a) == v, "the object is not the one made"); if (hb) sx_assert(val(*b) == x, "the other object is not the one made");
    }
  }
  sx_assert(made == gone, "an object is not destroyed exactly once"); sx_assert(hooked == gone, "an object is destroyed past the deleter hook"); sx_assert(sx_live_allocs() == live, "an object is leaked or freed twice");
}
SX_JOB macro() {
  uint64_t live = sx_live_allocs();
  { uint32_t v = u32("v", 0); OpaqueValue<mine::Rec> a(v); const auto b = static_cast<const OpaqueValue<mine::Rec>&>(a); a->t = Tok(~v); sx_assert(val(b->t) == v, "a copy is not deep"); sx_assert(val(a->t) == ~v, "the value is not the one stored"); auto p = MakeOpaquePtr<mine::Rec>(v); sx_assert(val(p->t) == v, "the object is not the one made"); }
  sx_assert(sx_live_allocs() == live, "an object is leaked or freed twice");
}
SX_JOB container() {
  uint64_t live = sx_live_allocs();
  {
    OpaqueContainer<Vec> a; const auto& ca = a; Model m;
    for (size_t i = 0; i < sx_param(0); ++i) {
      switch (sx_choice(7, nm("op", i))) {
        case 0: { Tok t(u32("t", i)); a.push_back(t); m.push(val(t)); break; }
        case 1: { Tok t(u32("t", i)); m.push(val(t)); a.push_back(std::move(t)); break; }
        case 2: { uint32_t x = u32("x", i); auto& r = a.emplace_back(x); sx_assert(&r == &a.back(), "emplace_back does not return the new element"); m.push(x); break; }
        case 3: if (m.n) { a.pop_back(); m.n--; } break;
        case 4: { size_t n = sx_choice(3, nm("size", i)); a.resize(n); while (m.n < n) m.push(0); m.n = n; break; }
        case 5: a.clear(); m.n = 0; break;
        default: { const auto c = ca; a.push_back(Tok(u32("z", i))); a.pop_back(); sx_assert(c.size() == m.n, "a copy is not deep"); a.reserve(4); sx_assert(a.capacity() >= 4, "reserve is not passed on"); if (m.n) { a.front() = Tok(5U); sx_assert(val(c.at(0)) == m.v[0], "a copy shares elements"); m.v[0] = 5; } break; }
      }
      sx_assert(a.size() == m.n, "the size is not the container's"); sx_assert(a.empty() == (m.n == 0), "empty() is not the container's"); sx_assert((*a).size() == m.n, "the container is not the wrapped one");
      size_t k = 0; for (auto& t : a) { sx_assert(val(t) == m.v[k], "iteration does not yield the elements"); ++k; } sx_assert(k == m.n, "iteration does not yield every element");
      k = 0; for (const auto& t : ca) { sx_assert(val(t) == m.v[k], "const iteration does not yield the elements"); sx_assert(&ca.at(k) == &t, "at is not the element"); sx_assert(&a[k] == &t, "[] is not the element"); sx_assert(&ca[k] == &t, "const [] is not the element"); sx_assert(&a.at(k) == &t, "at is not the element (mutable)"); ++k; } sx_assert(k == m.n, "const iteration does not yield every element");
      k = m.n; for (auto it = a.rbegin(); it != a.rend(); ++it) sx_assert(val(*it) == m.v[--k], "reverse iteration does not yield the elements"); sx_assert(k == 0, "reverse iteration does not yield every element");
      k = m.n; for (auto it = ca.crbegin(); it != ca.crend(); ++it) sx_assert(val(*it) == m.v[--k], "const reverse iteration does not yield the elements"); k = 0; for (auto it = ca.cbegin(); it != ca.cend(); ++it) sx_assert(val(*it) == m.v[k++], "const iteration does not yield the elements (cbegin)");
      if (m.n) { sx_assert(&a.back() == &a[m.n - 1], "back is not the last element"); sx_assert(&ca.back() == &a[m.n - 1], "const back is not the last element"); sx_assert(&a.front() == &a[0], "front is not the first element"); sx_assert(&ca.front() == &a[0], "const front is not the first element"); }
    }
  }
  sx_assert(sx_live_allocs() == live, "a container is leaked or freed twice");
}
// A queue behind a proxy: both ends.
struct Queue { std::deque<uint32_t> q; std::deque<uint32_t>& Get() { return q; } const std::deque<uint32_t>& Get() const { return q; } };
using Proxy = mbo::types::ContainerProxy<Queue, std::deque<uint32_t>, &Queue::Get, &Queue::Get>;
SX_JOB queue() {
  Proxy a; const Proxy& ca = a; std::vector<uint32_t> m;
  for (size_t i = 0; i < sx_param(0); ++i) {
    switch (sx_choice(7, nm("op", i))) {
      case 0: { const uint32_t x = u32("x", i); a.push_front(x); m.insert(m.begin(), x); break; }
      case 1: { uint32_t x = u32("x", i); auto& r = a.emplace_front(x); sx_assert(&r == &a.front(), "emplace_front does not return the new element"); m.insert(m.begin(), x); break; }
      case 2: { const uint32_t x = u32("x", i); a.push_back(x); m.push_back(x); break; }
      case 3: if (!m.empty()) { a.pop_front(); m.erase(m.begin()); } break;
      case 4: if (!m.empty()) { a.pop_back(); m.pop_back(); } break;
      case 5: a.clear(); m.clear(); break;
      default: { Proxy c = a; c.push_front(u32("y", i)); a.push_front(u32("z", i)); a.pop_front(); sx_assert(c.size() == a.size() + 1, "a copy is not deep"); sx_assert(std::equal(a.begin(), a.end(), c.begin() + 1), "a copy differs"); break; }
    }
    sx_assert((a.size() == m.size()) & (ca.q.size() == m.size()), "the size is not the container's"); sx_assert(a.empty() == m.empty(), "empty() is not the container's"); for (size_t k = 0; k < m.size(); ++k) { sx_assert(ca[k] == m[k], "an element is wrong"); sx_assert(a.begin()[static_cast<long>(k)] == m[k], "iteration is wrong"); }
    if (!m.empty()) { sx_assert(ca.front() == m.front(), "const front is wrong"); sx_assert(ca.back() == m.back(), "const back is wrong"); a.front() = m.front() = m.front() + 1; }
  }
}
SX_JOB nodestruct() {
  uint32_t v = u32("v", 0), w = u32("w", 0); int g = gone;
  { NoDestruct<Thing> a(v); const NoDestruct<Thing> b(v, w); NoDestruct<Thing> c;
    sx_assert(val(*a) == v, "the value is not the one given"); sx_assert(val(*b) == (v ^ w), "the value is not the one given (arguments)"); sx_assert(val(*c) == 0, "the value is not default constructed"); sx_assert(&a.Get() == &*a, "Get differs"); sx_assert(a.operator->() == &*a, "-> differs"); sx_assert(&b.Get() == &*b, "const Get differs"); sx_assert(b.operator->() == &*b, "const -> differs");
    { NoDestruct<uint32_t> n(v), k(w); if (v == w) { sx_assert(absl::HashOf(n) == absl::HashOf(k), "equal values have different hashes"); } const uint32_t small = v & 7; const NoDestruct<uint32_t> d(small); std::string text = absl::StrCat(d); sx_assert((text.size() == 1) & (text[0] == static_cast<char>('0' + small)), "the text is not the value's"); }
    *a = Thing(w); sx_assert(val(a.Get()) == w, "a written value is not read back"); gone = g; made = 3; }
  sx_assert(gone == g, "a NoDestruct value is destroyed");
}
