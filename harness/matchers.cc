// V01: the matchers for tests accept exactly the values that their arguments describe.
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "sx.h"
#include "tok.h"
#include "mbo/testing/matchers.h"
#include "mbo/testing/status.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
// The few functions of the googletest library that the matchers need; diffs of texts, printed bytes and fatal logs are not looked at.
namespace testing {
namespace internal {
bool IsTrue(bool c) { return c; }
GTestLog::GTestLog(GTestLogSeverity, const char*, int) : severity_(GTEST_INFO) {} GTestLog::~GTestLog() { sx_fail("googletest logs"); }
namespace edit_distance { std::string CreateUnifiedDiff(const std::vector<std::string>&, const std::vector<std::string>&, size_t) { return "diff"; } }
void PrintBytesInObjectTo(const unsigned char*, size_t, std::ostream* o) { *o << "bytes"; }
void PrintStringTo(const std::string& s, std::ostream* o) { *o << '"' << s << '"'; }
void PrintTo(unsigned char c, std::ostream* o) { *o << static_cast<int>(c); } void PrintTo(signed char c, std::ostream* o) { *o << static_cast<int>(c); }
void UniversalPrintArray(const char* p, size_t n, std::ostream* o) { *o << std::string(p, n); }
FailureReporterInterface* GetFailureReporter() { return nullptr; }
}
Message::Message() : ss_(new std::stringstream) {} std::string Message::GetString() const { return ss_->str(); }
Matcher<const std::string&>::Matcher(const std::string& s) { *this = Eq(s); } Matcher<const std::string&>::Matcher(const char* s) { *this = Eq(std::string(s)); }
Matcher<std::string>::Matcher(const std::string& s) { *this = Eq(s); } Matcher<std::string>::Matcher(const char* s) { *this = Eq(std::string(s)); }
}
namespace {
using sv = std::string_view; using namespace mbo::testing; using ::testing::AnyOf; using ::testing::Eq; using ::testing::Gt; using ::testing::Le; using ::testing::Ne; using ::testing::Not; using ::testing::ElementsAre; using ::testing::Pair;
bool eq(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
bool explain = true;
std::uint32_t num(const char* n, std::size_t i) { std::uint32_t v = u32(n, i); if (explain) sx_assume(v < 5); return v; }  // explanations print numbers
// Whether a value matches, without and with an explanation, and as the negation.
template <class T, class M> bool matches(const T& v, const M& m) {
  bool a = ::testing::Value(v, m), c = ::testing::Value(v, Not(m)); sx_assert(a != c, "the negated matcher does not negate"); if (!explain) return a; ::testing::StringMatchResultListener l; bool b = ::testing::ExplainMatchResult(m, v, &l);
  sx_assert(a == b, "the verdict depends on whether it is explained"); return a;
}
}
#ifdef DO_STATUS
namespace { absl::StatusCode code(const char* n) { return static_cast<absl::StatusCode>(sx_range(0, 16, n)); } std::string letter(const char* n) { sx::Buf b(1, n); sx_assume((b.p[0] == 'x') | (b.p[0] == 'y') | (b.p[0] == 'z')); return std::string(b.sv()); } }
SX_JOB status() {  // 1 = in a StatusOr
  const auto have = code("code"), want = code("want"), other = code("other"); const std::string text = letter("message"), expect = letter("expected"); const absl::Status s(have, text); const bool ok = have == absl::StatusCode::kOk;
  auto all = [&](const auto& v) {
    bool r = matches(v, IsOk()); sx_assert(r == ok, "IsOk is wrong"); r = matches(v, StatusIs(want)); sx_assert(r == (have == want), "StatusIs with a code is wrong");
    r = matches(v, StatusIs(AnyOf(want, other))); sx_assert(r == ((have == want) | (have == other)), "StatusIs with two codes is wrong");
    const bool same = eq(text, expect); r = matches(v, StatusIs(want, expect)); sx_assert(r == ((have == want) & (ok | same)), "StatusIs with a message is wrong"); r = matches(v, StatusIs(want, Ne(expect))); sx_assert(r == ((have == want) & (ok | !same)), "StatusIs with a message matcher is wrong");
  };
  if (sx_param(0) == 0) { all(s); sx_cover("status"); return; }
  explain = !sx::flag("plain"); std::uint32_t x = num("value", 0), y = num("wantedvalue", 0); absl::StatusOr<std::uint32_t> v = ok ? absl::StatusOr<std::uint32_t>(x) : absl::StatusOr<std::uint32_t>(s); all(v);
  bool r = matches(v, IsOkAndHolds(y)); sx_assert(r == (ok & (x == y)), "IsOkAndHolds with a value is wrong"); r = matches(v, IsOkAndHolds(Gt(y))); sx_assert(r == (ok & (x > y)), "IsOkAndHolds with a matcher is wrong"); sx_cover("holds");
}
SX_JOB payload() {  // payloads
  absl::Status s(code("code"), "m"); std::map<std::string, std::string> m; for (std::size_t i = 0; i < sx_param(0); ++i) { std::string u = letter(nm("url", i)), c = letter(nm("content", i)); s.SetPayload(u, absl::Cord(c)); if (!s.ok()) m[u] = c; }
  const std::string url = letter("askurl"), content = letter("askcontent"); auto it = m.find(url); const bool has = it != m.end(), same = has && eq(it->second, content);
  bool r = matches(s, StatusHasPayload()); sx_assert(r == !m.empty(), "StatusHasPayload is wrong"); r = matches(s, StatusHasPayload(url)); sx_assert(r == has, "StatusHasPayload with a url is wrong");
  r = matches(s, StatusHasPayload(url, content)); sx_assert(r == same, "StatusHasPayload with a content is wrong"); r = matches(s, StatusHasPayload(url, Ne(content))); sx_assert(r == (has & !same), "StatusHasPayload with a content matcher is wrong");
  r = matches(s, StatusPayloads(ElementsAre(Pair(url, content)))); sx_assert(r == ((m.size() == 1) & same), "StatusPayloads is wrong"); r = matches(s, StatusPayloads(::testing::SizeIs(2))); sx_assert(r == (m.size() == 2), "StatusPayloads with a size is wrong"); if (m.size() == 2) sx_cover("payloads");
}
#endif
#ifdef DO_VALUES
SX_JOB element() {  // elements, 1 = explained
  explain = sx_param(1);
  std::vector<std::uint32_t> c; std::vector<std::pair<std::uint32_t, std::uint64_t>> p; const std::uint32_t x = num("x", 0), y = num("y", 0); bool in = false, pin = false, key = false, val = false; std::map<std::uint32_t, std::uint32_t> m;
  for (std::size_t i = 0; i < sx_param(0); ++i) { std::uint32_t a = num("a", i), b = num("b", i); c.push_back(a); p.emplace_back(a, b); in |= a == x; pin |= (a == x) & (b == y); m[a] = b; } for (auto& [k, v] : m) { key |= k == x; val |= v == y; }
  bool r = matches(x, IsElementOf(c)); sx_assert(r == in, "IsElementOf is wrong"); r = matches(std::pair<std::uint32_t, std::uint32_t>(x, y), IsElementOf(p)); sx_assert(r == pin, "IsElementOf of pairs is wrong");
  r = matches(x, IsKeyOf(m)); sx_assert(r == key, "IsKeyOf is wrong"); r = matches(y, IsValueOf(m)); sx_assert(r == val, "IsValueOf is wrong"); r = matches(x, IsElementOf({y, y + 1})); sx_assert(r == ((x == y) | (x == y + 1)), "IsElementOf of a list is wrong"); if (in) sx_cover("element");
}
namespace { struct Store { std::size_t n; using value_type = int; using size_type = std::size_t; std::size_t capacity() const { return n; } const int* begin() const { return nullptr; } const int* end() const { return nullptr; } std::size_t size() const { return 0; } bool empty() const { return true; } }; }
SX_JOB shape() {  // elements, wanted elements, 1 = explained
  explain = sx_param(2); const Store s{num("capacity", 0)}; const std::size_t k = num("k", 0); bool r = matches(s, CapacityIs(k)); sx_assert(r == (s.n == k), "CapacityIs is wrong"); r = matches(s, CapacityIs(Le(k))); sx_assert(r == (s.n <= k), "CapacityIs with a matcher is wrong");
  std::optional<int> o; if (sx::flag("set")) o = 3; r = matches(o, IsNullopt()); sx_assert(r != o.has_value(), "IsNullopt is wrong");
  std::vector<std::uint32_t> c, w; bool same = true; for (std::size_t i = 0; i < sx_param(0); ++i) { c.push_back(num("c", i)); } for (std::size_t i = 0; i < sx_param(1); ++i) { w.push_back(num("w", i)); if (i < c.size()) same &= (c[i] ^ 5U) == w[i]; } same &= c.size() == w.size();
  r = matches(c, WhenTransformedBy([](std::uint32_t v) { return v ^ 5U; }, ::testing::ElementsAreArray(w))); sx_assert(r == same, "WhenTransformedBy is wrong"); if (same) sx_cover("transformed");
}
#include "mbo/strings/indent.h"
SX_JOB text() {  // bytes of the golden text, bytes of the other
  sx::Buf g(sx_param(0), "golden"), t(sx_param(1), "other"); for (auto* b : {&g, &t}) for (std::size_t i = 0; i < b->n; ++i) sx_assume((b->p[i] == 'a') | (b->p[i] == ' ') | (b->p[i] == '\n') | (b->p[i] == 'b'));
  const std::string other(t.sv()); bool same = eq(g.sv(), other), r = matches(other, EqualsText(g.sv())); sx_assert(r == same, "EqualsText is wrong"); const std::string d = mbo::strings::DropIndent(g.sv()); same = eq(d, other); r = matches(other, WithDropIndent(EqualsText(g.sv()))); sx_assert(r == same, "EqualsText with dropped indent is wrong"); if (same) sx_cover("text");
}
#endif
