// U01: status builder and macros.
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "sx.h"
#include "tok.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "mbo/status/status.h"
#include "mbo/status/status_builder.h"
#include "mbo/status/status_macros.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view; using mbo::status::StatusBuilder;
bool eq(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
struct Want { absl::StatusCode code = absl::StatusCode::kOk; std::string msg; std::vector<std::pair<std::string, std::string>> pay; };
std::string text(const char* name, std::size_t n) { sx::Buf b(n, name); return std::string(b.sv()); }
void add(Want& w, const std::string& url, const std::string& c) { for (auto& [u, x] : w.pay) if (eq(u, url)) { x = c; return; } w.pay.emplace_back(url, c); }
absl::Status input(std::size_t n, std::size_t pay, Want& w) {
  const int code = static_cast<int>(sx_choice(17, "code")); std::string m = text("message", n); absl::Status s(static_cast<absl::StatusCode>(code), m); if (code == 0) return s;
  w.code = static_cast<absl::StatusCode>(code); w.msg = m; for (std::size_t i = 0; i < pay; ++i) { std::string u = text(nm("url", i), 1), c = text(nm("payload", i), 1); s.SetPayload(u, absl::Cord(c)); add(w, u, c); } return s;
}
void check(const absl::Status& s, const Want& w) {
  sx_assert(s.code() == w.code, "the code is wrong"); sx_assert(s.ok() == (w.code == absl::StatusCode::kOk), "ok is wrong"); sx_assert(eq(s.message(), w.msg), "the message is wrong"); std::size_t n = 0; s.ForEachPayload([&](sv, const absl::Cord&) { ++n; }); sx_assert(n == w.pay.size(), "the number of payloads is wrong");
  for (auto& [u, c] : w.pay) { auto p = s.GetPayload(u); sx_assert(p.has_value(), "a payload is lost"); sx_assert(eq(std::string(*p), c), "the content of a payload is wrong"); }
}
}
SX_JOB build() {  // bytes of the message, payloads, steps, first mode: 0 none, 1 append, 2 prepend
  Want w; absl::Status s = input(sx_param(0), sx_param(1), w); StatusBuilder b(s); const bool err = w.code != absl::StatusCode::kOk; std::string pre, post; bool front = false; sx_assert(b.ok() == !err, "the builder's ok is wrong");
  if (sx_param(3) == 1) { if (sx::flag("form")) b.SetAppend(); else b << StatusBuilder::Append; } if (sx_param(3) == 2) { b.SetPrepend(); front = true; }
  for (std::size_t i = 0; i < sx_param(2); ++i) {
    switch (sx_choice(sx_param(3) ? 6 : 4, nm("step", i))) {
      case 0: { std::string t = text(nm("text", i), 1); b << t; (front ? pre : post) += t; break; }
      case 1: { b << 42; (front ? pre : post) += "42"; break; }
      case 2: { char c = text(nm("char", i), 1)[0]; b << sv(&c, 1) << "" << c; (front ? pre : post) += c; (front ? pre : post) += c; break; }
      case 3: { std::string u = text(nm("newurl", i), 1), c = text(nm("newpayload", i), 1); if (sx::flag(nm("cord", i))) b.SetPayload(u, absl::Cord(c)); else b.SetPayload(u, sv(c)); if (err) add(w, u, c); break; }
      case 4: { b << StatusBuilder::Append; front = false; break; }
      case 5: { b.SetPrepend(); break; }
    }
  }
  if (err) w.msg = pre + w.msg + post; check(absl::Status(b), w); check(absl::Status(b), w); sx_assert(b.ok() == !err, "the builder's ok changes"); StatusBuilder m(std::move(b)); absl::Status r = std::move(m); check(r, w); sx_cover("built");
}
namespace {
int calls, after;
absl::Status give(absl::Status s) { ++calls; return s; }
template <class T> absl::StatusOr<T> give(absl::StatusOr<T> s) { ++calls; return s; }
absl::Status plain(const absl::Status& s) { MBO_RETURN_IF_ERROR(give(s)); ++after; return absl::OkStatus(); }
absl::Status named(absl::Status v) { MBO_RETURN_IF_ERROR(v); ++after; return absl::OkStatus(); }
absl::Status text_of(const absl::Status& s, const std::string& var) { MBO_RETURN_IF_ERROR(give(s)) << var; ++after; return absl::OkStatus(); }
absl::Status both(const absl::Status& s, const std::string& a, const std::string& b) { MBO_RETURN_IF_ERROR(give(s)).SetPrepend() << a << StatusBuilder::Append << b; ++after; return absl::OkStatus(); }
absl::Status front(const absl::Status& s, const std::string& a) { MBO_RETURN_IF_ERROR(give(s)).SetPrepend() << a; ++after; return absl::OkStatus(); }
absl::Status branch(const absl::Status& s, bool c) { if (c) MBO_RETURN_IF_ERROR(give(s)); else ++after; ++after; return absl::OkStatus(); }
absl::StatusOr<int> value(absl::StatusOr<int> v) { int r = 7; MBO_ASSIGN_OR_RETURN(r, give(v)); ++after; return r; }
absl::StatusOr<int> decl(absl::StatusOr<int> v) { MBO_ASSIGN_OR_RETURN(const int r, give(v)); ++after; return r; }
absl::StatusOr<int> pair(absl::StatusOr<std::pair<int, int>> v) { MBO_MOVE_TO_OR_RETURN(give(v), auto [a, b]); ++after; return a - b; }
absl::StatusOr<std::string> text_value(absl::StatusOr<std::string> v) { MBO_ASSIGN_OR_RETURN(std::string r, v); ++after; return r; }
absl::StatusOr<std::string> text_move(absl::StatusOr<std::string> v) { MBO_ASSIGN_OR_RETURN(std::string r, std::move(v)); ++after; return r; }
absl::Status ignore(absl::StatusOr<std::string> v) { MBO_RETURN_IF_ERROR(v); ++after; return absl::OkStatus(); }
}
SX_JOB macros() {  // bytes of the message, payloads, macro
  Want w; absl::Status s = input(sx_param(0), sx_param(1), w); const bool err = w.code != absl::StatusCode::kOk; calls = after = 0; int once = 1; std::string a = text("first", 1), b = text("second", 1); const std::size_t k = sx_param(2); absl::Status r;
  const std::uint32_t u = static_cast<std::uint32_t>(sx_u64("value")), v = static_cast<std::uint32_t>(sx_u64("other")); int x = static_cast<int>(u), y = static_cast<int>(v) / 2; std::string t = text("string", 2);
  auto num = [&] { return err ? absl::StatusOr<int>(s) : absl::StatusOr<int>(x); }; auto str = [&] { return err ? absl::StatusOr<std::string>(s) : absl::StatusOr<std::string>(t); };
  auto got = [&](absl::StatusOr<int> q, int want) { sx_assert(q.ok() == !err, "the result is wrong"); if (q.ok()) sx_assert(*q == want, "the value is wrong"); return q.status(); };
  auto gots = [&](absl::StatusOr<std::string> q) { sx_assert(q.ok() == !err, "the result is wrong"); if (q.ok()) sx_assert(eq(*q, t), "the value is wrong"); once = 0; return q.status(); };
  switch (k) {
    case 0: r = plain(s); break;
    case 1: r = named(s); once = 0; break;
    case 2: r = text_of(s, a); if (err) w.msg += a; break;
    case 3: r = both(s, a, b); if (err) w.msg = a + w.msg + b; break;
    case 4: r = front(s, a); if (err) w.msg = a + w.msg; break;
    case 5: { const bool c = sx::flag("taken"); r = branch(s, c); if (!c) { sx_assert(after == 2, "the other branch is not taken"); sx_assert(calls == 0, "the expression is evaluated"); w = Want{}; check(r, w); return; } break; }
    case 6: r = got(value(num()), x); break;
    case 7: r = got(decl(num()), x); break;
    case 8: { y = y < 0 ? -1 - y : y; int q = x < 0 ? -1 - x : x; r = got(pair(err ? absl::StatusOr<std::pair<int, int>>(s) : absl::StatusOr<std::pair<int, int>>(std::make_pair(q, y))), q - y); break; }
    case 9: r = gots(text_value(str())); break;
    case 10: r = gots(text_move(str())); break;
    case 11: r = ignore(str()); once = 0; break;
    case 12: { check(mbo::status::GetStatus(s), w); auto n = num(); check(mbo::status::GetStatus(n), w); check(mbo::status::GetStatus(std::move(n)), w); StatusBuilder q(s); check(mbo::status::GetStatus(std::move(q)), w); check(absl::Status(StatusBuilder(num())), w); auto n2 = num(); check(absl::Status(StatusBuilder(n2)), w); check(absl::Status(StatusBuilder()), Want{}); return; }
  }
  check(r, w); sx_assert(calls == once, "the expression is not evaluated exactly once"); sx_assert(after == (err ? 0 : 1), err ? "execution continues after an error" : "execution does not continue"); sx_cover(err ? "error returned" : "went on");
}
