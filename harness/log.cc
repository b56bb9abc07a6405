// L01: scoped streams, local checks, timing logs.
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "sx.h"
#include "tok.h"
namespace {
using sv = std::string_view;
bool eq(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
std::string text(const char* name, std::size_t n) { sx::Buf b(n, name); return std::string(b.sv()); }
}
#ifdef DO_SCOPED
#include <cstdlib>
#include <iostream>
#include <source_location>
#include "mbo/log/scoped_log_check.h"
#include "mbo/log/scoped_stream.h"
#ifdef MBO_ENGINE
#define SX_C(name) name
#else
#define SX_C(name) __wrap_##name
#endif
namespace {
#ifdef MBO_ENGINE
std::ios_base::Init streams_ready;  // natively the library does this
#endif
using namespace mbo::log; using Mode = ScopedStreamMode;
struct Buffer : std::streambuf { std::string s; std::size_t synced = 0; int overflow(int c) override { if (c != -1) s += static_cast<char>(c); return c == -1 ? 0 : c; } std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, static_cast<std::size_t>(n)); return n; } int sync() override { synced = s.size(); return 0; } };
Buffer buf; std::string expect; bool may_exit, need_flush; int evaluated;
struct Err { std::streambuf* old; Err() : old(std::cerr.rdbuf(&buf)) {} ~Err() { std::cerr.rdbuf(old); } };
std::string head(const std::source_location& l) { return std::string("[") + l.file_name() + ":" + std::to_string(l.line()) + "] @" + l.function_name(); }
std::string line(const std::source_location& l, sv msg, sv t) { std::string r = head(l); if (!msg.empty()) { r += " : "; r += msg; } if (!t.empty()) { r += " : "; r += t; } return r + "\n"; }
template <class S> void write(S& s, std::string& t, std::size_t i) {
  switch (sx_choice(4, nm("write", i))) {
    case 0: { std::string x = text(nm("text", i), 2); s << x; t += x; break; }
    case 1: { s << 42 << ""; t += "42"; break; }
    case 2: { char c = text(nm("char", i), 1)[0]; s << c << c; t += c; t += c; break; }
    case 3: { sv x = "xy"; s << sv() << x << -1; t += "xy-1"; break; }
  }
}
template <Mode kMode, class Str, class Out, class Msg> void run(std::size_t writes, std::size_t inner, std::size_t len) {
  buf.s.clear(); buf.synced = 0; Err err; std::ostream os(&buf); const std::source_location l0 = std::source_location::current(); const std::source_location l1 = std::source_location::current(); std::string m = text("message", len), t0, t1;
  constexpr bool kText = !std::same_as<Str, VoidStream>, kOut = !std::same_as<Out, VoidStream>, kMsg = !std::same_as<Msg, Voidifier>; expect.clear(); need_flush = kOut;
  {
    auto make = [&](const std::source_location& l) { if constexpr (std::same_as<Out, std::ostream>) { if constexpr (kMsg) return ScopedStream<kMode, Str, Out, Msg>(l, os, m); else return ScopedStream<kMode, Str, Out, Msg>(l, os); } else { if constexpr (kMsg) return ScopedStream<kMode, Str, Out, Msg>(l, {}, m); else return ScopedStream<kMode, Str, Out, Msg>(l); } };
    auto a = make(l0); for (std::size_t i = 0; i < writes; ++i) write(a, t0, i);
    if (inner) { { ScopedStream<Mode::kContinue, Str, std::ostream, sv> b(l1, os, "in"); for (std::size_t i = 0; i < inner; ++i) write(b, t1, writes + i); sx_assert(buf.s.empty(), "the stream writes before it ends"); } expect = line(l1, "in", kText ? t1 : ""); sx_assert(eq(buf.s, expect), "the inner stream is wrong"); write(a, t0, 8); }
    sx_assert(eq(a.Stream().str(), kText ? t0 : std::string()), "the collected text is wrong"); sx_assert(eq(buf.s, expect), "the stream writes before it ends"); if (kOut) expect += line(l0, kMsg ? m : "", kText ? t0 : ""); may_exit = kMode == Mode::kQuickExit;
  }
  sx_assert(!may_exit, "the program does not end"); sx_assert(eq(buf.s, expect), "the output is wrong"); sx_cover("delivered");
}
template <Mode kMode> void kinds(std::size_t k, std::size_t w, std::size_t i, std::size_t len) {
  using SS = std::stringstream; using OS = std::ostream;
  switch (k) {
    case 0: run<kMode, SS, OS, sv>(w, i, len); break; case 1: run<kMode, SS, OS, Voidifier>(w, i, len); break; case 2: run<kMode, SS, Voidifier, sv>(w, i, len); break; case 3: run<kMode, SS, Voidifier, Voidifier>(w, i, len); break;
    case 4: run<kMode, VoidStream, OS, sv>(w, i, len); break; case 5: run<kMode, VoidStream, OS, Voidifier>(w, i, len); break; case 6: run<kMode, VoidStream, Voidifier, sv>(w, i, len); break; case 7: run<kMode, VoidStream, Voidifier, Voidifier>(w, i, len); break;
    case 8: run<kMode, SS, VoidStream, sv>(w, i, len); break; case 9: run<kMode, VoidStream, VoidStream, Voidifier>(w, i, len); break;
  }
}
bool question(bool v) { ++evaluated; return v; }
std::string answer() { ++evaluated; return "x"; }
}
extern "C" __attribute__((noreturn)) void SX_C(quick_exit)(int code)
#ifdef MBO_ENGINE
    noexcept
#endif
{
  sx_assert(may_exit, "the program ends without a reason"); sx_assert(code == 1, "the exit code is wrong"); sx_assert(eq(buf.s, expect), "the output is wrong when the program ends"); sx_assert(!need_flush || buf.synced == buf.s.size(), "the output is not flushed"); sx_cover("ended"); sx_expect_abort(1); std::abort();
}
SX_JOB streams() {  // kind, writes, writes of a nested stream, bytes of the message, 1 = quick exit
  if (sx_param(4)) kinds<Mode::kQuickExit>(sx_param(0), sx_param(1), sx_param(2), sx_param(3)); else kinds<Mode::kContinue>(sx_param(0), sx_param(1), sx_param(2), sx_param(3));
}
SX_JOB out() {  // 0 out, 1 err, 2 void
  buf.s.clear(); Err err; std::streambuf* old = std::cout.rdbuf(&buf); std::string t = text("text", 2); std::source_location l = std::source_location::current(); std::string e;
  switch (sx_param(0)) { case 0: { auto s = ScopedStreamOut(l); s << t; e = line(l, "", t); break; } case 1: { auto s = ScopedStreamErr(l); s << t; e = line(l, "", t); break; } default: { auto s = ScopedStreamVoid(l); s << t; break; } }
  std::cout.rdbuf(old); sx_assert(eq(buf.s, e), "the output is wrong"); sx_cover("standard streams");
}
SX_JOB checks() {  // 0 MBO_LOG_CHECK, 1 ScopedLogCheck
  buf.s.clear(); buf.synced = 0; Err err; evaluated = 0; const bool ok = sx::flag("ok"); std::string t = text("text", 2); may_exit = !ok; need_flush = true; int steps = 0;
  if (sx_param(0) == 0) { std::source_location l = std::source_location::current(); expect = line(l, "Failed MBO_LOG_CHECK(question(ok))", "x" + t); MBO_LOG_CHECK(question(ok)) << answer() << t; ++steps; }
  else { std::source_location l = std::source_location::current(); expect = line(l, "what", "x" + t); ScopedLogCheck(question(ok), "what", l) << answer() << t; ++steps; evaluated = 1; }
  sx_assert(ok, "a failed check does not end the program"); sx_assert(evaluated == 1, "a passing check evaluates its message, or its condition not exactly once"); sx_assert(buf.s.empty(), "a passing check writes"); sx_cover("passed");
}
#endif
#ifdef DO_TIMING
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "mbo/log/log_timing.h"
ABSL_DECLARE_FLAG(absl::Duration, mbo_log_timing_min_duration); ABSL_DECLARE_FLAG(absl::LogSeverity, mbo_log_timing_min_severity_always);
namespace {
struct Entry { absl::LogSeverity severity; std::string text; int line; }; std::vector<Entry> entries;
void sink(absl::LogSeverity s, const char*, int l, const std::string& t) { entries.push_back({s, t, l}); }
using mbo::log::LogTiming; using Impl = mbo::log::log_internal::LogTimingImpl;
std::int64_t pick(const char* name) { return static_cast<std::int64_t>(sx_range(0, 1000000, name)); }
}
SX_JOB timing() {  // 1 = own minimum, moves
  entries.clear(); sxlog::sink = sink; absl::SetFlag(&FLAGS_mbo_log_timing_min_duration, absl::Duration(pick("flag"))); auto always = static_cast<absl::LogSeverity>(sx_choice(4, "always")); absl::SetFlag(&FLAGS_mbo_log_timing_min_severity_always, always); auto sev = static_cast<absl::LogSeverity>(sx_choice(3, "severity"));
  std::int64_t start = pick("start"), took = pick("took"), own = pick("own"); absl::sx_now = absl::Time(start); std::string t = text("text", 2); std::int64_t min = sx_param(0) ? own : FLAGS_mbo_log_timing_min_duration.value.ns; int at = 0; std::string where;
  {
    const int l = __LINE__; at = l; auto a = sx_param(0) ? LogTiming({.severity = sev, .min_duration = absl::Duration(own)}) << sv(t) << "!" : LogTiming({.severity = sev}) << sv(t) << "!";
    if (sx_param(1) > 0) { auto b = std::move(a); if (sx_param(1) > 1) { auto c = std::move(b); if (sx_param(1) > 2) { auto d = std::move(sx::flag("again") ? a : b); (void)d; } absl::sx_now = absl::Time(start + took); sx_assert(entries.empty(), "a timing is logged before its scope ends"); } else { absl::sx_now = absl::Time(start + took); sx_assert(entries.empty(), "a timing is logged before its scope ends"); } }
    else { absl::sx_now = absl::Time(start + took); sx_assert(entries.empty(), "a timing is logged before its scope ends"); }
  }
  const bool want = (took >= min) | (static_cast<int>(sev) >= static_cast<int>(always)); sx_assert(entries.size() == (want ? 1U : 0U), want ? "a timing is not logged exactly once" : "a timing that is too short is logged");
  if (want) { const Entry& e = entries[0]; sx_assert(e.severity == sev, "the severity is wrong"); sx_assert(e.line == at, "the line is wrong"); std::string b = "LogTiming("; b += absl::FormatDuration(absl::Duration(took)); b += " @ timing): "; b += t; b += "!"; sx_assert(eq(e.text, b), "the text is wrong"); sx_cover("logged"); } else { sx_cover("not logged"); }
}
namespace mbo::log::log_internal { struct StripFunctionNameTest { static std::string run(sv name) { return LogTimingImpl::StripFunctionName(name); } }; }
SX_JOB names() {  // lambdas inside, bytes of the last part of the name, 1 = all combinations of parameters
  static const char* const kResult[4] = {"auto ", "", "std::function<void(void)> ", "std::map<int, int> "}; static const char* const kScope[4] = {"", "ns::", "ns::Class::", "(anonymous namespace)::"}; static const char* const kArgs[3] = {"", "<int, bool>", "<int, std::function<void(int, bool)>>"};
  static const char* const kParams[3] = {"()", "(int, X &)", "(bool x, std::function<void(bool)>)"}; static const char* const kTail[3] = {"", " const", " const &"}; static const char* const kLambda = "::(anonymous class)::operator()";
  const std::size_t lambdas = sx_param(0); sx::Buf b(sx_param(1), "id"); for (std::size_t i = 0; i < b.n; ++i) { const char c = b.p[i]; sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_')); }
  std::string name = kScope[sx_choice(4, "scope")]; const std::size_t op = sx_choice(3, "operator"); if (op == 0) { name += b.sv(); } else { name += b.sv(); name += op == 1 ? "::operator()" : "::operator[]"; }
  const std::string args = op == 0 ? kArgs[sx_choice(3, "arguments")] : ""; auto params = [&](std::size_t i) { return std::string(kParams[sx_param(2) || i == 0 ? sx_choice(3, nm("parameters", i)) : i % 3]); };
  std::string in = kResult[sx_choice(4, "result")] + name + args, out = lambdas ? name + args : name, p = params(0); in += p;
  for (std::size_t i = 0; i < lambdas; ++i) { out += p == "()" && i ? "" : p; out += "::[]()"; p = params(i + 1); in += kLambda; in += p; }
  in += kTail[sx_choice(3, "tail")]; std::string r = mbo::log::log_internal::StripFunctionNameTest::run(in); sx_assert(eq(r, out), "the name of the function is wrong"); sx_cover("named");
}
SX_JOB odd() {  // parts of a text that need not be a function
  static const char* const kParts[9] = {"(", ")", "<", ">", " ", "operator()", "::", "a", "::(anonymous class)::operator()"}; std::string in; for (std::size_t i = 0; i < sx_param(0); ++i) in += kParts[sx_choice(9, nm("part", i))];
  std::string r = mbo::log::log_internal::StripFunctionNameTest::run(in); sx_assert(r.size() <= in.size(), "the name of the function grows"); sx_cover("odd");
}
SX_JOB bytes() {  // bytes of a text that need not be a function
  sx::Buf b(sx_param(0), "text"); std::string r = mbo::log::log_internal::StripFunctionNameTest::run(b.sv()); bool plain = true; for (std::size_t i = 0; i < b.n; ++i) plain &= (b.p[i] != ')') & (b.p[i] != '>') & (b.p[i] != ' ') & (b.p[i] != '(') & (b.p[i] != '<');
  if (plain) sx_assert(eq(r, b.sv()), "a plain name is changed"); sx_cover("odd");
}
#endif
