// Stand-in for Abseil logging: FATAL terminates the program, everything else is discarded.
#pragma once
#include <cstdlib>
#include <sstream>
#include <string>
namespace absl {
enum class LogSeverity : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
enum class LogSeverityAtLeast : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3, kInfinity = 1000 };
}  // namespace absl
namespace sxlog {
struct Null {
  template <class T> const Null& operator<<(const T&) const { return *this; }
  const Null& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
};
struct Fatal : Null {
  template <class T> const Fatal& operator<<(const T&) const { return *this; }
  ~Fatal() { std::abort(); }
};
// LOG(LEVEL(severity)): the text goes to sink, if that is set.
inline void (*sink)(absl::LogSeverity, const char* file, int line, const std::string& text) = nullptr;
class Level {
 public:
  Level(absl::LogSeverity s, const char* f, int l) : s_(s), f_(f), l_(l) {} Level(const Level&) = delete; Level& operator=(const Level&) = delete;
  ~Level() { if (sink) sink(s_, f_, l_, o_.str()); if (s_ == absl::LogSeverity::kFatal) std::abort(); }
  Level& AtLocation(const char* f, int l) { f_ = f; l_ = l; return *this; } template <class T> Level& operator<<(const T& v) { o_ << v; return *this; }
 private:
  absl::LogSeverity s_; const char* f_; int l_; std::ostringstream o_;
};
struct Voidify { template <class T> constexpr void operator&&(const T&) const {} };
}  // namespace sxlog
#define SXLOG_LEVEL(s) ::sxlog::Level(s, __FILE__, __LINE__)
#define SXLOG_INFO ::sxlog::Null()
#define SXLOG_WARNING ::sxlog::Null()
#define SXLOG_ERROR ::sxlog::Null()
#define SXLOG_FATAL ::sxlog::Fatal()
#define SXLOG_DFATAL ::sxlog::Null()
#define SXLOG_QFATAL ::sxlog::Fatal()
#define ABSL_LOG_IF(sev, cond) switch (0) case 0: default: !(cond) ? (void)0 : ::sxlog::Voidify() && SXLOG_##sev
#define ABSL_LOG(sev) ABSL_LOG_IF(sev, true)
#define ABSL_VLOG(n) ABSL_LOG_IF(INFO, false)
#ifdef NDEBUG
#define ABSL_DLOG_IF(sev, cond) ABSL_LOG_IF(sev, false && (cond))
#else
#define ABSL_DLOG_IF(sev, cond) ABSL_LOG_IF(sev, cond)
#endif
#define ABSL_DLOG(sev) ABSL_DLOG_IF(sev, true)
