// Stand-in for absl::Time: nanoseconds since the epoch. FormatTime knows %s and the pattern used by default and otherwise returns the pattern.
#pragma once
#include <chrono>
#include <cstdint>
#include <limits>
#include <ostream>
#include <string>
#include <string_view>
namespace absl {
class Duration {
 public:
  constexpr Duration() = default; constexpr explicit Duration(std::int64_t n) : ns(n) {}
  std::int64_t ns = 0;
  constexpr auto operator<=>(const Duration&) const = default;
  constexpr Duration& operator+=(Duration o) { ns += o.ns; return *this; } constexpr Duration& operator-=(Duration o) { ns -= o.ns; return *this; }
  friend constexpr Duration operator+(Duration a, Duration b) { return a += b; } friend constexpr Duration operator-(Duration a, Duration b) { return a -= b; }
};
constexpr Duration ZeroDuration() { return {}; } constexpr Duration InfiniteDuration() { return Duration(std::numeric_limits<std::int64_t>::max()); }
constexpr Duration Nanoseconds(std::int64_t n) { return Duration(n); } constexpr Duration Microseconds(std::int64_t n) { return Duration(n * 1000); } constexpr Duration Milliseconds(std::int64_t n) { return Duration(n * 1000000); } constexpr Duration Seconds(std::int64_t n) { return Duration(n * 1000000000); }
constexpr std::int64_t ToInt64Nanoseconds(Duration d) { return d.ns; } constexpr std::int64_t ToInt64Milliseconds(Duration d) { return d.ns / 1000000; } inline double ToDoubleSeconds(Duration d) { return static_cast<double>(d.ns) / 1e9; }
inline std::string FormatDuration(Duration d) { return std::to_string(d.ns) + "ns"; }
inline std::ostream& operator<<(std::ostream& o, Duration d) { return o << FormatDuration(d); }
class Time {
 public:
  constexpr Time() = default; constexpr explicit Time(std::int64_t n) : ns(n) {}
  std::int64_t ns = 0;
  constexpr auto operator<=>(const Time&) const = default;
  friend constexpr Duration operator-(Time a, Time b) { return Duration(a.ns - b.ns); } friend constexpr Time operator+(Time a, Duration d) { return Time(a.ns + d.ns); } friend constexpr Time operator-(Time a, Duration d) { return Time(a.ns - d.ns); }
};
class TimeZone { public: friend bool operator==(const TimeZone&, const TimeZone&) { return true; } };
inline TimeZone UTCTimeZone() { return {}; } inline TimeZone LocalTimeZone() { return {}; }
constexpr Time UnixEpoch() { return {}; } constexpr Time FromUnixSeconds(std::int64_t s) { return Time(s * 1000000000); } constexpr Time FromUnixNanos(std::int64_t n) { return Time(n); }
constexpr std::int64_t ToUnixSeconds(Time t) { return t.ns / 1000000000; } constexpr std::int64_t ToUnixNanos(Time t) { return t.ns; }
inline Time FromChrono(const std::chrono::system_clock::time_point& p) { return Time(std::chrono::duration_cast<std::chrono::nanoseconds>(p.time_since_epoch()).count()); }
inline Time sx_now;  // what the clock shows
inline Time Now() { return sx_now; }
inline std::string FormatTime(std::string_view format, Time t, TimeZone) { if (format == "%s") return std::to_string(ToUnixSeconds(t)); return t.ns == 0 && format == "%F %H:%M:%E3S %z" ? std::string("1970-01-01 00:00:00.000 +0000") : std::string(format); }
}  // namespace absl
