#pragma once
#include <limits>
#include <string_view>
#include <type_traits>
#include "absl/strings/ascii.h"
namespace absl {
// Leading and trailing whitespace, one optional sign, decimal digits; fails on overflow with the nearest limit.
template <class T> bool SimpleAtoi(std::string_view s, T* out) {
  static_assert(std::is_integral_v<T>);
  *out = 0;
  s = StripAsciiWhitespace(s);
  if (s.empty()) return false;
  bool neg = s[0] == '-';
  if (s[0] == '-' || s[0] == '+') s.remove_prefix(1);
  if (s.empty()) return false;
  if (neg && !std::is_signed_v<T>) return false;
  __int128 v = 0;
  for (char c : s) {
    if (c < '0' || c > '9') { *out = static_cast<T>(neg ? -v : v); return false; }
    v = v * 10 + (c - '0');
    if (!neg && v > std::numeric_limits<T>::max()) { *out = std::numeric_limits<T>::max(); return false; }
    if (neg && -v < std::numeric_limits<T>::min()) { *out = std::numeric_limits<T>::min(); return false; }
  }
  *out = static_cast<T>(neg ? -v : v);
  return true;
}
}  // namespace absl
