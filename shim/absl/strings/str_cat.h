// Stand-in for absl::StrCat / StrAppend.
#pragma once
#include <charconv>
#include <concepts>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace absl {
struct SxSink {
  std::string* out;
  void Append(std::size_t n, char c) { out->append(n, c); }
  void Append(std::string_view v) { out->append(v); }
  void append(std::string_view v) { out->append(v); }
  bool PutPaddedString(std::string_view v, int, int) { out->append(v); return true; }
};
template <class T> concept SxHasStringify = requires(SxSink& s, const T& t) { AbslStringify(s, t); };
template <class T> struct HasAbslStringify : std::bool_constant<SxHasStringify<T>> {};
inline void SxAppendU(std::string* o, unsigned long long v) { char b[24]; int n = 24; do { b[--n] = static_cast<char>('0' + v % 10); v /= 10; } while (v); o->append(b + n, static_cast<std::size_t>(24 - n)); }
inline void SxAppendI(std::string* o, long long v) { if (v < 0) { o->push_back('-'); SxAppendU(o, 0ULL - static_cast<unsigned long long>(v)); } else SxAppendU(o, static_cast<unsigned long long>(v)); }
template <class T> void SxAppendNum(std::string* o, const T& t) {
  if constexpr (std::is_floating_point_v<T>) { char b[64]; int n = std::snprintf(b, sizeof b, "%g", static_cast<double>(t)); o->append(b, static_cast<std::size_t>(n)); }
  else if constexpr (std::is_signed_v<T>) SxAppendI(o, static_cast<long long>(t));
  else SxAppendU(o, static_cast<unsigned long long>(t));
}
template <class T> void SxAppendOne(std::string* o, const T& t) {
  if constexpr (SxHasStringify<T>) { SxSink s{o}; AbslStringify(s, t); }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) o->append(std::string_view(t));
  else if constexpr (std::is_same_v<T, bool>) o->push_back(t ? '1' : '0');
  else if constexpr (std::is_arithmetic_v<T>) SxAppendNum(o, t);
  else if constexpr (std::is_enum_v<T>) SxAppendNum(o, static_cast<std::underlying_type_t<T>>(t));
  else static_assert(sizeof(T) == 0, "StrCat stand-in: unsupported type");
}
// Hexadecimal digits padded with zeros to a width.
enum PadSpec : unsigned char { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16 };
struct Hex {
  template <class T> requires std::is_integral_v<T> explicit Hex(T t, PadSpec p = kNoPad) : v(static_cast<std::make_unsigned_t<T>>(t)), w(p) {}
  unsigned long long v; unsigned w;
  template <class S> friend void AbslStringify(S& s, const Hex& h) { char b[16]; unsigned n = 16; auto v = h.v; do { b[--n] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v); while (16 - n < h.w) b[--n] = '0'; s.Append(std::string_view(b + n, 16 - n)); }
};
template <class... Ts> std::string StrCat(const Ts&... ts) { std::string r; (SxAppendOne(&r, ts), ...); return r; }
template <class... Ts> void StrAppend(std::string* o, const Ts&... ts) { std::string r; (SxAppendOne(&r, ts), ...); o->append(r); }
}  // namespace absl
