// Stand-in for absl::StrFormat: flags - + 0 space #, width (also *), precision, conversions d i u x X o c s v f g e p.
#pragma once
#include <cstdio>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/str_cat.h"
namespace absl {
struct FormatSink { std::string* out; void Append(std::size_t n, char c) { out->append(n, c); } void Append(std::string_view v) { out->append(v); } };
struct SxSpec { bool left = false, zero = false, plus = false, space = false, alt = false; int width = 0, prec = -1; char conv = 0; };
inline void SxPad(std::string* o, std::string_view body, const SxSpec& f, std::size_t sign_len) {
  std::size_t w = f.width > 0 ? static_cast<std::size_t>(f.width) : 0;
  if (body.size() >= w) { o->append(body); return; }
  std::size_t n = w - body.size();
  if (f.left) { o->append(body); o->append(n, ' '); }
  else if (f.zero) { o->append(body.substr(0, sign_len)); o->append(n, '0'); o->append(body.substr(sign_len)); }
  else { o->append(n, ' '); o->append(body); }
}
template <class T> concept SxOstream = requires(std::ostream& os, const T& t) { os << t; };
template <class T> void SxFormatArg(std::string* o, const T& t, SxSpec f) {
  std::string b; std::size_t sl = 0;
  if constexpr (SxHasStringify<T>) { f.zero = false; SxSink s{&b}; AbslStringify(s, t); SxPad(o, b, f, 0); }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    std::string_view v(t); if (f.prec >= 0) v = v.substr(0, static_cast<std::size_t>(f.prec)); f.zero = false; SxPad(o, v, f, 0);
  } else if constexpr (std::is_same_v<T, bool>) { b = f.conv == 'd' ? (t ? "1" : "0") : (t ? "true" : "false"); f.zero = false; SxPad(o, b, f, 0); }
  else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>) {
    if (f.conv == 'c' || (f.conv == 'v' && std::is_same_v<T, char>)) { b.push_back(static_cast<char>(t)); f.zero = false; SxPad(o, b, f, 0); }
    else SxFormatArg(o, static_cast<int>(t), f);
  } else if constexpr (std::is_enum_v<T>) SxFormatArg(o, static_cast<std::underlying_type_t<T>>(t), f);
  else if constexpr (std::is_integral_v<T>) {
    if (f.conv == 'c') { b.push_back(static_cast<char>(t)); SxPad(o, b, f, 0); return; }
    unsigned long long u = static_cast<unsigned long long>(t); unsigned base = 10; const char* dig = "0123456789abcdef";
    if (f.conv == 'x' || f.conv == 'X' || f.conv == 'o') { u = static_cast<std::make_unsigned_t<T>>(t); base = f.conv == 'o' ? 8 : 16; if (f.conv == 'X') dig = "0123456789ABCDEF"; }
    else if constexpr (std::is_signed_v<T>) { if (t < 0) { b = "-"; u = 0ULL - static_cast<unsigned long long>(static_cast<long long>(t)); } else if (f.plus) b = "+"; else if (f.space) b = " "; }
    sl = b.size();
    char buf[72]; int n = 72; do { buf[--n] = dig[u % base]; u /= base; } while (u);
    int len = 72 - n; if (f.prec > len) b.append(static_cast<std::size_t>(f.prec - len), '0');
    if (f.alt && base == 16) { b.append(f.conv == 'X' ? "0X" : "0x"); sl = b.size(); }
    b.append(buf + n, static_cast<std::size_t>(len)); SxPad(o, b, f, sl);
  } else if constexpr (std::is_floating_point_v<T>) {
    char fm[16]; int k = 0; fm[k++] = '%'; if (f.plus) fm[k++] = '+'; fm[k++] = '.'; fm[k++] = '*'; fm[k++] = f.conv == 'v' ? 'g' : f.conv; fm[k] = 0;
    char buf[400]; int n = std::snprintf(buf, sizeof buf, fm, f.prec < 0 ? 6 : f.prec, static_cast<double>(t)); b.assign(buf, static_cast<std::size_t>(n)); SxPad(o, b, f, !b.empty() && (b[0] == '-' || b[0] == '+'));
  } else if constexpr (std::is_pointer_v<T>) { char buf[32]; int n = std::snprintf(buf, sizeof buf, "%p", static_cast<const void*>(t)); b.assign(buf, static_cast<std::size_t>(n)); SxPad(o, b, f, 0); }
  else if constexpr (requires { std::string_view(t.native()); }) SxFormatArg(o, t.native(), f);
  else static_assert(sizeof(T) == 0, "StrFormat stand-in: unsupported type");
}
inline void SxText(std::string* o, const char*& p) { while (*p) { if (*p == '%') { if (p[1] == '%') { o->push_back('%'); p += 2; continue; } return; } o->push_back(*p++); } }
template <class T> int SxInt(const T& t) { if constexpr (std::is_integral_v<T>) return static_cast<int>(t); else return 0; }
inline bool SxParse(const char*& p, SxSpec& f, int stars) {  // returns true when a '*' is needed next
  (void)stars;
  for (;;) {
    if (*p == '-') f.left = true; else if (*p == '0' && f.width == 0) f.zero = true; else if (*p == '+') f.plus = true; else if (*p == ' ') f.space = true; else if (*p == '#') f.alt = true; else break;
    ++p;
  }
  return false;
}
struct SxState { std::string* o; const char* p; bool in = false, prec = false; SxSpec f; };
template <class T> void SxFeed(SxState& s, const T& t) {
  const char*& p = s.p;
  if (!s.in) { SxText(s.o, p); if (!*p) return; ++p; s.f = SxSpec(); s.in = true; s.prec = false; SxParse(p, s.f, 0); }
  for (;;) {
    if (*p == '*') { ++p; int v = SxInt(t); if (s.prec) s.f.prec = v; else { if (v < 0) { s.f.left = true; v = -v; } s.f.width = v; } return; }
    if (*p == '.') { s.prec = true; s.f.prec = 0; ++p; continue; }
    if (*p >= '0' && *p <= '9') { int& n = s.prec ? s.f.prec : s.f.width; n = n * 10 + (*p++ - '0'); continue; }
    if (*p == 'l' || *p == 'h' || *p == 'z' || *p == 'j' || *p == 't' || *p == 'q') { ++p; continue; }
    break;
  }
  s.f.conv = *p++; s.in = false; SxFormatArg(s.o, t, s.f);
}
template <class... Ts> void SxFormat(std::string* o, const char* fmt, const Ts&... ts) { SxState s{o, fmt}; (SxFeed(s, ts), ...); SxText(o, s.p); }
template <class... Ts> using FormatSpec = const char*;
template <class... Ts> std::string StrFormat(const char* fmt, const Ts&... ts) { std::string r; SxFormat(&r, fmt, ts...); return r; }
template <class... Ts> void StrAppendFormat(std::string* o, const char* fmt, const Ts&... ts) { std::string r; SxFormat(&r, fmt, ts...); o->append(r); }
template <class S, class... Ts> void Format(S* sink, const char* fmt, const Ts&... ts) {
  std::string r; SxFormat(&r, fmt, ts...);
  if constexpr (requires { sink->Append(std::string_view(r)); }) sink->Append(std::string_view(r)); else if constexpr (requires { *sink << r; }) *sink << r; else sink->append(r);
}
template <class... Ts> std::string StreamFormat(const char* fmt, const Ts&... ts) { return StrFormat(fmt, ts...); }
}  // namespace absl
