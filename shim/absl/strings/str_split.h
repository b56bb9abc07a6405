// Stand-in for absl::StrSplit over contiguous text.
#pragma once
#include <array>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/ascii.h"
namespace absl {
struct ByChar { char c; explicit ByChar(char x) : c(x) {} std::string_view Find(std::string_view t, std::size_t p) const { std::size_t f = t.find(c, p); return f == std::string_view::npos ? std::string_view(t.data() + t.size(), 0) : t.substr(f, 1); } };
struct ByString {
  std::string d; explicit ByString(std::string_view x) : d(x) {}
  std::string_view Find(std::string_view t, std::size_t p) const {
    if (d.empty()) return p + 1 <= t.size() ? std::string_view(t.data() + p + 1, 0) : std::string_view(t.data() + t.size(), 0);
    std::size_t f = t.find(d, p);
    return f == std::string_view::npos ? std::string_view(t.data() + t.size(), 0) : t.substr(f, d.size());
  }
};
struct ByAnyChar {
  std::string d; explicit ByAnyChar(std::string_view x) : d(x) {}
  std::string_view Find(std::string_view t, std::size_t p) const { std::size_t f = t.find_first_of(d, p); return f == std::string_view::npos ? std::string_view(t.data() + t.size(), 0) : t.substr(f, 1); }
};
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
template <class D> struct SxDelim { using type = D; };
template <> struct SxDelim<char> { using type = ByChar; };
template <> struct SxDelim<const char*> { using type = ByString; };
template <> struct SxDelim<char*> { using type = ByString; };
template <> struct SxDelim<std::string_view> { using type = ByString; };
template <> struct SxDelim<std::string> { using type = ByString; };
template <class D> struct SxMaxSplits {
  D d; int limit; int count = 0;
  SxMaxSplits(D x, int n) : d(x), limit(n) {}
  std::string_view Find(std::string_view t, std::size_t p) { if (count++ == limit) return std::string_view(t.data() + t.size(), 0); return d.Find(t, p); }
};
template <class D> auto MaxSplits(D d, int n) { using X = typename SxDelim<std::decay_t<D>>::type; return SxMaxSplits<X>(X(d), n); }
struct SxSplit {
  std::string keep;
  std::vector<std::string_view> parts;
  auto begin() const { return parts.begin(); }
  auto end() const { return parts.end(); }
  template <class C> requires requires(C c, std::string_view s) { c.push_back(typename C::value_type(s)); }
  operator C() const { C c; for (std::string_view p : parts) c.push_back(typename C::value_type(p)); return c; }
  template <class A, class B> operator std::pair<A, B>() const { return {parts.size() > 0 ? A(parts[0]) : A(), parts.size() > 1 ? B(parts[1]) : B()}; }
};
template <class D, class P = AllowEmpty> SxSplit StrSplit(std::string_view t, D delim, P pred = P()) {
  using X = typename SxDelim<std::decay_t<D>>::type;
  X d(delim);
  SxSplit r;
  std::size_t pos = 0;
  while (true) {
    const std::string_view f = d.Find(t, pos);
    const std::size_t at = static_cast<std::size_t>(f.data() - t.data());
    const std::string_view part = t.substr(pos, at - pos);
    if (pred(part)) r.parts.push_back(part);
    if (at == t.size() && f.empty()) break;
    pos = at + f.size();
  }
  return r;
}
}  // namespace absl
