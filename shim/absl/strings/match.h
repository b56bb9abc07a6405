#pragma once
#include <string_view>
namespace absl {
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != std::string_view::npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != std::string_view::npos; }
inline bool StartsWith(std::string_view t, std::string_view p) { return t.size() >= p.size() && t.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view t, std::string_view p) { return t.size() >= p.size() && t.substr(t.size() - p.size()) == p; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) {
    unsigned char x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
    if (x >= 'A' && x <= 'Z') x = static_cast<unsigned char>(x + 32);
    if (y >= 'A' && y <= 'Z') y = static_cast<unsigned char>(y + 32);
    if (x != y) return false;
  }
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p); }
inline bool StrContainsIgnoreCase(std::string_view h, std::string_view n) { for (std::size_t i = 0; i + n.size() <= h.size(); ++i) if (EqualsIgnoreCase(h.substr(i, n.size()), n)) return true; return false; }
}  // namespace absl
