// Stand-in for absl::CEscape / CHexEscape, after Abseil's documented behaviour.
#pragma once
#include <string>
#include <string_view>
namespace absl {
inline std::string SxEscape(std::string_view src, bool use_hex) {
  std::string d; bool last_hex = false;
  for (char ch : src) {
    const unsigned char c = static_cast<unsigned char>(ch);
    bool is_hex = false;
    switch (c) {
      case '\n': d.append("\\n"); break;
      case '\r': d.append("\\r"); break;
      case '\t': d.append("\\t"); break;
      case '"': d.append("\\\""); break;
      case '\'': d.append("\\'"); break;
      case '\\': d.append("\\\\"); break;
      default:
        if (c < 32 || c >= 127 || (use_hex && last_hex && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')))) {
          if (use_hex) { d.append("\\x"); d.push_back("0123456789abcdef"[c / 16]); d.push_back("0123456789abcdef"[c % 16]); is_hex = true; }
          else { d.push_back('\\'); d.push_back(static_cast<char>('0' + c / 64)); d.push_back(static_cast<char>('0' + (c % 64) / 8)); d.push_back(static_cast<char>('0' + c % 8)); }
        } else d.push_back(ch);
    }
    last_hex = is_hex;
  }
  return d;
}
inline std::string CEscape(std::string_view s) { return SxEscape(s, false); }
inline std::string CHexEscape(std::string_view s) { return SxEscape(s, true); }
}  // namespace absl
