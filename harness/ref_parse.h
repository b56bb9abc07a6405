// Independent description of mbo::strings::ParseString and ParseStringList: a position based scanner written from the documented rules
// (https://en.cppreference.com/w/cpp/language/escape, limited to 8 bits).
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include "mbo/strings/parse.h"
namespace ref {
struct Parsed { int code = 0; std::string text; std::size_t used = 0; };  // 0 ok, 1 invalid argument, 2 unimplemented
inline bool any(std::string_view s, char c) { bool r = false; for (char x : s) r |= x == c; return r; }
inline int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
inline bool here(std::string_view d, std::size_t p, std::string_view m) { if (m.empty() || p + m.size() > d.size()) return false; bool ok = true; for (std::size_t i = 0; i < m.size(); ++i) ok &= d[p + i] == m[i]; return ok; }
// A number of `base` of at most `most` digits at d[p], in braces if `braced`. Returns -1 if malformed.
inline int number(std::string_view d, std::size_t& p, int base, std::size_t most, bool braced) {
  if (braced) { if (p == d.size() || d[p] != '{') return -1; ++p; }
  int v = 0; std::size_t k = 0;
  while (k < most && p < d.size()) { int g = digit(d[p]); if (g >= base) break; v = v * base + g; ++p; ++k; }
  if (k == 0) return -1;
  if (braced) { if (p == d.size() || d[p] != '}') return -1; ++p; }
  return v > 255 ? -1 : v;
}
inline Parsed parse(const mbo::strings::ParseOptions& o, std::string_view d) {
  Parsed r; char open = 0; std::size_t p = 0;
  for (; p < d.size();) {
    const char c = d[p]; const bool dq = c == '"' && o.enable_double_quotes, sq = c == '\'' && o.enable_single_quotes;
    if (!open) {
      if (any(o.stop_at_any_of, c) || any(o.split_at_any_of, c) || here(d, p, o.stop_at_str) || (!o.allow_unquoted && !dq && !sq)) { r.used = p; return r; }
    }
    ++p;
    if (c == '\\') {
      if (p == d.size()) { r.code = 1; return r; }
      const char e = d[p++];
      if (any(o.custom_escapes, e)) { r.text += e; continue; }
      int v = -1;
      switch (e) {
        case '\'': case '"': case '?': case '\\': v = e; break;
        case 'a': v = 7; break; case 'b': v = 8; break; case 't': v = 9; break; case 'n': v = 10; break; case 'v': v = 11; break; case 'f': v = 12; break; case 'r': v = 13; break;
        case 'u': case 'U': case 'N': r.code = 2; return r;
        case 'o': v = number(d, p, 8, 3, true); break;
        case 'x': v = number(d, p, 16, 2, p < d.size() && d[p] == '{'); break;
        default: if (e >= '0' && e <= '7') { --p; v = number(d, p, 8, 3, false); } break;
      }
      if (v < 0) { r.code = 1; return r; }
      r.text += static_cast<char>(v); continue;
    }
    if (open ? c == open : (dq || sq)) { open = open ? 0 : c; if (!o.remove_quotes) r.text += c; continue; }
    r.text += c;
  }
  r.used = p; r.code = open ? 1 : 0; return r;
}
struct List { int code = 0; std::vector<std::string> parts; std::size_t used = 0; };
inline List list(mbo::strings::ParseOptions o, std::string_view d) {
  if (o.split_at_any_of.empty()) o.split_at_any_of = ",";
  List r; auto stop = [&](std::size_t p) { return any(o.stop_at_any_of, d[p]) || here(d, p, o.stop_at_str); };
  if (d.empty() || stop(0)) return r;  // nothing before the stop: no part
  std::size_t p = 0;
  for (;;) {
    Parsed one = parse(o, d.substr(p)); if (one.code) { r.code = one.code; return r; }
    r.parts.push_back(one.text); p += one.used; r.used = p;
    if (p == d.size() || stop(p) || !any(o.split_at_any_of, d[p])) return r;
    r.used = ++p;  // past the separator: what follows is another part, possibly empty
  }
}
}  // namespace ref
