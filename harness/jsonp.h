// A strict JSON (RFC 8259) reader: the oracle for printed JSON.
#pragma once
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace jsonp {
enum Kind { kNull, kBool, kNumber, kString, kArray, kObject };
struct Prop;
struct V { Kind k = kNull; bool b = false; std::string t; std::vector<V> a; std::vector<Prop> o; };
struct Prop { std::string first; V second; };
struct P {
  std::string_view s; std::size_t i = 0; bool ok = true;
  bool fail() { ok = false; return false; }
  bool at(char c) const { return i < s.size() && s[i] == c; }
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t')) ++i; }
  bool lit(std::string_view l) { if (s.size() - i < l.size()) return fail(); for (std::size_t k = 0; k < l.size(); ++k) if (s[i + k] != l[k]) return fail(); i += l.size(); return true; }
  bool str(std::string& out) {
    if (!at('"')) return fail();
    for (++i; i < s.size();) {
      const unsigned char c = static_cast<unsigned char>(s[i++]);
      if (c == '"') return true;
      if (c < 32) return fail();
      if (c != '\\') { out.push_back(static_cast<char>(c)); continue; }
      if (i == s.size()) return fail();
      switch (s[i++]) {
        case '"': out.push_back('"'); break; case '\\': out.push_back('\\'); break; case '/': out.push_back('/'); break;
        case 'b': out.push_back('\b'); break; case 'f': out.push_back('\f'); break; case 'n': out.push_back('\n'); break; case 'r': out.push_back('\r'); break; case 't': out.push_back('\t'); break;
        case 'u': {
          unsigned v = 0;
          for (int k = 0; k < 4; ++k) {
            if (i == s.size()) return fail();
            const char h = s[i++]; unsigned d;
            if (h >= '0' && h <= '9') d = static_cast<unsigned>(h - '0'); else if (h >= 'a' && h <= 'f') d = static_cast<unsigned>(h - 'a' + 10); else if (h >= 'A' && h <= 'F') d = static_cast<unsigned>(h - 'A' + 10); else return fail();
            v = v * 16 + d;
          }
          if (v >= 0xD800 && v < 0xE000) return fail();
          if (v < 0x80) out.push_back(static_cast<char>(v));
          else if (v < 0x800) { out.push_back(static_cast<char>(0xC0 | (v >> 6))); out.push_back(static_cast<char>(0x80 | (v & 63))); }
          else { out.push_back(static_cast<char>(0xE0 | (v >> 12))); out.push_back(static_cast<char>(0x80 | ((v >> 6) & 63))); out.push_back(static_cast<char>(0x80 | (v & 63))); }
          break;
        }
        default: return fail();
      }
    }
    return fail();
  }
  bool digits() { std::size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; return i > b || fail(); }
  bool value(V& v) {
    ws();
    if (i == s.size()) return fail();
    switch (s[i]) {
      case 'n': v.k = kNull; return lit("null");
      case 't': v.k = kBool; v.b = true; return lit("true");
      case 'f': v.k = kBool; v.b = false; return lit("false");
      case '"': v.k = kString; return str(v.t);
      case '[': {
        v.k = kArray; ++i; ws(); if (at(']')) { ++i; return true; }
        for (;;) { v.a.emplace_back(); if (!value(v.a.back())) return false; ws(); if (at(']')) { ++i; return true; } if (!at(',')) return fail(); ++i; }
      }
      case '{': {
        v.k = kObject; ++i; ws(); if (at('}')) { ++i; return true; }
        for (;;) { ws(); v.o.emplace_back(); if (!str(v.o.back().first)) return false; ws(); if (!at(':')) return fail(); ++i; if (!value(v.o.back().second)) return false; ws(); if (at('}')) { ++i; return true; } if (!at(',')) return fail(); ++i; }
      }
      default: {
        v.k = kNumber; const std::size_t b = i;
        if (at('-')) ++i;
        if (at('0')) ++i; else if (!digits()) return false;
        if (at('.')) { ++i; if (!digits()) return false; }
        if (at('e') || at('E')) { ++i; if (at('+') || at('-')) ++i; if (!digits()) return false; }
        v.t = std::string(s.substr(b, i - b)); return true;
      }
    }
  }
};
inline bool parse(std::string_view s, V& v) { P p{s}; if (!p.value(v)) return false; p.ws(); return p.i == s.size(); }
}  // namespace jsonp
