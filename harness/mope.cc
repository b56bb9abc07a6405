// M01: Template::Expand against an independent expander that knows the documented grammar, not the code.
#include <array>
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>
#include "absl/status/status.h"
#include "mbo/container/any_scan.h"
#include "mbo/mope/mope.h"
#include "mbo/strings/parse.h"
#include "sx.h"
#ifdef DO_INI
#include "mbo/file/file.h"
#include "mbo/mope/ini.h"
#endif
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
using mbo::mope::Template;
using Code = absl::StatusCode;
namespace {
#ifdef MBO_ENGINE
std::ios_base::Init streams_ready;
#endif
struct T; struct Val { bool section = false, range = false; std::string s; long curr = 0; std::vector<T> dicts; };
struct T { std::map<std::string, Val> m; };
using Ctx = std::map<std::string, Val>;
struct Err { Code code; };
bool first(unsigned char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool word(unsigned char c) { return first(c) || (c >= '0' && c <= '9'); }
bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'; }
bool valid(std::string_view n) { if (n.empty() || !first(static_cast<unsigned char>(n[0]))) return false; for (const char c : n.substr(1)) if (!word(static_cast<unsigned char>(c))) return false; return true; }
struct Tag { std::size_t pos = 0, len = 0; bool section = false; std::string name, extra; char sep = 0; };
bool tag_at(std::string_view s, std::size_t p, Tag& t) {
  std::size_t i = p; auto at = [&](char c) { return i < s.size() && s[i] == c; };
  if (!at('{')) return false; ++i; if (!at('{')) return false; ++i;
  t = Tag{}; t.pos = p; if (at('#')) { t.section = true; ++i; }
  const std::size_t b = i; while (i < s.size() && word(static_cast<unsigned char>(s[i]))) ++i;
  t.name = s.substr(b, i - b); if (!valid(t.name)) return false;
  if (at('=') || at(':')) {
    t.sep = s[i++]; const std::size_t e = i;
    for (;;) {
      if (i >= s.size()) return false;
      if (s[i] != '}') { ++i; continue; }
      if (i + 1 >= s.size()) return false;
      if (s[i + 1] == '}') break;
      i += 2;
    }
    t.extra = s.substr(e, i - e);
  }
  if (!at('}')) return false; ++i; if (!at('}')) return false; ++i;
  t.len = i - p; return true;
}
const Val* find(const T& t, const Ctx& c, const std::string& n) { auto i = t.m.find(n); if (i != t.m.end()) return &i->second; auto k = c.find(n); return k == c.end() ? nullptr : &k->second; }
bool number(std::string_view s, long& v) {
  std::size_t i = !s.empty() && (s[0] == '-' || s[0] == '+') ? 1 : 0; if (i == s.size()) return false; long n = 0;
  for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; n = n * 10 + (s[i] - '0'); if (n > 2147483648L) return false; }
  if (s[0] == '-') n = -n; if (n > 2147483647L) return false;
  v = n; return true;
}
std::string_view trim(std::string_view s) { while (!s.empty() && space(s.front())) s.remove_prefix(1); while (!s.empty() && space(s.back())) s.remove_suffix(1); return s; }
bool operand(std::string_view s) { if (valid(s)) return true; if (!s.empty() && s[0] == '-') s.remove_prefix(1); if (s.empty()) return false; for (const char c : s) if (c < '0' || c > '9') return false; return true; }
std::optional<Err> integer(const T& t, const Ctx& c, std::string_view s, long& v) {
  if (s.empty() || number(s, v)) return {};
  const Val* f = find(t, c, std::string(s)); if (!f) return Err{Code::kNotFound};
  if (f->section) return Err{Code::kInvalidArgument};
  if (f->range) { v = f->curr; return {}; }
  std::string_view d = trim(f->s); if (number(d, v)) return {};
  return Err{Code::kInvalidArgument};
}
std::optional<Err> joiner(const T& t, const Ctx& c, std::string_view s, std::string& v) {
  if (s.empty()) return {};
  if ((s.front() == '"' || s.front() == '\'') && (s.back() == '"' || s.back() == '\'')) {
    auto r = mbo::strings::ParseString({.remove_quotes = true, .allow_unquoted = false}, s); if (!r.ok()) return Err{r.status().code()};
    v = *r; if (!s.empty()) return Err{Code::kInvalidArgument};
    return {};
  }
  const Val* f = find(t, c, std::string(s)); if (!f) return Err{Code::kNotFound};
  if (f->section || f->range) return Err{Code::kInvalidArgument};
  v = f->s; return {};
}
std::string itoa(long n) { if (n == 0) return "0"; const bool neg = n < 0; std::string r; unsigned long u = neg ? 0UL - static_cast<unsigned long>(n) : static_cast<unsigned long>(n); for (; u; u /= 10) r.insert(r.begin(), static_cast<char>('0' + u % 10)); return neg ? "-" + r : r; }
// the part of a line that goes with a tag that stands on a line of its own: how much to drop before and after
void whole_line(std::string_view s, std::size_t pos, std::size_t len, std::size_t& before, std::size_t& after) {
  before = after = 0; const std::size_t e = pos + len; if (e >= s.size() || (s[e] != '\n' && s[e] != '\r')) return;
  std::size_t p = pos; while (p > 0 && (s[p - 1] == ' ' || s[p - 1] == '\t')) --p;
  if (p == 0 || s[p - 1] == '\n' || s[p - 1] == '\r') { before = pos - p; after = 1; }
}
long steps = 0;
std::optional<Err> expand(const T& t, Ctx& c, const std::string& in, std::string& out);
std::optional<Err> section(const T& t, Ctx& c, const Tag& tag, const std::string& body, std::string& out) {
  out.clear();
  if (tag.sep != '=') {
    const Val* v = find(t, c, tag.name); if (!v) return {};
    if (!v->section) return Err{Code::kInvalidArgument};
    std::string join; if (tag.sep == ':') if (auto e = joiner(t, c, tag.extra, join)) return e;
    bool sep = false; for (const T& d : v->dicts) { std::string r; if (auto e = expand(d, c, body, r)) return e; if (sep) out += join; sep = true; out += r; }
    return {};
  }
  std::vector<std::string_view> p; std::string_view x = tag.extra; for (;;) { const std::size_t i = x.find(';'); p.push_back(x.substr(0, i)); if (i == std::string_view::npos) break; x.remove_prefix(i + 1); }
  if (p.size() >= 2 && p.size() <= 4 && operand(trim(p[0])) && operand(trim(p[1])) && (p.size() < 3 || trim(p[2]).empty() || operand(trim(p[2])))) {
    long a = 0, b = 0, s = 1; std::string join;
    if (auto e = integer(t, c, trim(p[0]), a)) return e; if (auto e = integer(t, c, trim(p[1]), b)) return e; if (p.size() > 2) if (auto e = integer(t, c, trim(p[2]), s)) return e; if (p.size() > 3) if (auto e = joiner(t, c, p[3], join)) return e;
    if (s == 0) return Err{Code::kInvalidArgument};
    if (t.m.count(tag.name) || c.count(tag.name)) return Err{Code::kInvalidArgument};
    bool sep = false; std::optional<Err> bad;
    for (long i = a; !bad && (s > 0 ? i <= b : i >= b); i += s) {
      Val& v = c[tag.name]; v = Val{}; v.range = true; v.curr = i; std::string r;
      if ((bad = expand(t, c, body, r))) break;
      if (sep) out += join; sep = true; out += r; ++steps;
    }
    c.erase(tag.name); return bad;
  }
  if (tag.extra.empty()) return {};
  if (tag.extra[0] != '[') return Err{Code::kUnimplemented};
  std::string_view rest = tag.extra; rest.remove_prefix(1);
  auto list = mbo::strings::ParseStringList({.stop_at_any_of = "]", .split_at_any_of = ","}, rest); if (!list.ok()) return Err{list.status().code()};
  std::string join;
  if (rest.empty() || rest[0] != ']') return Err{Code::kInvalidArgument};
  rest.remove_prefix(1);
  if (!rest.empty()) { if (rest[0] != ';' || rest.size() < 2) return Err{Code::kInvalidArgument}; rest.remove_prefix(1); if (auto e = joiner(t, c, rest, join)) return e; }
  if (t.m.count(tag.name) || c.count(tag.name)) return Err{Code::kInvalidArgument};
  bool sep = false; std::optional<Err> bad;
  for (const std::string& v : *list) { if (!valid(tag.name)) return Err{Code::kInvalidArgument}; Val& x = c[tag.name]; x = Val{}; x.s = v; std::string r; if ((bad = expand(t, c, body, r))) break; if (sep) out += join; sep = true; out += r; }
  c.erase(tag.name); return bad;
}
std::optional<Err> expand(const T& t, Ctx& c, const std::string& in, std::string& out) {
  out.clear(); std::size_t at = 0;
  while (at < in.size()) {
    Tag tag; std::size_t p = at; while (p < in.size() && !tag_at(in, p, tag)) ++p;
    if (p >= in.size()) break;
    out.append(in, at, p - at);
    // what the tag sees: the text made so far and the text still to come
    std::string seen = out + in.substr(p); std::size_t before = 0, after = 0;
    if (tag.section || tag.sep == '=') whole_line(seen, out.size(), tag.len, before, after);
    const std::size_t content = p + tag.len + after;
    if (tag.section) {
      const std::string end = "{{/" + tag.name + "}}"; const std::size_t e = in.find(end, content); if (e == std::string::npos) return Err{Code::kInvalidArgument};
      std::size_t eb = 0, ea = 0; whole_line(seen, out.size() + (e - p), end.size(), eb, ea);
      const std::string body = in.substr(content, e - eb < content ? 0 : e - eb - content); std::string r;
      if (auto bad = section(t, c, tag, body, r)) return bad;
      out.resize(out.size() - before); out += r; at = e + end.size() + ea; continue;
    }
    if (tag.sep == '=' || !tag.extra.empty()) {
      if (tag.sep == '=') { if (t.m.count(tag.name)) return Err{Code::kInvalidArgument}; auto i = c.find(tag.name); if (i != c.end() && i->second.range) return Err{Code::kAlreadyExists}; Val& v = c[tag.name]; v = Val{}; v.s = tag.extra; }
      out.resize(out.size() - before); at = content; continue;
    }
    const Val* v = find(t, c, tag.name);
    if (!v) out.append(in, p, tag.len); else if (v->section) return Err{Code::kUnimplemented}; else out += v->range ? itoa(v->curr) : v->s;
    at = p + tag.len;
  }
  out.append(in, std::min(at, in.size()), std::string::npos); return {};
}
void fill(Template& t, const T& m) {
  for (const auto& [name, v] : m.m) {
    if (!v.section) { sx_assert(t.SetValue(name, v.s).ok(), "SetValue fails for a new name"); continue; }
    std::vector<Template*> all; for (std::size_t i = 0; i < v.dicts.size(); ++i) { auto s = t.AddSection(name); sx_assert(s.ok(), "AddSection fails"); if (s.ok()) all.push_back(*s); }
    for (std::size_t i = 0; i < all.size(); ++i) fill(*all[i], v.dicts[i]);  // after the last one was added: the earlier ones must still be there
  }
}
Val str(std::string s) { Val v; v.s = std::move(s); return v; }
Val sec(std::vector<T> d) { Val v; v.section = true; v.dicts = std::move(d); return v; }
void decide(const T& m, const std::string& text, const Ctx& given = {}) {
  Template t; fill(t, m);
  std::string got = text, want; Ctx c = given;
  absl::Status st;
  if (given.empty()) st = t.Expand(got);
  else { std::vector<std::pair<std::string_view, std::string_view>> v; for (const auto& [k, x] : given) v.emplace_back(k, x.s); st = t.Expand(got, mbo::container::MakeConvertingScan(v)); }
  const auto bad = expand(m, c, text, want);
  if (bad) { sx_assert(!st.ok(), "a malformed template is expanded without an error"); sx_assert(st.ok() || st.code() == bad->code, "a malformed template is reported with another code"); sx_cover("refused"); return; }
  sx_assert(st.ok(), "a well formed template is refused");
  if (st.ok()) sx_assert(sx::same(got, want), "the expanded text is not the template with its tags replaced");
  sx_cover("expanded");
  std::string again = text; if (given.empty()) sx_assert(t.Expand(again).ok() == st.ok() && sx::same(again, got), "a second expansion gives another text");
}
std::string bytes(std::size_t n, const char* name) { sx::Buf b(n, name); return std::string(b.sv()); }
T config(unsigned k) {
  T m; T d1, d2, n1; n1.m["v"] = str("deep");
  d1.m["v"] = str("one"); d1.m["n"] = sec({n1, T{}}); d2.m["v"] = str("two"); d2.m["c"] = str("k");
  switch (k) {
    case 0: break;
    case 1: m.m["v"] = str("V"); m.m["s"] = sec({d1, d2}); m.m["j"] = str("+"); break;
    case 2: m.m["s"] = sec({T{}}); m.m["c"] = str("3"); break;
    default: m.m["a"] = str("A{{b}}"); m.m["b"] = str(" \n"); m.m["s"] = sec({d2, d1, T{}}); m.m["i"] = str("5"); break;
  }
  return m;
}
}  // namespace
#ifdef DO_TAGS
// Text with symbolic bytes in it: which of them form tags.
SX_JOB tags() {
  static const struct { const char *pre, *post; } shape[] = {{"", ""}, {"{{", "}}"}, {"x{{a", "}}y"}, {"{{#a", "}}x{{/a}}"}, {"{{a=", "}}{{a}}"}, {"{", "a}}}"}, {" {{v}}", "\n"}, {"{{#s}}", "{{/s}}"}, {"{{#i=1;", "}}{{i}}{{/i}}"}, {"{{#i=[", "]}}{{i}}{{/i}}"}, {"{{#s:", "}}{{v}}{{/s}}"}, {"{{#i=1;2;1;", "}}{{i}}{{/i}}"}, {"{{#i=[1,2];", "}}{{i}}{{/i}}"}, {" {{c=1", "\n{{c}}"}, {"{{#i=", "}}{{i}}{{/i}}"}};
  const auto& s = shape[sx_param(0)]; std::string mid = bytes(sx_param(1), "t");
  for (char& c : mid) { c = static_cast<char>(c & 0x7f); }
  if (sx_param(3)) { static const char al[] = "{}#/=:;va1-\"'\n ,\\]"; for (std::size_t i = 0; i < mid.size(); ++i) sx_assume(__builtin_memchr(al, mid[i], sizeof al - 1) != nullptr); }
  decide(config(sx_param(2)), s.pre + mid + s.post);
}
#endif
#ifdef DO_TOKENS
SX_JOB tokens() {
  static const char* const tok[] = {"x", " ", "\n", "{{v}}", "{{c}}", "{{c=7}}", "{{c=}}", "{{#s}}", "{{/s}}", "{{#s:'-'}}", "{{#n:j}}", "{{/n}}", "{{#i=1;3}}", "{{/i}}", "{{i}}", "{{#c=['p',q];\",\"}}", "{{/c}}", "{{#v=}}", "{{/v}}", "{{#i=c;-1;-2;'/'}}", "{{a}}", "{{c:o}}", "{{#s:j}}"};
  constexpr unsigned kTok = sizeof tok / sizeof *tok; static const char* const nm[] = {"ta", "tb", "tc", "td", "te", "tf"};
  std::string text; const unsigned fixed = sx_param(1), n = sx_param(2);
  if (fixed < 100) text += tok[fixed]; if (sx_param(3) < 100) text += tok[sx_param(3)];
  for (unsigned i = 0; i < n; ++i) text += tok[sx_choice(kTok, nm[i])];
  static const char* const closing[] = {"", "{{/s}}", "{{/i}}", "{{/c}}\n", "{{/n}}x{{/s}}"}; text += closing[sx_param(4)];
  decide(config(sx_param(0)), text);
}
// Values are put in as they are; names in sections, in the context and in the template are looked up in this order.
SX_JOB values() {
  const std::string v = bytes(sx_choice(3, "n"), "v"); T m; m.m["v"] = str(v); T d; d.m["w"] = str(v); m.m["s"] = sec({d, T{}});
  Ctx c; if (sx::flag("ctx")) c["w"] = str("C"); if (sx::flag("shadow")) c["v"] = str("S");
  decide(m, "<{{v}}>{{#s}}[{{w}}{{v}}]{{/s}}{{#v2='}}{{/v2}}", c);
}
SX_JOB shown() {
  const std::string v = bytes(sx_choice(3, "n"), "v"); T m; m.m["v"] = str(v); T d; d.m["w"] = str(v); m.m["s"] = sec({d, T{}});
  Ctx c; if (sx::flag("ctx")) c["w"] = str("C"); if (sx::flag("shadow")) c["v"] = str("S");
  decide(m, "<{{v}}>{{#s:v}}[{{w}}{{v}}]{{/s}}.", c);
}
// Loops with numbers from values, up to the limits of int.
SX_JOB range() {
  const unsigned where = sx_param(0); const long base[] = {0, 2147483647L, -2147483648L, 1000};
  const long near = base[where]; const int64_t a = near + sx_range(-3, 3, "a"), b = near + sx_range(-3, 3, "b");
  static const char* const step[] = {"", "1", "-1", "2", "-2", "3", "-3", "0", "2147483647", "-2147483648", "-2147483647", "5"}; const std::string s = step[sx_param(1)];
  const long ca = static_cast<long>(sx_concretize(static_cast<uint64_t>(a))), cb = static_cast<long>(sx_concretize(static_cast<uint64_t>(b)));
  T m; const bool named = sx::flag("named"); if (named) { m.m["f"] = str(itoa(ca)); m.m["t"] = str(itoa(cb)); }
  const std::string text = "{{#i=" + (named ? "f" : itoa(ca)) + " ; " + (named ? "t" : itoa(cb)) + ";" + s + ";\", \"}}<{{i}}>{{/i}}";
  decide(m, text); sx_cover("range");
}
SX_JOB setters() {
  static const char* const name[] = {"a", "_b9", "", "9", "a b", "A"}; static const char* const ns[] = {"na", "nb", "nc", "nd"}; static const char* const os[] = {"oa", "ob", "oc", "od"};
  Template t; T m; std::string text;
  for (unsigned i = 0; i < sx_param(0); ++i) {
    const std::string n = name[i ? sx_choice(2, ns[i]) : sx_choice(6, ns[i])]; const unsigned op = sx_choice(3, os[i]); const bool ok = valid(n); auto it = m.m.find(n); const bool there = it != m.m.end();
    if (op == 2) {
      auto s = t.AddSection(n);
      const Code want = !ok ? Code::kInvalidArgument : there && !it->second.section ? Code::kAlreadyExists : Code::kOk; sx_assert(s.status().code() == want, "AddSection reports another status");
      if (want == Code::kOk) { Val& v = m.m[n]; v.section = true; T d; d.m["x"] = str(itoa(i)); v.dicts.push_back(d); if (s.ok()) sx_assert((*s)->SetValue("x", itoa(i)).ok(), "SetValue in a section fails"); }
    } else {
      const auto s = t.SetValue(n, itoa(i), op == 1);
      const Code want = !ok ? Code::kInvalidArgument : there && (op == 0 || it->second.section) ? Code::kAlreadyExists : Code::kOk; sx_assert(s.code() == want, "SetValue reports another status");
      if (want == Code::kOk) m.m[n] = str(itoa(i));
    }
    sx_assert(Template::IsValidName(n) == ok, "IsValidName");
  }
  for (const char* n : {"a", "_b9", "A"}) { const auto it = m.m.find(n); text += it != m.m.end() && it->second.section ? std::string("{{#") + n + ":','}}{{x}}{{/" + n + "}};" : std::string("{{") + n + "}};"; }
  std::string got = text, want; Ctx c; const bool ok = t.Expand(got).ok(); const auto bad = expand(m, c, text, want);
  sx_assert(ok && !bad && sx::same(got, want), "the values set are not the values expanded"); sx_cover("setters");
}
SX_JOB names() { const std::string n = bytes(sx_param(0), "n"); sx_assert(Template::IsValidName(n) == valid(n), "IsValidName accepts another set of names"); Template t; sx_assert(t.SetValue(n, "v").ok() == valid(n), "SetValue accepts another set of names"); sx_assert(Template().AddSection(n).ok() == valid(n), "AddSection accepts another set of names"); sx_cover("names"); }
#endif
#ifdef DO_INI
// An INI file as configuration: groups are sections, '.' nests, ':' repeats.
SX_JOB ini() {
  static const char* const group[] = {"", "p", "p:1", "p:1-x", "p.k", "p:1.k", "p.k:2", "p: .k", "q.r.s", "p:1-x.k"}; static const char* const gs[] = {"ga", "gb", "gc", "gd"};
  std::string file; std::set<std::string> have; T m; const unsigned n = sx_param(0);
  std::map<std::string, std::map<std::string, std::string>> want;
  for (unsigned i = 0; i < n; ++i) {
    const std::string g = group[i == 0 && sx_param(1) < 10 ? sx_param(1) : sx_choice(10, gs[i])]; if (i == 0 && g.empty()) file += ""; else file += "[" + g + "]\n";
    file += std::string(1, static_cast<char>('a' + i)) + "=" + std::string(1, static_cast<char>('0' + i)) + "\n"; want[g][std::string(1, static_cast<char>('a' + i))] = std::string(1, static_cast<char>('0' + i));
  }
  // sections in order of their groups, each level identified by the text before its ':' and after
  struct Node { std::map<std::string, std::size_t> index; }; std::map<std::string, std::pair<std::string, std::size_t>> made;  // path -> where
  auto walk = [&](const std::string& g) -> T* {
    T* at = &m; std::string path; std::string_view rest = g;
    while (!g.empty()) {
      const std::size_t dot = rest.find('.'); const std::string level(rest.substr(0, dot)); const std::string name = level.substr(0, level.find(':')); path += "." + level;
      Val& v = at->m[name]; v.section = true; auto k = made.find(path); if (k == made.end()) { v.dicts.emplace_back(); k = made.emplace(path, std::make_pair(name, v.dicts.size() - 1)).first; }
      at = &v.dicts[k->second.second]; if (dot == std::string_view::npos) break; rest.remove_prefix(dot + 1);
    }
    return at;
  };
  for (const auto& [g, kv] : want) for (const auto& [k, v] : kv) walk(g)->m[k] = str(v);
  sxfs::tree().nodes.clear(); sxfs::tree().nodes.push_back({"f.ini", file, false, 0});
  Template t; const auto st = mbo::mope::ReadIniToTemlate("f.ini", t); sx_assert(st.ok(), "a configuration is refused");
  const std::string body = "{{a}}{{b}}{{c}}{{d}}"; const std::string text = body + "{{#p:'|'}}<" + body + "{{#k:','}}(" + body + "){{/k}}>{{/p}}{{#q}}" + body + "{{#r}}" + body + "{{#s}}" + body + "{{/s}}{{/r}}{{/q}}";
  std::string got = text, exp; Ctx c; const bool ok = t.Expand(got).ok(); const auto bad = expand(m, c, text, exp);
  sx_assert(ok && !bad && sx::same(got, exp), "the sections of the configuration are not those of the file"); sx_cover("ini");
}
#endif
