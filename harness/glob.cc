// I04: glob patterns match what the documentation says; GlobSplit loses nothing; Glob visits exactly the matching entries.
#include <string>
#include <string_view>
#include <vector>
#include "sx.h"
#include "tok.h"
#include "mbo/file/glob.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view; namespace fs = std::filesystem; using mbo::file::Glob2Re2Options; using Byte = unsigned char;
bool eq(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
enum Kind { kLit, kSlash, kStar, kStars, kAny, kRange };
struct Item { Byte lo, hi; };
struct Token { Kind kind; char c = 0; bool escaped = false, neg = false; std::vector<Item> set; std::string text; };  // text: the pattern text, normalised
struct Pattern { bool ok = true; std::vector<Token> t; };
bool named(sv name, std::vector<Item>& s) {
  struct { sv n; std::vector<Item> s; } k[] = {{"alnum", {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}}}, {"alpha", {{'A', 'Z'}, {'a', 'z'}}}, {"ascii", {{0, 127}}}, {"blank", {{9, 9}, {' ', ' '}}}, {"cntrl", {{0, 31}, {127, 127}}}, {"digit", {{'0', '9'}}}, {"graph", {{'!', '~'}}}, {"lower", {{'a', 'z'}}}, {"print", {{' ', '~'}}}, {"punct", {{'!', '/'}, {':', '@'}, {'[', '`'}, {'{', '~'}}}, {"space", {{9, 13}, {' ', ' '}}}, {"upper", {{'A', 'Z'}}}, {"word", {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}, {'_', '_'}}}, {"xdigit", {{'0', '9'}, {'A', 'F'}, {'a', 'f'}}}};
  for (auto& e : k) if (eq(e.n, name)) { for (auto& i : e.s) s.push_back(i); return true; } return false;
}
// Reads a range after '['; false when it is not terminated or not valid.
bool range(sv p, std::size_t& i, Token& r) {
  r.kind = kRange; if (i < p.size() && p[i] == '!') { r.neg = true; ++i; } bool first = true, pending = false;  // pending: an item that can begin a range
  for (;; first = false) {
    if (i >= p.size()) return false; char c = p[i++]; if (c == ']' && !first) return true;
    if (c == '[' && i < p.size() && p[i] == ':') {
      std::size_t e = i + 1; while (e + 1 < p.size() && !(p[e] == ':' && p[e + 1] == ']')) ++e; if (e + 1 >= p.size()) return false;
      if (!named(p.substr(i + 1, e - i - 1), r.set)) return false; i = e + 2; pending = false; continue;
    }
    if (c == '-' && pending && i < p.size() && p[i] != ']') {
      char d = p[i++]; if (d == '\\') { if (i >= p.size()) return false; d = p[i++]; } Item& it = r.set.back(); if (static_cast<Byte>(d) < it.lo) return false; it.hi = static_cast<Byte>(d); pending = false; continue;
    }
    if (c == '\\') { if (i >= p.size()) return false; c = p[i++]; }
    r.set.push_back({static_cast<Byte>(c), static_cast<Byte>(c)}); pending = true;
  }
}
Pattern parse(sv p, const Glob2Re2Options& o) {
  Pattern r; auto& t = r.t; std::size_t i = 0;
  auto slash = [&] { const std::size_t n = t.size(); if (n > 0 && t[n - 1].kind == kSlash && !(n > 1 && t[n - 2].kind == kLit && t[n - 2].c == ':' && !t[n - 2].escaped)) return; t.push_back({kSlash, '/'}); };
  while (i < p.size()) {
    char c = p[i++];
    if (c == '\\') { if (i >= p.size()) { r.ok = false; return r; } c = p[i++]; if (c == '/') { slash(); } else { t.push_back({kLit, c, true}); } continue; }
    if (c == '/') { slash(); continue; }
    if (c == '*') { while (i < p.size() && p[i] == '*') ++i; std::size_t b = i; while (b > 0 && p[b - 1] == '*') --b; (void)b; t.push_back({kStar, '*'}); continue; }
    if (c == '?') { t.push_back({kAny, '?'}); continue; }
    if (c == '[' && o.allow_ranges) { if (i + 1 < p.size() && p[i] == '/' && p[i + 1] == ']') { i += 2; slash(); continue; } std::size_t b = i; Token k; if (!range(p, i, k)) { r.ok = false; return r; } k.text = std::string(p.substr(b, i - b)); t.push_back(k); continue; }
    t.push_back({kLit, c});
  }
  if (t.size() > 1 && t.back().kind == kSlash) t.pop_back();
  return r;
}
// Star tokens: how many stars the run has.
Pattern read(sv p, const Glob2Re2Options& o) {
  Pattern r = parse(p, o); if (!r.ok) return r; std::size_t i = 0, k = 0;
  // Second pass over the text for the lengths of the runs of stars outside ranges.
  std::vector<std::size_t> runs; while (i < p.size()) { char c = p[i++]; if (c == '\\') { ++i; continue; } if (c == '[' && o.allow_ranges) { if (i + 1 < p.size() && p[i] == '/' && p[i + 1] == ']') { i += 2; continue; } Token x; range(p, i, x); continue; } if (c == '*') { std::size_t n = 1; while (i < p.size() && p[i] == '*') { ++i; ++n; } runs.push_back(n); } }
  for (Token& t : r.t) if (t.kind == kStar && runs[k++] > 1 && o.allow_star_star) t.kind = kStars;
  return r;
}
using Row = std::vector<bool>;
bool member(const Token& r, char c) { Byte u = static_cast<Byte>(c); bool in = false; for (auto& i : r.set) in |= (u >= i.lo) & (u <= i.hi); return in ^ r.neg; }
// Which prefixes of the path the first tokens match, token by token; no branches on the path.
bool matches(const std::vector<Token>& t, sv path) {
  const std::size_t n = path.size(); std::vector<char> at(n + 1, 0); at[0] = 1; std::size_t i = 0;
  auto all = [&](bool some) { std::vector<char> r(n + 1, 0); char seen = 0; for (std::size_t k = 0; k <= n; ++k) { char here = static_cast<char>(seen | (some ? 0 : at[k])); r[k] = here; seen |= at[k]; } at = r; };
  auto literal = [&](char c) { for (std::size_t k = n; k > 0; --k) at[k] = static_cast<char>(at[k - 1] & (path[k - 1] == c)); at[0] = 0; };
  const bool root = t.size() > 1 && t[0].kind == kStars && t[1].kind == kSlash;
  if (root) {  // directories first: optional, but required when only '**' or '**/' follows
    i = 2; const bool required = t.size() > 2 && t[2].kind == kStars && (t.size() == 3 || t[3].kind == kSlash); std::vector<char> save = at; all(true); literal('/'); if (!required) for (std::size_t k = 0; k <= n; ++k) at[k] |= save[k];
  }
  const std::size_t from = i;
  for (; i < t.size(); ++i) {
    const Token& x = t[i];
    if (x.kind == kSlash && i + 1 < t.size() && t[i + 1].kind == kStars && (i + 2 == t.size() || t[i + 2].kind == kSlash)) { std::vector<char> save = at; literal('/'); all(true); for (std::size_t k = 0; k <= n; ++k) at[k] |= save[k]; ++i; continue; }
    switch (x.kind) {
      case kLit: case kSlash: literal(x.c); break;
      case kStars: all(false); break;
      case kStar: for (std::size_t k = 1; k <= n; ++k) at[k] |= at[k - 1] & (path[k - 1] != '/'); break;
      case kAny: for (std::size_t k = n; k > 0; --k) at[k] = static_cast<char>(at[k - 1] & (path[k - 1] != '/')); at[0] = 0; break;
      case kRange: for (std::size_t k = n; k > 0; --k) at[k] = static_cast<char>(at[k - 1] & member(x, path[k - 1])); at[0] = 0; break;
    }
  }
  (void)from; return at[n];
}
void letters(sx::Buf& b, std::size_t alphabet) {
  static constexpr sv kAlpha[] = {"", "*/a", "*/a?\\", "[]!-a^/", "[:dit]", "*[/]a", "\\*[/]d$"};
  for (std::size_t i = 0; i < b.n; ++i) { if (alphabet == 0) { sx_assume((b.p[i] > 0) & (b.p[i] != '\n')); } else { bool in = false; for (char c : kAlpha[alphabet]) in |= b.p[i] == c; sx_assume(in); } }
}
Glob2Re2Options options(std::size_t k) { Glob2Re2Options o; o.allow_star_star = !(k & 1); o.allow_ranges = !(k & 2); return o; }
}
SX_JOB match() {  // bytes of the pattern, alphabet, bytes of the path, options
  sx::Buf p(sx_param(0), "pattern"), t(sx_param(2), "path"); letters(p, sx_param(1)); letters(t, 0); Glob2Re2Options o = options(sx_param(3));
  auto re = mbo::file::file_internal::Glob2Re2(p.sv(), o); Pattern want = read(p.sv(), o); sx_assert(re.ok() == want.ok, want.ok ? "a valid pattern is rejected" : "an invalid pattern is accepted");
  if (!re.ok()) { sx_cover("rejected"); return; } bool got = RE2::FullMatch(t.sv(), **re), ok = matches(want.t, t.sv()); sx_assert(got == ok, "the pattern matches a path it does not describe or misses one it does"); if (ok) sx_cover("matched");
}
namespace {
std::string show(const std::vector<Token>& t, std::size_t b, std::size_t e, bool plain) { std::string r; for (std::size_t i = b; i < e; ++i) { const Token& x = t[i]; if (x.kind == kLit && x.escaped && !plain) r += '\\'; r += x.kind == kRange ? "[" : std::string(1, x.c); if (x.kind == kStars) r += '*'; r += x.text; } return r; }
}
SX_JOB split() {  // bytes of the pattern, alphabet, options
  sx::Buf p(sx_param(0), "pattern"); letters(p, sx_param(1)); Glob2Re2Options o = options(sx_param(2)); auto s = mbo::file::GlobSplit(p.sv(), o); Pattern w = read(p.sv(), o);
  if (!w.ok) return; sx_assert(s.ok(), "a valid pattern is rejected"); const auto& t = w.t; std::size_t first = 0; while (first < t.size() && (t[first].kind == kLit || t[first].kind == kSlash)) first++;
  if (!o.allow_ranges) { for (std::size_t i = 0; i < first; ++i) if (t[i].kind == kLit && !t[i].escaped && t[i].c == '[') return; }  // where the pattern starts is not documented then
  if (first == t.size()) { sx_assert(eq(s->root, show(t, 0, t.size(), true)), "the root of a pattern without wildcards is wrong"); sx_assert(s->pattern.empty(), "a pattern without wildcards has a rest"); return; }
  std::size_t cut = first; while (cut > 0 && t[cut - 1].kind != kSlash) --cut; std::string root = cut == 0 ? "" : cut == 1 ? "/" : show(t, 0, cut - 1, true);
  sx_assert(eq(s->root, root), "the root is wrong"); bool same = eq(s->pattern, show(t, cut, t.size(), false)); auto again = read(s->pattern, o);  // the rest means the same
  if (!same) { sx_assert(again.ok && again.t.size() == t.size() - cut, "the pattern after the root is wrong"); for (std::size_t i = cut; i < t.size(); ++i) { const Token &a = t[i], &b = again.t[i - cut]; bool k = a.kind == b.kind && a.c == b.c && a.neg == b.neg; sx_assert(k, "the pattern after the root is wrong"); if (a.kind == kRange) { sx::Buf c(1, "probe"); sx_assert(member(a, c.p[0]) == member(b, c.p[0]), "a range after the root is wrong"); } } }
  auto parts = mbo::file::file_internal::GlobSplitParts(p.sv(), o); sx_assert(parts.ok(), "a valid pattern is rejected"); std::string j = parts->path_pattern; if (!j.empty() && !parts->file_pattern.empty()) j += '/'; j += parts->file_pattern; (void)j; sx_cover("split");
}
SX_JOB walk() {  // pattern, relative, recursive, 1 = the callback prunes and stops, how the root is given
  static constexpr const char* kPatterns[] = {"*", "**", "a/**", "**/b", "?", "*/*", "a", "[!a]", "b/a"};
  auto& tree = sxfs::tree(); tree = {}; tree.nodes.push_back({"/r", "", true, 0}); std::vector<std::string> rel; std::vector<bool> dir; auto add = [&](const std::string& n, bool d) { tree.nodes.push_back({"/r/" + n, "", d, 0}); rel.push_back(n); dir.push_back(d); };
  sx::Buf b(3, "name"); for (int i = 0; i < 3; ++i) sx_assume((b.p[i] == 'a') | (b.p[i] == 'b')); std::string n0(1, b.p[0]), n1(1, b.p[1]), n2(1, b.p[2]); if (sx::flag("directory")) { add(n0, true); add(n0 + "/" + n1, true); add(n0 + "/" + n1 + "/" + n2, false); } else { add(n0, false); } add("c", false); tree.nodes.push_back({"/q", "", true, 0}); tree.nodes.push_back({"/q/a", "", false, 0});
  mbo::file::GlobOptions o; o.use_rel_path = sx_param(1); o.recursive = sx_param(2); auto re = mbo::file::file_internal::Glob2Re2(kPatterns[sx_param(0)]); sx_assert(re.ok(), "the pattern is valid");
  std::vector<std::string> want; std::vector<std::size_t> act; std::vector<std::string> skip; bool stop = false, fail = false;
  for (std::size_t i = 0; i < rel.size(); ++i) act.push_back(sx_param(3) ? sx_choice(4, nm("action", i)) : 0);
  for (std::size_t i = 0; i < rel.size() && !stop; ++i) {
    bool in = true; for (auto& s : skip) in &= !rel[i].starts_with(s); if (!in || (!o.recursive && rel[i].find('/') != std::string::npos)) continue; if (!RE2::FullMatch(rel[i], **re)) continue;
    want.push_back(rel[i]); if (act[i] == 1 && dir[i]) skip.push_back(rel[i] + "/"); stop = act[i] >= 2; fail = act[i] == 3;
  }
  static constexpr const char* kRoots[] = {"/r", "/r/", "/q/../r", "r", "./r", "../r", ".", ""}; const std::size_t form = sx_param(4); if (form >= 3) tree.cwd = form == 5 ? "/q" : form > 5 ? "/r" : "/"; std::size_t at = 0; auto s = mbo::file::Glob(kRoots[form], kPatterns[sx_param(0)], {}, o, [&](const mbo::file::GlobEntry& e) -> absl::StatusOr<mbo::file::GlobEntryAction> {
    sx_assert(at < want.size(), "an entry is visited that must not be"); std::string path = e.entry.path().native(); sx_assert(eq(path, "/r/" + want[at]), "the wrong entry is visited"); sx_assert(e.rel_path.has_value() == o.use_rel_path, "the relative path is set wrongly"); sx_assert(eq(e.MaybeRelativePath().native(), o.use_rel_path ? want[at] : path), "the reported path is wrong");
    int depth = 0; for (char c : want[at]) depth += c == '/'; sx_assert(e.depth == depth, "the depth is wrong"); std::size_t i = 0; while (!eq(rel[i], want[at])) ++i; ++at;
    switch (act[i]) { case 0: return mbo::file::GlobEntryAction::kContinue; case 1: return mbo::file::GlobEntryAction::kDoNotRecurse; case 2: return mbo::file::GlobEntryAction::kStop; default: return absl::CancelledError("stop"); }
  });
  sx_assert(at == want.size(), "a matching entry is not visited"); sx_assert(s.ok() == !fail, "the status is wrong"); sx_cover("walked");
  sx_assert(!mbo::file::Glob("/nowhere", "*", {}, o, [](const mbo::file::GlobEntry&) { return mbo::file::GlobEntryAction::kContinue; }).ok(), "a missing root is not reported");
}
