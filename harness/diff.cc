// F01 a diff applied to the left text yields the right text; F02 a diff is empty exactly for equal texts; F03 Myers is minimal.
#include <string>
#include <string_view>
#include <vector>
#include "sx.h"
#include "tok.h"
#include "mbo/diff/diff.h"
#include "mbo/diff/diff_options.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view; using mbo::diff::DiffOptions; using mbo::file::Artefact;
// A text of `lines` lines, each one byte or, in mode 1, empty or one byte; the last line ends with a line feed unless `bare`.
// In raw mode the text is any `lines` bytes.
struct Text { std::string s; };
std::string text(const char* name, std::size_t lines, int mode, bool bare) {
  std::string r; sx::Buf b(lines, name);
  if (mode == 2) return std::string(b.sv());
  for (std::size_t i = 0; i < lines; ++i) {
    sx_assume(b.p[i] != '\n');
    if (mode == 1) { sx_assume((b.p[i] == 'a') | (b.p[i] == 'b') | (b.p[i] == 0)); if (b.p[i]) r += b.p[i]; } else { r += b.p[i]; }
    if (i + 1 < lines || !bare) r += '\n';
  }
  return r;
}
std::vector<sv> split(sv t) { std::vector<sv> r; while (!t.empty()) { std::size_t e = 0; while (e < t.size() && t[e] != '\n') ++e; if (e < t.size()) ++e; r.push_back(t.substr(0, e)); t.remove_prefix(e); } return r; }
bool eq(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
// Reader of a diff.
struct Reader {
  sv d; std::size_t p = 0;
  bool end() const { return p == d.size(); }
  bool lit(sv s) { if (d.size() - p < s.size()) return false; for (std::size_t i = 0; i < s.size(); ++i) if (d[p + i] != s[i]) return false; p += s.size(); return true; }
  void need(sv s, const char* what) { bool ok = lit(s); sx_assert(ok, what); }
  std::size_t number() { std::size_t v = 0, k = 0; while (p < d.size() && d[p] >= '0' && d[p] <= '9') { v = v * 10 + static_cast<std::size_t>(d[p++] - '0'); ++k; } sx_assert(k > 0, "a number is missing in a header"); return v; }
  // The text of a line after its prefix, with its line feed unless the marker follows.
  std::string line() { std::string r; while (p < d.size() && d[p] != '\n') r += d[p++]; sx_assert(p < d.size(), "a line of the diff is not terminated"); ++p; if (!lit("\\ No newline at end of file\n")) r += '\n'; return r; }
};
struct Applied { std::string out; std::size_t dels = 0, adds = 0; };
struct Patch {
  Reader r; const std::vector<sv>& l; std::size_t ctx; Applied a; std::size_t at = 0, made = 0, last = 0;  // next left line, right lines so far, end of the last chunk
  void copy(std::size_t to) { sx_assert(to <= l.size(), "a chunk starts past the end of the left text"); sx_assert(to >= at, "chunks overlap or are out of order"); while (at < to) { a.out += l[at++]; ++made; } }
  void keep(const std::string& s) { sx_assert(at < l.size(), "context past the end of the left text"); sx_assert(eq(s, l[at]), "a context line is not the line of the left text"); a.out += l[at++]; ++made; }
  void del(const std::string& s) { sx_assert(at < l.size(), "a deletion past the end of the left text"); sx_assert(eq(s, l[at]), "a deleted line is not the line of the left text"); ++at; ++a.dels; }
  void add(const std::string& s) { a.out += s; ++made; ++a.adds; }
  void context(std::size_t lead, std::size_t trail, std::size_t left_before, std::size_t left_after) {
    sx_assert(lead == std::min(ctx, left_before), "a chunk has the wrong number of leading context lines"); sx_assert(trail == std::min(ctx, left_after), "a chunk has the wrong number of trailing context lines");
  }
};
Applied unified(sv diff, const std::vector<sv>& l, std::size_t ctx) {
  Patch p{{diff}, l, ctx}; Reader& r = p.r; if (diff.empty()) { p.copy(l.size()); return p.a; }
  r.need("--- a\n+++ b\n", "the file header is wrong");
  while (!r.end()) {
    r.need("@@ -", "a chunk header is missing"); std::size_t ls = r.number(), ln = r.lit(",") ? r.number() : 1; r.need(" +", "a chunk header is malformed"); std::size_t rs = r.number(), rn = r.lit(",") ? r.number() : 1; r.need(" @@\n", "a chunk header is malformed");
    std::size_t to = ln ? ls - 1 : ls; p.copy(to); sx_assert(p.made == (rn ? rs - 1 : rs), "the right line number of a chunk is wrong"); sx_assert(ln + rn > 0, "a chunk is empty"); const std::size_t base = p.made, begin = p.last;
    std::size_t lead = 0, trail = 0, changes = 0;
    while (p.at < to + ln || p.made < base + rn) {
      if (r.lit(" ")) { p.keep(r.line()); if (!changes) ++lead; ++trail; sx_assert(trail <= 2 * ctx, "a chunk has too much context between changes"); } else if (r.lit("-")) { p.del(r.line()); ++changes; trail = 0; } else { r.need("+", "a line of a chunk is missing"); p.add(r.line()); ++changes; trail = 0; }
    }
    sx_assert(p.at == to + ln, "the left count of a chunk is wrong"); sx_assert(p.made == base + rn, "the right count of a chunk is wrong"); sx_assert(changes > 0, "a chunk changes nothing");
    p.context(lead, trail, to + lead - begin, l.size() - p.at + trail); p.last = p.at;
  }
  p.copy(l.size()); return p.a;
}
struct Range { std::size_t from, to; };  // 1 based, as printed
Range range(Reader& r) { std::size_t a = r.number(); return {a, r.lit(",") ? r.number() : a}; }
Applied normal(sv diff, const std::vector<sv>& l) {
  Patch p{{diff}, l, 0}; Reader& r = p.r;
  while (!r.end()) {
    Range x = range(r); char c = r.end() ? 0 : r.d[r.p++]; Range y = range(r); r.need("\n", "a command is malformed"); sx_assert((c == 'a') | (c == 'd') | (c == 'c'), "a command has an unknown letter");
    p.copy(c == 'a' ? x.from : x.from - 1); sx_assert(p.made == (c == 'd' ? y.from : y.from - 1), "the right line number of a command is wrong");
    if (c == 'a') { sx_assert(x.from == x.to, "an addition has a left range"); } else { for (std::size_t i = x.from; i <= x.to; ++i) { r.need("< ", "a deleted line is missing"); p.del(r.line()); } }
    if (c == 'c') { r.need("---\n", "the separator of a change is missing"); }
    if (c == 'd') { sx_assert(y.from == y.to, "a deletion has a right range"); } else { for (std::size_t i = y.from; i <= y.to; ++i) { r.need("> ", "an added line is missing"); p.add(r.line()); } }
  }
  p.copy(l.size()); return p.a;
}
struct Entry { char kind; std::string text; };
Applied context(sv diff, const std::vector<sv>& l, std::size_t ctx) {
  Patch p{{diff}, l, ctx}; Reader& r = p.r; if (diff.empty()) { p.copy(l.size()); return p.a; }
  r.need("*** a\n--- b\n", "the file header is wrong");
  while (!r.end()) {
    r.need("***************\n*** ", "a chunk header is missing"); Range x = range(r); r.need(" ****\n", "a chunk header is malformed");
    std::vector<Entry> left, right; auto read = [&](std::vector<Entry>& v) { while (!r.end()) { if (r.lit("  ")) v.push_back({' ', r.line()}); else if (r.lit("! ")) v.push_back({'!', r.line()}); else if (r.lit("- ")) { v.push_back({'-', r.line()}); } else if (r.lit("+ ")) v.push_back({'+', r.line()}); else break; } };
    read(left); r.need("--- ", "the right header of a chunk is missing"); Range y = range(r); r.need(" ----\n", "a chunk header is malformed"); read(right);
    sx_assert(!left.empty() || !right.empty(), "a chunk is empty");
    for (auto& e : left) sx_assert(e.kind != '+', "an addition in the left section"); for (auto& e : right) sx_assert(e.kind != '-', "a deletion in the right section");
    if (left.empty()) { for (auto& e : right) { sx_assert(e.kind != '!', "a change without a left section"); if (e.kind == ' ') left.push_back(e); } }
    if (right.empty()) { for (auto& e : left) { sx_assert(e.kind != '!', "a change without a right section"); if (e.kind == ' ') right.push_back(e); } }
    const std::size_t to = left.empty() ? x.from : x.from - 1; sx_assert(left.empty() ? x.from == x.to : x.to == to + left.size(), "the left range of a chunk is wrong"); p.copy(to);
    sx_assert(p.made == (right.empty() ? y.from : y.from - 1), "the right line number of a chunk is wrong"); sx_assert(right.empty() ? y.from == y.to : y.to == p.made + right.size(), "the right range of a chunk is wrong");
    const std::size_t begin = p.last; std::size_t i = 0, j = 0, lead = 0, trail = 0, changes = 0;
    while (i < left.size() || j < right.size()) {
      const bool lc = i < left.size() && left[i].kind == ' ', rc = j < right.size() && right[j].kind == ' ';
      if (lc && rc) { sx_assert(eq(left[i].text, right[j].text), "the context of the two sections differs"); p.keep(left[i].text); ++i; ++j; if (!changes) ++lead; ++trail; continue; }
      bool pair = i < left.size() && left[i].kind == '!'; sx_assert(pair == (j < right.size() && right[j].kind == '!') || (i < left.size() && left[i].kind == '-') || (j < right.size() && right[j].kind == '+'), "a change has one side only");
      sx_assert(!(lc && j >= right.size()) && !(rc && i >= left.size()), "the sections have different context"); std::size_t i0 = i, j0 = j;
      if (pair) { while (i < left.size() && left[i].kind == '!') p.del(left[i++].text); while (j < right.size() && right[j].kind == '!') p.add(right[j++].text); }
      else { while (i < left.size() && left[i].kind == '-') p.del(left[i++].text); if (i == i0) while (j < right.size() && right[j].kind == '+') p.add(right[j++].text); }
      sx_assert((i > i0) | (j > j0), "the sections do not line up"); ++changes; trail = 0;
    }
    sx_assert(changes > 0, "a chunk changes nothing"); p.context(lead, trail, to + lead - begin, l.size() - p.at + trail); p.last = p.at;
  }
  p.copy(l.size()); return p.a;
}
DiffOptions::Algorithm algorithm(std::size_t k) { return k == 0 ? DiffOptions::Algorithm::kMyers : k == 1 ? DiffOptions::Algorithm::kNaive : DiffOptions::Algorithm::kDirect; }
std::string diff(const std::string& l, const std::string& r, const DiffOptions& o) {
  auto d = mbo::diff::Diff::FileDiff(Artefact{.data = l, .name = "a"}, Artefact{.data = r, .name = "b"}, o); sx_assert(d.ok(), "the diff fails"); return *d;
}
}
namespace {
// The left text is `n` different lines; the right text is edited at every line by a symbolic choice of `ops` edits.
void edited(std::size_t n, std::size_t ops, bool bare, std::string& l, std::string& r) {
  for (std::size_t i = 0; i < n; ++i) {
    char c = static_cast<char>('a' + i), x = static_cast<char>('A' + i); l += c; l += '\n';
    switch (sx_choice(ops, nm("edit", i))) { case 0: r += c; r += '\n'; break; case 1: r += x; r += '\n'; r += c; r += '\n'; break; case 2: break; default: r += x; r += '\n'; break; }
  }
  if (sx::flag("append")) r += "Z\n";
  if (bare) { if (sx::flag("bareleft")) l.pop_back(); if (!r.empty() && sx::flag("bareright")) r.pop_back(); }
}
void check(std::size_t f, const std::string& l, const std::string& r, DiffOptions& o) {
  o.output_format = f == 0 ? DiffOptions::OutputFormat::kUnified : f == 1 ? DiffOptions::OutputFormat::kContext : DiffOptions::OutputFormat::kNormal; o.time_format = "";
  std::string d = diff(l, r, o); auto lines = split(l);
  Applied a = f == 0 ? unified(d, lines, o.context_size) : f == 1 ? context(d, lines, o.context_size) : normal(d, lines);
  sx_assert(eq(a.out, r), "applying the diff does not yield the right text"); if (!d.empty()) { sx_cover("patched"); }
  bool same = eq(l, r); sx_assert(d.empty() == same, "the diff is empty for different texts or not for equal ones");
}
}
#ifdef DO_APPLY
SX_JOB apply() {  // algorithm, format, context, left lines, right lines, mode, bare bits
  const std::size_t bare = sx_param(6); const int mode = static_cast<int>(sx_param(5));
  std::string l = text("left", sx_param(3), mode, bare & 1), r = text("right", sx_param(4), mode, bare & 2);
  DiffOptions o; o.algorithm = algorithm(sx_param(0)); o.context_size = sx_param(2); check(sx_param(1), l, r, o);
}
SX_JOB edits() {  // algorithm, format, context, left lines, kinds of edits, 1 = missing final line feeds
  std::string l, r; edited(sx_param(3), sx_param(4), sx_param(5), l, r); DiffOptions o; o.algorithm = algorithm(sx_param(0)); o.context_size = sx_param(2); check(sx_param(1), l, r, o);
}
// More differences than the cost limit of Myers: two texts of n different lines each, one line symbolic on each side and an equal block.
SX_JOB capped() {  // format, left lines, right lines
  std::string l, r; sx::Buf b(2, "line"); for (std::size_t i = 0; i < 2; ++i) { sx_assume((b.p[i] == 'p') | (b.p[i] == 'q')); } std::size_t at = sx_choice(3, "position"), n = sx_param(1), m = sx_param(2);
  auto put = [](std::string& t, char c, std::size_t i) { t += c; t += static_cast<char>('0' + i / 10); t += static_cast<char>('0' + i % 10); t += '\n'; };
  for (std::size_t i = 0; i < n; ++i) { if (i == n * at / 3) { l += b.p[0]; l += "\nsame\n"; } put(l, 'l', i); }
  for (std::size_t i = 0; i < m; ++i) { if (i == m / 2) { r += b.p[1]; r += "\nsame\n"; } put(r, 'r', i); }
  DiffOptions o; o.context_size = 1; check(sx_param(0), l, r, o);
}
// Twelve lines with two edits: context that is shared, touches or is apart.
SX_JOB spread() {  // algorithm, format, context, lines, kinds of edits
  std::string l, r; const std::size_t n = sx_param(3), p = sx_choice(n, "first"), q = p + 1 + sx_choice(n, "distance"); if (q > n) return;
  for (std::size_t i = 0; i <= n; ++i) {
    char c = static_cast<char>('a' + i), x = static_cast<char>('A' + i); if (i < n) { l += c; l += '\n'; } std::size_t k = i == p || i == q ? sx_choice(sx_param(4), i == p ? "firstedit" : "secondedit") + 1 : 0;
    if (k == 1) { r += x; r += '\n'; } if (k == 3) { r += x; r += '\n'; continue; } if (k != 2 && i < n) { r += c; r += '\n'; }
  }
  DiffOptions o; o.algorithm = algorithm(sx_param(0)); o.context_size = sx_param(2); check(sx_param(1), l, r, o);
}
// The two header lines: which names and times they show, and the prefix that is stripped from the names.
SX_JOB header() {  // format, left name bytes, right name bytes
  const std::size_t f = sx_param(0); sx::Buf a(sx_param(1), "leftname"), b(sx_param(2), "rightname"), c(2, "prefix"); for (auto* t : {&a, &b, &c}) for (std::size_t i = 0; i < t->n; ++i) sx_assume((t->p[i] == 'a') | (t->p[i] == 'b') | (t->p[i] == '/'));
  DiffOptions o; o.output_format = f == 0 ? DiffOptions::OutputFormat::kUnified : f == 1 ? DiffOptions::OutputFormat::kContext : f == 2 ? DiffOptions::OutputFormat::kNormal : DiffOptions::OutputFormat::kSideBySide; o.context_size = 0;
  const std::size_t use = sx_choice(4, "use"), strip = sx_choice(4, "strip"); const bool time = sx::flag("time"); o.time_format = time ? "%s" : "";
  o.file_header_use = use == 0 ? DiffOptions::FileHeaderUse::kNone : use == 1 ? DiffOptions::FileHeaderUse::kBoth : use == 2 ? DiffOptions::FileHeaderUse::kLeft : DiffOptions::FileHeaderUse::kRight;
  o.strip_file_header_prefix = strip == 0 ? std::string() : strip == 1 ? std::string(c.sv()) : strip == 2 ? "[ab]/" : "(.*/)?";
  auto shown = [&](sv n, sv t) {
    std::string r; std::size_t cut = 0; if (strip == 1) { if (n.size() >= 2 && eq(n.substr(0, 2), c.sv())) cut = 2; }
    if (strip == 2 && n.size() >= 2) { bool hit = ((n[0] == 'a') | (n[0] == 'b')) & (n[1] == '/'); if (hit) cut = 2; }
    if (strip == 3) for (std::size_t i = 0; i < n.size(); ++i) if (n[i] == '/') cut = i + 1;
    r = n.empty() ? "-" : std::string(n.substr(cut)); if (time) { r += " "; r += t; } return r;
  };
  auto d = mbo::diff::Diff::FileDiff(Artefact{.data = "x\n", .name = std::string(a.sv()), .time = absl::FromUnixSeconds(7)}, Artefact{.data = "y\n", .name = std::string(b.sv()), .time = absl::FromUnixSeconds(11)}, o); sx_assert(d.ok(), "the diff fails");
  std::string want; const std::string x = shown(a.sv(), "7"), y = shown(b.sv(), "11"), &first = use == 3 ? y : x, &second = use == 2 ? x : y;
  if (use != 0 && f < 2) { want = (f == 0 ? "--- " : "*** ") + first + "\n" + (f == 0 ? "+++ " : "--- ") + second + "\n"; }
  want += f == 0 ? "@@ -1 +1 @@\n-x\n+y\n" : f == 1 ? "***************\n*** 1 ****\n! x\n--- 1 ----\n! y\n" : f == 2 ? "1c1\n< x\n---\n> y\n" : ""; sv got = *d; if (f == 3) { got = got.substr(0, 0); sx_assert((*d)[0] == 'x', "side by side output has a file header"); }
  bool ok = eq(got, want); sx_assert(ok, "the diff with its header lines is wrong"); sx_cover("header");
}
// Without chunk headers the rest of the output stays, and without left deletions the added lines stay.
SX_JOB shown() {  // algorithm, format, context, left lines, right lines, mode, bare bits
  const std::size_t f = sx_param(1), bare = sx_param(6); const int mode = static_cast<int>(sx_param(5)); std::string l = text("left", sx_param(3), mode, bare & 1), r = text("right", sx_param(4), mode, bare & 2);
  DiffOptions o; o.algorithm = algorithm(sx_param(0)); o.context_size = sx_param(2); o.output_format = f == 0 ? DiffOptions::OutputFormat::kUnified : f == 1 ? DiffOptions::OutputFormat::kContext : DiffOptions::OutputFormat::kNormal; o.time_format = "";
  const std::string full = diff(l, r, o); o.show_chunk_headers = false; const std::string some = diff(l, r, o); std::string want; std::size_t no = 0;
  for (sv line : split(full)) {
    const bool top = f < 2 && no++ < 2; const bool head = !top && (f == 0 ? line[0] == '@' : f == 1 ? line[0] == '*' || (line[0] == '-' && line[1] == '-') : line[0] >= '0' && line[0] <= '9'); if (!head) want += line;
  }
  sx_assert(eq(some, want), "without chunk headers other lines change"); if (f != 0) return;
  o.show_chunk_headers = true; o.skip_left_deletions = true; const std::string kept = diff(l, r, o); auto added = [&](sv t) { std::string x; std::size_t i = 0; for (sv line : split(t)) { if (i++ >= 2 && line[0] == '+') x += line; } return x; };
  const std::string x = added(full), y = added(kept); sx_assert(eq(x, y), "without left deletions the added lines change"); sx_assert(kept.empty() == x.empty(), "without left deletions the diff is empty though lines were added, or not empty though none were");
  std::size_t i = 0; for (sv line : split(kept)) { if (i++ >= 2) sx_assert(line[0] != '-', "a left deletion is shown"); } if (!kept.empty()) { sx_cover("skipped"); }
}
SX_JOB side() {  // algorithm, left lines, right lines, mode, bare bits, width
  const std::size_t bare = sx_param(4), width = sx_param(5), col = width > 4 ? (width - 3) / 2 : 1; const int mode = static_cast<int>(sx_param(3));
  std::string l = text("left", sx_param(1), mode, bare & 1), r = text("right", sx_param(2), mode, bare & 2);
  for (char c : l) { if (c != '\n') sx_assume(c != ' '); } for (char c : r) { if (c != '\n') sx_assume(c != ' '); }
  DiffOptions o; o.algorithm = algorithm(sx_param(0)); o.output_format = DiffOptions::OutputFormat::kSideBySide; o.side_by_side_width = width; o.context_size = 10; o.time_format = "";
  std::string d = diff(l, r, o); if (d.empty()) { bool same = eq(l, r); sx_assert(same, "the diff of different texts is empty"); return; }
  std::string gl, gr; Reader q{d}; int last = 0;  // sides of the last row
  while (!q.end()) {
    if (last && q.lit("\\ No newline at end of file\n")) {  // the marker is on the side whose text ends here
      bool both = (last & 4) != 0; if (both) { gl.pop_back(); gr.pop_back(); last = 0; continue; }
      bool lb = (last & 1) && (bare & 1) && gl.size() == l.size() + 1; if (lb) { gl.pop_back(); last &= ~1; } else { sx_assert((last & 2) != 0, "a missing line feed is reported twice"); gr.pop_back(); last &= ~2; }
      continue;
    }
    std::string row; while (!q.end() && q.d[q.p] != '\n') row += q.d[q.p++]; sx_assert(!q.end(), "a row is not terminated"); ++q.p;
    sx_assert(row.empty() || row.back() != ' ', "a row is not stripped"); while (row.size() < 2 * col + 3) row += ' ';
    sx_assert(row.size() == 2 * col + 3, "a row is wider than the columns"); sx_assert((row[col] == ' ') & (row[col + 2] == ' '), "the gutter is wrong");
    char m = row[col + 1]; sx_assert((m == ' ') | (m == '|') | (m == '<') | (m == '>'), "the marker is unknown");
    auto cell = [&](std::size_t p) { std::string c = row.substr(p, col); while (!c.empty() && c.back() == ' ') c.pop_back(); return c; };
    std::string a = cell(0), b = cell(col + 3); if (m == ' ') { sx_assert(eq(a, b), "a common row has two texts"); } if (m == '<') { sx_assert(b.empty(), "a deleted row has a right text"); } if (m == '>') { sx_assert(a.empty(), "an added row has a left text"); }
    if (m != '>') gl += a + "\n"; if (m != '<') gr += b + "\n"; last = m == '>' ? 2 : m == '<' ? 1 : m == '|' ? 3 : 7;
  }
  sx_assert(eq(gl, l), "the left column is not the left text"); sx_assert(eq(gr, r), "the right column is not the right text"); sx_cover("two columns");
}
#endif
#ifdef DO_EQUAL
#include "ref_parse.h"
namespace {
bool space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
sv rtrim(sv t) { while (!t.empty() && space(t.back())) t.remove_suffix(1); return t; }
sv uncomment(sv l, sv m, bool trim) { for (std::size_t p = 0; p + m.size() <= l.size(); ++p) if (eq(l.substr(p, m.size()), m)) { l = l.substr(0, p); return trim ? rtrim(l) : l; } return l; }
struct Norm { std::string text; bool bare, drop; };
std::vector<Norm> normalised(const std::string& t, const DiffOptions& o, std::size_t extra, bool left) {
  std::vector<Norm> r;
  for (sv line : split(t)) {
    bool bare = line.back() != '\n'; if (!bare) line.remove_suffix(1); const sv raw = line; std::string s;
    if (o.ignore_all_space) { for (char c : line) if (!space(c)) s += c; }
    else if (o.ignore_consecutive_space) { sv x = rtrim(line); while (!x.empty() && space(x[0])) x.remove_prefix(1); for (std::size_t i = 0; i < x.size(); ++i) if (!(space(x[i]) && i + 1 < x.size() && space(x[i + 1]))) s += x[i]; }
    else if (o.ignore_trailing_space) { s = std::string(rtrim(line)); } else { s = std::string(line); }
    if (extra == 1) { s = std::string(uncomment(s, "#", true)); }
    if (extra == 2) { if (auto p = ref::parse(mbo::strings::ParseOptions{.stop_at_any_of = "#"}, s); p.code == 0) s = std::string(rtrim(p.text)); }
    if (extra == (left ? 3U : 5U)) { if (auto p = s.find('b'); p != std::string::npos) s = s.substr(0, p) + "cc" + s.substr(p + 1); }
    bool drop = o.ignore_blank_lines && raw.empty() && (!bare || o.ignore_missing_final_newline);
    if (extra == 4) { bool m = s.find('#') != std::string::npos; if (m) { s = "#"; bare = false; } drop |= m | (raw.find('#') != sv::npos); }
    if (o.ignore_case) for (char& c : s) c = c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c;
    if (o.ignore_missing_final_newline) bare = false;
    r.push_back({s, bare, drop});
  }
  return r;
}
bool same(const Norm& a, const Norm& b) { return a.bare == b.bare && eq(a.text, b.text); }
bool equal(const std::vector<Norm>& a, const std::vector<Norm>& b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) { if (!same(a[i], b[i])) return false; } return true;
}
// Whether the texts can be aligned so that every line without a partner is droppable.
bool close(const std::vector<Norm>& a, const std::vector<Norm>& b, std::size_t i = 0, std::size_t j = 0) {
  if (i == a.size() && j == b.size()) return true;
  if (i < a.size() && j < b.size() && same(a[i], b[j]) && close(a, b, i + 1, j + 1)) return true;
  if (i < a.size() && a[i].drop && close(a, b, i + 1, j)) return true;
  return j < b.size() && b[j].drop && close(a, b, i, j + 1);
}
}
SX_JOB equal() {  // algorithm, format, left bytes, right bytes, alphabet, extra (1 comments, 2 parsed comments, 3 regex replace, 4 matching lines)
  const std::size_t f = sx_param(1), extra = sx_param(5); sx::Buf a(sx_param(2), "left"), b(sx_param(3), "right"); static constexpr sv kAlpha[] = {"aA \n", "a \t\n", "a# \n", "ab#\n"}; sv al = kAlpha[sx_param(4)];
  for (auto* t : {&a, &b}) for (std::size_t i = 0; i < t->n; ++i) { bool in = false; for (char c : al) in |= t->p[i] == c; sx_assume(in); }
  std::string l(a.sv()), r(b.sv()); DiffOptions o; o.algorithm = algorithm(sx_param(0)); o.output_format = f == 0 ? DiffOptions::OutputFormat::kUnified : f == 1 ? DiffOptions::OutputFormat::kContext : f == 2 ? DiffOptions::OutputFormat::kNormal : DiffOptions::OutputFormat::kSideBySide;
  o.context_size = sx_choice(2, "context"); switch (sx_choice(4, "space")) { case 1: o.ignore_all_space = true; break; case 2: o.ignore_consecutive_space = true; break; case 3: o.ignore_trailing_space = true; break; default: break; }
  o.ignore_case = sx::flag("case"); o.ignore_missing_final_newline = sx::flag("final"); o.ignore_blank_lines = sx::flag("blank"); o.time_format = "";
  if (extra == 1) { o.strip_comments = mbo::strings::StripCommentArgs{.comment_start = "#"}; } if (extra == 2) { o.strip_comments = mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_any_of = "#"}}; }
  if (extra == 3) { o.regex_replace_lhs.emplace(); o.regex_replace_lhs->regex = std::make_unique<RE2>("b"); o.regex_replace_lhs->replace = "cc"; } if (extra == 5) { o.regex_replace_rhs.emplace(); o.regex_replace_rhs->regex = std::make_unique<RE2>("b"); o.regex_replace_rhs->replace = "cc"; } if (extra == 4) { o.ignore_matching_lines.emplace("#"); }
  std::string d = diff(l, r, o); auto x = normalised(l, o, extra, true), y = normalised(r, o, extra, false);
  const bool same = equal(x, y) || eq(l, r); if (same) { sx_assert(d.empty(), "the diff of texts that are equal under the options is not empty"); sx_cover("equal"); return; }
  if (!close(x, y)) { sx_assert(!d.empty(), "the diff of texts that differ under the options is empty"); sx_cover("different"); }
}
// Under options that ignore white space or case the diff still is a patch of the left text, to a text that equals the right one under the options.
SX_JOB ignoring() {  // algorithm, context, left bytes, right bytes, alphabet, extra, bare
  const std::size_t extra = sx_param(5); sx::Buf a(sx_param(2), "left"), b(sx_param(3), "right"); static constexpr sv kAlpha[] = {"aA \n", "a \t\n", "a# \n", "ab#\n"}; sv al = kAlpha[sx_param(4)];
  for (auto* t : {&a, &b}) for (std::size_t i = 0; i < t->n; ++i) { bool in = false; for (char c : al) in |= t->p[i] == c; sx_assume(in); }
  std::string l(a.sv()), r(b.sv()); DiffOptions o; o.algorithm = algorithm(sx_param(0)); o.context_size = sx_param(1); o.time_format = "";
  switch (sx_choice(4, "space")) { case 1: o.ignore_all_space = true; break; case 2: o.ignore_consecutive_space = true; break; case 3: o.ignore_trailing_space = true; break; default: break; } o.ignore_case = sx::flag("case");
  if (extra == 1) { o.strip_comments = mbo::strings::StripCommentArgs{.comment_start = "#"}; } if (extra == 2) { o.strip_comments = mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_any_of = "#"}}; }
  std::string d = diff(l, r, o); auto lines = split(l); if (d.empty()) return; Applied p = unified(d, lines, o.context_size); auto x = normalised(p.out, o, extra, false), y = normalised(r, o, extra, false);
  bool same = equal(x, y); sx_assert(same, "applying the diff does not yield a text equal to the right one under the options"); sx_cover("patched");
}
#endif
#ifdef DO_MINIMAL
SX_JOB minimal() {  // left lines, right lines, mode, minimal option
  std::string l = text("left", sx_param(0), static_cast<int>(sx_param(2)), false), r = text("right", sx_param(1), static_cast<int>(sx_param(2)), false);
  DiffOptions o; o.minimal = sx_param(3); o.context_size = 0; o.time_format = ""; o.output_format = DiffOptions::OutputFormat::kNormal; std::string d = diff(l, r, o); std::size_t made = 0;
  for (Reader q{d}; !q.end();) { if (q.lit("< ") || q.lit("> ")) { ++made; } q.line(); }
  auto x = split(l), y = split(r); std::vector<std::size_t> row(y.size() + 1, 0);  // longest common subsequence
  for (auto& a : x) { std::size_t diag = 0; for (std::size_t j = 0; j < y.size(); ++j) { std::size_t up = row[j + 1]; row[j + 1] = eq(a, y[j]) ? diag + 1 : std::max(up, row[j]); diag = up; } }
  sx_assert(made == x.size() + y.size() - 2 * row.back(), "the diff changes more lines than needed"); if (made > 2) sx_cover("several changes");
}
#endif
