// I01 paths, I02 INI files, I03 file contents and failures.
#include <string>
#include <string_view>
#include <vector>
#include "sx.h"
#include "tok.h"
#include "mbo/file/file.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view; namespace fs = std::filesystem;
bool eq(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
}
#ifdef DO_PATH
namespace {
// What a path means: absolute or not, and its names with "." removed and ".." resolved as far as the text tells.
struct Meaning { bool abs = false; std::vector<std::string> names; };
void step(Meaning& m, const std::string& name) {
  if (name.empty() || eq(name, ".")) return;
  if (eq(name, "..")) { if (!m.names.empty() && !eq(m.names.back(), "..")) { m.names.pop_back(); return; } if (m.abs) return; }
  m.names.push_back(name);
}
Meaning meaning(sv t) {  // trailing separators (slash and back slash) are not part of a path
  Meaning m; m.abs = !t.empty() && t[0] == '/'; std::string name; for (char c : t) { if (c == '/') { step(m, name); name.clear(); } else { name += c; } } step(m, name); return m;
}
sv strip(sv t) { while (t.size() > 1 && (t.back() == '/' || t.back() == '\\')) t.remove_suffix(1); return t; }
std::string text(const Meaning& m) { std::string r; if (m.abs) r = "/"; for (std::size_t i = 0; i < m.names.size(); ++i) { if (i) r += '/'; r += m.names[i]; } if (r.empty()) r = "."; return r; }
// The normal form: no separator at the end.
std::string normal(sv t) { if (t.empty()) return ""; std::string r(t); for (;;) { std::string n(strip(text(meaning(strip(r))))); if (eq(n, r)) return r; r = n; } }
// Joins from the right; an absolute part is the start of the rest of its own, taken as relative.
std::string join(const std::vector<std::string>& p, std::size_t i, bool respect) {
  if (i + 1 == p.size()) return normal(p[i]); std::string rest = join(p, i + 1, respect); if (p[i].empty()) return rest; const bool abs = !rest.empty() && rest[0] == '/';
  if (abs && respect) return rest; std::string r = p[i]; r += '/'; r += abs ? rest.substr(1) : rest; return normal(r);
}
std::string input(const char* name, std::size_t n, bool any) {
  sx::Buf b(n, name); if (!any) { for (std::size_t i = 0; i < n; ++i) sx_assume((b.p[i] == '/') | (b.p[i] == '.') | (b.p[i] == 'a')); } return std::string(b.sv());
}
}
SX_JOB normalize() {  // bytes, 1 = any byte (0: slash, dot, letter)
  std::string t = input("path", sx_param(0), sx_param(1)); for (char c : t) sx_assume(c != 0);
  std::string r = mbo::file::NormalizePath(fs::path(t)).native(); sx_assert(eq(r, normal(t)), "the normal form of the path is wrong");
  std::string again = mbo::file::NormalizePath(fs::path(r)).native(); sx_assert(eq(r, again), "normalising twice changes the path");
  sx_assert(mbo::file::IsAbsolutePath(fs::path(t)) == mbo::file::IsAbsolutePath(fs::path(r)), "normalising changes whether the path is absolute");
  sx_assert((r.size() <= 1) | (!r.empty() && r.back() != '/'), "the normal form ends with a separator"); sx_assert(mbo::file::IsAbsolutePath(fs::path(t)) == (!t.empty() && t[0] == '/'), "absolute is wrong"); sx_cover("normalised");
}
SX_JOB join() {  // bytes of up to 4 parts (9 = part is missing), 1 = any byte
  std::vector<std::string> p; for (std::size_t i = 0; i < 4; ++i) if (sx_param(i) < 9) p.push_back(input(nm("part", i), sx_param(i), sx_param(4)));
  for (bool respect : {false, true}) {
    fs::path r; switch (p.size()) {
      case 1: r = respect ? mbo::file::JoinPathsRespectAbsolute(p[0]) : mbo::file::JoinPaths(p[0]); break;
      case 2: r = respect ? mbo::file::JoinPathsRespectAbsolute(p[0], p[1]) : mbo::file::JoinPaths(p[0], p[1]); break;
      case 3: r = respect ? mbo::file::JoinPathsRespectAbsolute(p[0], p[1], p[2]) : mbo::file::JoinPaths(p[0], p[1], p[2]); break;
      default: r = respect ? mbo::file::JoinPathsRespectAbsolute(p[0], p[1], p[2], p[3]) : mbo::file::JoinPaths(p[0], p[1], p[2], p[3]); break;
    }
    std::string want = join(p, 0, respect); bool ok = eq(r.native(), want); sx_assert(ok, respect ? "the respecting join is wrong" : "the join is wrong"); if (!ok) break;
  }
  sx_cover("joined");
}
#endif
#ifdef DO_INI
#include "mbo/file/ini/ini_file.h"
namespace {
using mbo::file::IniFile;
bool space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
sv trim(sv t) { while (!t.empty() && space(t.back())) t.remove_suffix(1); while (!t.empty() && space(t[0])) t.remove_prefix(1); return t; }
struct Row { std::string group, key, value; };
void put(std::vector<Row>& m, sv g, sv k, sv v) { for (Row& r : m) if (eq(r.group, g) && eq(r.key, k)) { r.value = std::string(v); return; } m.push_back({std::string(g), std::string(k), std::string(v)}); }
// The documented meaning of a text.
std::vector<Row> read(sv t) {
  std::vector<Row> m; std::string group; std::size_t i = 0;
  while (i <= t.size()) {
    std::size_t e = i; while (e < t.size() && t[e] != '\n') ++e; sv line = trim(t.substr(i, e - i)); i = e + 1; if (line.empty()) continue;
    if (line.size() >= 2 && line.front() == '[' && line.back() == ']') { group = std::string(trim(line.substr(1, line.size() - 2))); continue; } if (line[0] == ';' || line[0] == '#') continue;
    std::size_t p = line.find('='); sv k = trim(line.substr(0, p)), v = p == sv::npos ? sv() : trim(line.substr(p + 1)); put(m, group, k, v);
  }
  return m;
}
void same(const IniFile& f, const std::vector<Row>& m) {
  sx_assert(f.size() == m.size(), "the number of entries is wrong");
  for (const Row& r : m) { auto v = f.GetKeyOrStatus({.group = r.group, .key = r.key}); sx_assert(v.ok(), "an entry is missing"); sx_assert(eq(*v, r.value), "the value of an entry is wrong"); sx_assert(f.HasKey({.group = r.group, .key = r.key}), "HasKey misses an entry"); sx_assert(eq(f.GetKeyOrDefault({.group = r.group, .key = r.key}, "?"), r.value), "GetKeyOrDefault is wrong"); }
  auto groups = f.GetGroups(); std::size_t n = 0; for (const auto& g : groups) { bool in = false; for (const Row& r : m) in |= eq(r.group, g); sx_assert(in, "there is a group without an entry"); auto d = f.GetGroupData(g); n += d.size(); for (const auto& [k, v] : d) { bool found = false; for (const Row& r : m) found |= eq(r.group, g) & eq(r.key, k) & eq(r.value, v); sx_assert(found, "the group data has an unknown entry"); } } sx_assert(n == m.size(), "the groups do not list all entries");
}
// A question for an arbitrary entry, present or not.
void ask(const IniFile& f, const std::vector<Row>& m) {
  sx::Buf g(1, "askGroup"), k(1, "askKey"); const IniFile::GroupKey at{.group = g.sv(), .key = k.sv()}; const std::string* v = nullptr; bool group = false; for (const Row& r : m) { if (eq(r.group, trim(g.sv()))) { group = true; if (eq(r.key, trim(k.sv()))) v = &r.value; } }
  sx_assert(f.HasKey(at) == (v != nullptr), "HasKey is wrong"); sx_assert(eq(f.GetKeyOrDefault(at, "?"), v ? sv(*v) : sv("?")), "GetKeyOrDefault is wrong"); sx_assert(eq(f.GetKeyOrDefault(at), v ? sv(*v) : sv()), "GetKeyOrDefault is wrong"); auto s = f.GetKeyOrStatus(at); sx_assert(s.ok() == (v != nullptr), "GetKeyOrStatus is wrong"); if (v) sx_assert(eq(*s, *v), "GetKeyOrStatus is wrong");
  if (g.n && !space(g.p[0])) sx_assert(f.GetGroupData(g.sv()).empty() == !group, "the group data is wrong"); sx_cover(v ? "present" : "absent");
}
}
SX_JOB ask() {  // entries: with groups a and b and keys x and y
  std::vector<Row> m; IniFile f = IniFile::NewEmpty(); for (std::size_t i = 0; i < sx_param(0); ++i) { const char* g = sx_choice(2, nm("group", i)) ? "a" : "b"; const char* k = sx_choice(2, nm("key", i)) ? "x" : " y"; if (sx_choice(2, nm("number", i))) { f.SetKey({.group = g, .key = k}, 42); put(m, g, trim(k), "42"); } else { f.SetKey({.group = g, .key = k}, "v"); put(m, g, trim(k), "v"); } }
  same(f, m); sx_assert(f.empty() == m.empty(), "empty is wrong"); ask(f, m);
}
SX_JOB parse() {  // bytes
  sx::Buf b(sx_param(0), "text"); if (sx_param(1)) { for (std::size_t i = 0; i < b.n; ++i) { bool in = false; for (char c : sv("[]=;# \na")) in |= b.p[i] == c; sx_assume(in); } } IniFile f = IniFile::Parse(b.sv()); same(f, read(b.sv())); sx_cover("parsed");
}
SX_JOB round() {  // entries, bytes of group, key and value, 1 = use the letters only
  std::vector<Row> m; IniFile f = IniFile::NewEmpty(); const std::size_t n = sx_param(0);
  for (std::size_t i = 0; i < n; ++i) {
    sx::Buf g(sx_param(1), nm("group", i)), k(sx_param(2), nm("key", i)), v(sx_param(3), nm("value", i));
    for (auto* t : {&g, &k, &v}) { for (std::size_t q = 0; q < t->n; ++q) { sx_assume(t->p[q] != '\n'); if (sx_param(4)) { bool in = false; for (char c : sv("[]=;# ab")) in |= t->p[q] == c; sx_assume(in); } } }
    f.SetKey({.group = g.sv(), .key = k.sv()}, v.sv()); put(m, trim(g.sv()), trim(k.sv()), v.sv());
  }
  same(f, m); sx_assert(f.empty() == m.empty(), "empty is wrong"); ask(f, m);
  // Expressible: values have no outer white space, and keys do not read as a comment, a group or an assignment.
  bool good = true; for (const Row& r : m) { good &= trim(r.value).size() == r.value.size(); bool eqs = false; for (char c : r.key) eqs |= c == '='; good &= !eqs; if (!r.key.empty()) { good &= (r.key[0] != ';') & (r.key[0] != '#'); if (r.key[0] == '[') { std::string line = r.key + "=" + r.value; sv t = trim(line); good &= t.back() != ']'; } } }
  sx_assume(good);
  sxfs::tree().nodes.clear(); auto s = f.Write("f"); sx_assert(s.ok(), "the file is not written"); auto back = IniFile::Read("f"); sx_assert(back.ok(), "the file is not read"); same(*back, m); sx_cover("round trip");
}
#endif
#ifdef DO_IO
#include <cerrno>
#include <cstdio>
namespace {
std::size_t faults, limit, points;  // faults so far, allowed faults, fault points seen
bool decide(const char*) { if (faults >= limit) return false; const bool f = sx::flag(nm("fault", points++)); faults += f; return f; }
}
#include "cfile.h"
namespace {
void start(std::size_t allowed) { sxfs::tree() = sxfs::Tree{}; sxfs::tree().fault = decide; faults = points = 0; limit = allowed; fd_open = stream_open = 0; handle = Handle{}; }
void done() { sx_assert(sxfs::tree().open == 0 && fd_open == 0 && stream_open == 0, "a file is left open"); }
}
SX_JOB set() {  // bytes, bytes of an existing file (9 = none), allowed faults
  start(sx_param(2)); sx::Buf b(sx_param(0), "content"); if (sx_param(1) < 9) sxfs::tree().nodes.push_back({"@f", std::string(sx_param(1), 'x'), false, 0}); sxfs::tree().nodes.push_back({"@g", "other", false, 0});
  auto s = mbo::file::SetContents("@f", b.sv()); done(); sx_assert(s.ok() == (faults == 0), faults ? "a failed write is reported as a success" : "a write fails without a reason");
  if (!s.ok()) { sx_cover("write error"); return; }
  limit = 0; auto r = mbo::file::GetContents("@f"); sx_assert(r.ok(), "the file is not read"); sx_assert(eq(*r, b.sv()), "the file does not read back the content"); auto* n = sxfs::find("@f"); sx_assert(n && eq(n->data, b.sv()), "the file does not have the content"); sx_assert(eq(sxfs::find("@g")->data, "other"), "another file is changed"); done(); sx_cover("written");
}
SX_JOB get() {  // bytes (9 = no file, 8 = a directory), allowed faults
  start(sx_param(1)); const std::size_t k = sx_param(0); sx::Buf b(k < 8 ? k : 0, "content"); if (k < 9) sxfs::tree().nodes.push_back({"@f", std::string(b.sv()), k == 8, 0});
  auto r = mbo::file::GetContents("@f"); done(); const bool good = k < 8 && faults == 0; sx_assert(r.ok() == good, good ? "reading fails without a reason" : "a failed read is reported as a success"); if (good) { sx_assert(eq(*r, b.sv()), "the content read is wrong"); sx_cover("read"); } else { sx_cover("read error"); }
  auto q = mbo::file::Readable("@f"); done(); sx_assert(q.ok() == (k < 8 && faults == 0) || faults > 0, "Readable is wrong"); if (k == 9) sx_assert(q.code() == absl::StatusCode::kNotFound, "a missing file has the wrong status");
}
SX_JOB readable() {  // bytes (9 = no file, 8 = a directory), allowed faults
  start(sx_param(1)); const std::size_t k = sx_param(0); if (k < 9) sxfs::tree().nodes.push_back({"@f", std::string(k < 8 ? k : 0, 'a'), k == 8, 0});
  auto q = mbo::file::Readable("@f"); done(); sx_assert(q.ok() == (k < 8 && faults == 0), "Readable is wrong"); if (k == 9) sx_assert(q.code() == absl::StatusCode::kNotFound, "a missing file has the wrong status"); if (k == 8) sx_assert(q.code() == absl::StatusCode::kFailedPrecondition, "a directory has the wrong status");
}
SX_JOB lines() {  // bytes (9 = no file, 8 = a directory), allowed faults
  start(sx_param(1)); const std::size_t k = sx_param(0); sx::Buf b(k < 8 ? k : 0, "content"); if (k < 9) sxfs::tree().nodes.push_back({"@f", std::string(b.sv()), k == 8, 0}); const std::size_t max = sx_u64("max");
  auto r = mbo::file::GetMaxLines("@f", max); done(); if (k >= 8) { sx_assert(!r.ok() || (k == 8 && max == 0), "a failed read is reported as a success"); return; }
  sx_assert(r.ok() == (faults == 0), faults ? "a failed read is reported as a success" : "reading fails without a reason"); if (!r.ok()) { sx_cover("line error"); return; }
  std::size_t e = 0, n = 0; while (e < b.n && n < max) n += b.p[e++] == '\n'; sx_assert(eq(*r, b.sv().substr(0, e)), "the lines read are wrong"); sx_cover("lines");
}
SX_JOB mtime() {  // The file clock of the library starts in 2174; the result counts from 1970.
  start(0); std::int64_t t = static_cast<std::int64_t>(sx_range(0, 8000000000ull, "seconds")) - 6437664000; std::int64_t ns = static_cast<std::int64_t>(sx_range(0, 999999999, "nanos")); sxfs::tree().nodes.push_back({"@f", "", false, t * 1000000000 + ns});
  auto r = mbo::file::GetMTime("@f"); sx_assert(r.ok(), "no time"); sx_assert(absl::ToUnixNanos(*r) == (t + 6437664000) * 1000000000 + ns, "the time is wrong"); sx_assert(!mbo::file::GetMTime("@h").ok(), "a missing file has a time");
}
#endif
