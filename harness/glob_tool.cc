// I05: the glob tool (mbo/file/glob_main.cc), run through its main().
#include "sx.h"
#include "tok.h"
#include "tool.h"
#define main tool_main
#include "mbo/file/glob_main.cc"
#undef main
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view;
bool is(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
struct Result { int code; std::string out, err; };
Result run(const std::vector<std::string>& args) {
  std::vector<std::string> a(args); a.insert(a.begin(), "glob"); std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr);
  std::sx_cout.text.clear(); std::sx_cerr.text.clear(); int c = tool_main(static_cast<int>(a.size()), v.data()); return {c, std::sx_cout.text, std::sx_cerr.text};
}
struct Item { std::string rel; bool dir; size_t size; };
std::vector<Item> items;
void add(const std::string& rel, bool dir, size_t size) { items.push_back({rel, dir, dir ? 0 : size}); sxfs::tree().nodes.push_back({"/w/r/" + rel, std::string(dir ? 0 : size, 'x'), dir, 0}); }
std::string name(size_t i, bool dot, bool any, bool ext) { std::string r = dot && sx_choice(2, nm("dot", i)) ? "." : ""; if (any) { sx::Buf b(1, nm("letter", i)); sx_assume((b.p[0] == static_cast<char>('a' + 2 * i)) | (b.p[0] == static_cast<char>('b' + 2 * i))); r += b.sv(); } else { r += static_cast<char>('a' + i); } if (ext && sx_choice(2, nm("ext", i))) r += ".h"; return r; }
// A directory with three entries, at most one of them a directory. Kinds: 0 a directory with a file, arbitrary letters; 1 a file or a directory; 2 all names; 3 all endings and sizes.
void tree(size_t kinds) {
  auto& t = sxfs::tree(); t = {}; t.nodes.push_back({"/w", "", true, 0}); t.nodes.push_back({"/w/r", "", true, 0}); items.clear(); static constexpr size_t kSizes[3] = {1, 0, 1234};
  std::string a = name(0, true, kinds == 0, kinds != 2), b = name(1, kinds > 1, kinds == 0, true); const bool dir = kinds == 0 || sx_choice(2, "directory"); add(a, dir, 12); add(dir ? a + "/" + b : b, false, kSizes[kinds == 3 ? sx_choice(2, "size") + 1 : 2]); add("z", false, 1);
}
sv word(sv& line) { while (!line.empty() && line[0] == ' ') line.remove_prefix(1); size_t n = 0; while (n < line.size() && line[n] != ' ') ++n; sv r = line.substr(0, n); line.remove_prefix(n); return r; }
std::vector<std::string> words(sv line) { std::vector<std::string> r; for (;;) { sv w = word(line); if (w.empty()) return r; r.emplace_back(w); } }
struct Sum { size_t dirs = 0, files = 0, size = 0, depth = 0, total = 0; std::map<std::string, size_t> ext; };
std::string number(size_t n) { std::string d = std::to_string(n), r; for (size_t i = 0; i < d.size(); ++i) { if (i && (d.size() - i) % 3 == 0) r += '\''; r += d[i]; } return r; }
// One summary at the start of the lines: every value once, in any order.
void summary(const std::vector<std::string>& lines, size_t& at, const Sum& s, bool ext) {
  std::map<std::string, size_t> want = {{"Dirs:", s.dirs}, {"FileSize:", s.size}, {"Files:", s.files}, {"Links:", 0}, {"MaxDepth:", s.depth}, {"Other:", 0}, {"Total:", s.total}}; if (ext) for (auto& [k, v] : s.ext) want[k + ":"] = v;
  sx_assert(at < lines.size() && lines[at].empty(), "a summary is missing"); ++at;
  for (size_t n = want.size(), end = lines.empty() ? 0 : lines[at].size(); n > 0; --n) { sx_assert(at < lines.size(), "a summary is too short"); sx_assert(lines[at].size() == end, "a summary is not aligned"); auto w = words(lines[at++]); sx_assert(w.size() == 2, "a line of a summary is wrong"); auto it = want.find(w[0]); sx_assert(it != want.end(), "a summary has an unknown or repeated line"); sx_assert(is(w[1], number(it->second)), "a number in a summary is wrong"); want.erase(it); }
}
const char* const kGlobs[5] = {"**", "*", "**/*.h", "*/*", ""}; const char* const kRe2s[3] = {".*", ".*[.]h", "[^/]*"};
void check(size_t pattern, bool re2, size_t form) {
  absl::SetFlag(&FLAGS_re2, re2); const char* pat = re2 ? kRe2s[pattern] : kGlobs[pattern]; std::unique_ptr<const RE2> re; if (re2) { re = std::make_unique<RE2>(pat); } else { auto s = mbo::file::file_internal::Glob2Re2(pat); sx_assert(s.ok(), "the pattern is valid"); re = *std::move(s); }
  const bool dotdir = absl::GetFlag(FLAGS_dotdir), dotfile = absl::GetFlag(FLAGS_dotfile), recurse = absl::GetFlag(FLAGS_recurse_match), fast = absl::GetFlag(FLAGS_fast), entries = absl::GetFlag(FLAGS_entries), size = absl::GetFlag(FLAGS_size), type = absl::GetFlag(FLAGS_type), depth = absl::GetFlag(FLAGS_depth), ext = absl::GetFlag(FLAGS_sum_extensions); const size_t every = absl::GetFlag(FLAGS_sum_every); const bool sum = absl::GetFlag(FLAGS_sum) || every > 0 || ext;
  std::vector<std::string> want; std::vector<Sum> sums; Sum s; std::string skip = "/";
  for (const Item& i : items) {
    if (i.rel.starts_with(skip)) continue; if (*pat && !RE2::FullMatch(i.rel, *re)) continue;
    const size_t cut = i.rel.rfind('/'); const std::string file = cut == std::string::npos ? i.rel : i.rel.substr(cut + 1); const size_t level = cut == std::string::npos ? 0 : 1; const bool in_dot = level && i.rel[0] == '.';
    if (!dotdir && (in_dot || (i.dir && file[0] == '.'))) continue; if (!i.dir && !dotfile && file[0] == '.') continue; if (i.dir && !recurse) skip = i.rel + "/";
    std::string line; if (size) { line += number(i.size); line += ' '; } if (type) line += i.dir ? "d " : "f "; if (depth) { line += number(level); line += ' '; } line += i.rel; want.push_back(line);
    ++s.total; if (level > s.depth) s.depth = level; if (i.dir) { ++s.dirs; } else { ++s.files; s.size += i.size; const size_t p = file.rfind('.'); std::string e = p == std::string::npos ? "" : p == 0 ? file : file.substr(p); ++s.ext["FileExt(" + e + ")"]; s.ext["FileSize(" + e + ")"] += i.size; } sums.push_back(s);
  }
  std::vector<std::string> args; const std::string p = pat; switch (form) { case 0: args = {"/w/r", p}; break; case 1: args = {"r", p}; break; case 2: sxfs::tree().cwd = "/w/r"; args = {".", p}; break; case 3: args = {"r/" + p}; break; case 4: args = {"/w/r/" + p}; break; case 5: sxfs::tree().cwd = "/w/r"; args = {p}; break; case 6: args = {"./q/../r/", p}; break; case 7: sxfs::tree().cwd = "/w/r"; args = {"../r", p}; break; }
  Result r = run(args); sx_assert(r.code == 0, "the tool fails"); sx_assert(r.err.empty(), "the tool reports an error");
  std::vector<std::string> lines; for (size_t i = 0; i < r.out.size();) { size_t e = r.out.find('\n', i); sx_assert(e != std::string::npos, "the last line is not ended"); lines.push_back(r.out.substr(i, e - i)); i = e + 1; }
  size_t at = 0, seen = 0, column = 0; std::vector<char> used(want.size(), 0);
  auto entry = [&](size_t upto) {  // an entry among the first ones that has not been shown
    sx_assert(at < lines.size(), "an entry is not shown"); auto w = words(lines[at]); std::string flat; for (auto& x : w) { if (!flat.empty()) flat += ' '; flat += x; } bool found = false; for (size_t i = 0; i < upto && !found; ++i) if (!used[i] && is(flat, want[i])) { used[i] = 1; found = true; }
    sx_assert(found, "an entry is shown that must not be, or not as it is"); if (!fast) { size_t c = lines[at].size() - w.back().size(); if (seen > 0) sx_assert(c == column, "the entries are not aligned"); column = c; } ++at; ++seen;
  };
  for (size_t i = 0; i < want.size(); ++i) { if (fast && entries) entry(i + 1); if (every > 0 && (i + 1) % every == 0) summary(lines, at, sums[i], false); }
  if (!fast && entries) for (size_t i = 0; i < want.size(); ++i) entry(want.size());
  if (sum) summary(lines, at, s, ext); sx_assert(at == lines.size(), "the tool prints more than it should"); sx_cover(want.empty() ? "nothing" : "shown");
}
template <typename F, typename T> void maybe(F& flag, const char* name, T v) { if (sx_choice(2, name)) absl::SetFlag(&flag, v); }
}
SX_JOB forms() {  // how the root is given, pattern, re2
  tree(0); check(sx_param(1), sx_param(2), sx_param(0));
}
SX_JOB filters() {  // pattern, re2
  tree(2); maybe(FLAGS_dotdir, "nodotdir", false); maybe(FLAGS_dotfile, "nodotfile", false); maybe(FLAGS_recurse_match, "norecurse", false); check(sx_param(0), sx_param(1), 1);
}
SX_JOB fields() {  // pattern
  tree(1); maybe(FLAGS_size, "size", true); maybe(FLAGS_type, "type", true); maybe(FLAGS_depth, "depth", true); maybe(FLAGS_fast, "fast", true); maybe(FLAGS_entries, "noentries", false); check(sx_param(0), false, 0);
}
SX_JOB sums() {  // pattern, which summaries
  static constexpr struct { bool sum; size_t every; bool ext; } kModes[7] = {{false, 0, false}, {true, 0, false}, {false, 1, false}, {true, 2, false}, {false, 3, true}, {true, 0, true}, {false, 1, true}}; const auto& m = kModes[sx_param(1)];
  tree(3); absl::SetFlag(&FLAGS_sum, m.sum); absl::SetFlag(&FLAGS_sum_every, m.every); absl::SetFlag(&FLAGS_sum_extensions, m.ext); const size_t how = sx_choice(3, "how"); if (how == 1) absl::SetFlag(&FLAGS_fast, true); if (how == 2) absl::SetFlag(&FLAGS_entries, false); check(sx_param(0), false, 0);
}
SX_JOB errors() {  // what is wrong
  tree(0); std::vector<std::string> args; switch (sx_choice(6, "error")) { case 0: args = {}; break; case 1: args = {"a", "b", "c"}; break; case 2: args = {"/w/r", "[a"}; break; case 3: args = {"/w/nowhere", "*"}; break; case 4: args = {"/w/r/z", "*"}; break; case 5: args = {"/w/r", "("}; absl::SetFlag(&FLAGS_re2, true); break; }
  Result r = run(args); sx_assert(r.code == 1, "an error is not reported by the exit code"); sx_assert(!r.err.empty(), "an error is not reported"); sx_assert(r.out.empty(), "something is printed in spite of the error"); sx_cover("error");
}
