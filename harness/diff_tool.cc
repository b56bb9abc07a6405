// F04: the diff tool (mbo/diff/diff_main.cc), run through its main(): every flag gives the difference the library gives for the option it names.
#include "sx.h"
#include "tok.h"
#include "tool.h"
#include "absl/log/absl_log.h"
#include "absl/log/absl_check.h"
#include "absl/status/statusor.h"
#include "mbo/diff/diff.h"
#include "mbo/file/artefact.h"
#include "mbo/strings/indent.h"
#include "mbo/strings/strip.h"
#include "re2/re2.h"
#include "cfile.h"
#define main tool_main
#include "mbo/diff/diff_main.cc"
#undef main
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace mbo::diff::diff_internal { void UpdateAbslLogFlags() {} }
namespace {
using sv = std::string_view; using O = mbo::diff::DiffOptions;
bool is(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
void put(sv name, sv data, bool dir, int64_t time) { sxfs::tree().nodes.push_back({std::string(name), std::string(data), dir, time}); }
struct Result { int code; std::string out; };
Result run(const std::vector<std::string>& args) {
  std::vector<std::string> a(args); a.insert(a.begin(), "diff"); std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); std::sx_cout.text.clear(); std::sx_cerr.text.clear(); int c = tool_main(static_cast<int>(a.size()), v.data()); return {c, std::sx_cout.text};
}
// n bytes out of an alphabet.
std::string from(const char* name, size_t n, sv abc) { sx::Buf b(n, name); for (size_t i = 0; i < n; ++i) { bool ok = false; for (char c : abc) ok |= b.p[i] == c; sx_assume(ok); } return std::string(b.sv()); }
// The flag, what it changes in the options, and letters that show it.
struct Case { void (*set)(O& o); const char* abc; sv head = "k\n", tail = "\nz\n"; size_t lines = 0; bool skip_time = false; };
template <auto& F, class V> void on(V v) { absl::SetFlag(&F, v); }
const Case kCases[] = {
  {[](O&) {}, "aA \n"},
  {[](O& o) { on<FLAGS_algorithm>("direct"); o.algorithm = O::Algorithm::kDirect; o.context_size = 0; o.show_chunk_headers = false; }, "ab\n"},
  {[](O& o) { on<FLAGS_algorithm>("naive"); o.algorithm = O::Algorithm::kNaive; }, "ab\n"},
  {[](O& o) { on<FLAGS_algorithm>("unified"); o.algorithm = O::Algorithm::kMyers; }, "ab\n"},
  {[](O& o) { on<FLAGS_algorithm>("myers"); o.algorithm = O::Algorithm::kMyers; }, "ab\n"},
  {[](O& o) { on<FLAGS_context>(1U); o.context_size = 1; }, "a\n", "1\n2\n3\n4\n5\n", "\n5\n6\n7\n8\n"},
  {[](O& o) { on<FLAGS_context>(0U); o.context_size = 0; }, "a\n", "1\n2\n3\n4\n5\n", "\n5\n6\n7\n8\n"},
  {[](O& o) { on<FLAGS_algorithm>("direct"); on<FLAGS_context>(2U); on<FLAGS_show_chunk_headers>(true); o.algorithm = O::Algorithm::kDirect; o.context_size = 2; }, "ab", "1\n2\n3\n4\n", "\n5\n6\n7\n8\n"},
  {[](O& o) { on<FLAGS_format>("normal"); o.output_format = O::OutputFormat::kNormal; o.context_size = 0; }, "a\n", "1\n2\n3\n4\n5\n"},
  {[](O& o) { on<FLAGS_format>("normal"); on<FLAGS_context>(1U); o.output_format = O::OutputFormat::kNormal; o.context_size = 1; }, "a\n", "1\n2\n3\n4\n5\n"},
  {[](O& o) { on<FLAGS_format>("context"); o.output_format = O::OutputFormat::kContext; }, "a\n", "1\n2\n3\n4\n5\n"},
  {[](O& o) { on<FLAGS_format>("side-by-side"); o.output_format = O::OutputFormat::kSideBySide; o.context_size = 1000; }, "a\n", "1\n2\n3\n4\n5\n"},
  {[](O& o) { on<FLAGS_format>("side-by-side"); on<FLAGS_width>(11U); on<FLAGS_context>(1U); o.output_format = O::OutputFormat::kSideBySide; o.context_size = 1; o.side_by_side_width = 11; }, "a\n", "1\n2 and more\n3\n4\n"},
  {[](O& o) { on<FLAGS_format>("unified"); on<FLAGS_file_header_use>("none"); o.file_header_use = O::FileHeaderUse::kNone; }, "ab"},
  {[](O& o) { on<FLAGS_file_header_use>("left"); o.file_header_use = O::FileHeaderUse::kLeft; }, "ab"},
  {[](O& o) { on<FLAGS_file_header_use>("right"); o.file_header_use = O::FileHeaderUse::kRight; }, "ab"},
  {[](O& o) { on<FLAGS_file_header_use>("both"); o.file_header_use = O::FileHeaderUse::kBoth; }, "ab"},
  {[](O& o) { on<FLAGS_ignore_all_space>(true); o.ignore_all_space = true; }, "a \n"},
  {[](O& o) { on<FLAGS_ignore_case>(true); o.ignore_case = true; }, "aA\n"},
  {[](O& o) { on<FLAGS_ignore_consecutive_space>(true); o.ignore_consecutive_space = true; }, "a \n", "k\na"},
  {[](O& o) { on<FLAGS_ignore_blank_lines>(true); o.ignore_blank_lines = true; }, "a\n"},
  {[](O& o) { on<FLAGS_ignore_trailing_space>(true); o.ignore_trailing_space = true; }, "a \n"},
  {[](O& o) { on<FLAGS_ignore_missing_final_newline>(true); o.ignore_missing_final_newline = true; }, "a\n", "k\n", ""},
  {[](O& o) { on<FLAGS_ignore_matching_lines>("a.*"); o.ignore_matching_lines.emplace("a.*"); }, "ab\n"},
  {[](O& o) { on<FLAGS_ignore_matching_lines>("a.*"); on<FLAGS_ignore_matching_chunks>(false); o.ignore_matching_lines.emplace("a.*"); o.ignore_matching_chunks = false; }, "ab\n"},
  {[](O& o) { on<FLAGS_skip_left_deletions>(true); o.skip_left_deletions = true; }, "ab\n"},
  {[](O& o) { on<FLAGS_show_chunk_headers>(false); o.show_chunk_headers = false; }, "ab"},
  {[](O& o) { on<FLAGS_strip_comments>("#"); o.strip_comments = mbo::strings::StripParsedCommentArgs{.parse = {.stop_at_str = "#", .remove_quotes = false}}; }, "a#\"\n"},
  {[](O& o) { on<FLAGS_strip_comments>("#"); on<FLAGS_strip_parsed_comments>(false); o.strip_comments = mbo::strings::StripCommentArgs{.comment_start = "#"}; }, "a#\"\n"},
  {[](O& o) { on<FLAGS_strip_file_header_prefix>("le"); o.strip_file_header_prefix = "le"; }, "ab"},
  {[](O& o) { on<FLAGS_regex_replace_lhs>("/a/b/"); o.regex_replace_lhs = O::RegexReplace{.regex = std::make_unique<RE2>("a"), .replace = "b"}; }, "ab"},
  {[](O& o) { on<FLAGS_regex_replace_rhs>("|a|b|"); o.regex_replace_rhs = O::RegexReplace{.regex = std::make_unique<RE2>("a"), .replace = "b"}; }, "ab"},
  {[](O&) { on<FLAGS_max_lines>(2U); }, "a\n", "k\n", "\nz\n", 2},
  {[](O&) { on<FLAGS_skip_time>(true); }, "ab", "k\n", "\nz\n", 0, true},
  {[](O& o) { on<FLAGS_minimal>(true); o.minimal = true; }, "ab\n"},
};
}
SX_JOB flags() {  // case
  const Case& c = kCases[sx_param(0)]; O o; o.context_size = 3; c.set(o); std::string l(c.head), r(c.head); l += from("left", 2, c.abc); r += from("right", 2, c.abc); l += c.tail; r += c.tail; if (sx_choice(2, "bare")) l += "q";
  put("left", l, false, 1000000000); put("right", r, false, 2000000000);
  const mbo::file::Artefact::Options a{.skip_time = c.skip_time}; auto fl = c.lines ? mbo::file::Artefact::ReadMaxLines("left", c.lines, a) : mbo::file::Artefact::Read("left", a), fr = c.lines ? mbo::file::Artefact::ReadMaxLines("right", c.lines, a) : mbo::file::Artefact::Read("right", a);
  sx_assert(fl.ok() && fr.ok(), "the files cannot be read"); auto want = mbo::diff::Diff::FileDiff(*fl, *fr, o); sx_assert(want.ok(), "the library reports an error");
  Result g = run({"left", "right"}); sx_assert(is(g.out, *want), "the tool does not print the difference its flags ask for"); sx_assert(g.code == (want->empty() ? 0 : 1), "the exit code does not tell whether the files differ"); if (want->empty()) sx_cover("equal"); else sx_cover("different");
}
SX_JOB trouble() {
  put("f", "a\n", false, 0); put("dir", "", true, 0); static const char* const kNames[3] = {"f", "dir", "gone"}; size_t n = sx_choice(4, "arguments"); std::vector<std::string> a; bool ok = n == 2; for (size_t i = 0; i < n; ++i) { size_t k = sx_choice(3, nm("file", i)); a.push_back(kNames[k]); ok = ok && k == 0; }
  Result g = run(a); sx_assert(g.code == (ok ? 0 : 2), "trouble is not reported by the exit code 2"); sx_assert(g.out.empty(), "a difference is printed"); if (ok) sx_cover("no trouble"); else sx_cover("trouble");
}
SX_JOB unknown() {
  put("f", "a\n", false, 0); std::string name = from("name", 3, "abcdefghijklmnopqrstuvwxyz"); size_t k = sx_choice(3, "flag"); if (k == 0) absl::SetFlag(&FLAGS_algorithm, name); if (k == 1) absl::SetFlag(&FLAGS_format, name); if (k == 2) absl::SetFlag(&FLAGS_file_header_use, name);
  sx_expect_abort(1); (void)run({"f", "f"}); sx_expect_abort(0); sx_fail("an unknown name is accepted");
}
