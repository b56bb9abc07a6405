// S02 DropIndent, S03 comment and affix stripping, S05 splitting at the last delimiter and Contains.
#include <string>
#include <string_view>
#include <vector>
#include "sx.h"
#include "mbo/strings/contains.h"
#include "mbo/strings/indent.h"
#include "mbo/strings/split.h"
#include "mbo/strings/strip.h"
#include "absl/strings/str_split.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view;
void same(sv got, sv want, const char* what) { sx_assert(got.size() == want.size(), what); bool ok = true; for (std::size_t i = 0; i < want.size(); ++i) ok &= got[i] == want[i]; sx_assert(ok, what); }
std::vector<sv> lines(sv t) { std::vector<sv> r; std::size_t b = 0; for (std::size_t i = 0; i < t.size(); ++i) { if (t[i] == '\n') { r.push_back(t.substr(b, i - b)); b = i + 1; } } r.push_back(t.substr(b)); return r; }
bool blank(char c) { return (c == ' ') | (c == '\t'); }
// Characters of a small alphabet, so that longer texts are reached.
void alphabet(sx::Buf& b, sv chars) { for (std::size_t i = 0; i < b.n; ++i) { bool in = false; for (char c : chars) in |= b.p[i] == c; sx_assume(in); } }
}
#ifdef DO_INDENT
SX_JOB indent() {  // length, 1 = small alphabet
  sx::Buf b(sx_param(0), "text"); if (sx_param(1)) { alphabet(b, " \t\na"); } sv t = b.sv();
  std::string all = mbo::strings::DropIndent(t); auto split = mbo::strings::DropIndentAndSplit(t);
  bool first = !t.empty() && t[0] == '\n'; auto in = lines(first ? t.substr(1) : t); const std::size_t at = first ? 0 : 1;
  if (in.size() > at) {
    std::size_t ind = 0; while (ind < in[at].size() && blank(in[at][ind])) { ++ind; } const sv pre = in[at].substr(0, ind);
    bool bl = true; for (char c : in.back()) bl &= blank(c); if (bl) { in.back() = sv(); sx_cover("blank last line"); }
    for (std::size_t i = at; i < in.size(); ++i) { bool has = in[i].size() >= ind; for (std::size_t k = 0; k < ind; ++k) if (in[i].size() >= ind) has &= in[i][k] == pre[k]; if (has) { in[i].remove_prefix(ind); if (ind) sx_cover("indent removed"); } else { sx_cover("indent absent"); } }
  }
  sx_assert(split.size() == in.size(), "DropIndentAndSplit returns the wrong number of lines");
  for (std::size_t i = 0; i < in.size(); ++i) { same(split[i], in[i], "DropIndentAndSplit returns a wrong line"); }
  if (t.empty() | (t == "\n")) { same(all, t, "DropIndent changes an empty text"); return; }
  std::string want; for (std::size_t i = 0; i < in.size(); ++i) { if (i) want += '\n'; want += in[i]; }
  same(all, want, "DropIndent differs from removing the indentation of every line");
}
#endif
#ifdef DO_STRIP
namespace {
bool space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
sv rtrim(sv t) { while (!t.empty() && space(t.back())) t.remove_suffix(1); return t; }
bool at(sv t, std::size_t p, sv m) { if (p + m.size() > t.size()) return false; bool ok = true; for (std::size_t i = 0; i < m.size(); ++i) ok &= t[p + i] == m[i]; return ok; }
sv uncomment(sv l, sv m, bool trim) { for (std::size_t p = 0; p <= l.size(); ++p) { if (at(l, p, m)) { sx_cover("comment"); l = l.substr(0, p); return trim ? rtrim(l) : l; } } return l; }
}
SX_JOB comments() {  // length, length of the comment start, 1 = small alphabet
  sx::Buf b(sx_param(0), "text"), m(sx_param(1), "start"); if (sx_param(2)) { alphabet(b, " \t\na#/"); alphabet(m, "#/ a"); } bool trim = sx::flag("trim");
  std::string got = mbo::strings::StripComments(b.sv(), {.comment_start = m.sv(), .strip_trailing_whitespace = trim});
  std::string want; auto in = lines(b.sv()); for (std::size_t i = 0; i < in.size(); ++i) { if (i) want += '\n'; want += uncomment(in[i], m.sv(), trim); }
  same(got, want, "StripComments differs from cutting every line at its first comment start");
}
SX_JOB line() {  // length, length of the comment start
  sx::Buf b(sx_param(0), "text"), m(sx_param(1), "start"); bool trim = sx::flag("trim");
  sv got = mbo::strings::StripLineComments(b.sv(), {.comment_start = m.sv(), .strip_trailing_whitespace = trim}); sv want = uncomment(b.sv(), m.sv(), trim);
  sx_assert(got.size() == want.size(), "StripLineComments cuts in the wrong place"); sx_assert((got.data() == b.p) | got.empty(), "StripLineComments does not return a prefix");
}
SX_JOB affix() {  // text length, affix length
  const std::size_t n = sx_param(0), m = sx_param(1); sx::Buf b(n, "text"), a(m, "affix"); const std::string s(b.sv());
  bool pre = m <= n, suf = m <= n; for (std::size_t i = 0; i < m; ++i) if (m <= n) { pre &= b.p[i] == a.p[i]; suf &= b.p[n - m + i] == a.p[i]; }
  { std::string x = s; bool r = mbo::strings::ConsumePrefix(x, a.sv()); sx_assert(r == pre, "ConsumePrefix answers wrongly"); same(x, pre ? sv(s).substr(m) : sv(s), "ConsumePrefix leaves the wrong text"); }
  { std::string x = s; bool r = mbo::strings::ConsumeSuffix(x, a.sv()); sx_assert(r == suf, "ConsumeSuffix answers wrongly"); same(x, suf ? sv(s).substr(0, n - m) : sv(s), "ConsumeSuffix leaves the wrong text"); }
  { std::string x = s; same(mbo::strings::StripPrefix(std::move(x), a.sv()), pre ? sv(s).substr(m) : sv(s), "StripPrefix returns the wrong text"); }
  { std::string x = s; same(mbo::strings::StripSuffix(std::move(x), a.sv()), suf ? sv(s).substr(0, n - m) : sv(s), "StripSuffix returns the wrong text"); }
}
#include "ref_parse.h"
SX_JOB parsed() {  // length, 1 = small alphabet
  sx::Buf b(sx_param(0), "text"); if (sx_param(1)) { alphabet(b, " \n#\"\\a'"); } bool trim = sx::flag("trim");
  mbo::strings::StripParsedCommentArgs args{.parse = {.stop_at_any_of = "#"}, .strip_trailing_whitespace = trim}; args.parse.remove_quotes = sx::flag("remove");
  auto got = mbo::strings::StripParsedComments(b.sv(), args);
  std::string want; bool ok = true; auto in = lines(b.sv());
  for (std::size_t i = 0; i < in.size(); ++i) { auto r = ref::parse(args.parse, in[i]); ok = ok && r.code == 0; if (!ok) break; if (i) want += '\n'; want += trim ? rtrim(r.text) : sv(r.text); }
  sx_assert(got.ok() == ok, "StripParsedComments accepts a malformed line or rejects a good one");
  if (ok) { same(*got, want, "StripParsedComments differs from parsing every line up to its comment"); sx_cover("parsed"); } else { sx_assert(got.status().code() == absl::StatusCode::kInvalidArgument, "StripParsedComments reports another error"); sx_cover("malformed"); }
}
SX_JOB parsed_line() {  // length
  sx::Buf b(sx_param(0), "text"); bool trim = sx::flag("trim"); sx::Buf s(1, "start");
  mbo::strings::StripParsedCommentArgs args{.parse = {.split_at_any_of = s.sv()}, .strip_trailing_whitespace = trim};
  auto got = mbo::strings::StripParsedLineComments(b.sv(), args); auto r = ref::parse(args.parse, b.sv());
  sx_assert(got.ok() == (r.code == 0), "StripParsedLineComments accepts a malformed line or rejects a good one");
  if (r.code == 0) { same(*got, trim ? rtrim(r.text) : sv(r.text), "StripParsedLineComments differs from parsing up to the comment"); } else { sx_assert(got.status().code() == absl::StatusCode::kInvalidArgument, "StripParsedLineComments reports another error"); }
}
#endif
#ifdef DO_SPLIT
SX_JOB last() {  // length
  sx::Buf b(sx_param(0), "text"); unsigned char cb; sx_make(&cb, 1, "separator"); char c = static_cast<char>(cb); sv t = b.sv();
  int at = -1; for (std::size_t i = 0; i < b.n; ++i) at = b.p[i] == c ? static_cast<int>(i) : at;
  std::vector<sv> got = absl::StrSplit(t, mbo::strings::AtLast(c)); std::pair<sv, sv> two = absl::StrSplit(t, mbo::strings::AtLast(c));
  if (at < 0) { sx_assert(got.size() == 1, "a text without the separator is split"); same(got[0], t, "the only part is not the text"); same(two.first, t, "the first of the pair is not the text"); sx_assert(two.second.empty(), "the second of the pair is not empty"); sx_cover("absent"); return; }
  sx_assert(got.size() == 2, "splitting at the last separator does not yield two parts"); sx_cover("present");
  same(got[0], t.substr(0, at), "the part before the last separator differs"); same(got[1], t.substr(at + 1), "the part after the last separator differs"); same(two.first, t.substr(0, at), "the first of the pair differs"); same(two.second, t.substr(at + 1), "the second of the pair differs");
}
SX_JOB find() {  // length, from: the delimiter interface
  sx::Buf b(sx_param(0), "text"); std::size_t from = sx_param(1); unsigned char cb; sx_make(&cb, 1, "separator"); char c = static_cast<char>(cb); sv t = b.sv();
  int at = -1; for (std::size_t i = from; i < b.n; ++i) at = b.p[i] == c ? static_cast<int>(i) : at;
  sv r = mbo::strings::AtLast(c).Find(t, from);
  if (at < 0) { sx_assert(r.empty() & (r.data() == t.data() + t.size()), "Find of an absent separator is not the empty end"); } else { sx_assert((r.data() == t.data() + at) & (r.size() == 1), "Find is not the last separator"); }
}
SX_JOB contains() {  // text length, needle length
  const std::size_t n = sx_param(0), m = sx_param(1); sx::Buf b(n, "text"), e(m, "needle"); unsigned char cb; sx_make(&cb, 1, "char"); char c = static_cast<char>(cb);
  bool has = m == 0; if (m) for (std::size_t p = 0; p + m <= n; ++p) { bool ok = true; for (std::size_t i = 0; i < m; ++i) ok &= b.p[p + i] == e.p[i]; has |= ok; }
  bool ch = false; for (std::size_t i = 0; i < n; ++i) ch |= b.p[i] == c;
  sx_assert(mbo::strings::Contains(b.sv(), e.sv()) == has, "Contains of a text differs from a search"); sx_assert(mbo::strings::Contains(b.sv(), c) == ch, "Contains of a character differs from a search");
}
#endif
