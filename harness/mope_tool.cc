// M02: the mope tool (mbo/mope/mope_main.cc), run through its main(): its output is the expansion of its template with the values its flags and its INI file set.
#include "sx.h"
#include "tok.h"
#include "absl/base/log_severity.h"
#include "absl/container/flat_hash_map.h"
#include "absl/log/globals.h"
#include "absl/status/status.h"
#include "absl/strings/str_split.h"
#include "mbo/container/any_scan.h"
#include "mbo/file/artefact.h"
#include "mbo/file/file.h"
#include "mbo/mope/ini.h"
#include "mbo/mope/mope.h"
#include "mbo/status/status_macros.h"
#include "cfile.h"
#include "tool.h"
namespace std { inline sx_ostream& operator<<(sx_ostream& o, const absl::Status& s) { return o << s.ToString(); } }
#define main tool_main
#include "mbo/mope/mope_main.cc"
#undef main
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view; using mbo::mope::Template;
#ifdef MBO_ENGINE
std::ios_base::Init streams_ready;
#endif
bool is(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
void put(sv name, sv data, bool dir = false) { sxfs::tree().nodes.push_back({std::string(name), std::string(data), dir, 0}); }
struct Result { int code; std::string out, err; };
Result run(const std::vector<std::string>& args = {}) {
  std::vector<std::string> a(args); a.insert(a.begin(), "mope"); std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); std::sx_cout.text.clear(); std::sx_cerr.text.clear(); int c = tool_main(static_cast<int>(a.size()), v.data()); return {c, std::sx_cout.text, std::sx_cerr.text};
}
std::string from(const char* name, size_t n, sv abc) { sx::Buf b(n, name); for (size_t i = 0; i < n; ++i) { bool ok = false; for (char c : abc) ok |= b.p[i] == c; sx_assume(ok); } return std::string(b.sv()); }
// What a --set entry asks for: name and value up to and after the first '=', the name's sections in order, one empty section for a global.
bool apply(sv e, Template& t, std::vector<std::pair<std::string, std::string>>& global) {
  size_t q = 0; while (q < e.size() && e[q] != '=') ++q; sv name = e.substr(0, q), value = q < e.size() ? e.substr(q + 1) : sv(); std::vector<std::string> parts(1); for (char c : name) { if (c == ':') parts.emplace_back(); else parts.back() += c; }
  std::string key = parts.back(); parts.pop_back(); if (key.empty()) return false; if (parts.size() == 1 && parts[0].empty()) { for (auto& [k, v] : global) { if (is(k, key)) { v = value; return true; } } global.emplace_back(key, value); return true; }
  Template* at = &t; for (const std::string& p : parts) { if (p.empty()) return false; auto s = at->AddSection(p); if (!s.ok()) return false; at = *s; } return at->SetValue(key, value).ok();
}
const sv kText = "<{{#s}}[{{a}}{{#s}}({{a}}){{/s}}{{b}}]{{/s}}{{#a}}{{b}}{{/a}}{{b=d}}{{b}}{{g}}>";
void decide(const std::vector<std::string>& sets, sv text, const char* ini) {
  Template t; std::vector<std::pair<std::string, std::string>> global; bool ok = true; for (const auto& s : sets) ok = ok && apply(s, t, global); if (ok && ini) ok = mbo::mope::ReadIniToTemlate(ini, t).ok();
  std::string want(text); if (ok) { std::vector<std::pair<std::string, std::string>> g(global); ok = t.Expand(want, mbo::container::MakeConvertingScan(g)).ok(); }
  const size_t to = sx_choice(4, "to"); put("old", "old"); put("dir", "", true); absl::SetFlag(&FLAGS_template, std::string("t")); absl::SetFlag(&FLAGS_set, sets); if (ini) absl::SetFlag(&FLAGS_ini, std::string(ini));
  if (to == 1) absl::SetFlag(&FLAGS_generate, std::string("old")); if (to == 2) absl::SetFlag(&FLAGS_generate, std::string("new")); if (to == 3) absl::SetFlag(&FLAGS_generate, std::string("dir"));
  Result r = run(); const bool good = ok && to != 3; sx_assert((r.code == 0) == good, good ? "a template that can be expanded is refused" : "a failure is reported as a success"); sx_assert(r.code == 0 || r.code == 1, "the exit code is neither 0 nor 1"); sx_assert(r.err.empty() == good, "an error is not reported");
  sx_assert(is(r.out, good && to == 0 ? sv(want) : sv()), "the standard output is not the expansion"); auto* o = sxfs::find("old"); sx_assert(is(o->data, good && to == 1 ? sv(want) : sv("old")), "the output file is not the expansion"); auto* n = sxfs::find("new"); sx_assert((n != nullptr) == (good && to == 2), "the output file is missing or made by a failure"); if (n) sx_assert(is(n->data, want), "the new output file is not the expansion"); sx_assert(is(sxfs::find("t")->data, text), "the template is changed");
  if (good) sx_cover("expanded"); else sx_cover("refused");
}
}
SX_JOB sets() {  // bytes of an arbitrary entry, 1: with another entry
  std::vector<std::string> e; std::string x = from("set", sx_param(0), "as:=1"); if (sx_param(1) == 1) { static const char* const k[] = {":b=1", "s:b=2", "s:s:a=3", "b=4", ":a=5=6"}; e.push_back(k[sx_choice(5, "other")]); if (sx_choice(2, "order")) e.insert(e.begin(), x); else e.push_back(x); } else if (sx_param(0) || sx_param(1) == 2) { e.push_back(x); }
  put("t", kText); decide(e, kText, nullptr);
}
SX_JOB values() {  // bytes of an arbitrary value
  sx::Buf v(sx_param(0), "value"); std::string e = sx_choice(2, "global") ? ":g=" : "g="; e += v.sv(); static const sv text = "{{g}}{{#s}}{{g}}{{/s}}|"; put("t", text); decide({e, "s:on"}, text, nullptr);
}
SX_JOB ini() {  // letters of an INI file
  std::string f = "[s]\na=1\n" + from("ini", sx_param(0), "[]ab:=\n"); put("i", f); put("t", kText); std::vector<std::string> e; size_t k = sx_choice(3, "set"); if (k == 1) e.push_back("s:b=2"); if (k == 2) e.push_back("b=2"); decide(e, kText, "i");
}
SX_JOB inputs() {
  static const char* const kNames[4] = {"t", "dir", "gone", ""}; size_t t = sx_choice(4, "template"), i = sx_choice(4, "ini"), more = sx_choice(2, "more"); put("t", "text"); put("dir", "", true); absl::SetFlag(&FLAGS_template, std::string(kNames[t])); if (i < 3) { put("i", "a=b"); absl::SetFlag(&FLAGS_ini, std::string(i ? kNames[i] : "i")); }
  Result r = run(more ? std::vector<std::string>{"extra"} : std::vector<std::string>{}); const bool ok = t == 0 && (i == 0 || i == 3) && !more; sx_assert(r.code == (ok ? 0 : 1), "a template or an INI file that cannot be read is not an error, or one that can is"); sx_assert(is(r.out, ok ? "text" : ""), "the output is wrong"); sx_assert(r.err.empty() == ok, "an error is not reported");
}
