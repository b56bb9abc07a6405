// S04: ParseString and ParseStringList against the scanner in ref_parse.h.
#include <string>
#include <string_view>
#include "sx.h"
#include "mbo/strings/parse.h"
#include "ref_parse.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
namespace {
using sv = std::string_view;
bool same(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
int code(const absl::Status& s) { return s.ok() ? 0 : s.code() == absl::StatusCode::kInvalidArgument ? 1 : s.code() == absl::StatusCode::kUnimplemented ? 2 : 3; }
mbo::strings::ParseOptions options(std::size_t k, sv sym) {
  mbo::strings::ParseOptions o;
  switch (k) {
    case 0: break;
    case 1: o.stop_at_any_of = "#}"; break;
    case 2: o.stop_at_str = "//"; o.custom_escapes = ""; break;
    case 3: o.split_at_any_of = ",;"; o.stop_at_any_of = sym; o.custom_escapes = "x0"; break;
    case 4: o.split_at_any_of = sym; o.stop_at_str = "\\a"; break;
    case 5: o.custom_escapes = sym; o.stop_at_any_of = "\"'"; break;
    default: o.stop_at_str = sym; o.custom_escapes = "'\"\\"; break;
  }
  o.enable_double_quotes = sx::flag("double"); o.enable_single_quotes = sx::flag("single"); o.remove_quotes = sx::flag("remove"); o.allow_unquoted = sx::flag("unquoted");
  return o;
}
// Characters of the set given by the parameter: 0 all, 1 quotes and structure, 2 numeric escapes.
void restrict(sx::Buf& b, std::size_t what) {
  sv s = what == 1 ? "\"'\\,a#" : "\\xo01789afF{}"; if (what == 0) return;
  for (std::size_t i = 0; i < b.n; ++i) { bool in = false; for (char c : s) in |= b.p[i] == c; sx_assume(in); }
  if (what == 2) { sx_assume(b.p[0] == '\\'); }
}
}
SX_JOB one() {  // options, length, alphabet
  sx::Buf b(sx_param(1), "text"), s(sx_param(0) == 6 ? 2 : 1, "option"); restrict(b, sx_param(2)); auto o = options(sx_param(0), s.sv());
  sv data = b.sv(); auto got = mbo::strings::ParseString(o, data); auto want = ref::parse(o, b.sv());
  sx_assert(data.data() + data.size() == b.p + b.n, "the rest is not a suffix of the input"); sx_assert(data.size() <= b.n, "the rest is longer than the input");
  sx_assert(code(got.status()) == want.code, "ParseString accepts malformed input, rejects good input or reports another error");
  if (want.code) { if (want.code == 2) { sx_cover("unimplemented"); } else { sx_cover("invalid"); } return; }
  sx_assert(b.n - data.size() == want.used, "ParseString stops in the wrong place"); sx_assert(same(*got, want.text), "ParseString decodes the wrong text");
  if (want.used < b.n) { sx_cover("stopped"); } else { sx_cover("whole"); }
}
SX_JOB many() {  // options, length, alphabet
  sx::Buf b(sx_param(1), "text"), s(sx_param(0) == 6 ? 2 : 1, "option"); restrict(b, sx_param(2)); auto o = options(sx_param(0), s.sv());
  sv data = b.sv(); auto got = mbo::strings::ParseStringList(o, data); auto want = ref::list(o, b.sv());
  sx_assert(data.data() + data.size() == b.p + b.n, "the rest is not a suffix of the input"); sx_assert(data.size() <= b.n, "the rest is longer than the input");
  sx_assert(code(got.status()) == want.code, "ParseStringList accepts malformed input, rejects good input or reports another error");
  if (want.code) return;
  sx_assert(b.n - data.size() == want.used, "ParseStringList stops in the wrong place"); sx_assert(got->size() == want.parts.size(), "ParseStringList finds the wrong number of parts");
  bool ok = true; for (std::size_t i = 0; i < want.parts.size(); ++i) ok &= same((*got)[i], want.parts[i]); sx_assert(ok, "ParseStringList decodes a wrong part"); if (want.parts.size() > 1) sx_cover("several parts");
}
