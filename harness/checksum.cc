// Checksum lines: every line content and expected digest length.
#include "sx.h"
#include <optional>
#include "mbo/digest/checksum.h"
using mbo::digest::internal::ParseChecksumLine;
static bool hexDigit(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
SX_JOB line() {  // (line length, expected hex length)
  size_t n = sx_param(0), hl = sx_param(1);
  if (hl == 1000) hl = ~size_t{0}; else if (hl == 1001) hl = ~size_t{0} - 1;
  sx::Buf l(n, "line");
  auto r = ParseChecksumLine(l.sv(), hl);
  bool want = hl <= n && n - hl >= 3;
  if (want) {
    bool h = true; for (size_t i = 0; i < hl; ++i) h &= hexDigit(l.p[i]);
    want = h & (l.p[hl] == ' ') & ((l.p[hl + 1] == ' ') | (l.p[hl + 1] == '*'));
  }
  sx_assert(r.has_value() == want, "accepted exactly when the line has the checksum form");
  if (r) {
    sx_assert(r->hex.data() == l.p && r->hex.size() == hl, "digest text is the leading hex");
    sx_assert(r->file_name.data() == l.p + hl + 2 && r->file_name.size() == n - hl - 2, "file name is the whole rest");
    sx_cover("accepted");
  } else sx_cover("rejected");
  sx_trace(r.has_value());
}
