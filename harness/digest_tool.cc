// D10: the digest tool (mbo/digest/digest_main.cc), run through its main().
#include "sx.h"
#include "tok.h"
#include "tool.h"
#include "mbo/digest/checksum.h"
#include "mbo/digest/digest.h"
#include "mbo/strings/indent.h"
#define main tool_main
#include "mbo/digest/digest_main.cc"
#undef main
namespace {
using sv = std::string_view; namespace dg = mbo::digest;
struct Alg { sv name; std::string (*hex)(sv); size_t len; };
template <typename A> std::string hexOf(sv t) { return dg::ToHexString(A::Digest(t)); }
template <typename A> Alg alg(sv n) { return {n, &hexOf<A>, 2 * A::kDigestSize}; }
const Alg kAlgs[17] = {alg<dg::md5::Algorithm>("md5"), alg<dg::sha1::Algorithm>("sha1"), alg<dg::sha224::Algorithm>("sha224"), alg<dg::sha256::Algorithm>("sha256"), alg<dg::sha384::Algorithm>("sha384"), alg<dg::sha512::Algorithm>("sha512"),
  alg<dg::sha512_224::Algorithm>("sha512-224"), alg<dg::sha512_256::Algorithm>("sha512-256"), alg<dg::sha3_224::Algorithm>("sha3-224"), alg<dg::sha3_256::Algorithm>("sha3-256"), alg<dg::sha3_384::Algorithm>("sha3-384"), alg<dg::sha3_512::Algorithm>("sha3-512"),
  alg<dg::shake128::Algorithm<32>>("shake128"), alg<dg::shake256::Algorithm<32>>("shake256"), alg<dg::blake2b::Algorithm>("blake2b"), alg<dg::blake2b_256::Algorithm>("blake2b-256"), alg<dg::blake3::Algorithm>("blake3")};
void put(sv name, sv data, bool dir = false, int64_t how = 0) { sxfs::tree().nodes.push_back({std::string(name), std::string(data), dir, how}); }
struct Result { int code; std::string out, err; };
Result run(const std::vector<std::string>& args) {
  std::vector<std::string> a(args); a.insert(a.begin(), "digest"); std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr);
  std::sx_cout.text.clear(); std::sx_cerr.text.clear(); int c = tool_main(static_cast<int>(a.size()), v.data()); return {c, std::sx_cout.text, std::sx_cerr.text};
}
void eq(const std::string& a, const std::string& b, const char* msg) { sx_assert(a.size() == b.size(), msg); sx_assert_eq(a.data(), b.data(), a.size(), msg); }
bool is(sv a, sv b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
template <typename F> void set(F& flag, const char* name) { if (sx_choice(2, name)) absl::SetFlag(&flag, true); }
}
SX_JOB compute() {  // algorithm, bytes
  const Alg& a = kAlgs[sx_param(0)]; sx::Buf b(sx_param(1), "content"); put("f", b.sv()); size_t how = sx_choice(4, "how"); bool rev = false;
  if (how & 1) { absl::SetFlag(&FLAGS_a, std::string(a.name)); if (how & 2) absl::SetFlag(&FLAGS_algorithm, std::string("nothing")); } else { absl::SetFlag(&FLAGS_algorithm, std::string(a.name)); rev = (how & 2) != 0; }
  if (rev) absl::SetFlag(&FLAGS_reverse, true);
  std::string file = "f"; if (how == 3) { file = "-"; std::sx_cin.rewind(std::string(b.sv())); }
  Result r = run({file}); sx_assert(r.code == 0, "digesting a readable file fails"); std::string h = a.hex(b.sv()); eq(r.out, rev ? file + "  " + h + "\n" : h + "  " + file + "\n", "the line is not the digest and the name of the file"); sx_assert(r.err.empty(), "an error is reported for a readable file"); sx_cover("computed");
}
SX_JOB defaults() {
  sx::Buf b(2, "content"); put("f", b.sv()); put("g", "x"); Result r = run({"f", "g"}); eq(r.out, hexOf<dg::sha256::Algorithm>(b.sv()) + "  f\n" + hexOf<dg::sha256::Algorithm>("x") + "  g\n", "the default is not one SHA-256 line per file"); sx_assert(r.code == 0, "digesting readable files fails");
  Result e = run({}); sx_assert(e.code == 1, "no file is not an error"); sx_assert(e.out.empty(), "no file prints something");
}
SX_JOB names() {  // length of an arbitrary algorithm name
  sx::Buf b(sx_param(0), "name"); put("f", "x"); absl::SetFlag(&FLAGS_a, std::string(b.sv())); bool known = b.n == 0; for (const Alg& a : kAlgs) known |= is(a.name, b.sv());
  Result r = run({"f"}); sx_assert((r.code == 0) == known, "a name is an algorithm exactly when documented"); sx_assert(r.out.empty() == !known, "an unknown algorithm prints a digest"); sx_assert(r.err.empty() == known, "an unknown algorithm is not reported"); if (known) sx_cover("known"); else sx_cover("unknown");
}
SX_JOB big() {  // bytes (around the size of the tool's buffer), place of the unknown byte from the end
  std::string t(sx_param(0), 'q'); char c = sx::make<char>("byte"); t[t.size() - sx_param(1)] = c; put("f", t); absl::SetFlag(&FLAGS_a, std::string("md5")); Result r = run({"f"}); sx_assert(r.code == 0, "digesting a long file fails"); eq(r.out, hexOf<dg::md5::Algorithm>(t) + "  f\n", "the digest of a long file is wrong");
}
SX_JOB cut() {  // bytes that can be read of 65537 + 10
  std::string t(65547, 'q'); put("f", t, false, -2 - static_cast<int64_t>(sx_param(0))); absl::SetFlag(&FLAGS_a, std::string("md5")); bool check = sx_choice(2, "check") != 0;
  std::string part = t.substr(0, sx_param(0) < 65536 ? 0 : 65536); put("sums", hexOf<dg::md5::Algorithm>(part) + "  f\n"); if (check) absl::SetFlag(&FLAGS_c, true);
  Result r = run({check ? "sums" : "f"}); sx_assert(r.code == 1, "a file that can be read in part only is digested"); if (check) sx_assert(is(r.out, "f: FAILED open or read\n"), "a file that can be read in part only is not reported"); else sx_assert(r.out.empty(), "a digest is printed for a file that can be read in part only"); sx_cover("cut");
}
SX_JOB list() {  // files
  static const char* const kNames[6] = {"a", "b b", "dir", "gone", "shut", "bad"};
  put("a", "one"); put("b b", ""); put("dir", "", true); put("shut", "x", false, -1000000); put("bad", "x", false, -1); absl::SetFlag(&FLAGS_a, std::string("md5"));
  bool rev = sx_choice(2, "reverse") != 0; size_t skip = sx_choice(3, "skip"); if (rev) absl::SetFlag(&FLAGS_reverse, true); if (skip == 1) absl::SetFlag(&FLAGS_ignore_directories, true); if (skip == 2) absl::SetFlag(&FLAGS_d, true);
  std::vector<std::string> files; std::string out; int code = 0; size_t errors = 0;
  for (size_t i = 0; i < sx_param(0); ++i) {
    size_t k = sx_choice(6, nm("file", i)); files.push_back(kNames[k]); if (k < 2) { std::string h = hexOf<dg::md5::Algorithm>(k ? "" : "one"), n = kNames[k]; out += rev ? n + "  " + h + "\n" : h + "  " + n + "\n"; } else if (k > 2 || skip == 0) { code = 1; ++errors; }
  }
  Result r = run(files); sx_assert(r.code == code, "the exit code is not 1 exactly when a file cannot be digested"); sx_assert(is(r.out, out), "the lines are not those of the files that can be read");
  size_t lines = 0; for (char c : r.err) lines += c == '\n'; sx_assert(lines == errors, "not every file that cannot be digested is reported once"); if (code) sx_cover("error");
}
// The warnings of a check: a line with the number for every kind of failure that happened, in any order, one more when nothing was verified.
void warned(std::string_view err, std::initializer_list<size_t> counts, bool nothing) {
  std::vector<size_t> want; for (size_t n : counts) if (n > 0) want.push_back(n); size_t extra = 0, found = 0;
  for (size_t i = 0; i < err.size();) { size_t e = i, num = 0; bool digit = false; for (; e < err.size() && err[e] != '\n'; ++e) if (err[e] >= '0' && err[e] <= '9') { digit = true; num = num * 10 + static_cast<size_t>(err[e] - '0'); } i = e + 1; if (!digit) { ++extra; continue; } bool in = false; for (size_t& w : want) if (!in && w == num) { in = true; w = 0; ++found; } sx_assert(in, "a number in a warning is wrong"); }
  sx_assert(found == want.size(), "a failed check is not warned about"); sx_assert(extra == (nothing ? 1U : 0U), "that nothing was verified is not reported");
}
SX_JOB verify() {  // lines; 1: two unknown digits in every digest; 1: fewer flags
  static const char* const kNames[6] = {"a", "b b", "dir", "gone", "shut", "bad"}; const std::string text[6] = {"one", "", "", "", "", ""};
  put("a", "one"); put("b b", ""); put("dir", "", true); put("shut", "x", false, -1000000); put("bad", "x", false, -1); absl::SetFlag(&FLAGS_a, std::string("md5"));
  const bool few = sx_param(2) != 0; size_t f = few ? 2 * sx_choice(2, "flag") : sx_choice(5, "flag"), g = sx_choice(4, "more"); const bool quiet = f == 1, status = f == 2 || f == 4, ignore = (g & 1) != 0, strict = (g & 2) != 0; if (f == 1 || f == 4) absl::SetFlag(&FLAGS_quiet, true); if (status) absl::SetFlag(&FLAGS_status, true); if (ignore) absl::SetFlag(&FLAGS_ignore_missing, true); if (strict) absl::SetFlag(&FLAGS_strict, true);
  if (f == 3) absl::SetFlag(&FLAGS_check, true); else absl::SetFlag(&FLAGS_c, true);
  std::string sums, out; size_t good = 0, bad = 0, unread = 0, form = 0; const bool silent = status, noOk = quiet || status; const size_t n = sx_param(0);
  for (size_t i = 0; i < n; ++i) {
    size_t k = sx_choice(i == 0 || sx_param(1) == 0 ? 9 : 2, nm("line", i)); if (k == 6) { sums += "\n"; continue; } if (k == 7) { sums += "no sum\n"; ++form; continue; } if (k == 8) { sums += hexOf<dg::md5::Algorithm>("one") + "  \n"; ++form; continue; }
    std::string h = hexOf<dg::md5::Algorithm>(text[k]); bool same = true;
    if (sx_param(1)) { for (size_t j = 0; j < h.size(); j += 31) { char c = sx::make<char>(nm(j ? "last" : "first", i)); const bool lo = (c >= '0') & (c <= '9'), mi = (c >= 'a') & (c <= 'f'), up = (c >= 'A') & (c <= 'F'); sx_assume(lo | mi | up); same &= (up ? static_cast<char>(c + 32) : c) == h[j]; h[j] = c; } }
    else { size_t w = sx_choice(3, nm("sum", i)); if (w == 1) { h[5] = h[5] == 'e' ? 'd' : 'e'; same = false; } if (w == 2) for (char& c : h) if (c >= 'a') c = static_cast<char>(c - 32); }
    sums += h; sums += i % 2 ? " *" : "  "; sums += kNames[k]; if (i + 1 < n || f != 0) sums += "\n";
    std::string name = kNames[k]; if (k >= 2) { if (!ignore) { ++unread; if (!silent) out += name + ": FAILED open or read\n"; } } else if (same) { ++good; if (!noOk) out += name + ": OK\n"; } else { ++bad; if (!silent) out += name + ": FAILED\n"; }
  }
  const bool in = few ? false : sx_choice(2, "stdin") != 0; if (in) std::sx_cin.rewind(sums); else put("sums", sums);
  Result r = run({in ? "-" : "sums"}); int code = bad > 0 || unread > 0 || (strict && form > 0) || (ignore && good == 0 && bad == 0) ? 1 : 0;
  sx_assert(r.code == code, "the exit code of --check is wrong"); sx_assert(is(r.out, out), "--check does not report every file as documented"); sx_assert(!status || r.err.empty(), "--status prints something"); if (!status) warned(r.err, {form, unread, bad}, ignore && good == 0 && bad == 0);
  if (code) sx_cover("failed"); else sx_cover("verified");
}
SX_JOB sums() {  // what cannot be read as a checksum file
  put("dir", "", true); put("bad", "x", false, -1); put("shut", "x", false, -1000000); put("ok", hexOf<dg::md5::Algorithm>("x") + "  x\n"); put("x", "x"); absl::SetFlag(&FLAGS_a, std::string("md5")); absl::SetFlag(&FLAGS_c, true);
  std::sx_cin.rewind(hexOf<dg::md5::Algorithm>("x") + "  x\n"); static const char* const kNames[6] = {"dir", "bad", "shut", "gone", "ok", "-"}; size_t a = sx_choice(6, "first"), b = sx_choice(5, "second"); Result r = run({kNames[a], kNames[b]}); const bool fine = a >= 4 && b == 4; sx_assert(r.code == (fine ? 0 : 1), "a checksum file that cannot be read is not an error"); sx_assert(r.err.empty() == fine, "a checksum file that cannot be read is not reported");
  if (fine) sx_assert(is(r.out, "x: OK\nx: OK\n"), "not every checksum file is verified");
}
SX_JOB cycle() {  // bytes of the file name, bytes of content
  sx::Buf n(sx_param(0), "name"); std::string c(sx_param(1), 'c'); for (size_t i = 0; i < n.n; ++i) sx_assume((n.p[i] != '\n') & (n.p[i] != 0)); if (n.n == 1) sx_assume(n.p[0] != '-'); if (n.n == 4) sx_assume(!is(n.sv(), "sums"));
  put(n.sv(), c); absl::SetFlag(&FLAGS_a, std::string("md5")); std::string name(n.sv()); Result r = run({name}); sx_assert(r.code == 0, "digesting a readable file fails");
  put("sums", r.out); absl::SetFlag(&FLAGS_c, true); Result k = run({"sums"}); sx_assert(k.code == 0, "the tool does not accept its own lines"); sx_assert(is(k.out, name + ": OK\n"), "the tool does not verify its own lines"); sx_cover("cycle");
}
