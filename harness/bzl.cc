#include "bzl_gen.h"
#include <compare>
#include "mbo/hash/hash.h"
#include "ref_hash.h"
namespace {
bzl::V bytes(const sx::Buf& b) { bzl::V r = bzl::list(); for (size_t i = 0; i < b.n; ++i) r.l.push_back(bzl::V((bzl::u128)(unsigned char)b.p[i])); return r; }
bzl::V text(const sx::Buf& b) { return bzl::str(b.sv()); }
void same(const bzl::V& v, uint64_t h, const char* m) {
  sx_assert(!bzl::gFailed, "the build rule hash fails or leaves the 128 bit range"); sx_assert(v.k == bzl::V::Int, "the build rule hash is not an integer");
  uint64_t a[2] = {(uint64_t)v.i, (uint64_t)(v.i >> 64)}, b[2] = {h, 0}; sx_assert_eq(a, b, 16, m);
}
void printable(const sx::Buf& b) { for (size_t i = 0; i < b.n; ++i) { sx_assume((unsigned char)(b.p[i] - 32) <= 94); } }
template <class F> void run(F bz, uint64_t (*cc)(std::string_view, uint64_t), const char* m) {  // params: length, 0 bytes / 1 text
  sx::Buf b(sx_param(0), "data"); uint64_t s = sx_u64("seed"); bzl::gFailed = false; if (sx_param(1)) printable(b);
  same(bz(sx_param(1) ? text(b) : bytes(b), bzl::V((bzl::u128)s)), cc(b.sv(), s), m);
}
}
SX_JOB bz_mumbo() { run([](bzl::V d, bzl::V s) { return bzl::hash_mumbo(d, s); }, [](std::string_view d, uint64_t s) { return mbo::hash::mumbo::GetHash64(d, s); }, "the build rule mumbo differs from the C++ mumbo"); }
SX_JOB bz_dumbo() { run([](bzl::V d, bzl::V s) { return bzl::hash_dumbo(d, s); }, [](std::string_view d, uint64_t s) { return mbo::hash::dumbo::GetHash64(d, s); }, "the build rule dumbo differs from the C++ dumbo"); }
SX_JOB bz_fnv1a() { run([](bzl::V d, bzl::V s) { return bzl::hash_fnv1a(d, s); }, [](std::string_view d, uint64_t s) { return mbo::hash::fnv1a::GetHash64(d, s); }, "the build rule FNV-1a differs from the C++ FNV-1a"); }
SX_JOB bz_default() {  // the default seeds
  sx::Buf b(sx_param(0), "data"); bzl::gFailed = false; printable(b);
  same(bzl::hash_mumbo(text(b)), mbo::hash::mumbo::GetHash64(b.sv()), "default seed of the build rule mumbo");
  same(bzl::hash_dumbo(text(b)), mbo::hash::dumbo::GetHash64(b.sv()), "default seed of the build rule dumbo");
  same(bzl::hash_fnv1a(text(b)), mbo::hash::fnv1a::GetHash64(b.sv()), "default seed of the build rule FNV-1a");
}
SX_JOB bz_unprintable() {  // a string with a character outside 0x20..0x7e is refused
  sx::Buf b(sx_param(0), "data"); bzl::gFailed = false; unsigned i = (unsigned)sx_param(1); bool bad = (unsigned char)(b.p[i] - 32) > 94; sx_assume(bad);
  bzl::hash_dumbo(text(b)); sx_assert(bzl::gFailed, "a string that is not printable ASCII is hashed");
}
SX_JOB bz_mangle() {  // params: version length, seed length, buckets
  sx::Buf v(sx_param(0), "version"), s(sx_param(1), "text"); printable(v); printable(s); bzl::gFailed = false; uint64_t n = sx_param(2);
  char* j = new char[v.n + s.n + 1]; for (size_t i = 0; i < v.n; ++i) j[i] = v.p[i]; j[v.n] = '|'; for (size_t i = 0; i < s.n; ++i) j[v.n + 1 + i] = s.p[i];
  uint64_t h = mbo::hash::dumbo::GetHash64({j, v.n + s.n + 1}), e = n == 0 ? 0 : 0x45828334C99AF44FULL ^ ((h % n) * 0x9E3779B97F4A7C15ULL);
  same(bzl::m_mangle_constant(text(v), text(s), bzl::V((bzl::u128)n)), e, "the mangle constant is not the documented fold of version and seed");
  if (n) sx_assert(e != 0 || n > 1000, "an enabled mangle has constant 0");
  delete[] j;
}
