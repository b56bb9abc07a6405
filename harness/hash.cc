#include "sx.h"
#include <compare>
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "ref_hash.h"
using namespace mbo::hash;
namespace {
inline const unsigned char* U(const sx::Buf& b) { return (const unsigned char*)b.p; }
inline void eq64(uint64_t a, uint64_t b, const char* m) { sx_assert_eq(&a, &b, 8, m); }
inline void eq128(Hash128 a, ref::P b, const char* m) { eq64(a.h1, b.h1, m); eq64(a.h2, b.h2, m); }
// params: length, seed mode (0: seed 0, 1: any seed, 2: any 32 bit seed, 3: the default seed argument)
inline uint64_t seed_() { return sx_param(1) == 0 ? 0 : sx_param(1) == 2 ? (sx_u64("seed") & 0xffffffffu) : sx_u64("seed"); }
__attribute__((noinline)) uint64_t seed() { uint64_t s = seed_(); if (sx_param(1) == 1 && s == 0) return sx_param(15); return s; }  // parameter 15 is never given: 0
}
#define H64(NAME, CALL, REF) SX_JOB NAME() { sx::Buf b(sx_param(0), "data"); uint64_t s = seed(); std::string_view d = b.sv(); eq64(CALL, REF, #NAME " differs from its definition"); }
#define H128(NAME, CALL, REF) SX_JOB NAME() { sx::Buf b(sx_param(0), "data"); uint64_t s = seed(); std::string_view d = b.sv(); eq128(CALL, REF, #NAME " differs from its definition"); }
H64(h_fnv1a, fnv1a::GetHash64(d, s), ref::fnv1a(U(b), b.n, s))
H64(h_fnv1a_def, fnv1a::GetHash64(d), ref::fnv1a(U(b), b.n, 14695981039346656037ULL))
H64(h_xxh64, xxh64::GetHash64(d, s), ref::xxh64(U(b), b.n, s))
H64(h_xxh64_alg, GetHash64<xxh64::Algorithm>(d, s), ref::xxh64(U(b), b.n, s))
H64(h_xxh64_def, xxh64::GetHash64(d), ref::xxh64(U(b), b.n, 0))
H64(h_xxh3, xxh3::GetHash64(d, s), ref::xxh3(U(b), b.n, s))
H64(h_xxh3_def, xxh3::GetHash64(d), ref::xxh3(U(b), b.n, 0))
H128(h_xxh3_128, xxh3::GetHash128(d, s), ref::xxh3_128(U(b), b.n, s))
H128(h_xxh3_128_alg, GetHash128<xxh3::Algorithm>(d, s), ref::xxh3_128(U(b), b.n, s))
H64(h_rapid, rapidhash::GetHash64(d, s), ref::rapid(U(b), b.n, s))
H64(h_rapid_alg, rapidhash::Algorithm::GetHash64(d), ref::rapid(U(b), b.n, 0))
H128(h_murmur3, murmur3::GetHash128(d, s), ref::murmur3(U(b), b.n, s))
H64(h_murmur3_64, murmur3::GetHash64(d, s), ref::murmur3(U(b), b.n, s).h1)
H64(h_murmur3_alg, murmur3::Algorithm::GetHash64(d), ref::murmur3(U(b), b.n, 0).h1)
H64(h_sip_alg, siphash::Algorithm::GetHash64(d, s), ref::sip(2, 4, U(b), b.n, s, ref::fmix(s)))
H64(h_mumbo, mumbo::GetHash64(d, s), ref::mumbo(U(b), b.n, s))
H64(h_mumbo_def, GetHash64(d), ref::mumbo(U(b), b.n, 5381))
H64(h_mumbo_alg, mumbo::Algorithm::GetHash64(d, s), ref::mumbo(U(b), b.n, s))
H64(h_jumbo64, jumbo::GetHash64(d, s), ref::mumbo(U(b), b.n, s))
H128(h_jumbo, jumbo::GetHash128(d, s), ref::jumbo(U(b), b.n, s))
H128(h_jumbo_def, GetHash128(d), ref::jumbo(U(b), b.n, 5381))
H128(h_mumbo128, mumbo::Algorithm::GetHash128(d, s), ref::jumbo(U(b), b.n, s))
H64(h_dumbo, dumbo::GetHash64(d, s), ref::dumbo(U(b), b.n, s))
H64(h_dumbo_def, dumbo::Algorithm::GetHash64(d), ref::dumbo(U(b), b.n, 0))

SX_JOB h_sip24() { sx::Buf b(sx_param(0), "data"); uint64_t k0 = sx_u64("key0"), k1 = sx_u64("key1"); eq64(siphash::GetHash64(b.sv(), k0, k1), ref::sip(2, 4, U(b), b.n, k0, k1), "SipHash-2-4 differs from its definition"); }
SX_JOB h_sip13() { sx::Buf b(sx_param(0), "data"); uint64_t k0 = sx_u64("key0"), k1 = sx_u64("key1"); eq64(siphash::GetHash64Sip13(b.sv(), k0, k1), ref::sip(1, 3, U(b), b.n, k0, k1), "SipHash-1-3 differs from its definition"); }

// ---- incremental hashing. params: number of pieces, peek mask, piece lengths...
namespace {
template <class A> void stream(const char* what) {
  unsigned k = (unsigned)sx_param(0); uint64_t peek = sx_param(1); size_t n = 0;
  for (unsigned i = 0; i < k; ++i) n += sx_param(2 + i);
  sx::Buf whole(n, "data"); uint64_t s = sx_u64("seed");
  Streamer<A> st(s); size_t off = 0;
  for (unsigned i = 0; i < k; ++i) {
    size_t l = sx_param(2 + i);
    char* piece = new char[l]; if (l) memcpy(piece, whole.p + off, l);
    if (peek >> i & 1) eq64(st.Finalize(), Hasher<A>::GetHash64(std::string_view(whole.p, off), s), "early value differs from the one-shot value");
    Streamer<A>& r = st.Update({piece, l});
    sx_assert(&r == &st, "Update does not return the streamer");
    delete[] piece; off += l;
  }
  eq64(st.Finalize(), Hasher<A>::GetHash64(whole.sv(), s), what);
  eq64(st.Finalize(), Hasher<A>::GetHash64(whole.sv(), s), "a second Finalize differs");
  Streamer<A> copy = st; char x = 0; sx_make(&x, 1, "more"); copy.Update({&x, 1});
  eq64(st.Finalize(), Hasher<A>::GetHash64(whole.sv(), s), "updating a copy disturbs the original");
  sx::Buf w2(n + 1, "whole2"); memcpy(w2.p, whole.p, n); w2.p[n] = x;
  eq64(copy.Finalize(), Hasher<A>::GetHash64(w2.sv(), s), "a copied stream continues differently");
}
}
#define STREAM(NAME, ALG) SX_JOB st_##NAME() { stream<ALG>("incremental value differs from the one-shot value"); }
STREAM(mumbo, mumbo::Algorithm)
STREAM(jumbo, jumbo::Algorithm)
STREAM(xxh64, xxh64::Algorithm)
STREAM(sip, siphash::Algorithm)
SX_JOB st_default() {  // the default seed and the default algorithm
  sx::Buf b(sx_param(0) + sx_param(1), "data"); Streamer<DefaultHashAlgorithm> st; st.Update({b.p, sx_param(0)}).Update({b.p + sx_param(0), sx_param(1)});
  eq64(st.Finalize(), GetHash64(b.sv()), "default stream differs from the default hash");
}
// a long stream in a loop of equal pieces. params: piece, count
template <class A> void many(void) {
  size_t l = sx_param(0), k = sx_param(1); sx::Buf b(l * k, "data"); uint64_t s = sx_u64("seed"); Streamer<A> st(s);
  for (size_t i = 0; i < k; ++i) st.Update({b.p + i * l, l});
  eq64(st.Finalize(), Hasher<A>::GetHash64(b.sv(), s), "incremental value differs from the one-shot value");
}
SX_JOB many_mumbo() { many<mumbo::Algorithm>(); }
SX_JOB many_xxh64() { many<xxh64::Algorithm>(); }
SX_JOB many_sip() { many<siphash::Algorithm>(); }

// ---- sensitivity and alignment. params: length, (byte index | 1000000 + seed bit)
namespace {
template <class F> void sens(F f, unsigned lanes) {
  size_t n = sx_param(0), i = sx_param(1);
  sx::Buf a(n, "data"); sx::Buf b(n, "copy"); if (n) memcpy(b.p, a.p, n);
  uint64_t s1 = sx_u64("seed"), s2 = s1;
  if (i >= 1000000) s2 ^= 1ULL << (i - 1000000); else { char d = (char)sx_range(1, 255, "delta"); b.p[i] ^= d; }
  uint64_t x[2] = {0, 0}, y[2] = {0, 0}; f(x, a.sv(), s1); f(y, b.sv(), s2);
  for (unsigned l = 0; l < lanes; ++l) if (!sx_feasible(x[l] != y[l])) sx_assert(x[l] != y[l], "a byte or seed bit has no influence on the hash");
}
template <class F> void align(F f, unsigned lanes) {  // params: length, offset
  size_t n = sx_param(0), o = sx_param(1);
  sx::Buf a(n, "data"); sx::Buf b(n + o, "other"); if (n) memcpy(b.p + o, a.p, n);
  uint64_t s = sx_u64("seed"), x[2] = {0, 0}, y[2] = {0, 0}; f(x, a.sv(), s); f(y, std::string_view(b.p + o, n), s);
  sx_assert_eq(x, y, 8 * lanes, "the hash depends on more than the bytes and the seed");
}
}
#define SENS(NAME, LANES, CODE) \
  SX_JOB sens_##NAME() { sens([](uint64_t* o, std::string_view d, uint64_t s) { CODE; }, LANES); } \
  SX_JOB align_##NAME() { align([](uint64_t* o, std::string_view d, uint64_t s) { CODE; }, LANES); }
#define S64(NAME, CALL) SENS(NAME, 1, o[0] = CALL)
#define S128(NAME, CALL) SENS(NAME, 2, Hash128 h = CALL; o[0] = h.h1; o[1] = h.h2)
S64(mumbo, mumbo::GetHash64(d, s)) S64(dumbo, dumbo::GetHash64(d, s)) S64(fambo, fambo::GetHash64(d, s))
S64(xxh64, xxh64::GetHash64(d, s)) S64(xxh3, xxh3::GetHash64(d, s)) S64(rapid, rapidhash::GetHash64(d, s))
S64(sip, siphash::Algorithm::GetHash64(d, s)) S64(fnv1a, fnv1a::GetHash64(d, s))
S128(jumbo, jumbo::GetHash128(d, s)) S128(xxh3_128, xxh3::GetHash128(d, s)) S128(murmur3, murmur3::GetHash128(d, s))
S128(dumbo128, GetHash128<dumbo::Algorithm>(d, s)) S128(fambo128, GetHash128<fambo::Algorithm>(d, s)) S128(sip128, GetHash128<siphash::Algorithm>(d, s)) S128(rapid128, GetHash128<rapidhash::Algorithm>(d, s)) S128(xxh64_128, GetHash128<xxh64::Algorithm>(d, s))
S64(murmur3_64, murmur3::GetHash64(d, s))
S64(tembo34, (tembo::GetHash64<3, 4, false>(d, s))) S64(tembo44, (tembo::GetHash64<4, 4, false>(d, s))) S64(tembo54, (tembo::GetHash64<5, 4, true>(d, s))) S64(tembo88, (tembo::GetHash64<8, 8, false>(d, s))) S64(tembo168, (tembo::GetHash64<16, 8, true>(d, s))) S64(tembo124, (tembo::GetHash64<12, 4, false>(d, s))) S64(tembo74, (tembo::GetHash64<7, 4, false>(d, s)))

// ---- width completion, folding, Hash128
namespace {
struct Log { std::string_view d64[4]; uint64_t s64[4]; int n64 = 0; } gLog;
struct Only64 { static uint64_t GetHash64(std::string_view d, uint64_t s) noexcept { gLog.d64[gLog.n64 & 3] = d; gLog.s64[gLog.n64++ & 3] = s; return xxh64::GetHash64(d, s); } };
struct Only128 { static Hash128 GetHash128(std::string_view d, uint64_t s) noexcept { return xxh3::GetHash128(d, s); } };
struct With32 { static uint64_t GetHash64(std::string_view d, uint64_t s) noexcept { return xxh64::GetHash64(d, s); } static uint32_t GetHash32(std::string_view d, uint64_t s) noexcept { return (uint32_t)fnv1a::GetHash64(d, s); } };
struct Both { static uint64_t GetHash64(std::string_view d, uint64_t s) noexcept { return xxh64::GetHash64(d, s); } static Hash128 GetHash128(std::string_view d, uint64_t s) noexcept { return murmur3::GetHash128(d, s); } };
inline uint64_t f32(uint64_t h) { return (h & 0xffffffffu) ^ (h >> 32); }
inline uint64_t f64(uint64_t a, uint64_t b) { return ref::fmix(a ^ (b + 0x9e3779b97f4a7c15ULL)); }
}
SX_JOB complete() {  // params: length
  sx::Buf b(sx_param(0), "data"); uint64_t s = sx_u64("seed"); std::string_view d = b.sv();
  // only 64 bits
  uint64_t h = Hasher<Only64>::GetHash64(d, s); eq64(h, ref::xxh64(U(b), b.n, s), "Hasher does not use the native 64 bit hash");
  eq64(Hasher<Only64>::GetHash32(d, s), f32(h), "32 bits are not the XOR of the halves"); eq64(GetHash32<Only64>(d, s), f32(h), "32 bits are not the XOR of the halves");
  eq64(GetHash64<Only64>(d, s), h, "GetHash64<Algo>");
  gLog.n64 = 0; Hash128 w = Hasher<Only64>::GetHash128(d, s);
  eq64(w.h1, h, "the first lane of a completed 128 bit hash is not the 64 bit hash");
  size_t k = b.n < 8 ? b.n : 8; uint64_t s2 = s ^ 0x9e3779b97f4a7c15ULL ^ ref::le(U(b), k);
  eq64(w.h2, ref::xxh64(U(b) + k, b.n - k, s2), "the second lane of a completed 128 bit hash is not as documented");
  Hash128 w2 = GetHash128<Only64>(d, s); eq64(w2.h1, w.h1, "GetHash128<Algo>"); eq64(w2.h2, w.h2, "GetHash128<Algo>");
  // only 128 bits
  ref::P p = ref::xxh3_128(U(b), b.n, s); eq128(Hasher<Only128>::GetHash128(d, s), p, "Hasher does not use the native 128 bit hash");
  uint64_t g = f64(p.h1, p.h2); eq64(Hasher<Only128>::GetHash64(d, s), g, "64 bits from 128 are not the documented fold"); eq64(GetHash64<Only128>(d, s), g, "64 bits from 128 are not the documented fold");
  eq64(Hasher<Only128>::GetHash32(d, s), f32(g), "32 bits are not the XOR of the halves of the 64 bit value");
  // native widths
  eq64(Hasher<With32>::GetHash32(d, s), ref::fnv1a(U(b), b.n, s) & 0xffffffffu, "a native 32 bit hash is not used"); eq64(Hasher<With32>::GetHash64(d, s), h, "a native 64 bit hash is not used");
  eq64(Hasher<Both>::GetHash64(d, s), h, "a native 64 bit hash is not used"); eq128(Hasher<Both>::GetHash128(d, s), ref::murmur3(U(b), b.n, s), "a native 128 bit hash is not used");
  // functor and defaults
  eq64(Hasher<Only64>{}(d), ref::xxh64(U(b), b.n, 5381), "functor"); eq64(DefaultHasher{}(d), ref::mumbo(U(b), b.n, 5381), "default functor");
  eq64(GetHash32(d), f32(ref::mumbo(U(b), b.n, 5381)), "default 32 bit hash"); eq64(Hasher<Only128>::GetHash64(d), f64(ref::xxh3_128(U(b), b.n, 5381).h1, ref::xxh3_128(U(b), b.n, 5381).h2), "default seed");
}
SX_JOB folds() {
  uint64_t a = sx_u64("a"), b = sx_u64("b");
  eq64(Hash64To32(a), f32(a), "Hash64To32"); eq64(Hash128To64({a, b}), f64(a, b), "Hash128To64");
  eq64(CombineHashes(a, b), ref::fmix(a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2))), "CombineHashes");
}
SX_JOB order() {
  Hash128 x{sx_u64("x1"), sx_u64("x2")}, y{sx_u64("y1"), sx_u64("y2")};
  bool lt = (x.h1 < y.h1) | ((x.h1 == y.h1) & (x.h2 < y.h2)), eq = (x.h1 == y.h1) & (x.h2 == y.h2);
  auto c = x <=> y;
  sx_assert((c < 0) == lt, "Hash128 is not ordered lexicographically"); sx_assert((c == 0) == eq, "Hash128 equality"); sx_assert((x == y) == eq, "Hash128 equality"); sx_assert((x != y) == !eq, "Hash128 equality");
  sx_assert((x < y) == lt, "Hash128 <"); sx_assert((x <= y) == (lt | eq), "Hash128 <="); sx_assert((x > y) == !(lt | eq), "Hash128 >"); sx_assert((x >= y) == !lt, "Hash128 >=");
}
namespace { struct Sink { char b[64]; size_t n = 0; void Append(std::string_view s) { for (char c : s) b[n++] = c; } }; struct HS { uint64_t v[2]; int n; static HS combine(HS s, uint64_t a, uint64_t b) { s.v[0] = a; s.v[1] = b; s.n += 2; return s; } }; }
SX_JOB text() {
  Hash128 x{sx_u64("x1"), sx_u64("x2")}; Sink s; AbslStringify(s, x);
  sx_assert(s.n == 34, "Hash128 text length"); sx_assert(s.b[0] == '0' && s.b[1] == 'x', "Hash128 text prefix");
  for (int i = 0; i < 32; ++i) { uint64_t v = i < 16 ? x.h1 : x.h2; unsigned d = (unsigned)(v >> (60 - 4 * (i & 15))) & 15; char e = (char)(d + 48 + (d > 9) * 39); sx_assert(s.b[2 + i] == e, "Hash128 text digit"); }
  HS h = AbslHashValue(HS{{0, 0}, 0}, x); sx_assert(h.n == 2, "AbslHashValue"); sx_assert(h.v[0] == x.h1, "AbslHashValue"); sx_assert(h.v[1] == x.h2, "AbslHashValue");
}
#ifdef WITH_MANGLE
#include "mbo/hash/hash_mangle.h"
SX_JOB mangle() {  // params: length
  uint64_t x = sx_u64("x"); eq64(HashMangle(x), x ^ kMangleConstant, "HashMangle is not an XOR with the build constant"); eq64(HashMangle(HashMangle(x)), x, "HashMangle is not an involution");
  sx::Buf b(sx_param(0), "data"); uint64_t s = sx_u64("seed"); std::string_view d = b.sv();
  eq64(GetHash(d), ref::mumbo(U(b), b.n, 5381) ^ kMangleConstant, "GetHash"); eq64((GetHash<xxh64::Algorithm, 77>(d)), ref::xxh64(U(b), b.n, 77) ^ kMangleConstant, "GetHash<Algo, Seed>");
  eq64(MangledHasher<xxh64::Algorithm>::GetHash(d, s), ref::xxh64(U(b), b.n, s) ^ kMangleConstant, "MangledHasher::GetHash"); eq64(MangledHasher<xxh64::Algorithm>{}(d), ref::xxh64(U(b), b.n, 5381) ^ kMangleConstant, "MangledHasher functor");
  eq64(MangledHasher<xxh64::Algorithm>::GetHash64(d, s), ref::xxh64(U(b), b.n, s), "MangledHasher changes the plain hash"); eq64(MangledHasher<Only128>::GetHash(d, s), f64(ref::xxh3_128(U(b), b.n, s).h1, ref::xxh3_128(U(b), b.n, s).h2) ^ kMangleConstant, "MangledHasher completes the width");
  eq64(DefaultMangledHasher{}(d), ref::mumbo(U(b), b.n, 5381) ^ kMangleConstant, "DefaultMangledHasher");
}
#endif
