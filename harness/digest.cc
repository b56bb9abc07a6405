// Digests against the standards. Job parameters give lengths; contents are symbolic.
#include "sx.h"
#include "ref_digest.h"
#include "mbo/digest/digest.h"
namespace dg = mbo::digest;
namespace {
constexpr size_t kMax = 512;
// Reads the message from a heap buffer of exactly n bytes, so any read outside it is reported.
template <class F> void onehot(size_t outn, size_t block, F ref, auto digest) {
  (void)block;
  size_t n = sx_param(0);
  sx::Buf m(n, "msg");
  auto d = digest(m.sv());
  static_assert(sizeof(d[0]) == 1);
  sx_assert(d.size() == outn, "digest size");
  uint8_t* r = new uint8_t[outn];
  ref((const void*)m.p, n, r);
  sx_assert_eq(d.data(), r, outn, "digest equals the standard's value");
  for (size_t i = 0; i < outn; i += 8) sx_trace(d[i]);
  delete[] r;
  sx_cover("digest");
}
uint64_t iv224[8], iv256[8];
// The two SHA-512/t initial values are computed from their definition (concrete).
void ref512_224(const void* d, size_t n, uint8_t* o) { ref::sha512t_iv("SHA-512/224", 11, iv224); ref::sha2_64(d, n, iv224, o, 28); }
void ref512_256(const void* d, size_t n, uint8_t* o) { ref::sha512t_iv("SHA-512/256", 11, iv256); ref::sha2_64(d, n, iv256, o, 32); }
#define ALGOS(X)                                                                                          \
  X(sha1, 20, [](const void* d, size_t n, uint8_t* o) { ref::sha1(d, n, o); })                            \
  X(sha256, 32, [](const void* d, size_t n, uint8_t* o) { ref::sha2_32(d, n, ref::H256, o, 32); })        \
  X(sha224, 28, [](const void* d, size_t n, uint8_t* o) { ref::sha2_32(d, n, ref::H224, o, 28); })        \
  X(sha512, 64, [](const void* d, size_t n, uint8_t* o) { ref::sha2_64(d, n, ref::H512, o, 64); })        \
  X(sha384, 48, [](const void* d, size_t n, uint8_t* o) { ref::sha2_64(d, n, ref::H384, o, 48); })        \
  X(sha512_224, 28, ref512_224)                                                                           \
  X(sha512_256, 32, ref512_256)                                                                           \
  X(md5, 16, [](const void* d, size_t n, uint8_t* o) { ref::md5(d, n, o); })                              \
  X(sha3_224, 28, [](const void* d, size_t n, uint8_t* o) { ref::keccak(d, n, 144, 6, o, 28); })          \
  X(sha3_256, 32, [](const void* d, size_t n, uint8_t* o) { ref::keccak(d, n, 136, 6, o, 32); })          \
  X(sha3_384, 48, [](const void* d, size_t n, uint8_t* o) { ref::keccak(d, n, 104, 6, o, 48); })          \
  X(sha3_512, 64, [](const void* d, size_t n, uint8_t* o) { ref::keccak(d, n, 72, 6, o, 64); })           \
  X(blake2b, 64, [](const void* d, size_t n, uint8_t* o) { ref::blake2b(d, n, nullptr, 0, o, 64); })      \
  X(blake2b_256, 32, [](const void* d, size_t n, uint8_t* o) { ref::blake2b(d, n, nullptr, 0, o, 32); })  \
  X(blake3, 32, [](const void* d, size_t n, uint8_t* o) { ref::b3::plain(d, n, o, 32); })
}  // namespace
#define ONE(NS, N, R) SX_JOB NS() { onehot(N, 64, R, [](std::string_view s) { return dg::NS::Digest(s); }); }
ALGOS(ONE)
#define ONEA(NS, N, R) SX_JOB NS##_alg() { onehot(N, 64, R, [](std::string_view s) { return dg::NS::Algorithm::Digest(s); }); }
ALGOS(ONEA)

// ---- SHAKE: output sizes are template arguments.
template <size_t N, size_t RATE> void shake(auto digest) { onehot(N, RATE, [](const void* d, size_t n, uint8_t* o) { ref::keccak(d, n, RATE, 0x1f, o, N); }, digest); }
#define SHAKE(N)                                                                                            \
  SX_JOB shake128_##N() { shake<N, 168>([](std::string_view s) { return dg::shake128::Digest<N>(s); }); }   \
  SX_JOB shake256_##N() { shake<N, 136>([](std::string_view s) { return dg::shake256::Digest<N>(s); }); }
SHAKE(1) SHAKE(16) SHAKE(32) SHAKE(64) SHAKE(135) SHAKE(136) SHAKE(137) SHAKE(167) SHAKE(168) SHAKE(169) SHAKE(272) SHAKE(337) SHAKE(512) SHAKE(1400)

// ---- keyed BLAKE2b
template <class A, size_t N> void b2keyed() {
  size_t kn = sx_param(0), n = sx_param(1);
  sx::Buf k(kn, "key"), m(n, "msg");
  auto d = A::DigestKeyed(k.sv(), m.sv());
  uint8_t r[64]; ref::blake2b(m.p, n, k.p, kn, r, N);
  sx_assert_eq(d.data(), r, N, "keyed BLAKE2b equals RFC 7693");
  sx_trace(d[0]); sx_cover("keyed");
}
SX_JOB blake2b_keyed() { b2keyed<dg::blake2b::Algorithm, 64>(); }
SX_JOB blake2b_256_keyed() { b2keyed<dg::blake2b_256::Algorithm, 32>(); }
template <class A, size_t N> void b2keyedStream() {
  size_t kn = sx_param(0), a = sx_param(1), b = sx_param(2);
  sx::Buf k(kn, "key"), m(a, "msg"), m2(b, "msg2");
  auto st = A::StreamInitKeyed(k.sv());
  A::StreamUpdate(st, m.sv()); A::StreamUpdate(st, m2.sv());
  auto d = A::StreamFinalize(st);
  uint8_t* all = new uint8_t[a + b + 1]; for (size_t i = 0; i < a; ++i) all[i] = m.p[i]; for (size_t i = 0; i < b; ++i) all[a + i] = m2.p[i];
  uint8_t r[64]; ref::blake2b(all, a + b, k.p, kn, r, N); delete[] all;
  sx_assert_eq(d.data(), r, N, "incremental keyed BLAKE2b equals RFC 7693");
  sx_trace(d[0]);
}
SX_JOB blake2b_keyed_stream() { b2keyedStream<dg::blake2b::Algorithm, 64>(); }
SX_JOB blake2b_256_keyed_stream() { b2keyedStream<dg::blake2b_256::Algorithm, 32>(); }

// ---- BLAKE3 modes
template <size_t N> void b3xof() { onehot(N, 64, [](const void* d, size_t n, uint8_t* o) { ref::b3::plain(d, n, o, N); }, [](std::string_view s) { return dg::blake3::DigestXof<N>(s); }); }
template <size_t N> void b3keyed() {
  size_t n = sx_param(0); sx::Buf k(32, "key"), m(n, "msg");
  auto d = dg::blake3::DigestKeyed<N>(k.sv(), m.sv());
  uint8_t r[N]; ref::b3::keyed(k.p, m.p, n, r, N);
  sx_assert_eq(d.data(), r, N, "keyed BLAKE3 equals the spec"); sx_trace(d[0]); sx_cover("keyed");
}
template <size_t N> void b3derive() {
  size_t cn = sx_param(0), n = sx_param(1); sx::Buf c(cn, "ctx"), m(n, "msg");
  auto d = dg::blake3::DeriveKey<N>(c.sv(), m.sv());
  uint8_t r[N]; ref::b3::derive(c.p, cn, m.p, n, r, N);
  sx_assert_eq(d.data(), r, N, "derive-key BLAKE3 equals the spec"); sx_trace(d[0]); sx_cover("derive");
}
#define B3(N) SX_JOB b3xof_##N() { b3xof<N>(); } SX_JOB b3keyed_##N() { b3keyed<N>(); } SX_JOB b3derive_##N() { b3derive<N>(); }
B3(1) B3(31) B3(32) B3(63) B3(64) B3(65) B3(128) B3(129) B3(200) B3(1000) B3(16500)
SX_JOB b3keyed_stream() {
  size_t a = sx_param(0), b = sx_param(1); sx::Buf k(32, "key"), m(a, "msg"), m2(b, "msg2");
  using A = dg::blake3::Algorithm;
  auto st = A::StreamInitKeyed(k.sv()); A::StreamUpdate(st, m.sv()); A::StreamUpdate(st, m2.sv());
  auto d = A::StreamFinalize(st);
  uint8_t* all = new uint8_t[a + b + 1]; for (size_t i = 0; i < a; ++i) all[i] = m.p[i]; for (size_t i = 0; i < b; ++i) all[a + i] = m2.p[i];
  uint8_t r[32]; ref::b3::keyed(k.p, all, a + b, r, 32); delete[] all;
  sx_assert_eq(d.data(), r, 32, "incremental keyed BLAKE3 equals the spec"); sx_trace(d[0]);
}

// ---- message length counters: the state word that follows the number of absorbed bytes is found by observing the state
// after 0 to 3 blocks of zeros, then set to a symbolic count; the digest must be the standard's for that total length.
template <class A> void counter(size_t unit, uint64_t maxUnits, uint64_t mult, bool chunks, size_t n, auto ref) {
  typename A::StreamState st[4];
  constexpr size_t W = sizeof(st[0]) / 8;
  uint64_t w[4][W];
  for (size_t k = 0; k < 4; ++k) {
    st[k] = A::StreamInit(); std::string z(k * unit + 1, '\0'); A::StreamUpdate(st[k], z);
    std::memcpy(w[k], (const void*)&st[k], 8 * W);
  }
  size_t at = W; uint64_t step = 0;
  for (size_t i = 0; i < W; ++i) {
    uint64_t c = w[1][i] - w[0][i];
    if ((c == unit || c == 8 * unit || c == 1) && w[2][i] - w[0][i] == 2 * c && w[3][i] - w[0][i] == 3 * c) { if (at != W) return; at = i; step = c; }
  }
  if (at == W) return;  // no such word: nothing to set
  sx_cover("counter");
  uint64_t units = sx_range(0, maxUnits, "before") * mult;
  auto s = A::StreamInit();
  uint64_t cur; std::memcpy(&cur, (const char*)&s + 8 * at, 8);
  cur += units * step; std::memcpy((char*)&s + 8 * at, &cur, 8);
  sx::Buf m(n, "msg");
  A::StreamUpdate(s, m.sv());
  auto d = A::StreamFinalize(s);
  ref::gBefore = chunks ? units : units * unit;
  uint8_t r[64]; ref((const void*)m.p, n, r);
  ref::gBefore = 0;
  sx_assert_eq(d.data(), r, d.size(), "digest of a message of any total length equals the standard's value");
  sx_trace(d[0]);
}
#define CNT(NS, UNIT, MAX) SX_JOB NS##_counter() { counter<dg::NS::Algorithm>(UNIT, MAX, 1, false, sx_param(0), REF_##NS); }
template <class F> struct Lazy { F f; };
#define REF_sha1 [](const void* d, size_t n, uint8_t* o) { ref::sha1(d, n, o); }
#define REF_sha224 [](const void* d, size_t n, uint8_t* o) { ref::sha2_32(d, n, ref::H224, o, 28); }
#define REF_sha256 [](const void* d, size_t n, uint8_t* o) { ref::sha2_32(d, n, ref::H256, o, 32); }
#define REF_sha384 [](const void* d, size_t n, uint8_t* o) { ref::sha2_64(d, n, ref::H384, o, 48); }
#define REF_sha512 [](const void* d, size_t n, uint8_t* o) { ref::sha2_64(d, n, ref::H512, o, 64); }
#define REF_sha512_224 [](const void* d, size_t n, uint8_t* o) { uint64_t b = ref::gBefore; ref::gBefore = 0; ref::sha512t_iv("SHA-512/224", 11, iv224); ref::gBefore = b; ref::sha2_64(d, n, iv224, o, 28); }
#define REF_sha512_256 [](const void* d, size_t n, uint8_t* o) { uint64_t b = ref::gBefore; ref::gBefore = 0; ref::sha512t_iv("SHA-512/256", 11, iv256); ref::gBefore = b; ref::sha2_64(d, n, iv256, o, 32); }
#define REF_md5 [](const void* d, size_t n, uint8_t* o) { ref::md5(d, n, o); }
#define REF_blake2b [](const void* d, size_t n, uint8_t* o) { ref::blake2b(d, n, nullptr, 0, o, 64); }
#define REF_blake2b_256 [](const void* d, size_t n, uint8_t* o) { ref::blake2b(d, n, nullptr, 0, o, 32); }
CNT(sha1, 64, (1ULL << 55) - 64) CNT(sha224, 64, (1ULL << 55) - 64) CNT(sha256, 64, (1ULL << 55) - 64) CNT(md5, 64, (1ULL << 55) - 64)
CNT(sha384, 128, (1ULL << 57) - 64) CNT(sha512, 128, (1ULL << 57) - 64) CNT(sha512_224, 128, (1ULL << 57) - 64) CNT(sha512_256, 128, (1ULL << 57) - 64)
CNT(blake2b, 128, (1ULL << 57) - 64) CNT(blake2b_256, 128, (1ULL << 57) - 64)
SX_JOB blake3_counter() { counter<dg::blake3::Algorithm>(1024, 1ULL << 52, 2, true, sx_param(0), [](const void* d, size_t n, uint8_t* o) { ref::b3::plain(d, n, o, 32); }); }

// ---- incremental use: arbitrary pieces (parameters are piece lengths, 0 ends; 999 = empty piece), with a peek between pieces.
template <class A> void stream() {
  size_t total = 0; size_t cnt = sx_param(0);
  for (size_t i = 0; i < cnt; ++i) total += sx_param(1 + i);
  sx::Buf m(total, "msg");
  dg::Streamer<A> s; size_t pos = 0;
  for (size_t i = 0; i < cnt; ++i) {
    size_t k = sx_param(1 + i);
    char* piece = new char[k]; for (size_t j = 0; j < k; ++j) piece[j] = m.p[pos + j];
    s.Update(std::string_view(piece, k)); pos += k; delete[] piece;
    if (i + 1 < cnt) {
      auto peek = s.Finalize(); auto want = A::Digest(std::string_view(m.p, pos));
      sx_assert_eq(peek.data(), want.data(), peek.size(), "reading in the middle gives the digest of the bytes so far");
    }
  }
  auto copy = s; auto d = s.Finalize(); auto want = A::Digest(m.sv());
  sx_assert_eq(d.data(), want.data(), d.size(), "incremental equals one-shot");
  char x = 1; copy.Update(std::string_view(&x, 1));
  auto again = s.Finalize();
  sx_assert_eq(again.data(), want.data(), d.size(), "reading the digest does not disturb it");
  for (size_t i = 0; i < d.size(); i += 8) sx_trace(d[i]);
  sx_cover("stream");
}
#define STR(NS, N, R) SX_JOB NS##_stream() { stream<dg::NS::Algorithm>(); }
ALGOS(STR)
SX_JOB shake128_stream() { stream<dg::shake128::Algorithm<32>>(); }
SX_JOB shake256_stream() { stream<dg::shake256::Algorithm<64>>(); }

// ---- HMAC: RFC 2104's construction over the one-shot digest (which D01 to D05 compare with the standards)
template <class A> void own(const void* d, size_t n, uint8_t* o) { auto r = A::Digest(std::string_view((const char*)d, n)); for (size_t i = 0; i < r.size(); ++i) o[i] = (uint8_t)r[i]; }
template <class A> void hm(auto ref) {
  size_t kn = sx_param(0), n = sx_param(1);
  sx::Buf k(kn, "key"), m(n, "msg");
  auto d = dg::Hmac<A>::Digest(k.sv(), m.sv());
  uint8_t r[64]; ref::hmac(ref, A::kBlockSize, A::kDigestSize, k.p, kn, m.p, n, r);
  sx_assert_eq(d.data(), r, d.size(), "HMAC equals RFC 2104");
  sx_trace(d[0]); sx_cover("hmac");
}
template <class A> void hmStream(auto ref) {
  size_t kn = sx_param(0), a = sx_param(1), b = sx_param(2);
  sx::Buf k(kn, "key"), m(a + b, "msg");
  dg::HmacStreamer<A> s(k.sv());
  s.Update(std::string_view(m.p, a));
  uint8_t r[64]; ref::hmac(ref, A::kBlockSize, A::kDigestSize, k.p, kn, m.p, a, r);
  auto d = s.Finalize();
  sx_assert_eq(d.data(), r, d.size(), "incremental HMAC read in the middle equals RFC 2104");
  s.Update(std::string_view(m.p + a, b));
  ref::hmac(ref, A::kBlockSize, A::kDigestSize, k.p, kn, m.p, a + b, r);
  d = s.Finalize();
  sx_assert_eq(d.data(), r, d.size(), "incremental HMAC equals RFC 2104");
  sx_trace(d[0]); sx_cover("hmac stream");
}
#define HM(NS, N, R) SX_JOB hmac_##NS() { hm<dg::NS::Algorithm>(own<dg::NS::Algorithm>); } SX_JOB hmacs_##NS() { hmStream<dg::NS::Algorithm>(own<dg::NS::Algorithm>); }
ALGOS(HM)

// ---- hex
template <size_t N> void hex() {
  std::array<uint8_t, N> a; sx_make(a.data(), N, "digest");
  std::string s = dg::ToHexString(a);
  sx_assert(s.size() == 2 * N, "two hex digits per byte");
  for (size_t i = 0; i < N; ++i) {
    auto digit = [](uint8_t v) { return (char)(v + '0' + (v > 9) * ('a' - '0' - 10)); };
    sx_assert(s[2 * i] == digit(a[i] >> 4), "high digit"); sx_assert(s[2 * i + 1] == digit(a[i] & 15), "low digit");
  }
  for (char c : s) sx_trace((unsigned char)c);
  sx_cover("hex");
}
SX_JOB hex1() { hex<1>(); } SX_JOB hex16() { hex<16>(); } SX_JOB hex32() { hex<32>(); } SX_JOB hex64() { hex<64>(); }
