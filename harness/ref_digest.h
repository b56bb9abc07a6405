// Independent reference implementations written from the standards: FIPS 180-4, FIPS 202, RFC 1321, RFC 7693, the BLAKE3
// paper, RFC 2104. Whole-message (padding first, then block by block), no buffering or streaming.
#pragma once
#include <cstddef>
#include <cstdint>
#include "ref_const.h"
namespace ref {
struct Bytes {  // growable byte string
  uint8_t* p; size_t n = 0, cap;
  explicit Bytes(size_t c) : p(new uint8_t[c ? c : 1]), cap(c) {}
  ~Bytes() { delete[] p; }
  Bytes(const Bytes&) = delete;
  void push(uint8_t b) { p[n++] = b; }
  void add(const void* d, size_t k) { for (size_t i = 0; i < k; ++i) push(((const uint8_t*)d)[i]); }
};
inline uint32_t rol(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
inline uint32_t ror(uint32_t x, int k) { return (x >> k) | (x << (32 - k)); }
inline uint64_t rol64(uint64_t x, int k) { return k ? (x << k) | (x >> (64 - k)) : x; }
inline uint64_t ror64(uint64_t x, int k) { return (x >> k) | (x << (64 - k)); }
template <class W> inline W be(const uint8_t* p) { W w = 0; for (size_t i = 0; i < sizeof(W); ++i) w = (W)(w << 8) | p[i]; return w; }
template <class W> inline W le(const uint8_t* p) { W w = 0; for (size_t i = 0; i < sizeof(W); ++i) w |= (W)p[i] << (8 * i); return w; }
template <class W> inline void put_be(uint8_t* p, W w) { for (size_t i = 0; i < sizeof(W); ++i) p[i] = (uint8_t)(w >> (8 * (sizeof(W) - 1 - i))); }
template <class W> inline void put_le(uint8_t* p, W w) { for (size_t i = 0; i < sizeof(W); ++i) p[i] = (uint8_t)(w >> (8 * i)); }
// Bytes (BLAKE3: chunks) that are taken to precede the message without having changed the chaining value: lets a check
// reach any message length counter.
inline uint64_t gBefore = 0;
// Merkle-Damgard padding: 0x80, zeros, the bit length in LEN bytes.
inline void md_pad(Bytes& m, const void* d, size_t n, size_t block, size_t len, bool big) {
  m.add(d, n); m.push(0x80);
  while (m.n % block != block - len) m.push(0);
  uint64_t bytes = gBefore + n, bits = bytes << 3, high = bytes >> 61;
  for (size_t i = 0; i < len; ++i) { size_t sh = big ? 8 * (len - 1 - i) : 8 * i; m.push(sh < 64 ? (uint8_t)(bits >> sh) : (uint8_t)(high >> (sh - 64))); }
}
inline void sha1(const void* d, size_t n, uint8_t out[20]) {
  Bytes m(n + 128); md_pad(m, d, n, 64, 8, true);
  uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  for (size_t o = 0; o < m.n; o += 64) {
    uint32_t w[80]; for (int t = 0; t < 16; ++t) w[t] = be<uint32_t>(m.p + o + 4 * t);
    for (int t = 16; t < 80; ++t) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], dd = h[3], e = h[4];
    for (int t = 0; t < 80; ++t) {
      uint32_t f, k;
      if (t < 20) { f = (b & c) ^ (~b & dd); k = 0x5a827999; }
      else if (t < 40) { f = b ^ c ^ dd; k = 0x6ed9eba1; }
      else if (t < 60) { f = (b & c) ^ (b & dd) ^ (c & dd); k = 0x8f1bbcdc; }
      else { f = b ^ c ^ dd; k = 0xca62c1d6; }
      uint32_t T = rol(a, 5) + f + e + k + w[t]; e = dd; dd = c; c = rol(b, 30); b = a; a = T;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += dd; h[4] += e;
  }
  for (int i = 0; i < 5; ++i) put_be(out + 4 * i, h[i]);
}
inline void sha2_32(const void* d, size_t n, const uint32_t iv[8], uint8_t* out, size_t outn) {
  Bytes m(n + 128); md_pad(m, d, n, 64, 8, true);
  uint32_t H[8]; for (int i = 0; i < 8; ++i) H[i] = iv[i];
  for (size_t o = 0; o < m.n; o += 64) {
    uint32_t w[64]; for (int t = 0; t < 16; ++t) w[t] = be<uint32_t>(m.p + o + 4 * t);
    for (int t = 16; t < 64; ++t) w[t] = (ror(w[t - 2], 17) ^ ror(w[t - 2], 19) ^ (w[t - 2] >> 10)) + w[t - 7] + (ror(w[t - 15], 7) ^ ror(w[t - 15], 18) ^ (w[t - 15] >> 3)) + w[t - 16];
    uint32_t v[8]; for (int i = 0; i < 8; ++i) v[i] = H[i];
    for (int t = 0; t < 64; ++t) {
      uint32_t s1 = ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]), t1 = v[7] + s1 + ch + K256[t] + w[t];
      uint32_t s0 = ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]), t2 = s0 + mj;
      v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) H[i] += v[i];
  }
  for (size_t i = 0; i < outn / 4; ++i) put_be(out + 4 * i, H[i]);
}
inline void sha2_64(const void* d, size_t n, const uint64_t iv[8], uint8_t* out, size_t outn) {
  Bytes m(n + 256); md_pad(m, d, n, 128, 16, true);
  uint64_t H[8]; for (int i = 0; i < 8; ++i) H[i] = iv[i];
  for (size_t o = 0; o < m.n; o += 128) {
    uint64_t w[80]; for (int t = 0; t < 16; ++t) w[t] = be<uint64_t>(m.p + o + 8 * t);
    for (int t = 16; t < 80; ++t) w[t] = (ror64(w[t - 2], 19) ^ ror64(w[t - 2], 61) ^ (w[t - 2] >> 6)) + w[t - 7] + (ror64(w[t - 15], 1) ^ ror64(w[t - 15], 8) ^ (w[t - 15] >> 7)) + w[t - 16];
    uint64_t v[8]; for (int i = 0; i < 8; ++i) v[i] = H[i];
    for (int t = 0; t < 80; ++t) {
      uint64_t s1 = ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]), t1 = v[7] + s1 + ch + K512[t] + w[t];
      uint64_t s0 = ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]), t2 = s0 + mj;
      v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) H[i] += v[i];
  }
  uint8_t full[64]; for (int i = 0; i < 8; ++i) put_be(full + 8 * i, H[i]);
  for (size_t i = 0; i < outn; ++i) out[i] = full[i];
}
// SHA-512/t initial value, FIPS 180-4 section 5.3.6.
inline void sha512t_iv(const char* name, size_t n, uint64_t iv[8]) {
  uint64_t x[8]; for (int i = 0; i < 8; ++i) x[i] = H512[i] ^ 0xa5a5a5a5a5a5a5a5ULL;
  uint8_t o[64]; sha2_64(name, n, x, o, 64);
  for (int i = 0; i < 8; ++i) iv[i] = be<uint64_t>(o + 8 * i);
}
inline void md5(const void* d, size_t n, uint8_t out[16]) {
  Bytes m(n + 128); md_pad(m, d, n, 64, 8, false);
  static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < m.n; o += 64) {
    uint32_t a = h[0], b = h[1], c = h[2], dd = h[3];
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      switch (i / 16) { case 0: f = (b & c) | (~b & dd); g = i; break; case 1: f = (b & dd) | (c & ~dd); g = (5 * i + 1) % 16; break; case 2: f = b ^ c ^ dd; g = (3 * i + 5) % 16; break; default: f = c ^ (b | ~dd); g = (7 * i) % 16; }
      uint32_t t = a + f + le<uint32_t>(m.p + o + 4 * g) + MD5T[i]; a = dd; dd = c; c = b; b = b + rol(t, S[i / 16][i % 4]);
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += dd;
  }
  for (int i = 0; i < 4; ++i) put_le(out + 4 * i, h[i]);
}
// Keccak-f[1600] with A[x][y] lanes, round constants from the LFSR of FIPS 202 algorithm 5.
inline void keccak_f(uint64_t A[5][5]) {
  uint8_t R = 1;
  auto rc = [&]() { bool o = R & 1; bool hi = R & 0x80; R = (uint8_t)(R << 1); if (hi) R ^= 0x71; return o; };
  for (int ir = 0; ir < 24; ++ir) {
    uint64_t C[5], D[5];
    for (int x = 0; x < 5; ++x) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rol64(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x][y] ^= D[x];
    uint64_t B[5][5]; B[0][0] = A[0][0];
    int x = 1, y = 0;
    for (int t = 0; t < 24; ++t) { B[x][y] = rol64(A[x][y], ((t + 1) * (t + 2) / 2) % 64); int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
    uint64_t P[5][5];
    for (x = 0; x < 5; ++x) for (y = 0; y < 5; ++y) P[x][y] = B[(x + 3 * y) % 5][x];
    for (x = 0; x < 5; ++x) for (y = 0; y < 5; ++y) A[x][y] = P[x][y] ^ (~P[(x + 1) % 5][y] & P[(x + 2) % 5][y]);
    uint64_t RC = 0; for (int j = 0; j <= 6; ++j) if (rc()) RC ^= 1ULL << ((1 << j) - 1);
    A[0][0] ^= RC;
  }
}
inline void keccak(const void* d, size_t n, size_t rate, uint8_t suffix, uint8_t* out, size_t outn) {
  Bytes m(n + 2 * rate); m.add(d, n); m.push(suffix); while (m.n % rate) m.push(0); m.p[m.n - 1] ^= 0x80;
  uint64_t A[5][5] = {};
  for (size_t o = 0; o < m.n; o += rate) { for (size_t i = 0; i < rate / 8; ++i) A[i % 5][i / 5] ^= le<uint64_t>(m.p + o + 8 * i); keccak_f(A); }
  size_t k = 0;
  while (k < outn) {
    for (size_t i = 0; i < rate / 8 && k < outn; ++i) for (int b = 0; b < 8 && k < outn; ++b) out[k++] = (uint8_t)(A[i % 5][i / 5] >> (8 * b));
    if (k < outn) keccak_f(A);
  }
}
// RFC 7693
inline void blake2b(const void* d, size_t n, const void* key, size_t kn, uint8_t* out, size_t outn) {
  static const uint8_t SIG[10][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}, {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8}, {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9}, {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10}, {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
  Bytes m(n + 256); if (kn) { m.add(key, kn); while (m.n < 128) m.push(0); } m.add(d, n);
  size_t total = m.n; while (m.n == 0 || m.n % 128) m.push(0);
  uint64_t h[8]; for (int i = 0; i < 8; ++i) h[i] = H512[i];
  h[0] ^= 0x01010000ULL ^ (kn << 8) ^ outn;
  for (size_t o = 0; o < m.n; o += 128) {
    bool last = o + 128 == m.n; uint64_t t = gBefore + (last ? total : o + 128);
    uint64_t w[16]; for (int i = 0; i < 16; ++i) w[i] = le<uint64_t>(m.p + o + 8 * i);
    uint64_t v[16]; for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[i + 8] = H512[i]; }
    v[12] ^= t; if (last) v[14] = ~v[14];
    auto G = [&](int a, int b, int c, int e, uint64_t x, uint64_t y) { v[a] = v[a] + v[b] + x; v[e] = ror64(v[e] ^ v[a], 32); v[c] = v[c] + v[e]; v[b] = ror64(v[b] ^ v[c], 24); v[a] = v[a] + v[b] + y; v[e] = ror64(v[e] ^ v[a], 16); v[c] = v[c] + v[e]; v[b] = ror64(v[b] ^ v[c], 63); };
    for (int r = 0; r < 12; ++r) {
      const uint8_t* s = SIG[r % 10];
      G(0, 4, 8, 12, w[s[0]], w[s[1]]); G(1, 5, 9, 13, w[s[2]], w[s[3]]); G(2, 6, 10, 14, w[s[4]], w[s[5]]); G(3, 7, 11, 15, w[s[6]], w[s[7]]);
      G(0, 5, 10, 15, w[s[8]], w[s[9]]); G(1, 6, 11, 12, w[s[10]], w[s[11]]); G(2, 7, 8, 13, w[s[12]], w[s[13]]); G(3, 4, 9, 14, w[s[14]], w[s[15]]);
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
  }
  uint8_t full[64]; for (int i = 0; i < 8; ++i) put_le(full + 8 * i, h[i]);
  for (size_t i = 0; i < outn; ++i) out[i] = full[i];
}
// BLAKE3, recursively over the tree (left subtree = largest power of two of whole chunks leaving at least one byte).
namespace b3 {
enum { CHUNK_START = 1, CHUNK_END = 2, PARENT = 4, ROOT = 8, KEYED = 16, CTX = 32, MATERIAL = 64 };
struct Node { uint32_t cv[8]; uint32_t w[16]; uint64_t t; uint32_t b, d; };
inline void compress(const Node& x, uint64_t t, uint32_t d, uint32_t out[16]) {
  static const uint8_t PERM[16] = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
  uint32_t v[16], m[16];
  for (int i = 0; i < 8; ++i) v[i] = x.cv[i];
  for (int i = 0; i < 4; ++i) v[8 + i] = H256[i];
  v[12] = (uint32_t)t; v[13] = (uint32_t)(t >> 32); v[14] = x.b; v[15] = d;
  for (int i = 0; i < 16; ++i) m[i] = x.w[i];
  auto G = [&](int a, int b, int c, int e, uint32_t p, uint32_t q) { v[a] = v[a] + v[b] + p; v[e] = ror(v[e] ^ v[a], 16); v[c] += v[e]; v[b] = ror(v[b] ^ v[c], 12); v[a] = v[a] + v[b] + q; v[e] = ror(v[e] ^ v[a], 8); v[c] += v[e]; v[b] = ror(v[b] ^ v[c], 7); };
  for (int r = 0; r < 7; ++r) {
    for (int i = 0; i < 4; ++i) G(i, 4 + i, 8 + i, 12 + i, m[2 * i], m[2 * i + 1]);
    for (int i = 0; i < 4; ++i) G(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, m[8 + 2 * i], m[9 + 2 * i]);
    uint32_t q[16]; for (int i = 0; i < 16; ++i) q[i] = m[PERM[i]]; for (int i = 0; i < 16; ++i) m[i] = q[i];
  }
  for (int i = 0; i < 8; ++i) { out[i] = v[i] ^ v[i + 8]; out[i + 8] = v[i + 8] ^ x.cv[i]; }
}
inline Node chunk(const uint8_t* d, size_t n, uint64_t idx, const uint32_t key[8], uint32_t flags) {
  Node x; for (int i = 0; i < 8; ++i) x.cv[i] = key[i];
  size_t blocks = n ? (n + 63) / 64 : 1;
  for (size_t k = 0; k < blocks; ++k) {
    size_t len = k + 1 < blocks ? 64 : n - 64 * k; uint8_t b[64] = {}; for (size_t i = 0; i < len; ++i) b[i] = d[64 * k + i];
    for (int i = 0; i < 16; ++i) x.w[i] = le<uint32_t>(b + 4 * i);
    x.t = idx; x.b = (uint32_t)len; x.d = flags | (k == 0 ? CHUNK_START : 0) | (k + 1 == blocks ? CHUNK_END : 0);
    if (k + 1 < blocks) { uint32_t o[16]; compress(x, x.t, x.d, o); for (int i = 0; i < 8; ++i) x.cv[i] = o[i]; }
  }
  return x;
}
inline Node tree(const uint8_t* d, size_t n, uint64_t idx, const uint32_t key[8], uint32_t flags) {
  if (n <= 1024) return chunk(d, n, idx, key, flags);
  size_t l = 1024; while (l * 2 < n) l *= 2;
  Node a = tree(d, l, idx, key, flags), b = tree(d + l, n - l, idx + l / 1024, key, flags), x;
  uint32_t o[16]; compress(a, a.t, a.d, o); for (int i = 0; i < 8; ++i) x.w[i] = o[i];
  compress(b, b.t, b.d, o); for (int i = 0; i < 8; ++i) x.w[8 + i] = o[i];
  for (int i = 0; i < 8; ++i) x.cv[i] = key[i];
  x.t = 0; x.b = 64; x.d = flags | PARENT;
  return x;
}
inline void hash(const void* d, size_t n, const uint32_t key[8], uint32_t flags, uint8_t* out, size_t outn) {
  Node r = tree((const uint8_t*)d, n, gBefore, key, flags);
  size_t k = 0; uint64_t t = 0;
  while (k < outn) { uint32_t o[16]; compress(r, t++, r.d | ROOT, o); for (int i = 0; i < 64 && k < outn; ++i) out[k++] = (uint8_t)(o[i / 4] >> (8 * (i % 4))); }
}
inline void plain(const void* d, size_t n, uint8_t* out, size_t outn) { hash(d, n, H256, 0, out, outn); }
inline void keyed(const void* key32, const void* d, size_t n, uint8_t* out, size_t outn) { uint32_t k[8]; for (int i = 0; i < 8; ++i) k[i] = le<uint32_t>((const uint8_t*)key32 + 4 * i); hash(d, n, k, KEYED, out, outn); }
inline void derive(const void* ctx, size_t cn, const void* d, size_t n, uint8_t* out, size_t outn) {
  uint8_t c[32]; hash(ctx, cn, H256, CTX, c, 32); uint32_t k[8]; for (int i = 0; i < 8; ++i) k[i] = le<uint32_t>(c + 4 * i); hash(d, n, k, MATERIAL, out, outn);
}
}  // namespace b3
// RFC 2104
template <class H> inline void hmac(H h, size_t block, size_t outn, const void* key, size_t kn, const void* d, size_t n, uint8_t* out) {
  Bytes k(block + 64); if (kn > block) { h(key, kn, k.p); k.n = outn; } else k.add(key, kn);
  while (k.n < block) k.push(0);
  Bytes a(block + n); for (size_t i = 0; i < block; ++i) a.push(k.p[i] ^ 0x36); a.add(d, n);
  Bytes in(outn); h(a.p, a.n, in.p);
  Bytes b(block + outn); for (size_t i = 0; i < block; ++i) b.push(k.p[i] ^ 0x5c); b.add(in.p, outn);
  h(b.p, b.n, out);
}
}  // namespace ref
