// Reference definitions of the published hashes (written from their specifications) and of the in-house mumbo/jumbo/dumbo.
#pragma once
#include <cstddef>
#include <cstdint>
namespace ref {
typedef unsigned __int128 u128;
typedef uint64_t u64;
struct P { u64 h1, h2; };
inline u64 rotl(u64 x, unsigned r) { return (x << r) | (x >> (64 - r)); }
inline u64 le(const unsigned char* p, size_t n) { u64 r = 0; for (size_t i = 0; i < n; ++i) r |= (u64)p[i] << (8 * i); return r; }
inline u64 le8(const unsigned char* p) { return le(p, 8); }
inline u64 bswap(u64 x, unsigned n) { u64 r = 0; for (unsigned i = 0; i < n; ++i) r |= ((x >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); return r; }
inline P mul(u64 a, u64 b) { u128 p = (u128)a * b; return {(u64)p, (u64)(p >> 64)}; }
inline u64 fold(u64 a, u64 b) { P p = mul(a, b); return p.h1 ^ p.h2; }
inline u64 fmix(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }

// ---- FNV-1a
inline u64 fnv1a(const unsigned char* p, size_t n, u64 h) { for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ULL; } return h; }

// ---- xxHash64
constexpr u64 X1 = 11400714785074694791ULL, X2 = 14029467366897019727ULL, X3 = 1609587929392839161ULL, X4 = 9650029242287828579ULL, X5 = 2870177450012600261ULL;
inline u64 xround(u64 acc, u64 in) { return rotl(acc + in * X2, 31) * X1; }
inline u64 xxh64(const unsigned char* p, size_t n, u64 seed) {
  u64 h; size_t i = 0;
  if (n >= 32) {
    u64 v[4] = {seed + X1 + X2, seed + X2, seed, seed - X1};
    for (; i + 32 <= n; i += 32) for (int k = 0; k < 4; ++k) v[k] = xround(v[k], le8(p + i + 8 * k));
    h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
    for (int k = 0; k < 4; ++k) h = (h ^ xround(0, v[k])) * X1 + X4;
  } else h = seed + X5;
  h += n;
  for (; i + 8 <= n; i += 8) h = rotl(h ^ xround(0, le8(p + i)), 27) * X1 + X4;
  if (i + 4 <= n) { h = rotl(h ^ (le(p + i, 4) * X1), 23) * X2 + X3; i += 4; }
  for (; i < n; ++i) h = rotl(h ^ (p[i] * X5), 11) * X1;
  h ^= h >> 33; h *= X2; h ^= h >> 29; h *= X3; h ^= h >> 32;
  return h;
}

// ---- MurmurHash3 x64 128
inline P murmur3(const unsigned char* p, size_t n, u64 seed) {
  const u64 c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
  u64 h1 = seed, h2 = seed; size_t nb = n / 16;
  for (size_t i = 0; i < nb; ++i) {
    u64 k1 = le8(p + 16 * i), k2 = le8(p + 16 * i + 8);
    h1 ^= rotl(k1 * c1, 31) * c2; h1 = (rotl(h1, 27) + h2) * 5 + 0x52dce729;
    h2 ^= rotl(k2 * c2, 33) * c1; h2 = (rotl(h2, 31) + h1) * 5 + 0x38495ab5;
  }
  const unsigned char* t = p + 16 * nb; size_t r = n & 15; u64 k1 = 0, k2 = 0;
  for (size_t i = 8; i < r; ++i) k2 ^= (u64)t[i] << (8 * (i - 8));
  if (r > 8) h2 ^= rotl(k2 * c2, 33) * c1;
  for (size_t i = 0; i < r && i < 8; ++i) k1 ^= (u64)t[i] << (8 * i);
  if (r) h1 ^= rotl(k1 * c1, 31) * c2;
  h1 ^= n; h2 ^= n; h1 += h2; h2 += h1; h1 = fmix(h1); h2 = fmix(h2); h1 += h2; h2 += h1;
  return {h1, h2};
}

// ---- SipHash-c-d
inline u64 sip(int c, int d, const unsigned char* p, size_t n, u64 k0, u64 k1) {
  u64 v0 = k0 ^ 0x736f6d6570736575ULL, v1 = k1 ^ 0x646f72616e646f6dULL, v2 = k0 ^ 0x6c7967656e657261ULL, v3 = k1 ^ 0x7465646279746573ULL;
  auto round = [&] {
    v0 += v1; v1 = rotl(v1, 13); v1 ^= v0; v0 = rotl(v0, 32);
    v2 += v3; v3 = rotl(v3, 16); v3 ^= v2;
    v0 += v3; v3 = rotl(v3, 21); v3 ^= v0;
    v2 += v1; v1 = rotl(v1, 17); v1 ^= v2; v2 = rotl(v2, 32);
  };
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { u64 m = le8(p + i); v3 ^= m; for (int k = 0; k < c; ++k) round(); v0 ^= m; }
  u64 b = ((u64)n << 56) | le(p + i, n - i);
  v3 ^= b; for (int k = 0; k < c; ++k) round(); v0 ^= b;
  v2 ^= 0xff; for (int k = 0; k < d; ++k) round();
  return v0 ^ v1 ^ v2 ^ v3;
}

// ---- rapidhash V3
constexpr u64 RS[8] = {0x2d358dccaa6c78a5ULL, 0x8bb84b93962eacc9ULL, 0x4b33a62ed433d4a3ULL, 0x4d5a2da51de1aa47ULL, 0xa0761d6478bd642fULL, 0xe7037ed1a0b428dbULL, 0x90ed1765281c388cULL, 0xaaaaaaaaaaaaaaaaULL};
inline u64 rapid(const unsigned char* p, size_t n, u64 seed) {
  seed ^= fold(seed ^ RS[2], RS[1]);
  u64 a = 0, b = 0; size_t i = n;
  if (n <= 16) {
    if (n >= 4) {
      seed ^= n;
      if (n >= 8) { a = le8(p); b = le8(p + n - 8); } else { a = le(p, 4); b = le(p + n - 4, 4); }
    } else if (n > 0) { a = ((u64)p[0] << 45) | p[n - 1]; b = p[n >> 1]; }
  } else {
    if (n > 112) {
      u64 s[7]; for (auto& x : s) x = seed;
      auto stripe = [&] { for (int k = 0; k < 7; ++k) s[k] = fold(le8(p + 16 * k) ^ RS[k], le8(p + 16 * k + 8) ^ s[k]); p += 112; i -= 112; };
      while (i > 224) { stripe(); stripe(); }
      if (i > 112) stripe();
      seed = s[0] ^ s[1] ^ s[6] ^ (s[2] ^ s[3] ^ (s[4] ^ s[5]));
    }
    const int sec[6] = {2, 2, 1, 1, 2, 1};
    for (int k = 0; k < 6; ++k) if (i > 16u * (k + 1)) seed = fold(le8(p + 16 * k) ^ RS[sec[k]], le8(p + 16 * k + 8) ^ seed);
    a = le8(p + i - 16) ^ i; b = le8(p + i - 8);
  }
  a ^= RS[1]; b ^= seed;
  P m = mul(a, b);
  return fold(m.h1 ^ RS[7], m.h2 ^ RS[1] ^ i);
}

// ---- XXH3
inline const unsigned char* ks() {
  static const unsigned char s[193] =
    "\xb8\xfe\x6c\x39\x23\xa4\x4b\xbe\x7c\x01\x81\x2c\xf7\x21\xad\x1c\xde\xd4\x6d\xe9\x83\x90\x97\xdb\x72\x40\xa4\xa4\xb7\xb3\x67\x1f"
    "\xcb\x79\xe6\x4e\xcc\xc0\xe5\x78\x82\x5a\xd0\x7d\xcc\xff\x72\x21\xb8\x08\x46\x74\xf7\x43\x24\x8e\xe0\x35\x90\xe6\x81\x3a\x26\x4c"
    "\x3c\x28\x52\xbb\x91\xc3\x00\xcb\x88\xd0\x65\x8b\x1b\x53\x2e\xa3\x71\x64\x48\x97\xa2\x0d\xf9\x4e\x38\x19\xef\x46\xa9\xde\xac\xd8"
    "\xa8\xfa\x76\x3f\xe3\x9c\x34\x3f\xf9\xdc\xbb\xc7\xc7\x0b\x4f\x1d\x8a\x51\xe0\x4b\xcd\xb4\x59\x31\xc8\x9f\x7e\xc9\xd9\x78\x73\x64"
    "\xea\xc5\xac\x83\x34\xd3\xeb\xc3\xc5\x81\xa0\xff\xfa\x13\x63\xeb\x17\x0d\xdd\x51\xb7\xf0\xda\x49\xd3\x16\x55\x26\x29\xd4\x68\x9e"
    "\x2b\x16\xbe\x58\x7d\x47\xa1\xfc\x8f\xf8\xb8\xd1\x7a\xd0\x31\xce\x45\xcb\x3a\x8f\x95\x16\x04\x28\xaf\xd7\xfb\xca\xbb\x4b\x40\x7e";
  return s;
}
constexpr u64 PM1 = 0x165667919E3779F9ULL, PM2 = 0x9FB21C651E98DF25ULL, Y1 = 0x9E3779B1U, Y2 = 0x85EBCA77U, Y3 = 0xC2B2AE3DU;
inline u64 xav64(u64 h) { h ^= h >> 33; h *= X2; h ^= h >> 29; h *= X3; return h ^ (h >> 32); }
inline u64 xav3(u64 h) { h ^= h >> 37; h *= PM1; return h ^ (h >> 32); }
inline u64 mix16(const unsigned char* p, const unsigned char* s, u64 seed) { return fold(le8(p) ^ (le8(s) + seed), le8(p + 8) ^ (le8(s + 8) - seed)); }
inline u64 ks2(int a, int b) { return le8(ks() + a) ^ le8(ks() + b); }
inline u64 c13(const unsigned char* p, size_t n) { return ((u64)p[0] << 16) | ((u64)p[n >> 1] << 24) | p[n - 1] | ((u64)n << 8); }
struct Long { u64 acc[8]; };
inline Long xlong(const unsigned char* p, size_t n, const unsigned char* secret) {
  Long L = {{Y3, X1, X2, X3, X4, Y2, X5, Y1}};
  auto stripe = [&](const unsigned char* q, const unsigned char* s) {
    for (int k = 0; k < 8; ++k) { u64 v = le8(q + 8 * k), x = v ^ le8(s + 8 * k); L.acc[k ^ 1] += v; L.acc[k] += (x & 0xffffffffu) * (x >> 32); }
  };
  size_t nb = (n - 1) / 1024;
  for (size_t b = 0; b < nb; ++b) {
    for (size_t s = 0; s < 16; ++s) stripe(p + 1024 * b + 64 * s, secret + 8 * s);
    for (int k = 0; k < 8; ++k) { u64 a = L.acc[k]; a ^= a >> 47; a ^= le8(secret + 128 + 8 * k); L.acc[k] = a * Y1; }
  }
  size_t ns = (n - 1 - 1024 * nb) / 64;
  for (size_t s = 0; s < ns; ++s) stripe(p + 1024 * nb + 64 * s, secret + 8 * s);
  stripe(p + n - 64, secret + 192 - 64 - 7);
  return L;
}
inline u64 xmerge(const Long& L, const unsigned char* s, u64 r) { for (int k = 0; k < 4; ++k) r += fold(L.acc[2 * k] ^ le8(s + 16 * k), L.acc[2 * k + 1] ^ le8(s + 16 * k + 8)); return xav3(r); }
inline void custom(unsigned char* out, u64 seed) {
  for (int i = 0; i < 12; ++i) { u64 lo = le8(ks() + 16 * i) + seed, hi = le8(ks() + 16 * i + 8) - seed; for (int b = 0; b < 8; ++b) { out[16 * i + b] = (unsigned char)(lo >> (8 * b)); out[16 * i + 8 + b] = (unsigned char)(hi >> (8 * b)); } }
}
inline u64 xxh3(const unsigned char* p, size_t n, u64 seed) {
  const unsigned char* K = ks();
  if (n == 0) return xav64(seed ^ ks2(56, 64));
  if (n <= 3) return xav64(c13(p, n) ^ ((le(K, 4) ^ le(K + 4, 4)) + seed));
  if (n <= 8) {
    seed ^= bswap(seed & 0xffffffffu, 4) << 32;
    u64 in = le(p + n - 4, 4) + (le(p, 4) << 32);
    u64 h = in ^ (ks2(8, 16) - seed);
    h ^= rotl(h, 49) ^ rotl(h, 24); h *= PM2; h ^= (h >> 35) + n; h *= PM2; return h ^ (h >> 28);
  }
  if (n <= 16) {
    u64 lo = le8(p) ^ (ks2(24, 32) + seed), hi = le8(p + n - 8) ^ (ks2(40, 48) - seed);
    return xav3(n + bswap(lo, 8) + hi + fold(lo, hi));
  }
  if (n <= 128) {
    u64 a = n * X1;
    for (int i = (int)(n - 1) / 32; i >= 0; --i) { a += mix16(p + 16 * i, K + 32 * i, seed); a += mix16(p + n - 16 * (i + 1), K + 32 * i + 16, seed); }
    return xav3(a);
  }
  if (n <= 240) {
    u64 a = n * X1; int r = (int)n / 16;
    for (int i = 0; i < 8; ++i) a += mix16(p + 16 * i, K + 16 * i, seed);
    a = xav3(a);
    for (int i = 8; i < r; ++i) a += mix16(p + 16 * i, K + 16 * (i - 8) + 3, seed);
    a += mix16(p + n - 16, K + 136 - 17, seed);
    return xav3(a);
  }
  unsigned char s[192]; custom(s, seed);
  Long L = xlong(p, n, s);
  return xmerge(L, s + 11, n * X1);
}
inline P mix32(P a, const unsigned char* x, const unsigned char* y, const unsigned char* s, u64 seed) {
  a.h1 += mix16(x, s, seed); a.h1 ^= le8(y) + le8(y + 8);
  a.h2 += mix16(y, s + 16, seed); a.h2 ^= le8(x) + le8(x + 8);
  return a;
}
inline P xfin(P a, size_t n, u64 seed) { u64 lo = a.h1 + a.h2, hi = a.h1 * X1 + a.h2 * X4 + (n - seed) * X2; return {xav3(lo), (u64)0 - xav3(hi)}; }
inline P xxh3_128(const unsigned char* p, size_t n, u64 seed) {
  const unsigned char* K = ks();
  if (n == 0) return {xav64(seed ^ ks2(64, 72)), xav64(seed ^ ks2(80, 88))};
  if (n <= 3) {
    u64 lo = c13(p, n), hi = bswap(lo, 4); hi = ((hi << 13) | (hi >> 19)) & 0xffffffffu;
    return {xav64(lo ^ ((le(K, 4) ^ le(K + 4, 4)) + seed)), xav64(hi ^ ((le(K + 8, 4) ^ le(K + 12, 4)) - seed))};
  }
  if (n <= 8) {
    seed ^= bswap(seed & 0xffffffffu, 4) << 32;
    u64 in = le(p, 4) + (le(p + n - 4, 4) << 32);
    P m = mul(in ^ (ks2(16, 24) + seed), X1 + ((u64)n << 2));
    m.h2 += m.h1 << 1; m.h1 ^= m.h2 >> 3;
    m.h1 ^= m.h1 >> 35; m.h1 *= PM2; m.h1 ^= m.h1 >> 28;
    return {m.h1, xav3(m.h2)};
  }
  if (n <= 16) {
    u64 lo = le8(p), hi = le8(p + n - 8);
    P m = mul(lo ^ hi ^ (ks2(32, 40) - seed), X1);
    m.h1 += (u64)(n - 1) << 54;
    hi ^= ks2(48, 56) + seed;
    m.h2 += hi + (hi & 0xffffffffu) * (Y2 - 1);
    m.h1 ^= bswap(m.h2, 8);
    P h = mul(m.h1, X2); h.h2 += m.h2 * X2;
    return {xav3(h.h1), xav3(h.h2)};
  }
  if (n <= 128) {
    P a = {n * X1, 0};
    for (int i = (int)(n - 1) / 32; i >= 0; --i) a = mix32(a, p + 16 * i, p + n - 16 * (i + 1), K + 32 * i, seed);
    return xfin(a, n, seed);
  }
  if (n <= 240) {
    P a = {n * X1, 0}; int r = (int)n / 32;
    for (int i = 0; i < 4; ++i) a = mix32(a, p + 32 * i, p + 32 * i + 16, K + 32 * i, seed);
    a = {xav3(a.h1), xav3(a.h2)};
    for (int i = 4; i < r; ++i) a = mix32(a, p + 32 * i, p + 32 * i + 16, K + 3 + 32 * (i - 4), seed);
    a = mix32(a, p + n - 16, p + n - 32, K + 136 - 17 - 16, (u64)0 - seed);
    return xfin(a, n, seed);
  }
  unsigned char s[192]; custom(s, seed);
  Long L = xlong(p, n, s);
  return {xmerge(L, s + 11, n * X1), xmerge(L, s + 192 - 64 - 11, ~(n * X2))};
}

// ---- in-house: mumbo / jumbo / dumbo (square roots of the first sixteen primes)
constexpr u64 MS[16] = {0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179,
                        0xCBBB9D5DC1059ED8, 0x629A292A367CD507, 0x9159015A3070DD17, 0x152FECD8F70E5939, 0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7, 0x47B5481DBEFA4FA4};
inline P small(const unsigned char* p, size_t n) {
  u64 v;
  if (n >= 9) return {le8(p), le8(p + n - 8)};
  if (n == 8) { v = le8(p); return {v, v}; }
  if (n >= 4) return {le(p, 4), le(p + n - 4, 4)};
  if (n == 0) return {0, 0};
  v = (u64)p[0] << 45;
  if (n == 3) v |= ((u64)p[1] << 8) | p[2];
  if (n == 2) v |= ((u64)p[1] << 8) | p[0];
  if (n == 1) v |= p[0];
  return {v, v};
}
inline u64 mfin(u64 a, u64 b, u64 seed, u64 n) { P m = mul(a ^ MS[2] ^ n, b ^ seed); return fold(m.h1 ^ MS[3] ^ n, m.h2 ^ MS[1]); }
inline u64 mfin2(u64 a, u64 b, u64 seed, u64 n) { P m = mul(b ^ MS[10] ^ n, a ^ seed); return fold(m.h1 ^ MS[11] ^ n, m.h2 ^ MS[9]); }
inline u64 mumbo(const unsigned char* p, size_t n, u64 seed) {
  seed = fold(seed ^ MS[0], MS[1]);
  if (n <= 16) { P s = small(p, n); return mfin(s.h1, s.h2, seed, n); }
  size_t i = 0;
  if (n >= 128) {
    u64 c[8]; for (int k = 0; k < 8; ++k) c[k] = seed ^ MS[8 + k];
    for (; i + 128 <= n; i += 128) for (int k = 0; k < 8; ++k) c[k] = fold(le8(p + i + 16 * k) ^ MS[4 + k], le8(p + i + 16 * k + 8) ^ c[k]);
    seed = 0; for (u64 x : c) seed ^= x;
  }
  for (; n - i > 16; i += 16) seed = fold(le8(p + i) ^ MS[1], le8(p + i + 8) ^ seed);
  return mfin(le8(p + n - 16), le8(p + n - 8), seed, n);
}
inline P jumbo(const unsigned char* p, size_t n, u64 seed) {
  u64 s1 = fold(seed ^ MS[2], MS[3]), s2 = fold(seed ^ MS[8], MS[9]);
  if (n <= 16) { P s = small(p, n); return {mfin(s.h1, s.h2, s1, n), mfin2(s.h1, s.h2, s2, n)}; }
  size_t i = 0;
  if (n >= 64) {
    u64 c[4] = {s1 ^ MS[8], s1 ^ MS[9], s2 ^ MS[10], s2 ^ MS[11]};
    for (; i + 64 <= n; i += 64) for (int k = 0; k < 4; ++k) c[k] = fold(le8(p + i + 16 * k) ^ MS[4 + k], le8(p + i + 16 * k + 8) ^ c[k]);
    s1 = c[0] ^ c[1] ^ c[2] ^ c[3];
    s2 = fold(c[0] ^ MS[12], c[2] ^ MS[13]) ^ fold(c[1] ^ MS[14], c[3] ^ MS[15]);
  }
  for (; n - i > 16; i += 16) { u64 x = le8(p + i), y = le8(p + i + 8); s1 = fold(x ^ MS[1], y ^ s1); s2 = fold(y ^ MS[9], x ^ s2); }
  u64 a = le8(p + n - 16), b = le8(p + n - 8);
  return {mfin(a, b, s1, n), mfin2(a, b, s2, n)};
}
inline u64 dumbo(const unsigned char* p, size_t n, u64 seed) {
  const u64 I = 0x9E3779B97F4A7C15ULL, W = 0xBB67AE8584CAA73BULL, S = 0x3C6EF372FE94F82BULL;
  u64 h = seed ^ I; size_t i = 0;
  for (; n - i > 8; i += 8) h = fold(le8(p + i) ^ W, h ^ S);
  h = fold(le(p + i, n - i) ^ W, h ^ S);   // the last 1..8 bytes (or none), little endian, zero extended
  P m = mul(h ^ W ^ n, seed ^ S);
  return fold(m.h1 ^ S ^ n, m.h2 ^ W ^ seed);
}
}  // namespace ref
