// Element types for the container harnesses.
#pragma once
#include <compare>
#include <cstdint>
#include "sx.h"
// Owns one heap cell from construction to destruction, also after having been moved from: a missed destruction leaks,
// a second one frees twice, and every use of a dead element touches freed or uninitialised memory.
struct Tok {
  static constexpr uint32_t kMoved = 0xdeadbeefU;
  uint32_t* p;
  Tok() : p(new uint32_t(0)) {}
  Tok(uint32_t v) : p(new uint32_t(v)) {}
  Tok(const Tok& o) : p(new uint32_t(*o.p)) {}
  Tok(Tok&& o) noexcept : p(new uint32_t(*o.p)) { *o.p = kMoved; }
  Tok& operator=(const Tok& o) { *p = *o.p; return *this; }
  Tok& operator=(Tok&& o) noexcept { uint32_t v = *o.p; *o.p = kMoved; *p = v; return *this; }
  ~Tok() { *p = kMoved; delete p; }
  friend bool operator==(const Tok& a, const Tok& b) { return *a.p == *b.p; }
  friend std::strong_ordering operator<=>(const Tok& a, const Tok& b) { return *a.p <=> *b.p; }
};
inline uint32_t val(uint32_t v) { return v; }
inline uint32_t val(uint64_t v) { return static_cast<uint32_t>(v); }
inline uint32_t val(const Tok& t) { return *t.p; }
// The model: a plain array.
struct Model {
  uint32_t v[64]; size_t n = 0;
  void push(uint32_t x) { v[n++] = x; }
  void ins(size_t p, size_t c, const uint32_t* x, bool rep) { for (size_t i = n; i > p; --i) v[i - 1 + c] = v[i - 1]; for (size_t i = 0; i < c; ++i) v[p + i] = rep ? x[0] : x[i]; n += c; }
  void del(size_t p, size_t c) { for (size_t i = p + c; i < n; ++i) v[i - c] = v[i]; n -= c; }
};
inline const char* nm(const char* base, size_t i) {
  static char b[40]; size_t k = 0; while (base[k]) { b[k] = base[k]; ++k; }
  if (i >= 10) b[k++] = static_cast<char>('0' + i / 10);
  b[k++] = static_cast<char>('0' + i % 10); b[k] = 0; return b;
}
inline uint32_t u32(const char* base, size_t i) { uint32_t v; sx_make(&v, 4, nm(base, i)); return v; }
