// Harness API. In the engine these are intrinsics; in a native replay build they read a recorded input file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
extern "C" {
void sx_make(void* p, size_t n, const char* name);                   // n fresh symbolic bytes
uint64_t sx_range(uint64_t lo, uint64_t hi, const char* name);       // symbolic value in [lo, hi]
uint64_t sx_choice(uint64_t n, const char* name);                    // forks into every value of [0, n)
uint64_t sx_u64(const char* name);                                   // symbolic 64 bit value
void sx_assume(bool c);
void sx_assert(bool c, const char* msg);
void sx_assert_eq(const void* a, const void* b, size_t n, const char* msg);  // term equivalence (structural + SAT sweeping)
[[noreturn]] void sx_fail(const char* msg);
void sx_cover(const char* name);
void sx_expect_abort(int on);
uint64_t sx_concretize(uint64_t v);                                  // forks over the feasible values
uint64_t sx_param(unsigned i);                                       // job parameter
uint64_t sx_live_allocs();
void sx_trace(uint64_t v);                                           // compared between engine and native replay
int sx_engine();
void sx_print(const char* msg, uint64_t v);
int sx_feasible(bool c);
void sx_havoc(void* p, size_t n);
}
namespace sx {
template <class X> inline X make(const char* name) { X x; sx_make(&x, sizeof(x), name); return x; }
inline bool flag(const char* name) { return sx_range(0, 1, name) != 0; }
// A buffer of exactly n bytes with symbolic content; reading past it is reported.
struct Buf {
  char* p; size_t n;
  Buf(size_t n_, const char* name) : p(new char[n_]), n(n_) { if (n) sx_make(p, n, name); }
  ~Buf() { delete[] p; }
  Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
  std::string_view sv() const { return {p, n}; }
};
inline bool same(std::string_view a, std::string_view b) { return a.size() == b.size() && (a.size() == 0 || __builtin_memcmp(a.data(), b.data(), a.size()) == 0); }
inline uint64_t mix(std::string_view s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h; }
}  // namespace sx
#define SX_JOB extern "C" void
