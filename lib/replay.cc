// Native side of the harness API: inputs come from a file ("name v v v" per line), in order.
#include "sx.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
#include <vector>
#include <dlfcn.h>
static std::vector<std::pair<std::string, std::vector<uint64_t>>> gIn; static size_t gPos; static std::vector<uint64_t> gParams; static volatile int gExpect; static volatile long gLive;
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
static void onMalloc(const volatile void*, size_t) { gLive = gLive + 1; }
static void onFree(const volatile void* p) { if (p) gLive = gLive - 1; }
#endif
static void out(const char* s) { (void)!write(1, s, strlen(s)); }
static std::vector<uint64_t>& next(const char* name) {
  if (gPos >= gIn.size() || gIn[gPos].first != name) { out("REPLAY-MISMATCH input "); out(name); out("\n"); _exit(77); }
  return gIn[gPos++].second;
}
extern "C" {
void sx_make(void* p, size_t n, const char* name) { if (!n) return; auto& v = next(name); if (v.size() != n) { out("REPLAY-MISMATCH size\n"); _exit(77); } for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)v[i]; }
uint64_t sx_range(uint64_t lo, uint64_t hi, const char* name) { if (lo >= hi) return lo; return next(name)[0]; }
uint64_t sx_choice(uint64_t, const char* name) { return next(name)[0]; }
uint64_t sx_u64(const char* name) { return next(name)[0]; }
void sx_assume(bool c) { if (!c) { out("REPLAY-MISMATCH assume\n"); _exit(77); } }
void sx_fail(const char* m) { out("REPLAY-VIOLATION "); out(m); out("\n"); _exit(1); }
void sx_assert(bool c, const char* m) { if (!c) sx_fail(m); }
void sx_assert_eq(const void* a, const void* b, size_t n, const char* m) { if (n && memcmp(a, b, n)) sx_fail(m); }
void sx_cover(const char*) {}
void sx_expect_abort(int on) { gExpect = on; }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_param(unsigned i) { return i < gParams.size() ? gParams[i] : 0; }
uint64_t sx_live_allocs() { return gLive; }
void sx_trace(uint64_t v) { char b[40]; int n = snprintf(b, sizeof b, "TRACE %llu\n", (unsigned long long)v); (void)!write(1, b, n); }
int sx_engine() { return 0; }
void sx_print(const char* m, uint64_t v) { char b[400]; int n = snprintf(b, sizeof b, "PRINT %s %llu\n", m, (unsigned long long)v); (void)!write(1, b, n); }
int sx_feasible(bool c) { return c; }
void sx_havoc(void* p, size_t n) { memset(p, 0xA5, n); }
}
static void onAbort(int sig) {
  if (gExpect) { out("REPLAY-EXPECTED-ABORT\n"); _exit(0); }
  out("REPLAY-VIOLATION abort\n"); _exit(1); (void)sig;
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2;
  char* line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {  // first line: params
    std::vector<uint64_t> v; char* p = strtok(line, " \n"); std::string nm = p ? p : "";
    while ((p = strtok(nullptr, " \n"))) v.push_back(strtoull(p, nullptr, 10));
    if (nm == "params" && gIn.empty() && gParams.empty()) gParams = v; else gIn.push_back({nm, v});
  }
  free(line); fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { out("REPLAY-MISMATCH entry\n"); return 77; }
  signal(SIGABRT, onAbort); signal(SIGTRAP, onAbort); signal(SIGILL, onAbort);
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  fn();
  out("REPLAY-OK\n"); _exit(0);
}
