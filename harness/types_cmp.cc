// T01, T02: scalar and float comparison against the mathematical order.
#include <cmath>
#include <limits>
#include <string>
#include <string_view>
#include <vector>
#include "sx.h"
#include "mbo/types/compare.h"
using namespace mbo::types;
using i128 = __int128;
namespace {
int ord(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
// Branch-free reading of an ordering: -1, 0 or 1.
int ordv(std::strong_ordering o) { signed char c; static_assert(sizeof(o) == 1); __builtin_memcpy(&c, &o, 1); return c; }
template<typename T> T sym(const char* n) { if constexpr (std::same_as<T, bool>) { return (sx_u64(n) & 1) != 0; } else { T v; sx_make(&v, sizeof v, n); return v; } }
int cmpi(i128 a, i128 b) { return static_cast<int>(a > b) - static_cast<int>(a < b); }
template<typename L, typename R> void pair() {
  L l = sym<L>("l"); R r = sym<R>("r");
  int want = cmpi(static_cast<i128>(l), static_cast<i128>(r));
  sx_assert(ord(CompareScalar(l, r)) == want, "CompareScalar differs from the order of the values");
  sx_assert(ord(CompareScalar(r, l)) == -want, "CompareScalar with the arguments exchanged is not the reverse order");
  sx_assert(ord(CompareArithmetic(l, r)) == want, "CompareArithmetic differs from the order of the values");
  sx_assert(ord(CompareIntegral(l, r)) == want, "CompareIntegral differs from the order of the values");
}
template<typename... T> struct List {};
using Ints = List<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t>;
template<typename L, typename R> void maybe() {
  if constexpr (std::same_as<L, R> || (!std::same_as<L, bool> && !std::same_as<R, bool>)) { pair<L, R>(); }
}
template<typename L, typename... R> void row(List<R...>, size_t j) { size_t i = 0; ((i++ == j ? maybe<L, R>() : void()), ...); }
template<typename... L> void grid(List<L...> l, size_t i, size_t j) { size_t k = 0; ((k++ == i ? row<L>(l, j) : void()), ...); }

// Exact comparison of a binary floating value with another, as a sign and a magnitude m*2^e.
template<typename F> struct Dec { bool nan, inf, neg; uint64_t m; int e; };
template<typename F> Dec<F> dec(F f) {
  Dec<F> d{};
  if constexpr (sizeof(F) == 4) {
    uint32_t b; __builtin_memcpy(&b, &f, 4); uint32_t x = b >> 23 & 0xff, m = b & 0x7fffff; d.neg = b >> 31; d.nan = x == 255 && m; d.inf = x == 255 && !m; d.m = x ? m | 0x800000U : m; d.e = (x ? static_cast<int>(x) : 1) - 150;
  } else if constexpr (sizeof(F) == 8) {
    uint64_t b; __builtin_memcpy(&b, &f, 8); uint64_t x = b >> 52 & 0x7ff, m = b & 0xfffffffffffffULL; d.neg = b >> 63; d.nan = x == 2047 && m; d.inf = x == 2047 && !m; d.m = x ? m | 0x10000000000000ULL : m; d.e = (x ? static_cast<int>(x) : 1) - 1075;
  }
  return d;
}
// Order of an integer and a floating value; NaN greatest. The magnitudes are compared by their leading bit, then bit by bit.
template<typename I, typename F> void mixed() {
  constexpr int fb = sizeof(F) == 4 ? 24 : 53, bits = std::same_as<I, bool> ? 1 : 8 * sizeof(I);
  // the integer, by the bit length of its magnitude and its sign
  bool nneg = std::is_signed_v<I> && sx_choice(2, "negative");
  int k = static_cast<int>(nneg ? 1 + sx_choice(bits, "length") : sx_choice(bits + 1 - std::is_signed_v<I>, "length"));
  uint64_t mag = k == 0 ? 0 : uint64_t{1} << (k - 1);
  if (nneg && k == bits) {} else if (k > 1) { mag |= sx_u64("n") & (mag - 1); }
  I n = static_cast<I>(nneg ? 0 - mag : mag);
  // the float: either of the same bit length as the integer, or any other
  F f; Dec<F> d; constexpr int bias = sizeof(F) == 4 ? 126 : 1022;
  using U = std::conditional_t<sizeof(F) == 4, uint32_t, uint64_t>;
  if (k > 0 && sx_choice(2, "same")) {
    U fbits = static_cast<U>((static_cast<U>(k + bias) << (fb - 1)) | (static_cast<U>(sx_u64("f")) & ((U{1} << (fb - 1)) - 1)) | (static_cast<U>(sx_choice(2, "fneg")) << (sizeof(U) * 8 - 1)));
    __builtin_memcpy(&f, &fbits, sizeof f); d = dec(f);
  } else {
    f = sym<F>("f"); d = dec(f); if (k > 0) { sx_assume(d.e + fb != k); }
  }
  int fz = d.m == 0 ? 1 : 0, len = d.e + fb;  // value in [2^(len-1), 2^len) for a normal f; below for a subnormal one
  int big;  // order of the magnitudes
  if (k == 0) { big = d.inf | !fz ? -1 : 0; }
  else if (d.inf | (len > k)) { big = -1; if (fz) big = 1; }
  else if (len < k) { big = 1; }
  else { uint64_t x = mag << (64 - k), y = d.m << (64 - fb); big = static_cast<int>(x > y) - static_cast<int>(x < y); }
  int fs = fz ? 0 : d.neg ? -1 : 1, ns = k == 0 ? 0 : nneg ? -1 : 1;
  int want = d.nan ? -1 : ns != fs ? cmpi(ns, fs) : ns < 0 ? -big : big;
  sx_assert(ord(CompareScalar(n, f)) == want, "CompareScalar of an integer with a float is not the order of the values");
  sx_assert(ord(CompareScalar(f, n)) == -want, "CompareScalar of a float with an integer is not the order of the values");
}
template<typename F, typename... I> void mixrow(List<I...>, size_t i) { size_t k = 0; ((k++ == i ? mixed<I, F>() : void()), ...); }

// The documented order of floats, from the bits: NaNs equal and greatest, zeros equal.
template<typename F> int cmpf(F a, F b) {
  using U = std::conditional_t<sizeof(F) == 4, uint32_t, uint64_t>; using S = std::make_signed_t<U>;
  U x, y; __builtin_memcpy(&x, &a, sizeof x); __builtin_memcpy(&y, &b, sizeof y);
  constexpr U top = U{1} << (sizeof(U) * 8 - 1); constexpr U inf = sizeof(F) == 4 ? static_cast<U>(0x7f800000U) : static_cast<U>(0x7ff0000000000000ULL);
  bool nx = (x & ~top) > inf, ny = (y & ~top) > inf;
  if (nx | ny) return static_cast<int>(nx) - static_cast<int>(ny);
  S sx = (x & top) ? -static_cast<S>(x & ~top) : static_cast<S>(x), sy = (y & top) ? -static_cast<S>(y & ~top) : static_cast<S>(y);
  return static_cast<int>(sx > sy) - static_cast<int>(sx < sy);
}
template<typename F> void total() {
  F a = sym<F>("a"), b = sym<F>("b");
  int want = cmpf(a, b);
  sx_assert(ord(CompareFloat(a, b)) == want, "CompareFloat is not the documented order");
  sx_assert(ord(CompareFloat(b, a)) == -want, "CompareFloat with the arguments exchanged is not the reverse");
  sx_assert(ord(CompareScalar(a, b)) == want, "CompareScalar of two floats is not the documented order");
  sx_assert(ord(CompareArithmetic(a, b)) == want, "CompareArithmetic of two floats is not the documented order");
}
template<typename F> void trans() {
  F a = sym<F>("a"), b = sym<F>("b"), c = sym<F>("c");
  int ab = ordv(CompareFloat(a, b)), bc = ordv(CompareFloat(b, c)), ac = ordv(CompareFloat(a, c));
  sx_assert(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "CompareFloat is not transitive");
  sx_assert(!((ab == 0) & (bc == 0)) | (ac == 0), "CompareFloat equivalence is not transitive");
  sx_assert(!((ab <= 0) & (bc < 0)) | (ac < 0), "CompareFloat is not transitive (strict)");
  sx_assert(ordv(CompareFloat(a, a)) == 0, "CompareFloat of a value with itself is not equal");
}
long double mk80(const char* n) {
  struct { uint64_t m; uint16_t se; } p; p.m = sx_u64(n); p.se = static_cast<uint16_t>(sx_u64(*n == 'a' ? "asign" : *n == 'b' ? "bsign" : "csign"));
  // canonical encodings only: the integer bit is set exactly when the exponent is not zero
  sx_assume(((p.m >> 63) != 0) == ((p.se & 0x7fff) != 0));
  long double v; __builtin_memset(&v, 0, sizeof v); __builtin_memcpy(&v, &p, 10); return v;
}
}  // namespace

SX_JOB cmp_int() { grid(Ints{}, sx_param(0), sx_param(1)); }
SX_JOB cmp_mixed() { if (sx_param(0)) { mixrow<double>(Ints{}, sx_param(1)); } else { mixrow<float>(Ints{}, sx_param(1)); } }
SX_JOB cmp_float_double() {
  float a = sym<float>("a"); double b = sym<double>("b"); int want = cmpf<double>(static_cast<double>(a), b);
  sx_assert(ord(CompareScalar(a, b)) == want, "CompareScalar of float and double is not the order of the values");
  sx_assert(ord(CompareScalar(b, a)) == -want, "CompareScalar of double and float is not the order of the values");
}
SX_JOB cmp_float() { if (sx_param(0)) { total<double>(); } else { total<float>(); } }
SX_JOB cmp_float_trans() { if (sx_param(0)) { trans<double>(); } else { trans<float>(); } }
SX_JOB cmp_long() {
  long double a = mk80("a"), b = mk80("b"), c = mk80("c");
  bool na = a != a, nb = b != b;
  int want = na | nb ? static_cast<int>(na) - static_cast<int>(nb) : static_cast<int>(a > b) - static_cast<int>(a < b);
  int ab = ordv(CompareFloat(a, b)), bc = ordv(CompareFloat(b, c)), ac = ordv(CompareFloat(a, c));
  sx_assert(ab == want, "CompareFloat of two long doubles is not the documented order");
  sx_assert(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "CompareFloat of long doubles is not transitive");
}
SX_JOB weak() {
  std::weak_ordering w[3] = {std::weak_ordering::less, std::weak_ordering::equivalent, std::weak_ordering::greater};
  int s[3] = {-1, 0, 1}; size_t i = sx_choice(3, "order");
  sx_assert(ord(WeakToStrong(w[i])) == s[i], "WeakToStrong changes the order");
}
SX_JOB less_int() {
  int a = sym<int>("a"), b = sym<int>("b"); long c = sym<long>("c"); unsigned u = sym<unsigned>("u"), v = sym<unsigned>("v");
  CompareLess<int> l; CompareLess<unsigned> m; CompareLess<double> d; double x = sym<double>("x"), y = sym<double>("y");
  sx_assert(l(a, b) == (a < b), "CompareLess differs from <"); sx_assert(ord(l.Compare(a, b)) == ord(a <=> b), "CompareLess::Compare differs from <=>");
  sx_assert(l(a, c) == (a < c), "CompareLess differs from < for another type"); sx_assert(l(c, a) == (c < a), "CompareLess differs from < for another type on the left");
  sx_assert(ord(l.Compare(a, c)) == ord(a <=> c), "CompareLess::Compare differs from <=> for another type"); sx_assert(ord(l.Compare(c, a)) == ord(c <=> a), "CompareLess::Compare differs from <=> for another type on the left");
  sx_assert(m(u, v) == (u < v), "CompareLess differs from < for unsigned");
  sx_assert(d(x, y) == (x < y), "CompareLess differs from < for double"); sx_assert(d.Compare(x, y) == (x <=> y), "CompareLess::Compare differs from <=> for double");
}
SX_JOB less_text() {
  sx::Buf p(sx_param(0), "p"), q(sx_param(1), "q"); std::string_view s = p.sv(), t = q.sv(); std::string ss(s), tt(t);
  int want = s < t ? -1 : t < s ? 1 : 0;
  CompareLess<std::string> l; CompareLess<std::string_view> m;
  sx_assert(l(ss, tt) == (want < 0), "CompareLess of strings differs from <"); sx_assert(l(ss, t) == (want < 0), "CompareLess of a string and a view differs from <"); sx_assert(l(s, tt) == (want < 0), "CompareLess of a view and a string differs from <");
  sx_assert(m(s, t) == (want < 0), "CompareLess of views differs from <"); sx_assert(m(ss, t) == (want < 0), "CompareLess of a string and views differs from <");
  sx_assert(ord(l.Compare(ss, tt)) == want, "CompareLess::Compare of strings differs from <=>"); sx_assert(ord(l.Compare(ss, t)) == want, "CompareLess::Compare of a string and a view differs from <=>"); sx_assert(ord(l.Compare(s, tt)) == want, "CompareLess::Compare of a view and a string differs from <=>");
}
