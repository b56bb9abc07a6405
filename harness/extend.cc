// T05: aggregates decompose into their fields; the extenders compare, hash and build by those fields.
#include <array>
#include <compare>
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include "mbo/types/extend.h"
#include "mbo/types/tuple_extras.h"
#include "structs.h"
#include "sx.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
using mbo::types::StructToTuple;
namespace {
#ifdef MBO_ENGINE
std::ios_base::Init streams_ready;
#endif
const char* nm(const char* base, unsigned i) { static char pool[32][16]; static int n = 0; char* p = pool[n++ & 31]; int k = 0; while (base[k] && k < 12) { p[k] = base[k]; ++k; } p[k++] = static_cast<char>('a' + i % 26); p[k] = 0; return p; }
}  // namespace

#ifdef DO_SIZES
template <class S, std::size_t N> void sizes() {
  S s, copy; if constexpr (N > 0) { sx_make(&s, sizeof s, "s"); copy = s; }
  auto check = [](const auto& t, const S& at) {
    sx_assert(std::tuple_size_v<std::remove_cvref_t<decltype(t)>> == N, "the tuple has another size than the struct has fields");
    [&]<std::size_t... I>(std::index_sequence<I...>) {
      (sx_assert(static_cast<const void*>(&std::get<I>(t)) == addr(at, I, N), "a tuple element is not the field at its position"), ...);
      (sx_assert(sizeof(std::get<I>(t)) == (I % 2 ? 2 : 1), "a tuple element has another type than its field"), ...);
    }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{});
  };
  check(StructToTuple(s), s);
  check(StructToTuple(std::as_const(s)), s);
  const auto v = StructToTuple(std::move(copy));
  sx_assert(std::tuple_size_v<std::remove_cvref_t<decltype(v)>> == N, "the tuple of an rvalue has another size");
  [&]<std::size_t... I>(std::index_sequence<I...>) {
    (sx_assert(std::memcmp(&std::get<I>(v), addr(s, I, N), I % 2 ? 2 : 1) == 0, "the tuple of an rvalue has another value"), ...);
  }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(v)>>>{});
  sx_assert(mbo::types::CanCreateTuple<S>, "CanCreateTuple denies a plain struct");
  sx_cover("decomposed");
}
SX_JOB decompose() {
  switch (sx_param(0)) {
#define C(N) case N: sizes<P##N, N>(); break;
#ifndef MAXN
#define MAXN 40
#endif
    C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13)
#if MAXN > 13
    C(14) C(15) C(16) C(17) C(18) C(19) C(20)
    C(21) C(22) C(23) C(24) C(25) C(26) C(27) C(28) C(29) C(30) C(31) C(32) C(33) C(34) C(35) C(36) C(37) C(38) C(39) C(40)
#endif
  }
}
#endif

#ifdef DO_KINDS
struct Empty {};
struct Arr { uint8_t a; uint16_t b[3]; uint8_t c; };
struct StdArr { std::array<uint8_t, 3> a; uint32_t b; };
struct Nested { Arr a; struct { uint8_t x, y; } b; uint16_t c; };
struct Based : Empty { uint8_t a; uint32_t b; };
struct Str { std::string a; std::optional<uint16_t> b; std::string c; };
struct Own { std::unique_ptr<uint8_t> a; uint8_t b; };
struct Ref { uint8_t& a; const uint16_t& b; uint8_t c; };
struct Ptr { const uint8_t* a; uint8_t b; };
struct OneArr { uint8_t a[2]; };
template <class T, class... F> void same(T&& t, const F&... f) {
  sx_assert(std::tuple_size_v<std::remove_cvref_t<T>> == sizeof...(F), "the tuple has another size than the struct has fields");
  if constexpr (std::tuple_size_v<std::remove_cvref_t<T>> == sizeof...(F)) {
    const void* want[] = {static_cast<const void*>(&f)...};
    [&]<std::size_t... I>(std::index_sequence<I...>) { (sx_assert(static_cast<const void*>(&std::get<I>(t)) == want[I], "a tuple element is not the field at its position"), ...); }(std::make_index_sequence<sizeof...(F)>{});
  }
}
SX_JOB kinds() {
  switch (sx_param(0)) {
#ifndef IS_CLANGD
    case 0: { Arr s; sx_make(&s, sizeof s, "s"); same(StructToTuple(s), s.a, s.b, s.c); same(StructToTuple(std::as_const(s)), s.a, s.b, s.c); break; }
#endif
    case 1: { StdArr s; sx_make(&s, sizeof s, "s"); same(StructToTuple(s), s.a, s.b); same(StructToTuple(std::as_const(s)), s.a, s.b); break; }
    case 2: { Nested s; sx_make(&s, sizeof s, "s"); same(StructToTuple(s), s.a, s.b, s.c); break; }
    case 3: { Based s; sx_make(&s, sizeof s, "s"); same(StructToTuple(s), s.a, s.b); same(StructToTuple(std::as_const(s)), s.a, s.b); break; }
    case 4: { sx::Buf a(2, "a"), c(1, "c"); Str s{std::string(a.sv()), sx::flag("h") ? std::optional<uint16_t>(sx::make<uint16_t>("b")) : std::nullopt, std::string(c.sv())}; const Str k = s;
      same(StructToTuple(s), s.a, s.b, s.c); same(StructToTuple(k), k.a, k.b, k.c);
      auto t = StructToTuple(std::move(s)); sx_assert(std::get<0>(t) == k.a && std::get<1>(t) == k.b && std::get<2>(t) == k.c, "the tuple of an rvalue has another value"); break; }
    case 5: { const uint8_t v = sx::make<uint8_t>("v"), w = sx::make<uint8_t>("w"); Own s{std::make_unique<uint8_t>(v), w}; same(StructToTuple(s), s.a, s.b); auto t = StructToTuple(std::move(s)); sx_assert(std::get<0>(t) && *std::get<0>(t) == v && std::get<1>(t) == w, "the tuple of an rvalue has another value"); sx_assert(!s.a, "the rvalue was not moved from"); break; }
#ifndef IS_CLANGD
    case 6: { uint8_t a = sx::make<uint8_t>("a"); uint16_t b = sx::make<uint16_t>("b"); Ref s{a, b, sx::make<uint8_t>("c")}; same(StructToTuple(s), a, b, s.c); break; }
#endif
    case 7: { uint8_t a = sx::make<uint8_t>("a"); Ptr s{&a, sx::make<uint8_t>("c")}; same(StructToTuple(s), s.a, s.b); break; }
#ifndef IS_CLANGD
    case 8: { OneArr s; sx_make(&s, sizeof s, "s"); same(StructToTuple(s), s.a); break; }
#endif
    default: { Empty e; sx_assert(std::tuple_size_v<decltype(StructToTuple(e))> == 0, "an empty struct has fields"); break; }
  }
  sx_cover("kinds");
}
#endif

#ifdef DO_EXTEND
struct E1 : mbo::types::Extend<E1> { int32_t a; };
struct E2 : mbo::types::Extend<E2> { uint8_t a; int16_t b; auto Rvalue() && { return std::move(*this).ToTuple(); } };
struct E3 : mbo::types::Extend<E3> { uint8_t a; std::string b; int32_t c; };
struct E6 : mbo::types::ExtendNoPrint<E6> { uint8_t a, b, c, d, e; int8_t f; };
struct EC : mbo::types::ExtendNoDefault<EC, mbo::types::extender::Comparable> { int8_t a; uint16_t b; };
struct Q2 { uint8_t a; int16_t b; };
template <class T> int cmp(const T& a, const T& b) { return a < b ? -1 : b < a; }
template <class... A> int lex(const std::tuple<A...>& a, const std::tuple<A...>& b) {
  int r = 0; [&]<std::size_t... I>(std::index_sequence<I...>) { ((r = r ? r : cmp(std::get<I>(a), std::get<I>(b))), ...); }(std::make_index_sequence<sizeof...(A)>{}); return r;
}
template <class A, class B> void relations(const A& a, const B& b, int want) {
  sx_assert((a == b) == (want == 0), "== is not equality of all fields"); sx_assert((a != b) == (want != 0), "!= is not inequality of the fields");
  sx_assert((a < b) == (want < 0), "< is not the order of the fields"); sx_assert((a > b) == (want > 0), "> is not the order of the fields");
  sx_assert((a <= b) == (want <= 0), "<= is not the order of the fields"); sx_assert((a >= b) == (want >= 0), ">= is not the order of the fields");
  const auto o = a <=> b; sx_assert((o < 0) == (want < 0) && (o == 0) == (want == 0), "<=> is not the order of the fields");
}
template <class E, class T> void pair(const E& a, const E& b, const T& ta, const T& tb) {
  const int want = lex(ta, tb); relations(a, b, want);
  if constexpr (mbo::types::types_internal::HasExtender<E, mbo::types::extender::AbslHashable>) if (want == 0) sx_assert(absl::HashOf(a) == absl::HashOf(b) && std::hash<E>()(a) == std::hash<E>()(b), "equal values have different hashes");
  sx_cover("extended");
}
SX_JOB relate() {
  switch (sx_param(0)) {
    case 0: { E1 a{{}, sx::make<int32_t>("a")}, b{{}, sx::make<int32_t>("b")}; pair(a, b, std::tuple(a.a), std::tuple(b.a)); break; }
    case 1: { E2 a{{}, sx::make<uint8_t>("a"), sx::make<int16_t>("b")}, b{{}, sx::make<uint8_t>("c"), sx::make<int16_t>("d")}; pair(a, b, std::tuple(a.a, a.b), std::tuple(b.a, b.b)); break; }
    case 2: { sx::Buf x(sx_choice(3, "n"), "x"), y(sx_choice(3, "m"), "y"); E3 a{{}, sx::make<uint8_t>("a"), std::string(x.sv()), sx::make<int32_t>("b")}, b{{}, sx::make<uint8_t>("c"), std::string(y.sv()), sx::make<int32_t>("d")}; pair(a, b, std::tuple(a.a, a.b, a.c), std::tuple(b.a, b.b, b.c)); break; }
    case 3: { uint8_t v[12]; sx_make(v, 12, "v"); E6 a{{}, v[0], v[1], v[2], v[3], v[4], static_cast<int8_t>(v[5])}, b{{}, v[6], v[7], v[8], v[9], v[10], static_cast<int8_t>(v[11])}; pair(a, b, std::tuple(a.a, a.b, a.c, a.d, a.e, a.f), std::tuple(b.a, b.b, b.c, b.d, b.e, b.f)); break; }
    case 4: { EC a{{}, sx::make<int8_t>("a"), sx::make<uint16_t>("b")}, b{{}, sx::make<int8_t>("c"), sx::make<uint16_t>("d")}; pair(a, b, std::tuple(a.a, a.b), std::tuple(b.a, b.b)); break; }
    default: { E2 a{{}, sx::make<uint8_t>("a"), sx::make<int16_t>("b")}; const Q2 q{sx::make<uint8_t>("c"), sx::make<int16_t>("d")}; relations(a, q, lex(std::tuple(a.a, a.b), std::tuple(q.a, q.b))); sx_cover("other struct"); break; }
  }
}
SX_JOB construct() {
  const uint8_t a = sx::make<uint8_t>("a"); const int32_t c = sx::make<int32_t>("c"); sx::Buf b(2, "b"); const std::string s(b.sv());
  { E3 e = E3::ConstructFromArgs(a, s, c); sx_assert(e.a == a && e.b == s && e.c == c, "ConstructFromArgs"); }
  { E3 e = E3::ConstructFromTuple(std::make_tuple(a, s, c)); sx_assert(e.a == a && e.b == s && e.c == c, "ConstructFromTuple"); }
  { E3 e = E3::ConstructFromConversions(a, b.sv(), c); sx_assert(e.a == a && e.b == s && e.c == c, "ConstructFromConversions"); }
  { const int16_t w = sx::make<int16_t>("w"); E2 e{{}, a, w}; const auto t = std::move(e).Rvalue(); sx_assert(std::tuple_size_v<std::remove_cvref_t<decltype(t)>> == 2, "ToTuple of an rvalue loses the fields"); if constexpr (std::tuple_size_v<std::remove_cvref_t<decltype(t)>> == 2) sx_assert(std::get<0>(t) == a && std::get<1>(t) == w, "ToTuple of an rvalue has other values"); }
  sx_cover("constructed");
}
#endif
