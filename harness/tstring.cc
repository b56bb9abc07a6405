// S06: compile-time strings against std::string_view. Run-time arguments are symbolic; for the compile-time ones the compiler evaluates
// the real templates over every string of a small alphabet, and the tables are compared for symbolic strings.
#include <array>
#include <string>
#include <string_view>
#include <utility>
#include "sx.h"
#include "mbo/types/tstring.h"
using namespace mbo::types;
namespace {
using sv = std::string_view;
template<std::size_t Len, std::size_t Bits, typename = std::make_index_sequence<Len>> struct Make;
template<std::size_t Len, std::size_t Bits, std::size_t... I> struct Make<Len, Bits, std::index_sequence<I...>> { using type = tstring<((Bits >> I & 1) ? '\xe1' : 'a')...>; };
template<std::size_t Len, std::size_t Bits> using T = Make<Len, Bits>::type;
struct Res { signed char find, rfind, contains, starts, ends, is, eq, ord; unsigned char clen; };
signed constexpr char s8(std::size_t v) { return v == sv::npos ? -1 : static_cast<signed char>(v); }
template<typename A, typename B> constexpr Res res() {
  constexpr A a; constexpr B b; auto o = a <=> b;
  return {s8(A::find(b)), s8(A::rfind(b)), A::contains(b), A::starts_with(b), A::ends_with(b), A::is(b), a == b, static_cast<signed char>(o < 0 ? -1 : o > 0 ? 1 : 0), static_cast<unsigned char>(decltype(a + b)::size())};
}
template<std::size_t H, std::size_t N, std::size_t... K> constexpr auto table(std::index_sequence<K...>) { return std::array<Res, sizeof...(K)>{res<T<H, (K >> N)>, T<N, (K & ((1U << N) - 1))>>()...}; }
template<std::size_t H, std::size_t N> constexpr auto kTable = table<H, N>(std::make_index_sequence<std::size_t{1} << (H + N)>{});
template<std::size_t H, std::size_t N> void two() {
  uint64_t h = sx_u64("hay") & ((1U << H) - 1), n = sx_u64("needle") & ((1U << N) - 1); Res r = kTable<H, N>[h << N | n];
  char a[H + 1], b[N + 1]; for (std::size_t i = 0; i < H; ++i) a[i] = (h >> i & 1) ? '\xe1' : 'a'; for (std::size_t i = 0; i < N; ++i) b[i] = (n >> i & 1) ? '\xe1' : 'a';
  auto at = [&](std::size_t p) { bool m = p + N <= H; for (std::size_t i = 0; i < N; ++i) if (p + N <= H) m &= a[p + i] == b[i]; return m; };
  int find = -1, rfind = -1; if (N <= H) { for (std::size_t p = 0; p <= H - N; ++p) { bool m = at(p); rfind = m ? static_cast<int>(p) : rfind; find = (find < 0) & m ? static_cast<int>(p) : find; } }
  bool st = at(0), en = N <= H && at(H - N), eq = N == H && st; int ord = 0;
  for (std::size_t i = 0; i < std::min(H, N); ++i) { int c = static_cast<int>(static_cast<unsigned char>(a[i]) > static_cast<unsigned char>(b[i])) - static_cast<int>(static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i])); ord = ord == 0 ? c : ord; }
  ord = ord != 0 ? ord : H < N ? -1 : H > N ? 1 : 0;
  sx_assert(r.find == find, "find differs from string_view::find"); sx_assert(r.rfind == rfind, "rfind differs from string_view::rfind"); sx_assert(r.contains == (find >= 0), "contains differs from a search");
  sx_assert(r.starts == st, "starts_with differs from string_view::starts_with"); sx_assert(r.ends == en, "ends_with differs from string_view::ends_with"); sx_assert(r.is == eq, "is differs from equality"); sx_assert(r.eq == eq, "== differs from string equality");
  sx_assert(r.ord == ord, "<=> differs from the string order"); sx_assert(r.clen == H + N, "the length of a concatenation is not the sum");
}
template<std::size_t H, std::size_t... N> void two(std::size_t n, std::index_sequence<N...>) { ((n == N ? two<H, N>() : void()), ...); }
template<std::size_t... H> void two(std::size_t h, std::size_t n, std::index_sequence<H...>) { ((h == H ? two<H>(n, std::make_index_sequence<4>{}) : void()), ...); }

// Text of concatenations and compile-time substrings.
template<typename X> constexpr std::array<char, 12> text() { std::array<char, 12> r{}; std::size_t i = 0; for (char c : X::str()) r[i++] = c; return r; }
template<std::size_t... K> constexpr auto cats(std::index_sequence<K...>) { return std::array<std::array<char, 12>, sizeof...(K)>{text<decltype(T<3, (K >> 2)>{} + T<2, (K & 3)>{})>()...}; }
constexpr auto kCat = cats(std::make_index_sequence<32>{});
struct Sub { std::array<char, 12> t; unsigned char n; };
template<std::size_t P, std::size_t C> constexpr Sub sub() { using X = decltype(T<5, 0b01101>::template substr<P, C == 7 ? sv::npos : C>()); return {text<X>(), static_cast<unsigned char>(X::size())}; }
template<std::size_t... K> constexpr auto subs(std::index_sequence<K...>) { return std::array<Sub, sizeof...(K)>{sub<(K >> 3), (K & 7)>()...}; }
constexpr auto kSub = subs(std::make_index_sequence<64>{});

template<typename X> void run(std::size_t what, std::size_t n) {
  constexpr X x; std::string_view s = X::str(); const std::size_t L = s.size();
  if (what == 0) {
    sx_assert(X::size() == L, "size differs"); sx_assert(X::length() == L, "length differs"); sx_assert(X::max_size() == L, "max_size differs"); sx_assert(X::empty() == (L == 0), "empty differs"); sx_assert(X::c_str()[L] == 0, "c_str is not terminated"); sx_assert(static_cast<sv>(x) == s, "the conversion differs");
    std::size_t i = 0; for (char c : x) { sx_assert(c == s[i], "iteration differs"); ++i; } sx_assert(i == L, "iteration stops early"); for (auto it = X::rbegin(); it != X::rend(); ++it) { sx_assert(*it == s[--i], "reverse iteration differs"); } sx_assert(i == 0, "reverse iteration stops early");
    i = 0; for (auto it = X::cbegin(); it != X::cend(); ++it) { sx_assert(*it == s[i++], "const iteration differs"); } for (auto it = X::crbegin(); it != X::crend(); ++it) { sx_assert(*it == s[--i], "const reverse iteration differs"); }
    if (L) { sx_assert(&X::front() == s.data(), "front differs"); sx_assert(&X::back() == s.data() + L - 1, "back differs"); sx_assert(X::c_str() == s.data(), "c_str differs"); }
    return;
  }
  uint64_t pos = sx_u64("pos"), cnt = sx_u64("count"); unsigned char cb; sx_make(&cb, 1, "char"); char ch = static_cast<char>(cb);
  auto in = [&](const sx::Buf& b, char c) { bool r = false; for (std::size_t i = 0; i < b.n; ++i) r |= static_cast<char>(b.p[i]) == c; return r; };
  if (what == 1) {
    sv r = X::substr(pos, cnt); std::size_t want = pos >= L ? 0 : std::min<uint64_t>(L - pos, cnt);
    sx_assert(r.size() == want, "substr has the wrong length"); sx_assert((want == 0) | (r.data() == s.data() + pos), "substr starts in the wrong place");
    sv d = X::substr(pos); sx_assert(d.size() == (pos >= L ? 0 : L - pos), "substr to the end has the wrong length");
    std::size_t f = sv::npos, l = sv::npos; for (std::size_t i = 0; i < L; ++i) { bool m = s[i] == ch; f = (f == sv::npos) & m & (i >= pos) ? i : f; l = m & (i <= pos) ? i : l; }
    sx_assert(X::find_first_of(ch, pos) == f, "find_first_of a character differs"); sx_assert(X::find_last_of(ch, pos) == l, "find_last_of a character differs");
    f = l = sv::npos; for (std::size_t i = 0; i < L; ++i) { bool m = s[i] == ch; f = (f == sv::npos) & m ? i : f; l = m ? i : l; }
    sx_assert(X::find_first_of(ch) == f, "find_first_of a character differs (default)"); sx_assert(X::find_last_of(ch) == l, "find_last_of a character differs (default)");
    return;
  }
  sx::Buf b(n, "text"); sv t = b.sv();
  if (what == 2) {
    std::size_t f = sv::npos, l = sv::npos; for (std::size_t i = 0; i < L; ++i) { bool m = in(b, s[i]); f = (f == sv::npos) & m & (i >= pos) ? i : f; l = m & (i <= pos) ? i : l; }
    sx_assert(X::find_first_of(t, pos) == f, "find_first_of a set differs"); sx_assert(X::find_last_of(t, pos) == l, "find_last_of a set differs"); return;
  }
  int ord = 0; for (std::size_t i = 0; i < std::min(L, n); ++i) { int c = static_cast<int>(static_cast<unsigned char>(s[i]) > static_cast<unsigned char>(b.p[i])) - static_cast<int>(static_cast<unsigned char>(s[i]) < static_cast<unsigned char>(b.p[i])); ord = ord == 0 ? c : ord; }
  ord = ord != 0 ? ord : L < n ? -1 : L > n ? 1 : 0;
  auto sgn = [](int v) { return static_cast<int>(v > 0) - static_cast<int>(v < 0); }; std::string str(t);
  sx_assert(sgn(X::compare(t)) == ord, "compare differs from string_view::compare"); sx_assert((x == t) == (ord == 0), "== with a string_view differs"); sx_assert((x != t) == (ord != 0), "!= with a string_view differs"); sx_assert((x == str) == (ord == 0), "== with a string differs");
  sx_assert((x < t) == (ord < 0), "< with a string_view differs"); sx_assert((x > t) == (ord > 0), "> with a string_view differs"); sx_assert((x <= t) == (ord <= 0), "<= with a string_view differs"); sx_assert((x >= t) == (ord >= 0), ">= with a string_view differs"); sx_assert((t < x) == (ord > 0), "a string_view < differs"); sx_assert((x < str) == (ord < 0), "< with a string differs");
}
}  // namespace
SX_JOB pair() { two(sx_param(0), sx_param(1), std::make_index_sequence<6>{}); }
SX_JOB concat() {
  uint64_t k = sx_u64("strings") & 31; auto r = kCat[k]; for (std::size_t i = 0; i < 5; ++i) { bool bit = i < 3 ? (k >> (2 + i) & 1) : (k >> (i - 3) & 1); sx_assert(r[i] == (bit ? '\xe1' : 'a'), "a concatenation is not the two texts"); }
}
SX_JOB substr() {
  std::size_t p = sx_choice(8, "pos"), c = sx_choice(8, "count"); const Sub& r = kSub[p << 3 | c]; std::size_t n = p >= 5 ? 0 : std::min<std::size_t>(5 - p, c == 7 ? 5 : c);
  sx_assert(r.n == n, "a compile-time substr has the wrong length"); for (std::size_t i = 0; i < n; ++i) sx_assert(r.t[i] == ((0b01101 >> (p + i) & 1) ? '\xe1' : 'a'), "a compile-time substr has the wrong text");
}
SX_JOB runtime() {
  static constexpr char kLit[] = "xyx"; std::size_t w = sx_param(1), n = sx_param(2);
  switch (sx_param(0)) {
    case 0: run<tstring<>>(w, n); break;
    case 1: run<decltype("a"_ts)>(w, n); break;
    case 2: run<decltype("ab\0a\xff"_ts)>(w, n); sx_assert("ab\0a\xff"_ts.size() == 5, "a literal with a zero is cut"); break;
    case 3: run<decltype(make_tstring<kLit>())>(w, n); sx_assert(make_tstring<kLit>().str() == "xyx", "make_tstring is not the literal"); break;
    default: run<decltype(MBO_MAKE_TSTRING("q\0q"))>(w, n); sx_assert(MBO_MAKE_TSTRING("q\0q").size() == 3, "MBO_MAKE_TSTRING is not the literal"); break;
  }
}
