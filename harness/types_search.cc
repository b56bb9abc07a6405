// T08: the template searches. The compiler evaluates the real templates for every predicate over the range; the resulting tables are
// compared with the definition for a symbolic predicate.
#include <array>
#include <cstddef>
#include <utility>
#include "sx.h"
#include "mbo/types/template_search.h"
using namespace mbo::types;
namespace {
constexpr std::size_t kN = 5, kM = std::size_t{1} << kN, kNone = 99;
template<std::size_t Mask> struct Set { template<std::size_t I> struct P { static constexpr bool value = I < 64 && (Mask >> I & 1); }; };
struct Row { unsigned char bin, lin, max, rev, binD, linD, maxD, revD; };
template<std::size_t M, std::size_t S, std::size_t E> constexpr Row row() {
  return {static_cast<unsigned char>(BinarySearchV<Set<M>::template P, S, E, kNone>), static_cast<unsigned char>(LinearSearchV<Set<M>::template P, S, E, kNone>),
          static_cast<unsigned char>(MaxSearchV<Set<M>::template P, S, E, kNone>), static_cast<unsigned char>(ReverseSearchV<Set<M>::template P, S, E, kNone>),
          static_cast<unsigned char>(BinarySearchV<Set<M>::template P, S, E>), static_cast<unsigned char>(LinearSearchV<Set<M>::template P, S, E>),
          static_cast<unsigned char>(MaxSearchV<Set<M>::template P, S, E>), static_cast<unsigned char>(ReverseSearchV<Set<M>::template P, S, E>)};
}
template<std::size_t S, std::size_t E, std::size_t... M> constexpr std::array<Row, kM> rows(std::index_sequence<M...>) { return {row<M, S, E>()...}; }
template<std::size_t S, std::size_t E> constexpr std::array<Row, kM> kTable = rows<S, E>(std::make_index_sequence<kM>{});
template<std::size_t S, std::size_t... E> const Row* pick(std::size_t e, std::index_sequence<E...>) { const Row* r = nullptr; ((e == E ? void(r = kTable<S, E>.data()) : void()), ...); return r; }
template<std::size_t... S> const Row* pick(std::size_t s, std::size_t e, std::index_sequence<S...>) { const Row* r = nullptr; ((s == S ? void(r = pick<S>(e, std::make_index_sequence<kN + 1>{})) : void()), ...); return r; }
}  // namespace
SX_JOB pattern() {
  std::size_t s = sx_param(0), e = sx_param(1); const Row* t = pick(s, e, std::make_index_sequence<kN + 1>{});
  uint64_t m = sx_u64("predicate") & (kM - 1); Row r = t[m];
  auto p = [&](std::size_t i) { return (m >> i & 1) != 0; };
  std::size_t lin = kNone, rev = kNone, max = kNone; bool run = true;
  for (std::size_t i = s; i < e; ++i) { bool b = p(i); lin = (lin == kNone) & b ? i : lin; rev = b ? i : rev; run &= b; max = run ? i : max; }
  auto dflt = [&](std::size_t v) { return v == kNone ? e : v; };
  sx_assert(r.lin == lin, "LinearSearch is not the first index for which the predicate holds"); sx_assert(r.linD == dflt(lin), "LinearSearch does not return the end when nothing is found");
  sx_assert(r.rev == rev, "ReverseSearch is not the last index for which the predicate holds"); sx_assert(r.revD == dflt(rev), "ReverseSearch does not return the end when nothing is found");
  sx_assert(r.max == max, "MaxSearch is not the last index of the leading run for which the predicate holds"); sx_assert(r.maxD == dflt(max), "MaxSearch does not return the end when nothing is found");
  // a binary search ends at a boundary of the predicate; for a monotone predicate there is one
  std::size_t b = r.bin; bool start = s < e && p(s);
  bool found = b != kNone;
  sx_assert(found | !start, "BinarySearch finds nothing although the predicate holds at the start");
  sx_assert(!found | ((b >= s) & (b < e)), "BinarySearch leaves the range");
  if (found) { std::size_t i = sx_concretize(b); sx_assert(p(i), "BinarySearch returns an index for which the predicate does not hold"); sx_assert(i + 1 >= e || !p(i + 1), "BinarySearch returns an index that is not the last of its run"); }
  sx_assert(r.binD == dflt(b), "BinarySearch does not return the end when nothing is found");
  bool mono = true; for (std::size_t i = s; i + 1 < e; ++i) mono &= p(i) | !p(i + 1);
  sx_assert(!mono | (b == max), "BinarySearch is not the boundary of a monotone predicate");
}
namespace {
constexpr std::size_t kBig = 40;
template<std::size_t T> struct Below { template<std::size_t I> struct P { static constexpr bool value = I < T; }; };
template<std::size_t S, std::size_t... T> constexpr std::array<unsigned char, kBig + 2> thr(std::index_sequence<T...>) { return {static_cast<unsigned char>(BinarySearchV<Below<T>::template P, S, kBig, kNone>)...}; }
template<std::size_t S, std::size_t... T> constexpr std::array<unsigned char, kBig + 2> thrmax(std::index_sequence<T...>) { return {static_cast<unsigned char>(MaxSearchV<Below<T>::template P, S, kBig, kNone>)...}; }
template<std::size_t S, std::size_t... T> constexpr std::array<unsigned char, kBig + 2> thrrev(std::index_sequence<T...>) { return {static_cast<unsigned char>(ReverseSearchV<Below<T>::template P, S, kBig, kNone>)...}; }
using Ts = std::make_index_sequence<kBig + 2>;
constexpr std::array<unsigned char, kBig + 2> kB[3] = {thr<0>(Ts{}), thr<1>(Ts{}), thr<7>(Ts{})}, kX[3] = {thrmax<0>(Ts{}), thrmax<1>(Ts{}), thrmax<7>(Ts{})}, kR[3] = {thrrev<0>(Ts{}), thrrev<1>(Ts{}), thrrev<7>(Ts{})};
}  // namespace
SX_JOB threshold() {
  std::size_t w = sx_choice(3, "start"), s = w == 0 ? 0 : w == 1 ? 1 : 7; uint64_t t = sx_u64("boundary"); sx_assume(t < kBig + 2);
  uint64_t top = t > kBig ? kBig : t, want = top > s ? top - 1 : kNone;
  sx_assert(kB[w][t] == want, "BinarySearch is not the boundary of a long monotone predicate"); sx_assert(kX[w][t] == want, "MaxSearch is not the boundary of a long monotone predicate"); sx_assert(kR[w][t] == want, "ReverseSearch is not the boundary of a long monotone predicate");
}
