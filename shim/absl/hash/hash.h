// Stand-in for absl::Hash: a deterministic combination of std::hash.
#pragma once
#include <functional>
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
namespace absl {
struct SxHashState {
  std::uint64_t v = 0x9e3779b97f4a7c15ULL;
  template <class... Ts> static SxHashState combine(SxHashState h, const Ts&... ts);
};
template <class T> concept SxAdlHash = requires(SxHashState h, const T& t) { AbslHashValue(std::move(h), t); };
template <class T> struct SxIsTuple : std::false_type {};
template <class... Ts> struct SxIsTuple<std::tuple<Ts...>> : std::true_type {};
template <class A, class B> struct SxIsTuple<std::pair<A, B>> : std::true_type {};
template <class T> SxHashState SxHashOne(SxHashState h, const T& t) {
  if constexpr (SxIsTuple<T>::value) return std::apply([&](const auto&... v) { return SxHashState::combine(std::move(h), v...); }, t);
  else if constexpr (SxAdlHash<T>) return AbslHashValue(std::move(h), t);
  else { h.v = ((h.v << 7) | (h.v >> 57)) ^ static_cast<std::uint64_t>(std::hash<T>{}(t)); return h; }
}
template <class... Ts> SxHashState SxHashState::combine(SxHashState h, const Ts&... ts) { ((h = SxHashOne(std::move(h), ts)), ...); return h; }
template <class T> struct Hash { std::size_t operator()(const T& t) const { return SxHashOne(SxHashState{}, t).v; } };
template <class... Ts> std::size_t HashOf(const Ts&... ts) { return SxHashState::combine(SxHashState{}, ts...).v; }
}  // namespace absl
