#pragma once
#include <span>
#include <cstddef>
#include <vector>
namespace absl {
template <class T> struct Span : std::span<T> { using std::span<T>::span; using value_type = std::remove_cv_t<T>; template <class C> requires std::is_constructible_v<std::span<T>, C&> Span(C& c) : std::span<T>(c) {} };
template <class C> auto MakeSpan(C& c) { return Span<std::remove_reference_t<decltype(*c.data())>>(c.data(), c.size()); }
template <class C> auto MakeConstSpan(const C& c) { return Span<const std::remove_reference_t<decltype(*c.data())>>(c.data(), c.size()); }
template <class T> Span<T> MakeSpan(T* p, std::size_t n) { return Span<T>(p, n); }
}
