#pragma once
#include <cstdlib>
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/strings/str_cat.h"
namespace absl {
template <class T> class StatusOr;
template <class X> struct SxIsOr : std::false_type {};
template <class X> struct SxIsOr<StatusOr<X>> : std::true_type {};
template <class T> class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : st_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default; StatusOr& operator=(const StatusOr&) = default;
  StatusOr(StatusOr&& o) noexcept(std::is_nothrow_move_constructible_v<T>) : st_(o.v_ ? Status() : std::move(o.st_)), v_(std::move(o.v_)) {}
  StatusOr& operator=(StatusOr&& o) { if (this != &o) { v_ = std::move(o.v_); st_ = v_ ? Status() : std::move(o.st_); } return *this; }
  template <class U> requires(std::is_constructible_v<T, const U&> && !std::is_same_v<T, U>) StatusOr(const StatusOr<U>& o) { if (o.ok()) v_.emplace(*o); else st_ = o.status(); }
  template <class U> requires(std::is_constructible_v<T, U&&> && !std::is_same_v<T, U>) StatusOr(StatusOr<U>&& o) { if (o.ok()) v_.emplace(*std::move(o)); else st_ = std::move(o).status(); }
  StatusOr(const Status& s) : st_(s) { if (s.ok()) std::abort(); }
  StatusOr(Status&& s) : st_(std::move(s)) { if (st_.ok()) std::abort(); }
  template <class U> requires(!std::is_same_v<std::remove_cvref_t<U>, T> && std::is_convertible_v<U, Status> && !std::is_constructible_v<T, U> && !SxIsOr<std::remove_cvref_t<U>>::value && !std::is_same_v<std::remove_cvref_t<U>, Status>)
  StatusOr(U&& u) : st_(std::forward<U>(u)) { if (st_.ok()) std::abort(); }
  template <class U = T> requires(std::is_constructible_v<T, U&&> && !SxIsOr<std::remove_cvref_t<U>>::value && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>)
  StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  bool ok() const { return v_.has_value(); }
  const Status& status() const& { static const Status kOk; return ok() ? kOk : st_; }
  Status status() && { return ok() ? Status() : std::move(st_); }
  const T& value() const& { chk(); return *v_; } T& value() & { chk(); return *v_; } T&& value() && { chk(); return *std::move(v_); } const T&& value() const&& { chk(); return *std::move(v_); }
  const T& operator*() const& { chk(); return *v_; } T& operator*() & { chk(); return *v_; } T&& operator*() && { chk(); return *std::move(v_); } const T&& operator*() const&& { chk(); return *std::move(v_); }
  const T* operator->() const { chk(); return &*v_; } T* operator->() { chk(); return &*v_; }
  template <class U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <class U> T value_or(U&& u) && { return ok() ? *std::move(v_) : static_cast<T>(std::forward<U>(u)); }
  template <class... A> T& emplace(A&&... a) { st_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() == b.ok() && (a.ok() ? *a.v_ == *b.v_ : a.st_ == b.st_); }
 private:
  void chk() const { if (!v_) std::abort(); }
  Status st_; std::optional<T> v_;
};
}  // namespace absl
