#pragma once
#include <utility>
namespace absl {
template <class F> class Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {} ~Cleanup() { if (on_) f_(); }
  Cleanup(const Cleanup&) = delete;
  void Cancel() && { on_ = false; } void Invoke() && { on_ = false; f_(); }
 private:
  F f_; bool on_ = true;
};
template <class F> Cleanup(F) -> Cleanup<F>;
template <class F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }
}
