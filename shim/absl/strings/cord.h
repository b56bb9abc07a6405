#pragma once
#include <string>
#include <string_view>
namespace absl {
class Cord {
 public:
  Cord() = default;
  Cord(std::string_view s) : s_(s) {}
  Cord(const char* s) : s_(s) {}
  Cord(std::string s) : s_(std::move(s)) {}
  explicit operator std::string() const { return s_; }
  std::size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  std::string Flatten() const { return s_; }
  void Append(std::string_view v) { s_.append(v); }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator==(const Cord& a, std::string_view b) { return a.s_ == b; }
 private:
  std::string s_;
};
}  // namespace absl
