// Stand-in for absl::Status.
#pragma once
#include <cstdlib>
#include <functional>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "absl/strings/cord.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled, kUnknown, kInvalidArgument, kDeadlineExceeded, kNotFound, kAlreadyExists, kPermissionDenied, kResourceExhausted, kFailedPrecondition, kAborted, kOutOfRange, kUnimplemented, kInternal, kUnavailable, kDataLoss, kUnauthenticated };
inline std::string StatusCodeToString(StatusCode c) {
  static constexpr const char* n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  const int i = static_cast<int>(c); return i >= 0 && i < 17 ? n[i] : "";
}
inline std::ostream& operator<<(std::ostream& os, StatusCode c) { return os << StatusCodeToString(c); }
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithEverything = ~0, kDefault = 1 };
class Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string_view m) : code_(c), msg_(c == StatusCode::kOk ? std::string_view() : m) {}
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : code_(o.code_), msg_(std::move(o.msg_)), pay_(std::move(o.pay_)) { if (o.code_ != StatusCode::kOk && this != &o) { o.code_ = StatusCode::kInternal; o.msg_ = "Status accessed after move."; o.pay_.clear(); } }
  Status& operator=(Status&& o) noexcept { if (this != &o) { code_ = o.code_; msg_ = std::move(o.msg_); pay_ = std::move(o.pay_); if (o.code_ != StatusCode::kOk) { o.code_ = StatusCode::kInternal; o.msg_ = "Status accessed after move."; o.pay_.clear(); } } return *this; }
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  std::string_view message() const { return msg_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void Update(Status&& s) { if (ok()) *this = std::move(s); }
  void IgnoreError() const {}
  std::string ToString(StatusToStringMode = StatusToStringMode::kDefault) const { if (ok()) return "OK"; std::string r = StatusCodeToString(code_); r += ": "; r += msg_; for (const auto& [u, c] : pay_) { r += " ["; r += u; r += "='"; r += std::string(c); r += "']"; } return r; }
  std::optional<Cord> GetPayload(std::string_view url) const { for (const auto& [u, c] : pay_) if (u == url) return c; return std::nullopt; }
  void SetPayload(std::string_view url, Cord c) { if (ok()) return; for (auto& [u, x] : pay_) if (u == url) { x = std::move(c); return; } pay_.emplace_back(std::string(url), std::move(c)); }
  bool ErasePayload(std::string_view url) { for (auto it = pay_.begin(); it != pay_.end(); ++it) if (it->first == url) { pay_.erase(it); return true; } return false; }
  template <class F> void ForEachPayload(F&& f) const { for (const auto& [u, c] : pay_) f(std::string_view(u), c); }
  friend bool operator==(const Status& a, const Status& b) {
    if (a.code_ != b.code_ || a.msg_ != b.msg_ || a.pay_.size() != b.pay_.size()) return false;
    for (const auto& [u, c] : a.pay_) { auto p = b.GetPayload(u); if (!p || !(*p == c)) return false; }
    return true;
  }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
  template <class Sink> friend void AbslStringify(Sink& sink, const Status& s) { sink.Append(std::string_view(s.ToString())); }
 private:
  StatusCode code_ = StatusCode::kOk; std::string msg_; std::vector<std::pair<std::string, Cord>> pay_;
};
inline Status OkStatus() { return Status(); }
#define SXST(N) inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
SXST(Cancelled) SXST(Unknown) SXST(InvalidArgument) SXST(DeadlineExceeded) SXST(NotFound) SXST(AlreadyExists) SXST(PermissionDenied) SXST(ResourceExhausted) SXST(FailedPrecondition) SXST(Aborted) SXST(OutOfRange) SXST(Unimplemented) SXST(Internal) SXST(Unavailable) SXST(DataLoss) SXST(Unauthenticated)
#undef SXST
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }
}  // namespace absl
