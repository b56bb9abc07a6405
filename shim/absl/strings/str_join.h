#pragma once
#include <initializer_list>
#include <string>
#include <string_view>
#include "absl/strings/str_cat.h"
namespace absl {
template <class R, class F> std::string StrJoin(const R& range, std::string_view sep, F&& fmt) {
  std::string r; bool first = true;
  for (auto it = range.begin(); it != range.end(); ++it) { if (!first) r.append(sep); first = false; fmt(&r, *it); }
  return r;
}
template <class R> std::string StrJoin(const R& range, std::string_view sep) { return StrJoin(range, sep, [](std::string* o, const auto& v) { StrAppend(o, v); }); }
template <class T> std::string StrJoin(std::initializer_list<T> range, std::string_view sep) { return StrJoin(range, sep, [](std::string* o, const auto& v) { StrAppend(o, v); }); }
}  // namespace absl
