#pragma once
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
namespace absl {
// At each position the longest matching key is replaced (leftmost first), as Abseil documents.
template <class C> int SxReplace(std::string_view s, const C& reps, std::string* out) {
  int n = 0;
  for (std::size_t i = 0; i < s.size();) {
    std::size_t best = 0; std::string_view with;
    for (const auto& [k, v] : reps) if (std::string_view(k).size() > best && s.substr(i, std::string_view(k).size()) == std::string_view(k)) { best = std::string_view(k).size(); with = v; }
    if (best) { out->append(with); i += best; ++n; } else out->push_back(s[i++]);
  }
  return n;
}
inline std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> r) { std::string o; SxReplace(s, r, &o); return o; }
inline int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> r, std::string* s) { std::string o; int n = SxReplace(*s, r, &o); *s = o; return n; }
template <class C> std::string StrReplaceAll(std::string_view s, const C& r) { std::string o; SxReplace(s, r, &o); return o; }
template <class C> int StrReplaceAll(const C& r, std::string* s) { std::string o; int n = SxReplace(*s, r, &o); *s = o; return n; }
}  // namespace absl
