#pragma once
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <type_traits>
namespace absl {
template <class C> struct SxCmp { using type = C; };
template <> struct SxCmp<std::less<std::string>> { using type = std::less<>; };
// std::map; keys that are strings are also found and made from a string view.
template <class K, class V, class C = std::less<K>>
class btree_map : public std::map<K, V, typename SxCmp<C>::type> {
  using M = std::map<K, V, typename SxCmp<C>::type>;
 public:
  using M::M; using M::operator[]; using M::at; using M::erase; btree_map() = default; btree_map(const M& m) : M(m) {} btree_map(M&& m) : M(std::move(m)) {}
  template <class Q> requires (std::is_same_v<K, std::string> && std::is_convertible_v<const Q&, std::string_view> && !std::is_convertible_v<const Q&, const K&>)
  V& operator[](const Q& q) { auto it = this->find(std::string_view(q)); if (it == this->end()) it = this->emplace(K(std::string_view(q)), V()).first; return it->second; }
};
template <class K, class V, class C = std::less<K>> using btree_multimap = std::multimap<K, V, typename SxCmp<C>::type>;
}  // namespace absl
