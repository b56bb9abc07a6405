// Stand-in for the unordered Abseil maps: a linear list. Iteration order is unspecified in Abseil; SX_MAP_ORDER=1 reverses it.
#pragma once
#include <functional>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <vector>
#include "absl/hash/hash.h"
#ifndef SX_MAP_ORDER
#define SX_MAP_ORDER 0
#endif
namespace absl {
template <class K, class V> class SxMap {
  using P = std::pair<const K, V>;
  using U = std::vector<std::unique_ptr<P>>;
  U v_;
  template <class Q, class It> struct I {
    using iterator_category = std::forward_iterator_tag; using value_type = P; using difference_type = std::ptrdiff_t; using pointer = Q*; using reference = Q&;
    It it{};
    I() = default; explicit I(It i) : it(i) {}
    operator I<const P, typename U::const_iterator>() const { return I<const P, typename U::const_iterator>(it); }
    Q& operator*() const { return **it; } Q* operator->() const { return it->get(); }
    I& operator++() { ++it; return *this; } I operator++(int) { I r = *this; ++it; return r; }
    friend bool operator==(const I& a, const I& b) { return a.it == b.it; }
  };
 public:
  using key_type = K; using mapped_type = V; using value_type = P; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
  using reference = P&; using const_reference = const P&; using pointer = P*; using const_pointer = const P*;
  using iterator = I<P, typename U::iterator>; using const_iterator = I<const P, typename U::const_iterator>;
  SxMap() = default;
  SxMap(std::initializer_list<P> l) { for (const P& p : l) insert(p); }
  template <class It> SxMap(It b, It e) { for (; b != e; ++b) insert(*b); }
  SxMap(const SxMap& o) { for (const auto& p : o.v_) v_.push_back(std::make_unique<P>(*p)); }
  SxMap(SxMap&&) = default;
  SxMap& operator=(const SxMap& o) { if (this != &o) { SxMap t(o); v_.swap(t.v_); } return *this; }
  SxMap& operator=(SxMap&&) = default;
  iterator begin() { return iterator(v_.begin()); } iterator end() { return iterator(v_.end()); }
  const_iterator begin() const { return const_iterator(v_.begin()); } const_iterator end() const { return const_iterator(v_.end()); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  bool empty() const { return v_.empty(); } std::size_t size() const { return v_.size(); } void clear() { v_.clear(); } void reserve(std::size_t) {}
  template <class Q> iterator find(const Q& k) { for (auto it = v_.begin(); it != v_.end(); ++it) if ((*it)->first == k) return iterator(it); return end(); }
  template <class Q> const_iterator find(const Q& k) const { for (auto it = v_.begin(); it != v_.end(); ++it) if ((*it)->first == k) return const_iterator(it); return end(); }
  template <class Q> bool contains(const Q& k) const { return find(k) != end(); }
  template <class Q> std::size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
  template <class Q> V& at(const Q& k) { auto it = find(k); if (it == end()) std::abort(); return it->second; }
  template <class Q> const V& at(const Q& k) const { auto it = find(k); if (it == end()) std::abort(); return it->second; }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { return add(std::make_unique<P>(std::forward<A>(a)...)); }
  template <class Q, class... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    if (auto it = find(k); it != end()) return {it, false};
    return add(std::make_unique<P>(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...)));
  }
  template <class Q, class A> std::pair<iterator, bool> insert_or_assign(Q&& k, A&& a) {
    if (auto it = find(k); it != end()) { it->second = std::forward<A>(a); return {it, false}; }
    return emplace(std::forward<Q>(k), std::forward<A>(a));
  }
  std::pair<iterator, bool> insert(const P& p) { return add(std::make_unique<P>(p)); }
  std::pair<iterator, bool> insert(P&& p) { return add(std::make_unique<P>(std::move(p))); }
  template <class It> void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
  template <class Q> V& operator[](Q&& k) { return try_emplace(K(std::forward<Q>(k))).first->second; }
  iterator erase(const_iterator it) { return iterator(v_.erase(it.it)); }
  iterator erase(iterator it) { return iterator(v_.erase(it.it)); }
  iterator erase(const_iterator a, const_iterator b) { return iterator(v_.erase(a.it, b.it)); }
  template <class Q> requires(!std::is_convertible_v<Q, const_iterator>) std::size_t erase(const Q& k) { auto it = find(k); if (it == end()) return 0; v_.erase(it.it); return 1; }
  void swap(SxMap& o) { v_.swap(o.v_); }
  friend bool operator==(const SxMap& a, const SxMap& b) { if (a.size() != b.size()) return false; for (const auto& [k, x] : a) { auto it = b.find(k); if (it == b.end() || !(it->second == x)) return false; } return true; }
  template <class H> friend H AbslHashValue(H h, const SxMap& m) { return H::combine(std::move(h), m.size()); }
 private:
  std::pair<iterator, bool> add(std::unique_ptr<P> p) {
    if (auto it = find(p->first); it != end()) return {it, false};
#if SX_MAP_ORDER
    return {iterator(v_.insert(v_.begin(), std::move(p))), true};
#else
    v_.push_back(std::move(p));
    return {iterator(v_.end() - 1), true};
#endif
  }
};
template <class K, class V, class H = void, class E = void, class A = void> using flat_hash_map = SxMap<K, V>;
template <class K, class V, class H = void, class E = void, class A = void> using node_hash_map = SxMap<K, V>;
}  // namespace absl
