#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
#define SXC(N) template <class C, class... A> auto c_##N(C&& c, A&&... a) { return std::N(std::begin(c), std::end(c), std::forward<A>(a)...); }
SXC(all_of) SXC(any_of) SXC(none_of) SXC(for_each) SXC(find) SXC(find_if) SXC(find_if_not) SXC(count) SXC(count_if) SXC(copy) SXC(copy_if) SXC(transform) SXC(fill) SXC(sort) SXC(stable_sort) SXC(is_sorted) SXC(lower_bound) SXC(upper_bound) SXC(equal_range) SXC(binary_search) SXC(reverse) SXC(unique) SXC(min_element) SXC(max_element) SXC(accumulate) SXC(remove_if) SXC(replace) SXC(adjacent_find) SXC(partition)
#undef SXC
template <class C, class T> bool c_linear_search(const C& c, const T& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <class C, class D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
template <class C, class D, class P> bool c_equal(const C& c, const D& d, P p) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d), p); }
}
