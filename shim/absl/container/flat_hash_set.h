#pragma once
#include <set>
namespace absl { template <class K, class H = void> using flat_hash_set = std::set<K, std::less<>>; }
