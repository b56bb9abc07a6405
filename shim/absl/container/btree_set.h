#pragma once
#include <set>
#include "absl/container/btree_map.h"
namespace absl { template <class K, class C = std::less<K>> using btree_set = std::set<K, typename SxCmp<C>::type>; }
