// The same headers twice, once with every constant-evaluation branch on its run-time side and once on its compile-time side.
#include "sx.h"
#include <array>
#include <bit>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#define mbo mbo_rt
#define is_constant_evaluated sx_runtime
namespace std { constexpr bool sx_runtime() { return false; } constexpr bool sx_compile() { return true; } }
#include "mbo/hash/hash.h"
#undef mbo
#undef is_constant_evaluated
#undef MBO_HASH_HASH_H_
#undef MBO_HASH_HASH_DUMBO_H_
#undef MBO_HASH_HASH_FAMBO_H_
#undef MBO_HASH_HASH_FNV1A_H_
#undef MBO_HASH_HASH_INTERNAL_UTIL_H_
#undef MBO_HASH_HASH_MUMBO_H_
#undef MBO_HASH_HASH_MURMUR3_H_
#undef MBO_HASH_HASH_SIPHASH_H_
#undef MBO_HASH_HASH_TEMBO_H_
#undef MBO_HASH_HASH_TYPES_H_
#undef MBO_FORCE_INLINE
#define mbo mbo_ct
#define is_constant_evaluated sx_compile
#include "mbo/hash/hash.h"
#undef mbo
#undef is_constant_evaluated
template <class H, class F> static void cmp(F f) { (void)f; }
#define BOTH(I, EXPR) case I: { { using namespace mbo_rt::hash; auto x = EXPR; memcpy(a, &x, sizeof(x)); } { using namespace mbo_ct::hash; auto x = EXPR; memcpy(b, &x, sizeof(x)); } break; }
SX_JOB ct_hash() {  // params: algorithm, length
  sx::Buf B(sx_param(1), "data"); uint64_t s = sx_u64("seed"); std::string_view d = B.sv(); uint64_t a[2] = {0, 0}, b[2] = {0, 0};
  switch (sx_param(0)) {
    BOTH(0, fambo::GetHash64(d, s))
    BOTH(1, (tembo::GetHash64<3, 4, false>(d, s)))
    BOTH(2, (tembo::GetHash64<4, 4, false>(d, s)))
    BOTH(3, (tembo::GetHash64<5, 4, true>(d, s)))
    BOTH(4, (tembo::GetHash64<8, 8, false>(d, s)))
    BOTH(5, (tembo::GetHash64<16, 8, true>(d, s)))
    BOTH(6, mumbo::GetHash64(d, s))
    BOTH(7, mumbo::GetHash128(d, s))
    BOTH(8, dumbo::GetHash64(d, s))
  }
  sx_assert_eq(a, b, 16, "the compile-time and the run-time hash differ");
}
