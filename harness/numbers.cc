// S01: BigNumber and BigNumberLen against std::to_string for every value.
#include <string>
#include "sx.h"
#include "mbo/strings/numbers.h"
namespace {
template<typename T> void go() {
  T v; if (sizeof(T) == 1 && T(2) == T(1)) { v = sx_range(0, 1, "bool") != 0; } else { v = sx::make<T>("value"); }
  const std::string plain = std::to_string(v); const std::string got = mbo::strings::BigNumber(v);
  const std::size_t neg = plain[0] == '-' ? 1 : 0, digits = plain.size() - neg;
  sx_assert(got.size() == plain.size() + (digits - 1) / 3, "the rendering has the wrong length");
  std::size_t o = got.size(); for (std::size_t i = 0; i < digits; ++i) { if (i && i % 3 == 0) { sx_assert(got[--o] == '\'', "the separator is missing or misplaced"); } sx_assert(got[--o] == plain[plain.size() - 1 - i], "a digit differs"); }
  sx_assert(o == neg, "the rendering has extra characters"); if (neg) { sx_assert(got[0] == '-', "the sign is missing"); sx_cover("negative"); }
  if (digits % 3 == 1) { sx_cover("group of one"); } else if (digits % 3 == 2) { sx_cover("group of two"); } else { sx_cover("group of three"); }
  sx_assert(mbo::strings::BigNumberLen(v) == got.size(), "BigNumberLen differs from the length of BigNumber");
}
}
SX_JOB number() {
  switch (sx_param(0)) {
    case 0: return go<bool>(); case 1: return go<char>(); case 2: return go<signed char>(); case 3: return go<unsigned char>(); case 4: return go<short>(); case 5: return go<unsigned short>(); case 6: return go<int>(); case 7: return go<unsigned>();
    case 8: return go<long>(); case 9: return go<unsigned long>(); case 10: return go<long long>(); default: return go<unsigned long long>();
  }
}
