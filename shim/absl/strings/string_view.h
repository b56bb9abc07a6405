#pragma once
#include <string_view>
namespace absl { using std::string_view; inline string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); } }
