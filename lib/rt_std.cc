// More of lib/rt.cc, with the headers that clash with its C functions.
// std::error_category and the system and generic categories.
#include <system_error>
namespace std {
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition& c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code& c, int v) const noexcept { return c.category() == *this && c.value() == v; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
namespace { struct SxCategory : error_category { const char* n; explicit SxCategory(const char* x) : n(x) {} const char* name() const noexcept override { return n; } std::string message(int) const override { return "system error"; } }; }
const error_category& system_category() noexcept { static const SxCategory c("system"); return c; }
const error_category& generic_category() noexcept { static const SxCategory c("generic"); return c; }
}
__cow_string::__cow_string() {} __cow_string::~__cow_string() {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
}
