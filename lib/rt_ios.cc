// More of lib/rt.cc: what std::ostream and its kin need from libstdc++'s binary (the classic locale only).
#include <ios>
#include <ostream>
#include <new>
#include <sstream>
#include <string_view>
#include <cstring>
namespace std {
// locale
namespace { struct FakeImpl { int refs; const void** facets; size_t n; const void** caches; char** names; }; const void* sx_facets[2] = {nullptr, nullptr}; FakeImpl sx_impl = {1, sx_facets, 2, nullptr, nullptr}; }
const ctype<char>& sx_ctype();
locale::locale() noexcept { sx_facets[0] = &sx_ctype(); _M_impl = reinterpret_cast<_Impl*>(&sx_impl); }
locale::locale(const locale& o) noexcept { _M_impl = o._M_impl; }
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const noexcept { return true; }
const locale& locale::classic() { static const locale l; return l; }
size_t locale::id::_M_id() const noexcept { return this == &std::ctype<char>::id ? 0 : 1; }
locale::facet::~facet() {}
// ctype<char>
locale::id ctype<char>::id;
const ctype_base::mask* ctype<char>::classic_table() noexcept { return nullptr; }
ctype<char>::ctype(const mask* t, bool, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; ++a) *a = do_toupper(*a); return b; }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; ++a) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
// ios_base
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_size(0), _M_word(nullptr) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) noexcept { return l; }
namespace { struct NullBuf : streambuf { int overflow(int c) override { return c == -1 ? 0 : c; } streamsize xsputn(const char*, streamsize n) override { return n; } }; bool sx_ready; }
extern "C" { alignas(16) char sx_cout[sizeof(ostream)] asm("_ZSt4cout"); alignas(16) char sx_cerr[sizeof(ostream)] asm("_ZSt4cerr"); alignas(16) char sx_clog[sizeof(ostream)] asm("_ZSt4clog"); }
ios_base::Init::Init() { if (sx_ready) return; sx_ready = true; for (char* p : {sx_cout, sx_cerr, sx_clog}) new (p) ostream(new NullBuf); }
ios_base::Init::~Init() {}
void ios_base::_M_move(ios_base& o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
void ios_base::_M_swap(ios_base& o) noexcept { std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state); }
// streams
template const std::ctype<char>* __try_use_facet<std::ctype<char>>(const locale&) noexcept; template const num_put<char>* __try_use_facet<num_put<char>>(const locale&) noexcept; template const num_get<char>* __try_use_facet<num_get<char>>(const locale&) noexcept;
template class basic_streambuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
template class basic_stringbuf<char>; template class basic_stringstream<char>; template class basic_ostringstream<char>; template class basic_istringstream<char>;
template ostream& endl(ostream&); template ostream& ends(ostream&); template ostream& flush(ostream&); template ostream& operator<<(ostream&, char); template ostream& operator<<(ostream&, unsigned char); template ostream& operator<<(ostream&, signed char);
template ostream& operator<<(ostream&, const char*); template ostream& operator<<(ostream&, const unsigned char*); template ostream& operator<<(ostream&, const signed char*);
template ostream& __ostream_insert(ostream&, const char*, streamsize); template ostream& operator<<(ostream&, const string&);
}
