// Runtime pieces that the engine executes as IR instead of modelling: C string functions and the few
// out-of-line libstdc++ helpers that header-only container code calls.
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <new>
#include <unordered_map>
extern "C" {
__attribute__((noinline)) void* memchr(const void* s, int c, size_t n) { auto* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
__attribute__((noinline)) void* memrchr(const void* s, int c, size_t n) { auto* p = (const unsigned char*)s; for (size_t i = n; i > 0; --i) if (p[i - 1] == (unsigned char)c) return (void*)(p + i - 1); return nullptr; }
__attribute__((noinline)) size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
__attribute__((noinline)) int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
__attribute__((noinline)) int strncmp(const char* a, const char* b, size_t n) { for (; n; ++a, ++b, --n) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
__attribute__((noinline)) char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
__attribute__((noinline)) double sqrt(double x) { return __builtin_elementwise_sqrt(x); }
#define IN(lo, hi) ((int)((unsigned)c - (unsigned)(lo) <= (unsigned)(hi) - (unsigned)(lo)))
#define NI __attribute__((noinline))
NI int isspace(int c) { return (c == ' ') | IN(9, 13); }
NI int isblank(int c) { return (c == ' ') | (c == 9); }
NI int isdigit(int c) { return IN('0', '9'); }
NI int islower(int c) { return IN('a', 'z'); }
NI int isupper(int c) { return IN('A', 'Z'); }
NI int isalpha(int c) { return IN('a', 'z') | IN('A', 'Z'); }
NI int isalnum(int c) { return IN('a', 'z') | IN('A', 'Z') | IN('0', '9'); }
NI int isxdigit(int c) { return IN('a', 'f') | IN('A', 'F') | IN('0', '9'); }
NI int isprint(int c) { return IN(32, 126); }
NI int isgraph(int c) { return IN(33, 126); }
NI int iscntrl(int c) { return IN(0, 31) | (c == 127); }
NI int ispunct(int c) { return IN(33, 47) | IN(58, 64) | IN(91, 96) | IN(123, 126); }
NI int tolower(int c) { return c + (IN('A', 'Z') << 5); }
NI int toupper(int c) { return c - (IN('a', 'z') << 5); }
int* __errno_location() { static int e; return &e; }
void* __dso_handle_sx;
}
namespace std {
void __detail::_List_node_base::_M_hook(_List_node_base* const pos) noexcept { _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void __detail::_List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void __detail::_List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
// An unbalanced binary search tree with the same interface: only balance differs, which is not observable.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {  // put b where a is
    if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    auto* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  auto* r = h._M_parent;
  if (!r) { h._M_left = &h; h._M_right = &h; }
  else { auto* a = r; while (a->_M_left) a = a->_M_left; h._M_left = a; a = r; while (a->_M_right) a = a->_M_right; h._M_right = a; }
  return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 2 ? 2 : n | 1; if (b < 13 && n > 2) b = 13; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const {
  if (ne + ins <= _M_next_resize && _M_next_resize) return {false, 0};
  size_t want = ne + ins > nb * 2 ? ne + ins : nb * 2; if (want < 13) want = 13; _M_next_resize = want; if (want <= nb) return {false, 0};
  return {true, want | 1};
}
}  // namespace __detail
// Any hash is a legal hash; this one keeps bucket choice independent of the (symbolic) content.
size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }
}  // namespace std
