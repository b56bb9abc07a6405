// More of lib/rt.cc: numbers put on streams, and the facets of the classic locale that streams ask for.
#include <locale>
#include <ostream>
namespace std {
// numbers
namespace {
ostream& put(ostream& o, unsigned long long v, bool neg, bool plus) {
  char b[32]; int n = 32; const auto f = o.flags(); const unsigned base = (f & ios_base::basefield) == ios_base::hex ? 16 : (f & ios_base::basefield) == ios_base::oct ? 8 : 10; const bool up = bool(f & ios_base::uppercase); const bool zero = v == 0;
  do { unsigned d = static_cast<unsigned>(v % base); b[--n] = static_cast<char>(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v != 0);
  char pre[3]; int k = 0; if (neg) pre[k++] = '-'; else if (plus && (f & ios_base::showpos)) pre[k++] = '+'; if ((f & ios_base::showbase) && !zero && base != 10) { pre[k++] = '0'; if (base == 16) pre[k++] = up ? 'X' : 'x'; }
  int len = k + 32 - n; long pad = o.width() > len ? o.width() - len : 0; o.width(0); const auto adj = f & ios_base::adjustfield; auto* s = o.rdbuf();
  if (adj != ios_base::left && adj != ios_base::internal) for (; pad > 0; --pad) s->sputc(o.fill());
  for (int i = 0; i < k; ++i) s->sputc(pre[i]); if (adj == ios_base::internal) for (; pad > 0; --pad) s->sputc(o.fill());
  for (int i = n; i < 32; ++i) s->sputc(b[i]); for (; pad > 0; --pad) s->sputc(o.fill());
  return o;
}
bool dec(ostream& o) { return (o.flags() & ios_base::basefield) != ios_base::hex && (o.flags() & ios_base::basefield) != ios_base::oct; }

ostream& putl(ostream& o, long long v) { return dec(o) ? put(o, v < 0 ? 0ULL - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v), v < 0, true) : put(o, static_cast<unsigned long long>(v), false, false); }
ostream& putb(ostream& o, bool v) { if (!(o.flags() & ios_base::boolalpha)) return putl(o, v); return __ostream_insert(o, v ? "true" : "false", v ? 4 : 5); }
}
}
#define SXI(T, M, E) extern "C" std::ostream& sx_ins_##M(std::ostream* o, T v) asm("_ZNSo9_M_insertI" #M "EERSoT_"); std::ostream& sx_ins_##M(std::ostream* o, T v) { E; }
SXI(long, l, return std::putl(*o, v)) SXI(unsigned long, m, return std::put(*o, v, false, false)) SXI(long long, x, return std::putl(*o, v)) SXI(unsigned long long, y, return std::put(*o, v, false, false)) SXI(bool, b, return std::putb(*o, v))
SXI(const void*, PKv, auto f = o->flags(); o->flags((f & ~std::ios_base::basefield) | std::ios_base::hex | std::ios_base::showbase); std::put(*o, reinterpret_cast<unsigned long long>(v), false, false); o->flags(f); return *o)
// The facets: ctype only.
#define SXF(N, T) extern "C" bool sx_has_##N(const std::locale&) asm("_ZSt9has_facetISt" T "EbRKSt6locale"); bool sx_has_##N(const std::locale&) 
SXF(ctype, "5ctypeIcE") { return true; } SXF(put, "7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE") { return false; } SXF(get, "7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEE") { return false; }
namespace { struct SxCtype : std::ctype<char> { SxCtype() : std::ctype<char>(nullptr, false, 1) {} ~SxCtype() override {} }; }
namespace std { const ctype<char>& sx_ctype() { static SxCtype* const c = new SxCtype; return *c; } }
extern "C" const std::ctype<char>& sx_use_ctype(const std::locale&) asm("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale");
const std::ctype<char>& sx_use_ctype(const std::locale&) { return std::sx_ctype(); }
