// T06: Stringify prints what an independent printer prints, and its JSON modes print JSON that reads back as the value.
#include <array>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>
#include "jsonp.h"
#include "mbo/json/json.h"
#include "mbo/types/extend.h"
#include "mbo/types/optional_data_or_ref.h"
#include "mbo/types/optional_ref.h"
#include "mbo/types/ref_wrap.h"
#include "mbo/types/stringify.h"
#include "mbo/types/stringify_ostream.h"
#include "sx.h"
namespace mbo::log { std::string Demangle(const char*) { return {}; } }
using mbo::types::Stringify;
using mbo::types::StringifyFieldInfo;
using mbo::types::StringifyFieldOptions;
using mbo::types::StringifyRootOptions;
using SO = mbo::types::StringifyOptions;
namespace {
#ifdef MBO_ENGINE
std::ios_base::Init streams_ready;
#endif
using Names = std::vector<std::string>;
struct FO { const SO* outer; const SO* inner; };
enum Kind { kNum, kStr, kChr, kList, kMap, kStruct, kPair, kPtr, kSmart, kOpt, kNullT, kDisabled, kVar, kRef, kAcc };
struct N {
  Kind k = kNum; std::string t; bool b = false, noname = false; int c = 0; Names names; std::vector<N> kids; std::vector<const FO*> opts;
};
// ---- the values as nodes
struct Sub { int a; std::string s; friend std::array<std::string_view, 2> MboTypesStringifyFieldNames(const Sub&) { return {"a", "s"}; } };
struct NoName { using MboTypesStringifyDoNotPrintFieldNames = void; int a; std::string s; };
struct Plain { int alpha; std::string beta; };
struct FewNames { int a; std::string s; friend std::array<std::string_view, 1> MboTypesStringifyFieldNames(const FewNames&) { return {"only"}; } };
struct QuoteName { int a; friend std::array<std::string_view, 1> MboTypesStringifyFieldNames(const QuoteName&) { return {"q\"\\"}; } };
struct Off { using MboTypesStringifyDisable = void; int a; };
struct Nothing {};
struct Ext : mbo::types::Extend<Ext> { int a; std::string s; friend std::array<std::string_view, 2> MboTypesStringifyFieldNames(const Ext&) { return {"a", "s"}; } };
struct Acc { std::string s; friend const std::string& MboTypesStringifyValueAccess(const Acc& v, const StringifyFieldOptions&) { return v.s; } };
N nd(int v) { N n; n.t = v < 0 ? "-" : ""; char b[16]; int i = 16; unsigned long u = v < 0 ? 0UL - static_cast<unsigned long>(static_cast<long>(v)) : static_cast<unsigned long>(v); do { b[--i] = static_cast<char>('0' + u % 10); u /= 10; } while (u); n.t.append(b + i, static_cast<std::size_t>(16 - i)); return n; }
N nd(bool v) { N n; n.t = v ? "true" : "false"; return n; }
N nd(std::string_view v) { N n; n.k = kStr; n.t = v; return n; }
N nd(const std::string& v) { return nd(std::string_view(v)); }
N nd(char v) { N n; n.k = kChr; n.t = std::string(1, v); n.c = v; return n; }
N nd(unsigned char v) { N n; n.k = kChr; n.t = std::string(1, static_cast<char>(v)); n.c = v; return n; }
N nd(std::nullptr_t) { N n; n.k = kNullT; return n; }
N nd(const Off&) { N n; n.k = kDisabled; return n; }
N st(Names names, std::vector<N> kids) { N n; n.k = kStruct; n.names = std::move(names); n.kids = std::move(kids); return n; }
N nd(const Sub& v) { return st({"a", "s"}, {nd(v.a), nd(v.s)}); }
N nd(const Ext& v) { return st({"a", "s"}, {nd(v.a), nd(v.s)}); }
N nd(const Plain& v) { return st({"alpha", "beta"}, {nd(v.alpha), nd(v.beta)}); }
N nd(const NoName& v) { N n = st({}, {nd(v.a), nd(v.s)}); n.noname = true; return n; }
N nd(const FewNames& v) { return st({"only"}, {nd(v.a), nd(v.s)}); }
N nd(const QuoteName& v) { return st({"q\"\\"}, {nd(v.a)}); }
N nd(const Nothing&) { return st({}, {}); }
N nd(const Acc& v) { N n; n.k = kAcc; n.kids.push_back(nd(v.s)); return n; }
template <class A, class B> N nd(const std::pair<A, B>& v);
template <class T> N nd(const std::vector<T>& v);
template <class B> N nd(const std::vector<std::pair<std::string, B>>& v);
template <class B> N nd(const std::map<std::string, B>& v);
template <class B> N nd(const std::map<int, B>& v);
template <class... T> N nd(const std::variant<T...>& v);
template <class T> N nd(const std::optional<T>& v) { N n; n.k = kOpt; if (v) n.kids.push_back(nd(*v)); return n; }
template <class T> N nd(const std::unique_ptr<T>& v) { N n; n.k = kSmart; if (v) n.kids.push_back(nd(*v)); return n; }
template <class T> N nd(const std::shared_ptr<T>& v) { N n; n.k = kSmart; if (v) n.kids.push_back(nd(*v)); return n; }
template <class T> N nd(T* v) { N n; n.k = kPtr; if (v) n.kids.push_back(nd(*v)); return n; }
template <class T> N nd(const std::reference_wrapper<T>& v) { N n; n.k = kRef; n.kids.push_back(nd(v.get())); return n; }
template <class T> N nd(const mbo::types::OptionalRef<T>& v) { N n; n.k = kRef; if (v.has_value()) n.kids.push_back(nd(*v)); return n; }
template <class T> N nd(const mbo::types::OptionalDataOrRef<T>& v) { N n; n.k = kRef; if (v.has_value()) n.kids.push_back(nd(*v)); return n; }
template <class A, class B> N nd(const std::pair<A, B>& v) { N n; n.k = kPair; n.kids = {nd(v.first), nd(v.second)}; return n; }
template <class T> N nd(const std::vector<T>& v) { N n; n.k = kList; for (const auto& x : v) n.kids.push_back(nd(x)); return n; }
template <class T, std::size_t S> N nd(const std::array<T, S>& v) { N n; n.k = kList; for (const auto& x : v) n.kids.push_back(nd(x)); return n; }
template <class B> N nd(const std::vector<std::pair<std::string, B>>& v) { N n; n.k = kMap; for (const auto& [k, x] : v) { n.names.push_back(k); n.kids.push_back(nd(x)); } return n; }
template <class B> N nd(const std::map<std::string, B>& v) { N n; n.k = kMap; for (const auto& [k, x] : v) { n.names.push_back(k); n.kids.push_back(nd(x)); } return n; }
template <class B> N nd(const std::map<int, B>& v) { N n; n.k = kList; for (const auto& x : v) n.kids.push_back(nd(std::pair<int, B>(x))); return n; }
template <class... T> N nd(const std::variant<T...>& v) { N n; n.k = kVar; std::visit([&](const auto& x) { n.kids.push_back(nd(x)); }, v); return n; }
// ---- the printer
char oct(unsigned v) { return static_cast<char>('0' + (v & 7)); }
char hex(unsigned v) { return "0123456789abcdef"[v & 15]; }
std::string escape(std::string_view v, SO::EscapeMode m) {
  std::string r; bool after_hex = false;
  for (const char ch : v) {
    const unsigned c = static_cast<unsigned char>(ch); const bool was_hex = after_hex; after_hex = false;
    if (m == SO::EscapeMode::kNone) { r += ch; continue; }
    const bool json = m == SO::EscapeMode::kJsonEscape;
    if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\";
    else if (c == '\'' && !json) r += "\\'";
    else if (json) { if (c == 8) r += "\\b"; else if (c == 12) r += "\\f"; else if (c < 32) { r += "\\u00"; r += c < 16 ? '0' : '1'; r += hex(c); } else r += ch; }
    else if (c < 32 || c >= 127 || (m == SO::EscapeMode::kCHexEscape && was_hex && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')))) {
      r += '\\';
      if (m == SO::EscapeMode::kCHexEscape) { r += 'x'; r += hex(c >> 4); r += hex(c); after_hex = true; } else { r += oct(c >> 6); r += oct(c >> 3); r += oct(c); }
    } else r += ch;
  }
  return r;
}
struct Pr {
  FO def; std::string out; std::vector<std::string> lev;
  void nl(std::string_view indent) { if (indent.empty()) return; out += '\n'; for (const auto& l : lev) out += l; }
  void key(const SO& o, const std::string& name, std::size_t idx, bool over) {
    const auto& kc = *o.key_control;
    if (kc.key_mode == SO::KeyMode::kNone) return;
    std::string k = name;
    if (over && o.key_overrides->key_use_name.has_value()) { const auto& u = *o.key_overrides->key_use_name; if (std::holds_alternative<std::string_view>(u) && !std::get<std::string_view>(u).empty()) k = std::get<std::string_view>(u); }
    if (k.empty()) { if (kc.key_mode != SO::KeyMode::kNumericFallback) return; k = nd(static_cast<int>(idx)).t; }
    else if (o.value_control->escape_mode == SO::EscapeMode::kJsonEscape) k = escape(k, SO::EscapeMode::kJsonEscape);
    out += kc.key_prefix; out += k; out += kc.key_suffix; out += o.format->key_value_separator;
  }
  void str(std::string_view t, const SO& o) {
    if (!o.value_overrides->replacement_str.empty()) { out += o.value_overrides->replacement_str; return; }
    const bool cut = t.size() > o.value_control->str_max_length;
    out += escape(cut ? t.substr(0, o.value_control->str_max_length) : t, o.value_control->escape_mode);
    if (cut) out += o.value_control->str_cutoff_suffix;
  }
  static bool skip(const SO& o, const N& n) {
    const auto& f = *o.field_control;
    if (f.suppress) return true;
    if (n.k == kNullT || ((n.k == kPtr || n.k == kSmart) && n.kids.empty())) return f.suppress_nullptr;
    if (n.k == kOpt && n.kids.empty()) return f.suppress_nullopt;
    return n.k == kDisabled && f.suppress_disabled;
  }
  void fields(const N& n, const SO& self, const SO& sepo, const Names& names, bool allow) {
    out += self.format->structure_prefix; lev.emplace_back(self.format->field_indent); bool sep = false;
    for (std::size_t i = 0; i < n.kids.size(); ++i) {
      FO f = i < n.opts.size() && n.opts[i] ? *n.opts[i] : def;
      if (skip(*f.outer, n.kids[i])) continue;
      if (sep) out += sepo.format->field_separator;
      sep = true; nl(self.format->field_indent);
      if (allow) key(*f.outer, i < names.size() ? names[i] : std::string(), i, true);
      val(n.kids[i], f, allow);
    }
    lev.pop_back(); nl(self.format->field_indent); out += self.format->structure_suffix;
  }
  void val(const N& n, FO o, bool allow) {
    const SO& u = *o.outer; const auto& f = *u.format; const FO in{o.inner, o.inner};
    const bool numeric = u.key_control->key_mode == SO::KeyMode::kNumericFallback;
    switch (n.k) {
      case kNum: out += u.value_overrides->replacement_other.empty() ? n.t : std::string(u.value_overrides->replacement_other); break;
      case kStr: out += f.string_delim; str(n.t, u); out += f.string_delim; break;
      case kChr:
        if (f.char_delim.empty()) { out += nd(n.c).t; break; }
        out += f.char_delim; if (u.value_control->escape_mode == SO::EscapeMode::kNone && n.t[0] == '\'') str("\\'", u); else str(n.t, u); out += f.char_delim; break;
      case kList: case kMap: {
        const bool keyed = n.k == kMap && u.special->str_keyed != SO::StrKeyed::kNormal;
        std::vector<std::size_t> order; for (std::size_t i = 0; i < n.kids.size() && i < u.value_control->container_max_len; ++i) order.push_back(i);
        if (keyed && u.special->str_keyed == SO::StrKeyed::kFirstIsNameOrdered) for (std::size_t i = 0; i < order.size(); ++i) for (std::size_t j = i + 1; j < order.size(); ++j) if (n.names[order[j]] < n.names[order[i]]) std::swap(order[i], order[j]);
        out += keyed ? f.structure_prefix : f.container_prefix; lev.emplace_back(f.field_indent); bool sep = false; std::size_t pos = 0;
        for (const std::size_t i : order) {
          if (sep) out += f.field_separator;
          sep = true; nl(f.field_indent);
          if (keyed) { if (allow) key(u, n.names[i], pos, false); val(n.kids[i], in, allow); }
          else if (n.k == kMap) { N p; p.k = kPair; p.kids = {nd(std::string_view(n.names[i])), n.kids[i]}; val(p, in, allow); }
          else val(n.kids[i], in, allow);
          ++pos;
        }
        lev.pop_back(); nl(f.field_indent); out += keyed ? f.structure_suffix : f.container_suffix; break;
      }
      case kStruct: fields(n, u, u, n.names, !n.noname || numeric); break;
      case kPair: { const auto& pk = u.special->pair_keys; fields(n, u, *o.inner, {pk ? std::string(pk->first) : "first", pk ? std::string(pk->second) : "second"}, allow); break; }
      case kPtr: if (n.kids.empty()) { out += u.value_control->nullptr_v_str; break; } out += f.pointer_prefix; val(n.kids[0], in, allow); out += f.pointer_suffix; break;
      case kSmart: if (n.kids.empty()) { out += u.value_control->nullptr_v_str; break; } out += f.smart_ptr_prefix; val(n.kids[0], in, allow); out += f.smart_ptr_suffix; break;
      case kOpt: if (n.kids.empty()) { out += u.value_control->nullopt_str; break; } out += f.optional_prefix; val(n.kids[0], in, allow); out += f.optional_suffix; break;
      case kNullT: out += u.value_control->nullptr_t_str; break;
      case kDisabled: out += u.field_control->field_disabled; break;
      case kRef: if (n.kids.empty()) out += u.value_control->nullopt_str; else val(n.kids[0], o, allow); break;
      case kVar: case kAcc: val(n.kids[0], o, n.kids[0].k == kMap || numeric); break;
    }
  }
};
std::string print(const N& n, const SO& o, const StringifyRootOptions& r) {
  Pr p{.def = {&o, &o}}; if (!r.root_indent.empty()) p.lev.emplace_back(r.root_indent);
  p.out += r.root_prefix; p.out += o.format->message_prefix; p.val(n, p.def, true); p.out += o.format->message_suffix; p.out += r.root_suffix; return p.out;
}
// ---- JSON
void jcmp(const jsonp::V& v, const N& n, bool ordered) {
  switch (n.k) {
    case kNum: if (n.t == "true" || n.t == "false") sx_assert(v.k == jsonp::kBool && v.b == (n.t == "true"), "a bool reads back differently"); else sx_assert(v.k == jsonp::kNumber && v.t == n.t, "a number reads back differently"); break;
    case kStr: case kChr: sx_assert(v.k == jsonp::kString && v.t == n.t, "a string reads back differently"); break;
    case kList:
      sx_assert(v.k == jsonp::kArray && v.a.size() == n.kids.size(), "a container reads back differently");
      for (std::size_t i = 0; i < n.kids.size() && i < v.a.size(); ++i) jcmp(v.a[i], n.kids[i], ordered);
      break;
    case kMap: case kStruct: case kPair: {
      std::vector<std::size_t> show; for (std::size_t i = 0; i < n.kids.size(); ++i) if (n.k == kMap || !((n.kids[i].k == kPtr || n.kids[i].k == kSmart || n.kids[i].k == kOpt) && n.kids[i].kids.empty()) && n.kids[i].k != kNullT && n.kids[i].k != kDisabled) show.push_back(i);
      if (n.k == kMap && ordered) for (std::size_t i = 0; i < show.size(); ++i) for (std::size_t j = i + 1; j < show.size(); ++j) if (n.names[show[j]] < n.names[show[i]]) std::swap(show[i], show[j]);
      sx_assert(v.k == jsonp::kObject && v.o.size() == show.size(), "a struct reads back with other fields");
      if (v.o.size() != show.size()) return;
      for (std::size_t i = 0; i < show.size(); ++i) {
        const std::size_t s = show[i];
        const std::string name = n.k == kPair ? (s ? "second" : "first") : s < n.names.size() && (!n.names[s].empty() || n.k == kMap) ? n.names[s] : nd(static_cast<int>(s)).t;
        if (!(n.k == kMap && name.empty())) sx_assert(v.o[i].first == name, "a field reads back with another name"); else sx_cover("empty key");
        jcmp(v.o[i].second, n.kids[s], ordered);
      }
      break;
    }
    case kNullT: sx_assert(v.k == jsonp::kNull, "null reads back differently"); break;
    case kDisabled: break;
    default: if (n.kids.empty()) sx_assert(v.k == jsonp::kNull, "null reads back differently"); else jcmp(v, n.kids[0], ordered); break;
  }
}
// ---- the options
SO table(unsigned mode) {
  SO o = SO::WithAllData({});
  auto& f = o.format.as_data(); auto& fc = o.field_control.as_data(); auto& kc = o.key_control.as_data(); auto& vc = o.value_control.as_data(); auto& sp = o.special.as_data();
  const bool cpp = mode == 1 || mode == 2, json = mode >= 3 && mode <= 5, pretty = mode == 2 || mode == 5;
  f.message_prefix = ""; f.message_suffix = mode >= 2 ? "\n" : ""; f.field_indent = pretty ? "  " : "";
  f.key_value_separator = cpp ? " = " : mode == 3 ? ":" : ": "; f.field_separator = pretty || mode == 3 ? "," : ", ";
  f.pointer_prefix = mode == 0 ? "*{" : ""; f.pointer_suffix = mode == 0 ? "}" : "";
  f.smart_ptr_prefix = json ? "" : "{"; f.smart_ptr_suffix = json ? "" : "}"; f.optional_prefix = json ? "" : "{"; f.optional_suffix = json ? "" : "}";
  f.structure_prefix = "{"; f.structure_suffix = "}"; f.container_prefix = json ? "[" : "{"; f.container_suffix = json ? "]" : "}"; f.char_delim = json ? "\"" : "'"; f.string_delim = "\"";
  fc.suppress = false; fc.suppress_nullptr = fc.suppress_nullopt = fc.suppress_disabled = json; fc.field_disabled = json ? "{}" : "{/*MboTypesStringifyDisable*/}";
  kc.key_mode = json ? SO::KeyMode::kNumericFallback : SO::KeyMode::kNormal; kc.key_prefix = json ? "\"" : "."; kc.key_suffix = json ? "\"" : "";
  vc.escape_mode = json ? SO::EscapeMode::kJsonEscape : SO::EscapeMode::kCEscape; vc.nullptr_t_str = json ? "null" : cpp ? "nullptr" : "std::nullptr_t"; vc.nullptr_v_str = json ? "null" : cpp ? "nullptr" : "<nullptr>"; vc.nullopt_str = json ? "null" : "std::nullopt";
  sp.str_keyed = mode == 5 ? SO::StrKeyed::kFirstIsNameOrdered : json ? SO::StrKeyed::kFirstIsName : SO::StrKeyed::kNormal;
  return o;
}
SO marked(const char* name, unsigned groups, bool pretty) {
  SO o = SO::WithAllData({});
  auto& f = o.format.as_data(); auto& fc = o.field_control.as_data(); auto& kc = o.key_control.as_data(); auto& vc = o.value_control.as_data(); auto& vo = o.value_overrides.as_data(); auto& sp = o.special.as_data();
  f = {.message_prefix = "<m>", .message_suffix = "</m>", .field_indent = pretty ? "##" : "", .key_value_separator = "~", .field_separator = ";", .pointer_prefix = "<p>", .pointer_suffix = "</p>", .smart_ptr_prefix = "<u>", .smart_ptr_suffix = "</u>", .optional_prefix = "<o>", .optional_suffix = "</o>", .structure_prefix = "<s>", .structure_suffix = "</s>", .container_prefix = "<l>", .container_suffix = "</l>", .char_delim = "<c>", .string_delim = "<q>"};
  fc.field_disabled = "<off>"; kc.key_prefix = "<k>"; kc.key_suffix = "</k>"; vc.nullptr_t_str = "<nt>"; vc.nullptr_v_str = "<nv>"; vc.nullopt_str = "<no>"; vc.str_cutoff_suffix = "<cut>";
  (void)name;
  if (groups & 1) { vc.escape_mode = static_cast<SO::EscapeMode>(sx_choice(4, "escape")); const unsigned l = sx_choice(3, "maxlen"); if (l < 2) vc.str_max_length = l; }
  if (groups & 2) { if (sx::flag("redact")) vo.replacement_str = "<R>"; if (sx::flag("redactnum")) vo.replacement_other = "<r>"; }
  if (groups & 4) { kc.key_mode = static_cast<SO::KeyMode>(sx_choice(3, "keymode")); const unsigned p = sx_choice(3, "pairkeys"); if (p == 0) sp.pair_keys = std::nullopt; else if (p == 1) sp.pair_keys = std::make_pair(std::string_view("L"), std::string_view("")); }
  if (groups & 8) { fc.suppress = sx::flag("suppress"); fc.suppress_nullptr = sx::flag("nonullptr"); fc.suppress_nullopt = sx::flag("nonullopt"); fc.suppress_disabled = sx::flag("nodisabled"); }
  if (groups & 16) { const unsigned l = sx_choice(3, "maxitems"); if (l < 2) vc.container_max_len = l; sp.str_keyed = static_cast<SO::StrKeyed>(sx_choice(3, "strkeyed")); }
  if (groups & 32) { if (sx::flag("charnum")) f.char_delim = ""; vc.other_types_direct = sx::flag("direct"); }
  return o;
}
// ---- one field of each kind between two numbers
template <class X> struct S { int i; X x; int j; friend std::array<std::string_view, 3> MboTypesStringifyFieldNames(const S&) { return {"i", "x", "j"}; } };
template <class X> N nd(const S<X>& v) { return st({"i", "x", "j"}, {nd(v.i), nd(v.x), nd(v.j)}); }
int num(const char* name) { static const int v[] = {0, -1, 42, -2147483647 - 1, 2147483647}; return v[sx_choice(5, name)]; }
std::string text(std::size_t n, const char* name) { sx::Buf b(n, name); return std::string(b.sv()); }
template <class V> void decide(const V& v, const N& n) {
  const unsigned mode = sx_param(0), groups = sx_param(2);
  StringifyRootOptions root; if (groups & 64) { root = {.root_prefix = "<root>", .root_suffix = "</root>", .root_indent = "%"}; }
  std::string got, want;
  if (mode < 6) {
    const SO t = table(mode);
    got = Stringify(static_cast<Stringify::OutputMode>(mode), root).ToString(v); want = print(n, t, root);
    if (groups & 64) { sx_assert(Stringify(static_cast<Stringify::OutputMode>(mode)).ToString(v, root) == got, "root options given to ToString differ from those given to the printer"); }
  } else {
    const SO o = marked("o", groups, mode == 7);
    got = Stringify(o, root).ToString(v); want = print(n, o, root);
  }
  sx_assert(sx::same(got, want), "the printed form is not the decorated list of the fields");
  if (mode >= 3 && mode <= 5 && !(groups & 64)) { jsonp::V j; const bool ok = jsonp::parse(got, j); sx_assert(ok, "a JSON mode prints invalid JSON"); if (ok) { jcmp(j, n, mode == 5); sx_cover("json"); } }
  sx_cover("printed");
}
template <class X> void field(X x) { const S<X> s{7, std::move(x), -8}; decide(s, nd(s)); }
}  // namespace
SX_JOB text() {
  const std::string n1 = "k", n2 = "j"; int number = 5; const std::string word = "w";
  switch (sx_param(1)) {
    case 0: { const Sub s{num("n"), text(sx_param(0) < 6 ? 2 : 1, "s")}; decide(s, nd(s)); break; }
    case 1: field(sx::flag("b")); break;
    case 2: field(static_cast<char>(sx::make<uint8_t>("c"))); break;
    case 3: field(sx::make<uint8_t>("c")); break;
    case 4: { const std::string t = text(sx_choice(3, "n"), "s"); field(std::string_view(t)); break; }
    case 5: field(sx::flag("o") ? std::optional<std::string>(text(1, "s")) : std::nullopt); break;
    case 6: field(sx::flag("o") ? std::make_unique<std::string>(text(1, "s")) : nullptr); break;
    case 7: field(sx::flag("o") ? std::make_shared<int>(num("n")) : nullptr); break;
    case 8: field(sx::flag("o") ? &number : nullptr); break;
    case 9: field(sx::flag("o") ? &word : nullptr); break;
    case 10: field(nullptr); break;
    case 11: { std::vector<std::string> v; for (unsigned i = sx_choice(3, "n"); i > 0; --i) v.push_back(text(1, i == 1 ? "s" : "t")); field(std::move(v)); break; }
    case 12: { std::vector<std::optional<int>> v{1, sx::flag("o") ? std::optional<int>(2) : std::nullopt}; field(std::move(v)); break; }
    case 13: { std::map<std::string, int> m; for (unsigned i = sx_choice(3, "n"); i > 0; --i) m.emplace(i == 1 ? text(1, "s") : "m", static_cast<int>(i)); field(std::move(m)); break; }
    case 14: { std::map<int, std::string> m; for (unsigned i = sx_choice(3, "n"); i > 0; --i) m.emplace(static_cast<int>(i), i == 1 ? text(1, "s") : "m"); field(std::move(m)); break; }
    case 15: field(std::array<int, 2>{num("n"), 4}); break;
    case 16: field(std::pair<int, std::string>(num("n"), text(1, "s"))); break;
    case 17: { std::variant<int, std::string, Sub> v; switch (sx_choice(3, "alt")) { case 0: v = num("n"); break; case 1: v = text(1, "s"); break; default: v = Sub{3, text(1, "s")}; } field(std::move(v)); break; }
    case 18: field(Sub{num("n"), text(1, "s")}); break;
    case 19: field(std::vector<Sub>{{1, text(1, "s")}, {2, "u"}}); break;
    case 20: field(Off{1}); break;
    case 21: field(NoName{num("n"), text(1, "s")}); break;
    case 22: field(Plain{num("n"), text(1, "s")}); break;
    case 23: field(FewNames{num("n"), text(1, "s")}); break;
    case 24: field(QuoteName{1}); break;
    case 25: field(std::reference_wrapper<const std::string>(word)); break;
    case 26: { mbo::types::OptionalRef<const std::string> r; if (sx::flag("o")) r.set_ref(word); field(r); break; }
    case 27: { mbo::types::OptionalDataOrRef<std::string> r; std::string w = text(1, "s"); if (sx::flag("o")) r.set_ref(w); field(r); break; }
    case 28: { std::vector<std::pair<std::string, int>> m{{n1, 1}, {sx::flag("x") ? n2 : "z", 2}}; field(std::move(m)); break; }
    case 29: { std::variant<std::pair<int, std::string>, std::vector<std::pair<int, int>>, std::map<std::string, int>> v; switch (sx_choice(3, "alt")) { case 0: v = std::pair<int, std::string>(1, text(1, "s")); break; case 1: v = std::vector<std::pair<int, int>>{{1, 2}}; break; default: v = std::map<std::string, int>{{"x", 1}}; } field(std::move(v)); break; }
    case 30: { std::vector<Off> v(sx_choice(3, "n"), Off{1}); field(std::move(v)); break; }
    case 31: field(std::vector<std::vector<std::pair<std::string, std::string>>>{{{"a", text(1, "s")}}, {}}); break;
    case 32: field(Nothing{}); break;
    case 33: { const std::map<std::string, Sub> m{{text(1, "s"), Sub{1, "x"}}}; decide(m, nd(m)); break; }
    case 34: { Ext e{{}, num("n"), text(1, "s")}; field(e); break; }
    case 35: field(Acc{text(1, "s")}); break;
    case 36: field(std::make_unique<Sub>(Sub{1, text(1, "s")})); break;
    case 37: field(std::optional<std::vector<std::string>>(std::vector<std::string>{text(1, "s"), "b"})); break;
    case 38: { const Nothing e; decide(e, nd(e)); break; }
    default: { const Plain p{num("n"), text(1, "s")}; decide(p, nd(p)); break; }
  }
}
// ---- options that a struct gives its own fields
namespace {
const SO& partial() { static const SO o{.format{SO::Format{.key_value_separator = "=", .field_separator = "|", .structure_prefix = "(", .structure_suffix = ")", .container_prefix = "[", .container_suffix = "]", .string_delim = "`"}}, .key_control{SO::KeyControl{.key_prefix = "-", .key_suffix = "_"}}, .key_overrides{SO::KeyOverrides{.key_use_name = "other"}}}; return o; }
const SO& inner() { static const SO o{.format{SO::Format{.field_separator = "/", .container_prefix = "<<", .container_suffix = ">>", .string_delim = "^"}}, .value_control{SO::ValueControl{.escape_mode = SO::EscapeMode::kNone}}}; return o; }
SO merged(const SO& o, const SO& base) {
  SO r = o;
  if (!r.format.has_value()) r.format = base.format; if (!r.field_control.has_value()) r.field_control = base.field_control; if (!r.key_control.has_value()) r.key_control = base.key_control; if (!r.key_overrides.has_value()) r.key_overrides = base.key_overrides;
  if (!r.value_control.has_value()) r.value_control = base.value_control; if (!r.value_overrides.has_value()) r.value_overrides = base.value_overrides; if (!r.special.has_value()) r.special = base.special; return r;
}
using L = std::vector<std::string>; using LL = std::vector<L>;
#define FIELDS int a; X x; int b; friend std::array<std::string_view, 3> MboTypesStringifyFieldNames(const C& /*v*/) { return {"a", "x", "b"}; }
template <class X> struct ByValue { using C = ByValue; FIELDS friend SO MboTypesStringifyOptions(const C&, const StringifyFieldInfo& f) { return f.idx == 1 ? partial() : f.options.outer; } };
template <class X> struct ByRef { using C = ByRef; FIELDS friend const SO& MboTypesStringifyOptions(const C&, const StringifyFieldInfo& f) { return f.idx == 1 ? partial() : f.options.outer; } };
template <class X> struct Both { using C = Both; FIELDS friend StringifyFieldOptions MboTypesStringifyOptions(const C&, const StringifyFieldInfo& f) { return f.idx == 1 ? StringifyFieldOptions(partial(), inner()) : f.options; } };
template <class X> struct BothRef { using C = BothRef; FIELDS friend const StringifyFieldOptions& MboTypesStringifyOptions(const C&, const StringifyFieldInfo& f) { static const StringifyFieldOptions o(partial(), inner()); return f.idx == 1 ? o : f.options; } };
template <class X> struct Ready { using C = Ready; FIELDS friend const SO& MboTypesStringifyOptions(const C&, const StringifyFieldInfo& f) { return f.idx == 1 ? Stringify::OptionsCppPretty() : f.idx == 2 ? Stringify::OptionsDisabled() : f.options.outer; } };
template <class X> struct Named { using C = Named; int a; X x; int b; friend SO MboTypesStringifyOptions(const C& v, const StringifyFieldInfo& f) { static const std::array<std::string_view, 2> names{"A", "X"}; return mbo::types::StringifyWithFieldNames(names, mbo::types::StringifyNameHandling::kOverwrite)(v, f); } };
template <template <class> class C, class X> void custom(X x, unsigned which) {
  const unsigned mode = sx_param(2);
  const C<X> v{1, std::move(x), 2}; const SO base = mode < 6 ? table(mode) : marked("o", 0, mode == 7);
  const SO mo = which == 4 ? table(2) : which == 5 ? base : merged(partial(), base), mi = which == 2 || which == 3 ? merged(inner(), base) : mo;
  SO off = table(0); off.field_control.as_data().suppress = true;
  SO na = base, nx = base; na.key_overrides.as_data().key_use_name = "A"; nx.key_overrides.as_data().key_use_name = "X";
  const FO fx{&mo, &mi}, fb{&off, &off}, fna{&na, &na}, fnx{&nx, &nx};
  N n = st({"a", "x", "b"}, {nd(v.a), nd(v.x), nd(v.b)});
  n.opts = {nullptr, &fx, which == 4 ? &fb : nullptr}; if (which == 5) n.opts = {&fna, &fnx, nullptr};
  const std::string got = mode < 6 ? Stringify(static_cast<Stringify::OutputMode>(mode)).ToString(v) : Stringify(base).ToString(v);
  sx_assert(sx::same(got, print(n, base, {})), "the printed form does not follow the options a struct gives its fields");
  sx_cover("custom");
}
template <class X> void customs(X x) {
  switch (sx_param(0)) {
    case 0: custom<ByValue>(std::move(x), 0); break;
    case 1: custom<ByRef>(std::move(x), 1); break;
    case 2: custom<Both>(std::move(x), 2); break;
    case 3: custom<BothRef>(std::move(x), 3); break;
    case 4: custom<Ready>(std::move(x), 4); break;
    default: custom<Named>(std::move(x), 5); break;
  }
}
}  // namespace
SX_JOB options() {
  switch (sx_param(1)) {
    case 0: customs(text(1, "s")); break;
    case 1: customs(LL{L{text(1, "s"), "t"}, L{}}); break;
    case 2: customs(std::map<std::string, L>{{"k", L{text(1, "s")}}}); break;
    case 3: customs(Sub{1, text(1, "s")}); break;
    case 4: customs(std::optional<L>(L{text(1, "s"), "y"})); break;
    default: customs(std::vector<Sub>{{1, text(1, "s")}}); break;
  }
}
// ---- what the extenders and the streams print
SX_JOB printed() {
  const Ext e{{}, num("n"), text(1, "s")}; const N n = nd(e); const unsigned mode = sx_param(0); const SO t = table(mode), plain = table(0);
  sx_assert(sx::same(e.ToString(), print(n, plain, {})), "ToString of an Extend struct");
  sx_assert(sx::same(e.ToJsonString(), print(n, table(3), {})), "ToJsonString of an Extend struct");
  sx_assert(sx::same(e.ToString(Stringify::OptionsAs(static_cast<Stringify::OutputMode>(mode))), print(n, t, {})), "ToString of an Extend struct with options");
  { std::ostringstream os; os << e; sx_assert(sx::same(os.str(), print(n, plain, {})), "streaming an Extend struct"); }
  sx_assert(sx::same(absl::StrCat("<", e, ">"), "<" + print(n, plain, {}) + ">"), "AbslStringify of an Extend struct");
  const Sub s{e.a, e.s};
  { std::ostringstream os; ::operator<<(os, s); sx_assert(sx::same(os.str(), print(nd(s), plain, {})), "streaming a struct that supports Stringify"); }
  mbo::types::SetStringifyOstreamOutputMode(static_cast<Stringify::OutputMode>(mode));
  { std::ostringstream os; ::operator<<(os, s); sx_assert(sx::same(os.str(), print(nd(s), t, {})), "streaming ignores the output mode that was set"); }
  static const SO m = marked("o", 0, true); mbo::types::SetStringifyOstreamOptions(m);
  { std::ostringstream os; ::operator<<(os, s); sx_assert(sx::same(os.str(), print(nd(s), m, {})), "streaming ignores the options that were set"); }
  sx_cover("extender");
}
// ---- Json documents
namespace {
using mbo::json::Json;
struct D { int k = 0; bool b = false; int i = 0; std::string t; std::vector<D> a; std::map<std::string, D> o; };  // null bool int string array object
void grow(Json& j, D& d, unsigned depth) {
  static const char* const ids[] = {"ka", "kb", "kc"}; static const char* const bs[] = {"ba", "bb", "bc"}; static const char* const ss[] = {"sa", "sb", "sc"}; static int at = 0;
  if (depth == sx_param(0)) at = 0;
  const int me = at < 3 ? at++ : 2;
  d.k = static_cast<int>(sx_choice(depth ? 6 : 4, ids[me]));
  switch (d.k) {
    case 0: break;
    case 1: d.b = sx::flag(bs[me]); j = d.b; break;
    case 2: d.i = me ? -5 : num("n"); j = d.i; break;
    case 3: d.t = me < 1 || sx_param(0) == 0 ? text(2, ss[me]) : text(1, ss[me]); j = d.t; break;
    case 4: { j.MakeArray(); for (unsigned n = 0; n < 2; ++n) { Json c; d.a.emplace_back(); grow(c, d.a.back(), depth - 1); j.push_back(std::move(c)); if (depth > 1) break; } break; }
    default: { j.MakeObject(); for (unsigned n = 0; n < 2; ++n) { const std::string key = n ? "z" : "k\"\n"; Json c; grow(c, d.o[key], depth - 1); j[key] = std::move(c); if (depth > 1) break; } break; }
  }
}
void dcmp(const jsonp::V& v, const D& d, bool ordered) {
  switch (d.k) {
    case 0: sx_assert(v.k == jsonp::kNull, "a null reads back differently"); break;
    case 1: sx_assert(v.k == jsonp::kBool && v.b == d.b, "a bool reads back differently"); break;
    case 2: sx_assert(v.k == jsonp::kNumber && v.t == nd(d.i).t, "a number reads back differently"); break;
    case 3: sx_assert(v.k == jsonp::kString && sx::same(v.t, d.t), "a string reads back differently"); break;
    case 4: sx_assert(v.k == jsonp::kArray && v.a.size() == d.a.size(), "an array reads back differently"); if (v.a.size() == d.a.size()) for (std::size_t i = 0; i < d.a.size(); ++i) dcmp(v.a[i], d.a[i], ordered); break;
    default: {
      sx_assert(v.k == jsonp::kObject && v.o.size() == d.o.size(), "an object reads back differently"); std::string last;
      for (const auto& [name, x] : v.o) { const auto it = d.o.find(name); sx_assert(it != d.o.end(), "an object has an unknown key"); if (it != d.o.end()) dcmp(x, it->second, ordered); if (ordered) sx_assert(last < name, "keys are not in order"); last = name; }
    }
  }
}
}  // namespace
SX_JOB document() {
  Json j; D d; d.k = 5; j.MakeObject(); { Json c; grow(c, d.o["x"], sx_param(0)); j["x"] = std::move(c); }
  for (const auto mode : {Json::SerializeMode::kCompact, Json::SerializeMode::kLine, Json::SerializeMode::kPretty}) {
    const std::string s = j.Serialize(mode); jsonp::V v; const bool ok = jsonp::parse(s, v);
    sx_assert(ok, "Serialize prints invalid JSON"); if (ok) dcmp(v, d, mode == Json::SerializeMode::kPretty);
    sx_assert(!s.empty() && s.back() == '\n', "Serialize does not end the line");
    std::ostringstream os; j.Stream(os, mode); sx_assert(sx::same(os.str(), s), "Stream and Serialize differ");
    sx_assert((mode == Json::SerializeMode::kPretty) || s.find('\n') == s.size() - 1, "a compact form has more than one line");
  }
  { Json none; jsonp::V v; const bool ok = jsonp::parse(none.Serialize(), v); sx_assert(ok && v.k == jsonp::kObject && v.o.empty(), "a Null does not serialize as an empty object"); }
  sx_cover("document");
}
