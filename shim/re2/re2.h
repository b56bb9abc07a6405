// Stand-in for RE2 written from https://github.com/google/re2/wiki/Syntax: literals, ., classes (ranges, negation, [:name:], \d \w \s),
// groups (capturing, non capturing, flags), alternation, * + ? {n,m} (greedy and lazy), ^ $ \A \z \b. Bytes, not UTF-8. Matching without
// captures runs the automaton as a set of states (no branching on the text); with captures it backtracks, leftmost-first as RE2 does.
#pragma once
#include <cctype>
#include <cstdint>
#include <limits>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
class RE2 {
 public:
  enum ErrorCode { NoError = 0, ErrorInternal, ErrorBadEscape, ErrorBadCharClass, ErrorBadCharRange, ErrorMissingBracket, ErrorMissingParen, ErrorUnexpectedParen, ErrorTrailingBackslash, ErrorRepeatArgument, ErrorRepeatSize, ErrorRepeatOp, ErrorBadPerlOp, ErrorBadUTF8, ErrorBadNamedCapture, ErrorPatternTooLarge };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {
   public:
    Options() = default;
    Options(CannedOptions) {}  // NOLINT
    bool case_sensitive() const { return case_; } void set_case_sensitive(bool b) { case_ = b; }
    bool dot_nl() const { return dot_; } void set_dot_nl(bool b) { dot_ = b; }
    bool literal() const { return literal_; } void set_literal(bool b) { literal_ = b; }
    bool never_nl() const { return false; } void set_never_nl(bool) {} bool log_errors() const { return log_; } void set_log_errors(bool b) { log_ = b; } void set_longest_match(bool) {} void set_posix_syntax(bool) {} void set_one_line(bool) {} void set_never_capture(bool) {} void set_max_mem(std::int64_t) {}
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 }; void set_encoding(Encoding) {}
   private:
    bool case_ = true, dot_ = false, literal_ = false, log_ = true;
  };
  RE2(const char* p) : RE2(std::string_view(p)) {}                 // NOLINT
  RE2(const std::string& p) : RE2(std::string_view(p)) {}          // NOLINT
  RE2(std::string_view p) : RE2(p, Options()) {}                   // NOLINT
  RE2(std::string_view p, const Options& o) : pattern_(p), options_(o) { compile(); }
  RE2(const RE2&) = delete; RE2& operator=(const RE2&) = delete;
  bool ok() const { return error_ == NoError; } ErrorCode error_code() const { return error_; } const std::string& error() const { return message_; } const std::string& pattern() const { return pattern_; } const Options& options() const { return options_; }
  int NumberOfCapturingGroups() const { return groups_; }
  template <class... A> static bool FullMatch(std::string_view t, const RE2& re, A&&... a) { return re.match(t, ANCHOR_BOTH, nullptr, a...); }
  template <class... A> static bool PartialMatch(std::string_view t, const RE2& re, A&&... a) { return re.match(t, UNANCHORED, nullptr, a...); }
  template <class... A> static bool Consume(std::string_view* t, const RE2& re, A&&... a) { std::size_t e = 0; if (!re.match(*t, ANCHOR_START, &e, a...)) return false; t->remove_prefix(e); return true; }
  template <class... A> static bool FindAndConsume(std::string_view* t, const RE2& re, A&&... a) { std::size_t e = 0; if (!re.match(*t, UNANCHORED, &e, a...)) return false; t->remove_prefix(e); return true; }
  static bool Replace(std::string* s, const RE2& re, std::string_view rw) {
    std::vector<std::size_t> cap; if (!re.ok() || !re.search(*s, UNANCHORED, 0, cap)) return false;
    std::string r; if (!re.rewrite(*s, rw, cap, r)) return false;
    *s = s->substr(0, cap[0]) + r + s->substr(cap[1]); return true;
  }
  static int GlobalReplace(std::string* s, const RE2& re, std::string_view rw) {
    int n = 0; std::string out; std::size_t p = 0, last = std::string::npos; std::string_view t = *s;
    while (re.ok() && p <= t.size()) {
      std::vector<std::size_t> cap; if (!re.search(t, UNANCHORED, p, cap)) break;
      out.append(t.substr(p, cap[0] - p));
      if (cap[0] == last && cap[0] == cap[1]) { if (p < t.size()) out.push_back(t[p]); ++p; continue; }
      if (!re.rewrite(t, rw, cap, out)) return 0;
      p = cap[1]; last = p; ++n;
    }
    if (n) { if (p < t.size()) out.append(t.substr(p)); *s = out; }
    return n;
  }
  static std::string QuoteMeta(std::string_view t) { std::string r; for (char c : t) { if (!(std::isalnum(static_cast<unsigned char>(c)) || c == '_' || (c & 0x80))) r.push_back('\\'); r.push_back(c); } return r; }

 private:
  enum Kind : unsigned char { kSet, kSplit, kJump, kSave, kBegin, kEnd, kWord, kNotWord, kMatch };
  struct Range { unsigned char lo, hi; };
  struct Inst { Kind kind; std::size_t a = 0, b = 0; std::vector<Range> set; bool neg = false; };
  using Code = std::vector<Inst>;  // jump targets are relative to the instruction
  struct Flags { bool icase, dotall, multi; };
  std::string pattern_; Options options_; ErrorCode error_ = NoError; std::string message_; Code code_; int groups_ = 0; std::size_t pos_ = 0; Flags flags_{};

  void fail(ErrorCode e, const char* m) { if (error_ == NoError) { error_ = e; message_ = m; } }
  bool more() const { return pos_ < pattern_.size(); }
  char peek(std::size_t k = 0) const { return pos_ + k < pattern_.size() ? pattern_[pos_ + k] : '\0'; }
  void compile() {
    flags_ = {!options_.case_sensitive(), options_.dot_nl(), false}; Code c;
    if (options_.literal()) { for (char x : pattern_) put(c, one(x)); } else { c = alt(); if (error_ == NoError && more()) fail(ErrorUnexpectedParen, "unexpected )"); }
    code_.push_back({kSave, 0}); append(code_, c); code_.push_back({kSave, 1}); code_.push_back({kMatch});
    if (error_ != NoError) code_.clear();
    for (const Inst& i : code_) back_ += i.kind == kJump && i.a > code_.size();
  }
  static void append(Code& to, const Code& c) { for (const Inst& i : c) to.push_back(i); }
  static void put(Code& to, Inst i) { to.push_back(std::move(i)); }
  Inst one(char x) {
    Inst i{kSet}; auto u = static_cast<unsigned char>(x); i.set.push_back({u, u});
    if (flags_.icase && std::isalpha(u)) { auto o = static_cast<unsigned char>(std::islower(u) ? std::toupper(u) : std::tolower(u)); i.set.push_back({o, o}); }
    return i;
  }
  Code alt() {
    Flags save = flags_; std::vector<Code> parts; parts.push_back(seq());
    while (error_ == NoError && more() && peek() == '|') { ++pos_; parts.push_back(seq()); }
    flags_ = save; Code r = std::move(parts.back());
    for (std::size_t k = parts.size() - 1; k-- > 0;) {
      Code n; n.push_back({kSplit, 1, parts[k].size() + 2}); append(n, parts[k]); n.push_back({kJump, r.size() + 1}); append(n, r); r = std::move(n);
    }
    return r;
  }
  Code seq() {
    Code r;
    while (error_ == NoError && more() && peek() != '|' && peek() != ')') {
      Code a = atom(); if (error_ != NoError) return r;
      bool repeated = false;
      while (more()) {
        char c = peek(); std::size_t lo = 0, hi = 0, len = 1;
        if (c == '*') { lo = 0; hi = ~std::size_t{0}; } else if (c == '+') { lo = 1; hi = ~std::size_t{0}; } else if (c == '?') { lo = 0; hi = 1; } else if (c == '{' && braces(lo, hi, len)) {} else break;
        if (repeated) { fail(ErrorRepeatOp, "bad repetition operator"); return r; }
        if (hi != ~std::size_t{0} && (lo > hi || hi > 1000)) { fail(ErrorRepeatSize, "bad repetition"); return r; }
        if (lo > 1000) { fail(ErrorRepeatSize, "bad repetition"); return r; }
        pos_ += len; bool lazy = false; if (more() && peek() == '?') { lazy = true; ++pos_; }
        a = repeat(a, lo, hi, lazy); repeated = true;
      }
      append(r, a);
    }
    return r;
  }
  bool braces(std::size_t& lo, std::size_t& hi, std::size_t& len) const {
    std::size_t p = pos_ + 1, q = p; lo = 0; while (p < pattern_.size() && pattern_[p] >= '0' && pattern_[p] <= '9') { lo = lo * 10 + static_cast<std::size_t>(pattern_[p] - '0'); ++p; if (lo > 100000) lo = 100000; }
    if (p == q) return false;
    hi = lo; if (p < pattern_.size() && pattern_[p] == ',') { ++p; q = p; hi = 0; while (p < pattern_.size() && pattern_[p] >= '0' && pattern_[p] <= '9') { hi = hi * 10 + static_cast<std::size_t>(pattern_[p] - '0'); ++p; if (hi > 100000) hi = 100000; } if (p == q) hi = ~std::size_t{0}; }
    if (p >= pattern_.size() || pattern_[p] != '}') return false;
    len = p + 1 - pos_; return true;
  }
  static Inst split(std::size_t take, std::size_t skip, bool lazy) { return lazy ? Inst{kSplit, skip, take} : Inst{kSplit, take, skip}; }
  static Code repeat(const Code& a, std::size_t lo, std::size_t hi, bool lazy) {
    Code r; const std::size_t n = a.size();
    for (std::size_t k = 0; k < lo; ++k) append(r, a);
    if (hi == ~std::size_t{0}) { r.push_back(split(1, n + 2, lazy)); append(r, a); Inst j{kJump}; j.a = 0 - (n + 1); r.push_back(j); }
    else for (std::size_t k = lo; k < hi; ++k) { r.push_back(split(1, (n + 1) * (hi - k), lazy)); append(r, a); }
    return r;
  }
  Code atom() {
    Code r; char c = peek(); ++pos_;
    switch (c) {
      case '*': case '+': case '?': fail(ErrorRepeatArgument, "no argument for repetition operator"); return r;
      case '.': { Inst i{kSet}; if (flags_.dotall) { i.set.push_back({0, 255}); } else { i.set.push_back({10, 10}); i.neg = true; } r.push_back(i); return r; }
      case '^': r.push_back({kBegin}); return r;
      case '$': r.push_back({kEnd}); return r;
      case '[': r.push_back(cls()); return r;
      case '(': return group();
      case '\\': return escape();
      default: r.push_back(one(c)); return r;
    }
  }
  Code group() {
    Code r; bool capture = true; Flags save = flags_;
    if (peek() == '?') {
      ++pos_; capture = false;
      if (peek() == 'P' && peek(1) == '<') { while (more() && peek() != '>') ++pos_; capture = true; if (!more()) { fail(ErrorBadNamedCapture, "bad named capture"); return r; } ++pos_; }
      else {
        bool on = true; while (more() && peek() != ':' && peek() != ')') { char f = peek(); ++pos_; if (f == '-') on = false; else if (f == 'i') flags_.icase = on; else if (f == 's') flags_.dotall = on; else if (f == 'm') flags_.multi = on; else if (f != 'U') { fail(ErrorBadPerlOp, "bad perl operator"); return r; } }
        if (!more()) { fail(ErrorMissingParen, "missing )"); return r; }
        char e = peek(); ++pos_; if (e == ')') return r;  // flags for the rest of the group
      }
    }
    std::size_t id = 0; if (capture) id = static_cast<std::size_t>(++groups_);
    Code b = alt(); if (error_ != NoError) return r;
    if (!more()) { fail(ErrorMissingParen, "missing )"); return r; }
    ++pos_; flags_ = save;
    if (capture) { r.push_back({kSave, 2 * id}); append(r, b); r.push_back({kSave, 2 * id + 1}); } else { r = std::move(b); }
    return r;
  }
  static bool perl(char c, Inst& i) {
    switch (c) {
      case 'd': case 'D': i.set.push_back({'0', '9'}); break;
      case 'w': case 'W': i.set.push_back({'0', '9'}); i.set.push_back({'A', 'Z'}); i.set.push_back({'_', '_'}); i.set.push_back({'a', 'z'}); break;
      case 's': case 'S': i.set.push_back({9, 10}); i.set.push_back({12, 13}); i.set.push_back({' ', ' '}); break;
      default: return false;
    }
    return true;
  }
  static int hexdigit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  // The character of an escape (after the backslash), or -1.
  int literal_escape() {
    if (!more()) { fail(ErrorTrailingBackslash, "trailing \\"); return -1; }
    char c = peek(); ++pos_;
    switch (c) {
      case 'a': return 7; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; case 'v': return 11;
      case 'x': {
        int a = more() ? hexdigit(peek()) : -1, b = pos_ + 1 < pattern_.size() ? hexdigit(peek(1)) : -1; if (a >= 0 && b >= 0) { pos_ += 2; return a * 16 + b; }
        fail(ErrorBadEscape, "invalid escape sequence"); return -1;
      }
      case '0': { int v = 0; for (int k = 0; k < 2 && more() && peek() >= '0' && peek() <= '7'; ++k) { v = v * 8 + (peek() - '0'); ++pos_; } return v; }
      default: break;
    }
    if (static_cast<unsigned char>(c) < 0x80 && !std::isalnum(static_cast<unsigned char>(c)) ) return static_cast<unsigned char>(c);
    fail(ErrorBadEscape, "invalid escape sequence"); return -1;
  }
  Code escape() {
    Code r; if (!more()) { fail(ErrorTrailingBackslash, "trailing \\"); return r; }
    char c = peek(); Inst i{kSet};
    if (perl(c, i)) { ++pos_; i.neg = c == 'D' || c == 'W' || c == 'S'; r.push_back(i); return r; }
    if (c == 'A') { ++pos_; r.push_back({kBegin}); return r; }
    if (c == 'z') { ++pos_; r.push_back({kEnd}); return r; }
    if (c == 'b') { ++pos_; r.push_back({kWord}); return r; }
    if (c == 'B') { ++pos_; r.push_back({kNotWord}); return r; }
    if (c == 'C') { ++pos_; i.set.push_back({0, 255}); r.push_back(i); return r; }
    if (c == 'Q') { ++pos_; while (more() && !(peek() == '\\' && peek(1) == 'E')) { r.push_back(one(peek())); ++pos_; } if (more()) pos_ += 2; return r; }
    int v = literal_escape(); if (v >= 0) r.push_back(one(static_cast<char>(v)));
    return r;
  }
  static void complement(Inst& i) {  // adds the complement of the ranges of `from`
    bool in[256] = {}; for (auto& s : i.set) for (int k = s.lo; k <= s.hi; ++k) in[k] = true;
    i.set.clear(); for (int k = 0; k < 256;) { if (in[k]) { ++k; continue; } int e = k; while (e < 255 && !in[e + 1]) ++e; i.set.push_back({static_cast<unsigned char>(k), static_cast<unsigned char>(e)}); k = e + 1; }
  }
  bool named(Inst& i) {  // [:name:] at pos_
    std::size_t e = pattern_.find(":]", pos_ + 2); if (e == std::string::npos) return false;
    std::string n = pattern_.substr(pos_ + 2, e - pos_ - 2); bool neg = !n.empty() && n[0] == '^'; if (neg) n = n.substr(1);
    Inst j{kSet}; auto add = [&](int a, int b) { j.set.push_back({static_cast<unsigned char>(a), static_cast<unsigned char>(b)}); };
    if (n == "alnum") { add('0', '9'); add('A', 'Z'); add('a', 'z'); } else if (n == "alpha") { add('A', 'Z'); add('a', 'z'); } else if (n == "ascii") { add(0, 127); } else if (n == "blank") { add(9, 9); add(' ', ' '); } else if (n == "cntrl") { add(0, 31); add(127, 127); }
    else if (n == "digit") { add('0', '9'); } else if (n == "graph") { add('!', '~'); } else if (n == "lower") { add('a', 'z'); } else if (n == "print") { add(' ', '~'); } else if (n == "punct") { add('!', '/'); add(':', '@'); add('[', '`'); add('{', '~'); }
    else if (n == "space") { add(9, 13); add(' ', ' '); } else if (n == "upper") { add('A', 'Z'); } else if (n == "word") { add('0', '9'); add('A', 'Z'); add('a', 'z'); add('_', '_'); } else if (n == "xdigit") { add('0', '9'); add('A', 'F'); add('a', 'f'); } else { fail(ErrorBadCharRange, "invalid character class range"); return true; }
    if (neg) complement(j);
    for (auto& s : j.set) i.set.push_back(s);
    pos_ = e + 2; return true;
  }
  Inst cls() {
    Inst i{kSet}; bool neg = peek() == '^' && more(); if (neg) ++pos_;
    bool first = true;
    while (true) {
      if (!more()) { fail(ErrorMissingBracket, "missing ]"); return i; }
      if (peek() == ']' && !first) break;
      first = false;
      if (peek() == '[' && peek(1) == ':' && named(i)) { if (error_ != NoError) return i; continue; }
      if (peek() == '\\') { Inst j{kSet}; char c = peek(1); if (pos_ + 1 < pattern_.size() && perl(c, j)) { pos_ += 2; if (c == 'D' || c == 'W' || c == 'S') complement(j); for (auto& s : j.set) i.set.push_back(s); continue; } }
      int lo = cls_char(); if (lo < 0) return i;
      int hi = lo; if (peek() == '-' && pos_ + 1 < pattern_.size() && peek(1) != ']') { ++pos_; hi = cls_char(); if (hi < 0) return i; if (hi < lo) { fail(ErrorBadCharRange, "invalid character class range"); return i; } }
      i.set.push_back({static_cast<unsigned char>(lo), static_cast<unsigned char>(hi)});
      if (flags_.icase) for (int k = lo; k <= hi; ++k) if (std::isalpha(k)) { auto o = static_cast<unsigned char>(std::islower(k) ? std::toupper(k) : std::tolower(k)); i.set.push_back({o, o}); }
    }
    ++pos_; i.neg = neg; return i;
  }
  int cls_char() {
    if (!more()) { fail(ErrorMissingBracket, "missing ]"); return -1; }
    if (peek() == '\\') { ++pos_; return literal_escape(); }
    return static_cast<unsigned char>(pattern_[pos_++]);
  }

  static bool in(const Inst& i, char ch) { auto c = static_cast<unsigned char>(ch); bool r = false; for (const Range& s : i.set) r |= (c >= s.lo) & (c <= s.hi); return r ^ i.neg; }
  static bool word(char ch) { auto c = static_cast<unsigned char>(ch); return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | ((c >= 'a') & (c <= 'z')); }
  static bool boundary(std::string_view t, std::size_t p) { bool a = p > 0 && word(t[p - 1]), b = p < t.size() && word(t[p]); return a ^ b; }
  // The automaton as a set of states: no branching on the text.
  bool run(std::string_view t, bool start, bool end) const {
    const std::size_t n = code_.size(); std::vector<unsigned char> now(n, 0), next(n, 0); bool found = false;
    for (std::size_t p = 0;; ++p) {
      if (p == 0 || !start) now[0] = 1;
      for (std::size_t round = 0; round <= back_; ++round) {  // closure over the instructions that consume nothing: one round per backward jump
        for (std::size_t k = 0; k < n; ++k) {
          const Inst& i = code_[k]; unsigned char v = now[k];
          switch (i.kind) {
            case kSplit: now[k + i.a] |= v; now[k + i.b] |= v; break;
            case kJump: now[k + i.a] |= v; break;
            case kSave: now[k + 1] |= v; break;
            case kBegin: if (p == 0) now[k + 1] |= v; break;
            case kEnd: if (p == t.size()) now[k + 1] |= v; break;
            case kWord: now[k + 1] |= v & static_cast<unsigned char>(boundary(t, p)); break;
            case kNotWord: now[k + 1] |= v & static_cast<unsigned char>(!boundary(t, p)); break;
            default: break;
          }
        }
      }
      if (!end || p == t.size()) found |= now[n - 1] != 0;
      if (p == t.size()) return found;
      for (std::size_t k = 0; k < n; ++k) next[k] = 0;
      for (std::size_t k = 0; k < n; ++k) if (code_[k].kind == kSet) next[k + 1] |= static_cast<unsigned char>(now[k] & static_cast<unsigned char>(in(code_[k], t[p])));
      now.swap(next);
    }
  }
  std::size_t back_ = 0;
  struct Bt { const RE2* re; std::string_view t; bool end; std::vector<std::size_t>& cap; std::vector<unsigned char> seen; };
  bool bt(Bt& s, std::size_t k, std::size_t p) const {
    for (;;) {
      const Inst& i = code_[k];
      if (i.kind == kSplit) { unsigned char& m = s.seen[k * (s.t.size() + 1) + p]; if (m) return false; m = 1; }
      switch (i.kind) {
        case kSet: if (p == s.t.size() || !in(i, s.t[p])) return false; ++p; ++k; break;
        case kSplit: if (bt(s, k + i.a, p)) return true; k += i.b; break;
        case kJump: k += i.a; break;
        case kSave: { std::size_t old = s.cap[i.a]; s.cap[i.a] = p; if (bt(s, k + 1, p)) return true; s.cap[i.a] = old; return false; }
        case kBegin: if (p != 0) return false; ++k; break;
        case kEnd: if (p != s.t.size()) return false; ++k; break;
        case kWord: if (!boundary(s.t, p)) return false; ++k; break;
        case kNotWord: if (boundary(s.t, p)) return false; ++k; break;
        case kMatch: return !s.end || p == s.t.size();
      }
    }
  }
  bool search(std::string_view t, Anchor a, std::size_t from, std::vector<std::size_t>& cap) const {
    for (std::size_t p = from; p <= t.size(); ++p) {
      cap.assign(static_cast<std::size_t>(2 * (groups_ + 1)), std::string_view::npos); Bt s{this, t, a == ANCHOR_BOTH, cap, std::vector<unsigned char>(code_.size() * (t.size() + 1), 0)};
      if (bt(s, 0, p)) return true;
      if (a != UNANCHORED) return false;
    }
    return false;
  }
  bool rewrite(std::string_view t, std::string_view rw, const std::vector<std::size_t>& cap, std::string& out) const {
    for (std::size_t k = 0; k < rw.size(); ++k) {
      if (rw[k] != '\\') { out.push_back(rw[k]); continue; }
      if (++k == rw.size()) return false;
      if (rw[k] >= '0' && rw[k] <= '9') { std::size_t g = static_cast<std::size_t>(rw[k] - '0'); if (g > static_cast<std::size_t>(groups_)) return false; if (cap[2 * g] != std::string_view::npos) out.append(t.substr(cap[2 * g], cap[2 * g + 1] - cap[2 * g])); }
      else if (rw[k] == '\\') { out.push_back('\\'); } else { return false; }
    }
    return true;
  }
  static bool set(std::nullptr_t, bool, std::string_view) { return true; }
  template <class X> static bool set(X* out, bool has, std::string_view v) {
    if (!out) return true;
    if constexpr (std::is_same_v<X, std::string>) { *out = std::string(v); return true; }
    else if constexpr (std::is_same_v<X, std::string_view>) { *out = v; return true; }
    else if constexpr (std::is_same_v<X, char>) { if (v.size() != 1) return false; *out = v[0]; return true; }
    else if constexpr (std::is_integral_v<X>) { if (!has) return false; return number(v, *out); }
    else if constexpr (requires { typename X::value_type; out->reset(); }) { if (!has) { out->reset(); return true; } typename X::value_type x{}; if (!set(&x, true, v)) return false; *out = std::move(x); return true; }
    else { static_assert(sizeof(X) == 0, "RE2 stand-in: unsupported argument"); }
  }
  template <class X> static bool number(std::string_view v, X& out) {
    bool neg = !v.empty() && v[0] == '-'; std::size_t k = !v.empty() && (v[0] == '-' || v[0] == '+') ? 1 : 0; if (k == v.size()) return false; if (neg && !std::is_signed_v<X>) return false;
    unsigned __int128 x = 0; const unsigned __int128 top = static_cast<unsigned __int128>(static_cast<std::make_unsigned_t<X>>(std::numeric_limits<X>::max())) + (neg ? 1 : 0);
    for (; k < v.size(); ++k) { if (v[k] < '0' || v[k] > '9') return false; x = x * 10 + static_cast<unsigned>(v[k] - '0'); if (x > top) return false; }
    out = static_cast<X>(neg ? 0 - static_cast<std::make_unsigned_t<X>>(x) : static_cast<std::make_unsigned_t<X>>(x)); return true;
  }
  template <class... A> bool match(std::string_view t, Anchor a, std::size_t* end, A&&... args) const {
    if (!ok() || static_cast<int>(sizeof...(A)) > groups_) return false;
    if (sizeof...(A) == 0 && !end) return run(t, a != UNANCHORED, a == ANCHOR_BOTH);
    std::vector<std::size_t> cap; if (!search(t, a, 0, cap)) return false;
    if (end) *end = cap[1];
    std::size_t g = 0; bool good = true;
    auto give = [&](auto&& x) { ++g; bool has = cap[2 * g] != std::string_view::npos && cap[2 * g + 1] != std::string_view::npos; if (good) good = set(x, has, has ? t.substr(cap[2 * g], cap[2 * g + 1] - cap[2 * g]) : std::string_view()); };
    (give(args), ...); return good;
  }
};
class LazyRE2 {
 public:
  const char* pattern_;
  RE2::CannedOptions options_ = RE2::DefaultOptions;
  mutable const RE2* ptr_ = nullptr;
  const RE2& operator*() const { if (!ptr_) ptr_ = new RE2(std::string_view(pattern_), RE2::Options(options_)); return *ptr_; }
  const RE2* operator->() const { return &**this; }
};
