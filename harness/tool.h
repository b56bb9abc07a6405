// Streams for the command line tools: std::istream, std::ifstream, std::cin, std::cout and std::cerr become the ones below (on the file tree in memory).
// Include this after every standard header the tool uses, then include the tool's source.
#pragma once
#include <array>
#include <algorithm>
#include <cctype>
#include <charconv>
#include <cstdlib>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
namespace std {
class sx_istream {
 public:
  virtual ~sx_istream() = default; bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
  bool fail() const { return (st_ & (ios_base::failbit | ios_base::badbit)) != 0; } bool bad() const { return (st_ & ios_base::badbit) != 0; } bool eof() const { return (st_ & ios_base::eofbit) != 0; } bool good() const { return st_ == ios_base::goodbit; }
  ios_base::iostate rdstate() const { return st_; } void clear(ios_base::iostate s = ios_base::goodbit) { st_ = s; } void setstate(ios_base::iostate s) { st_ |= s; } void exceptions(ios_base::iostate) {}
  sx_istream& read(char* d, streamsize n) {
    got_ = 0; if (st_ != ios_base::goodbit) { setstate(ios_base::failbit); return *this; } const string* f = data(); if (!f) { setstate(ios_base::badbit); return *this; }
    size_t have = f->size() - at_, k = static_cast<size_t>(n); const bool lack = have < k; if (lack) k = have; if (fails(k)) { setstate(ios_base::badbit); return *this; }
    if (k) memcpy(d, f->data() + at_, k); at_ += k; got_ = static_cast<streamsize>(k); if (lack) setstate(ios_base::eofbit | ios_base::failbit); return *this;
  }
  streamsize gcount() const { return got_; } int get() { char c = 0; read(&c, 1); return fail() ? -1 : static_cast<unsigned char>(c); } sx_istream& get(char& c) { return read(&c, 1); }
  int peek() { const string* f = data(); if (st_ != ios_base::goodbit) return -1; if (!f || fails(1)) { setstate(ios_base::badbit); return -1; } if (at_ >= f->size()) { setstate(ios_base::eofbit); return -1; } return static_cast<unsigned char>((*f)[at_]); }
 protected:
  virtual const string* data() = 0; virtual bool fails(size_t) { return false; }
  ios_base::iostate st_ = ios_base::goodbit; streamsize got_ = 0; size_t at_ = 0;
};
inline sx_istream& getline(sx_istream& i, string& s, char end = '\n') { s.clear(); char c = 0; bool any = false; for (;;) { i.read(&c, 1); if (i.fail()) { if (any && !i.bad()) i.clear(ios_base::eofbit); return i; } any = true; if (c == end) return i; s += c; } }
// Directories open and fail to read. A file whose node has mtime -1 fails to read anything, with mtime -2-n to read past the first n bytes, with mtime -1000000 to open.
class sx_ifstream : public sx_istream {
 public:
  sx_ifstream() = default; explicit sx_ifstream(const filesystem::path& p, ios_base::openmode = ios_base::in) { open(p); } explicit sx_ifstream(const string& p, ios_base::openmode = ios_base::in) { open(filesystem::path(p)); } explicit sx_ifstream(const char* p, ios_base::openmode = ios_base::in) { open(filesystem::path(p)); }
  void open(const filesystem::path& p, ios_base::openmode = ios_base::in) { if (open_) { setstate(ios_base::failbit); return; } name_ = p.native(); auto* n = sxfs::find(name_); if (!n || n->mtime == -1000000) { setstate(ios_base::failbit); return; } open_ = true; st_ = ios_base::goodbit; at_ = 0; }
  bool is_open() const { return open_; } void close() { if (!open_) setstate(ios_base::failbit); open_ = false; }
 private:
  const string* data() override { auto* n = open_ ? sxfs::find(name_) : nullptr; return n && !n->dir ? &n->data : nullptr; }
  bool fails(size_t k) override { auto* n = sxfs::find(name_); return n->mtime < 0 && at_ + k > static_cast<size_t>(n->mtime == -1 ? 0 : -2 - n->mtime); }
  string name_; bool open_ = false;
};
class sx_stdin : public sx_istream { public: string text; void rewind(string t) { text = std::move(t); at_ = 0; st_ = ios_base::goodbit; } private: const string* data() override { return &text; } };
class sx_ostream {
 public:
  string text; sx_ostream& operator<<(string_view s) { text.append(s); return *this; } sx_ostream& operator<<(const char* s) { text.append(s); return *this; } sx_ostream& operator<<(const string& s) { text.append(s); return *this; } sx_ostream& operator<<(char c) { text += c; return *this; }
  template <class I> requires is_integral_v<I> sx_ostream& operator<<(I v) { char b[24]; size_t k = 24; bool neg = v < 0; uint64_t u = neg ? 0 - static_cast<uint64_t>(v) : static_cast<uint64_t>(v); do { b[--k] = static_cast<char>('0' + u % 10); u /= 10; } while (u); if (neg) b[--k] = '-'; text.append(b + k, 24 - k); return *this; }
  sx_ostream& operator<<(const filesystem::path& p) { text += '"'; for (char c : p.native()) { if ((c == '"') | (c == '\\')) text += '\\'; text += c; } text += '"'; return *this; }
  sx_ostream& operator<<(sx_ostream& (*f)(sx_ostream&)) { return f(*this); } sx_ostream& write(const char* d, streamsize n) { text.append(d, static_cast<size_t>(n)); return *this; } sx_ostream& put(char c) { text += c; return *this; } sx_ostream& flush() { return *this; }
};
inline sx_ostream& sx_endl(sx_ostream& o) { return o << '\n'; } inline sx_ostream& sx_flush(sx_ostream& o) { return o; }
inline sx_stdin sx_cin; inline sx_ostream sx_cout, sx_cerr;
}  // namespace std
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/flags/usage.h"
#include "absl/log/initialize.h"
#define istream sx_istream
#define ifstream sx_ifstream
#define ostream sx_ostream
#define cin sx_cin
#define cout sx_cout
#define cerr sx_cerr
#define endl sx_endl
