// Minimal replacements of the iostream classes, used only when compiling harnesses to IR for the
// symbolic executor: the library versions live in libstdc++.so, which has no IR.
#pragma once
#define _STREAM_ITERATOR_H 1
#define _STREAMBUF_ITERATOR_H 1
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <string_view>
#include <system_error>
// what the real headers, and the other libraries the sources include, bring along
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cwchar>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <vector>
#include <exception>
extern "C" int __vx_is_symbolic_val(unsigned long v);
extern "C" int __vx_fmt_double(double d, int prec, unsigned flags, char* buf, int n);
extern "C" double __vx_parse_double(const char* p, unsigned long n);
extern "C" int vx_exact_fmt;
extern "C" double (*vx_parse_hook)(const char*, unsigned long);
extern "C" int (*vx_fmt_hook)(double, int, unsigned, char*, int);
extern "C" void __vx_assume(int);
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384;
  static constexpr fmtflags adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  static constexpr iostate badbit = 1, eofbit = 2, failbit = 4, goodbit = 0;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  struct Init { Init() {} };
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { auto o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { auto o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { fl_ &= ~f; }
  long precision() const { return prec_; } long precision(long p) { auto o = prec_; prec_ = p; return o; }
  long width() const { return wid_; } long width(long p) { auto o = wid_; wid_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
protected:
  ios_base() {}
  fmtflags fl_ = dec | skipws; long prec_ = 6, wid_ = 0;
};
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& noshowpoint(ios_base& b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }

template <> class basic_streambuf<char> { public: std::string s; size_t g = 0; };
template <> class basic_ios<char> : public ios_base {
public:
  typedef char char_type;
  iostate rdstate() const { return st_; }
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void clear(iostate s = goodbit) { st_ = s; } void setstate(iostate s) { st_ |= s; }
  char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
  basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; wid_ = o.wid_; return *this; }
  basic_streambuf<char>* rdbuf() const { return const_cast<basic_streambuf<char>*>(&b_); }
  void exceptions(iostate) {}
  basic_streambuf<char> b_;
  bool null_ = false;
protected:
  basic_ios() {}
  iostate st_ = 0; char fill_ = ' ';
};
template <> class basic_ostream<char> : virtual public basic_ios<char> {
public:
  basic_ostream() {}
  explicit basic_ostream(bool n) { null_ = n; }
  void put_(const char* p, size_t n) {
    if (null_) { wid_ = 0; return; }
    if (wid_ > 0 && (size_t)wid_ > n) { size_t k = wid_ - n; wid_ = 0; if (fl_ & left) { b_.s.append(p, n); b_.s.append(k, fill_); } else { b_.s.append(k, fill_); b_.s.append(p, n); } return; }
    wid_ = 0; b_.s.append(p, n);
  }
  template <class T> void num_(T v, bool neg) {
    if (null_) return;
    if (!vx_exact_fmt && __vx_is_symbolic_val((unsigned long)v)) { put_("<sym>", 5); return; }
    char t[40]; int i = 40; unsigned base = (fl_ & hex) ? 16 : (fl_ & oct) ? 8 : 10;
    do { unsigned d = v % base; t[--i] = d < 10 ? '0' + d : ((fl_ & uppercase) ? 'A' : 'a') + d - 10; v /= base; } while (v);
    if (neg) t[--i] = '-'; else if ((fl_ & showpos) && base == 10) t[--i] = '+';
    put_(t + i, 40 - i);
  }
  void si_(long v, unsigned long um) { if (null_) return; if (!vx_exact_fmt && __vx_is_symbolic_val((unsigned long)v)) { put_("<sym>", 5); return; } if (fl_ & (hex | oct)) num_((unsigned long)v & um, false); else if (v < 0) num_(um == 0xffffffff ? (unsigned long)(0u - (unsigned)v) : 0ul - (unsigned long)v, true); else num_((unsigned long)v, false); }
  basic_ostream& operator<<(bool v) { if (null_) return *this; if (fl_ & boolalpha) { if (v) put_("true", 4); else put_("false", 5); } else put_(v ? "1" : "0", 1); return *this; }
  basic_ostream& operator<<(short v) { si_(v, 0xffff); return *this; }
  basic_ostream& operator<<(unsigned short v) { num_((unsigned long)v, false); return *this; }
  basic_ostream& operator<<(int v) { si_(v, 0xffffffff); return *this; }
  basic_ostream& operator<<(unsigned v) { num_((unsigned long)v, false); return *this; }
  basic_ostream& operator<<(long v) { si_(v, ~0ul); return *this; }
  basic_ostream& operator<<(unsigned long v) { num_(v, false); return *this; }
  basic_ostream& operator<<(long long v) { si_(v, ~0ul); return *this; }
  basic_ostream& operator<<(unsigned long long v) { num_((unsigned long)v, false); return *this; }
  basic_ostream& operator<<(double v) { if (null_) return *this; char t[400]; int n = vx_fmt_hook ? vx_fmt_hook(v, (int)prec_, fl_, t, 400) : -1; if (n < 0) n = __vx_fmt_double(v, (int)prec_, fl_, t, 400); put_(t, n); return *this; }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(long double v) { return *this << (double)v; }
  basic_ostream& operator<<(const void* v) { if (null_) return *this; put_("0xptr", 5); return *this; }
  basic_ostream& operator<<(decltype(nullptr)) { put_("nullptr", 7); return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<char>& (*f)(basic_ios<char>&)) { f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(basic_streambuf<char>* b) { put_(b->s.data() + b->g, b->s.size() - b->g); return *this; }
  basic_ostream& put(char c) { put_(&c, 1); return *this; }
  basic_ostream& write(const char* p, long n) { put_(p, n); return *this; }
  virtual basic_ostream& flush() { return *this; }
};
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c) { o.put_(&c, 1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, signed char c) { char x = c; o.put_(&x, 1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c) { char x = c; o.put_(&x, 1); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s) { if (o.null_) return o; o.put_(s, __builtin_strlen(s)); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const std::string& s) { o.put_(s.data(), s.size()); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, std::string_view s) { o.put_(s.data(), s.size()); return o; }
template <class Os, class T> inline auto operator<<(Os&& o, const T& v) -> typename enable_if<!is_lvalue_reference<Os>::value && is_base_of<basic_ios<char>, Os>::value, Os&&>::type { static_cast<basic_ostream<char>&>(o) << v; return static_cast<Os&&>(o); }
inline basic_ostream<char>& endl(basic_ostream<char>& o) { o.put('\n'); return o.flush(); }
inline basic_ostream<char>& ends(basic_ostream<char>& o) { return o.put('\0'); }
inline basic_ostream<char>& flush(basic_ostream<char>& o) { return o.flush(); }

template <> class basic_istream<char> : virtual public basic_ios<char> {
public:
  basic_istream() {}
  static bool sp_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool pre_() { if (st_) { st_ |= failbit; return false; } if (fl_ & skipws) ws_(); if (b_.g >= b_.s.size()) { st_ |= eofbit | failbit; return false; } return true; }
  void ws_() { while (b_.g < b_.s.size() && sp_(b_.s[b_.g])) b_.g++; }
  template <class T> basic_istream& int_(T& out, long lo, unsigned long hi, bool sg) {
    if (!pre_()) { if (!(st_ & badbit)) out = 0; return *this; }
    size_t g = b_.g, n = b_.s.size(); const char* p = b_.s.data();
    bool neg = false; if (p[g] == '-' || p[g] == '+') { neg = p[g] == '-'; g++; }
    unsigned long v = 0; bool any = false, ov = false;
    while (g < n && p[g] >= '0' && p[g] <= '9') { any = true; unsigned long d = p[g] - '0'; if (v > (~0ul - d) / 10) ov = true; else v = v * 10 + d; g++; }
    b_.g = g; if (g >= n) st_ |= eofbit;
    if (!any) { out = 0; st_ |= failbit; return *this; }
    if (sg) { if (neg) { if (ov || v > 0ul - (unsigned long)lo) { out = (T)lo; st_ |= failbit; } else out = (T)(long)(0ul - v); } else if (ov || v > hi) { out = (T)hi; st_ |= failbit; } else out = (T)v; }
    else { if (ov || v > hi) { out = (T)hi; st_ |= failbit; } else out = (T)(neg ? 0ul - v : v); }
    return *this;
  }
  basic_istream& operator>>(int& v) { return int_(v, -2147483647L - 1, 2147483647UL, true); }
  basic_istream& operator>>(unsigned& v) { return int_(v, 0, 4294967295UL, false); }
  basic_istream& operator>>(short& v) { return int_(v, -32768, 32767, true); }
  basic_istream& operator>>(unsigned short& v) { return int_(v, 0, 65535, false); }
  basic_istream& operator>>(long& v) { return int_(v, -9223372036854775807L - 1, 9223372036854775807UL, true); }
  basic_istream& operator>>(unsigned long& v) { return int_(v, 0, ~0ul, false); }
  basic_istream& operator>>(long long& v) { return int_(v, -9223372036854775807L - 1, 9223372036854775807UL, true); }
  basic_istream& operator>>(unsigned long long& v) { return int_(v, 0, ~0ul, false); }
  basic_istream& operator>>(bool& v) {
    if (fl_ & boolalpha) { // num_get: matches "true" / "false" character by character
      if (!pre_()) { v = false; return *this; }
      const char* p = b_.s.data(); size_t g = b_.g, n = b_.s.size();
      const char* w = p[g] == 't' ? "true" : p[g] == 'f' ? "false" : nullptr;
      if (!w) { v = false; st_ |= failbit; return *this; }
      size_t l = *w == 't' ? 4 : 5, i = 0;
      while (i < l && g < n && p[g] == w[i]) { i++; g++; }
      b_.g = g; if (g >= n && i < l) st_ |= eofbit;
      if (i == l) v = *w == 't'; else { v = false; st_ |= failbit; }
      return *this;
    }
    long x = 0; int_(x, -9223372036854775807L - 1, 9223372036854775807UL, true); if (!fail()) { v = x != 0; if (x != 0 && x != 1) st_ |= failbit; } else v = false; return *this; }
  // num_get<double>: accumulate characters allowed in a decimal floating literal, then convert
  basic_istream& operator>>(double& v) {
    if (!pre_()) { v = 0; return *this; }
    size_t g = b_.g, n = b_.s.size(), s = g; const char* p = b_.s.data();
    if (p[g] == '+' || p[g] == '-') g++;
    bool mant = false, dot = false, sci = false; size_t expd = 0;
    while (g < n) {
      char c = p[g];
      if (c >= '0' && c <= '9') { if (sci) expd++; else mant = true; g++; }
      else if (c == '.' && !dot && !sci) { dot = true; g++; }
      else if ((c == 'e' || c == 'E') && !sci && mant) { sci = true; g++; if (g < n && (p[g] == '+' || p[g] == '-')) g++; }
      else break;
    }
    b_.g = g; if (g >= n) st_ |= eofbit;
    if (!mant || (sci && !expd)) { v = 0; st_ |= failbit; return *this; }
    v = vx_parse_hook ? vx_parse_hook(p + s, g - s) : __vx_parse_double(p + s, g - s);
    if (expd <= 2 && g - s < 100) __vx_assume(v >= -1.7976931348623157e308 && v <= 1.7976931348623157e308);  // the conversion is uninterpreted for symbolic characters
    if (v > 1.7976931348623157e308) { v = 1.7976931348623157e308; st_ |= failbit; } else if (v < -1.7976931348623157e308) { v = -1.7976931348623157e308; st_ |= failbit; }
    return *this;
  }
  basic_istream& operator>>(float& v) { double d; *this >> d; v = (float)d; return *this; }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  int peek() { if (st_) return -1; if (b_.g >= b_.s.size()) { st_ |= eofbit; return -1; } return (unsigned char)b_.s[b_.g]; }
  int get() { if (st_ || b_.g >= b_.s.size()) { st_ |= eofbit | failbit; return -1; } return (unsigned char)b_.s[b_.g++]; }
  basic_istream& get(char& c) { int i = get(); if (i >= 0) c = (char)i; return *this; }
  basic_istream& unget() { if (b_.g) b_.g--; return *this; }
  basic_istream& ignore(long n = 1, int = -1) { while (n-- > 0 && b_.g < b_.s.size()) b_.g++; return *this; }
};
inline basic_istream<char>& operator>>(basic_istream<char>& i, char& c) { if (!i.pre_()) return i; c = i.b_.s[i.b_.g++]; return i; }
inline basic_istream<char>& operator>>(basic_istream<char>& i, std::string& s) {
  s.clear(); if (!i.pre_()) return i;
  auto& b = i.b_; while (b.g < b.s.size() && !basic_istream<char>::sp_(b.s[b.g])) s.push_back(b.s[b.g++]);
  if (b.g >= b.s.size()) i.setstate(ios_base::eofbit);
  if (s.empty()) i.setstate(ios_base::failbit);
  return i; }
inline basic_istream<char>& ws(basic_istream<char>& i) { i.ws_(); if (i.b_.g >= i.b_.s.size()) i.setstate(ios_base::eofbit); return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, std::string& s, char d) {
  s.clear(); auto& b = i.b_;
  if (i.rdstate()) { i.setstate(ios_base::failbit); return i; }
  if (b.g >= b.s.size()) { i.setstate(ios_base::eofbit | ios_base::failbit); return i; }
  while (b.g < b.s.size()) { char c = b.s[b.g++]; if (c == d) return i; s.push_back(c); }
  i.setstate(ios_base::eofbit); return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, std::string& s) { return getline(i, s, '\n'); }

template <> class basic_iostream<char> : public basic_istream<char>, public basic_ostream<char> { public: basic_iostream() {} };
template <> class basic_stringstream<char> : public basic_iostream<char> {
public:
  basic_stringstream() {} explicit basic_stringstream(openmode) {}
  explicit basic_stringstream(const std::string& s, openmode = in | out) { b_.s = s; }
  std::string str() const { return b_.s; } void str(const std::string& s) { b_.s = s; b_.g = 0; } };
template <> class basic_ostringstream<char> : public basic_ostream<char> {
public:
  basic_ostringstream() {} explicit basic_ostringstream(openmode) {} explicit basic_ostringstream(const std::string& s, openmode = out) { b_.s = s; }
  std::string str() const { return b_.s; } void str(const std::string& s) { b_.s = s; } };
template <> class basic_istringstream<char> : public basic_istream<char> {
public:
  basic_istringstream() {} explicit basic_istringstream(const std::string& s, openmode = in) { b_.s = s; }
  std::string str() const { return b_.s; } void str(const std::string& s) { b_.s = s; b_.g = 0; } };
inline std::string vx_last_file_name, vx_last_file; // what the last closed output file holds
template <> class basic_ofstream<char> : public basic_ostream<char> {
  std::string nm_; bool open_ = false;
public:
  basic_ofstream() {} explicit basic_ofstream(const std::string& n, openmode = out) { open(n); } explicit basic_ofstream(const char* n, openmode = out) { open(n); }
  void open(const std::string& n, openmode = out) { nm_ = n; open_ = n.find("/nonexistent/") == std::string::npos; if (!open_) st_ |= failbit; }
  bool is_open() const { return open_; } void close() { if (open_) { vx_last_file_name = nm_; vx_last_file = b_.s; b_.s.clear(); open_ = false; } }
  ~basic_ofstream() { close(); } };
template <> class basic_ifstream<char> : public basic_istream<char> {
public:
  basic_ifstream() {} explicit basic_ifstream(const std::string&, openmode = in) {} explicit basic_ifstream(const char*, openmode = in) {}
  void open(const std::string&, openmode = in) {} bool is_open() const { return true; } void close() {} };
template <> class basic_fstream<char> : public basic_iostream<char> { };

struct _Setw { int n; }; struct _Setprecision { int n; }; struct _Setfill { char c; };
inline _Setw setw(int n) { return {n}; } inline _Setprecision setprecision(int n) { return {n}; } inline _Setfill setfill(char c) { return {c}; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _Setw s) { o.width(s.n); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _Setprecision s) { o.precision(s.n); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, _Setfill s) { o.fill(s.c); return o; }
inline basic_ostream<char> cout(true), cerr(true), clog(true);
inline basic_istream<char> cin;
template <class V, class C = char, class T = char_traits<C>> class ostream_iterator {
  basic_ostream<C>* o; const C* d;
public: typedef output_iterator_tag iterator_category; typedef void value_type, difference_type, pointer, reference; typedef C char_type; typedef T traits_type; typedef basic_ostream<C> ostream_type;
  ostream_iterator(ostream_type& s, const C* delim = nullptr) : o(&s), d(delim) {}
  ostream_iterator& operator=(const V& v) { *o << v; if (d) *o << d; return *this; } ostream_iterator& operator*() { return *this; } ostream_iterator& operator++() { return *this; } ostream_iterator& operator++(int) { return *this; }
};
template <class V, class C = char, class T = char_traits<C>, class D = ptrdiff_t> class istream_iterator {
  basic_istream<C>* i_ = nullptr; V v_{}; void rd() { if (i_ && !(*i_ >> v_)) i_ = nullptr; }
public: typedef input_iterator_tag iterator_category; typedef V value_type; typedef D difference_type; typedef const V* pointer; typedef const V& reference; typedef C char_type; typedef T traits_type; typedef basic_istream<C> istream_type;
  istream_iterator() {} istream_iterator(istream_type& s) : i_(&s) { rd(); }
  const V& operator*() const { return v_; } const V* operator->() const { return &v_; } istream_iterator& operator++() { rd(); return *this; } istream_iterator operator++(int) { auto t = *this; rd(); return t; }
  bool operator==(const istream_iterator& o) const { return i_ == o.i_; } bool operator!=(const istream_iterator& o) const { return i_ != o.i_; }
};
}
