// small replacement of the stream library used only in the symbolic build (the real one is used natively)
#pragma once
#include <string>
#include <iosfwd>
#include <cstring>
#include <cstdio>
#include <utility>
extern "C" { int sym_file_exists(const char *name); size_t sym_file_size(const char *name); void sym_file_read(const char *name, size_t off, void *out, size_t n); void sym_file_write(const char *name, const void *data, size_t n, int append); }
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir; typedef long streamoff_t;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 32 | 128, basefield = 2 | 8 | 64, floatfield = 4 | 256, internal = 16;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  fmtflags fl = dec | skipws; long prec = 6, wid = 0; char fil = ' '; iostate st = 0;
  fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; } fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(fmtflags m) { fl &= ~m; }
  long precision() const { return prec; } long precision(long p) { long o = prec; prec = p; return o; } long width() const { return wid; } long width(long w) { long o = wid; wid = w; return o; }
  struct Init {};
};
template<typename C, typename T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; };
// the text and the positions are shared by all kinds of streams
template<typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef T traits_type;
  std::string buf_; size_t g_ = 0, p_ = 0; bool discard_ = false;
  bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate rdstate() const { return st; } void clear(iostate s = 0) { st = s; } void setstate(iostate s) { st |= s; }
  char fill() const { return fil; } char fill(char c) { char o = fil; fil = c; return o; }
};
template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef basic_ostream Self; typedef basic_ios<C, T> B;
  basic_ostream() {} virtual ~basic_ostream() {}
  Self &write(const char *s, long n) { if (this->discard_) return *this; if (this->p_ < this->buf_.size()) { size_t k = 0; while (k < (size_t)n && this->p_ < this->buf_.size()) this->buf_[this->p_++] = s[k++]; s += k; n -= k; } this->buf_.append(s, n); this->p_ += n; return *this; }
  Self &put(char c) { return write(&c, 1); }
  Self &pad(const char *s, long n) { long w = this->wid; this->wid = 0; bool l = this->fl & ios_base::left; if (!l) for (long i = n; i < w; i++) put(this->fil); write(s, n); if (l) for (long i = n; i < w; i++) put(this->fil); return *this; }
  Self &num(long long v, bool sgn, unsigned long long u) { char b[32]; int i = 32; bool neg = sgn && v < 0; if (sgn) u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; unsigned base = this->fl & ios_base::hex ? 16 : 10; do { unsigned d = u % base; u /= base; b[--i] = d < 10 ? '0' + d : 'a' + d - 10; } while (u); if (neg) b[--i] = '-'; else if (sgn && (this->fl & ios_base::showpos)) b[--i] = '+'; return pad(b + i, 32 - i); }
  Self &operator<<(int v) { return num(v, true, 0); } Self &operator<<(long v) { return num(v, true, 0); } Self &operator<<(long long v) { return num(v, true, 0); } Self &operator<<(short v) { return num(v, true, 0); }
  Self &operator<<(unsigned v) { return num(0, false, v); } Self &operator<<(unsigned long v) { return num(0, false, v); } Self &operator<<(unsigned long long v) { return num(0, false, v); } Self &operator<<(unsigned short v) { return num(0, false, v); }
  Self &operator<<(bool v) { if (this->fl & ios_base::boolalpha) return v ? pad("true", 4) : pad("false", 5); return num(v, true, 0); }
  Self &operator<<(double v) { char f[16], b[400]; int k = 0; f[k++] = '%'; if (this->fl & ios_base::showpos) f[k++] = '+'; f[k++] = '.'; f[k++] = '*'; f[k++] = this->fl & ios_base::fixed ? 'f' : this->fl & ios_base::scientific ? 'e' : 'g'; f[k] = 0; int n = snprintf(b, 400, f, (int)this->prec, v); return pad(b, n); }
  Self &operator<<(float v) { return *this << (double)v; } Self &operator<<(long double v) { return *this << (double)v; }
  Self &operator<<(const void *p) { return num(0, false, (unsigned long long)p); }
  Self &operator<<(Self &(*f)(Self &)) { return f(*this); } Self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; } Self &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  virtual Self &flush() { return *this; }
  long tellp() { return this->fail() ? -1 : (long)this->p_; } Self &seekp(long p) { this->p_ = p; return *this; } Self &seekp(long o, int d) { this->p_ = d == ios_base::beg ? o : d == ios_base::cur ? this->p_ + o : this->buf_.size() + o; return *this; }
};
typedef basic_ostream<char, char_traits<char>> mos_;
inline mos_ &operator<<(mos_ &o, char c) { return o.pad(&c, 1); } inline mos_ &operator<<(mos_ &o, signed char c) { return o.pad((char *)&c, 1); } inline mos_ &operator<<(mos_ &o, unsigned char c) { return o.pad((char *)&c, 1); }
inline mos_ &operator<<(mos_ &o, const char *s) { return o.pad(s, strlen(s)); } inline mos_ &operator<<(mos_ &o, const std::string &s) { return o.pad(s.data(), s.size()); }
template<typename C, typename T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o.flush(); } template<typename C, typename T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); } template<typename C, typename T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(0); }
template<typename O, typename V, typename = decltype(static_cast<mos_ *>((typename remove_reference<O>::type *)nullptr))> typename enable_if<!is_lvalue_reference<O>::value, O &&>::type operator<<(O &&o, const V &v) { static_cast<mos_ &>(o) << v; return std::move(o); }
template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef basic_istream Self; long gc_ = 0;
  basic_istream() {} virtual ~basic_istream() {}
  long gcount() const { return gc_; }
  bool sentry_(bool noskip = false) { if (this->st) { this->st |= ios_base::failbit; return false; } if (!noskip && (this->fl & ios_base::skipws)) { while (this->g_ < this->buf_.size() && isspace_(this->buf_[this->g_])) this->g_++; if (this->g_ >= this->buf_.size()) { this->st |= ios_base::eofbit | ios_base::failbit; return false; } } return true; }
  static bool isspace_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  int peek() { gc_ = 0; if (this->st) return -1; if (this->g_ >= this->buf_.size()) { this->st |= ios_base::eofbit; return -1; } return (unsigned char)this->buf_[this->g_]; }
  int get() { gc_ = 0; if (!sentry_(true)) return -1; if (this->g_ >= this->buf_.size()) { this->st |= ios_base::eofbit | ios_base::failbit; return -1; } gc_ = 1; return (unsigned char)this->buf_[this->g_++]; }
  Self &get(char &c) { int k = get(); if (k >= 0) c = k; return *this; }
  Self &unget() { this->st &= ~ios_base::eofbit; if (this->g_) this->g_--; else this->st |= ios_base::badbit; return *this; } Self &putback(char) { return unget(); }
  Self &read(char *s, long n) { gc_ = 0; if (!sentry_(true)) return *this; while (gc_ < n && this->g_ < this->buf_.size()) s[gc_++] = this->buf_[this->g_++]; if (gc_ < n) this->st |= ios_base::eofbit | ios_base::failbit; return *this; }
  Self &getline(char *s, long n, char d = '\n') { gc_ = 0; if (!sentry_(true)) { if (n) *s = 0; return *this; } long k = 0; for (;;) { if (this->g_ >= this->buf_.size()) { this->st |= ios_base::eofbit; if (!gc_) this->st |= ios_base::failbit; break; } char c = this->buf_[this->g_]; if (c == d) { this->g_++; gc_++; break; } if (k + 1 >= n) { this->st |= ios_base::failbit; break; } s[k++] = c; this->g_++; gc_++; } if (n) s[k] = 0; return *this; }
  Self &ignore(long n = 1, int d = -1) { gc_ = 0; if (!sentry_(true)) return *this; while (gc_ < n || n == __LONG_MAX__) { if (this->g_ >= this->buf_.size()) { this->st |= ios_base::eofbit; break; } char c = this->buf_[this->g_++]; gc_++; if (d >= 0 && (unsigned char)c == (unsigned)d) break; } return *this; }
  long tellg() { return this->fail() ? -1 : (long)this->g_; } Self &seekg(long p) { this->st &= ~ios_base::eofbit; if (!this->fail()) this->g_ = p; return *this; } Self &seekg(long o, int d) { this->st &= ~ios_base::eofbit; if (!this->fail()) this->g_ = d == ios_base::beg ? o : d == ios_base::cur ? this->g_ + o : this->buf_.size() + o; return *this; }
  template<typename I> Self &integer(I &out, bool uns, long long lo, unsigned long long hi) { if (!sentry_()) return *this; auto &b = this->buf_; size_t &g = this->g_; bool neg = false, any = false, over = false; unsigned long long v = 0; if (b[g] == '-' || b[g] == '+') { neg = b[g] == '-'; g++; }
    const unsigned B = this->fl & ios_base::hex ? 16 : 10; if (B == 16 && g + 1 < b.size() && b[g] == '0' && (b[g + 1] == 'x' || b[g + 1] == 'X')) g += 2;
    while (g < b.size()) { char c = b[g]; unsigned d; if (c >= '0' && c <= '9') d = c - '0'; else if (B == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (B == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; any = true; if (v > (~0ull - d) / B) over = true; v = v * B + d; g++; } if (g >= b.size()) this->st |= ios_base::eofbit; if (!any) { out = 0; this->st |= ios_base::failbit; return *this; }
    if (uns) { if (over || v > hi) { out = (I)hi; this->st |= ios_base::failbit; } else out = (I)(neg ? 0ull - v : v); } else { unsigned long long m = neg ? 0ull - (unsigned long long)lo : hi; if (over || v > m) { out = (I)(neg ? lo : (long long)hi); this->st |= ios_base::failbit; } else out = (I)(neg ? 0ull - v : v); } return *this; }
  Self &operator>>(int &v) { return integer(v, false, -2147483648LL, 2147483647ull); } Self &operator>>(long &v) { return integer(v, false, -9223372036854775807LL - 1, 9223372036854775807ull); } Self &operator>>(long long &v) { return integer(v, false, -9223372036854775807LL - 1, 9223372036854775807ull); } Self &operator>>(short &v) { return integer(v, false, -32768, 32767); }
  Self &operator>>(unsigned &v) { return integer(v, true, 0, 4294967295ull); } Self &operator>>(unsigned long &v) { return integer(v, true, 0, ~0ull); } Self &operator>>(unsigned long long &v) { return integer(v, true, 0, ~0ull); } Self &operator>>(unsigned short &v) { return integer(v, true, 0, 65535); }
  Self &operator>>(bool &v) { if (this->fl & ios_base::boolalpha) { if (!sentry_()) return *this; auto &b = this->buf_; size_t &g = this->g_; const char *w = b[g] == 't' ? "true" : "false"; v = *w == 't'; while (*w) { if (g >= b.size() || b[g] != *w) { v = false; this->st |= ios_base::failbit | (g >= b.size() ? ios_base::eofbit : 0); return *this; } g++; w++; } return *this; } long n = 0; integer(n, false, -9223372036854775807LL - 1, 9223372036854775807ull); if (!this->fail() && n != 0 && n != 1) { this->st |= ios_base::failbit; v = true; } else v = n != 0; return *this; }
  Self &operator>>(double &v) { if (!sentry_()) return *this; std::string t; auto &b = this->buf_; size_t &g = this->g_; // the characters accepted by num_get
    bool dot = false, ex = false, dig = false; while (g < b.size()) { char c = b[g]; if (c >= '0' && c <= '9') dig = true; else if (c == '+' || c == '-') { if (!(t.empty() || (ex && (t.back() == 'e' || t.back() == 'E')))) break; } else if (c == '.') { if (dot || ex) break; dot = true; } else if (c == 'e' || c == 'E') { if (ex || !dig) break; ex = true; } else break; t += c; g++; }
    if (g >= b.size()) this->st |= ios_base::eofbit; char *e; double r = strtod(t.c_str(), &e); if (t.empty() || *e) { v = 0; this->st |= ios_base::failbit; } else v = r; return *this; }
  Self &operator>>(float &v) { double d = 0; *this >> d; v = (float)d; return *this; }
  Self &operator>>(Self &(*f)(Self &)) { return f(*this); } Self &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
typedef basic_istream<char, char_traits<char>> mis_;
inline mis_ &operator>>(mis_ &i, std::string &s) { s.clear(); if (!i.sentry_()) return i; long w = i.width(0); while (i.g_ < i.buf_.size() && !mis_::isspace_(i.buf_[i.g_]) && (w <= 0 || (long)s.size() < w)) s += i.buf_[i.g_++]; if (i.g_ >= i.buf_.size()) i.st |= ios_base::eofbit; if (s.empty()) i.st |= ios_base::failbit; return i; }
inline mis_ &operator>>(mis_ &i, char &c) { if (i.sentry_()) c = i.buf_[i.g_++]; return i; }
inline mis_ &getline(mis_ &i, std::string &s, char d) { s.clear(); if (!i.sentry_(true)) return i; bool any = false; for (;;) { if (i.g_ >= i.buf_.size()) { i.st |= ios_base::eofbit; if (!any) i.st |= ios_base::failbit; break; } char c = i.buf_[i.g_++]; any = true; if (c == d) break; s += c; } return i; }
inline mis_ &getline(mis_ &i, std::string &s) { return getline(i, s, '\n'); }
template<typename C, typename T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.g_ < i.buf_.size() && basic_istream<C, T>::isspace_(i.buf_[i.g_])) i.g_++; if (i.g_ >= i.buf_.size()) i.st |= ios_base::eofbit; return i; }
template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { };
inline namespace __cxx11 {
template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> { public: basic_stringstream() {} explicit basic_stringstream(const std::string &s, unsigned = 0) { this->buf_ = s; } explicit basic_stringstream(unsigned) {} std::string str() const { return this->buf_; } void str(const std::string &s) { this->buf_ = s; this->g_ = 0; this->p_ = 0; } };
template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_ostringstream() {} explicit basic_ostringstream(const std::string &s, unsigned = 0) { this->buf_ = s; } std::string str() const { return this->buf_; } void str(const std::string &s) { this->buf_ = s; this->p_ = 0; } };
template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> { public: basic_istringstream() {} explicit basic_istringstream(const std::string &s, unsigned = 0) { this->buf_ = s; } std::string str() const { return this->buf_; } void str(const std::string &s) { this->buf_ = s; this->g_ = 0; } };
}
template<typename C, typename T> class basic_ifstream : public basic_istream<C, T> { public: bool op_ = false; basic_ifstream() {} explicit basic_ifstream(const char *f, unsigned m = 8) { open(f, m); } explicit basic_ifstream(const std::string &f, unsigned m = 8) { open(f.c_str(), m); }
  void open(const char *f, unsigned = 8) { if (!sym_file_exists(f)) { this->st |= ios_base::failbit; return; } this->st = 0; this->g_ = 0; op_ = true; size_t n = sym_file_size(f); this->buf_.resize(n); if (n) sym_file_read(f, 0, &this->buf_[0], n); } void open(const std::string &f, unsigned m = 8) { open(f.c_str(), m); } bool is_open() const { return op_; } void close() { op_ = false; } };
template<typename C, typename T> class basic_ofstream : public basic_ostream<C, T> { public: bool op_ = false, app_ = false; std::string nm_; basic_ofstream() {} explicit basic_ofstream(const char *f, unsigned m = 16) { open(f, m); } explicit basic_ofstream(const std::string &f, unsigned m = 16) { open(f.c_str(), m); } basic_ofstream(basic_ofstream &&o) : op_(o.op_), app_(o.app_), nm_(o.nm_) { this->buf_ = o.buf_; this->p_ = o.p_; o.op_ = false; }
  ~basic_ofstream() { close(); } void open(const char *f, unsigned m = 16) { nm_ = f; op_ = true; app_ = m & ios_base::app; this->buf_.clear(); this->p_ = 0; if (!app_ || !sym_file_exists(f)) sym_file_write(f, "", 0, 0); } void open(const std::string &f, unsigned m = 16) { open(f.c_str(), m); } bool is_open() const { return op_; }
  basic_ostream<C, T> &flush() { if (op_ && this->buf_.size()) { sym_file_write(nm_.c_str(), this->buf_.data(), this->buf_.size(), 1); this->buf_.clear(); this->p_ = 0; } return *this; } void close() { flush(); op_ = false; } };
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; } inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; } inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; } inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; } inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
struct setw_ { int n; }; inline setw_ setw(int n) { return {n}; } inline mos_ &operator<<(mos_ &o, setw_ m) { o.wid = m.n; return o; } inline mis_ &operator>>(mis_ &o, setw_ m) { o.wid = m.n; return o; }
struct setprec_ { int n; }; inline setprec_ setprecision(int n) { return {n}; } inline mos_ &operator<<(mos_ &o, setprec_ m) { o.prec = m.n; return o; }
template<typename C> struct setfill_ { C c; }; template<typename C> setfill_<C> setfill(C c) { return {c}; } inline mos_ &operator<<(mos_ &o, setfill_<char> m) { o.fil = m.c; return o; }
struct nullout_ : public mos_ { nullout_() { this->discard_ = true; } };
inline nullout_ cout, cerr, clog; inline basic_istringstream<char, char_traits<char>, allocator<char>> cin;
}
