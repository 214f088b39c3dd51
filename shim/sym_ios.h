// <iostream> family for code executed by symx: same observable behaviour on the operations the
// repository uses; content lives in memory or in the virtual file system of rt.cc.
#pragma once
#include <iosfwd>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
extern "C" int rt_dtext(double v, int prec, char* out);
namespace std {
class ios_base {
 public:
  typedef unsigned openmode; typedef unsigned iostate; typedef unsigned fmtflags; typedef int seekdir;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const fmtflags dec = 1, hex = 2, oct = 4, uppercase = 8, fixed = 16, scientific = 32, floatfield = 48, basefield = 7, boolalpha = 64, left = 128, right = 256, showpoint = 512;
  static const seekdir beg = 0, cur = 1, end = 2;
  class Init {};
  ios_base() : st_(0), fl_(dec), prec_(6), width_(0) {}
  virtual ~ios_base() {}
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { streamsize o = prec_; prec_ = (int)p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize p) { streamsize o = width_; width_ = (int)p; return o; }
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { fl_ &= ~m; }
  static bool sync_with_stdio(bool b = true) { return b; }
 protected:
  iostate st_; fmtflags fl_; int prec_; int width_;
};
template <class C, class T> class basic_streambuf {
 public:
  virtual ~basic_streambuf() {}
  string buf_; size_t pos_ = 0;
  int sgetc() { return pos_ < buf_.size() ? (unsigned char)buf_[pos_] : -1; }
};
template <class C, class T> class basic_ios : public ios_base {
 public:
  basic_ios() : fill_(' '), sb_(&own_) {}
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (failbit | badbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) { st_ = s; }
  void setstate(iostate s) { st_ |= s; }
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  basic_streambuf<C, T>* rdbuf() const { return sb_; }
  basic_ios* tie(void*) { return nullptr; }
 protected:
  C fill_; basic_streambuf<C, T> own_; basic_streambuf<C, T>* sb_;
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
 public:
  basic_ostream() : sink_(false) {}
  explicit basic_ostream(basic_streambuf<C, T>* b) : sink_(false) { if (b) this->sb_ = b; }
  virtual ~basic_ostream() {}
  struct sentry { basic_ostream& o; explicit sentry(basic_ostream& s) : o(s) {} explicit operator bool() const { return o.good(); } };
  basic_ostream& put(C c) { char b = c; return write(&b, 1); }
  basic_ostream& write(const C* s, streamsize n) {
    if (sink_ || this->st_) return *this;
    this->sb_->buf_.append(s, (size_t)n);
    return *this;
  }
  void text(const char* s, size_t n) {
    if (sink_) { this->width_ = 0; return; }
    for (size_t k = n; (int)k < this->width_; ++k) write(&this->fill_, 1);
    this->width_ = 0;
    write(s, (streamsize)n);
  }
  void num(unsigned long v, bool neg) {
    if (sink_) { this->width_ = 0; return; }
    char t[72]; int k = 72; unsigned base = this->fl_ & ios_base::hex ? 16 : this->fl_ & ios_base::oct ? 8 : 10;
    do { unsigned d = (unsigned)(v % base); t[--k] = (char)(d < 10 ? '0' + d : (this->fl_ & ios_base::uppercase ? 'A' : 'a') + d - 10); v /= base; } while (v);
    if (neg) t[--k] = '-';
    text(t + k, (size_t)(72 - k));
  }
  void flt(double v) { if (sink_) { this->width_ = 0; return; } char t[80]; int n = rt_dtext(v, this->prec_ ? this->prec_ : 1, t); text(t, (size_t)n); }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(bool b) { num(b, false); return *this; }
  basic_ostream& operator<<(short v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned short v) { return *this << (unsigned long)v; }
  basic_ostream& operator<<(int v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned v) { return *this << (unsigned long)v; }
  basic_ostream& operator<<(long v) { bool neg = v < 0; num(neg ? 0UL - (unsigned long)v : (unsigned long)v, neg); return *this; }
  basic_ostream& operator<<(unsigned long v) { num(v, false); return *this; }
  basic_ostream& operator<<(long long v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned long long v) { return *this << (unsigned long)v; }
  basic_ostream& operator<<(float v) { flt(v); return *this; }
  basic_ostream& operator<<(double v) { flt(v); return *this; }
  basic_ostream& operator<<(const void* p) { num((unsigned long)p, false); return *this; }
  basic_ostream& operator<<(basic_streambuf<C, T>* b) { if (b->pos_ < b->buf_.size()) { write(b->buf_.data() + b->pos_, (streamsize)(b->buf_.size() - b->pos_)); b->pos_ = b->buf_.size(); } else this->st_ |= ios_base::failbit; return *this; }
  virtual basic_ostream& flush() { return *this; }
  streampos tellp() { return streampos((streamoff)this->sb_->buf_.size()); }
  bool sink_;
};
inline ostream& operator<<(ostream& o, char c) { o.text(&c, 1); return o; }
inline ostream& operator<<(ostream& o, signed char c) { char b = (char)c; o.text(&b, 1); return o; }
inline ostream& operator<<(ostream& o, unsigned char c) { char b = (char)c; o.text(&b, 1); return o; }
inline ostream& operator<<(ostream& o, const char* s) { if (o.sink_) return o; if (!s) { o.setstate(ios_base::badbit); return o; } o.text(s, strlen(s)); return o; }
inline ostream& operator<<(ostream& o, const string& s) { o.text(s.data(), s.size()); return o; }
inline ostream& endl(ostream& o) { o.put('\n'); return o.flush(); }
inline ostream& flush(ostream& o) { return o.flush(); }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& left(ios_base& b) { return b; }
inline ios_base& right(ios_base& b) { return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
struct _Setp { int n; }; inline _Setp setprecision(int n) { return _Setp{n}; }
struct _Setw { int n; }; inline _Setw setw(int n) { return _Setw{n}; }
struct _Setfl { char c; }; inline _Setfl setfill(char c) { return _Setfl{c}; }
inline ostream& operator<<(ostream& o, _Setp p) { o.precision(p.n); return o; }
inline ostream& operator<<(ostream& o, _Setw p) { o.width(p.n); return o; }
inline ostream& operator<<(ostream& o, _Setfl p) { o.fill(p.c); return o; }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
 public:
  basic_istream() : gc_(0) {}
  explicit basic_istream(basic_streambuf<C, T>* b) : gc_(0) { if (b) this->sb_ = b; }
  virtual ~basic_istream() {}
  int look() { auto* b = this->sb_; if (b->pos_ < b->buf_.size()) return (unsigned char)b->buf_[b->pos_]; return -1; }
  void adv() { this->sb_->pos_++; }
  bool prefix(bool skip) {
    if (this->st_) { this->st_ |= ios_base::failbit; return false; }
    if (skip) {
      for (;;) {
        int c = look();
        if (c < 0) { this->st_ |= ios_base::eofbit | ios_base::failbit; return false; }
        if (c == ' ' || (c >= 9 && c <= 13)) adv(); else break;
      }
    }
    return true;
  }
  int get() { gc_ = 0; if (!prefix(false)) return -1; int c = look(); if (c < 0) { this->st_ |= ios_base::eofbit | ios_base::failbit; return -1; } adv(); gc_ = 1; return c; }
  basic_istream& get(C& c) { int k = get(); if (k >= 0) c = (C)k; return *this; }
  int peek() { gc_ = 0; if (!prefix(false)) return -1; int c = look(); if (c < 0) this->st_ |= ios_base::eofbit; return c; }
  basic_istream& ignore(streamsize n = 1, int delim = -1) {
    gc_ = 0;
    if (!prefix(false)) return *this;
    while (n > 0) {
      int c = look();
      if (c < 0) { this->st_ |= ios_base::eofbit; break; }
      adv(); gc_++;
      if (n != numeric_limits<streamsize>::max()) --n;
      if (c == delim) break;
    }
    return *this;
  }
  basic_istream& read(C* d, streamsize n) {
    gc_ = 0;
    if (!prefix(false)) return *this;
    auto* b = this->sb_;
    size_t have = b->buf_.size() - b->pos_, k = (size_t)n < have ? (size_t)n : have;
    if (k) memcpy(d, b->buf_.data() + b->pos_, k);
    b->pos_ += k; gc_ = (streamsize)k;
    if (k < (size_t)n) this->st_ |= ios_base::eofbit | ios_base::failbit;
    return *this;
  }
  streamsize gcount() const { return gc_; }
  basic_istream& unget() { if (this->sb_->pos_) this->sb_->pos_--; return *this; }
  streampos tellg() { return streampos(this->fail() ? (streamoff)-1 : (streamoff)this->sb_->pos_); }
  basic_istream& seekg(streampos p) { this->st_ &= ~ios_base::eofbit; if (!this->fail()) this->sb_->pos_ = (size_t)(streamoff)p; return *this; }
  int scan(bool flt, char* t, int cap) {
    int n = 0; bool dot = false, ex = false, dig = false;
    for (;;) {
      int c = look();
      if (c < 0) { this->st_ |= ios_base::eofbit; break; }
      bool ok = false;
      if (c >= '0' && c <= '9') { ok = true; dig = true; }
      else if ((c == '+' || c == '-') && (n == 0 || (ex && (t[n - 1] == 'e' || t[n - 1] == 'E')))) ok = true;
      else if (flt && c == '.' && !dot && !ex) ok = dot = true;
      else if (flt && (c == 'e' || c == 'E') && dig && !ex) ok = ex = true;
      if (!ok) break;
      if (n < cap - 1) t[n++] = (char)c;
      adv();
    }
    t[n] = 0;
    return n;
  }
  template <class I> basic_istream& rdint(I& v) {
    if (!prefix(true)) { return *this; }
    char t[64]; int n = scan(false, t, 64);
    int i = 0; bool neg = false;
    if (n && (t[0] == '+' || t[0] == '-')) { neg = t[0] == '-'; i = 1; }
    if (i == n) { v = 0; this->st_ |= ios_base::failbit; return *this; }
    unsigned long lim = numeric_limits<I>::is_signed ? (unsigned long)numeric_limits<I>::max() + (neg ? 1 : 0) : (unsigned long)numeric_limits<I>::max();
    unsigned long r = 0; bool ov = false;
    for (; i < n; ++i) { unsigned long d = (unsigned long)(t[i] - '0'); if (r > (lim - d) / 10) { ov = true; break; } r = r * 10 + d; }
    if (ov) { v = numeric_limits<I>::is_signed && neg ? numeric_limits<I>::min() : numeric_limits<I>::max(); this->st_ |= ios_base::failbit; return *this; }
    v = neg ? (I)(0UL - r) : (I)r;
    return *this;
  }
  template <class F> basic_istream& rdflt(F& v, bool single) {
    if (!prefix(true)) { return *this; }
    char t[128]; int n = scan(true, t, 128);
    char* e = nullptr;
    double d = n ? (single ? (double)strtof(t, &e) : strtod(t, &e)) : 0;
    if (!n || *e) { v = 0; this->st_ |= ios_base::failbit; return *this; }
    v = (F)d;
    return *this;
  }
  basic_istream& operator>>(short& v) { return rdint(v); }
  basic_istream& operator>>(unsigned short& v) { return rdint(v); }
  basic_istream& operator>>(int& v) { return rdint(v); }
  basic_istream& operator>>(unsigned& v) { return rdint(v); }
  basic_istream& operator>>(long& v) { return rdint(v); }
  basic_istream& operator>>(unsigned long& v) { return rdint(v); }
  basic_istream& operator>>(long long& v) { return rdint(v); }
  basic_istream& operator>>(unsigned long long& v) { return rdint(v); }
  basic_istream& operator>>(float& v) { return rdflt(v, true); }
  basic_istream& operator>>(double& v) { return rdflt(v, false); }
  basic_istream& operator>>(bool& v) { int k = 0; rdint(k); v = k != 0; return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  streamsize gc_;
};
inline istream& operator>>(istream& i, char& c) { if (i.prefix(true)) { c = (char)i.look(); i.adv(); } return i; }
inline istream& operator>>(istream& i, unsigned char& c) { if (i.prefix(true)) { c = (unsigned char)i.look(); i.adv(); } return i; }
inline istream& operator>>(istream& i, string& s) {
  if (!i.prefix(true)) return i;
  s.clear();
  for (;;) {
    int c = i.look();
    if (c < 0) { i.setstate(ios_base::eofbit); break; }
    if (c == ' ' || (c >= 9 && c <= 13)) break;
    s.push_back((char)c); i.adv();
  }
  return i;
}
inline istream& getline(istream& i, string& s, char delim) {
  if (!i.prefix(false)) return i;
  s.clear();
  bool any = false;
  for (;;) {
    int c = i.look();
    if (c < 0) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
    any = true; i.adv();
    if ((char)c == delim) break;
    s.push_back((char)c);
  }
  return i;
}
inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
inline istream& ws(istream& i) { for (;;) { int c = i.look(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (c == ' ' || (c >= 9 && c <= 13)) i.adv(); else break; } return i; }

template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
 public:
  basic_iostream() {}
  virtual ~basic_iostream() {}
};
inline namespace __cxx11 {
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(ios_base::openmode) {}
  explicit basic_ostringstream(const string& s) { this->own_.buf_ = s; }
  string str() const { return this->own_.buf_; }
  void str(const string& s) { this->own_.buf_ = s; this->own_.pos_ = 0; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const string& s, ios_base::openmode = 0) { this->own_.buf_ = s; }
  string str() const { return this->own_.buf_; }
  void str(const string& s) { this->own_.buf_ = s; this->own_.pos_ = 0; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
 public:
  basic_stringstream() {}
  explicit basic_stringstream(const string& s, ios_base::openmode = 0) { this->own_.buf_ = s; }
  string str() const { return this->own_.buf_; }
  void str(const string& s) { this->own_.buf_ = s; this->own_.pos_ = 0; }
};
}  // namespace __cxx11
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
  FILE* f_;
 public:
  basic_ofstream() : f_(nullptr) {}
  explicit basic_ofstream(const char* p, ios_base::openmode m = ios_base::out) : f_(nullptr) { open(p, m); }
  explicit basic_ofstream(const string& p, ios_base::openmode m = ios_base::out) : f_(nullptr) { open(p.c_str(), m); }
  ~basic_ofstream() { if (f_) close(); }
  void open(const char* p, ios_base::openmode m = ios_base::out) { if (f_) { this->st_ |= ios_base::failbit; return; } f_ = fopen(p, m & ios_base::app ? "a" : "w"); if (!f_) this->st_ |= ios_base::failbit; else this->st_ = 0; }
  void open(const string& p, ios_base::openmode m = ios_base::out) { open(p.c_str(), m); }
  bool is_open() const { return f_ != nullptr; }
  bool drain() { bool ok = true; string& b = this->own_.buf_; if (b.size() && f_) { ok = fwrite(b.data(), 1, b.size(), f_) == b.size(); b.clear(); } return ok; }
  basic_ostream<C, T>& flush() override { if (f_ && !drain()) this->st_ |= ios_base::badbit; return *this; }
  void close() { if (!f_) { this->st_ |= ios_base::failbit; return; } bool ok = drain(); if (fclose(f_) != 0) ok = false; f_ = nullptr; if (!ok) this->st_ |= ios_base::failbit; }
};
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
  bool op_;
 public:
  basic_ifstream() : op_(false) {}
  explicit basic_ifstream(const char* p, ios_base::openmode m = ios_base::in) : op_(false) { open(p, m); }
  explicit basic_ifstream(const string& p, ios_base::openmode m = ios_base::in) : op_(false) { open(p.c_str(), m); }
  void open(const char* p, ios_base::openmode = ios_base::in) {
    FILE* f = fopen(p, "r");
    if (!f) { this->st_ |= ios_base::failbit; return; }
    this->st_ = 0; op_ = true;
    fseek(f, 0, 2); long n = ftell(f); fseek(f, 0, 0);
    this->own_.buf_.resize((size_t)n); this->own_.pos_ = 0;
    if (n) fread(&this->own_.buf_[0], 1, (size_t)n, f);
    fclose(f);
  }
  bool is_open() const { return op_; }
  void close() { if (!op_) this->st_ |= ios_base::failbit; op_ = false; }
};
template <class C, class T> class basic_fstream : public basic_iostream<C, T> {};
struct _SinkStream : public ostream { _SinkStream() { sink_ = true; } };
extern _SinkStream rt_cout_, rt_cerr_;
extern istream rt_cin_;
static ostream& cout = *(ostream*)&rt_cout_;
static ostream& cerr = *(ostream*)&rt_cerr_;
static ostream& clog = *(ostream*)&rt_cerr_;
static istream& cin = rt_cin_;
}  // namespace std
