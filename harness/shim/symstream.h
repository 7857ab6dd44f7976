// Model of the C++ stream library for the symbolic engine: an in-memory file
// system (symfs_*), string streams with exact integer formatting, and silent
// console streams.  Only compiled for the engine; native replay uses libstdc++.
#pragma once
#include <cstdint>
#include <cstddef>
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <bits/postypes.h>
extern "C" {
int symfs_open(const char *path, int create);
size_t symfs_read(int fd, uint64_t pos, void *buf, size_t n);
int symfs_write(int fd, uint64_t pos, const void *buf, size_t n);
uint64_t symfs_fdsize(int fd);
}
namespace std {
class ios_base {
public:
  typedef int openmode; typedef int iostate; typedef int seekdir; typedef int fmtflags;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const seekdir beg = 0, cur = 1, end = 2;
  static const fmtflags fixed = 4, scientific = 256, floatfield = 260, hex = 8, dec = 2, oct = 64, basefield = 74, left = 32, right = 128, showpoint = 1024, boolalpha = 1, adjustfield = 176, internal = 16, skipws = 4096;
  class failure : public std::runtime_error { public: explicit failure(const std::string &s) : std::runtime_error(s) {} };
  struct Init { Init() {} };
  fmtflags m_flags = 0; long m_width = 0, m_prec = 6;
  long precision(long p) { long o = m_prec; m_prec = p; return o; } long precision() const { return m_prec; }
  long width(long w) { long o = m_width; m_width = w; return o; } long width() const { return m_width; }
  fmtflags setf(fmtflags f) { m_flags |= f; return m_flags; } fmtflags setf(fmtflags f, fmtflags m) { m_flags = (m_flags & ~m) | (f & m); return m_flags; }
  void unsetf(fmtflags f) { m_flags &= ~f; }
  fmtflags flags() const { return m_flags; } fmtflags flags(fmtflags f) { fmtflags o = m_flags; m_flags = f; return o; }
  virtual ~ios_base() {}
};
template <class C, class T> class basic_streambuf { public: virtual ~basic_streambuf() {} };
template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  int m_state = 0, m_exc = 0; C m_fill = ' '; basic_streambuf<C, T> *m_sb = nullptr;
  void clear(int s = 0) { m_state = s; if (m_state & m_exc) throw ios_base::failure("basic_ios::clear"); }
  void setstate(int s) { clear(m_state | s); }
  int rdstate() const { return m_state; }
  bool good() const { return m_state == 0; } bool eof() const { return m_state & 2; } bool fail() const { return m_state & 5; } bool bad() const { return m_state & 1; }
  bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
  int exceptions() const { return m_exc; } void exceptions(int e) { m_exc = e; clear(m_state); }
  C fill() const { return m_fill; } C fill(C c) { C o = m_fill; m_fill = c; return o; }
  basic_streambuf<C, T> *rdbuf() const { return m_sb; }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef basic_ostream<C, T> Self;
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<C, T> *) {}
  virtual bool vput(const C *, size_t) { return true; }     // text / bytes sink
  virtual bool vseek(uint64_t) { return true; }
  virtual long vtell() { return 0; }
  virtual long vsize() { return 0; }
  Self &write(const C *p, long n) { if (!this->good()) { return *this; } if (!vput(p, n)) this->setstate(ios_base::badbit); return *this; }
  Self &put(C c) { return write(&c, 1); }
  Self &flush() { return *this; }
  Self &seekp(std::streampos p) { if (!this->fail()) { long o = (long)(std::streamoff)p; if (o < 0) this->setstate(ios_base::failbit); else vseek(o); } return *this; }
  Self &seekp(std::streamoff o, int dir) { if (!this->fail()) { long b = dir == 0 ? 0 : dir == 1 ? vtell() : vsize(); vseek(b + o); } return *this; }
  std::streampos tellp() { return this->fail() ? std::streampos(-1) : std::streampos(vtell()); }
  void text(const C *p, size_t n) { long w = this->m_width; this->m_width = 0; C f = this->m_fill; if (this->m_flags & ios_base::left) { write(p, n); while (w-- > (long)n) write(&f, 1); } else { while (w-- > (long)n) write(&f, 1); write(p, n); } }
  void num(unsigned long long v, bool neg) { char b[24]; int i = 24; unsigned base = (this->m_flags & ios_base::hex) ? 16 : 10; do { b[--i] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) b[--i] = '-'; text(b + i, 24 - i); }
  Self &operator<<(bool v) { num(v, false); return *this; }
  Self &operator<<(short v) { num(v < 0 ? 0ull - (unsigned long long)(long long)v : v, v < 0); return *this; }
  Self &operator<<(unsigned short v) { num(v, false); return *this; }
  Self &operator<<(int v) { num(v < 0 ? 0ull - (unsigned long long)(long long)v : v, v < 0); return *this; }
  Self &operator<<(unsigned v) { num(v, false); return *this; }
  Self &operator<<(long v) { num(v < 0 ? 0ull - (unsigned long long)v : v, v < 0); return *this; }
  Self &operator<<(unsigned long v) { num(v, false); return *this; }
  Self &operator<<(long long v) { num(v < 0 ? 0ull - (unsigned long long)v : v, v < 0); return *this; }
  Self &operator<<(unsigned long long v) { num(v, false); return *this; }
  Self &operator<<(float) { text("<real>", 6); return *this; }
  Self &operator<<(double) { text("<real>", 6); return *this; }
  Self &operator<<(long double) { text("<real>", 6); return *this; }
  Self &operator<<(const void *) { text("<ptr>", 5); return *this; }
  Self &operator<<(Self &(*f)(Self &)) { return f(*this); }
  Self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  Self &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  struct sentry { sentry(Self &) {} explicit operator bool() const { return true; } };
};
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) o.setstate(1); else o.text(s, char_traits<char>::length(s)); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { o.text(&c, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = c; o.text(&d, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = c; o.text(&d, 1); return o; }
template <class C, class T> basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, long n) { o.text(s, n); return o; }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o; }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { o.put(0); return o; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
struct _SymSetw { int n; }; inline _SymSetw setw(int n) { return {n}; }
template <class C> struct _SymFill { C c; }; template <class C> inline _SymFill<C> setfill(C c) { return {c}; }
struct _SymPrec { int n; }; inline _SymPrec setprecision(int n) { return {n}; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _SymSetw w) { o.width(w.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _SymFill<C> f) { o.fill(f.c); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _SymPrec p) { o.precision(p.n); return o; }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef basic_istream<C, T> Self;
  long m_gcount = 0;
  basic_istream() {}
  explicit basic_istream(basic_streambuf<C, T> *) {}
  virtual size_t vget(C *, size_t) { return 0; }
  virtual bool vseekg(uint64_t) { return false; }
  virtual long vtellg() { return -1; }
  virtual long vsizeg() { return 0; }
  Self &read(C *p, long n) {
    m_gcount = 0;
    if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
    m_gcount = n > 0 ? (long)vget(p, n) : 0;
    if (m_gcount != n) this->setstate(ios_base::eofbit | ios_base::failbit);
    return *this;
  }
  int get() { C c; m_gcount = 0; if (!this->good()) { this->setstate(ios_base::failbit); return -1; } m_gcount = vget(&c, 1); if (!m_gcount) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } return (unsigned char)c; }
  long gcount() const { return m_gcount; }
  Self &seekg(std::streampos p) { this->clear(this->m_state & ~ios_base::eofbit); if (!this->fail()) { long o = (long)(std::streamoff)p; if (o < 0 || !vseekg(o)) this->setstate(ios_base::failbit); } return *this; }
  Self &seekg(std::streamoff o, int dir) { this->clear(this->m_state & ~ios_base::eofbit); if (!this->fail()) { long b = dir == 0 ? 0 : dir == 1 ? vtellg() : vsizeg(); if (b + o < 0 || !vseekg(b + o)) this->setstate(ios_base::failbit); } return *this; }
  std::streampos tellg() { return this->fail() ? std::streampos(-1) : std::streampos(vtellg()); }
  void skipws() { }
  template <class N> Self &operator>>(N &n) { sym_unmodelled_extraction(&n); return *this; }
  static void sym_unmodelled_extraction(void *);
  struct sentry { sentry(Self &, bool = false) {} explicit operator bool() const { return true; } };
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};

inline namespace __cxx11 {
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
  basic_string<C, T, A> m_s;
public:
  basic_ostringstream() {} explicit basic_ostringstream(int) {}
  explicit basic_ostringstream(const basic_string<C, T, A> &s, int = 0) : m_s(s) {}
  bool vput(const C *p, size_t n) override { m_s.append(p, n); return true; }
  basic_string<C, T, A> str() const { return m_s; } void str(const basic_string<C, T, A> &s) { m_s = s; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
  basic_string<C, T, A> m_s; size_t m_r = 0;
public:
  basic_stringstream() {} explicit basic_stringstream(int) {}
  explicit basic_stringstream(const basic_string<C, T, A> &s, int = 0) : m_s(s) {}
  bool vput(const C *p, size_t n) override { m_s.append(p, n); return true; }
  size_t vget(C *p, size_t n) override { size_t a = m_s.size() - m_r; if (n > a) n = a; for (size_t i = 0; i < n; i++) p[i] = m_s[m_r + i]; m_r += n; return n; }
  basic_string<C, T, A> str() const { return m_s; } void str(const basic_string<C, T, A> &s) { m_s = s; m_r = 0; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
  basic_string<C, T, A> m_s; size_t m_r = 0;
public:
  basic_istringstream() {}
  explicit basic_istringstream(const basic_string<C, T, A> &s, int = 0) : m_s(s) {}
  size_t vget(C *p, size_t n) override { size_t a = m_s.size() - m_r; if (n > a) n = a; for (size_t i = 0; i < n; i++) p[i] = m_s[m_r + i]; m_r += n; return n; }
  bool vseekg(uint64_t p) override { if (p > m_s.size()) return false; m_r = p; return true; }
  long vtellg() override { return (long)m_r; } long vsizeg() override { return (long)m_s.size(); }
  basic_string<C, T, A> str() const { return m_s; }
};
}
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {};
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
  int m_fd = -1; uint64_t m_pos = 0;
public:
  basic_ifstream() {}
  explicit basic_ifstream(const char *p, int m = 8) { open(p, m); }
  explicit basic_ifstream(const std::string &p, int m = 8) { open(p.c_str(), m); }
  void open(const std::string &p, int m = 8) { open(p.c_str(), m); }
  void open(const char *p, int = 8) { if (m_fd >= 0) { this->setstate(ios_base::failbit); return; } m_fd = symfs_open(p, 0); m_pos = 0; if (m_fd < 0) this->setstate(ios_base::failbit); else this->clear(); }
  bool is_open() const { return m_fd >= 0; }
  void close() { if (m_fd < 0) this->setstate(ios_base::failbit); m_fd = -1; }
  size_t vget(C *p, size_t n) override { if (m_fd < 0) return 0; size_t r = symfs_read(m_fd, m_pos, p, n); m_pos += r; return r; }
  bool vseekg(uint64_t p) override { if (m_fd < 0) return false; m_pos = p; return true; }
  long vtellg() override { return m_fd < 0 ? -1 : (long)m_pos; } long vsizeg() override { return m_fd < 0 ? 0 : (long)symfs_fdsize(m_fd); }
};
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
  int m_fd = -1; uint64_t m_pos = 0;
public:
  basic_ofstream() {}
  explicit basic_ofstream(const char *p, int m = 16) { open(p, m); }
  explicit basic_ofstream(const std::string &p, int m = 16) { open(p.c_str(), m); }
  void open(const std::string &p, int m = 16) { open(p.c_str(), m); }
  void open(const char *p, int = 16) { m_fd = symfs_open(p, 1); m_pos = 0; if (m_fd < 0) this->setstate(ios_base::failbit); }
  bool is_open() const { return m_fd >= 0; }
  void close() { m_fd = -1; }
  bool vput(const C *p, size_t n) override { if (m_fd < 0) return false; if (!symfs_write(m_fd, m_pos, p, n)) return false; m_pos += n; return true; }
  bool vseek(uint64_t p) override { m_pos = p; return true; }
  long vtell() override { return m_fd < 0 ? -1 : (long)m_pos; } long vsize() override { return m_fd < 0 ? 0 : (long)symfs_fdsize(m_fd); }
};
template <class C, class T> class basic_fstream : public basic_iostream<C, T> {};
template <> inline basic_istream<char> &getline(basic_istream<char> &i, basic_string<char> &s, char d) { s.clear(); bool any = false; for (;;) { char c; size_t n = i.good() ? i.vget(&c, 1) : 0; if (!n) { i.setstate(any ? 2 : 6); break; } any = true; if (c == d) break; s.push_back(c); } return i; }
extern ostream cout, cerr, clog; extern istream cin;
}
