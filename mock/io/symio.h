// Streams over byte buffers in memory: string streams, and files of a small file system in memory, unbuffered, with faults that
// the harness injects. State bits and positions follow the C++ standard's rules for seekg/seekp/tellg/tellp/read/write.
#pragma once
#include <iosfwd>
#include <string>
#include <cstring>
#include <cstddef>
#include <exception>
#include <bits/postypes.h>
#pragma GCC visibility push(hidden)   // the C++ library itself must not pick these up in place of its own
namespace std {
class ios_base {
public:
  typedef unsigned iostate, openmode, fmtflags; enum seekdir { beg = 0, cur = 1, end = 2 };
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr fmtflags dec = 1, fixed = 2, hex = 4, scientific = 8, left = 16, right = 32, boolalpha = 64, showpoint = 128;
  class failure : public exception { public: const char *what() const noexcept override { return "ios_base::failure"; } };
};
}
namespace symio {
struct Buf {   // growing byte array
  unsigned char *d = nullptr; size_t n = 0, cap = 0;
  void grow(size_t m) { if (m <= cap) return; size_t c = cap ? cap : 64; while (c < m) c *= 2; unsigned char *q = (unsigned char *)::operator new(c); if (n) memcpy(q, d, n); if (d) ::operator delete(d); d = q; cap = c; }
  void put(size_t pos, const char *s, size_t k) { if (!k) return; grow(pos + k); if (pos > n) memset(d + n, 0, pos - n); memcpy(d + pos, s, k); if (pos + k > n) n = pos + k; }
  void assign(const Buf &o) { n = 0; put(0, (const char *)o.d, o.n); }
  void clear() { if (d) ::operator delete(d); d = nullptr; n = cap = 0; }
};
struct File { std::string name; Buf b; bool exists = false, readOnly = false; };
enum Op { OPEN, READ, WRITE, SEEK };
// fault injection: called before each operation on a file; returns how many of the n bytes are transferred (n: no fault); for OPEN
// and SEEK 0 means failure and 1 success; a READ that fails transfers nothing and sets badbit, as std::fstream does
struct Fs { File *f[8]; int n = 0; size_t (*fault)(Op op, File &f, size_t pos, size_t n) = nullptr; void (*wrote)(File &f, size_t pos, size_t n) = nullptr;
  bool sparse = false; void (*accessed)(bool write, size_t pos, size_t n) = nullptr; };   // sparse: positions are only reported, nothing is stored and zeros are read
inline Fs &fs() { static Fs x; return x; }
inline File *lookup(const char *name, bool create) { Fs &x = fs(); for (int i = 0; i < x.n; i++) if (x.f[i]->name == name) return x.f[i]; if (!create) return nullptr; File *q = new File; q->name = name; x.f[x.n++] = q; return q; }
inline bool remove(const char *name) { File *f = lookup(name, false); if (!f || !f->exists) return false; f->exists = false; f->b.n = 0; return true; }
struct Core {
  unsigned st = 0, exc = 0; File *file = nullptr; Buf own; bool str = false, sink = false; unsigned mode = 0; size_t gpos = 0, ppos = 0; std::streamsize gcount = 0;
  ~Core() { own.clear(); }
  Buf &buf() { return file ? file->b : own; }
  void set(unsigned s) { st = s; if (st & exc) throw std::ios_base::failure(); }
  void add(unsigned s) { set(st | s); }
  bool open() const { return file || str; }
  size_t &gp() { return gpos; } size_t &pp() { return str ? ppos : gpos; }   // a file has one position
  void read(char *p, std::streamsize k) {
    gcount = 0; if (st) { add(std::ios_base::failbit); return; } if (!open() || !(mode & std::ios_base::in)) { add(std::ios_base::eofbit | std::ios_base::failbit); return; }
    if (file && fs().sparse) { fs().accessed(false, gp(), (size_t)k); memset(p, 0, (size_t)k); gp() += (size_t)k; gcount = k; return; }
    Buf &b = buf(); size_t want = (size_t)k, have = gp() < b.n ? b.n - gp() : 0, m = want < have ? want : have;
    if (file && fs().fault && fs().fault(READ, *file, gp(), m) < m) { add(std::ios_base::badbit); return; }
    if (m) memcpy(p, b.d + gp(), m); gp() += m; gcount = (std::streamsize)m; if (m != want) add(std::ios_base::eofbit | std::ios_base::failbit); }
  void write(const char *p, std::streamsize k) {
    if (sink) return; if (st) { add(std::ios_base::failbit); return; } if (!open() || !(mode & std::ios_base::out)) { if (k) add(std::ios_base::badbit); return; }
    if (file && fs().sparse) { fs().accessed(true, pp(), (size_t)k); pp() += (size_t)k; return; }
    Buf &b = buf(); size_t m = (size_t)k; if (mode & std::ios_base::app) pp() = b.n; if (file && fs().fault) { size_t g = fs().fault(WRITE, *file, pp(), m); if (g < m) m = g; }
    size_t at = pp(); b.put(at, p, m); pp() += m; if (file && fs().wrote) fs().wrote(*file, at, m); if (m != (size_t)k) add(std::ios_base::badbit); }
  bool seek(size_t &pos, std::streamoff off, int dir) {
    if (!open()) return false; Buf &b = buf(); std::streamoff base = dir == 0 ? 0 : dir == 1 ? (std::streamoff)pos : (std::streamoff)b.n; std::streamoff to = base + off; if (to < 0 || (str && to > (std::streamoff)b.n)) return false;
    if (file && fs().fault && !fs().fault(SEEK, *file, (size_t)to, 0)) return false; pos = (size_t)to; return true; }
  void seekg(std::streamoff off, int dir) { set(st & ~std::ios_base::eofbit); if (st) { add(std::ios_base::failbit); return; } if (!seek(gp(), off, dir)) add(std::ios_base::failbit); }
  void seekp(std::streamoff off, int dir) { if (st & (std::ios_base::failbit | std::ios_base::badbit)) return; if (!seek(pp(), off, dir)) add(std::ios_base::failbit); }
  std::streamoff tellg() { if (st & (std::ios_base::failbit | std::ios_base::badbit)) return -1; if (!open()) return -1; return (std::streamoff)gp(); }
  std::streamoff tellp() { if (st & (std::ios_base::failbit | std::ios_base::badbit)) return -1; if (!open()) return -1; return (std::streamoff)pp(); }
  void openFile(const char *name, unsigned m) {
    if (file) { add(std::ios_base::failbit); return; } const bool wr = m & (std::ios_base::out | std::ios_base::app), rd = m & std::ios_base::in, tr = (m & std::ios_base::trunc) || (wr && !rd && !(m & std::ios_base::app));
    File *f = lookup(name, wr && (tr || (m & std::ios_base::app))); bool ok = f && (f->exists || (wr && (tr || (m & std::ios_base::app)))) && !(wr && f->readOnly && f->exists);
    if (f && ok && fs().fault && !fs().fault(OPEN, *f, m, 0)) ok = false; if (!ok) { add(std::ios_base::failbit); return; }
    if (!f->exists || tr) { f->b.n = 0; f->exists = true; } file = f; mode = m; gpos = (m & std::ios_base::ate) ? f->b.n : 0; st = 0; }
  void close() { if (!file) { add(std::ios_base::failbit); return; } file = nullptr; }
};
}
namespace std {
template <typename C, typename T> class basic_ios : public ios_base {
public:
  symio::Core *_c = nullptr; basic_ios() {} basic_ios(const basic_ios &) = delete; virtual ~basic_ios() {}
  bool good() const { return _c->st == 0; } bool eof() const { return _c->st & eofbit; } bool fail() const { return _c->st & (failbit | badbit); } bool bad() const { return _c->st & badbit; }
  iostate rdstate() const { return _c->st; } void clear(iostate s = goodbit) { _c->set(s); } void setstate(iostate s) { _c->add(s); } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate exceptions() const { return _c->exc; } void exceptions(iostate e) { _c->exc = e; _c->set(_c->st); }
};
template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef ios_base ios_base_t; typedef C char_type; virtual ~basic_istream() {}
  basic_istream &read(C *p, streamsize n) { this->_c->read(p, n); return *this; } streamsize gcount() const { return this->_c->gcount; }
  int get() { C c; this->_c->read(&c, 1); return this->_c->gcount ? (unsigned char)c : -1; } basic_istream &get(C &c) { this->_c->read(&c, 1); return *this; }
  basic_istream &ignore(streamsize n = 1, int = -1) { C c; while (n-- > 0 && this->good()) this->_c->read(&c, 1); return *this; }
  int peek() { if (!this->good()) return -1; auto &b = this->_c->buf(); return this->_c->gp() < b.n ? b.d[this->_c->gp()] : -1; }
  basic_istream &seekg(streamoff o, ios_base::seekdir d) { this->_c->seekg(o, d); return *this; } basic_istream &seekg(streampos p) { this->_c->seekg(streamoff(p), 0); return *this; } streampos tellg() { return streampos(this->_c->tellg()); }
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; virtual ~basic_ostream() {}
  basic_ostream &write(const C *p, streamsize n) { this->_c->write(p, n); return *this; } basic_ostream &put(C c) { this->_c->write(&c, 1); return *this; } basic_ostream &flush() { return *this; }
  basic_ostream &seekp(streamoff o, ios_base::seekdir d) { this->_c->seekp(o, d); return *this; } basic_ostream &seekp(streampos p) { this->_c->seekp(streamoff(p), 0); return *this; } streampos tellp() { return streampos(this->_c->tellp()); }
  void num(unsigned long long v, bool neg) { char b[24]; int i = 24; do { b[--i] = (char)('0' + v % 10); v /= 10; } while (v); if (neg) b[--i] = '-'; if (!this->_c->sink) this->_c->write(b + i, 24 - i); }
  void snum(long long v) { num(v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0); }
  basic_ostream &operator<<(bool v) { num(v, false); return *this; } basic_ostream &operator<<(short v) { snum(v); return *this; } basic_ostream &operator<<(unsigned short v) { num(v, false); return *this; }
  basic_ostream &operator<<(int v) { snum(v); return *this; } basic_ostream &operator<<(unsigned v) { num(v, false); return *this; } basic_ostream &operator<<(long v) { snum(v); return *this; } basic_ostream &operator<<(unsigned long v) { num(v, false); return *this; }
  basic_ostream &operator<<(long long v) { snum(v); return *this; } basic_ostream &operator<<(unsigned long long v) { num(v, false); return *this; }
  // numbers are not formatted: their text is of no consequence
  basic_ostream &operator<<(float) { if (!this->_c->sink) this->_c->write("?", 1); return *this; } basic_ostream &operator<<(double) { return *this << 0.0f; } basic_ostream &operator<<(long double) { return *this << 0.0f; } basic_ostream &operator<<(const void *) { return *this << 0.0f; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); } basic_ostream &operator<<(ios_base &(*)(ios_base &)) { return *this; }
};
inline ostream &operator<<(ostream &o, const char *s) { o._c->sink ? void() : o._c->write(s, (streamsize)strlen(s)); return o; }
inline ostream &operator<<(ostream &o, char c) { o._c->sink ? void() : o._c->write(&c, 1); return o; }
inline ostream &operator<<(ostream &o, signed char c) { return o << (char)c; } inline ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
inline ostream &operator<<(ostream &o, const string &s) { o._c->sink ? void() : o._c->write(s.data(), (streamsize)s.size()); return o; }
template <typename C, typename T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); } template <typename C, typename T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
inline ios_base &fixed(ios_base &b) { return b; } inline ios_base &hex(ios_base &b) { return b; } inline ios_base &dec(ios_base &b) { return b; } inline ios_base &scientific(ios_base &b) { return b; } inline ios_base &boolalpha(ios_base &b) { return b; }
struct symio_manip {}; inline symio_manip setw(int) { return {}; } inline symio_manip setprecision(int) { return {}; } template <typename C> symio_manip setfill(C) { return {}; } inline ostream &operator<<(ostream &o, symio_manip) { return o; }
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: virtual ~basic_iostream() {} };
template <typename C, typename T> class basic_fstream : public basic_iostream<C, T> {
  symio::Core k;
public:
  basic_fstream() { this->_c = &k; } explicit basic_fstream(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) { this->_c = &k; open(n, m); } explicit basic_fstream(const string &n, ios_base::openmode m = ios_base::in | ios_base::out) : basic_fstream(n.c_str(), m) {}
  void open(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) { k.openFile(n, m); } void open(const string &n, ios_base::openmode m = ios_base::in | ios_base::out) { open(n.c_str(), m); } bool is_open() const { return k.file; } void close() { k.close(); } virtual ~basic_fstream() {} };
template <typename C, typename T> class basic_ifstream : public basic_istream<C, T> {
  symio::Core k;
public:
  basic_ifstream() { this->_c = &k; } explicit basic_ifstream(const char *n, ios_base::openmode m = ios_base::in) { this->_c = &k; open(n, m); } explicit basic_ifstream(const string &n, ios_base::openmode m = ios_base::in) : basic_ifstream(n.c_str(), m) {}
  void open(const char *n, ios_base::openmode m = ios_base::in) { k.openFile(n, m | ios_base::in); } bool is_open() const { return k.file; } void close() { k.close(); } virtual ~basic_ifstream() {} };
template <typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
  symio::Core k;
public:
  basic_ofstream() { this->_c = &k; } explicit basic_ofstream(const char *n, ios_base::openmode m = ios_base::out) { this->_c = &k; open(n, m); } explicit basic_ofstream(const string &n, ios_base::openmode m = ios_base::out) : basic_ofstream(n.c_str(), m) {}
  void open(const char *n, ios_base::openmode m = ios_base::out) { k.openFile(n, m | ios_base::out); } bool is_open() const { return k.file; } void close() { k.close(); } virtual ~basic_ofstream() {} };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
  symio::Core k;
public:
  explicit basic_stringstream(ios_base::openmode m = ios_base::in | ios_base::out) { this->_c = &k; k.str = true; k.mode = m; } explicit basic_stringstream(const string &s, ios_base::openmode m = ios_base::in | ios_base::out) : basic_stringstream(m) { k.own.put(0, s.data(), s.size()); if (m & ios_base::ate) k.ppos = s.size(); }
  string str() const { return string((const char *)k.own.d, k.own.n); } void str(const string &s) { k.own.n = 0; k.own.put(0, s.data(), s.size()); k.gpos = k.ppos = 0; } virtual ~basic_stringstream() {} };
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
  symio::Core k;
public:
  explicit basic_ostringstream(ios_base::openmode m = ios_base::out) { this->_c = &k; k.str = true; k.mode = m | ios_base::out; } string str() const { return string((const char *)k.own.d, k.own.n); } virtual ~basic_ostringstream() {} };
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
  symio::Core k;
public:
  explicit basic_istringstream(const string &s, ios_base::openmode m = ios_base::in) { this->_c = &k; k.str = true; k.mode = m | ios_base::in; k.own.put(0, s.data(), s.size()); } string str() const { return string((const char *)k.own.d, k.own.n); } virtual ~basic_istringstream() {} };
_GLIBCXX_END_NAMESPACE_CXX11
class symio_sink : public basic_ostream<char, char_traits<char>> { symio::Core k; public: symio_sink() { _c = &k; k.sink = true; } };
inline symio_sink cout, cerr, clog;
}
#pragma GCC visibility pop
