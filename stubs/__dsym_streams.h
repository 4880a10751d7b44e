#pragma once
#include <iosfwd>
#include <bits/localefwd.h>
#include <bits/ostream_insert.h>
#include <string>
#include <string_view>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <type_traits>
#include <utility>
#include <__dsym_stream_iter.h>
#include <__dsym_vfs.h>
extern "C" { unsigned dsym_tab_put(unsigned long, unsigned long); bool dsym_is_symbolic(unsigned long); bool dsym_is_symbolic_f(double); int dsym_fmt_double(char*, size_t, const char*, int, double); double strtod(const char*, char**) noexcept; }
namespace std { inline namespace __dsym {
typedef int __fsmode;
class ios_base { public:
    typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; enum seekdir { beg, cur, end };
    static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, boolalpha = 8, fixed = 16, scientific = 32, floatfield = 48, showbase = 64, showpoint = 128, showpos = 256, uppercase = 512, left = 1024, right = 2048, internal = 4096, adjustfield = 7168, skipws = 8192, unitbuf = 16384;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    class failure : public runtime_error { public: explicit failure(const char* s) : runtime_error(s) {} explicit failure(const string& s) : runtime_error(s) {} };
    class Init {};
    fmtflags flags() const { return _f; } fmtflags flags(fmtflags f) { auto o = _f; _f = f; return o; } fmtflags setf(fmtflags f) { auto o = _f; _f |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = _f; _f = (_f & ~m) | (f & m); return o; } void unsetf(fmtflags f) { _f &= ~f; }
    streamsize precision() const { return _p; } streamsize precision(streamsize p) { auto o = _p; _p = p; return o; } streamsize width() const { return _w; } streamsize width(streamsize w) { auto o = _w; _w = w; return o; }
    locale getloc() const { return locale(); } locale imbue(const locale& l) { return l; } static bool sync_with_stdio(bool = true) { return true; }
    static int xalloc() { return 0; }
protected: fmtflags _f = dec | skipws; streamsize _p = 6, _w = 0; };
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; } inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; } inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; } inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; } inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; } inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; } inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }

template<typename C, typename T> class basic_streambuf { public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    virtual ~basic_streambuf() {}
    streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); } int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
    int_type sgetc() { return underflow(); } int_type sbumpc() { return uflow(); } int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); } streamsize sgetn(C* s, streamsize n) { return xsgetn(s, n); }
    streamsize in_avail() { return showmanyc(); } int pubsync() { return sync(); } int_type sungetc() { return pbackfail(T::eof()); } int_type sputbackc(C c) { return pbackfail(T::to_int_type(c)); }
    pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); } pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(off_type(p), ios_base::beg, m); }
    locale getloc() const { return locale(); } locale pubimbue(const locale& l) { return l; } basic_streambuf* pubsetbuf(C*, streamsize) { return this; }
protected: basic_streambuf() {}
    virtual streamsize xsputn(const C* s, streamsize n) { streamsize i = 0; for (; i < n; i++) if (T::eq_int_type(overflow(T::to_int_type(s[i])), T::eof())) break; return i; } virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
    virtual int_type underflow() { return T::eof(); } virtual int_type uflow() { return T::eof(); } virtual streamsize xsgetn(C* s, streamsize n) { streamsize i = 0; for (; i < n; i++) { auto c = uflow(); if (T::eq_int_type(c, T::eof())) break; s[i] = T::to_char_type(c); } return i; }
    virtual int sync() { return 0; } virtual streamsize showmanyc() { return 0; } virtual int_type pbackfail(int_type) { return T::eof(); } virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode) { return pos_type(off_type(-1)); } };

template<typename C, typename T> class basic_ios : public ios_base { public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_ios(basic_streambuf<C, T>* b = nullptr) { init(b); } virtual ~basic_ios() {} void init(basic_streambuf<C, T>* b) { _b = b; _s = b ? goodbit : badbit; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } iostate rdstate() const { return _s; } bool good() const { return _s == 0; } bool eof() const { return _s & eofbit; } bool fail() const { return _s & (badbit | failbit); } bool bad() const { return _s & badbit; }
    void clear(iostate s = goodbit) { _s = _b ? s : (s | badbit); if (_s & _x) throw failure("ios_base::clear"); } void setstate(iostate s) { clear(_s | s); } void _M_setstate(iostate s) { _s |= s; } iostate exceptions() const { return _x; } void exceptions(iostate x) { _x = x; clear(_s); }
    basic_streambuf<C, T>* rdbuf() const { return _b; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = _b; _b = b; clear(); return o; } C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; } C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
    basic_ostream<C, T>* tie() const { return nullptr; } basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return nullptr; } basic_ios& copyfmt(const basic_ios& o) { _f = o._f; _p = o._p; _w = o._w; _fill = o._fill; return *this; }
protected: basic_streambuf<C, T>* _b; iostate _s, _x = goodbit; C _fill = ' '; };

template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> { public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef basic_ostream self;
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_ostream() {} basic_ostream(const basic_ostream&) = delete;
    class sentry { bool ok; public: explicit sentry(basic_ostream& o) : ok(o.good()) { if (!ok) o.setstate(ios_base::failbit); } explicit operator bool() const { return ok; } };
    self& put(C c) { return write(&c, 1); }
    self& write(const C* s, streamsize n) { sentry g(*this); if (g) { if (this->_b->sputn(s, n) != n) this->setstate(ios_base::badbit); } return *this; }
    self& flush() { if (this->_b && this->_b->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
    pos_type tellp() { return this->fail() ? pos_type(-1) : this->_b->pubseekoff(0, ios_base::cur, ios_base::out); } self& seekp(pos_type p) { this->_b->pubseekpos(p, ios_base::out); return *this; }
    void __insert(const C* s, streamsize n) { sentry g(*this); if (!g) return; streamsize w = this->_w, pad = w > n ? w - n : 0; this->_w = 0; bool l = (this->_f & ios_base::adjustfield) == ios_base::left;
        if (!l) for (streamsize i = 0; i < pad; i++) this->_b->sputc(this->_fill); if (this->_b->sputn(s, n) != n) this->setstate(ios_base::badbit); if (l) for (streamsize i = 0; i < pad; i++) this->_b->sputc(this->_fill); }
    // symbolic numbers are kept aside in a table and appear in the text as \1, kind, four letters a..p of the table index
    void __sym(char k, unsigned long v, bool neg) { unsigned id = dsym_tab_put(v, neg); C b[6]; b[0] = 1; b[1] = (C)k; for (int i = 0; i < 4; i++) b[2 + i] = (C)('a' + (id >> (4 * i) & 15)); __insert(b, 6); }
    void __num(unsigned long v, bool neg) { // v: magnitude
        if (dsym_is_symbolic(v) || dsym_is_symbolic(neg)) { __sym('i', v, neg); return; }
        C t[72]; int k = 72; unsigned base = (this->_f & ios_base::basefield) == ios_base::hex ? 16 : (this->_f & ios_base::basefield) == ios_base::oct ? 8 : 10; bool up = this->_f & ios_base::uppercase;
        unsigned long z = v; do { unsigned d = (unsigned)(v % base); t[--k] = (C)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v);
        if ((this->_f & ios_base::showbase) && z) { if (base == 16) { t[--k] = up ? 'X' : 'x'; t[--k] = '0'; } else if (base == 8) t[--k] = '0'; }
        if (neg) t[--k] = '-'; else if ((this->_f & ios_base::showpos)) t[--k] = '+'; __insert(t + k, 72 - k); }
    template<typename I> void __int(I v) { if constexpr (is_signed_v<I>) { if ((this->_f & ios_base::basefield) == ios_base::dec || !(this->_f & ios_base::basefield)) { bool neg = v < 0; unsigned long m = (unsigned long)(long)v; m = neg ? 0 - m : m; __num(m, neg); return; } } __num((unsigned long)(make_unsigned_t<I>)v, false); }
    void __dbl(double v) { if (dsym_is_symbolic_f(v)) { unsigned long u; memcpy(&u, &v, 8); __sym('d', u, false); return; }
        char t[512]; unsigned ff = this->_f & ios_base::floatfield; bool up = this->_f & ios_base::uppercase; int n = dsym_fmt_double(t, sizeof t, ff == ios_base::fixed ? "%.*f" : ff == ios_base::scientific ? (up ? "%.*E" : "%.*e") : (up ? "%.*G" : "%.*g"), (int)this->_p, v); C c[512]; for (int i = 0; i < n; i++) c[i] = t[i]; __insert(c, n); }
    self& operator<<(bool v) { if (this->_f & ios_base::boolalpha) { const char* s = v ? "true" : "false"; __insert((const C*)s, (streamsize)strlen(s)); } else __int((unsigned)v); return *this; }
    self& operator<<(short v) { __int(v); return *this; } self& operator<<(unsigned short v) { __int(v); return *this; } self& operator<<(int v) { __int(v); return *this; } self& operator<<(unsigned v) { __int(v); return *this; } self& operator<<(long v) { __int(v); return *this; } self& operator<<(unsigned long v) { __int(v); return *this; } self& operator<<(long long v) { __int(v); return *this; } self& operator<<(unsigned long long v) { __int(v); return *this; }
    self& operator<<(float v) { __dbl(v); return *this; } self& operator<<(double v) { __dbl(v); return *this; } self& operator<<(long double v) { __dbl((double)v); return *this; }
    self& operator<<(const void* p) { auto f = this->_f; this->_f = ios_base::hex | ios_base::showbase; __num((unsigned long)p, false); this->_f = f; return *this; } self& operator<<(nullptr_t) { __insert((const C*)"nullptr", 7); return *this; }
    self& operator<<(basic_streambuf<C, T>* b) { if (!b) { this->setstate(ios_base::badbit); return *this; } streamsize k = 0; for (;;) { auto c = b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; if (T::eq_int_type(this->_b->sputc(T::to_char_type(c)), T::eof())) { break; } k++; } if (!k) this->setstate(ios_base::failbit); return *this; }
    self& operator<<(self& (*f)(self&)) { return f(*this); } self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; } self& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; } };
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.__insert(&c, 1); return o; } template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { o.__insert((const char*)&c, 1); return o; } template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { o.__insert((const char*)&c, 1); return o; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if (!s) o.setstate(ios_base::badbit); else o.__insert(s, (streamsize)strlen(s)); return o; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
template<typename O, typename V> requires (is_base_of_v<ios_base, remove_reference_t<O>> && !is_lvalue_reference_v<O>) inline O&& operator<<(O&& o, const V& v) { o << v; return std::move(o); }
template<typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o.flush(); } template<typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(C()); } template<typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }

template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> { public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef basic_istream self;
    explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_istream() {} basic_istream(const basic_istream&) = delete;
    class sentry { bool ok; public: explicit sentry(basic_istream& i, bool nows = false) : ok(i.good()) { if (ok && !nows && (i.flags() & ios_base::skipws)) { for (;;) { auto c = i.rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit | ios_base::failbit); ok = false; break; } if (!::isspace((unsigned char)T::to_char_type(c))) break; i.rdbuf()->sbumpc(); } } else if (!ok) i.setstate(ios_base::failbit); } explicit operator bool() const { return ok; } };
    streamsize gcount() const { return _g; } int_type get() { _g = 0; sentry g(*this, true); if (!g) return T::eof(); auto c = this->_b->sbumpc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else _g = 1; return c; } self& get(C& c) { auto x = get(); if (!T::eq_int_type(x, T::eof())) c = T::to_char_type(x); return *this; }
    int_type peek() { _g = 0; sentry g(*this, true); if (!g) return T::eof(); auto c = this->_b->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; } self& ignore(streamsize n = 1, int_type d = T::eof()) { for (streamsize i = 0; i < n; i++) { auto c = this->_b->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } if (T::eq_int_type(c, d)) break; } return *this; }
    self& read(C* s, streamsize n) { _g = 0; sentry g(*this, true); if (g) { _g = this->_b->sgetn(s, n); if (_g != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
    streamsize readsome(C* s, streamsize n) { _g = this->_b->sgetn(s, n); return _g; } self& unget() { this->_b->sungetc(); return *this; } self& putback(C c) { this->_b->sputbackc(c); return *this; }
    pos_type tellg() { return this->fail() ? pos_type(-1) : this->_b->pubseekoff(0, ios_base::cur, ios_base::in); } self& seekg(pos_type p) { this->clear(this->rdstate() & ~ios_base::eofbit); this->_b->pubseekpos(p, ios_base::in); return *this; } self& seekg(off_type o, ios_base::seekdir d) { this->clear(this->rdstate() & ~ios_base::eofbit); this->_b->pubseekoff(o, d, ios_base::in); return *this; } int sync() { return 0; }
    void __word(string& s, const char* allowed) { for (;;) { auto c = this->_b->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); return; } char ch = (char)T::to_char_type(c); if (!strchr(allowed, ch) || !ch) return; s += ch; this->_b->sbumpc(); } }
    template<typename I> self& __geti(I& v) { sentry g(*this); if (g) { string s; __word(s, "+-0123456789"); char* e; if constexpr (is_signed_v<I>) { long x = strtol(s.c_str(), &e, 10); v = (I)x; if (s.empty() || *e || (long)v != x) this->setstate(ios_base::failbit); } else { unsigned long x = strtoul(s.c_str(), &e, 10); v = (I)x; if (s.empty() || *e || (unsigned long)v != x) this->setstate(ios_base::failbit); } } return *this; }
    self& operator>>(short& v) { return __geti(v); } self& operator>>(unsigned short& v) { return __geti(v); } self& operator>>(int& v) { return __geti(v); } self& operator>>(unsigned& v) { return __geti(v); } self& operator>>(long& v) { return __geti(v); } self& operator>>(unsigned long& v) { return __geti(v); } self& operator>>(long long& v) { return __geti(v); } self& operator>>(unsigned long long& v) { return __geti(v); } self& operator>>(bool& v) { int i = 0; __geti(i); v = i; return *this; }
    self& operator>>(double& v) { sentry g(*this); if (g) { string s; __word(s, "+-0123456789.eE"); char* e; v = strtod(s.c_str(), &e); if (s.empty() || *e) this->setstate(ios_base::failbit); } return *this; } self& operator>>(float& v) { double d; *this >> d; v = (float)d; return *this; }
    self& operator>>(self& (*f)(self&)) { return f(*this); } self& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    self& operator>>(basic_streambuf<C, T>* b) { for (;;) { auto c = this->_b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; b->sputc(T::to_char_type(c)); } this->setstate(ios_base::eofbit); return *this; }
protected: streamsize _g = 0; };
template<typename T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { typename basic_istream<char, T>::sentry g(i); if (g) { auto x = i.rdbuf()->sbumpc(); if (T::eq_int_type(x, T::eof())) i.setstate(ios_base::eofbit | ios_base::failbit); else c = T::to_char_type(x); } return i; }
template<typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { for (;;) { auto c = i.rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); break; } if (!::isspace((unsigned char)T::to_char_type(c))) break; i.rdbuf()->sbumpc(); } return i; }
template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T>* b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {} };

template<typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> { public: typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    basic_stringbuf() {} explicit basic_stringbuf(ios_base::openmode m) : md(m) {} explicit basic_stringbuf(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out) : buf(s), w((m & (ios_base::app | ios_base::ate)) ? s.size() : 0), md(m) {}
    basic_stringbuf(basic_stringbuf&& o) : buf(std::move(o.buf)), r(o.r), w(o.w), md(o.md) {} basic_string<C, T, A> str() const { return buf; } basic_string_view<C, T> view() const { return buf; } void str(const basic_string<C, T, A>& s) { buf = s; r = 0; w = (md & (ios_base::app | ios_base::ate)) ? s.size() : 0; }
protected: streamsize xsputn(const C* s, streamsize n) override { if (w == buf.size()) buf.append(s, n); else { size_t k = buf.size() - w < (size_t)n ? buf.size() - w : n; buf.replace(w, k, s, n); } w += n; return n; } int_type overflow(int_type c) override { C x = T::to_char_type(c); xsputn(&x, 1); return c; }
    int_type underflow() override { return r < buf.size() ? T::to_int_type(buf[r]) : T::eof(); } int_type uflow() override { return r < buf.size() ? T::to_int_type(buf[r++]) : T::eof(); } streamsize xsgetn(C* s, streamsize n) override { streamsize a = buf.size() - r; if (n > a) n = a; if (n > 0) memcpy(s, buf.data() + r, n * sizeof(C)); r += n; return n; } streamsize showmanyc() override { return buf.size() - r; } int_type pbackfail(int_type) override { if (!r) return T::eof(); r--; return T::to_int_type(buf[r]); }
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override { size_t& p = (m & ios_base::in) ? r : w; long b = d == ios_base::beg ? 0 : d == ios_base::cur ? (long)p : (long)buf.size(); p = b + o; if ((m & ios_base::in) && (m & ios_base::out)) w = p; return pos_type((off_type)p); }
private: basic_string<C, T, A> buf; size_t r = 0, w = 0; ios_base::openmode md = ios_base::in | ios_base::out; };
#define DSYM_SS(N, B, DM) template<typename C, typename T, typename A> class N : public B<C, T> { basic_stringbuf<C, T, A> sb; public: N() : B<C, T>(nullptr), sb(DM) { this->init(&sb); } explicit N(ios_base::openmode m) : B<C, T>(nullptr), sb(m | DM) { this->init(&sb); } explicit N(const basic_string<C, T, A>& s, ios_base::openmode m = DM) : B<C, T>(nullptr), sb(s, m | DM) { this->init(&sb); } \
    N(N&& o) : B<C, T>(nullptr), sb(std::move(o.sb)) { this->init(&sb); } basic_string<C, T, A> str() const { return sb.str(); } basic_string_view<C, T> view() const { return sb.view(); } void str(const basic_string<C, T, A>& s) { sb.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&sb); } };
DSYM_SS(basic_istringstream, basic_istream, ios_base::in) DSYM_SS(basic_ostringstream, basic_ostream, ios_base::out) DSYM_SS(basic_stringstream, basic_iostream, (ios_base::in | ios_base::out))

template<typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> { public: typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; basic_filebuf() {} ~basic_filebuf() { close(); }
    bool is_open() const { return h; } basic_filebuf* open(const char* p, ios_base::openmode m) { if (h) return nullptr; h = vfs_open(p, (m & ios_base::out) || (m & ios_base::app), (m & (ios_base::app)) ? 1 : 0, (m & ios_base::trunc) || ((m & ios_base::out) && !(m & ios_base::in) && !(m & ios_base::app))); if (h && (m & ios_base::ate)) vfs_seek(h, vfs_tell(h) + vfs_avail(h)); pk = -1; return h ? this : nullptr; }
    basic_filebuf* close() { if (!h) return nullptr; int r = vfs_close(h); h = nullptr; return r == 0 ? this : nullptr; }
protected: streamsize xsputn(const C* s, streamsize n) override { return h ? vfs_write(h, (const char*)s, n) : 0; } int_type overflow(int_type c) override { if (T::eq_int_type(c, T::eof())) return T::not_eof(c); C x = T::to_char_type(c); return xsputn(&x, 1) == 1 ? c : T::eof(); }
    int_type underflow() override { if (!h) return T::eof(); if (pk < 0) { C c; if (vfs_read(h, (char*)&c, 1) != 1) return T::eof(); pk = T::to_int_type(c); } return pk; } int_type uflow() override { auto c = underflow(); pk = -1; return c; }
    streamsize xsgetn(C* s, streamsize n) override { if (!h || n <= 0) return 0; streamsize k = 0; if (pk >= 0) { *s = T::to_char_type(pk); pk = -1; k = 1; } return k + vfs_read(h, (char*)s + k, n - k); } streamsize showmanyc() override { return h ? vfs_avail(h) : 0; }
    pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode) override { if (!h) return pos_type(off_type(-1)); long b = d == ios_base::beg ? 0 : d == ios_base::cur ? vfs_tell(h) - (pk >= 0) : vfs_tell(h) + vfs_avail(h); pk = -1; vfs_seek(h, b + o); return pos_type(off_type(b + o)); }
private: void* h = nullptr; long pk = -1; };
namespace __fsx { template<typename P> concept pathlike = requires(const P& p) { p.__is_dsym_path(); }; }
#define DSYM_FS(N, B, DM) template<typename C, typename T> class N : public B<C, T> { basic_filebuf<C, T> fb; public: N() : B<C, T>(nullptr) { this->init(&fb); } explicit N(const char* p, ios_base::openmode m = DM) : B<C, T>(nullptr) { this->init(&fb); open(p, m); } explicit N(const string& p, ios_base::openmode m = DM) : N(p.c_str(), m) {} template<__fsx::pathlike P> explicit N(const P& p, ios_base::openmode m = DM) : N(p.c_str(), m) {} \
    void open(const char* p, ios_base::openmode m = DM) { if (fb.open(p, m | (DM == (ios_base::in | ios_base::out) ? 0 : DM))) this->clear(); else this->setstate(ios_base::failbit); } void open(const string& p, ios_base::openmode m = DM) { open(p.c_str(), m); } template<__fsx::pathlike P> void open(const P& p, ios_base::openmode m = DM) { open(p.c_str(), m); } void close() { if (!fb.close()) this->setstate(ios_base::failbit); } bool is_open() const { return fb.is_open(); } basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&fb); } };
DSYM_FS(basic_ifstream, basic_istream, ios_base::in) DSYM_FS(basic_ofstream, basic_ostream, ios_base::out) DSYM_FS(basic_fstream, basic_iostream, (ios_base::in | ios_base::out))

extern ostream cout, cerr, clog; extern istream cin;
struct __setw { int n; }; inline __setw setw(int n) { return {n}; } struct __setp { int n; }; inline __setp setprecision(int n) { return {n}; } template<typename C> struct __setf { C c; }; template<typename C> __setf<C> setfill(C c) { return {c}; } struct __setb { int n; }; inline __setb setbase(int n) { return {n}; } struct __setfl { ios_base::fmtflags f; }; inline __setfl setiosflags(ios_base::fmtflags f) { return {f}; }
template<typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __setw s) { o.width(s.n); return o; } template<typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __setp s) { o.precision(s.n); return o; } template<typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __setf<C> s) { o.fill(s.c); return o; } template<typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __setfl s) { o.setf(s.f); return o; }
template<typename C, typename T> basic_istream<C, T>& operator>>(basic_istream<C, T>& o, __setw s) { o.width(s.n); return o; }
inline string __quote(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; } inline string quoted(const string& s) { return __quote(s); }
} // inline namespace
template<> inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) { s.clear(); basic_istream<char>::sentry g(i, true); if (!g) return i; bool any = false; for (;;) { auto c = i.rdbuf()->sbumpc(); if (c == char_traits<char>::eof()) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; if ((char)c == d) break; s += (char)c; } return i; }
template<> inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) { basic_istream<char>::sentry g(i); if (!g) return i; s.clear(); for (;;) { auto c = i.rdbuf()->sgetc(); if (c == char_traits<char>::eof()) { i.setstate(ios_base::eofbit); break; } if (::isspace((unsigned char)c)) break; s += (char)c; i.rdbuf()->sbumpc(); } if (s.empty()) i.setstate(ios_base::failbit); return i; }
}
