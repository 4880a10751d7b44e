#pragma once
#include <iosfwd>
#include <bits/stl_iterator_base_types.h>
#include <bits/char_traits.h>
namespace std { inline namespace __dsym {
template<typename V, typename C = char, typename T = char_traits<C>, typename D = ptrdiff_t> class istream_iterator {
public: typedef input_iterator_tag iterator_category; typedef V value_type; typedef D difference_type; typedef const V* pointer; typedef const V& reference;
    istream_iterator() : s(nullptr), ok(false), v() {} istream_iterator(basic_istream<C, T>& i) : s(&i), ok(false), v() { rd(); }
    const V& operator*() const { return v; } const V* operator->() const { return &v; } istream_iterator& operator++() { rd(); return *this; } istream_iterator operator++(int) { auto t = *this; rd(); return t; }
    friend bool operator==(const istream_iterator& a, const istream_iterator& b) { return a.ok == b.ok && (!a.ok || a.s == b.s); }
private: void rd() { if (s && (*s >> v)) ok = true; else ok = false; } basic_istream<C, T>* s; bool ok; V v; };
template<typename V, typename C = char, typename T = char_traits<C>> class ostream_iterator {
public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    ostream_iterator(basic_ostream<C, T>& o, const C* d = nullptr) : s(&o), d(d) {} ostream_iterator& operator=(const V& v) { *s << v; if (d) *s << d; return *this; } ostream_iterator& operator*() { return *this; } ostream_iterator& operator++() { return *this; } ostream_iterator& operator++(int) { return *this; }
private: basic_ostream<C, T>* s; const C* d; };
} }
namespace std {
template<typename C, typename T> class __attribute__((visibility("hidden"))) istreambuf_iterator {
public: typedef input_iterator_tag iterator_category; typedef C value_type; typedef ptrdiff_t difference_type; typedef C* pointer; typedef C reference; typedef typename T::int_type int_type; typedef basic_streambuf<C, T> streambuf_type; typedef basic_istream<C, T> istream_type;
    constexpr istreambuf_iterator() noexcept : b(nullptr) {} istreambuf_iterator(istream_type& i) noexcept : b(i.rdbuf()) {} istreambuf_iterator(streambuf_type* s) noexcept : b(s) {}
    C operator*() const { return T::to_char_type(b->sgetc()); } istreambuf_iterator& operator++() { b->sbumpc(); return *this; } istreambuf_iterator operator++(int) { auto t = *this; b->sbumpc(); return t; }
    bool equal(const istreambuf_iterator& o) const { return end() == o.end(); }
    friend bool operator==(const istreambuf_iterator& a, const istreambuf_iterator& o) { return a.equal(o); }
private: bool end() const { return !b || T::eq_int_type(b->sgetc(), T::eof()); } streambuf_type* b; };
template<typename C, typename T> class __attribute__((visibility("hidden"))) ostreambuf_iterator {
public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    ostreambuf_iterator(basic_ostream<C, T>& o) noexcept : b(o.rdbuf()) {} ostreambuf_iterator(basic_streambuf<C, T>* s) noexcept : b(s) {} ostreambuf_iterator& operator=(C c) { b->sputc(c); return *this; } ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++(int) { return *this; } bool failed() const { return false; }
private: basic_streambuf<C, T>* b; };
}
