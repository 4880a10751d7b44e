#pragma once
#include <iosfwd>
#include <bits/cxxabi_forced.h>
namespace std { inline namespace __dsym {
template<typename C, typename T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { o.__insert(s, n); return o; }
} }
