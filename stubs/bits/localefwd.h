#pragma once
#include <iosfwd>
#include <cctype>
namespace std { inline namespace __dsym {
class locale { public: locale() {} explicit locale(const char*) {} static const locale& classic() { static locale l; return l; } static locale global(const locale& l) { return l; } bool operator==(const locale&) const { return true; } class facet {}; class id {}; const char* name() const { return "C"; } };
template<typename C> class ctype;
class ctype_base { public: enum mask { space = 1, digit = 2, alpha = 4, alnum = 6, upper = 8, lower = 16, print = 32 }; };
template<> class ctype<char> : public ctype_base { public: bool is(mask m, char c) const { int x = (unsigned char)c; return ((m & space) && isspace(x)) || ((m & digit) && isdigit(x)) || ((m & alpha) && isalpha(x)); } char widen(char c) const { return c; } char narrow(char c, char) const { return c; } char toupper(char c) const { return ::toupper((unsigned char)c); } char tolower(char c) const { return ::tolower((unsigned char)c); } };
template<typename F> const F& use_facet(const locale&) { static F f; return f; }
template<typename F> bool has_facet(const locale&) { return true; }
template<typename C> bool isspace(C c, const locale&) { return ::isspace((unsigned char)c); }
template<typename C> bool isdigit(C c, const locale&) { return ::isdigit((unsigned char)c); }
template<typename C> bool isalpha(C c, const locale&) { return ::isalpha((unsigned char)c); }
template<typename C> bool isalnum(C c, const locale&) { return ::isalnum((unsigned char)c); }
template<typename C> bool isupper(C c, const locale&) { return ::isupper((unsigned char)c); }
template<typename C> bool islower(C c, const locale&) { return ::islower((unsigned char)c); }
template<typename C> C toupper(C c, const locale&) { return (C)::toupper((unsigned char)c); }
template<typename C> C tolower(C c, const locale&) { return (C)::tolower((unsigned char)c); }
} }
