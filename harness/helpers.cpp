// Harnesses over sdfg/helpers/helpers.h and the integer helpers of daisy_rtl.h
#include <algorithm>
#include <cctype>
#include <iostream>
#include <set>
#include <stdexcept>
#include <string>
#include "dsym.h"
#include "sdfg/helpers/helpers.h"
#include "daisy_rtl/daisy_rtl.h"
using namespace sdfg::helpers;
static std::string sym(const char* n, unsigned len, bool three) { std::string s; for (unsigned i = 0; i < len; i++) { if (three) { static const char al[] = "a,bx"; s += al[dsym_choice(n, 3)]; } else s += (char)dsym_u8(n); } return s; }
extern "C" void h_is_number() { unsigned n = dsym_choice("n", (unsigned)dsym_cfg("max", 5) + 1); std::string s = sym("c", n, false); bool r = is_number(s), w = n > 0; for (char c : s) w &= (unsigned char)c >= '0' && (unsigned char)c <= '9'; dsym_assert(r == w, "a number is a non-empty string of decimal digits"); dsym_reach("end"); }
// decimal digits -> value
extern "C" void h_parse() {
    unsigned n = 1 + dsym_choice("n", (unsigned)dsym_cfg("max", 6)); bool neg = dsym_choice("neg", 2); std::string s = neg ? "-" : ""; uint64_t v = 0; for (unsigned i = 0; i < n; i++) { uint64_t d = (uint64_t)dsym_range("d", 0, 9); s += (char)('0' + d); v = v * 10 + d; }
    dsym_assert(parse_number_signed(s) == (neg ? -(int64_t)v : (int64_t)v), "signed parse returns the decimal value"); if (!neg) dsym_assert(parse_number_unsigned(s) == v, "unsigned parse returns the decimal value"); dsym_reach("end");
}
extern "C" void h_parse_lit() {
    struct L { const char* s; int sg, un; long long sv; unsigned long long uv; }; // 1 value, 2 out_of_range, 3 invalid
    static const L t[] = {{"true", 1, 1, 1, 1}, {"false", 1, 1, 0, 0}, {"9223372036854775807", 1, 1, 9223372036854775807ll, 9223372036854775807ull}, {"-9223372036854775808", 1, 0, -9223372036854775807ll - 1, 0}, {"9223372036854775808", 2, 1, 0, 9223372036854775808ull}, {"-9223372036854775809", 2, 0, 0, 0}, {"18446744073709551615", 2, 1, 0, 18446744073709551615ull}, {"18446744073709551616", 2, 2, 0, 0}, {"", 3, 3, 0, 0}, {"x", 3, 3, 0, 0}, {"True", 3, 3, 0, 0}, {"9223372036854775806", 1, 1, 9223372036854775806ll, 9223372036854775806ull}, {"-9223372036854775807", 1, 0, -9223372036854775807ll, 0}, {"9007199254740993", 1, 1, 9007199254740993ll, 9007199254740993ull}, {"-9007199254740995", 1, 0, -9007199254740995ll, 0}, {"18446744073709551614", 2, 1, 0, 18446744073709551614ull}, {"2147483648", 1, 1, 2147483648ll, 2147483648ull}, {"-2147483649", 1, 0, -2147483649ll, 0}, {"4294967296", 1, 1, 4294967296ll, 4294967296ull}, {"16777217", 1, 1, 16777217, 16777217}, {"0010", 1, 1, 10, 10}, {"-0", 1, 0, 0, 0}, {"false ", 3, 3, 0, 0}, {"TRUE", 3, 3, 0, 0}, {"False", 3, 3, 0, 0}};
    const L& l = t[dsym_choice("lit", sizeof t / sizeof *t)]; int k = 1; long long v = 0; unsigned long long u = 0; try { v = parse_number_signed(l.s); } catch (const std::out_of_range&) { k = 2; } catch (const std::invalid_argument&) { k = 3; } dsym_assert(k == l.sg && v == l.sv, "signed parse of boundary literals"); if (l.un) { k = 1; try { u = parse_number_unsigned(l.s); } catch (const std::out_of_range&) { k = 2; } catch (const std::invalid_argument&) { k = 3; } dsym_assert(k == l.un && u == l.uv, "unsigned parse of boundary literals"); } dsym_reach("end");
}
extern "C" void h_endswith() { unsigned n = dsym_choice("n", 5), m = dsym_choice("m", 5); std::string a = sym("a", n, false), b = sym("b", m, false); bool w = m <= n; for (unsigned i = 0; w && i < m; i++) if (a[n - m + i] != b[i]) w = false; dsym_assert(endswith(a, b) == w, "suffix test"); dsym_reach("end"); }
static void check_split(const std::string& s, const std::string& d) {
    std::vector<std::string> r; unsigned pre = dsym_choice("pre", 2); if (pre) r.push_back("keep"); split(r, s, d); dsym_assert(r.size() > pre && (!pre || r[0] == "keep"), "pieces are appended"); std::string back; for (size_t i = pre; i < r.size(); i++) { if (i > pre) back += d; back += r[i]; dsym_assert(r[i].find(d) == std::string::npos, "no piece contains the delimiter"); } dsym_assert(back == s, "joining the pieces with the delimiter gives the input back");
}
extern "C" void h_split() { unsigned n = dsym_choice("n", (unsigned)dsym_cfg("max", 6) + 1), m = 1 + dsym_choice("m", 2); std::string s = sym("c", n, true), d = m == 1 ? "," : dsym_choice("dd", 2) ? ",," : ",a"; check_split(s, d); dsym_reach("end"); }
extern "C" void h_join() { unsigned n = dsym_choice("n", 4), m = dsym_choice("m", 3); std::vector<std::string> v; std::string want, d = sym("d", m, false); for (unsigned i = 0; i < n; i++) { v.push_back(sym("e", dsym_choice("l", 3), false)); if (i) want += d; want += v.back(); } auto c = v; std::string g = join(v, d); dsym_assert(g == want, "elements are joined in order with the delimiter between them"); dsym_assert(v == c, "joining does not change the elements"); dsym_reach("end"); }
extern "C" void h_sets() {
    std::unordered_set<int> a, b; unsigned ma = 0, mb = 0; for (int i = 0; i < 4; i++) { if (dsym_choice("a", 2)) { a.insert(i * 7 - 3); ma |= 1u << i; } if (dsym_choice("b", 2)) { b.insert(i * 7 - 3); mb |= 1u << i; } } dsym_assert(sets_intersect(a, b) == ((ma & mb) != 0), "two sets intersect exactly when they share an element"); dsym_reach("end");
}
// integer power for symbolic expressions
static const int lim[] = {0, 2147483647, 46340, 1290, 215, 73, 35, 21, 14, 10, 8, 7, 5, 5, 4, 4, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1};
extern "C" void h_pow() {
    static const int big[] = {32, 33, 63, 64, 100, 65536, 1073741824, 2147483646, 2147483647}; int k = (int)dsym_cfg("exp", 2), e = k < 32 ? k : big[k - 32], l = e == 0 ? 2147483647 : e < 32 ? lim[e] : 1; int b = k >= 36 ? (int)dsym_choice("b3", 3) - 1 : (int)dsym_range("base", e == 1 || e == 0 ? -2147483647ll - 1 : e == 31 ? -2 : -l, l); uint32_t want = 1; if (e < 32) for (int i = 0; i < e; i++) want *= (uint32_t)b; else want = b == 0 ? 0 : b == -1 && (e & 1) ? ~0u : 1;
    dsym_assert((uint32_t)__daisy_sym_pow(b, e) == want, "integer power is exact whenever the result is representable"); dsym_reach("end");
}
extern "C" void h_pow_neg() { int b = (int)dsym_u32("base"), e = (int)dsym_range("exp", -2147483647ll - 1, -1); dsym_assert(__daisy_sym_pow(b, e) == 0, "a negative exponent gives zero"); dsym_reach("end"); }
extern "C" void h_minmax() {
    int a = (int)dsym_u32("a"), b = (int)dsym_u32("b"); int x = a, y = b; dsym_assert(__daisy_min(a, b) == (a <= b ? a : b) && __daisy_max(a, b) == (a >= b ? a : b), "minimum and maximum"); long la = (long)dsym_u64("la"), lb = (long)dsym_u64("lb"); dsym_assert(__daisy_min(la, lb) == (la <= lb ? la : lb) && __daisy_max(la, lb) == (la >= lb ? la : lb), "minimum and maximum");
    unsigned u = dsym_u32("u"), w = dsym_u32("w"); dsym_assert(__daisy_min(u ^ 1u, w & 7u) == std::min(u ^ 1u, w & 7u) && __daisy_max(u ^ 1u, w & 7u) == std::max(u ^ 1u, w & 7u), "arguments may be expressions"); dsym_assert(2 * __daisy_max(x & 255, y & 255) == 2 * std::max(x & 255, y & 255), "results may be used in expressions"); unsigned fa = u & 0xffff, fb = w & 0xff, fc = (u >> 16); dsym_assert(__daisy_fma(fa, fb, fc) == fa * fb + fc, "multiply-add"); dsym_reach("end");
}
