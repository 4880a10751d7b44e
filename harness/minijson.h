// Strict JSON reader that also understands symbolically printed numbers (see stubs/__dsym_streams.h).
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <cstring>
#include <cmath>
#include <cstdlib>
#include "dsym.h"
#include "model.h"
struct JV {
    char t = '?'; std::vector<std::string> o; std::vector<JV> a; std::string s; uint64_t mag = 0; bool neg = false, isint = false; double d = 0;
    const JV* get(const char* k) const { for (size_t i = 0; i < o.size(); i++) if (o[i] == k) return &a[i]; return nullptr; }
    const JV& at(const char* k) const { const JV* p = get(k); dsym_assert(p != nullptr, "expected JSON member is present"); return *p; }
};
struct JP {
    const char* p; const char* e; bool ok = true;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    bool lit(const char* s) { size_t n = strlen(s); if ((size_t)(e - p) < n || memcmp(p, s, n)) return ok = false; p += n; return true; }
    bool str(std::string& out) {
        if (p >= e || *p != '"') return ok = false; p++;
        while (true) { if (p >= e) return ok = false; unsigned char c = (unsigned char)*p++; if (c == '"') return true; if (c < 32 && c != 1) return ok = false; if (c != '\\') { out += (char)c; continue; }
            if (p >= e) return ok = false; c = (unsigned char)*p++; switch (c) { case '"': case '\\': case '/': out += (char)c; break; case 'n': out += '\n'; break; case 't': out += '\t'; break; case 'r': out += '\r'; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break;
                case 'u': { unsigned v = 0; for (int i = 0; i < 4; i++) { if (p >= e) return ok = false; char h = *p++; int x = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (x < 0) return ok = false; v = v * 16 + x; } if (v > 127) return ok = false; out += (char)v; break; }
                default: return ok = false; } }
    }
    bool val(JV& v, int depth = 0) {
        if (depth > 40) return ok = false; ws(); if (p >= e) return ok = false; char c = *p;
        if (c == '{') { v.t = 'o'; p++; ws(); if (p < e && *p == '}') { p++; return true; } while (true) { ws(); std::string k; if (!str(k)) return false; ws(); if (p >= e || *p != ':') return ok = false; p++; if (v.get(k.c_str())) return ok = false; v.o.push_back(k); v.a.emplace_back(); if (!val(v.a.back(), depth + 1)) return false; ws(); if (p >= e) return ok = false; if (*p == ',') { p++; continue; } if (*p == '}') { p++; return true; } return ok = false; } }
        if (c == '[') { v.t = 'a'; p++; ws(); if (p < e && *p == ']') { p++; return true; } while (true) { v.a.emplace_back(); if (!val(v.a.back(), depth + 1)) return false; ws(); if (p >= e) return ok = false; if (*p == ',') { p++; continue; } if (*p == ']') { p++; return true; } return ok = false; } }
        if (c == '"') { v.t = 's'; return str(v.s); }
        if (c == 't') { v.t = 'b'; v.mag = 1; return lit("true"); } if (c == 'f') { v.t = 'b'; return lit("false"); } if (c == 'n') { v.t = 'z'; return lit("null"); }
        if (c == 1) { if (e - p < 6) return ok = false; char k = p[1]; unsigned id = 0; for (int i = 0; i < 4; i++) id |= (unsigned)(p[2 + i] - 'a') << (4 * i); p += 6; v.t = 'n'; uint64_t ng; v.mag = dsym_tab_get(id, &ng); v.neg = ng; v.isint = k == 'i'; if (!v.isint) memcpy(&v.d, &v.mag, 8); return true; }
        if (c == '-' || (c >= '0' && c <= '9')) { const char* b = p; v.t = 'n'; v.neg = c == '-'; if (c == '-') p++; if (p >= e || *p < '0' || *p > '9') return ok = false; if (*p == '0' && p + 1 < e && p[1] >= '0' && p[1] <= '9') return ok = false; while (p < e && *p >= '0' && *p <= '9') v.mag = v.mag * 10 + (*p++ - '0'); v.isint = true;
            if (p < e && *p == '.') { v.isint = false; p++; if (p >= e || *p < '0' || *p > '9') return ok = false; while (p < e && *p >= '0' && *p <= '9') p++; } if (p < e && (*p == 'e' || *p == 'E')) { v.isint = false; p++; if (p < e && (*p == '+' || *p == '-')) p++; if (p >= e || *p < '0' || *p > '9') return ok = false; while (p < e && *p >= '0' && *p <= '9') p++; }
            std::string t(b, p - b); v.d = strtod(t.c_str(), nullptr); return true; }
        return ok = false;
    }
};
static bool json_parse(const char* s, size_t n, JV& out) { JP p{s, s + n}; if (!p.val(out)) return false; p.ws(); return p.p == p.e; }
static bool jint_is(const JV& v, long long x) { if (v.t != 'n') return false; if (!v.isint) return !dsym_is_symbolic_f(v.d) && fabs(v.d - (double)x) <= 1e-5 * fabs((double)x) + 1e-9; uint64_t m = x < 0 ? 0ull - (uint64_t)x : (uint64_t)x; return (v.mag == m) & ((m == 0) | ((bool)v.neg == (x < 0))); }
// printed doubles carry six significant digits natively; symbolically the exact value is compared
static bool jreal_is(const JV& v, double x, double scale = 0) { if (v.t != 'n') return false; double d = v.isint ? (v.neg ? -(double)v.mag : (double)v.mag) : v.d; if (dsym_is_symbolic_f(d) || dsym_is_symbolic_f(x)) return d == x; return fabs(d - x) <= 2e-5 * (fabs(x) + scale) + 1e-9; }
static bool jstr_is(const JV& v, const char* s) { return v.t == 's' && v.s == s; }
