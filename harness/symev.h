// Evaluates docc's symbolic expressions over 64-bit integers with C semantics (the oracle of the symbolic harnesses).
#pragma once
#include "dsym.h"
#include "sdfg/symbolic/symbolic.h"
#include <symengine/functions.h>
#include <symengine/infinity.h>
#include <symengine/pow.h>
#include <symengine/rational.h>
#include <symengine/constants.h>
#include <string>
#include <vector>
namespace symev {
namespace SE = SymEngine; using sdfg::symbolic::Expression;
struct Env { // values by name; names without an entry are asked of look
    std::vector<std::pair<std::string, int64_t>> v; int64_t (*look)(void*, const std::string&, bool&) = nullptr; void* ctx = nullptr; mutable int64_t tmp = 0;
    void set(const std::string& n, int64_t x) { for (auto& p : v) if (p.first == n) { p.second = x; return; } v.emplace_back(n, x); }
    const int64_t* get(const std::string& n) const { for (auto& p : v) if (p.first == n) return &p.second; if (look) { bool ok = true; tmp = look(ctx, n, ok); if (ok) return &tmp; } return nullptr; }
};
struct Val { int64_t v = 0; int inf = 0; bool ok = true; int64_t den = 1; }; // inf: -1 / 0 / +1, ok=false: no integer value (division by zero, unknown function)
inline int64_t ite(bool c, int64_t a, int64_t b) { return (int64_t)dsym_ite64(c, (uint64_t)a, (uint64_t)b); }
inline bool cadd(int64_t a, int64_t b, int64_t& r) { return !__builtin_add_overflow(a, b, &r); }
Val ev(const SE::Basic& e, const Env& env);
inline Val bad() { Val r; r.ok = false; return r; }
inline Val num(int64_t v) { Val r; r.v = v; return r; }
inline Val ev(const Expression& e, const Env& env) { if (e.is_null()) return bad(); return ev(*e, env); }
// functions docc applies to symbols of unknown meaning: value chosen by the harness
typedef int64_t (*FunHook)(const std::string& name, const std::vector<int64_t>& args, bool& ok); inline FunHook fun_hook = nullptr;
inline Val ev(const SE::Basic& e, const Env& env) {
    switch (e.get_type_code()) {
    case SE::SYMENGINE_INTEGER: return num(static_cast<const SE::Integer&>(e).as_int());
    case SE::SYMENGINE_RATIONAL: { auto& q = static_cast<const SE::Rational&>(e); Val r; r.v = q.get_num()->as_int(); r.den = q.get_den()->as_int(); return r; }
    case SE::SYMENGINE_INFTY: { Val r; r.inf = static_cast<const SE::Infty&>(e).is_negative_infinity() ? -1 : 1; return r; }
    case SE::SYMENGINE_SYMBOL: { auto p = env.get(static_cast<const SE::Symbol&>(e).get_name()); return p ? num(*p) : bad(); }
    case SE::SYMENGINE_BOOLEAN_ATOM: return num(static_cast<const SE::BooleanAtom&>(e).get_val());
    case SE::SYMENGINE_ADD: { Val r = num(0); for (auto& a : e.get_args()) { Val x = ev(*a, env); if (!x.ok) return x; if (x.inf || r.inf) { if (x.inf && r.inf && x.inf != r.inf) return bad(); r.inf = x.inf ? x.inf : r.inf; continue; } if (r.den == 1 && x.den == 1) r.v += x.v; else { r.v = r.v * x.den + x.v * r.den; r.den *= x.den; } } if (r.den != 1 && r.v % r.den == 0) { r.v /= r.den; r.den = 1; } return r; }
    case SE::SYMENGINE_MUL: { Val r = num(1); for (auto& a : e.get_args()) { Val x = ev(*a, env); if (!x.ok) return x; if (x.inf || r.inf) { int s1 = r.inf ? r.inf : r.v > 0 ? 1 : r.v < 0 ? -1 : 0, s2 = x.inf ? x.inf : x.v > 0 ? 1 : x.v < 0 ? -1 : 0; if (!s1 || !s2) return bad(); r.inf = s1 * s2; r.v = 0; r.den = 1; continue; } r.v *= x.v; r.den *= x.den; } if (r.den != 1 && r.v % r.den == 0) { r.v /= r.den; r.den = 1; } return r; }
    case SE::SYMENGINE_POW: { auto a = e.get_args(); Val b = ev(*a[0], env), x = ev(*a[1], env); if (!b.ok || !x.ok || b.inf || x.inf || b.den != 1 || x.den != 1) return bad(); if (dsym_is_symbolic((uint64_t)x.v)) x.v = (int64_t)dsym_concretize((uint64_t)x.v); if (x.v < 0) { if (x.v < -4 || b.v == 0) return bad(); int64_t d = 1; for (int64_t i = 0; i < -x.v; i++) d *= b.v; Val r; r.v = ite(d < 0, -1, 1); r.den = ite(d < 0, -d, d); return r; } if (x.v > 32) return bad(); int64_t r = 1; for (int64_t i = 0; i < x.v; i++) r *= b.v; return num(r); }
    case SE::SYMENGINE_MAX: case SE::SYMENGINE_MIN: { bool mx = e.get_type_code() == SE::SYMENGINE_MAX; Val r; bool first = true; for (auto& a : e.get_args()) { Val x = ev(*a, env); if (!x.ok) return x; if (first) { r = x; first = false; continue; } if (x.inf || r.inf) { int d = x.inf - r.inf; if (mx ? d > 0 : d < 0) r = x; continue; } if (x.den != 1 || r.den != 1) { int64_t l = x.v * r.den, g = r.v * x.den; if (mx ? l > g : l < g) r = x; continue; } r.v = mx ? ite(x.v > r.v, x.v, r.v) : ite(x.v < r.v, x.v, r.v); } return r; }
    case SE::SYMENGINE_ABS: { Val x = ev(*e.get_args()[0], env); if (x.ok && x.v < 0) x.v = -x.v; return x; }
    case SE::SYMENGINE_CEILING: case SE::SYMENGINE_FLOOR: { Val x = ev(*e.get_args()[0], env); if (!x.ok || x.inf || x.den == 1) return x; int64_t q = x.v / x.den, m = x.v % x.den; if (m && e.get_type_code() == SE::SYMENGINE_CEILING && x.v > 0) q++; if (m && e.get_type_code() == SE::SYMENGINE_FLOOR && x.v < 0) q--; return num(q); }
    case SE::SYMENGINE_FUNCTIONSYMBOL: {
        auto& f = static_cast<const SE::FunctionSymbol&>(e); const std::string& n = f.get_name(); std::vector<int64_t> a; for (auto& x : e.get_args()) { if (n == "dynamic_sizeof" || n == "malloc_usable_size") break; Val y = ev(*x, env); if (!y.ok || y.inf || y.den != 1) return bad(); a.push_back(y.v); }
        if (n == "idiv") { if (a[1] == 0) return bad(); return num(a[0] / a[1]); } if (n == "imod") { if (a[1] == 0) return bad(); return num(a[0] % a[1]); } if (n == "iabs") return num(ite(a[0] < 0, -a[0], a[0]));
        if (n == "zext_i64") return num((int64_t)(uint32_t)a[0]); if (n == "trunc_i32") return num((int64_t)(int32_t)(uint32_t)(uint64_t)a[0]);
        if (fun_hook) { bool ok = true; int64_t r = fun_hook(n, a, ok); if (ok) return num(r); } return bad(); }
    case SE::SYMENGINE_EQUALITY: case SE::SYMENGINE_UNEQUALITY: case SE::SYMENGINE_LESSTHAN: case SE::SYMENGINE_STRICTLESSTHAN: {
        auto a = e.get_args(); Val l = ev(*a[0], env), r = ev(*a[1], env); if (!l.ok || !r.ok) return bad(); auto tc = e.get_type_code(); if (l.inf || r.inf) { int d = l.inf - r.inf; return num(tc == SE::SYMENGINE_EQUALITY ? d == 0 : tc == SE::SYMENGINE_UNEQUALITY ? d != 0 : tc == SE::SYMENGINE_LESSTHAN ? d <= 0 : d < 0); }
        int64_t x = l.v, y = r.v; if (l.den != 1 || r.den != 1) { x = l.v * r.den; y = r.v * l.den; } return num(tc == SE::SYMENGINE_EQUALITY ? x == y : tc == SE::SYMENGINE_UNEQUALITY ? x != y : tc == SE::SYMENGINE_LESSTHAN ? x <= y : x < y); }
    case SE::SYMENGINE_AND: { int64_t r = 1; for (auto& a : e.get_args()) { Val x = ev(*a, env); if (!x.ok) return x; r &= ite(x.v != 0, 1, 0); } return num(r); }
    case SE::SYMENGINE_OR: { int64_t r = 0; for (auto& a : e.get_args()) { Val x = ev(*a, env); if (!x.ok) return x; r |= ite(x.v != 0, 1, 0); } return num(r); }
    case SE::SYMENGINE_NOT: { Val x = ev(*e.get_args()[0], env); if (!x.ok) return x; return num(ite(x.v != 0, 0, 1)); }
    default: return bad();
    }
}
} // namespace symev
