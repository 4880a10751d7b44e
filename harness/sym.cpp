// Harnesses over docc's symbolic layer (sdfg/src/symbolic): values of expressions against an independent evaluation.
#include "symev.h"
#include "sdfg/symbolic/assumptions.h"
#include "sdfg/symbolic/conjunctive_normal_form.h"
#include "sdfg/symbolic/extreme_values.h"
#include "sdfg/symbolic/polynomials.h"
#include "sdfg/symbolic/series.h"
#include "sdfg/symbolic/utils.h"
#include "sdfg/types/type.h"
#include "sdfg/types/utils.h"
#include "sdfg/exceptions.h"
using namespace sdfg; using namespace symbolic; using symev::Env; using symev::Val; using symev::ev; using symev::ite;
static Env env; static const char* const NAMES[] = {"x", "y", "N", "M"};
static void setup_env(int n) { env.v.clear(); int64_t R = dsym_cfg("range", 6), L = dsym_cfg("low", -R); for (int i = 0; i < n; i++) env.v.emplace_back(NAMES[i], dsym_range(NAMES[i], L, R)); }
struct G { Expression e; int64_t v; };
static G leaf(unsigned mask) { // bits 0..2: symbols, 3..: constants
    static const int64_t K[] = {2, -3, 1, 0, -1, 5}; unsigned idx[16], n = 0; for (unsigned i = 0; i < 3 + sizeof K / sizeof *K; i++) if (mask >> i & 1) idx[n++] = i; unsigned i = idx[dsym_choice("leaf", n)];
    if (i < 3) return {symbol(NAMES[i]), *env.get(NAMES[i])}; return {integer(K[i - 3]), K[i - 3]};
}
enum { ADD, SUB, MUL, DIV, MOD, MIN, MAX, ABS, POW, ZEXT, TRUNC, NOPS };
static G apply(int op, const G& a, const G& b) {
    switch (op) {
    case ADD: return {symbolic::add(a.e, b.e), a.v + b.v}; case SUB: return {symbolic::sub(a.e, b.e), a.v - b.v}; case MUL: return {symbolic::mul(a.e, b.e), a.v * b.v};
    case DIV: dsym_assume(b.v != 0); return {symbolic::div(a.e, b.e), a.v / b.v}; case MOD: dsym_assume(b.v != 0); return {symbolic::mod(a.e, b.e), a.v % b.v};
    case MIN: return {symbolic::min(a.e, b.e), ite(a.v < b.v, a.v, b.v)}; case MAX: return {symbolic::max(a.e, b.e), ite(a.v > b.v, a.v, b.v)}; case ABS: return {symbolic::abs(a.e), ite(a.v < 0, -a.v, a.v)};
    case POW: { unsigned k = dsym_choice("exp", 4); int64_t v = 1; for (unsigned i = 0; i < k; i++) v *= a.v; return {symbolic::pow(a.e, integer(k)), v}; }
    case ZEXT: return {symbolic::zext_i64(a.e), (int64_t)(uint32_t)a.v}; default: return {symbolic::trunc_i32(a.e), (int64_t)(int32_t)(uint32_t)(uint64_t)a.v};
    }
}
static bool unary(int op) { return op == ABS || op == POW || op == ZEXT || op == TRUNC; }
static int pick_op(const char* nm, unsigned mask) { int idx[NOPS], n = 0; for (int i = 0; i < NOPS; i++) if (mask >> i & 1) idx[n++] = i; return idx[dsym_choice(nm, n)]; }
// two operators: (a o1 b) o2 c or c o2 (a o1 b); with shape 3 (a o1 b) o2 (c o1' d)
static G gen(unsigned ops, unsigned leaves, int depth, const char* nm) {
    if (depth == 0) return leaf(leaves); int op = pick_op(nm, ops); if (unary(op)) { G a = gen(ops, leaves, depth - 1, "op1"); return apply(op, a, a); }
    bool sw = depth > 1 && dsym_choice("swap", 2); G a = gen(ops, leaves, depth - 1, "op1"), b = leaf(leaves); return sw ? apply(op, b, a) : apply(op, a, b);
}
static unsigned OPS() { return (unsigned)dsym_cfg("ops", (1 << NOPS) - 1); } static unsigned LV() { return (unsigned)dsym_cfg("leaves", 0x1b); }
static G top() { int first = (int)dsym_cfg("op", -1), d = (int)dsym_cfg("depth", 2); if (first < 0) return gen(OPS(), LV(), d, "op"); if (unary(first)) { G a = gen(OPS(), LV(), d - 1, "op1"); return apply(first, a, a); } bool sw = d > 1 && dsym_choice("swap", 2); G a = gen(OPS(), LV(), d - 1, "op1"), b = leaf(LV()); return sw ? apply(first, b, a) : apply(first, a, b); }
static bool same(const Val& a, int64_t v) { return a.ok && !a.inf && a.den == 1 && a.v == v; }
// values of constructed, simplified and expanded expressions
extern "C" void h_value() { setup_env(2); G g = top(); dsym_assert(same(ev(g.e, env), g.v), "a constructed expression has the value of its operation"); dsym_reach("end"); }
extern "C" void h_simplify() { setup_env(2); G g = top(); dsym_assert(same(ev(symbolic::simplify(g.e), env), g.v), "simplify keeps the value"); dsym_assert(same(ev(symbolic::expand(g.e), env), g.v), "expand keeps the value"); dsym_reach("end"); }

// substitution: replacing a term by one of equal value keeps the value; replacing a symbol evaluates with the new value
extern "C" void h_subs() {
    setup_env(2); G g = top();
    if (dsym_cfg("how", 0) == 0) { // x := term
        G t = dsym_choice("new", 2) ? apply((int)dsym_cfg("nop", ADD), {symbol("y"), *env.get("y")}, leaf(0x19)) : leaf(0x1a); Expression r = symbolic::subs(g.e, symbol("x"), t.e);
        Env e2 = env; e2.set("x", t.v); Val want = ev(g.e, e2); if (want.ok && !want.inf) dsym_assert(same(ev(r, env), want.v) && want.den == 1, "substituting a symbol gives the value with the symbol bound to the new term");
    } else { // a subterm := fresh symbol of the same value
        G t = apply((int)dsym_cfg("nop", ADD), {symbol("x"), *env.get("x")}, leaf(0x1a)); env.set("z", t.v); Expression e = dsym_choice("shape", 2) ? symbolic::add(symbolic::mul(integer(3), t.e), g.e) : symbolic::max(g.e, t.e);
        Expression r = symbolic::subs(e, t.e, symbol("z")); Val want = ev(e, env); if (want.ok && !want.inf) dsym_assert(same(ev(r, env), want.v), "substituting a term by an equal one keeps the value");
    }
    dsym_reach("end");
}
// ---- assumptions used by the bound computations ----
static symbolic::Assumptions A; static bool holds;
static void within(const char* n, Expression lo, Expression hi) { // both bounds inclusive; tight and loose and old-style
    Symbol s = symbol(n); symbolic::Assumption a(s); if (!lo.is_null()) { a.add_lower_bound(lo); a.tight_lower_bound(lo); a.lower_bound_deprecated(lo); int64_t v = ev(lo, env).v; dsym_assume(v <= *env.get(n)); } if (!hi.is_null()) { a.add_upper_bound(hi); a.tight_upper_bound(hi); a.upper_bound_deprecated(hi); int64_t v = ev(hi, env).v; dsym_assume(*env.get(n) <= v); }
    A[s] = a;
}
static void more(const char* n, Expression lo, Expression hi) { auto& a = A[symbol(n)]; if (!lo.is_null()) { a.add_lower_bound(lo); dsym_assume(ev(lo, env).v <= *env.get(n)); } if (!hi.is_null()) { a.add_upper_bound(hi); dsym_assume(*env.get(n) <= ev(hi, env).v); } }
static Expression X() { return symbol("x"); } static Expression NN() { return symbol("N"); } static Expression I(int64_t k) { return integer(k); }
static SymbolSet scenario(int k) {
    A.clear(); SymbolSet P;
    switch (k) {
    case 0: within("x", I(-2), I(3)); within("y", I(1), I(4)); break;
    case 1: P.insert(symbol("N")); within("x", I(0), symbolic::sub(NN(), I(1))); within("y", I(0), X()); break;
    case 2: within("N", I(1), I(6)); within("x", I(0), symbolic::sub(NN(), I(1))); within("y", I(-1), I(3)); break;
    case 3: P.insert(symbol("N")); within("x", symbolic::mul(I(-1), NN()), NN()); within("y", I(-3), I(-1)); break;
    case 4: within("N", I(-3), I(3)); within("x", NN(), symbolic::add(NN(), I(2))); within("y", X(), symbolic::mul(I(2), I(5))); more("x", I(-1), I(4)); more("y", I(-2), NN()); break;
    case 5: within("x", I(0), SymEngine::null); within("y", SymEngine::null, I(2)); break;
    case 6: within("x", I(-5), symbolic::min(NN(), I(4))); P.insert(symbol("N")); within("y", symbolic::max(NN(), I(-4)), I(5)); break;
    case 7: within("x", I(0), I(6)); within("y", I(2), I(5)); break;
    }
    return P;
}
// minimum / maximum enclose every value the expression takes under the assumptions
extern "C" void h_bounds() {
    setup_env(3); SymbolSet P = scenario((int)dsym_cfg("sc", 0)); G g = top(); if (dsym_cfg("params", 1) == 0) P.clear();
    auto lower = [&](Expression b, const char* w) { if (b.is_null()) return; Val v = ev(b, env); if (!v.ok) return; dsym_reach("bounded"); bool c = v.inf < 0 || (!v.inf && v.v <= g.v * v.den); dsym_assert(c, w); };
    auto upper = [&](Expression b, const char* w) { if (b.is_null()) return; Val v = ev(b, env); if (!v.ok) return; bool c = v.inf > 0 || (!v.inf && v.v >= g.v * v.den); dsym_assert(c, w); };
    switch (dsym_cfg("fn", 0)) {
    case 0: lower(minimum(g.e, P, A), "minimum is not above the value"); upper(maximum(g.e, P, A), "maximum is not below the value"); break;
    case 1: lower(minimum_new(g.e, P, A, false), "minimum_new (loose) is not above the value"); upper(maximum_new(g.e, P, A, false), "maximum_new (loose) is not below the value"); break;
    case 2: lower(minimum_new(g.e, P, A, true), "minimum_new (tight) is not above the value"); upper(maximum_new(g.e, P, A, true), "maximum_new (tight) is not below the value"); break;
    }
    dsym_reach("end");
}
// the assumptions docc derives from a type contain every value of the type
extern "C" void h_type_assumption() {
    static const types::PrimitiveType T[] = {types::Bool, types::Int8, types::Int16, types::Int32, types::Int64, types::UInt8, types::UInt16, types::UInt32, types::UInt64};
    int k = (int)dsym_choice("type", 9); uint64_t r = dsym_u64("raw"); int64_t v; bool huge = false;
    switch (k) { case 0: v = r & 1; break; case 1: v = (int8_t)r; break; case 2: v = (int16_t)r; break; case 3: v = (int32_t)r; break; case 4: v = (int64_t)r; break; case 5: v = (uint8_t)r; break; case 6: v = (uint16_t)r; break; case 7: v = (uint32_t)r; break; default: v = (int64_t)r; huge = v < 0; }
    auto a = symbolic::Assumption::create(symbol("x"), types::Scalar(T[k])); env.v.clear();
    auto chk = [&](Expression lo, Expression hi) { if (!lo.is_null()) { Val l = ev(lo, env); dsym_assert(l.ok && (l.inf < 0 || (!l.inf && (huge || l.v <= v))), "lower bound of the type"); } if (!hi.is_null()) { Val h = ev(hi, env); dsym_assert(h.ok && (h.inf > 0 || (!h.inf && !huge && h.v >= v)), "upper bound of the type"); } };
    chk(a.lower_bound(), a.upper_bound()); chk(a.tight_lower_bound(), a.tight_upper_bound()); chk(a.lower_bound_deprecated(), a.upper_bound_deprecated()); for (auto& l : a.lower_bounds()) chk(l, SymEngine::null); for (auto& h : a.upper_bounds()) chk(SymEngine::null, h);
    dsym_assert(symbolic::eq(a.symbol(), symbol("x")), "symbol"); dsym_reach("end");
}
// ---- conditions ----
struct C { Condition e; int64_t v; };
static C atom(unsigned mask = 0x3f) {
    int idx[6], n = 0; for (int i = 0; i < 6; i++) if (mask >> i & 1) idx[n++] = i; int r = idx[dsym_choice("rel", n)]; unsigned k = dsym_choice("arg", 3); int64_t x = *env.get("x"), y = *env.get("y"); Expression a = symbol("x"), b = k == 0 ? Expression(symbol("y")) : k == 1 ? Expression(integer(2)) : symbolic::add(symbol("y"), integer(1)); int64_t u = x, w = k == 0 ? y : k == 1 ? 2 : y + 1;
    switch (r) { case 0: return {symbolic::Lt(a, b), ite(u < w, 1, 0)}; case 1: return {symbolic::Eq(a, b), ite(u == w, 1, 0)}; case 2: return {symbolic::Le(a, b), ite(u <= w, 1, 0)}; case 3: return {symbolic::Ne(a, b), ite(u != w, 1, 0)}; case 4: return {symbolic::Gt(a, b), ite(u > w, 1, 0)}; default: return {symbolic::Ge(a, b), ite(u >= w, 1, 0)}; }
}
static C cond(int depth, int op, unsigned mask) { // op: 0 and 1 or 2 not 3 == true/false, -1 any
    if (depth == 0) return atom(mask); if (op < 0) op = (int)dsym_choice("cop", 4); C a = cond(depth - 1, -1, mask);
    switch (op) {
    case 0: { C b = cond(dsym_cfg("bal", 0) ? depth - 1 : 0, -1, mask); return {symbolic::And(a.e, b.e), a.v & b.v}; } case 1: { C b = cond(dsym_cfg("bal", 0) ? depth - 1 : 0, -1, mask); return {symbolic::Or(a.e, b.e), a.v | b.v}; } case 2: return {symbolic::Not(a.e), 1 - a.v};
    default: { unsigned k = dsym_choice("lit", 4); Condition l = (k & 1) ? __true__() : __false__(); bool ne = k >> 1; int64_t v = ((k & 1) != 0) != ne ? a.v : 1 - a.v; return {ne ? symbolic::Ne(a.e, l) : symbolic::Eq(a.e, l), v}; }
    }
}
extern "C" void h_cond() { setup_env(2); C c = cond((int)dsym_cfg("depth", 2), (int)dsym_cfg("cop", -1), (unsigned)dsym_cfg("rels", 0x3f)); dsym_assert(same(ev(c.e, env), c.v), "a constructed condition has the value of its operation"); Expression s = symbolic::simplify(c.e); dsym_assert(same(ev(s, env), c.v), "simplify keeps the value of a condition"); dsym_reach("end"); }
extern "C" void h_cnf() {
    setup_env(2); C c = cond((int)dsym_cfg("depth", 2), (int)dsym_cfg("cop", -1), (unsigned)dsym_cfg("rels", 0x3f)); CNF r; try { r = conjunctive_normal_form(c.e); } catch (const CNFException&) { dsym_reach("refused"); return; }
    int64_t all = 1; for (auto& cl : r) { int64_t any = 0; for (auto& l : cl) { Val v = ev(l, env); dsym_assert(v.ok && !v.inf, "a literal has a value"); any |= v.v; dsym_assert(!SymEngine::is_a<SymEngine::And>(*l) && !SymEngine::is_a<SymEngine::Or>(*l) && !SymEngine::is_a<SymEngine::Not>(*l), "a literal is not a connective"); } all &= any; }
    dsym_assert(all == c.v, "the conjunctive normal form is equivalent to the condition"); dsym_reach("end");
}
// ---- polynomials ----
static G affine(bool withN) { // a*x + b*y + c with coefficients from a small set (possibly N)
    auto coef = [&](const char* n) -> G { static const int64_t K[] = {0, 1, -2, 3}; unsigned i = dsym_choice(n, withN ? 5 : 4); if (i < 4) return {integer(K[i]), K[i]}; return {symbol("N"), *env.get("N")}; };
    G a = coef("ca"), b = coef("cb"), c = coef("cc"); Expression e = symbolic::add(symbolic::add(symbolic::mul(a.e, symbol("x")), symbolic::mul(b.e, symbol("y"))), c.e); return {e, a.v * *env.get("x") + b.v * *env.get("y") + c.v};
}
extern "C" void h_affine() {
    setup_env(3); G g = dsym_cfg("gen", 0) ? top() : affine(true); unsigned o = dsym_choice("order", 3); SymbolVec sy; if (o == 0) sy = {symbol("x"), symbol("y")}; else if (o == 1) sy = {symbol("y"), symbol("x")}; else sy = {symbol("x")};
    auto p = polynomial(g.e, sy); if (p.is_null()) return; auto co = affine_coefficients(p, sy); if (co.empty()) return;
    int64_t sum = 0; bool ok = true; for (auto& [s, c] : co) { Val v = ev(c, env); if (!v.ok || v.inf || v.den != 1) ok = false; sum += s->get_name() == "__daisy_constant__" ? v.v : v.v * *env.get(s->get_name()); } dsym_assert(ok, "the coefficients have values"); dsym_assert(sum == g.v, "the affine coefficients reproduce the expression"); dsym_assert(co.size() == sy.size() + 1, "a coefficient for every symbol");
    for (auto& [s, c] : co) for (auto& a : symbolic::atoms(c)) for (auto& q : sy) dsym_assert(!symbolic::eq(a, q), "coefficients do not contain the polynomial's symbols"); dsym_reach("end");
}
extern "C" void h_inverse() {
    setup_env(3); G g = dsym_cfg("gen", 0) ? top() : affine(true); Expression inv = symbolic::inverse(g.e, symbol("x")); if (inv.is_null()) { dsym_reach("none"); return; }
    Env e2 = env; e2.set("x", g.v); Val v = ev(inv, e2); if (!v.ok || v.inf || v.den != 1) return; dsym_assert(v.v == *env.get("x"), "the inverse undoes the expression"); dsym_reach("end");
}
extern "C" void h_polydiv() {
    setup_env(3); G a = dsym_cfg("gen", 0) ? top() : affine(true), b; unsigned k = dsym_choice("stride", 6); Symbol x = symbol("x"), N = symbol("N"); int64_t xv = *env.get("x"), nv = *env.get("N");
    switch (k) { case 0: b = {integer(2), 2}; break; case 1: b = {integer(-3), -3}; break; case 2: b = {N, nv}; break; case 3: b = {symbolic::mul(integer(2), N), 2 * nv}; break; case 4: b = {symbolic::add(N, integer(1)), nv + 1}; break; default: b = {symbolic::mul(x, N), xv * nv}; }
    if (dsym_cfg("sq", 0)) { a.v = a.v * nv + xv * xv; a.e = symbolic::expand(symbolic::add(symbolic::mul(a.e, N), symbolic::mul(x, x))); }
    auto [q, r] = polynomial_div(a.e, b.e); Val qv = ev(q, env), rv = ev(r, env); dsym_assert(qv.ok && rv.ok && qv.den == 1 && rv.den == 1, "quotient and remainder have integer values"); dsym_assert(qv.v * b.v + rv.v == a.v, "dividend = divisor * quotient + remainder"); dsym_reach("end");
}
// ---- series: i, e(i), e(e(i)), ... ----
extern "C" void h_series() {
    setup_env(3); SymbolSet P = scenario((int)dsym_cfg("sc", 0)); (void)P; for (auto n : {"y", "N"}) if (A.count(symbol(n))) A[symbol(n)].constant(true); G g = dsym_cfg("gen", 0) ? top() : affine(true);
    Env e1 = env; e1.set("x", g.v); Val n2 = ev(g.e, e1); int64_t d0 = g.v - *env.get("x");
    if (series::is_contiguous(g.e, symbol("x"), A)) { dsym_assert(d0 == 1, "a contiguous series advances by one"); dsym_reach("contiguous"); }
    if (series::is_monotonic(g.e, symbol("x"), A) && n2.ok) { int64_t d1 = n2.v - g.v; dsym_assert(!((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)), "a monotonic series does not change direction"); dsym_reach("monotonic"); }
    dsym_reach("end");
}
// ---- delinearised subsets ----
extern "C" void h_delin() {
    // symbols i0,i1,i2 in [0, ub_k], parameters N,M >= 1; two points
    int shape = (int)dsym_cfg("shape", 0); int64_t R = dsym_cfg("range", 5); env.v.clear(); A.clear(); Env e2; const char* IX[] = {"i", "j", "k"}; int64_t N = dsym_range("N", 1, R), M = dsym_range("M", 1, R); env.set("N", N); env.set("M", M);
    Symbol n = symbol("N"), m = symbol("M"), i = symbol("i"), j = symbol("j"), k = symbol("k"); bool bounded = dsym_cfg("pb", 1); auto par = [&](Symbol s) { symbolic::Assumption a(s); a.add_lower_bound(integer(1)); a.lower_bound_deprecated(integer(1)); if (bounded) { a.add_upper_bound(integer(R)); a.upper_bound_deprecated(integer(R)); } else { a.add_upper_bound(SymEngine::Inf); a.upper_bound_deprecated(SymEngine::Inf); } a.constant(true); A[s] = a; }; par(n); par(m);
    e2 = env; for (auto q : IX) { std::string b = std::string(q) + "2"; env.set(q, dsym_range(q, 0, R)); e2.set(q, dsym_range(b.c_str(), 0, R)); }
    auto ix = [&](Symbol s, Expression ub) { symbolic::Assumption a(s); a.add_lower_bound(integer(0)); a.lower_bound_deprecated(integer(0)); a.add_upper_bound(ub); a.upper_bound_deprecated(ub); a.constant(true); a.map(symbolic::add(s, integer(1))); A[s] = a; dsym_assume(*env.get(s->get_name()) <= ev(ub, env).v); dsym_assume(*e2.get(s->get_name()) <= ev(ub, e2).v); };
    static const int OFF[] = {0, 1, 2, 3, -1}; Expression lin; int c = OFF[dsym_choice("offset", 5)]; auto one = [](Expression e) { return symbolic::sub(e, integer(1)); };
    unsigned u = dsym_choice("ub", 4); // what the fast index ranges over
    switch (shape) {
    case 0: ix(i, integer(3)); ix(j, u == 0 ? integer(2) : u == 1 ? integer(3) : u == 2 ? integer(4) : integer(1)); lin = symbolic::add(symbolic::mul(integer(3), i), j); break;                          // 3*i + j
    case 1: ix(i, one(m)); ix(j, u == 0 ? one(n) : u == 1 ? Expression(n) : u == 2 ? one(m) : Expression(integer(2))); lin = symbolic::add(symbolic::mul(n, i), j); break;                             // N*i + j
    case 2: ix(i, one(m)); ix(j, one(n)); ix(k, u == 0 ? one(m) : u == 1 ? Expression(integer(1)) : u == 2 ? one(n) : Expression(m)); lin = symbolic::add(symbolic::add(symbolic::mul(symbolic::mul(n, m), i), symbolic::mul(m, j)), k); break; // N*M*i + M*j + k
    case 5: ix(j, integer(3)); ix(i, u == 0 ? integer(2) : u == 1 ? integer(3) : u == 2 ? integer(4) : integer(1)); lin = symbolic::add(symbolic::mul(integer(3), j), i); break;
    case 3: ix(i, integer(2)); ix(j, integer(2)); lin = symbolic::add(symbolic::mul(u & 1 ? Expression(integer(2)) : symbolic::add(n, integer(1)), i), symbolic::mul(u & 2 ? integer(2) : integer(1), j)); break;
    default: ix(i, one(m)); ix(j, one(n)); lin = symbolic::add(symbolic::mul(symbolic::add(n, integer((int)u - 1)), i), j); break;
    }
    if (c == 3) lin = symbolic::add(lin, n); else lin = symbolic::add(lin, integer(c)); A[symbol("i")].constant(true); for (auto q : IX) if (!A.count(symbol(q))) { symbolic::Assumption a(symbol(q)); A[symbol(q)] = a; }
    MultiExpression d; try { d = delinearize({lin}, A); } catch (const SymEngine::SymEngineException&) { dsym_reach("refused"); return; } bool eqt = true; for (auto& x : d) { Val a = ev(x, env), b = ev(x, e2); dsym_assert(a.ok && b.ok, "delinearised dimensions have values"); eqt = eqt & (a.v == b.v); }
    int64_t l1 = ev(lin, env).v, l2 = ev(lin, e2).v; dsym_assert(eqt == (l1 == l2), "two points have the same delinearised subset exactly when they have the same linear one"); if (d.size() > 1) dsym_reach("split"); dsym_reach("end");
}
