// z3 back end: sliced queries, model reuse, query cache.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <memory>
#include <map>
#include <set>

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

typedef std::vector<uint64_t> Model;  // by var index (missing -> 0)
typedef std::shared_ptr<const Model> ModelP;

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Solver {
    Exprs& X;
    Z3_context ctx;
    Z3_solver inc = nullptr;
    bool realMode = false;
    std::vector<Z3_ast> bv, fp, bo, re;   // cached translations by expr id
    std::vector<Z3_ast> bv2, bo2; bool linked = false; // second set used by real-mode queries: bit-vectors of ranged variables are derived from their integers
    void setLinked(bool l) { if (l != linked) { bv.swap(bv2); bo.swap(bo2); linked = l; } }
    std::vector<Z3_ast> lit;              // assumption literal by expr id
    size_t asserted = 0;
    uint64_t nq = 0, nsat = 0, nunsat = 0, nunk = 0, cacheHits = 0, nfpq = 0;
    double tsolve = 0, tmax = 0;
    unsigned timeoutMs = 60000;
    Z3_sort fs32, fs64, boolS; Z3_ast rne;
    std::unordered_map<std::string, std::pair<Res, std::vector<std::pair<uint32_t, uint64_t>>>> cache;

    Solver(Exprs& x) : X(x) {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
        fs32 = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fs32));
        fs64 = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fs64));
        boolS = Z3_mk_bool_sort(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, boolS));
        rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne);
        reset();
    }
    void reset() {
        if (inc) Z3_solver_dec_ref(ctx, inc);
        inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, inc);
        setTimeout(inc);
        std::fill(lit.begin(), lit.end(), nullptr);
        asserted = 0;
    }
    void setTimeout(Z3_solver s) {
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast getc(std::vector<Z3_ast>& v, E e) { if (v.size() <= e->id) v.resize(X.all.size() + 64, nullptr); return v[e->id]; }
    Z3_ast setc(std::vector<Z3_ast>& v, E e, Z3_ast a) { if (v.size() <= e->id) v.resize(X.all.size() + 64, nullptr); return v[e->id] = keep(a); }
    Z3_ast bvc(u128 v, unsigned w) {
        char buf[64]; char* p = buf + 63; *p = 0; if (!v) *--p = '0';
        while (v) { *--p = '0' + (int)(v % 10); v /= 10; }
        return Z3_mk_numeral(ctx, p, Z3_mk_bv_sort(ctx, w));
    }
    Z3_sort fsort(unsigned w) { return w == 32 ? fs32 : fs64; }
    // make sure children are translated first (avoid deep recursion)
    template <class F> void deep(E e, F done) {
        std::vector<E> st{e};
        while (!st.empty()) {
            E x = st.back(); bool rdy = true;
            for (E k : {x->a, x->b, x->d}) if (k && !done(k)) { st.push_back(k); rdy = false; }
            if (!rdy) continue;
            st.pop_back();
            if (st.empty()) break;
            if (!done(x)) { if (x->w == 1) toBool(x); else toBV(x); }
        }
    }
    // ---- signed value ranges; operations on small values are translated at the width their range needs ----
    struct Rng { i128 lo, hi; unsigned char k = 0; };   // k: bits of the two's complement form (0: not computed)
    std::vector<Rng> rngs; std::vector<Z3_ast> nb; bool narrowing = true;
    static unsigned bitsOf(i128 lo, i128 hi) { unsigned k = 2; while (k < 127 && (lo < -((i128)1 << (k - 1)) || hi >= ((i128)1 << (k - 1)))) k++; return k; }
    Rng rng(E e) {
        if (rngs.size() <= e->id) rngs.resize(X.all.size() + 64);
        if (rngs[e->id].k) return rngs[e->id];
        std::vector<E> st{e};
        while (!st.empty()) {
            E x = st.back(); bool rdy = true;
            if (rngs[x->id].k) { st.pop_back(); continue; }
            if (x->w > 1 && x->w <= 128 && x->op != EXTRACT && x->op != CONCAT) for (E k : {x->a, x->b, x->d}) if (k && !rngs[k->id].k) { st.push_back(k); rdy = false; }
            if (E y = shlPat(x)) if (!rngs[y->id].k) { st.push_back(y); rdy = false; }
            if (x->op == EXTRACT && x->imm == 0 && x->a->w <= 128 && !rngs[x->a->id].k) { st.push_back(x->a); rdy = false; }
            if (!rdy) continue;
            rngs[x->id] = rng1(x); st.pop_back();
        }
        return rngs[e->id];
    }
    Rng rng1(E e) {
        unsigned w = e->w; Rng n;
        if (w == 1) { n.lo = 0; n.hi = 1; n.k = 2; return n; }
        bool wide = w > 64; // no natural range (it does not fit the arithmetic here): k = 127
        if (wide) { n.lo = n.hi = 0; n.k = 127; if (w > 128) return n; } else { n.lo = -((i128)1 << (w - 1)); n.hi = ((i128)1 << (w - 1)) - 1; n.k = w; }
        if (e->op != VAR && e->op != CONST) for (E k : {e->a, e->b, e->d}) if (k && (k->w > 128 || (k->w > 64 && rngs[k->id].k == 127))) { if (e->op == EXTRACT || e->op == CONCAT || rngs[k->id].k == 127 || k->w > 128) return n; }
        auto R = [&](E x) { return rngs[x->id]; };
        auto fit = [&](i128 lo, i128 hi) { if (!wide && (lo < n.lo || hi > n.hi)) return n; if (wide && bitsOf(lo, hi) > 120) return n; Rng r; r.lo = lo; r.hi = hi; r.k = (unsigned char)bitsOf(lo, hi); if (r.k > w) r.k = w; return r; };
        switch (e->op) {
            case CONCAT: if (E y = shlPat(e)) { i128 m = (i128)1 << e->b->w; return fit(R(y).lo * m, R(y).hi * m); } return n;
            case CONST: { i128 v = sextw(e->c, w); if (v > ((i128)1 << 100) || v < -((i128)1 << 100)) return n; return fit(v, v); }
            case VAR: { auto it = varRange.find(e->imm); return it == varRange.end() ? n : fit(it->second.first, it->second.second); }
            case ADD: return fit(R(e->a).lo + R(e->b).lo, R(e->a).hi + R(e->b).hi);
            case SUB: return fit(R(e->a).lo - R(e->b).hi, R(e->a).hi - R(e->b).lo);
            case MUL: { Rng a = R(e->a), b = R(e->b); if (a.k + b.k > 120) return n; i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; return fit(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); }
            case SDIV: { Rng a = R(e->a); i128 m = std::max(a.hi, -a.lo); if (m < 1) m = 1; Rng b = R(e->b); if (b.lo > 0) return fit(a.lo / b.lo < a.lo / b.hi ? a.lo / b.lo : a.lo / b.hi, a.hi / b.lo > a.hi / b.hi ? a.hi / b.lo : a.hi / b.hi); return fit(-m, m); }
            case SREM: { Rng a = R(e->a), b = R(e->b); i128 lo = std::min<i128>(0, a.lo), hi = std::max<i128>(0, a.hi); if (b.lo > 0 || b.hi < 0) { i128 m = std::max(b.hi, -b.lo) - 1; lo = std::max(lo, -m); hi = std::min(hi, m); } return fit(lo, hi); }
            case ITE: { Rng a = R(e->b), b = R(e->d); E y = e->d;
                if (e->a->op == SLT && e->a->a == y && Exprs::isC(e->a->b, 0) && e->b->op == SUB && Exprs::isC(e->b->a, 0) && e->b->b == y) return fit(0, std::max(b.hi, -b.lo));
                return fit(std::min(a.lo, b.lo), std::max(a.hi, b.hi)); }
            case SEXT: if (e->a->w == 1) return fit(-1, 0); return fit(R(e->a).lo, R(e->a).hi);
            case ZEXT: if (R(e->a).lo >= 0) return fit(R(e->a).lo, R(e->a).hi); if (e->a->w > 64) return n; return fit(0, (i128)maskw(e->a->w));
            case EXTRACT: if (e->imm == 0 && e->a->w <= 128 && R(e->a).k <= w) { Rng r = R(e->a); return fit(r.lo, r.hi); } return n;
            case AND: { Rng a = R(e->a), b = R(e->b); if (a.lo >= 0 && b.lo >= 0) return fit(0, std::min(a.hi, b.hi)); if (a.lo >= 0) return fit(0, a.hi); if (b.lo >= 0) return fit(0, b.hi); } // fallthrough
            case OR: case XOR: { unsigned k = std::max(R(e->a).k, R(e->b).k); bool nn = R(e->a).lo >= 0 && R(e->b).lo >= 0; return fit(nn ? 0 : -((i128)1 << (k - 1)), ((i128)1 << (k - 1)) - 1); }
            case SHL: if (Exprs::isC(e->b) && e->b->c < 62) { i128 m = (i128)1 << (unsigned)e->b->c; return fit(R(e->a).lo * m, R(e->a).hi * m); } return n;
            case ASHR: if (Exprs::isC(e->b) && e->b->c < w) return fit(R(e->a).lo >> (unsigned)e->b->c, R(e->a).hi >> (unsigned)e->b->c); return n;
            case LSHR: if (Exprs::isC(e->b) && e->b->c < w && R(e->a).lo >= 0) return fit(R(e->a).lo >> (unsigned)e->b->c, R(e->a).hi >> (unsigned)e->b->c); return n;
            default: return n;
        }
    }
    // shl written as concat(extract[0..w-k) y, 0:k)
    static E shlPat(E e) { return e->op == CONCAT && Exprs::isC(e->b, 0) && e->a->op == EXTRACT && e->a->imm == 0 && e->a->a->w == e->w && e->w <= 64 && e->b->w < 62 ? e->a->a : nullptr; }
    // truth value of a condition that follows from the ranges alone: 0, 1 or -1
    int decide(E e) {
        if (e->w != 1) return -1;
        switch (e->op) {
            case CONST: return (int)e->c;
            case XOR: if (Exprs::isC(e->b, 1)) { int r = decide(e->a); return r < 0 ? r : 1 - r; } return -1;
            case AND: { int x = decide(e->a), y = decide(e->b); return x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1; }
            case OR: { int x = decide(e->a), y = decide(e->b); return x == 1 || y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1; }
            case EQ: case SLT: case SLE: case ULT: case ULE: { if (e->a->w < 2 || e->a->w > 128) return -1; Rng a = rng(e->a), b = rng(e->b); if (a.k == 127 || b.k == 127) return -1;
                if (e->op == EQ) return a.hi < b.lo || b.hi < a.lo ? 0 : a.lo == a.hi && b.lo == b.hi && a.lo == b.lo ? 1 : -1;
                if ((e->op == ULT || e->op == ULE) && (a.lo < 0 || b.lo < 0)) return -1;
                if (e->op == SLT || e->op == ULT) return a.hi < b.lo ? 1 : a.lo >= b.hi ? 0 : -1; return a.hi <= b.lo ? 1 : a.lo > b.hi ? 0 : -1; }
            default: return -1;
        }
    }
    bool narrow(E e) { return narrowing && !linked && e->w > 1 && e->w <= 128 && (e->op == VAR || e->op == CONST || e->a) && rng(e).k < e->w && rng(e).k < 127; }
    // the low k bits of e, where its value is read as signed
    Z3_ast atW(E e, unsigned k) {
        if (narrow(e)) { unsigned n = rng(e).k; Z3_ast z = toN(e); return n == k ? z : n < k ? Z3_mk_sign_ext(ctx, k - n, z) : Z3_mk_extract(ctx, k - 1, 0, z); }
        if (e->w == 1) { fprintf(stderr, "atW w1\n"); abort(); }
        Z3_ast z = toBV(e); return e->w == k ? z : e->w < k ? Z3_mk_sign_ext(ctx, k - e->w, z) : Z3_mk_extract(ctx, k - 1, 0, z);
    }
    Z3_ast toN(E e) { // precondition: narrow(e), operands translated
        if (nb.size() > e->id && nb[e->id]) return nb[e->id];
        if (!has(e)) { toBV(e); if (nb.size() > e->id && nb[e->id]) return nb[e->id]; }
        return setc(nb, e, toNraw(e));
    }
    Z3_ast toNraw(E e) {
        unsigned k = rng(e).k;
        switch (e->op) {
            case CONST: return bvc(e->c & maskw(k), k);
            case VAR: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (X.vars[e->imm].name + "!n").c_str()), Z3_mk_bv_sort(ctx, k));
            case ADD: return Z3_mk_bvadd(ctx, atW(e->a, k), atW(e->b, k));
            case SUB: return Z3_mk_bvsub(ctx, atW(e->a, k), atW(e->b, k));
            case MUL: return Z3_mk_bvmul(ctx, atW(e->a, k), atW(e->b, k));
            case SDIV: case SREM: { unsigned m = std::max({k, (unsigned)rng(e->a).k, (unsigned)rng(e->b).k}); Z3_ast a = atW(e->a, m), b = atW(e->b, m), z = e->op == SDIV ? Z3_mk_bvsdiv(ctx, a, b) : Z3_mk_bvsrem(ctx, a, b); return m == k ? z : Z3_mk_extract(ctx, k - 1, 0, z); }
            case ITE: return Z3_mk_ite(ctx, toBool(e->a), atW(e->b, k), atW(e->d, k));
            case SEXT: if (e->a->w == 1) return Z3_mk_ite(ctx, toBool(e->a), bvc(maskw(k), k), bvc(0, k)); return atW(e->a, k);
            case ZEXT: if (e->a->w == 1) return Z3_mk_ite(ctx, toBool(e->a), bvc(1, k), bvc(0, k)); if (rng(e->a).lo >= 0) return atW(e->a, k); { Z3_ast z = toBV(e->a); return e->a->w == k ? z : e->a->w < k ? Z3_mk_zero_ext(ctx, k - e->a->w, z) : Z3_mk_extract(ctx, k - 1, 0, z); }
            case EXTRACT: return atW(e->a, k);
            case AND: case OR: case XOR: { unsigned m = std::max({k, e->op == AND ? std::min((unsigned)rng(e->a).k, (unsigned)rng(e->b).k) : k}); Z3_ast a = atW(e->a, m), b = atW(e->b, m), z = e->op == AND ? Z3_mk_bvand(ctx, a, b) : e->op == OR ? Z3_mk_bvor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b); return m == k ? z : Z3_mk_extract(ctx, k - 1, 0, z); }
            case CONCAT: { E y = shlPat(e); unsigned b = e->b->w; if (b >= k) return bvc(0, k); return Z3_mk_concat(ctx, atW(y, k - b), bvc(0, b)); }
            case SHL: if (e->b->c >= k) return bvc(0, k); return Z3_mk_bvshl(ctx, atW(e->a, k), bvc(e->b->c, k));
            case ASHR: case LSHR: { unsigned m = std::max(k, (unsigned)rng(e->a).k); Z3_ast z = Z3_mk_bvashr(ctx, atW(e->a, m), bvc(std::min<u128>(e->b->c, m - 1), m)); return m == k ? z : Z3_mk_extract(ctx, k - 1, 0, z); }
            default: fprintf(stderr, "toN op %d\n", e->op); abort();
        }
    }
    // comparison of two terms at the smallest common width
    bool cmpN(E a, E b, unsigned& k) { if (!narrowing || linked || a->w <= 2 || a->w > 128) return false; k = std::max(rng(a).k, rng(b).k); return k < a->w && k < 127; }
    bool has(E e) { return e->w == 1 ? (bo.size() > e->id && bo[e->id]) : (bv.size() > e->id && bv[e->id]); }
    Z3_ast toBool(E e) {
        if (Z3_ast r = getc(bo, e)) return r;
        deep(e, [&](E k) { return has(k); });
        Z3_ast r; unsigned kw = 0;
        switch (e->op) {
            case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
            case VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, X.vars[e->imm].name.c_str()), boolS); break;
            case EQ: if (cmpN(e->a, e->b, kw)) { r = Z3_mk_eq(ctx, atW(e->a, kw), atW(e->b, kw)); break; } r = e->a->w == 1 ? Z3_mk_eq(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
            case ULT: r = cmpN(e->a, e->b, kw) ? Z3_mk_bvult(ctx, atW(e->a, kw), atW(e->b, kw)) : Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
            case ULE: r = cmpN(e->a, e->b, kw) ? Z3_mk_bvule(ctx, atW(e->a, kw), atW(e->b, kw)) : Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
            case SLT: r = cmpN(e->a, e->b, kw) ? Z3_mk_bvslt(ctx, atW(e->a, kw), atW(e->b, kw)) : Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
            case SLE: r = cmpN(e->a, e->b, kw) ? Z3_mk_bvsle(ctx, atW(e->a, kw), atW(e->b, kw)) : Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
            case FEQ: r = realMode ? Z3_mk_eq(ctx, toReal(e->a), toReal(e->b)) : Z3_mk_fpa_eq(ctx, toFP(e->a), toFP(e->b)); break;
            case FLT: r = realMode ? Z3_mk_lt(ctx, toReal(e->a), toReal(e->b)) : Z3_mk_fpa_lt(ctx, toFP(e->a), toFP(e->b)); break;
            case FLE: r = realMode ? Z3_mk_le(ctx, toReal(e->a), toReal(e->b)) : Z3_mk_fpa_leq(ctx, toFP(e->a), toFP(e->b)); break;
            case AND: { Z3_ast k[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, k); break; }
            case OR: { Z3_ast k[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, k); break; }
            case XOR: if (Exprs::isC(e->b, 1)) r = Z3_mk_not(ctx, toBool(e->a)); else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
            case ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->d)); break;
            case EXTRACT: r = Z3_mk_eq(ctx, Z3_mk_extract(ctx, e->imm, e->imm, toBV(e->a)), bvc(1, 1)); break;
            default: { // arithmetic on width 1: go through bv
                r = Z3_mk_eq(ctx, toBVraw(e), bvc(1, 1)); break; }
        }
        return setc(bo, e, r);
    }
    Z3_ast toBV(E e) {
        if (Z3_ast r = getc(bv, e)) return r;
        if (e->w == 1) {
            Z3_ast r = Z3_mk_ite(ctx, toBool(e), bvc(1, 1), bvc(0, 1));
            return setc(bv, e, r);
        }
        deep(e, [&](E k) { return has(k); });
        if (narrow(e)) { Z3_ast z = (nb.size() > e->id && nb[e->id]) ? nb[e->id] : setc(nb, e, toNraw(e)); return setc(bv, e, Z3_mk_sign_ext(ctx, e->w - rng(e).k, z)); }
        return setc(bv, e, toBVraw(e));
    }
    Z3_ast toBVraw(E e) {
        switch (e->op) {
            case CONST: return bvc(e->c, e->w);
            case VAR: if (linked && varRange.count(e->imm)) return Z3_mk_int2bv(ctx, e->w, toIntS(e));
                return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, X.vars[e->imm].name.c_str()), Z3_mk_bv_sort(ctx, e->w));
            case ADD: return Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b));
            case SUB: return Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b));
            case MUL: return Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b));
            case UDIV: return Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b));
            case SDIV: return Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b));
            case UREM: return Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b));
            case SREM: return Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b));
            case AND: return Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b));
            case OR: return Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b));
            case XOR: return Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b));
            case SHL: return Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b));
            case LSHR: return Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b));
            case ASHR: return Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b));
            case ITE: return Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->d));
            case CONCAT: return Z3_mk_concat(ctx, toBV(e->a), toBV(e->b));
            case EXTRACT: return Z3_mk_extract(ctx, e->imm + e->w - 1, e->imm, toBV(e->a));
            case ZEXT: return Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a));
            case SEXT: return Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a));
            case FPTOSI: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toFP(e->a), e->w);
            case FPTOUI: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toFP(e->a), e->w);
            case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FSQRT: case FMA: case FEXT: case FTRUNC: case SITOFP: case UITOFP: case FRINT:
                if (realMode) { // opaque bit pattern
                    char b[64]; snprintf(b, 64, "realbits!%u", e->id);
                    return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bv_sort(ctx, e->w)); }
                return Z3_mk_fpa_to_ieee_bv(ctx, toFP(e));
            default: fprintf(stderr, "toBV op %d\n", e->op); abort();
        }
    }
    Z3_ast toFP(E e) {
        if (Z3_ast r = getc(fp, e)) return r;
        Z3_ast r;
        Z3_sort s = fsort(e->w);
        switch (e->op) {
            case FADD: r = Z3_mk_fpa_add(ctx, rne, toFP(e->a), toFP(e->b)); break;
            case FSUB: r = Z3_mk_fpa_sub(ctx, rne, toFP(e->a), toFP(e->b)); break;
            case FMUL: r = Z3_mk_fpa_mul(ctx, rne, toFP(e->a), toFP(e->b)); break;
            case FDIV: r = Z3_mk_fpa_div(ctx, rne, toFP(e->a), toFP(e->b)); break;
            case FREM: r = Z3_mk_fpa_rem(ctx, toFP(e->a), toFP(e->b)); break;
            case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, toFP(e->a)); break;
            case FMA: r = Z3_mk_fpa_fma(ctx, rne, toFP(e->a), toFP(e->b), toFP(e->d)); break;
            case FEXT: case FTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne, toFP(e->a), s); break;
            case SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, toBV(e->a), s); break;
            case UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, toBV(e->a), s); break;
            case FRINT: { Z3_ast m = e->imm == 1 ? Z3_mk_fpa_rtn(ctx) : e->imm == 2 ? Z3_mk_fpa_rtp(ctx) : e->imm == 3 ? Z3_mk_fpa_rtz(ctx) : e->imm == 4 ? Z3_mk_fpa_rna(ctx) : rne;
                r = Z3_mk_fpa_round_to_integral(ctx, m, toFP(e->a)); break; }
            case ITE: r = Z3_mk_ite(ctx, toBool(e->a), toFP(e->b), toFP(e->d)); break;
            default: r = Z3_mk_fpa_to_fp_bv(ctx, toBV(e), s); break;
        }
        return setc(fp, e, r);
    }
    // exact real interpretation (realMode): rounding ignored
    Z3_ast toInt(E e) { // signed integer reading of a bit-vector expr, structurally when it is small enough not to wrap
        long long lo, hi;
        if (intRange(e, lo, hi)) return toIntS(e);
        return Z3_mk_bv2int(ctx, toBV(e), true);
    }
    std::unordered_map<uint32_t, std::pair<long long, long long>> varRange; // var -> assumed signed range (from sym_range)
    bool intRange(E e, long long& lo, long long& hi) {
        const long long LIM = 1ll << 60;
        switch (e->op) {
            case CONST: { i128 v = sextw(e->c, e->w); if (v > LIM || v < -LIM) return false; lo = hi = (long long)v; return true; }
            case VAR: { auto it = varRange.find(e->imm); if (it == varRange.end()) return false; lo = it->second.first; hi = it->second.second; return true; }
            case ADD: case SUB: case MUL: {
                long long a, b, c, d; if (!intRange(e->a, a, b) || !intRange(e->b, c, d)) return false;
                i128 L, H;
                if (e->op == ADD) { L = (i128)a + c; H = (i128)b + d; }
                else if (e->op == SUB) { L = (i128)a - d; H = (i128)b - c; }
                else { i128 p[4] = {(i128)a * c, (i128)a * d, (i128)b * c, (i128)b * d}; L = *std::min_element(p, p + 4); H = *std::max_element(p, p + 4); }
                i128 m = ((i128)1 << (std::min<unsigned>(e->w, 61) - 1));
                if (L < -m || H >= m) return false;
                lo = (long long)L; hi = (long long)H; return true; }
            case SEXT: return intRange(e->a, lo, hi);
            case ZEXT: if (!intRange(e->a, lo, hi)) return false; return lo >= 0;
            case ITE: { long long a, b, c, d; E y = e->d;
                if (e->a->op == SLT && e->a->a == y && Exprs::isC(e->a->b, 0) && e->b->op == SUB && Exprs::isC(e->b->a, 0) && e->b->b == y && intRange(y, c, d)) { lo = 0; hi = std::max(d, -c); return true; } // |y|
                if (!intRange(e->b, a, b) || !intRange(e->d, c, d)) return false; lo = std::min(a, c); hi = std::max(b, d); return true; }
            default: return false;
        }
    }
    Z3_ast toIntS(E e) {
        Z3_sort I = Z3_mk_int_sort(ctx);
        switch (e->op) {
            case CONST: return Z3_mk_int64(ctx, (long long)sextw(e->c, e->w), I);
            case VAR: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (X.vars[e->imm].name + "!int").c_str()), I);
            case ADD: { Z3_ast k[2] = {toIntS(e->a), toIntS(e->b)}; return Z3_mk_add(ctx, 2, k); }
            case SUB: { Z3_ast k[2] = {toIntS(e->a), toIntS(e->b)}; return Z3_mk_sub(ctx, 2, k); }
            case MUL: { Z3_ast k[2] = {toIntS(e->a), toIntS(e->b)}; return Z3_mk_mul(ctx, 2, k); }
            case SEXT: case ZEXT: return toIntS(e->a);
            case ITE: return Z3_mk_ite(ctx, toBoolR(e->a), toIntS(e->b), toIntS(e->d));
            default: abort();
        }
    }
    // boolean translation preferring integer reading of comparisons
    Z3_ast toBoolR(E e) {
        switch (e->op) {
            case EQ: case SLT: case SLE: case ULT: case ULE: if (e->a->w > 1) {
                long long a, b, c, d;
                if (intRange(e->a, a, b) && intRange(e->b, c, d) && (e->op == EQ || e->op == SLT || e->op == SLE || (a >= 0 && c >= 0))) {
                    Z3_ast x = toIntS(e->a), y = toIntS(e->b);
                    return e->op == EQ ? Z3_mk_eq(ctx, x, y) : (e->op == SLT || e->op == ULT) ? Z3_mk_lt(ctx, x, y) : Z3_mk_le(ctx, x, y);
                } } break;
            case AND: { Z3_ast k[2] = {toBoolR(e->a), toBoolR(e->b)}; return Z3_mk_and(ctx, 2, k); }
            case OR: { Z3_ast k[2] = {toBoolR(e->a), toBoolR(e->b)}; return Z3_mk_or(ctx, 2, k); }
            case XOR: if (e->w == 1) return Z3_mk_xor(ctx, toBoolR(e->a), toBoolR(e->b)); break;
            case ITE: if (e->w == 1) return Z3_mk_ite(ctx, toBoolR(e->a), toBoolR(e->b), toBoolR(e->d)); break;
            case FEQ: return Z3_mk_eq(ctx, toReal(e->a), toReal(e->b));
            case FLT: return Z3_mk_lt(ctx, toReal(e->a), toReal(e->b));
            case FLE: return Z3_mk_le(ctx, toReal(e->a), toReal(e->b));
            default: break;
        }
        return toBool(e);
    }
    Z3_ast toReal(E e) {
        if (Z3_ast r = getc(re, e)) return r;
        Z3_ast r; Z3_sort R = Z3_mk_real_sort(ctx);
        Z3_ast k[2];
        switch (e->op) {
            case CONST: { double d = Exprs::asD(e->c, e->w);
                if (!std::isfinite(d)) { fprintf(stderr, "dsym: non-finite constant in real mode\n"); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, "nonfinite!"), R); break; }
                int ex; double m = frexp(d, &ex); long long mi = (long long)ldexp(m, 53); ex -= 53;
                while (mi && !(mi & 1)) { mi >>= 1; ex++; }
                std::string s = std::to_string(mi);
                Z3_ast n = Z3_mk_numeral(ctx, s.c_str(), R);
                if (mi && ex) { Z3_ast p = Z3_mk_power(ctx, Z3_mk_int(ctx, 2, R), Z3_mk_int(ctx, abs(ex), R)); p = Z3_simplify(ctx, p); k[0] = n; k[1] = p; n = ex > 0 ? Z3_mk_mul(ctx, 2, k) : Z3_mk_div(ctx, n, p); n = Z3_simplify(ctx, n); }
                r = n; break; }
            case VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (X.vars[e->imm].name + "!real").c_str()), R); break;
            case FADD: k[0] = toReal(e->a); k[1] = toReal(e->b); r = Z3_mk_add(ctx, 2, k); break;
            case FSUB: k[0] = toReal(e->a); k[1] = toReal(e->b); r = Z3_mk_sub(ctx, 2, k); break;
            case FMUL: k[0] = toReal(e->a); k[1] = toReal(e->b); r = Z3_mk_mul(ctx, 2, k); break;
            case FDIV: r = Z3_mk_div(ctx, toReal(e->a), toReal(e->b)); break;
            case FMA: k[0] = toReal(e->a); k[1] = toReal(e->b); k[0] = Z3_mk_mul(ctx, 2, k); k[1] = toReal(e->d); r = Z3_mk_add(ctx, 2, k); break;
            case FEXT: case FTRUNC: r = toReal(e->a); break;
            case SITOFP: r = Z3_mk_int2real(ctx, toInt(e->a)); break;
            case UITOFP: { long long lo, hi; if (intRange(e->a, lo, hi) && lo >= 0) r = Z3_mk_int2real(ctx, toIntS(e->a)); else r = Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, toBV(e->a), false)); break; }
            case ITE: r = Z3_mk_ite(ctx, toBoolR(e->a), toReal(e->b), toReal(e->d)); break;
            case XOR: { // sign flip
                if (Exprs::isC(e->b) && e->b->c == ((u128)1 << (e->w - 1))) { r = Z3_mk_unary_minus(ctx, toReal(e->a)); break; }
            } // fallthrough
            case AND: if (e->op == AND && Exprs::isC(e->b) && e->b->c == maskw(e->w - 1)) { Z3_ast x = toReal(e->a); r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, Z3_mk_int(ctx, 0, R)), Z3_mk_unary_minus(ctx, x), x); break; }
            // fallthrough
            case ZEXT: if (e->op == ZEXT && e->a->op == EXTRACT && e->a->imm == 0 && e->a->w == e->w - 1 && e->a->a->w == e->w) { Z3_ast x = toReal(e->a->a); r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, Z3_mk_int(ctx, 0, R)), Z3_mk_unary_minus(ctx, x), x); break; }
            // fallthrough
            default: { char b[64]; snprintf(b, 64, "opaquereal!%u", e->id); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), R); }
        }
        return setc(re, e, r);
    }
    // ---- evaluation of an expression under a model ----
    std::vector<uint32_t> epoch; std::vector<u128> eval_; uint32_t curEpoch = 0; const Model* curModel = nullptr; uint64_t curModelStamp = 0;
    u128 evalUnder(E e, const Model& m) {
        if (curModel != &m) { curModel = &m; curEpoch++; }
        if (epoch.size() < X.all.size()) { epoch.resize(X.all.size() + 1024, 0); eval_.resize(X.all.size() + 1024, 0); }
        return evr(e, m);
    }
    u128 evr(E root, const Model& m) {
        std::vector<E>& st = evst; size_t base = st.size(); st.push_back(root);
        while (st.size() > base) {
            E x = st.back();
            if (epoch[x->id] == curEpoch) { st.pop_back(); continue; }
            u128 v;
            if (x->op == CONST) v = x->c;
            else if (x->op == VAR) v = x->imm < m.size() ? m[x->imm] : 0;
            else if (x->op == ITE) {
                if (epoch[x->a->id] != curEpoch) { st.push_back(x->a); continue; }
                E k = eval_[x->a->id] ? x->b : x->d;
                if (epoch[k->id] != curEpoch) { st.push_back(k); continue; }
                v = eval_[k->id];
            } else {
                bool rdy = true;
                for (E k : {x->a, x->b, x->d}) if (k && epoch[k->id] != curEpoch) { st.push_back(k); rdy = false; }
                if (!rdy) continue;
                v = Exprs::ev(x->op, x->w, x->imm, x->a->w, eval_[x->a->id], x->b ? eval_[x->b->id] : 0, x->d ? eval_[x->d->id] : 0, x->b ? x->b->w : 0);
            }
            epoch[x->id] = curEpoch; eval_[x->id] = v; st.pop_back();
        }
        return eval_[root->id];
    }
    std::vector<E> evst;
    // ---- satisfiability of a set of constraints (conjunction); on SAT fills assignment of the involved vars ----
    Res check(const std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>* out) {
        std::vector<uint32_t> ids; bool anyFP = false; bool hard = false;
        for (E e : cs) { if (Exprs::isC(e)) { if (!e->c) return UNSAT; continue; } if (decide(e) == 0) return UNSAT; ids.push_back(e->id); if (e->flags & XF_FP) anyFP = true; }
        std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
        std::string key((const char*)ids.data(), ids.size() * 4);
        auto it = cache.find(key);
        if (it != cache.end()) { cacheHits++; if (out) *out = it->second.second; return it->second.first; }
        double t0 = nowS();
        Z3_lbool r; Z3_solver s = inc;
        bool own = false;
        setLinked(anyFP && realMode);
        if (anyFP) {
            nfpq++;
            s = Z3_mk_simple_solver(ctx); own = true;
            if (!realMode) { Z3_tactic t = Z3_mk_tactic(ctx, "qffpbv"); s = Z3_mk_solver_from_tactic(ctx, t); }
            else s = Z3_mk_solver(ctx);
            Z3_solver_inc_ref(ctx, s); setTimeout(s);
            std::set<uint32_t> vs;
            for (uint32_t id : ids) {
                E e = X.all[id];
                if (realMode) { Z3_solver_assert(ctx, s, toBoolR(e)); for (uint32_t v : X.varsOf(e)) vs.insert(v); }
                else Z3_solver_assert(ctx, s, toBool(e));
            }
            if (realMode) for (uint32_t v : vs) { auto r = varRange.find(v); if (r != varRange.end()) {
                Z3_sort I = Z3_mk_int_sort(ctx); Z3_ast x = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (X.vars[v].name + "!int").c_str()), I);
                Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, x, Z3_mk_int64(ctx, r->second.first, I))); Z3_solver_assert(ctx, s, Z3_mk_le(ctx, x, Z3_mk_int64(ctx, r->second.second, I))); } }
            r = Z3_solver_check(ctx, s);
        } else {
            if (asserted > 30000) { reset(); s = inc; }
            std::vector<Z3_ast> as;
            for (uint32_t id : ids) {
                if (lit.size() <= id) lit.resize(X.all.size() + 1024, nullptr);
                if (!lit[id]) {
                    char b[32]; snprintf(b, 32, "p!%u", id);
                    Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), boolS); Z3_inc_ref(ctx, p);
                    Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, p, toBool(X.all[id])));
                    lit[id] = p; asserted++;
                }
                as.push_back(lit[id]);
            }
            r = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data());
            if (r == Z3_L_UNDEF) { // retry from scratch
                s = Z3_mk_solver_from_tactic(ctx, Z3_mk_tactic(ctx, "qfbv")); own = true; Z3_solver_inc_ref(ctx, s); setTimeout(s);
                for (uint32_t id : ids) Z3_solver_assert(ctx, s, toBool(X.all[id]));
                r = Z3_solver_check(ctx, s);
            }
        }
        nq++;
        std::vector<std::pair<uint32_t, uint64_t>> asg;
        Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
        if (res == SAT) {
            nsat++;
            Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
            std::set<uint32_t> vs;
            for (uint32_t id : ids) for (uint32_t v : X.varsOf(X.all[id])) vs.insert(v);
            for (uint32_t v : vs) {
                E e = X.varByName[X.vars[v].name];
                Z3_ast val; uint64_t num = 0;
                long long lo, hi;
                if (anyFP && realMode && intRange(e, lo, hi)) {
                    Z3_model_eval(ctx, m, toIntS(e), true, &val); int64_t q = 0; Z3_get_numeral_int64(ctx, val, &q); num = (uint64_t)q & (uint64_t)maskw(e->w);
                } else if (anyFP && realMode && getc(re, e)) {
                    Z3_model_eval(ctx, m, getc(re, e), true, &val); double d = 0;
                    if (Z3_get_ast_kind(ctx, val) == Z3_NUMERAL_AST) d = Z3_get_numeral_double(ctx, val); else { const char* s = Z3_get_numeral_decimal_string(ctx, val, 20); d = atof(s); }
                    num = (uint64_t)Exprs::fromD(d, e->w);
                } else if (e->w == 1) { Z3_model_eval(ctx, m, toBool(e), true, &val); num = Z3_get_bool_value(ctx, val) == Z3_L_TRUE; }
                else { Z3_model_eval(ctx, m, toBV(e), true, &val); Z3_get_numeral_uint64(ctx, val, &num); }
                asg.push_back({v, num});
            }
            Z3_model_dec_ref(ctx, m);
        } else if (res == UNSAT) nunsat++; else nunk++;
        setLinked(false);
        if (own) Z3_solver_dec_ref(ctx, s);
        double dt = nowS() - t0; tsolve += dt; static const char* slow = getenv("DSYM_SLOW"); if (slow && dt > atof(slow)) { fprintf(stderr, "SLOW %.2f res %d (%zu constraints)\n", dt, (int)res, ids.size()); for (uint32_t id : ids) fprintf(stderr, "   %s\n", X.str(X.all[id], 10).c_str()); } if (dt > tmax) tmax = dt;
        if (res != UNKNOWN) cache.emplace(std::move(key), std::make_pair(res, asg));
        if (out) *out = std::move(asg);
        return res;
    }
};
