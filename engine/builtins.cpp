#include "engine.h"
using namespace llvm;
#define BI(name) static void name(Engine& e, State& s, Ins& in, std::vector<Val>& a)
#define U (void)e; (void)s; (void)in; (void)a

static Val c64(uint64_t v) { return {nullptr, v}; }
// ---- allocation ----
BI(b_malloc) { uint64_t n = e.concretize(s, a[0], 64); int fam = (int)in.x->bimm; if (fam == 9) { n *= e.concretize(s, a[1], 64); }
    if (n > (1ull << 27)) {
        if (fam == 2 || fam == 3) { // operator new of an absurd size: std::bad_alloc (length checks normally precede it)
            e.fail(s, "alloc", "operator new of more than 2^27 bytes"); }
        e.ret(s, in, c64(0)); return; }
    uint64_t p = e.newObj(s, n, OK_HEAP, fam != 9, fam == 9 ? 1 : fam); e.ret(s, in, c64(p)); }
BI(b_free) { uint64_t p = e.concretize(s, a[0], 64); if (p) {
        const Obj* o = s.mem.get(p >> OFFBITS);
        if (!o) e.fail(s, "free", "double free or free of invalid pointer");
        if (o->kind != OK_HEAP || (p & OFFMASK) != BASEOFF) e.fail(s, "free", "free of a pointer that was not allocated");
        if (o->family != in.x->bimm) e.fail(s, "free", "mismatched allocation/deallocation functions");
        s.mem.free_(p >> OFFBITS); }
    e.retv(s); }
BI(b_realloc) { uint64_t p = e.concretize(s, a[0], 64), n = e.concretize(s, a[1], 64); uint64_t q = e.newObj(s, n, OK_HEAP, true, 1);
    if (p) { const Obj* o = s.mem.get(p >> OFFBITS); if (!o) e.fail(s, "free", "realloc of invalid pointer"); e.copyMem(s, q, p, std::min<uint64_t>(n, o->size), "realloc"); s.mem.free_(p >> OFFBITS); }
    e.ret(s, in, c64(q)); }
// ---- mem intrinsics ----
BI(b_memcpy) { uint64_t n = e.concretize(s, a[2], 64), d = e.concretize(s, a[0], 64), q = e.concretize(s, a[1], 64); if (n) {
        if (in.x->bimm == 0) { uint64_t lo = std::min(d, q), hi = std::max(d, q); if (d != q && (d >> OFFBITS) == (q >> OFFBITS) && hi - lo < n) e.fail(s, "overlap", "memcpy with overlapping ranges"); }
        e.copyMem(s, d, q, n, "memcpy"); }
    if (in.x->retLeaves) e.ret(s, in, c64(d)); else e.retv(s); }
BI(b_memset) { uint64_t n = e.concretize(s, a[2], 64), d = e.concretize(s, a[0], 64); Val v = a[1]; if (in.x->argw.size() > 1 && in.x->argw[1] > 8) v = e.castop(Instruction::Trunc, in.x->argw[1], 8, v);
    if (n) { Val off; uint64_t id = e.resolve(s, c64(d), n, true, off, "write (memset)"); if (s.tid) e.access(s, id, off.c, n, true); Obj* o = s.mem.getw(id);
        if (!v.e) { memset(o->d + off.c, (int)v.c, n); if (o->hasSt) memset(o->st + off.c, 0, n); } else for (uint64_t i = 0; i < n; i++) e.writeObj(s, o, off.c + i, 8, v); }
    if (in.x->retLeaves) e.ret(s, in, c64(d)); else e.retv(s); }
// branch-free memcmp/bcmp for concrete length
BI(b_memcmp) { uint64_t n = e.concretize(s, a[2], 64), p = e.concretize(s, a[0], 64), q = e.concretize(s, a[1], 64);
    Val r = c64(0); if (n) { Val o1, o2; uint64_t i1 = e.resolve(s, c64(p), n, false, o1, "read (memcmp)"), i2 = e.resolve(s, c64(q), n, false, o2, "read (memcmp)");
        if (s.tid) { e.access(s, i1, o1.c, n, false); e.access(s, i2, o2.c, n, false); }
        for (uint64_t i = n; i-- > 0;) { Val x = e.readObj(s, i1, o1.c + i, 8), y = e.readObj(s, i2, o2.c + i, 8);
            Val ne = e.binop(XOR, 1, e.cmpop(EQ, 8, x, y), c64(1)); Val lt = e.cmpop(ULT, 8, x, y); Val d = e.select(lt, c64(0xffffffff), c64(1), 32); r = e.select(ne, d, r, 32); } }
    e.ret(s, in, r); }
BI(b_strlen) { uint64_t p = e.concretize(s, a[0], 64); uint64_t n = 0; for (;; n++) { Val v = e.loadVal(s, c64(p + n), 8); Val z = e.cmpop(EQ, 8, v, c64(0)); if (z.e ? e.branch(s, z.e) : z.c) break; if (n > 1000000) throw Unsupported{"strlen"}; } e.ret(s, in, c64(n)); }
BI(b_memchr) { uint64_t n = e.concretize(s, a[2], 64), p = e.concretize(s, a[0], 64); Val ch = e.castop(Instruction::Trunc, 32, 8, a[1]); Val r = c64(0);
    // memchr may stop early: only bytes up to the first match have to be readable
    if (n) { Val off; uint64_t id = e.resolve(s, c64(p), 1, false, off, "read (memchr)"); const Obj* o = s.mem.get(id); uint64_t m = std::min<uint64_t>(n, o->size - off.c);
        if (m < n) { Val any = c64(0); for (uint64_t i = 0; i < m; i++) any = e.binop(OR, 1, any, e.cmpop(EQ, 8, e.readObj(s, id, off.c + i, 8), ch)); if (!(any.e ? e.branch(s, any.e) : any.c)) e.fail(s, "oob", "out-of-bounds read (memchr)"); }
        for (uint64_t i = m; i-- > 0;) r = e.select(e.cmpop(EQ, 8, e.readObj(s, id, off.c + i, 8), ch), c64(p + i), r, 64); }
    e.ret(s, in, r); }
// ---- exceptions ----
BI(b_exalloc) { uint64_t n = e.concretize(s, a[0], 64); e.ret(s, in, c64(e.newObj(s, n, OK_HEAP, true, 7))); }
BI(b_exfree) { uint64_t p = e.concretize(s, a[0], 64); s.mem.free_(p >> OFFBITS); e.retv(s); }
BI(b_throw) { uint64_t o = e.concretize(s, a[0], 64), t = e.concretize(s, a[1], 64), d = e.concretize(s, a[2], 64); s.excs.push_back({o, t, d, 0, false, o}); s.uncaught++; e.unwind(s, o, false); }
BI(b_begincatch) { uint64_t o = e.concretize(s, a[0], 64); uint64_t adj = o; for (auto& x : s.excs) if (x.obj == o) { x.handlers++; x.rethrown = false; adj = x.adj; } s.uncaught--; s.caught.push_back(o); e.ret(s, in, c64(adj)); }
BI(b_getexptr) { uint64_t o = e.concretize(s, a[0], 64); uint64_t adj = o; for (auto& x : s.excs) if (x.obj == o) adj = x.adj; e.ret(s, in, c64(adj)); }
BI(b_endcatch) {
    if (s.caught.empty()) throw Unsupported{"end_catch"}; uint64_t o = s.caught.back(); s.caught.pop_back();
    for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].obj == o) { auto& x = s.excs[i];
        if (--x.handlers == 0 && !x.rethrown) { uint64_t d = x.dtor; s.excs.erase(s.excs.begin() + i);
            if (d) { Fn* fn = e.fnById[d >> OFFBITS]; if (fn && !fn->F->isDeclaration()) { e.pushFrame(s, fn, {c64(o)}); return; } } }
        break; }
    e.retv(s); }
BI(b_rethrow) { if (s.caught.empty()) e.fail(s, "terminate", "rethrow without active exception"); uint64_t o = s.caught.back(); for (auto& x : s.excs) if (x.obj == o) { x.rethrown = true; } s.uncaught++; e.unwind(s, o, false); }
BI(b_uncaught) { e.ret(s, in, c64(s.uncaught)); }
BI(b_typeid) { uint64_t t = e.concretize(s, a[0], 64); int& k = e.tids[t]; if (!k) k = e.tids.size(); e.ret(s, in, c64((uint32_t)k)); }
BI(b_dyncast) {
    uint64_t sub = e.concretize(s, a[0], 64), dst = e.concretize(s, a[2], 64);
    uint64_t vt = e.rd64(s, sub); uint64_t off = e.rd64(s, vt - 16), ti = e.rd64(s, vt - 8); uint64_t o = 0;
    if (e.tiMatch(s, ti, dst, o)) e.ret(s, in, c64(sub + off + o)); else e.ret(s, in, c64(0)); }
BI(b_fail) { static const char* k[] = {"abort", "terminate", "pure virtual call", "assertion failed", "stack check"}; std::string m = k[in.x->bimm];
    if (in.x->bimm == 3) { try { m += ": " + e.rdStr(s, a[0].c); } catch (Unsupported&) {} }
    e.fail(s, in.x->bimm == 3 ? "assertfail" : "abort", m); }
BI(b_trap) { static const char* k[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type", "implicit-conversion", "invalid-builtin", "invalid-objc", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla"};
    std::string m = "trap"; if (!a.empty()) { unsigned n = a[0].c; m = n < 25 ? k[n] : "ubsan" + std::to_string(n); } e.fail(s, "ub", m); }
BI(b_guard_acq) { uint64_t g = e.concretize(s, a[0], 64); Val v = e.loadVal(s, c64(g), 8); e.ret(s, in, c64(v.c ? 0 : 1)); }
BI(b_guard_rel) { uint64_t g = e.concretize(s, a[0], 64); int t = s.tid; s.tid = 0; e.storeVal(s, c64(g), 8, c64(1)); s.tid = t; e.retv(s); }
BI(b_nop) { if (in.x->retLeaves) e.ret(s, in, c64(in.x->bimm)); else e.retv(s); }
BI(b_undefined_ret) { e.ret(s, in, {e.symVar(s, "ext_" + in.x->biName, in.x->retw[0]), 0}); }
BI(b_exit) {
    if (e.onExit && in.x->bimm) { s.fr.back().pc = s.fr.back().pc; // run the harness hook, then stop
        s.fr.resize(s.fr.size()); uint64_t code = e.concretize(s, a[0], 32);
        // clear the stack: dsym_on_exit runs as the outermost frame and ends the path
        for (auto& f : s.fr) f.allocas.clear(); s.fr.clear(); s.startIdx = ~0ull >> 1; e.pushFrame(s, e.onExit, {c64(code)}); return; }
    e.exits++; e.endPath(s, "exit"); }
// ---- varargs ----
BI(b_vastart) {
    uint64_t ap = e.concretize(s, a[0], 64); Frame& f = s.fr.back(); uint64_t n = f.va.size() * 8; uint64_t area = e.newObj(s, n ? n : 8, OK_STACK, false); f.allocas.push_back(area >> OFFBITS);
    auto va = f.va; for (size_t i = 0; i < va.size(); i++) { Val v = va[i].first; if (va[i].second < 64) v = e.castop(Instruction::ZExt, va[i].second, 64, v); e.storeVal(s, c64(area + 8 * i), 64, v); }
    e.storeVal(s, c64(ap), 32, c64(48)); e.storeVal(s, c64(ap + 4), 32, c64(304)); e.storeVal(s, c64(ap + 8), 64, c64(area)); e.storeVal(s, c64(ap + 16), 64, c64(0)); e.retv(s); }
BI(b_vacopy) { e.copyMem(s, e.concretize(s, a[0], 64), e.concretize(s, a[1], 64), 24, "va_copy"); e.retv(s); }
// ---- integer intrinsics ----
BI(b_minmax) { unsigned w = in.w; int k = (int)in.x->bimm; unsigned n = in.x->retLeaves; std::vector<Val> r; for (unsigned i = 0; i < n; i++) { Val c = e.cmpop(k < 2 ? ULT : SLT, w, a[i], a[n + i]); r.push_back((k & 1) ? e.select(c, a[n + i], a[i], w) : e.select(c, a[i], a[n + i], w)); } e.finishCall(s, r.data(), n); }
BI(b_abs) { unsigned w = in.w; Val neg = e.cmpop(SLT, w, a[0], {w > 64 ? e.X.cst(0, w) : nullptr, 0}); e.ret(s, in, e.select(neg, e.binop(SUB, w, {w > 64 ? e.X.cst(0, w) : nullptr, 0}, a[0]), a[0], w)); }
BI(b_ovf) { // {iN,i1} {s,u}{add,sub,mul}.with.overflow : bimm = op | signed<<8
    unsigned w = in.x->retw[0]; Op op = (Op)(in.x->bimm & 255); bool sg = in.x->bimm >> 8; Val r[2]; r[0] = e.binop(op, w, a[0], a[1]);
    if (!a[0].e && !a[1].e && w <= 64) { i128 x = sg ? sextw(a[0].c, w) : (i128)a[0].c, y = sg ? sextw(a[1].c, w) : (i128)a[1].c; i128 z = op == ADD ? x + y : op == SUB ? x - y : x * y; i128 back = sg ? sextw(r[0].c, w) : (i128)r[0].c;
        bool o = z != back; if (op == MUL && !sg) { u128 uz = (u128)a[0].c * (u128)a[1].c; o = uz > maskw(w); } r[1] = c64(o); }
    else if (sg && w <= 64 && [&] { auto A = e.S.rng(e.toE(a[0], w)), B = e.S.rng(e.toE(a[1], w)); if (A.k + B.k > 120) return false; i128 lo, hi; if (op == ADD) { lo = A.lo + B.lo; hi = A.hi + B.hi; } else if (op == SUB) { lo = A.lo - B.hi; hi = A.hi - B.lo; } else { i128 q[4] = {A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi}; lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4); } i128 m = (i128)1 << (w - 1); return lo >= -m && hi < m; }()) r[1] = c64(0); // the ranges rule an overflow out
    else if (w <= 64) { E x = e.toE(a[0], w), y = e.toE(a[1], w); unsigned W = op == MUL ? 2 * w : w + 1; if (W > 128) throw Unsupported{"ovf"};
        E X1 = sg ? e.X.sext(x, W) : e.X.zext(x, W), Y1 = sg ? e.X.sext(y, W) : e.X.zext(y, W); E z = e.X.bin(op, X1, Y1); E bk = sg ? e.X.sext(e.X.extract(z, 0, w), W) : e.X.zext(e.X.extract(z, 0, w), W);
        if (op == ADD && sg) { // sign-based formulation is friendlier to the solver
            E rr = e.X.bin(ADD, x, y); E sx_ = e.X.extract(x, w - 1, 1), sy = e.X.extract(y, w - 1, 1), sr = e.X.extract(rr, w - 1, 1);
            r[1] = e.fromE(e.X.bin(AND, e.X.bin(EQ, sx_, sy), e.X.not1(e.X.bin(EQ, sx_, sr)))); }
        else if (op == SUB && sg) { E rr = e.X.bin(SUB, x, y); E sx_ = e.X.extract(x, w - 1, 1), sy = e.X.extract(y, w - 1, 1), sr = e.X.extract(rr, w - 1, 1);
            r[1] = e.fromE(e.X.bin(AND, e.X.not1(e.X.bin(EQ, sx_, sy)), e.X.not1(e.X.bin(EQ, sx_, sr)))); }
        else if (op == ADD) r[1] = e.fromE(e.X.bin(ULT, e.X.bin(ADD, x, y), x));
        else if (op == SUB) r[1] = e.fromE(e.X.bin(ULT, x, y));
        else r[1] = e.fromE(e.X.not1(e.X.bin(EQ, z, bk))); }
    else throw Unsupported{"ovf width"};
    e.finishCall(s, r, 2); }
BI(b_sat) { unsigned w = in.w; Op op = (Op)(in.x->bimm & 255); bool sg = in.x->bimm >> 8; E x = e.toE(a[0], w), y = e.toE(a[1], w); E r = e.X.bin(op, x, y);
    if (!sg) { if (op == ADD) r = e.X.ite(e.X.bin(ULT, r, x), e.X.cst(maskw(w), w), r); else r = e.X.ite(e.X.bin(ULT, x, y), e.X.cst(0, w), r); }
    else { E W = e.X.bin(op, e.X.sext(x, w + 1), e.X.sext(y, w + 1)); E ov = e.X.not1(e.X.bin(EQ, W, e.X.sext(r, w + 1))); E neg = e.X.extract(W, w, 1); r = e.X.ite(ov, e.X.ite(neg, e.X.cst((u128)1 << (w - 1), w), e.X.cst(maskw(w - 1), w)), r); }
    e.ret(s, in, e.fromE(r)); }
BI(b_bitcnt) { // ctpop 0, ctlz 1, cttz 2
    unsigned w = in.w; int k = (int)in.x->bimm; E x = e.toE(a[0], w);
    if (k == 0) { E r = e.X.cst(0, w); for (unsigned i = 0; i < w; i++) r = e.X.bin(ADD, r, e.X.zext(e.X.extract(x, i, 1), w)); e.ret(s, in, e.fromE(r)); return; }
    E r = e.X.cst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = k == 1 ? i : w - 1 - i; r = e.X.ite(e.X.bin(EQ, e.X.extract(x, bit, 1), e.X.cst(1, 1)), e.X.cst(k == 1 ? w - 1 - i : bit, w), r); }
    e.ret(s, in, e.fromE(r)); }
BI(b_bswap) { unsigned w = in.w; E x = e.toE(a[0], w); E r = e.X.extract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = e.X.concat(r, e.X.extract(x, i, 8)); e.ret(s, in, e.fromE(r)); }
BI(b_fsh) { unsigned w = in.w; bool left = in.x->bimm == 0; uint64_t k = e.concretize(s, a[2], w) % w; E hi = e.toE(a[0], w), lo = e.toE(a[1], w); if (2 * w > 128) { if (k == 0) { e.ret(s, in, left ? a[0] : a[1]); return; } throw Unsupported{"fsh"}; } E c = e.X.concat(hi, lo); e.ret(s, in, e.fromE(left ? e.X.extract(c, w - k, w) : e.X.extract(c, k, w))); }
BI(b_iscst) { e.ret(s, in, c64(0)); }
BI(b_objsize) { e.ret(s, in, c64(in.w == 64 ? ~0ull : 0xffffffff)); }
// ---- floating point ----
BI(b_fp1) { unsigned w = in.w; E x = e.toE(a[0], w); switch (in.x->bimm) {
        case 0: e.ret(s, in, e.fromE(e.X.bin(AND, x, e.X.cst(maskw(w - 1), w)))); return; // fabs
        case 1: e.ret(s, in, e.fromE(e.X.un(FSQRT, w, x))); return;
        case 2: e.ret(s, in, e.fromE(e.X.un(FRINT, w, x, 1))); return; case 3: e.ret(s, in, e.fromE(e.X.un(FRINT, w, x, 2))); return; case 4: e.ret(s, in, e.fromE(e.X.un(FRINT, w, x, 3))); return; case 5: e.ret(s, in, e.fromE(e.X.un(FRINT, w, x, 0))); return; case 6: e.ret(s, in, e.fromE(e.X.un(FRINT, w, x, 4))); return; } }
BI(b_fma) { unsigned w = in.w; E x = e.toE(a[0], w), y = e.toE(a[1], w), z = e.toE(a[2], w); if (in.x->bimm == 1) e.ret(s, in, e.fromE(e.X.bin(FADD, e.X.bin(FMUL, x, y), z))); else e.ret(s, in, e.fromE(e.X.fma3(x, y, z))); }
BI(b_copysign) { unsigned w = in.w; E x = e.toE(a[0], w), y = e.toE(a[1], w); e.ret(s, in, e.fromE(e.X.bin(OR, e.X.bin(AND, x, e.X.cst(maskw(w - 1), w)), e.X.bin(AND, y, e.X.cst((u128)1 << (w - 1), w))))); }
BI(b_fminmax) { unsigned w = in.w; Val nanx = e.S.realMode ? c64(0) : e.binop(XOR, 1, e.cmpop(FEQ, w, a[0], a[0]), c64(1)), nany = e.S.realMode ? c64(0) : e.binop(XOR, 1, e.cmpop(FEQ, w, a[1], a[1]), c64(1)); Val lt = e.cmpop(FLT, w, a[0], a[1]); Val r = in.x->bimm == 0 ? e.select(lt, a[0], a[1], w) : e.select(lt, a[1], a[0], w);
    r = e.select(nany, a[0], r, w); r = e.select(nanx, a[1], r, w); e.ret(s, in, r); }
BI(b_fpclass) { unsigned w = in.x->argw[0]; unsigned m = (unsigned)a[1].c; E x = e.toE(a[0], w); unsigned mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11;
    if (e.S.realMode && x->op != CONST) { bool fin = (m & 0x1f8) == 0x1f8; if (fin) { e.ret(s, in, c64(1)); return; } if (!(m & 0x1f8)) { e.ret(s, in, c64(0)); return; } throw Unsupported{"fpclass in real mode"}; }
    E ex = e.X.extract(x, mb, eb), mt = e.X.extract(x, 0, mb), sg = e.X.extract(x, w - 1, 1); E e0 = e.X.bin(EQ, ex, e.X.cst(0, eb)), e1 = e.X.bin(EQ, ex, e.X.cst(maskw(eb), eb)), m0 = e.X.bin(EQ, mt, e.X.cst(0, mb)); E q = e.X.extract(x, mb - 1, 1);
    auto A = [&](E p, E q) { return e.X.bin(AND, p, q); }; auto N = [&](E p) { return e.X.not1(p); };
    E nan = A(e1, N(m0)), inf = A(e1, m0), zero = A(e0, m0), sub = A(e0, N(m0)), norm = A(N(e0), N(e1)); E r = e.X.cst(0, 1);
    auto add = [&](unsigned bit, E c) { if (m & bit) r = e.X.bin(OR, r, c); };
    add(1, A(nan, N(q))); add(2, A(nan, q)); add(4, A(inf, sg)); add(8, A(norm, sg)); add(16, A(sub, sg)); add(32, A(zero, sg)); add(64, A(zero, N(sg))); add(128, A(sub, N(sg))); add(256, A(norm, N(sg))); add(512, A(inf, N(sg)));
    e.ret(s, in, e.fromE(r)); }
BI(b_fptosat) { throw Unsupported{"fptosi.sat"}; }
BI(b_math1) { unsigned w = in.w; if (a[0].e) throw Unsupported{in.x->biName + " on symbolic argument"}; double x = Exprs::asD(a[0].c, w), y = a.size() > 1 ? Exprs::asD(a[1].c, w) : 0; double r = 0; switch (in.x->bimm) { case 0: r = log(x); break; case 1: r = exp(x); break; case 2: r = pow(x, y); break; case 3: r = sin(x); break; case 4: r = cos(x); break; case 5: r = log2(x); break; case 6: r = fmod(x, y); break; case 7: r = tan(x); break; case 8: r= log10(x); break; } e.ret(s, in, c64((uint64_t)Exprs::fromD(r, w))); }
// ---- dsym API ----
BI(d_sym) { unsigned w = (unsigned)in.x->bimm; std::string n = e.rdStr(s, e.concretize(s, a[0], 64)); E v = e.symVar(s, n, w); e.ret(s, in, {v, 0}); }
BI(d_range) { // int64 dsym_range(name, lo, hi)
    std::string n = e.rdStr(s, e.concretize(s, a[0], 64)); int64_t lo = (int64_t)e.concretize(s, a[1], 64), hi = (int64_t)e.concretize(s, a[2], 64);
    std::string sfx = "@" + std::to_string(lo) + ".." + std::to_string(hi); E v = e.symVar(s, n, 64, true, sfx.c_str()); e.S.varRange[v->imm] = {lo, hi}; e.assume(s, e.X.bin(AND, e.X.bin(SLE, e.X.cst((uint64_t)lo, 64), v), e.X.bin(SLE, v, e.X.cst((uint64_t)hi, 64)))); e.ret(s, in, {v, 0}); }
BI(d_choice) { std::string n = e.rdStr(s, e.concretize(s, a[0], 64)); uint64_t k = e.concretize(s, a[1], 32);
    // re-execution after a fork must not create a second variable: the name counter is advanced only at the end
    int c = s.nameCnt[n]; std::string full = n + "#" + std::to_string(c) + ":32"; E v = e.X.var(full, 32);
    if (s.inputs.empty() || s.inputs.back() != v->imm) { s.inputs.push_back(v->imm); e.assume(s, e.X.bin(ULT, v, e.X.cst(k, 32))); }
    uint64_t x = e.concretize(s, {v, 0}, 32); s.nameCnt[n]++; e.ret(s, in, c64(x)); }
BI(d_conc) { uint64_t x = e.concretize(s, a[0], 64); e.ret(s, in, c64(x)); }
BI(d_bytes) { uint64_t p = e.concretize(s, a[0], 64), n = e.concretize(s, a[1], 64); std::string nm = e.rdStr(s, e.concretize(s, a[2], 64)); Val off; if (n) { uint64_t id = e.resolve(s, c64(p), n, true, off, "write (sym)"); for (uint64_t i = 0; i < n; i++) { E v = e.symVar(s, nm, 8); e.writeObj(s, s.mem.getw(id), off.c + i, 8, {v, 0}); } } e.retv(s); }
BI(d_assume) { E c = e.toE(a[0], in.x->argw[0]); if (c->w != 1) c = e.X.not1(e.X.bin(EQ, c, e.X.cst(0, c->w))); e.assume(s, c); e.retv(s); }
BI(d_assert) { E c = e.toE(a[0], in.x->argw[0]); if (c->w != 1) c = e.X.not1(e.X.bin(EQ, c, e.X.cst(0, c->w))); std::string l = e.rdStr(s, e.concretize(s, a[1], 64)); e.checkAssert(s, c, "assert", l); e.retv(s); }
BI(d_reach) { s.reach.insert(e.rdStr(s, e.concretize(s, a[0], 64))); e.retv(s); }
BI(d_observe) { s.observed.push_back({e.rdStr(s, e.concretize(s, a[0], 64)), a[1]}); e.retv(s); }
BI(d_cfg) { std::string n = e.rdStr(s, e.concretize(s, a[0], 64)); auto it = e.cfg.find(n); e.ret(s, in, it == e.cfg.end() ? a[1] : c64((uint64_t)it->second)); }
BI(d_native) { e.ret(s, in, c64(0)); }
BI(d_end) { e.endPath(s, "end"); }
BI(d_note) { s.notes.push_back(e.rdStr(s, e.concretize(s, a[0], 64))); e.retv(s); }
BI(d_thread) { s.tid = (int)e.concretize(s, a[0], 32); if (s.tid && !s.acc) s.acc = std::make_shared<std::unordered_map<uint64_t, Access>>(); e.retv(s); }
BI(d_lock) { uint64_t p = e.concretize(s, a[0], 64); bool acq = in.x->bimm; auto it = s.lockIds.find(p); if (it == s.lockIds.end()) it = s.lockIds.insert({p, (int)s.lockIds.size()}).first; uint64_t b = 1ull << (it->second & 63);
    if (acq) { if (s.heldLocks & b) e.fail(s, "deadlock", "locking a mutex that this thread already holds"); s.heldLocks |= b; } else { if (!(s.heldLocks & b)) e.fail(s, "unlock", "unlocking a mutex that is not held"); s.heldLocks &= ~b; }
    if (in.x->retLeaves) e.ret(s, in, c64(0)); else e.retv(s); }
BI(d_held) { e.ret(s, in, c64(s.heldLocks)); }
BI(d_is_sym) { e.ret(s, in, c64(a[0].e != nullptr)); }
BI(d_valid) { uint64_t p = e.concretize(s, a[0], 64); const Obj* o = s.mem.get(p >> OFFBITS); uint64_t off = (p & OFFMASK) - BASEOFF; e.ret(s, in, c64(o && off <= o->size ? o->size - off : 0)); }
BI(d_print) { std::string n = e.rdStr(s, e.concretize(s, a[0], 64)); fprintf(stderr, "[print] %s %s\n", n.c_str(), a.size() > 1 ? (a[1].e ? e.X.str(a[1].e).c_str() : std::to_string(a[1].c).c_str()) : ""); e.retv(s); }
BI(d_fmtd) { // int dsym_fmt_double(char* buf, size_t n, const char* fmt, int prec, double v) : concrete only
    uint64_t b = e.concretize(s, a[0], 64), n = e.concretize(s, a[1], 64); std::string f = e.rdStr(s, e.concretize(s, a[2], 64)); int prec = (int)e.concretize(s, a[3], 32); if (a[4].e) throw Unsupported{"formatting a symbolic double"};
    char t[512]; int k = prec >= 0 ? snprintf(t, sizeof t, f.c_str(), prec, Exprs::asD(a[4].c, 64)) : snprintf(t, sizeof t, f.c_str(), Exprs::asD(a[4].c, 64)); for (int i = 0; i <= k && (uint64_t)i < n; i++) e.storeVal(s, c64(b + i), 8, c64((uint8_t)t[i])); e.ret(s, in, c64((uint32_t)k)); }
BI(d_strtod) { std::string t = e.rdStr(s, e.concretize(s, a[0], 64)); char* end; double d = strtod(t.c_str(), &end); if (a.size() > 1) { uint64_t q = e.concretize(s, a[1], 64); if (q) e.storeVal(s, c64(q), 64, c64(e.concretize(s, a[0], 64) + (end - t.c_str()))); } e.ret(s, in, c64((uint64_t)Exprs::fromD(d, in.w))); }
BI(d_ite) { E c = e.toE(a[0], in.x->argw[0]); if (c->w != 1) c = e.X.not1(e.X.bin(EQ, c, e.X.cst(0, c->w))); e.ret(s, in, e.select(e.fromE(c), a[1], a[2], in.w)); }

Builtin Engine::lookupBuiltin(const std::string& n, uint64_t& imm) {
    auto it = bis.find(n); if (it != bis.end()) { imm = it->second.second; return it->second.first; }
    // overloaded intrinsics: strip type suffixes
    if (n.rfind("llvm.", 0) == 0) { std::string p = n; for (;;) { size_t d = p.rfind('.'); if (d == std::string::npos || d < 5) break; p = p.substr(0, d); it = bis.find(p); if (it != bis.end()) { imm = it->second.second; return it->second.first; } } }
    return nullptr;
}
void Engine::registerBuiltins() {
    auto B = [&](const char* n, Builtin b, uint64_t imm = 0) { bis[n] = {b, imm}; };
    B("malloc", b_malloc, 1); B("calloc", b_malloc, 9); B("free", b_free, 1); B("realloc", b_realloc);
    B("_Znwm", b_malloc, 2); B("_Znam", b_malloc, 3); B("_ZdlPv", b_free, 2); B("_ZdlPvm", b_free, 2); B("_ZdaPv", b_free, 3); B("_ZdaPvm", b_free, 3);
    B("_ZnwmRKSt9nothrow_t", b_malloc, 2); B("_ZnamRKSt9nothrow_t", b_malloc, 3); B("_ZnwmSt11align_val_t", b_malloc, 2); B("_ZdlPvmSt11align_val_t", b_free, 2); B("_ZdlPvSt11align_val_t", b_free, 2);
    B("llvm.memcpy", b_memcpy, 0); B("memcpy", b_memcpy, 0); B("llvm.memmove", b_memcpy, 1); B("memmove", b_memcpy, 1); B("llvm.memset", b_memset); B("memset", b_memset);
    B("memcmp", b_memcmp); B("bcmp", b_memcmp); B("strlen", b_strlen); B("memchr", b_memchr);
    B("__cxa_allocate_exception", b_exalloc); B("__cxa_free_exception", b_exfree); B("__cxa_throw", b_throw); B("__cxa_begin_catch", b_begincatch); B("__cxa_end_catch", b_endcatch); B("__cxa_rethrow", b_rethrow); B("__cxa_get_exception_ptr", b_getexptr);
    B("_ZSt19uncaught_exceptionsv", b_uncaught); B("_ZSt18uncaught_exceptionv", b_uncaught); B("llvm.eh.typeid.for", b_typeid); B("__dynamic_cast", b_dyncast);
    B("abort", b_fail, 0); B("_ZSt9terminatev", b_fail, 1); B("__cxa_pure_virtual", b_fail, 2); B("__assert_fail", b_fail, 3); B("__stack_chk_fail", b_fail, 4); B("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_fail, 0);
    B("llvm.trap", b_trap); B("llvm.ubsantrap", b_trap); B("llvm.debugtrap", b_trap);
    B("__cxa_guard_acquire", b_guard_acq); B("__cxa_guard_release", b_guard_rel); B("__cxa_guard_abort", b_nop);
    B("exit", b_exit, 1); B("_exit", b_exit, 0); B("quick_exit", b_exit, 0);
    B("llvm.va_start", b_vastart); B("llvm.va_copy", b_vacopy);
    B("llvm.umin", b_minmax, 0); B("llvm.umax", b_minmax, 1); B("llvm.smin", b_minmax, 2); B("llvm.smax", b_minmax, 3); B("llvm.abs", b_abs);
    B("llvm.sadd.with.overflow", b_ovf, ADD | 256); B("llvm.ssub.with.overflow", b_ovf, SUB | 256); B("llvm.smul.with.overflow", b_ovf, MUL | 256); B("llvm.uadd.with.overflow", b_ovf, ADD); B("llvm.usub.with.overflow", b_ovf, SUB); B("llvm.umul.with.overflow", b_ovf, MUL);
    B("llvm.sadd.sat", b_sat, ADD | 256); B("llvm.ssub.sat", b_sat, SUB | 256); B("llvm.uadd.sat", b_sat, ADD); B("llvm.usub.sat", b_sat, SUB);
    B("llvm.ctpop", b_bitcnt, 0); B("llvm.ctlz", b_bitcnt, 1); B("llvm.cttz", b_bitcnt, 2); B("llvm.bswap", b_bswap); B("llvm.fshl", b_fsh, 0); B("llvm.fshr", b_fsh, 1);
    B("llvm.is.constant", b_iscst); B("llvm.objectsize", b_objsize);
    B("llvm.fabs", b_fp1, 0); B("llvm.sqrt", b_fp1, 1); B("llvm.floor", b_fp1, 2); B("llvm.ceil", b_fp1, 3); B("llvm.trunc", b_fp1, 4); B("llvm.rint", b_fp1, 5); B("llvm.nearbyint", b_fp1, 5); B("llvm.roundeven", b_fp1, 5); B("llvm.round", b_fp1, 6);
    B("floor", b_fp1, 2); B("ceil", b_fp1, 3); B("sqrt", b_fp1, 1); B("fabs", b_fp1, 0); B("trunc", b_fp1, 4); B("rint", b_fp1, 5); B("nearbyint", b_fp1, 5); B("round", b_fp1, 6); B("floorf", b_fp1, 2); B("ceilf", b_fp1, 3); B("sqrtf", b_fp1, 1); B("fabsf", b_fp1, 0); B("truncf", b_fp1, 4); B("rintf", b_fp1, 5); B("roundf", b_fp1, 6);
    B("llvm.fma", b_fma, 0); B("fma", b_fma, 0); B("fmaf", b_fma, 0); B("llvm.fmuladd", b_fma, 1); B("llvm.copysign", b_copysign); B("llvm.minnum", b_fminmax, 0); B("llvm.maxnum", b_fminmax, 1); B("fmin", b_fminmax, 0); B("fmax", b_fminmax, 1); B("fminf", b_fminmax, 0); B("fmaxf", b_fminmax, 1); B("llvm.is.fpclass", b_fpclass);
    B("log", b_math1, 0); B("exp", b_math1, 1); B("pow", b_math1, 2); B("sin", b_math1, 3); B("cos", b_math1, 4); B("log2", b_math1, 5); B("fmod", b_math1, 6); B("tan", b_math1, 7); B("log10", b_math1, 8); B("llvm.log", b_math1, 0); B("llvm.exp", b_math1, 1); B("llvm.pow", b_math1, 2); B("llvm.log2", b_math1, 5); B("llvm.log10", b_math1, 8);
    B("dsym_u8", d_sym, 8); B("dsym_u16", d_sym, 16); B("dsym_u32", d_sym, 32); B("dsym_u64", d_sym, 64); B("dsym_bool", d_sym, 1); B("dsym_f64", d_sym, 64); B("dsym_f32", d_sym, 32);
    B("dsym_range", d_range); B("dsym_choice", d_choice); B("dsym_concretize", d_conc); B("dsym_bytes", d_bytes); B("dsym_assume", d_assume); B("dsym_assert", d_assert); B("dsym_reach", d_reach); B("dsym_observe", d_observe); B("dsym_cfg", d_cfg); B("dsym_native", d_native); B("dsym_end", d_end); B("dsym_note", d_note);
    B("dsym_thread", d_thread); B("dsym_lock", d_lock, 1); B("dsym_unlock", d_lock, 0); B("dsym_held_locks", d_held); B("dsym_is_symbolic", d_is_sym); B("dsym_is_symbolic_f", d_is_sym); B("dsym_valid_bytes", d_valid); B("dsym_print", d_print); B("dsym_fmt_double", d_fmtd); B("strtod", d_strtod); B("strtof", d_strtod); B("dsym_ite64", d_ite);
    B("pthread_mutex_lock", d_lock, 1); B("pthread_mutex_unlock", d_lock, 0); B("pthread_mutex_trylock", d_lock, 1);
    B("pthread_rwlock_wrlock", d_lock, 1); B("pthread_rwlock_unlock", d_lock, 0);
}
