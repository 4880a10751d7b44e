// Hash-consed bit-vector / floating-point expression DAG with local simplification.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
    CONST, VAR,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE,
    ITE, CONCAT, EXTRACT, ZEXT, SEXT,
    FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FMA,
    FEQ, FLT, FLE,
    FEXT, FTRUNC, SITOFP, UITOFP, FPTOSI, FPTOUI, FRINT,
};
static const char* opNames[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
  "eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","fma","feq","flt","fle",
  "fext","ftrunc","sitofp","uitofp","fptosi","fptoui","frint"};

enum { XF_UNINIT = 1, XF_FP = 2 };

struct Expr {
    Op op; uint8_t w; uint8_t flags; uint8_t depthCap;
    uint32_t id;
    uint64_t imm;        // VAR: index; EXTRACT: low bit; FRINT: mode
    u128 c;              // CONST value
    const Expr *a, *b, *d;
    mutable const std::vector<uint32_t>* vars;  // lazily computed sorted var list
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    unsigned s = 128 - w;
    return ((i128)(v << s)) >> s;
}

struct VarInfo { std::string name; unsigned w; uint8_t flags; };

struct Exprs {
    std::vector<E> all;
    std::vector<VarInfo> vars;
    std::unordered_map<std::string, E> varByName;
    // open addressing table
    std::vector<E> tab; size_t count = 0;
    Exprs() { tab.assign(1 << 16, nullptr); }
    static uint64_t mix(uint64_t h) { h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; return h; }
    static uint64_t hashOf(Op op, unsigned w, uint64_t imm, u128 c, E a, E b, E d) {
        uint64_t h = op * 131 + w;
        h = mix(h ^ imm * 0x9E3779B97F4A7C15ull);
        h = mix(h + (uint64_t)c); h = mix(h + (uint64_t)(c >> 64) * 31);
        h = mix(h + (a ? a->id + 1 : 0)); h = mix(h + (b ? b->id + 1 : 0) * 7); h = mix(h + (d ? d->id + 1 : 0) * 13);
        return h;
    }
    void grow() {
        std::vector<E> o; o.swap(tab); tab.assign(o.size() * 2, nullptr);
        for (E e : o) if (e) { size_t i = hashOf(e->op, e->w, e->imm, e->c, e->a, e->b, e->d) & (tab.size() - 1);
            while (tab[i]) i = (i + 1) & (tab.size() - 1); tab[i] = e; }
    }
    E raw(Op op, unsigned w, uint64_t imm, u128 c, E a, E b, E d, uint8_t fl = 0) {
        size_t i = hashOf(op, w, imm, c, a, b, d) & (tab.size() - 1);
        while (E e = tab[i]) {
            if (e->op == op && e->w == w && e->imm == imm && e->c == c && e->a == a && e->b == b && e->d == d) return e;
            i = (i + 1) & (tab.size() - 1);
        }
        Expr* e = new Expr{op, (uint8_t)w, fl, 0, (uint32_t)all.size(), imm, c, a, b, d, nullptr};
        if (a) e->flags |= a->flags; if (b) e->flags |= b->flags; if (d) e->flags |= d->flags;
        if (op >= FADD) e->flags |= XF_FP;
        all.push_back(e); tab[i] = e;
        if (++count * 2 > tab.size()) grow();
        return e;
    }
    E cst(u128 v, unsigned w) { return raw(CONST, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
    E var(const std::string& name, unsigned w, uint8_t fl = 0) {
        auto it = varByName.find(name);
        if (it != varByName.end()) { if (it->second->w != w) { fprintf(stderr, "var width clash %s\n", name.c_str()); abort(); } return it->second; }
        uint64_t idx = vars.size(); vars.push_back({name, w, fl});
        E e = raw(VAR, w, idx, 0, nullptr, nullptr, nullptr, fl);
        varByName[name] = e; return e;
    }
    static bool isC(E e) { return e->op == CONST; }
    static bool isC(E e, u128 v) { return e->op == CONST && e->c == (v & maskw(e->w)); }

    static double asD(u128 v, unsigned w) {
        if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
        uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f;
    }
    static u128 fromD(double d, unsigned w) {
        if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
        uint64_t x; memcpy(&x, &d, 8); return x;
    }
    // constant evaluation of a node given operand values
    static u128 ev(Op op, unsigned w, uint64_t imm, unsigned wa, u128 a, u128 b, u128 d, unsigned wb) {
        u128 m = maskw(w);
        switch (op) {
            case ADD: return (a + b) & m;
            case SUB: return (a - b) & m;
            case MUL: return (a * b) & m;
            case UDIV: return b ? (a / b) : m;
            case UREM: return b ? (a % b) : a;
            case SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
            case SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
            case AND: return a & b;
            case OR: return a | b;
            case XOR: return a ^ b;
            case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
            case LSHR: return b >= w ? 0 : a >> (unsigned)b;
            case ASHR: return (u128)(sextw(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & m;
            case EQ: return a == b;
            case ULT: return a < b;
            case ULE: return a <= b;
            case SLT: return sextw(a, wa) < sextw(b, wa);
            case SLE: return sextw(a, wa) <= sextw(b, wa);
            case ITE: return a ? b : d;
            case CONCAT: return ((a << wb) | b) & m;
            case EXTRACT: return (a >> imm) & m;
            case ZEXT: return a;
            case SEXT: return (u128)sextw(a, wa) & m;
            case FADD: if (w == 32) return fromD((float)asD(a, 32) + (float)asD(b, 32), 32); return fromD(asD(a, w) + asD(b, w), w);
            case FSUB: if (w == 32) return fromD((float)asD(a, 32) - (float)asD(b, 32), 32); return fromD(asD(a, w) - asD(b, w), w);
            case FMUL: if (w == 32) return fromD((float)asD(a, 32) * (float)asD(b, 32), 32); return fromD(asD(a, w) * asD(b, w), w);
            case FDIV: if (w == 32) return fromD((float)asD(a, 32) / (float)asD(b, 32), 32); return fromD(asD(a, w) / asD(b, w), w);
            case FREM: if (w == 32) return fromD(fmodf((float)asD(a, 32), (float)asD(b, 32)), 32); return fromD(fmod(asD(a, w), asD(b, w)), w);
            case FSQRT: if (w == 32) return fromD(sqrtf((float)asD(a, 32)), 32); return fromD(sqrt(asD(a, w)), w);
            case FMA: if (w == 32) return fromD(fmaf((float)asD(a, 32), (float)asD(b, 32), (float)asD(d, 32)), 32); return fromD(fma(asD(a, w), asD(b, w), asD(d, w)), w);
            case FEQ: return asD(a, wa) == asD(b, wa);
            case FLT: return asD(a, wa) < asD(b, wa);
            case FLE: return asD(a, wa) <= asD(b, wa);
            case FEXT: case FTRUNC: return fromD(asD(a, wa), w);
            case SITOFP: if (w == 32) return fromD((float)sextw(a, wa), 32); return fromD((double)sextw(a, wa), w);
            case UITOFP: if (w == 32) return fromD((float)a, 32); return fromD((double)a, w);
            case FPTOSI: { double x = asD(a, wa); if (!(x == x)) return 0; if (x >= 9.3e18 || x <= -9.3e18) return ((u128)1 << (w - 1)); return (u128)(i128)(int64_t)x & m; }
            case FPTOUI: { double x = asD(a, wa); if (!(x == x) || x <= -1) return 0; if (x >= 1.9e19) return m; return (u128)(uint64_t)x & m; }
            case FRINT: { double x = asD(a, wa); double r = imm == 0 ? nearbyint(x) : imm == 1 ? floor(x) : imm == 2 ? ceil(x) : imm == 3 ? trunc(x) : round(x); return fromD(r, w); }
            default: abort();
        }
    }
    // cheap unsigned upper bound
    u128 umax(E e, int depth = 4) {
        u128 m = maskw(e->w);
        if (e->op == CONST) return e->c;
        if (!depth) return m;
        switch (e->op) {
            case ZEXT: return umax(e->a, depth - 1);
            case AND: { u128 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1); return x < y ? x : y; }
            case OR: case XOR: { u128 x = umax(e->a, depth - 1) | umax(e->b, depth - 1); for (unsigned s = 1; s < 128; s <<= 1) x |= x >> s; return x; }
            case LSHR: if (isC(e->b) && e->b->c < e->w) return umax(e->a, depth - 1) >> (unsigned)e->b->c; return m;
            case SHL: if (isC(e->b) && e->b->c < e->w) { u128 x = umax(e->a, depth - 1); if (e->w <= 64 && (x << (unsigned)e->b->c) <= m) return x << (unsigned)e->b->c; } return m;
            case UREM: if (isC(e->b) && e->b->c) return e->b->c - 1; return m;
            case UDIV: if (isC(e->b) && e->b->c) return umax(e->a, depth - 1) / e->b->c; return m;
            case ADD: { u128 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1); if (e->w < 128 && x + y <= m) return x + y; return m; }
            case MUL: { u128 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1); if (e->w <= 64 && x * y <= m) return x * y; return m; }
            case ITE: { u128 x = umax(e->b, depth - 1), y = umax(e->d, depth - 1); return x > y ? x : y; }
            case CONCAT: return (umax(e->a, depth - 1) << e->b->w) | maskw(e->b->w);
            default: return m;
        }
    }
    bool iteConstLeaves(E e, int& budget) {
        while (e->op == ITE) { if (--budget < 0) return false; if (!isC(e->b)) { if (!iteConstLeaves(e->b, budget)) return false; } e = e->d; }
        return isC(e);
    }
    E not1(E a) { return bin(XOR, a, cst(1, 1)); }
    E ite(E c, E t, E f) {
        if (isC(c)) return c->c ? t : f;
        if (t == f) return t;
        if (c->op == XOR && isC(c->b, 1)) return ite(c->a, f, t);
        if (t->w == 1) {
            if (isC(t, 1) && isC(f, 0)) return c;
            if (isC(t, 0) && isC(f, 1)) return not1(c);
            if (isC(t, 1)) return bin(OR, c, f);
            if (isC(t, 0)) return bin(AND, not1(c), f);
            if (isC(f, 0)) return bin(AND, c, t);
            if (isC(f, 1)) return bin(OR, not1(c), t);
        }
        if (f->op == ITE && f->a == c) f = f->d;
        if (t->op == ITE && t->a == c) t = t->b;
        if (t == f) return t;
        if (f->op == ITE && f->b == t) return ite(bin(OR, c, f->a), t, f->d);
        return raw(ITE, t->w, 0, 0, c, t, f);
    }
    E zext(E a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return cst(a->c, w);
        if (a->op == ZEXT) return zext(a->a, w);
        if (a->op == ITE && isC(a->b) && isC(a->d)) return ite(a->a, cst(a->b->c, w), cst(a->d->c, w));
        return raw(ZEXT, w, 0, 0, a, nullptr, nullptr);
    }
    E sext(E a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return cst((u128)sextw(a->c, a->w), w);
        if (a->op == SEXT) return sext(a->a, w);
        if (a->op == ZEXT) return zext(a->a, w);
        if (a->w > 1 && (umax(a) >> (a->w - 1)) == 0) return zext(a, w);
        if (a->op == ITE && isC(a->b) && isC(a->d)) return ite(a->a, sext(a->b, w), sext(a->d, w));
        return raw(SEXT, w, 0, 0, a, nullptr, nullptr);
    }
    E extract(E a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        switch (a->op) {
            case CONST: return cst(a->c >> lo, w);
            case EXTRACT: return extract(a->a, lo + a->imm, w);
            case CONCAT:
                if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
                if (lo + w <= a->b->w) return extract(a->b, lo, w);
                return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
            case ZEXT:
                if (lo >= a->a->w) return cst(0, w);
                if (lo + w <= a->a->w) return extract(a->a, lo, w);
                return zext(extract(a->a, lo, a->a->w - lo), w);
            case SEXT:
                if (lo + w <= a->a->w) return extract(a->a, lo, w);
                if (lo == 0) return sext(a->a, w);
                if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), w);
                break;
            case AND: case OR: case XOR:
                if (isC(a->b)) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
                return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
            case ADD: case SUB: case MUL:
                if (lo == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
                break;
            case ITE: {
                if (isC(a->b) || isC(a->d)) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
                break;
            }
            case SHL:
                if (isC(a->b) && a->b->c < a->w) {
                    unsigned s = (unsigned)a->b->c;
                    if (lo >= s) return extract(a->a, lo - s, w);
                    if (lo + w <= s) return cst(0, w);
                }
                break;
            case LSHR:
                if (isC(a->b) && a->b->c < a->w) {
                    unsigned s = (unsigned)a->b->c;
                    if (lo + s + w <= a->w) return extract(a->a, lo + s, w);
                    if (lo + s >= a->w) return cst(0, w);
                }
                break;
            default: break;
        }
        return raw(EXTRACT, w, lo, 0, a, nullptr, nullptr);
    }
    E concat(E a, E b) {
        unsigned w = a->w + b->w;
        if (isC(a) && isC(b)) return cst((a->c << b->w) | b->c, w);
        if (isC(a, 0)) return zext(b, w);
        if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->imm == b->imm + b->w) return extract(a->a, b->imm, w);
        if (a->op == EXTRACT && a->a == b && a->imm == b->w) return extract(a->a, 0, w);
        if (a->op == EXTRACT && a->a->op == SEXT && a->a->a == b && a->imm == b->w) return a->imm + a->w == a->a->w ? a->a : extract(a->a, 0, w); // halves of a sign extension
        if (b->op == CONCAT && a->op == EXTRACT && b->a->op == EXTRACT && a->a == b->a->a && a->imm == b->a->imm + b->a->w)
            return concat(extract(a->a, b->a->imm, a->w + b->a->w), b->b);
        // zext(x) high bits: concat(extract(zext..)) handled by extract folding
        if (b->op == ZEXT && isC(a)) { /* const : 0 : x */ return raw(CONCAT, w, 0, 0, concat(a, cst(0, b->w - b->a->w)), b->a, nullptr); }
        return raw(CONCAT, w, 0, 0, a, b, nullptr);
    }
    static bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ || o == FADD || o == FMUL || o == FEQ; }
    E bin(Op op, E a, E b) {
        unsigned w = (op >= EQ && op <= SLE) || (op >= FEQ && op <= FLE) ? 1 : a->w;
        if (isC(a) && isC(b)) return cst(ev(op, w, 0, a->w, a->c, b->c, 0, b->w), w);
        if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
        switch (op) {
            case ADD:
                if (isC(b, 0)) return a;
                if (isC(b) && a->op == ADD && isC(a->b)) return bin(ADD, a->a, cst(a->b->c + b->c, w));
                if (isC(b) && a->op == ITE && (isC(a->b) && isC(a->d))) return ite(a->a, bin(ADD, a->b, b), bin(ADD, a->d, b));
                if (a->op == ADD && isC(a->b)) return bin(ADD, bin(ADD, a->a, b), a->b);
                if (b->op == ADD && isC(b->b)) return bin(ADD, bin(ADD, a, b->a), b->b);
                if (a->op == SUB && a->b == b) return a->a;
                if (b->op == SUB && b->b == a) return b->a;
                break;
            case SUB:
                if (a == b) return cst(0, w);
                if (isC(b)) return bin(ADD, a, cst((u128)0 - b->c, w));
                if (a->op == ADD && isC(a->b)) return bin(ADD, bin(SUB, a->a, b), a->b);
                if (b->op == ADD && isC(b->b)) return bin(ADD, bin(SUB, a, b->a), cst((u128)0 - b->b->c, w));
                if (a->op == ADD && a->a == b) return a->b;
                if (a->op == ADD && a->b == b) return a->a;
                break;
            case MUL:
                if (isC(b, 0)) return b;
                if (isC(b, 1)) return a;
                if (isC(b) && a->op == MUL && isC(a->b)) return bin(MUL, a->a, cst(a->b->c * b->c, w));
                if (isC(b) && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->c) s++; return bin(SHL, a, cst(s, w)); }
                break;
            case UDIV:
                if (isC(b, 1)) return a;
                if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->c) s++; return bin(LSHR, a, cst(s, w)); }
                break;
            case SDIV: if (isC(b, 1)) return a; break;
            case UREM:
                if (isC(b, 1)) return cst(0, w);
                if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(AND, a, cst(b->c - 1, w));
                break;
            case AND:
                if (a == b) return a;
                if (isC(b, 0)) return b;
                if (isC(b, maskw(w))) return a;
                if (isC(b) && a->op == AND && isC(a->b)) return bin(AND, a->a, cst(a->b->c & b->c, w));
                if (w == 1 && a->op == XOR && isC(a->b, 1) && a->a == b) return cst(0, 1);
                if (w == 1 && b->op == XOR && isC(b->b, 1) && b->a == a) return cst(0, 1);
                if (isC(b) && w > 1) {
                    // low mask
                    u128 m = b->c;
                    if ((m & (m + 1)) == 0) { unsigned n = 0; while (n < w && ((m >> n) & 1)) n++;
                        if (umax(a) <= m) return a;
                        return zext(extract(a, 0, n), w); }
                    if (a->op == ZEXT && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
                    if (a->op == ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(AND, a->b, b), bin(AND, a->d, b));
                }
                break;
            case OR:
                if (a == b) return a;
                if (isC(b, 0)) return a;
                if (isC(b, maskw(w))) return b;
                if (w == 1 && a->op == XOR && isC(a->b, 1) && a->a == b) return cst(1, 1);
                if (w == 1 && b->op == XOR && isC(b->b, 1) && b->a == a) return cst(1, 1);
                if (isC(b) && a->op == OR && isC(a->b)) return bin(OR, a->a, cst(a->b->c | b->c, w));
                // (zext x) | (y << k) -> concat
                if (w > 1) {
                    for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b;
                        if (y->op == SHL && isC(y->b) && y->b->c < w && y->b->c > 0) { unsigned k = (unsigned)y->b->c;
                            if (k < 128 && umax(x) <= maskw(k)) return concat(extract(y->a, 0, w - k), extract(x, 0, k)); } 
                        if (y->op == CONCAT && isC(y->b, 0) && umax(x) <= maskw(y->b->w)) return concat(y->a, extract(x, 0, y->b->w)); }
                }
                break;
            case XOR:
                if (a == b) return cst(0, w);
                if (isC(b, 0)) return a;
                if (isC(b) && a->op == XOR && isC(a->b)) return bin(XOR, a->a, cst(a->b->c ^ b->c, w));
                if (w == 1 && isC(b, 1)) {
                    if (a->op == ULT) return bin(ULE, a->b, a->a);
                    if (a->op == ULE) return bin(ULT, a->b, a->a);
                    if (a->op == SLT) return bin(SLE, a->b, a->a);
                    if (a->op == SLE) return bin(SLT, a->b, a->a);
                }
                break;
            case SHL: case LSHR: case ASHR:
                if (isC(b, 0)) return a;
                if (isC(a, 0)) return a;
                if (isC(b) && b->c >= w) return op == ASHR ? bin(ASHR, a, cst(w - 1, w)) : cst(0, w);
                if (isC(b)) {
                    unsigned k = (unsigned)b->c;
                    if (op == LSHR) return zext(extract(a, k, w - k), w);
                    if (op == SHL) return concat(extract(a, 0, w - k), cst(0, k));
                    if (op == ASHR) { if (umax(a) <= maskw(w - 1)) return bin(LSHR, a, b); return sext(extract(a, k, w - k), w); }
                }
                break;
            case EQ:
                if (a == b) return cst(1, 1);
                if (a->w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return not1(a); }
                if (isC(b)) {
                    if (a->op == ZEXT) { if (b->c > maskw(a->a->w)) return cst(0, 1); return bin(EQ, a->a, cst(b->c, a->a->w)); }
                    if (a->op == SEXT) { if ((u128)sextw(b->c & maskw(a->a->w), a->a->w) != (u128)sextw(b->c, w ? a->w : 0)) { return cst(0, 1);} return bin(EQ, a->a, cst(b->c, a->a->w)); }
                    if (a->op == ADD && isC(a->b)) return bin(EQ, a->a, cst(b->c - a->b->c, a->w));
                    if (a->op == XOR && isC(a->b)) return bin(EQ, a->a, cst(b->c ^ a->b->c, a->w));
                    if (a->op == CONCAT) return bin(AND, bin(EQ, a->a, cst(b->c >> a->b->w, a->a->w)), bin(EQ, a->b, cst(b->c, a->b->w)));
                    if (a->op == ITE) {
                        int budget = 400;
                        if (isC(a->b) || isC(a->d)) { 
                            if (iteConstLeaves(a, budget)) {
                                // flatten chain
                                return iteEqConst(a, b);
                            }
                            if (isC(a->b) && a->b != b) return bin(AND, not1(a->a), bin(EQ, a->d, b));
                            if (isC(a->d) && a->d != b) return bin(AND, a->a, bin(EQ, a->b, b));
                        }
                    }
                    if (umax(a) < b->c) return cst(0, 1);
                } else {
                    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
                    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
                    if (a->op == ADD && b->op == ADD && isC(a->b) && isC(b->b) && a->b == b->b) return bin(EQ, a->a, b->a);
                    if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w) return bin(AND, bin(EQ, a->a, b->a), bin(EQ, a->b, b->b));
                }
                break;
            case ULT:
                if (a == b) return cst(0, 1);
                if (isC(b, 0)) return cst(0, 1);
                if (isC(a, maskw(a->w))) return cst(0, 1);
                if (isC(b) && umax(a) < b->c) return cst(1, 1);
                if (isC(a) && umax(b) <= a->c) return cst(0, 1);
                if (isC(b, 1)) return bin(EQ, a, cst(0, a->w));
                if (isC(b) && a->op == ZEXT && b->c <= maskw(a->a->w)) return bin(ULT, a->a, cst(b->c, a->a->w));
                if (isC(a) && b->op == ZEXT && a->c <= maskw(b->a->w)) return bin(ULT, cst(a->c, b->a->w), b->a);
                if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
                if (E r = cmpIte(op, a, b)) return r;
                break;
            case ULE:
                if (a == b) return cst(1, 1);
                if (isC(a, 0)) return cst(1, 1);
                if (isC(b, maskw(b->w))) return cst(1, 1);
                if (isC(b) && umax(a) <= b->c) return cst(1, 1);
                if (isC(a) && umax(b) < a->c) return cst(0, 1);
                if (isC(b) && a->op == ZEXT && b->c <= maskw(a->a->w)) return bin(ULE, a->a, cst(b->c, a->a->w));
                if (isC(a) && b->op == ZEXT && a->c <= maskw(b->a->w)) return bin(ULE, cst(a->c, b->a->w), b->a);
                if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
                if (E r = cmpIte(op, a, b)) return r;
                break;
            case SLT: case SLE:
                if (a == b) return cst(op == SLE, 1);
                {   // both known non-negative -> unsigned
                    u128 h = (u128)1 << (a->w - 1);
                    if (umax(a) < h && umax(b) < h) return bin(op == SLT ? ULT : ULE, a, b);
                    if (isC(b) && umax(a) < h && (b->c & h)) return cst(0, 1);
                    if (isC(a) && umax(b) < h && (a->c & h)) return cst(1, 1);
                }
                if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
                if (a->op == SEXT && isC(b) && (u128)sextw(b->c & maskw(a->a->w), a->a->w) == (u128)sextw(b->c, b->w)) return bin(op, a->a, cst(b->c, a->a->w));
                if (b->op == SEXT && isC(a) && (u128)sextw(a->c & maskw(b->a->w), b->a->w) == (u128)sextw(a->c, a->w)) return bin(op, cst(a->c, b->a->w), b->a);
                if (E r = cmpIte(op, a, b)) return r;
                break;
            default: break;
        }
        return raw(op, w, 0, 0, a, b, nullptr);
    }
    E iteEqConst(E a, E b) {
        if (isC(a)) return cst(a->c == b->c, 1);
        // iterative along else-chain
        std::vector<std::pair<E, E>> ch; E x = a;
        while (x->op == ITE) { ch.push_back({x->a, x->b}); x = x->d; }
        E r = iteEqConst(x, b);
        for (size_t i = ch.size(); i-- > 0;) r = ite(ch[i].first, iteEqConst(ch[i].second, b), r);
        return r;
    }
    E cmpIte(Op op, E a, E b) {
        int budget = 64;
        if (a->op == ITE && isC(b) && iteConstLeaves(a, budget)) return iteCmp(op, a, b, false);
        budget = 64;
        if (b->op == ITE && isC(a) && iteConstLeaves(b, budget)) return iteCmp(op, b, a, true);
        return nullptr;
    }
    E iteCmp(Op op, E a, E b, bool sw) {
        if (isC(a)) return sw ? bin(op, b, a) : bin(op, a, b);
        return ite(a->a, iteCmp(op, a->b, b, sw), iteCmp(op, a->d, b, sw));
    }
    E un(Op op, unsigned w, E a, uint64_t imm = 0) {
        if (isC(a)) return cst(ev(op, w, imm, a->w, a->c, 0, 0, 0), w);
        if (op == FPTOSI && a->op == SITOFP && a->w == 64 && a->a->w <= 32) return w >= a->a->w ? sext(a->a, w) : extract(a->a, 0, w);
        return raw(op, w, imm, 0, a, nullptr, nullptr);
    }
    E fma3(E a, E b, E c) {
        if (isC(a) && isC(b) && isC(c)) return cst(ev(FMA, a->w, 0, a->w, a->c, b->c, c->c, 0), a->w);
        return raw(FMA, a->w, 0, 0, a, b, c);
    }
    const std::vector<uint32_t>& varsOf(E e) {
        if (e->vars) return *e->vars;
        static const std::vector<uint32_t> empty;
        if (e->op == CONST) { e->vars = &empty; return empty; }
        if (e->op == VAR) { e->vars = new std::vector<uint32_t>{(uint32_t)e->imm}; return *e->vars; }
        // iterative post-order to avoid deep recursion
        std::vector<E> st{e};
        while (!st.empty()) {
            E x = st.back();
            if (x->vars) { st.pop_back(); continue; }
            if (x->op == CONST) { x->vars = &empty; st.pop_back(); continue; }
            if (x->op == VAR) { x->vars = new std::vector<uint32_t>{(uint32_t)x->imm}; st.pop_back(); continue; }
            bool ready = true;
            for (E k : {x->a, x->b, x->d}) if (k && !k->vars) { st.push_back(k); ready = false; }
            if (!ready) continue;
            st.pop_back();
            const std::vector<uint32_t>* best = &empty; 
            std::vector<uint32_t> r;
            for (E k : {x->a, x->b, x->d}) if (k) {
                if (k->vars == best || k->vars->empty()) continue;
                if (best->empty()) { best = k->vars; r = *best; continue; }
                std::vector<uint32_t> t; t.reserve(r.size() + k->vars->size());
                std::set_union(r.begin(), r.end(), k->vars->begin(), k->vars->end(), std::back_inserter(t));
                r.swap(t);
            }
            // share when equal to a child's set
            const std::vector<uint32_t>* res = nullptr;
            for (E k : {x->a, x->b, x->d}) if (k && *k->vars == r) { res = k->vars; break; }
            x->vars = res ? res : new std::vector<uint32_t>(r);
        }
        return *e->vars;
    }
    std::string str(E e, int depth = 6) {
        char buf[64];
        if (e->op == CONST) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return buf; }
        if (e->op == VAR) return vars[e->imm].name;
        if (!depth) return "...";
        std::string s = std::string("(") + opNames[e->op];
        if (e->op == EXTRACT) s += "[" + std::to_string(e->imm) + "+" + std::to_string(e->w) + "]";
        if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
        for (E k : {e->a, e->b, e->d}) if (k) s += " " + str(k, depth - 1);
        return s + ")";
    }
};
