// Executes the C and C++ text docc's code generators emit for a structured SDFG: a small interpreter for the subset they use, written from the C language rules.
// Memory, uninterpreted floating-point operations and the model of external calls are shared with sdfgev.h.
#pragma once
#include "sdfgev.h"
namespace crun {
using sdfgev::Stop; using sdfgev::conc; using sdfgev::mix; using sdfgev::strhash; using symev::ite; namespace types = sdfg::types; using Code = sdfg::data_flow::TaskletCode;
struct Ty; struct Nd; using TyP = std::shared_ptr<Ty>; using NdP = std::shared_ptr<Nd>;
struct Ty { enum K { Void, Int, Flt, Ptr, Arr, Rec, Fn } k = Void; int bits = 0; bool sg = true, boolean = false; TyP sub; NdP count; std::string name; std::vector<TyP> params; bool var = false; };
struct Nd { std::string op; std::vector<NdP> a; std::string s; int64_t v = 0; TyP t; std::vector<std::pair<std::string, TyP>> decl; };
inline TyP mk(Ty::K k, int bits = 0, bool sg = true) { auto t = std::make_shared<Ty>(); t->k = k; t->bits = bits; t->sg = sg; return t; }
inline TyP ptr(TyP s) { auto t = mk(Ty::Ptr, 64, false); t->sub = s; return t; }
inline NdP nd(const std::string& op, std::vector<NdP> a = {}) { auto n = std::make_shared<Nd>(); n->op = op; n->a = std::move(a); return n; }
struct Rec { std::vector<std::pair<std::string, TyP>> m; bool packed = false; };
struct Unit { bool cpp = false; std::map<std::string, Rec> recs; std::map<std::string, TyP> globals, fns; std::string fname; TyP ret; std::vector<std::pair<std::string, TyP>> params; NdP body; };
// ---- parsing ----
struct Parser {
    Unit& u; std::vector<std::string> k; size_t p = 0; // tokens
    Parser(Unit& x, const std::string& s) : u(x) { lex(s); }
    void lex(const std::string& s) { size_t i = 0; auto id = [](char c) { return isalnum((unsigned char)c) || c == '_'; }; while (i < s.size()) { char c = s[i]; if (isspace((unsigned char)c)) { i++; continue; } if (c == '/' && i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') i++; continue; } if (c == '#') { while (i < s.size() && s[i] != '\n') i++; continue; }
        if (c == '"') { size_t j = i + 1; while (j < s.size() && s[j] != '"') j++; k.push_back(s.substr(i, j + 1 - i)); i = j + 1; continue; }
        if (isdigit((unsigned char)c) || (c == '.' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]))) { size_t j = i; while (j < s.size() && (id(s[j]) || s[j] == '.' || ((s[j] == '-' || s[j] == '+') && (s[j - 1] == 'e' || s[j - 1] == 'E')))) j++; k.push_back(s.substr(i, j - i)); i = j; continue; }
        if (id(c)) { size_t j = i; while (j < s.size() && id(s[j])) j++; std::string w = s.substr(i, j - i); i = j; if (w == "std" && s.compare(i, 2, "::") == 0) { i += 2; continue; } k.push_back(w); continue; }
        static const char* two[] = {"<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "->", "::"}; bool hit = false; for (auto t : two) if (s.compare(i, 2, t) == 0) { k.push_back(t); i += 2; hit = true; break; } if (!hit) { k.push_back(std::string(1, c)); i++; } } }
    bool end() const { return p >= k.size(); } const std::string& cur() const { static const std::string e; return end() ? e : k[p]; } const std::string& look(size_t d) const { static const std::string e; return p + d < k.size() ? k[p + d] : e; }
    bool at(const char* s) const { return cur() == s; } bool eat(const char* s) { if (!at(s)) return false; p++; return true; } void need(const char* s) { if (!eat(s)) throw Stop{"the generated code does not parse"}; }
    bool isbase(const std::string& w) const { static const std::set<std::string> b{"void", "bool", "signed", "unsigned", "char", "short", "int", "long", "float", "double", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "uintptr_t", "size_t", "struct", "const"}; return b.count(w) || u.recs.count(w); }
    void attr() { while (eat("__attribute__")) { int d = 0; do { if (at("(")) d++; if (at(")")) d--; p++; } while (d && !end()); } }
    TyP base() {
        int lng = 0; bool un = false, sg = false, sh = false, ch = false, in = false, any = false;
        for (;;) { const std::string& w = cur(); if (w == "const" || w == "struct") { p++; continue; } if (w == "unsigned") un = true; else if (w == "signed") sg = true; else if (w == "short") sh = true; else if (w == "char") ch = true; else if (w == "int") in = true; else if (w == "long") lng++; else break; p++; any = true; }
        if (any) { if (eat("double")) throw Stop{"type without a model"}; (void)in; int b = ch ? 8 : sh ? 16 : lng ? 64 : 32; (void)sg; return mk(Ty::Int, b, !un); } // plain char is signed on the targets docc supports
        std::string w = cur(); p++; if (w == "void") return mk(Ty::Void); if (w == "bool") { auto t = mk(Ty::Int, 8, false); t->boolean = true; return t; } if (w == "float") return mk(Ty::Flt, 32); if (w == "double") return mk(Ty::Flt, 64);
        if (w == "size_t" || w == "uintptr_t") return mk(Ty::Int, 64, false); if (w.compare(0, 3, "int") == 0 && w.size() > 4) return mk(Ty::Int, atoi(w.c_str() + 3), true); if (w.compare(0, 4, "uint") == 0) return mk(Ty::Int, atoi(w.c_str() + 4), false);
        if (u.recs.count(w)) { auto t = mk(Ty::Rec); t->name = w; return t; } throw Stop{"the generated code does not parse"};
    }
    // declarator: the type wraps inside out
    TyP declarator(TyP t, std::string& name) {
        while (eat("*")) t = ptr(t); if (eat("&")) throw Stop{"references have no model"}; attr();
        if (at("(") && (look(1) == "*" || look(1) == "(")) { p++; size_t inner = p; int d = 1; while (d) { if (end()) throw Stop{"the generated code does not parse"}; if (at("(")) d++; if (at(")")) d--; p++; } t = suffix(t); size_t after = p; p = inner; t = declarator(t, name); need(")"); p = after; return t; }
        if (!end() && (isalpha((unsigned char)cur()[0]) || cur()[0] == '_') && !isbase(cur())) { name = cur(); p++; } return suffix(t);
    }
    TyP suffix(TyP t) {
        if (at("[")) { p++; NdP n = expr(); need("]"); t = suffix(t); auto a = mk(Ty::Arr); a->sub = t; a->count = n; return a; }
        if (at("(")) { p++; auto f = mk(Ty::Fn); f->sub = t; if (at("void") && look(1) == ")") p++; while (!at(")")) { if (at(".")) { need("."); need("."); need("."); f->var = true; } else { std::string nm; TyP b = base(); f->params.push_back(declarator(b, nm)); f->count = nullptr; names.push_back(nm); } if (!eat(",")) break; } need(")"); return f; }
        attr(); return t;
    }
    std::vector<std::string> names; // parameter names of the last function declarator
    TyP typename_() { std::string n; TyP t = base(); t = declarator(t, n); return t; }
    bool typeat(size_t d) const { return isbase(look(d)); }
    // expressions
    static int lev(const std::string& o) { static const std::map<std::string, int> m{{"||", 1}, {"&&", 2}, {"|", 3}, {"^", 4}, {"&", 5}, {"==", 6}, {"!=", 6}, {"<", 7}, {">", 7}, {"<=", 7}, {">=", 7}, {"<<", 8}, {">>", 8}, {"+", 9}, {"-", 9}, {"*", 10}, {"/", 10}, {"%", 10}}; auto i = m.find(o); return i == m.end() ? 0 : i->second; }
    NdP expr() { NdP c = cond(); if (eat("=")) return nd("=", {c, expr()}); return c; }
    NdP cond() { NdP c = bin(1); if (eat("?")) { NdP t = expr(); need(":"); NdP e = cond(); return nd("?", {c, t, e}); } return c; }
    int noangle = 0;
    NdP bin(int l) { NdP a = unary(); for (;;) { std::string o = cur(); int q = lev(o); if (q < l || q == 0) return a; p++; NdP b = bin(q + 1); a = nd(o, {a, b}); } }
    NdP unary() {
        if (at("-") || at("!") || at("*") || at("&") || at("~") || at("+")) { std::string o = cur(); p++; return nd("u" + o, {unary()}); }
        if (at("sizeof")) { p++; if (at("(") && typeat(1)) { p++; NdP n = nd("sizeof"); n->t = typename_(); need(")"); return n; } return nd("sizeofe", {unary()}); }
        if (at("(") && typeat(1)) { p++; NdP n = nd("cast"); n->t = typename_(); need(")"); n->a.push_back(unary()); return n; }
        return postfix();
    }
    NdP postfix() {
        NdP e;
        if (eat("(")) { e = expr(); need(")"); }
        else if (at("reinterpret_cast") || at("static_cast")) { std::string w = cur(); p++; need("<"); e = nd(w == "static_cast" ? "cast" : "rcast"); e->t = typename_(); need(">"); need("("); e->a.push_back(expr()); need(")"); }
        else if (at("NULL") || at("nullptr")) { p++; e = nd("null"); }
        else if (at("true") || at("false")) { e = nd("num"); e->v = at("true"); e->t = mk(Ty::Int, 32); p++; }
        else if (!end() && isdigit((unsigned char)cur()[0])) e = number(cur()), p++;
        else if (!end() && (isalpha((unsigned char)cur()[0]) || cur()[0] == '_')) { e = nd("id"); e->s = cur(); p++; }
        else throw Stop{"the generated code does not parse"};
        for (;;) { if (eat("[")) { NdP i = expr(); need("]"); e = nd("[]", {e, i}); } else if (eat(".")) { NdP m = nd(".", {e}); m->s = cur(); p++; e = m; } else if (at("(")) { p++; NdP c = nd("call", {e}); while (!at(")")) { c->a.push_back(expr()); if (!eat(",")) break; } need(")"); e = c; } else return e; }
    }
    NdP number(const std::string& s) {
        bool hex = s.size() > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'); bool f = !hex && s.find_first_of(".eE") != std::string::npos; NdP n = nd(f ? "flt" : "num"); n->s = s;
        if (f) { double d = strtod(s.c_str(), nullptr); memcpy(&n->v, &d, 8); n->t = mk(Ty::Flt, s.back() == 'f' ? 32 : 64); return n; }
        bool un = s.find_first_of("uU") != std::string::npos, l = s.find_first_of("lL") != std::string::npos; uint64_t v = strtoull(s.c_str(), nullptr, 0); n->v = (int64_t)v; bool wide = l || v > (un ? 0xffffffffull : 0x7fffffffull); n->t = mk(Ty::Int, wide ? 64 : 32, !un && !(v >> 63)); return n;
    }
    // statements
    NdP stmt() {
        if (eat("{")) { NdP b = nd("block"); while (!at("}")) { if (end()) throw Stop{"the generated code does not parse"}; b->a.push_back(stmt()); } p++; return b; } if (eat(";")) return nd("block");
        if (eat("if")) { need("("); NdP c = expr(); need(")"); NdP t = stmt(); NdP n = nd("if", {c, t}); if (eat("else")) n->a.push_back(stmt()); return n; }
        if (eat("for")) { need("("); NdP i = at(";") ? nd("block") : expr(); need(";"); NdP c = expr(); need(";"); NdP s = expr(); need(")"); return nd("for", {i, c, s, stmt()}); }
        if (eat("while")) { need("("); NdP c = expr(); need(")"); return nd("for", {nd("none"), c, nd("none"), stmt()}); }
        if (eat("break")) { need(";"); return nd("break"); } if (eat("continue")) { need(";"); return nd("continue"); } if (eat("return")) { NdP r = nd("return"); if (!at(";")) r->a.push_back(expr()); need(";"); return r; }
        if (isbase(cur())) { NdP d = nd("decl"); std::string n; TyP b = base(); TyP t = declarator(b, n); attr(); d->decl.push_back({n, t}); if (eat("=")) d->a.push_back(expr()); need(";"); return d; }
        NdP e = expr(); need(";"); return nd("expr", {e});
    }
    NdP body() { NdP b = nd("block"); while (!end()) b->a.push_back(stmt()); return b; }
    void records() { // classes
        while (!end()) { bool td = eat("typedef"); need("struct"); bool packed = false; if (at("__attribute__")) { packed = look(4) == "packed" || look(3) == "packed"; attr(); } std::string n = cur(); p++; u.recs[n]; if (!at("{")) { if (td) p++; need(";"); continue; } p++; Rec r; r.packed = packed; while (!at("}")) { std::string m; TyP t = base(); t = declarator(t, m); attr(); need(";"); r.m.push_back({m, t}); } p++; if (td) p++; need(";"); u.recs[n] = r; }
    }
    void globals() { while (!end()) { if (eat("extern")) { if (!end() && cur()[0] == '"') p++; } else eat("static"); std::string n; TyP t = base(); t = declarator(t, n); attr(); if (eat("=")) (void)expr(); need(";"); if (t->k == Ty::Fn) u.fns[n] = t; else u.globals[n] = t; } }
    void header() { need("extern"); if (!end() && cur()[0] == '"') p++; std::string n; TyP b = base(); names.clear(); TyP t = declarator(b, n); if (t->k != Ty::Fn) throw Stop{"the generated code does not parse"}; u.fname = n; u.ret = t->sub; for (size_t i = 0; i < t->params.size(); i++) u.params.push_back({i < names.size() ? names[i] : "", t->params[i]}); }
};
inline Unit parse(bool cpp, const std::string& classes, const std::string& globals, const std::string& header, const std::string& body) { Unit u; u.cpp = cpp; Parser(u, classes).records(); Parser(u, globals).globals(); Parser(u, header).header(); u.body = Parser(u, body).body(); return u; }
// ---- execution ----
struct Val { int64_t v = 0; TyP t; bool undef = false, lit = false; };
enum Flow { NEXT, BRK, CONT, RET };
struct Run {
    const Unit& u; sdfgev::Machine m; int fuel; // m: memory only
    struct Var { int o; TyP t; }; std::vector<std::map<std::string, Var>> env;
    TyP i32 = mk(Ty::Int, 32), u32 = mk(Ty::Int, 32, false), i64 = mk(Ty::Int, 64), u64 = mk(Ty::Int, 64, false), dbl = mk(Ty::Flt, 64), voidp = ptr(mk(Ty::Void));
    Run(const Unit& x, const sdfg::StructuredSDFG& f, int fl = 800) : u(x), m(f), fuel(fl) {}
    static types::PrimitiveType prim(const Ty& t) { if (t.boolean) return types::Bool; if (t.k == Ty::Flt) return t.bits == 32 ? types::Float : types::Double; switch (t.bits) { case 8: return t.sg ? types::Int8 : types::UInt8; case 16: return t.sg ? types::Int16 : types::UInt16; case 32: return t.sg ? types::Int32 : types::UInt32; default: return t.sg ? types::Int64 : types::UInt64; } }
    int64_t size(const Ty& t) { switch (t.k) { case Ty::Int: case Ty::Flt: return t.bits / 8; case Ty::Ptr: return 8; case Ty::Arr: { Val n = rv(t.count); return (int64_t)conc((uint64_t)n.v) * size(*t.sub); } case Ty::Rec: { int64_t al; return member(t, "", al, nullptr); } default: throw Stop{"type without a size"}; } }
    int64_t align(const Ty& t) { if (t.k == Ty::Arr) return align(*t.sub); if (t.k == Ty::Rec) { int64_t al; member(t, "", al, nullptr); return al; } return size(t); }
    int64_t member(const Ty& t, const std::string& n, int64_t& al, TyP* mt) { auto& r = u.recs.at(t.name); int64_t off = 0; al = 1; for (auto& [mn, ty] : r.m) { int64_t a = r.packed ? 1 : align(*ty); if (a > al) al = a; off = (off + a - 1) / a * a; if (mn == n) { if (mt) *mt = ty; return off; } off += size(*ty); } if (!n.empty()) throw Stop{"unknown member"}; return (off + al - 1) / al * al; }
    int gran(const Ty& t) { if (t.k == Ty::Arr) return gran(*t.sub); if (t.k == Ty::Rec || t.k == Ty::Void || t.k == Ty::Fn) return 1; return (int)size(t); }
    Var* find(const std::string& n) { for (size_t i = env.size(); i-- > 0;) { auto k = env[i].find(n); if (k != env[i].end()) return &k->second; } return nullptr; }
    static bool arith(const Ty& t) { return t.k == Ty::Int || t.k == Ty::Flt; }
    Val load(int64_t a, TyP t) { if (t->k == Ty::Arr) return {a, ptr(t->sub)}; if (t->k == Ty::Rec) return {a, t}; int n = (int)size(*t); if (!m.set(a, n)) { int64_t off; auto& o = m.at(a, n, off); if (off % o.gran == 0 && o.c[(size_t)(off / o.gran)].st == 0) { Val v; v.t = t; v.undef = true; return v; } } return {m.load(a, n), t}; }
    int64_t use(const Val& v) { if (v.undef) throw Stop{"use of an unset value"}; return v.v; }
    Val conv(Val x, TyP t, bool expl = false) {
        if (t->k == Ty::Void) return {0, t}; if (x.undef) { x.t = t; return x; } Val r; r.t = t;
        if (t->k == Ty::Rec) { if (x.t->k != Ty::Rec || x.t->name != t->name) throw Stop{"ill-typed assignment"}; return x; }
        if (t->k == Ty::Ptr) { if (x.t->k == Ty::Ptr) { r.v = x.v; return r; } if (x.t->k == Ty::Int) { if (!expl && !(x.lit && x.v == 0)) throw Stop{"an integer becomes a pointer"}; r.v = x.v; return r; } throw Stop{"ill-typed conversion"}; }
        if (x.t->k == Ty::Ptr) { if (!expl && !t->boolean) throw Stop{"a pointer becomes a number"}; r.v = t->boolean ? ite(x.v != 0, 1, 0) : sdfgev::wrap(x.v, prim(*t)); return r; }
        if (!arith(*x.t) || !arith(*t)) throw Stop{"ill-typed conversion"};
        if (x.lit && t->k == Ty::Flt) { if (x.t->k == Ty::Flt) { r.v = x.v; r.lit = true; return r; } double d = (double)(int64_t)x.v; memcpy(&r.v, &d, 8); r.lit = true; return r; }
        if (x.lit && x.t->k == Ty::Flt) { double d; memcpy(&d, &x.v, 8); r.v = sdfgev::wrap((int64_t)d, prim(*t)); return r; }
        r.v = t->k == Ty::Int && x.t->k == Ty::Int ? sdfgev::wrap(x.v, prim(*t)) : sdfgev::Machine::convert(x.v, prim(*x.t), prim(*t)); r.lit = x.lit && t->k == Ty::Int; return r;
    }
    static bool same(const Ty& a, const Ty& b) { if (a.k != b.k) return false; if (a.k == Ty::Ptr || a.k == Ty::Arr) return same(*a.sub, *b.sub); if (a.k == Ty::Rec) return a.name == b.name; if (a.k == Ty::Fn) return true; return a.bits == b.bits && a.sg == b.sg && a.boolean == b.boolean; }
    Val decay(Val v) { return v; }
    // lvalues
    struct LV { int64_t a; TyP t; };
    LV lv(const NdP& e) {
        if (e->op == "id") { if (Var* v = find(e->s)) return {sdfgev::Machine::addr(v->o), v->t}; throw Stop{"undeclared name in the generated code"}; }
        if (e->op == "[]") { Val b = rv(e->a[0]), i = rv(e->a[1]); if (b.t->k != Ty::Ptr) throw Stop{"ill-typed subscript"}; if (b.t->sub->k == Ty::Void) throw Stop{"access through a void pointer"}; if (i.t->k != Ty::Int) throw Stop{"ill-typed subscript"}; return {use(b) + use(i) * size(*b.t->sub), b.t->sub}; }
        if (e->op == ".") { LV b = lv(e->a[0]); if (b.t->k != Ty::Rec) throw Stop{"ill-typed member access"}; int64_t al; TyP t; int64_t o = member(*b.t, e->s, al, &t); return {b.a + o, t}; }
        if (e->op == "u*") { Val p = rv(e->a[0]); if (p.t->k != Ty::Ptr || p.t->sub->k == Ty::Void) throw Stop{"access through a void pointer"}; return {use(p), p.t->sub}; }
        throw Stop{"not an lvalue"};
    }
    Val put(LV l, Val x) { Val r = conv(x, l.t); int n = (int)size(*l.t); if (l.t->k == Ty::Rec) { m.bytes(l.a, x.v, n); return r; } if (l.t->k == Ty::Arr) throw Stop{"assignment to an array"}; if (r.undef) m.unset(l.a, n); else m.store(l.a, n, r.v); return r; }
    TyP promote(TyP t) { return t->bits < 32 || t->boolean ? i32 : t; }
    TyP usual(TyP a, TyP b) { if (a->k == Ty::Flt || b->k == Ty::Flt) { if (a->k != Ty::Flt) return b; if (b->k != Ty::Flt) return a; return a->bits >= b->bits ? a : b; } a = promote(a); b = promote(b); if (a->bits == b->bits) return a->sg ? b : a; return a->bits > b->bits ? a : b; }
    bool truth(Val v) { use(v); if (v.t->k == Ty::Flt) throw Stop{"floating-point condition"}; return v.v != 0; }
    Val B(bool b) { return {ite(b, 1, 0), i32}; }
    void over(bool o) { m.ub = m.ub | o; }
    Val binop(const std::string& o, Val a, Val b) {
        use(a); use(b);
        if (a.t->k == Ty::Ptr || b.t->k == Ty::Ptr) { bool cmp = o == "==" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">="; if (!cmp && (o == "+" || o == "-") && a.t->k == Ty::Ptr && b.t->k == Ty::Int) return {a.v + (o == "+" ? b.v : -b.v) * size(*a.t->sub), a.t}; if (!cmp || a.t->k == Ty::Int || b.t->k == Ty::Int) throw Stop{"ill-typed operation on a pointer"}; uint64_t x = (uint64_t)a.v, y = (uint64_t)b.v; return B(o == "==" ? x == y : o == "!=" ? x != y : o == "<" ? x < y : o == ">" ? x > y : o == "<=" ? x <= y : x >= y); }
        bool shift = o == "<<" || o == ">>"; TyP t = shift ? promote(a.t) : usual(a.t, b.t);
        if (t->k == Ty::Flt) { int64_t x = conv(a, t).v, y = conv(b, t).v; auto op = [](Code c) { return 100 + (uint64_t)c; }; if (o == "+") return {mix(op(Code::fp_add), {x, y}, true), t}; if (o == "-") return {mix(op(Code::fp_sub), {x, y}), t}; if (o == "*") return {mix(op(Code::fp_mul), {x, y}, true), t}; if (o == "/") return {mix(op(Code::fp_div), {x, y}), t};
            if (o == "<") return B(sdfgev::fcmp(Code::fp_olt, x, y)); if (o == ">") return B(sdfgev::fcmp(Code::fp_ogt, x, y)); if (o == "<=") return B(sdfgev::fcmp(Code::fp_ole, x, y)); if (o == ">=") return B(sdfgev::fcmp(Code::fp_oge, x, y)); if (o == "==") return B(sdfgev::fcmp(Code::fp_oeq, x, y)); if (o == "!=") return B(sdfgev::fcmp(Code::fp_une, x, y)); throw Stop{"ill-typed operation"}; }
        int64_t x = sdfgev::wrap(a.v, prim(*t)), y = shift ? b.v : sdfgev::wrap(b.v, prim(*t)), r = 0; uint64_t ux = (uint64_t)x, uy = (uint64_t)y; int w = t->bits; bool s = t->sg; auto chk = [&](int64_t q) { return w < 64 && s && (q < -(1ll << (w - 1)) || q > (1ll << (w - 1)) - 1); };
        if (o == "+") { if (s && w == 64) over(__builtin_add_overflow(x, y, &r)); else { r = (int64_t)(ux + uy); over(chk(r)); } } else if (o == "-") { if (s && w == 64) over(__builtin_sub_overflow(x, y, &r)); else { r = (int64_t)(ux - uy); over(chk(r)); } } else if (o == "*") { if (s && w == 64) over(__builtin_mul_overflow(x, y, &r)); else { r = (int64_t)(ux * uy); over(chk(r)); } }
        else if (o == "/" || o == "%") { if (y == 0) throw Stop{"division by zero"}; if (s) { if (y == -1 && x == (int64_t)(0xffffffffffffffffull << (w - 1)) && (w == 64 || o == "%")) throw Stop{"division overflow"}; r = o == "/" ? x / y : x % y; over(chk(r)); } else r = (int64_t)(o == "/" ? ux / uy : ux % uy); }
        else if (o == "&") r = x & y; else if (o == "|") r = x | y; else if (o == "^") r = x ^ y; else if (shift) { if (uy >= (uint64_t)w) throw Stop{"shift amount"}; r = o == "<<" ? (int64_t)(ux << uy) : s ? x >> uy : (int64_t)(ux >> uy); }
        else if (o == "==") return B(x == y); else if (o == "!=") return B(x != y); else { auto lt = [&](int64_t p, int64_t q) { return s ? p < q : (uint64_t)p < (uint64_t)q; }; return B(o == "<" ? lt(x, y) : o == ">" ? lt(y, x) : o == "<=" ? !lt(y, x) : !lt(x, y)); }
        return {sdfgev::wrap(r, prim(*t)), t};
    }
    Val rv(const NdP& e) {
        const std::string& o = e->op;
        if (o == "num" || o == "flt") { Val v{e->v, e->t}; v.lit = true; return v; } if (o == "null") { Val v{0, voidp}; v.lit = true; return v; }
        if (o == "id" && !find(e->s) && u.fns.count(e->s)) return {(int64_t)strhash(e->s), ptr(u.fns.at(e->s))};
        if (o == "id" || o == "[]" || o == "." || o == "u*") { LV l = lv(e); return load(l.a, l.t); }
        if (o == "=") { Val x = rv(e->a[1]); return put(lv(e->a[0]), x); }
        if (o == "cast") return conv(rv(e->a[0]), e->t, true);
        if (o == "rcast") { Val x = rv(e->a[0]); if (x.t->k != Ty::Ptr && e->t->k != Ty::Ptr && !same(*x.t, *e->t)) throw Stop{"ill-typed reinterpret_cast"}; return conv(x, e->t, true); }
        if (o == "sizeof") return {size(*e->t), u64}; if (o == "sizeofe") { if (e->a[0]->op == "id") return {size(*lv(e->a[0]).t), u64}; throw Stop{"sizeof of an expression"}; }
        if (o == "u&") { LV l = lv(e->a[0]); return {l.a, ptr(l.t)}; }
        if (o == "u-") { Val x = rv(e->a[0]); use(x); if (x.t->k == Ty::Flt) { if (x.lit) { double d; memcpy(&d, &x.v, 8); d = -d; memcpy(&x.v, &d, 8); return x; } return {mix(100 + (uint64_t)Code::fp_neg, {x.v}), x.t}; } Val r = binop("-", {0, promote(x.t)}, x); r.lit = x.lit; return r; }
        if (o == "u!") return B(!truth(rv(e->a[0]))); if (o == "u~") { Val x = rv(e->a[0]); TyP t = promote(x.t); return {sdfgev::wrap(~use(x), prim(*t)), t}; } if (o == "u+") return rv(e->a[0]);
        if (o == "&&") { if (!truth(rv(e->a[0]))) return B(false); return B(truth(rv(e->a[1]))); } if (o == "||") { if (truth(rv(e->a[0]))) return B(true); return B(truth(rv(e->a[1]))); }
        if (o == "?") { Val c = rv(e->a[0]); return truth(c) ? common(e->a[1], e->a[2]) : common(e->a[2], e->a[1]); }
        if (o == "call") return call(e);
        if (o == "none") return {1, i32}; return binop(o, rv(e->a[0]), rv(e->a[1]));
    }
    TyP typeof_(const NdP& e) { // static type, for the arms of ?: only
        const std::string& o = e->op; if (e->t && (o == "num" || o == "flt" || o == "cast" || o == "rcast")) return e->t; if (o == "id") { if (Var* v = find(e->s)) return v->t->k == Ty::Arr ? ptr(v->t->sub) : v->t; } if (o == "sizeof") return u64; if (o == "?") { TyP a = typeof_(e->a[1]), b = typeof_(e->a[2]); return arith(*a) && arith(*b) ? usual(a, b) : a; } if (o == "u-") { TyP t = typeof_(e->a[0]); return t->k == Ty::Flt ? t : promote(t); } if (o == "[]" || o == "u*") { TyP t = typeof_(e->a[0]); return t->sub ? t->sub : i32; }
        if (o == "+" || o == "-" || o == "*" || o == "/" || o == "%" || o == "&" || o == "|" || o == "^") { TyP a = typeof_(e->a[0]), b = typeof_(e->a[1]); return arith(*a) && arith(*b) ? usual(a, b) : a->k == Ty::Ptr ? a : b; } if (o == "call") { auto& n = e->a[0]->s; if ((n == "__daisy_min" || n == "__daisy_max") && e->a.size() == 3) return usual(typeof_(e->a[1]), typeof_(e->a[2])); } return i32;
    }
    Val common(const NdP& x, const NdP& other) { Val v = rv(x); TyP t = typeof_(other); if (arith(*v.t) && arith(*t)) return conv(v, usual(v.t, t)); return v; }
    Val mm(const NdP& a, const NdP& b, bool mn) { bool t = truth(binop(mn ? "<" : ">", rv(a), rv(b))); return t ? common(a, b) : common(b, a); } // the macro evaluates its arguments twice; they have no effects
    Val heap(int64_t n, bool zero, bool free, int g) { int o = m.alloc("heap", (int64_t)conc((uint64_t)n), g); m.objs[(size_t)o].heap = free; m.objs[(size_t)o].shared = true; if (zero) for (auto& c : m.objs[(size_t)o].c) c = {0, (uint8_t)m.objs[(size_t)o].gran, 1}; return {sdfgev::Machine::addr(o), voidp}; }
    static const std::map<std::string, int>& cmath() { static const std::map<std::string, int> t = [] { std::map<std::string, int> r; int i = 0; for (auto n : {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp10", "expm1", "log", "log10", "log2", "log1p", "pow", "sqrt", "cbrt", "hypot", "erf", "erfc", "tgamma", "lgamma", "fabs", "ceil", "floor", "trunc", "round", "lround", "llround", "roundeven", "nearbyint", "rint", "lrint", "llrint", "fmod", "remainder", "frexp", "ldexp", "modf", "scalbn", "scalbln", "ilogb", "logb", "nextafter", "nexttoward", "copysign", "fmax", "fmin", "fdim", "fma"}) r[n] = i++; return r; }(); return t; }
    int heapgran = 1; // size of the elements the allocated memory is about to hold
    Val call(const NdP& e) {
        if (e->a[0]->op != "id") throw Stop{"indirect call"}; const std::string& n = e->a[0]->s; auto arg = [&](size_t i) { if (i + 1 >= e->a.size()) throw Stop{"too few arguments"}; return rv(e->a[i + 1]); }; auto iarg = [&](size_t i) { Val v = conv(arg(i), u64); return use(v); };
        if (n == "__daisy_min" || n == "__daisy_max") return mm(e->a[1], e->a[2], n == "__daisy_min");
        if (n == "__daisy_sym_pow") { int64_t b = use(conv(arg(0), i32)), k = use(conv(arg(1), i32)), r = 1; if (k < 0) return {0, i32}; k = (int64_t)conc((uint64_t)k); while (k--) { r = r * b; over(r < -(1ll << 31) || r > (1ll << 31) - 1); } return {sdfgev::wrap(r, types::Int32), i32}; } // rtl/include/daisy_rtl/daisy_rtl.h
        if (n == "isnan") { Val x = arg(0); if (x.t->k != Ty::Flt) throw Stop{"isnan of an integer"}; return B(sdfgev::fnan(use(x))); }
        if (n == "malloc") return heap(iarg(0), false, true, heapgran); if (n == "alloca") return heap(iarg(0), false, false, heapgran); if (n == "calloc") { int64_t a = iarg(0), b = iarg(1); return heap(a * b, true, true, heapgran); }
        if (n == "free") { int64_t p = (int64_t)conc((uint64_t)use(arg(0))); if (p) { int64_t off; auto& o = m.at(p, 0, off); if (off || !o.heap) throw Stop{"free of something else"}; o.alive = false; } return {0, mk(Ty::Void)}; }
        if (n == "memcpy" || n == "memmove") { Val d = arg(0), s = arg(1); if (d.t->k != Ty::Ptr || s.t->k != Ty::Ptr) throw Stop{"ill-typed memcpy"}; int64_t k = (int64_t)conc((uint64_t)iarg(2)); if (k) m.bytes(use(d), use(s), k); return d; }
        if (n == "memset") { Val d = arg(0); int64_t v = use(conv(arg(1), i32)) & 255, k = (int64_t)conc((uint64_t)iarg(2)), off; if (!k) return d; auto& o = m.at(use(d), k, off); int64_t w = (int64_t)((uint64_t)v * 0x0101010101010101ull); for (int64_t i = 0; i < k; i += o.gran) m.store(d.v + i, o.gran, o.gran == 8 ? w : o.gran == 4 ? (int32_t)w : o.gran == 2 ? (int16_t)w : (int8_t)w); return d; }
        auto f = u.fns.find(n);
        if (f == u.fns.end()) { // math library
            bool fl = false; auto c = cmath().find(n); if ((n == "fmod" || n == "fmodf") && e->a.size() == 3) { Val a = arg(0), b = arg(1); return {mix(100 + (uint64_t)Code::fp_rem, {use(a), use(b)}), a.t->bits >= b.t->bits ? a.t : b.t}; }
            if (c == cmath().end() && n.size() > 1 && n.back() == 'f') { fl = true; c = cmath().find(n.substr(0, n.size() - 1)); } if (c == cmath().end()) throw Stop{"call of an undeclared function"};
            TyP t = mk(Ty::Flt, fl ? 32 : 64); int64_t r = mix(300 + (uint64_t)c->second, {17}); for (size_t i = 1; i < e->a.size(); i++) r = mix(320 + (uint64_t)(i - 1), {r, use(conv(arg(i - 1), t))}); std::string st = c->first; if (st == "lround" || st == "llround" || st == "lrint" || st == "llrint") t = mk(Ty::Int, 64, true); return {r, t};
        }
        auto& ft = *f->second; uint64_t h = strhash(n); m.trace.push_back((int64_t)h); int64_t r = mix(h & 0xffff, {(int64_t)m.trace.size()}); int idx = 0; if (e->a.size() - 1 < ft.params.size() || (e->a.size() - 1 > ft.params.size() && !ft.var)) throw Stop{"wrong number of arguments"};
        for (size_t i = 1; i < e->a.size(); i++) { idx++; Val x = rv(e->a[i]); if (i - 1 < ft.params.size()) x = conv(x, ft.params[i - 1]); int64_t v = use(x); if (x.t->k == Ty::Ptr) { v = (int64_t)conc((uint64_t)v); if (v) { int64_t off; auto& o = m.at(v, 0, off); m.trace.push_back(off); for (auto& c : o.c) if (c.st == 1) { m.trace.push_back(c.v); r = mix(7, {r, c.v}); c.v = mix(11 + (uint64_t)idx, {c.v, (int64_t)h}); if (c.size < 8) c.v = c.size == 4 ? (int32_t)c.v : c.size == 2 ? (int16_t)c.v : (int8_t)c.v; } continue; } } m.trace.push_back(v); r = mix(5, {r, v}); }
        if (ft.sub->k == Ty::Void) return {0, ft.sub}; return {arith(*ft.sub) ? sdfgev::wrap(r, prim(*ft.sub)) : r, ft.sub};
    }
    // statements
    void declare(const std::string& n, TyP t) { int64_t s = size(*t); int o = m.alloc(n, s, gran(*t)); env.back()[n] = {o, t}; }
    Flow run(const NdP& s) {
        const std::string& o = s->op; if (--fuel <= 0) throw Stop{"does not terminate"};
        if (o == "block") { env.emplace_back(); Flow w = NEXT; for (auto& x : s->a) { w = run(x); if (w != NEXT) break; } env.pop_back(); return w; }
        if (o == "decl") { auto& [n, t] = s->decl[0]; declare(n, t); if (!s->a.empty()) { heapgran = t->k == Ty::Ptr ? gran(*t->sub) : 1; Val x = rv(s->a[0]); Var* v = find(n); put({sdfgev::Machine::addr(v->o), v->t}, x); } return NEXT; }
        if (o == "expr") { auto& e = s->a[0]; if (e->op == "=" && e->a[0]->op == "id") if (Var* v = find(e->a[0]->s)) heapgran = v->t->k == Ty::Ptr ? gran(*v->t->sub) : 1; rv(e); return NEXT; }
        if (o == "if") { if (truth(rv(s->a[0]))) return run(s->a[1]); return s->a.size() > 2 ? run(s->a[2]) : NEXT; }
        if (o == "for") { if (s->a[0]->op != "none" && s->a[0]->op != "block") rv(s->a[0]); while (truth(rv(s->a[1]))) { if (--fuel <= 0) throw Stop{"does not terminate"}; Flow w = run(s->a[3]); if (w == RET) return w; if (w == BRK) break; if (s->a[2]->op != "none") rv(s->a[2]); } return NEXT; }
        if (o == "break") return BRK; if (o == "continue") return CONT;
        if (o == "return") { m.returned = true; if (!s->a.empty()) { if (u.ret->k == Ty::Void) throw Stop{"a void function returns a value"}; m.ret = use(conv(rv(s->a[0]), u.ret)); } return RET; }
        throw Stop{"statement without a model"};
    }
    const char* go(std::vector<sdfgev::Machine::Input>& in) {
        try {
            env.emplace_back(); for (auto& i : in) { if (i.elems > 0) { i.object = m.alloc(i.name, i.elems * i.esize, i.esize); m.objs.back().shared = true; for (int64_t k = 0; k < i.elems; k++) if (i.unset.empty() || !i.unset[(size_t)k]) m.store(sdfgev::Machine::addr(i.object, k * i.esize), i.esize, i.data[(size_t)k]); } else m.objs.push_back({}); }
            auto input = [&](const std::string& n) -> sdfgev::Machine::Input* { for (auto& i : in) if (i.name == n) return &i; return nullptr; };
            for (auto& [n, t] : u.globals) { auto i = input(n); if (!i || i->object < 0) throw Stop{"global without storage"}; env.back()[n] = {i->object, t}; }
            for (auto& [n, t] : u.params) { auto i = input(n); if (!i) throw Stop{"parameter without a value"}; declare(n, t); Var* v = find(n); m.store(sdfgev::Machine::addr(v->o), (int)size(*t), i->elems > 0 ? sdfgev::Machine::addr(i->object) : i->value); }
            run(u.body); return nullptr;
        } catch (const Stop& s) { return s.why; }
    }
};
} // namespace crun
