// Executes structured SDFGs: the semantics docc's C code generator gives them, written independently (the oracle of the transformation harnesses).
// Integers are exact in the width of their container; floating-point operations are uninterpreted (a linear mix per operation, commutative where the operation is).
#pragma once
#include "symev.h"
#include "sdfg/structured_sdfg.h"
#include "sdfg/builder/structured_sdfg_builder.h"
#include "sdfg/data_flow/library_nodes/call_node.h"
#include "sdfg/data_flow/library_nodes/metadata_node.h"
#include "sdfg/data_flow/library_nodes/barrier_local_node.h"
#include "sdfg/data_flow/library_nodes/stdlib/malloc.h"
#include "sdfg/data_flow/library_nodes/stdlib/calloc.h"
#include "sdfg/data_flow/library_nodes/stdlib/alloca.h"
#include "sdfg/data_flow/library_nodes/stdlib/free.h"
#include "sdfg/data_flow/library_nodes/stdlib/memcpy.h"
#include "sdfg/data_flow/library_nodes/stdlib/memmove.h"
#include "sdfg/data_flow/library_nodes/stdlib/memset.h"
#include "sdfg/data_flow/library_nodes/math/cmath/cmath_node.h"
#include "sdfg/data_flow/library_nodes/math/blas/dot_node.h"
#include "sdfg/data_flow/library_nodes/math/blas/gemm_node.h"
#include <cstdlib>
#include <cstring>
#include <map>
namespace sdfgev {
using namespace sdfg; using symev::ite; namespace DF = data_flow; namespace SC = structured_control_flow;
struct Stop { const char* why; };
inline uint64_t conc(uint64_t v) { return dsym_is_symbolic(v) ? dsym_concretize(v) : v; }
inline bool sgn(types::PrimitiveType t) { return t == types::Int8 || t == types::Int16 || t == types::Int32 || t == types::Int64; }
inline bool flt(types::PrimitiveType t) { return t == types::Float || t == types::Double || t == types::Half || t == types::BFloat; }
inline int bits(types::PrimitiveType t) { switch (t) { case types::Bool: return 1; case types::Int8: case types::UInt8: return 8; case types::Int16: case types::UInt16: case types::Half: case types::BFloat: return 16; case types::Int32: case types::UInt32: case types::Float: return 32; case types::Int64: case types::UInt64: case types::Double: return 64; default: throw Stop{"type without a model"}; } }
inline int64_t wrap(int64_t v, types::PrimitiveType t) { switch (t) { case types::Bool: return ite(v != 0, 1, 0); case types::Int8: return (int8_t)v; case types::Int16: return (int16_t)v; case types::Int32: return (int32_t)v; case types::UInt8: return (uint8_t)v; case types::UInt16: return (uint16_t)v; case types::UInt32: return (uint32_t)v; default: return v; } }
inline uint64_t strhash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ull; return h; }
// uninterpreted operations: linear mixes with per-operation odd coefficients
inline int64_t mix(uint64_t op, std::initializer_list<int64_t> a, bool comm = false) { uint64_t h = op * 0x9E3779B97F4A7C15ull + 0x1234567; int i = 1; for (int64_t x : a) { h += (uint64_t)x * ((op * 2 + (comm ? 1 : i)) * 0xD1342543DE82EF95ull | 1); i++; } return (int64_t)h; }
// floating-point predicates over three uninterpreted relations: not a number, less, equal
// comparisons are exact on the bit patterns (every float value is held as a double)
inline bool fnan(int64_t a) { return (uint64_t)a << 1 > 0xFFE0000000000000ull; } inline int64_t fkey(int64_t a) { return ite(a < 0, (int64_t)(0x8000000000000000ull - (uint64_t)a), a); } inline bool flt_(int64_t a, int64_t b) { return fkey(a) < fkey(b); } inline bool feq_(int64_t a, int64_t b) { return fkey(a) == fkey(b); }
inline bool fcmp(DF::TaskletCode c, int64_t a, int64_t b) {
    using T = DF::TaskletCode; bool un = fnan(a) | fnan(b); bool lt = flt_(a, b), gt = flt_(b, a), eq = feq_(a, b);
    switch (c) { case T::fp_oeq: return !un & eq; case T::fp_one: return !un & !eq; case T::fp_olt: return !un & lt; case T::fp_ole: return !un & (lt | eq); case T::fp_ogt: return !un & gt; case T::fp_oge: return !un & (gt | eq); case T::fp_ord: return !un; case T::fp_ueq: return un | eq; case T::fp_une: return un | !eq; case T::fp_ult: return un | lt; case T::fp_ule: return un | lt | eq; case T::fp_ugt: return un | gt; case T::fp_uge: return un | gt | eq; default: return un; }
}
struct Cell { int64_t v = 0; uint8_t size = 0; uint8_t st = 0; }; // st: 0 unset, 1 value, 2 inside a wider value
struct Obj { std::string name; int64_t size = 0; int gran = 1; bool alive = true; bool heap = false, shared = false; std::vector<Cell> c; };
struct Options { int maporder = 0; int fuel = 400; bool race = false; }; // maporder: 0 forward, 1 backward, 2 odd iterations first
enum Flow { NEXT, BRK, CONT, RET };
struct Machine {
    const StructuredSDFG& f; Options opt; std::vector<Obj> objs; std::map<std::string, int> slot; std::vector<int64_t> trace; bool ub = false; bool returned = false, retundef = false; int64_t ret = 0; int fuel; symev::Env env;
    static int64_t look(void* m, const std::string& n, bool& ok) { return static_cast<Machine*>(m)->symbol(n, ok); }
    Machine(const StructuredSDFG& g, Options o = {}) : f(g), opt(o), fuel(o.fuel) { env.ctx = this; env.look = look; }
    Machine(const Machine&) = delete;
    // ---- memory ----
    static int64_t addr(int o, int64_t off = 0) { return ((int64_t)(o + 1) << 32) + (1 << 20) + off; }
    int alloc(const std::string& n, int64_t size, int gran) { if (size < 0 || size > 4096) throw Stop{"object size"}; objs.push_back({}); auto& o = objs.back(); o.name = n; o.size = size; o.gran = gran > 0 && size % gran == 0 ? gran : 1; o.c.resize((size_t)(size / o.gran)); return (int)objs.size() - 1; }
    Obj& at(int64_t p, int64_t n, int64_t& off) { p = (int64_t)conc((uint64_t)p); int o = (int)(p >> 32) - 1; if (o < 0 || o >= (int)objs.size()) throw Stop{"access through an invalid pointer"}; off = p - addr(o); Obj& x = objs[(size_t)o]; if (!x.alive) throw Stop{"access to freed memory"}; if (off < 0 || off + n > x.size) throw Stop{"access out of bounds"}; return x; }
    // conflicts between iterations of a map on arrays (race: true) make the program invalid
    struct Frame { int iter = 0; std::map<int64_t, std::pair<int, int>> seen; }; std::vector<Frame> frames;
    void mark(int64_t p, bool w) { if (frames.empty()) return; p = (int64_t)conc((uint64_t)p); int o = (int)(p >> 32) - 1; if (o < 0 || o >= (int)objs.size() || !objs[(size_t)o].shared) return; for (auto& f : frames) { auto [i, fresh] = f.seen.try_emplace(p, -1, -1); auto& [wr, rd] = i->second; if (w) { if ((wr >= 0 && wr != f.iter) || (rd >= 0 && rd != f.iter)) throw Stop{"conflicting iterations of a map"}; wr = f.iter; } else { if (wr >= 0 && wr != f.iter) throw Stop{"conflicting iterations of a map"}; if (rd < 0) rd = f.iter; else if (rd != f.iter) rd = 1 << 30; } } }
    int64_t load(int64_t p, int n) { mark(p, false); int64_t off; Obj& o = at(p, n, off); if (off % o.gran) throw Stop{"access in the middle of a value"}; Cell& c = o.c[(size_t)(off / o.gran)]; if (c.st == 0) throw Stop{"use of an unset value"}; if (c.st != 1 || c.size != n) throw Stop{"access with a different width"}; return c.v; }
    bool set(int64_t p, int n) { int64_t off; Obj& o = at(p, n, off); if (off % o.gran) return false; Cell& c = o.c[(size_t)(off / o.gran)]; return c.st == 1 && c.size == n; }
    void store(int64_t p, int n, int64_t v) { mark(p, true); int64_t off; Obj& o = at(p, n, off); if (off % o.gran || n % o.gran) throw Stop{"access in the middle of a value"}; size_t i = (size_t)(off / o.gran), k = (size_t)(n / o.gran); for (size_t j = 0; j < k; j++) if (o.c[i + j].st == 2 ? (j == 0) : (o.c[i + j].st == 1 && (int64_t)o.c[i + j].size > n)) { if (!(j == 0 && o.c[i].st == 1 && o.c[i].size == n)) throw Stop{"access with a different width"}; } o.c[i] = {v, (uint8_t)n, 1}; for (size_t j = 1; j < k; j++) o.c[i + j] = {0, 0, 2}; }
    void unset(int64_t p, int n) { int64_t off; Obj& o = at(p, n, off); o.c[(size_t)(off / o.gran)].st = 0; }
    // ---- types ----
    int64_t sizeof_(const types::IType& t) {
        switch (t.type_id()) {
        case types::TypeID::Scalar: return (bits(t.primitive_type()) + 7) / 8; case types::TypeID::Pointer: return 8;
        case types::TypeID::Array: { auto& a = static_cast<const types::Array&>(t); return num(a.num_elements()) * sizeof_(a.element_type()); }
        case types::TypeID::Structure: { auto& d = f.structure(static_cast<const types::Structure&>(t).name()); int64_t al; return member(d, d.num_members(), al); }
        default: throw Stop{"type without a model"};
        }
    }
    int64_t align(const types::IType& t) { if (t.type_id() == types::TypeID::Array) return align(static_cast<const types::Array&>(t).element_type()); if (t.type_id() == types::TypeID::Structure) { auto& d = f.structure(static_cast<const types::Structure&>(t).name()); int64_t al; member(d, d.num_members(), al); return al; } return sizeof_(t); }
    int64_t member(const types::StructureDefinition& d, size_t k, int64_t& al) { int64_t off = 0; al = 1; for (size_t i = 0; i < d.num_members(); i++) { auto& m = d.member_type(symbolic::integer((int64_t)i)); int64_t a = d.is_packed() ? 1 : align(m); if (a > al) al = a; off = (off + a - 1) / a * a; if (i == k) return off; off += sizeof_(m); } return (off + al - 1) / al * al; }
    static int gran_(Machine& m, const types::IType& t) { switch (t.type_id()) { case types::TypeID::Array: return gran_(m, static_cast<const types::Array&>(t).element_type()); case types::TypeID::Scalar: case types::TypeID::Pointer: return (int)m.sizeof_(t); default: return 1; } }
    // ---- expressions ----
    int64_t symbol(const std::string& n, bool& ok) {
        if (symbolic::is_nullptr(symbolic::symbol(n))) return 0; if (f.is_external(n)) return addr(obj(n)); if (!f.exists(n)) throw Stop{"unknown symbol"};
        auto& t = f.type(n); if (t.type_id() == types::TypeID::Scalar || t.type_id() == types::TypeID::Pointer) return load(addr(obj(n)), (int)sizeof_(t)); throw Stop{"composite value in an expression"};
    }
    int64_t num(const symbolic::Expression& e) { auto v = symev::ev(e, env); if (!v.ok || v.inf || v.den != 1) throw Stop{"expression without a value"}; return v.v; }
    bool truth(const symbolic::Condition& e) { return num(e) != 0; }
    int obj(const std::string& n) { auto i = slot.find(n); if (i == slot.end()) throw Stop{"container without storage"}; return i->second; }
    // ---- memlets ----
    int64_t nested(const types::IType& t, const DF::Subset& s, size_t k) {
        if (k >= s.size()) return 0;
        switch (t.type_id()) {
        case types::TypeID::Scalar: return 0;
        case types::TypeID::Array: { auto& a = static_cast<const types::Array&>(t); int64_t i = num(s[k]); return i * sizeof_(a.element_type()) + nested(a.element_type(), s, k + 1); }
        case types::TypeID::Structure: { auto& d = f.structure(static_cast<const types::Structure&>(t).name()); int64_t i = (int64_t)conc((uint64_t)num(s[k])), al; if (i < 0 || i >= (int64_t)d.num_members()) throw Stop{"structure member"}; return member(d, (size_t)i, al) + nested(d.member_type(symbolic::integer(i)), s, k + 1); }
        default: throw Stop{"subset without a model"};
        }
    }
    int64_t place(const DF::AccessNode& n, const types::IType& base, const DF::Subset& s) { // address a memlet denotes
        bool ext = f.is_external(n.data());
        if (base.type_id() == types::TypeID::Tensor) { auto& t = static_cast<const types::Tensor&>(base); if (t.is_scalar()) return addr(obj(n.data())); int64_t p = ext ? addr(obj(n.data())) : load(addr(obj(n.data())), 8), off = num(t.offset()); for (size_t i = 0; i < s.size(); i++) off += num(s[i]) * num(t.strides()[i]); return p + off * sizeof_(t.element_type()); }
        if (base.type_id() == types::TypeID::Pointer && !s.empty()) { auto& p = static_cast<const types::Pointer&>(base); int64_t a = ext ? addr(obj(n.data())) : ptrvalue(n); int64_t i = num(s[0]); return a + i * sizeof_(p.pointee_type()) + nested(p.pointee_type(), s, 1); }
        return addr(obj(n.data())) + nested(base, s, 0);
    }
    int64_t ptrvalue(const DF::AccessNode& n) { if (auto c = dynamic_cast<const DF::ConstantNode*>(&n)) return constant(*c); if (f.is_external(n.data())) return addr(obj(n.data())); return load(addr(obj(n.data())), 8); }
    static int64_t literal(const std::string& s, const types::IType& t) { if (symbolic::is_nullptr(symbolic::symbol(s))) return 0; if (t.type_id() == types::TypeID::Scalar && flt(t.primitive_type())) { double d = strtod(s.c_str(), nullptr); int64_t b; memcpy(&b, &d, 8); return b; } if (s == "true") return 1; if (s == "false") return 0; char* e; int64_t v = s.size() && s[0] != '-' ? (int64_t)strtoull(s.c_str(), &e, 10) : strtoll(s.c_str(), &e, 10); if (*e) { if (*e == '.') { double d = strtod(s.c_str(), nullptr); v = (int64_t)d; } else throw Stop{"literal"}; } return t.type_id() == types::TypeID::Scalar ? wrap(v, t.primitive_type()) : v; }
    int64_t constant(const DF::ConstantNode& c) { return literal(c.data(), c.type()); }
    static int64_t convert(int64_t v, types::PrimitiveType a, types::PrimitiveType b) { if (a == b) return v; if (!flt(a) && !flt(b)) return wrap(v, b); if (flt(a) && flt(b) && bits(a) < bits(b)) return v; int64_t r = mix(1000 + (uint64_t)b * 37 + (flt(a) ? 1 : 0), {v}); return flt(b) ? r : wrap(r, b); }
    // ---- data flow ----
    struct TV { int64_t v; types::PrimitiveType t; };
    TV fetch(const DF::Memlet& e, bool uns) {
        auto& src = dynamic_cast<const DF::AccessNode&>(e.src()); auto rt = e.result_type(f); if (rt->type_id() != types::TypeID::Scalar) throw Stop{"tasklet input is not a scalar"}; types::PrimitiveType ct = rt->primitive_type(), st = ct; int64_t v;
        if (auto c = dynamic_cast<const DF::ConstantNode*>(&src)) { v = constant(*c); if (c->type().type_id() == types::TypeID::Scalar) st = c->type().primitive_type(); v = flt(st) == flt(ct) ? convert(v, st, ct) : literal(c->data(), *rt); } else v = load(place(src, e.base_type(), e.subset()), (int)sizeof_(*rt));
        if (uns && !flt(ct)) { auto u = types::as_unsigned(ct); v = wrap(v, u); ct = u; } return {v, ct};
    }
    static bool over(int64_t v, int w) { return w < 64 && (v < -(1ll << (w - 1)) || v > (1ll << (w - 1)) - 1); }
    TV compute(DF::TaskletCode c, std::vector<TV>& a) {
        using T = DF::TaskletCode; if (c == T::assign) return a[0];
        if (DF::is_floating_point(c)) { uint64_t op = 100 + (uint64_t)c; bool comm = c == T::fp_add || c == T::fp_mul; auto t = types::Float; for (auto& x : a) if (x.t == types::Double) t = types::Double; std::vector<int64_t> v; for (auto& x : a) v.push_back(flt(x.t) ? x.v : convert(x.v, x.t, t)); if (c >= T::fp_oeq && c <= T::fp_uno) return {ite(fcmp(c, v[0], v[1]), 1, 0), types::Bool}; if (c == T::fp_fma) { int64_t p = mix(100 + (uint64_t)T::fp_mul, {v[0], v[1]}, true); return {mix(100 + (uint64_t)T::fp_add, {p, v[2]}, true), t}; } int64_t r = v.size() == 1 ? mix(op, {v[0]}) : mix(op, {v[0], v[1]}, comm); return {r, t}; }
        int w = 32; bool s = true; for (auto& x : a) { if (flt(x.t)) throw Stop{"integer operation on floating-point data"}; int b = bits(x.t); bool g = sgn(x.t); if (b < 32) continue; if (b > w) { w = b; s = g; } else if (b == w && !g) s = false; } bool shift = c == T::int_shl || c == T::int_ashr || c == T::int_lshr; if (shift) { w = bits(a[0].t) < 32 ? 32 : bits(a[0].t); s = bits(a[0].t) < 32 || sgn(a[0].t); }
        types::PrimitiveType rt = w == 64 ? (s ? types::Int64 : types::UInt64) : (s ? types::Int32 : types::UInt32); int64_t x = wrap(a[0].v, rt), y = a.size() > 1 ? (shift ? a[1].v : wrap(a[1].v, rt)) : 0; uint64_t ux = (uint64_t)x, uy = (uint64_t)y; auto lt = [&](int64_t p, int64_t q) { return s ? p < q : (uint64_t)p < (uint64_t)q; }; auto B = [](bool b) { return TV{ite(b, 1, 0), types::Int32}; };
        int64_t r = 0; bool o = false;
        switch (c) {
        case T::int_add: o = w == 64 ? __builtin_add_overflow(x, y, &r) : (r = x + y, over(r, w)); if (!s) { o = false; r = (int64_t)(ux + uy); } break; case T::int_sub: o = w == 64 ? __builtin_sub_overflow(x, y, &r) : (r = x - y, over(r, w)); if (!s) { o = false; r = (int64_t)(ux - uy); } break;
        case T::int_mul: if (s && w == 64) o = __builtin_mul_overflow(x, y, &r); else if (s) { r = (int64_t)(ux * uy); o = over(r, w); } else r = (int64_t)(ux * uy); break;
        case T::int_sdiv: case T::int_udiv: if (y == 0) throw Stop{"division by zero"}; if (s) { if (w == 64 && y == -1 && x == INT64_MIN) throw Stop{"division overflow"}; r = x / y; o = over(r, w); } else r = (int64_t)(ux / uy); break;
        case T::int_srem: case T::int_urem: if (y == 0) throw Stop{"division by zero"}; if (s) { if (y == -1) { if (x == (int64_t)(0xffffffffffffffffull << (w - 1)) && w >= 32) throw Stop{"division overflow"}; r = 0; } else r = x % y; } else r = (int64_t)(ux % uy); break;
        case T::int_and: r = x & y; break; case T::int_or: r = x | y; break; case T::int_xor: r = x ^ y; break;
        case T::int_shl: if (uy >= (uint64_t)w) throw Stop{"shift amount"}; r = (int64_t)(ux << uy); o = false; break; case T::int_ashr: case T::int_lshr: if (uy >= (uint64_t)w) throw Stop{"shift amount"}; r = s ? x >> uy : (int64_t)(ux >> uy); break;
        case T::int_smin: case T::int_umin: r = ite(lt(x, y), x, y); break; case T::int_smax: case T::int_umax: r = ite(lt(y, x), x, y); break; case T::int_scmp: case T::int_ucmp: return {ite(lt(x, y), -1, ite(lt(y, x), 1, 0)), types::Int32};
        case T::int_abs: r = ite(s && x < 0, (int64_t)(0 - ux), x); o = s && w == 64 ? x == INT64_MIN : s && over(r, w); break;
        case T::int_eq: return B(x == y); case T::int_ne: return B(x != y); case T::int_sgt: case T::int_ugt: return B(lt(y, x)); case T::int_sge: case T::int_uge: return B(!lt(x, y)); case T::int_slt: case T::int_ult: return B(lt(x, y)); case T::int_sle: case T::int_ule: return B(!lt(y, x));
        default: throw Stop{"tasklet without a model"};
        }
        ub = ub | o; return {wrap(r, rt), rt};
    }
    void tasklet(const DF::DataFlowGraph& g, const DF::Tasklet& t) {
        bool uns = DF::is_unsigned(t.code()); std::vector<TV> a; for (auto& in : t.inputs()) { const DF::Memlet* m = nullptr; for (auto& e : g.in_edges(t)) if (e.dst_conn() == in) m = &e; if (!m) throw Stop{"tasklet input without a memlet"}; a.push_back(fetch(*m, uns)); }
        TV r = compute(t.code(), a); for (auto& e : g.out_edges(t)) { auto rt = e.result_type(f); if (rt->type_id() != types::TypeID::Scalar) throw Stop{"tasklet output is not a scalar"}; int64_t v = convert(r.v, r.t, rt->primitive_type()); store(place(dynamic_cast<const DF::AccessNode&>(e.dst()), e.base_type(), e.subset()), (int)sizeof_(*rt), v); }
    }
    void copyvalue(int64_t dst, int64_t src, const types::IType& t) { int64_t n = sizeof_(t); if (t.type_id() == types::TypeID::Scalar || t.type_id() == types::TypeID::Pointer) { store(dst, (int)n, load(src, (int)n)); return; } bytes(dst, src, n); }
    void bytes(int64_t dst, int64_t src, int64_t n) { int64_t so, d0; Obj& s = at(src, n, so); at(dst, n, d0); std::vector<std::pair<int64_t, Cell>> v; for (int64_t k = 0; k < n; k += s.gran) { Cell c = s.c[(size_t)((so + k) / s.gran)]; v.emplace_back(k, c); } for (auto& [k, c] : v) if (c.st == 1) { if (k + c.size > n) throw Stop{"copy of a part of a value"}; store(dst + k, c.size, c.v); } else if (c.st == 0) unset(dst + k, s.gran); }
    virtual void library(const DF::DataFlowGraph& g, const DF::LibraryNode& n) {
        auto in = [&](const std::string& c) -> const DF::Memlet* { for (auto& e : g.in_edges(n)) if (e.dst_conn() == c) return &e; return nullptr; }; auto out = [&](const std::string& c) -> const DF::Memlet* { for (auto& e : g.out_edges(n)) if (e.src_conn() == c) return &e; return nullptr; };
        auto acc = [](const DF::DataFlowNode& x) -> const DF::AccessNode& { return dynamic_cast<const DF::AccessNode&>(x); };
        auto inval = [&](const DF::Memlet& e) -> int64_t { auto rt = e.result_type(f); auto& a = acc(e.src()); if (auto c = dynamic_cast<const DF::ConstantNode*>(&a)) return literal(c->data(), *rt); if (e.base_type().type_id() == types::TypeID::Pointer && e.subset().empty()) return ptrvalue(a); if (rt->type_id() == types::TypeID::Array) return place(a, e.base_type(), e.subset()); return load(place(a, e.base_type(), e.subset()), (int)sizeof_(*rt)); };
        auto outval = [&](const DF::Memlet& e, int64_t v) { auto rt = e.result_type(f); if (rt->type_id() == types::TypeID::Scalar) v = wrap(v, rt->primitive_type()); auto& a = acc(e.dst()); int64_t p = e.base_type().type_id() == types::TypeID::Pointer && e.subset().empty() ? addr(obj(a.data())) : place(a, e.base_type(), e.subset()); store(p, (int)sizeof_(*rt), v); };
        if (dynamic_cast<const DF::MetadataNode*>(&n) || dynamic_cast<const DF::BarrierLocalNode*>(&n)) return;
        if (auto c = dynamic_cast<const DF::CallNode*>(&n)) {
            uint64_t h = strhash(c->callee_name()); trace.push_back((int64_t)h); int64_t r = mix(h & 0xffff, {(int64_t)trace.size()}); int i = 0;
            for (auto& nm : c->inputs()) { i++; auto m = in(nm); if (!m) throw Stop{"call input without a memlet"}; int64_t v = inval(*m); auto rt = m->result_type(f); if (rt->type_id() == types::TypeID::Pointer) { v = (int64_t)conc((uint64_t)v); if (v) { int64_t off; Obj& o = at(v, 0, off); trace.push_back(off); for (auto& x : o.c) if (x.st == 1) { trace.push_back(x.v); r = mix(7, {r, x.v}); x.v = mix(11 + (uint64_t)i, {x.v, (int64_t)h}); if (x.size < 8) x.v = x.size == 4 ? (int32_t)x.v : x.size == 2 ? (int16_t)x.v : (int8_t)x.v; } continue; } } trace.push_back(v); r = mix(5, {r, v}); }
            for (auto& o : c->outputs()) if (o == "_ret") if (auto m = out(o)) outval(*m, r); return;
        }
        if (auto m = dynamic_cast<const stdlib::MallocNode*>(&n)) { newobj(out(n.outputs().at(0)), num(m->size()), outval, true, false); return; } if (auto m = dynamic_cast<const stdlib::AllocaNode*>(&n)) { newobj(out(n.outputs().at(0)), num(m->size()), outval, false, false); return; }
        if (auto m = dynamic_cast<const stdlib::CallocNode*>(&n)) { newobj(out(n.outputs().at(0)), num(m->num()) * num(m->size()), outval, true, true); return; }
        if (dynamic_cast<const stdlib::FreeNode*>(&n)) { auto e = in(n.inputs().at(0)); int64_t p = (int64_t)conc((uint64_t)inval(*e)); if (!p) return; int64_t off; Obj& o = at(p, 0, off); if (off || !o.heap) throw Stop{"free of something else"}; o.alive = false; return; }
        auto copy = [&](const symbolic::Expression& cnt) { auto s = in(n.inputs().at(n.inputs().size() - 1)), d = in(n.inputs().at(0)); if (n.inputs().size() == 1) { d = nullptr; s = in(n.inputs()[0]); } int64_t k = (int64_t)conc((uint64_t)num(cnt)); int64_t dp; if (d && n.inputs().size() > 1) dp = inval(*d); else { auto o = out(n.outputs().at(0)); dp = ptrvalue(acc(o->dst())); } int64_t sp = inval(*s); if (k > 0) bytes(dp, sp, k); };
        if (auto m = dynamic_cast<const stdlib::MemcpyNode*>(&n)) { copy(m->count()); return; } if (auto m = dynamic_cast<const stdlib::MemmoveNode*>(&n)) { copy(m->count()); return; }
        if (auto m = dynamic_cast<const stdlib::MemsetNode*>(&n)) { auto e = out(n.outputs().at(0)); int64_t p = ptrvalue(acc(e->dst())), k = (int64_t)conc((uint64_t)num(m->num())), v = num(m->value()) & 255, off; if (k <= 0) return; Obj& o = at(p, k, off); int64_t w = (int64_t)((uint64_t)v * 0x0101010101010101ull); for (int64_t i = 0; i < k; i += o.gran) store(p + i, o.gran, o.gran == 8 ? w : o.gran == 4 ? (int32_t)w : o.gran == 2 ? (int16_t)w : (int8_t)w); return; }
        if (auto m = dynamic_cast<const math::cmath::CMathNode*>(&n)) { if (m->function() == math::cmath::CMathFunction::fmod) { auto e1 = in(n.inputs().at(0)), e2 = in(n.inputs().at(1)); if (!e1 || !e2) throw Stop{"input without a memlet"}; int64_t x = inval(*e1), y = inval(*e2); outval(*out(n.outputs().at(0)), mix(100 + (uint64_t)DF::TaskletCode::fp_rem, {x, y})); return; } int64_t r = 17; r = mix(300 + (uint64_t)m->function(), {r}); int i = 0; for (auto& nm : n.inputs()) { auto e = in(nm); if (!e) throw Stop{"input without a memlet"}; r = mix(320 + (uint64_t)i++, {r, inval(*e)}); } auto e = out(n.outputs().at(0)); outval(*e, r); return; }
        throw Stop{"library node without a model"};
    }
    template<class F> void newobj(const DF::Memlet* e, int64_t size, F&& outval, bool heap, bool zero) { size = (int64_t)conc((uint64_t)size); int g = 1; auto& dt = f.type(dynamic_cast<const DF::AccessNode&>(e->dst()).data()); const types::IType* pt = &dt; if (e->base_type().type_id() == types::TypeID::Pointer && static_cast<const types::Pointer&>(e->base_type()).has_pointee_type()) pt = &e->base_type(); if (pt->type_id() == types::TypeID::Pointer && static_cast<const types::Pointer*>(pt)->has_pointee_type()) g = gran_(*this, static_cast<const types::Pointer*>(pt)->pointee_type()); int o = alloc("heap", size, g); objs[(size_t)o].heap = heap; objs[(size_t)o].shared = true; if (zero) for (auto& c : objs[(size_t)o].c) c = {0, (uint8_t)objs[(size_t)o].gran, 1}; outval(*e, addr(o)); }
    void block(const SC::Block& b) {
        auto& g = b.dataflow(); if (g.nodes().empty()) return; auto order = g.topological_sort();
        for (auto n : order) {
            if (auto t = dynamic_cast<const DF::Tasklet*>(n)) tasklet(g, *t); else if (auto l = dynamic_cast<const DF::LibraryNode*>(n)) library(g, *l);
            else if (auto a = dynamic_cast<const DF::AccessNode*>(n)) for (auto& e : g.out_edges(*a)) {
                if (e.type() == DF::Computational) continue; auto& dst = dynamic_cast<const DF::AccessNode&>(e.dst());
                if (e.type() == DF::Reference) { int64_t v; if (auto c = dynamic_cast<const DF::ConstantNode*>(a)) v = constant(*c); else v = place(*a, e.base_type(), e.subset()); store(addr(obj(dst.data())), 8, v); }
                else if (e.type() == DF::Dereference_Src) copyvalue(addr(obj(dst.data())), ptrvalue(*a), f.type(dst.data()));
                else { auto& bt = static_cast<const types::Pointer&>(e.base_type()); int64_t d = ptrvalue(dst); if (auto c = dynamic_cast<const DF::ConstantNode*>(a)) { store(d, (int)sizeof_(bt.pointee_type()), constant(*c)); } else if (f.is_external(a->data())) store(d, 8, addr(obj(a->data()))); else { auto& st = f.type(a->data()); copyvalue(d, addr(obj(a->data())), st); } }
            }
        }
    }
    // ---- control flow ----
    void tick() { if (--fuel <= 0) throw Stop{"does not terminate"}; }
    void assign(const std::string& n, int64_t v) { if (!f.exists(n)) throw Stop{"assignment to an unknown symbol"}; auto& t = f.type(n); if (t.type_id() == types::TypeID::Scalar) { int64_t w = wrap(v, t.primitive_type()); if (sgn(t.primitive_type())) ub = ub | (w != v); v = w; } store(addr(obj(n)), (int)sizeof_(t), v); }
    Flow sequence(const SC::Sequence& s) { for (size_t i = 0; i < s.size(); i++) { auto c = s.at(i); Flow w = node(c.first); if (w != NEXT) return w; for (auto& [k, e] : c.second.assignments()) assign(k->get_name(), num(e)); } return NEXT; }
    virtual Flow map(const SC::Map& m) {
        if (opt.maporder == 0 && !opt.race) return loop(m); if (opt.race) frames.emplace_back(); std::vector<int64_t> it; const std::string n = m.indvar()->get_name(); assign(n, num(m.init())); while (truth(m.condition())) { tick(); bool ok = true; it.push_back(symbol(n, ok)); assign(n, num(m.update())); } bool ok = true; int64_t last = symbol(n, ok); std::vector<int64_t> o;
        if (opt.maporder == 0) o = it; else if (opt.maporder == 1) o.assign(it.rbegin(), it.rend()); else { for (size_t i = 1; i < it.size(); i += 2) o.push_back(it[i]); for (size_t i = 0; i < it.size(); i += 2) o.push_back(it[i]); }
        for (int64_t v : o) { if (opt.race) frames.back().iter = (int)(v & 0xfffffff); assign(n, v); Flow w = sequence(m.root()); if (w == BRK || w == RET) throw Stop{"a map is left early"}; } if (opt.race) frames.pop_back(); if (opt.maporder == 0) assign(n, last); else unset(addr(obj(n)), (int)sizeof_(f.type(n))); return NEXT;
    }
    Flow loop(const SC::StructuredLoop& l) { const std::string n = l.indvar()->get_name(); assign(n, num(l.init())); while (truth(l.condition())) { tick(); Flow w = sequence(l.root()); if (w == RET) return w; if (w == BRK) break; assign(n, num(l.update())); } return NEXT; }
    Flow node(const SC::ControlFlowNode& c) {
        if (auto b = dynamic_cast<const SC::Block*>(&c)) { block(*b); return NEXT; } if (auto s = dynamic_cast<const SC::Sequence*>(&c)) return sequence(*s);
        if (auto m = dynamic_cast<const SC::Map*>(&c)) return map(*m); if (auto l = dynamic_cast<const SC::For*>(&c)) return loop(*l);
        if (auto i = dynamic_cast<const SC::IfElse*>(&c)) { for (size_t k = 0; k < i->size(); k++) { auto p = i->at(k); if (truth(p.second)) return sequence(p.first); } return NEXT; }
        if (auto w = dynamic_cast<const SC::While*>(&c)) { for (;;) { tick(); Flow x = sequence(w->root()); if (x == RET) return x; if (x == BRK) return NEXT; } }
        if (dynamic_cast<const SC::Break*>(&c)) return BRK; if (dynamic_cast<const SC::Continue*>(&c)) return CONT;
        if (auto r = dynamic_cast<const SC::Return*>(&c)) { returned = true; if (r->is_constant()) ret = literal(r->data(), r->type()); else if (f.exists(r->data())) { auto& t = f.type(r->data()); if (f.is_external(r->data())) ret = addr(obj(r->data())); else if (t.type_id() == types::TypeID::Scalar || t.type_id() == types::TypeID::Pointer) ret = load(addr(obj(r->data())), (int)sizeof_(t)); else throw Stop{"composite return value"}; } return RET; }
        throw Stop{"control flow without a model"};
    }
    // ---- running ----
    struct Input { std::string name; bool pointer; int64_t value; int64_t elems; int esize; std::vector<int64_t> data; int object = -1; std::vector<char> unset; }; // argument or external
    void start(std::vector<Input>& in) { // storage in an order independent of the containers: inputs first
        for (auto& i : in) { if (i.elems > 0) { i.object = alloc(i.name, i.elems * i.esize, i.esize); objs.back().shared = true; for (int64_t k = 0; k < i.elems; k++) if (i.unset.empty() || !i.unset[(size_t)k]) store(addr(i.object, k * i.esize), i.esize, i.data[(size_t)k]); } else objs.push_back({}); }
        for (auto& i : in) if (f.exists(i.name)) { if (f.is_external(i.name)) slot[i.name] = i.object; else { auto& t = f.type(i.name); int n = (int)sizeof_(t); int o = alloc(i.name, n, n); slot[i.name] = o; store(addr(o), n, i.elems > 0 ? addr(i.object) : i.value); } }
        // containers whose size needs nothing else first
        std::vector<std::string> names; for (auto& n : f.containers()) names.push_back(n); std::sort(names.begin(), names.end());
        for (auto& n : names) if (!slot.count(n)) { auto& t = f.type(n); if (t.type_id() == types::TypeID::Function || f.is_external(n)) continue; slot[n] = alloc(n, (int64_t)conc((uint64_t)sizeof_(t)), gran_(*this, t)); }
        for (auto& n : names) { if (f.is_external(n)) continue; auto& t = f.type(n); if (t.type_id() == types::TypeID::Function) continue; auto st = t.storage_type(); if (st.allocation() == types::StorageType::AllocationType::Managed && t.type_id() == types::TypeID::Pointer && (st.is_cpu_heap() || st.is_cpu_stack())) { auto& p = static_cast<const types::Pointer&>(t); int o = alloc(n + "*", (int64_t)conc((uint64_t)num(st.allocation_size())), p.has_pointee_type() ? gran_(*this, p.pointee_type()) : 1); objs[(size_t)o].heap = true; store(addr(slot[n]), 8, addr(o)); } }
    }
    const char* run(std::vector<Input>& in) { try { start(in); sequence(f.root()); return nullptr; } catch (const Stop& s) { return s.why; } }
};
} // namespace sdfgev
