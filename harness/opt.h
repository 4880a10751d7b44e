// Building small structured SDFGs, running docc's passes on a clone and comparing both by execution (sdfgev.h).
#pragma once
#include "sdfgev.h"
#include "sdfg/analysis/analysis.h"
#include "sdfg/analysis/loop_analysis.h"
#include "sdfg/passes/pass.h"
#include "sdfg/passes/pipeline.h"
namespace opt {
using namespace sdfg; using sdfgev::Machine; using sdfgev::Options; using Input = Machine::Input; using builder::StructuredSDFGBuilder; using structured_control_flow::Sequence; using symbolic::Expression; using T = data_flow::TaskletCode;
inline Expression S(const char* n) { return symbolic::symbol(n); } inline Expression K(int64_t v) { return symbolic::integer(v); } inline Expression operator+(const Expression& a, const Expression& b) { return symbolic::add(a, b); } inline Expression operator-(const Expression& a, const Expression& b) { return symbolic::sub(a, b); } inline Expression operator*(const Expression& a, const Expression& b) { return symbolic::mul(a, b); }
inline int64_t cfg(const char* n, int64_t d) { return dsym_cfg(n, d); }
// a choice restricted to the bits of a job parameter (all by default)
inline unsigned pick(const char* n, unsigned count) { uint64_t m = (uint64_t)dsym_cfg(n, -1); unsigned ix[64], k = 0; for (unsigned i = 0; i < count; i++) if (m >> i & 1) ix[k++] = i; return k == 1 ? ix[0] : ix[dsym_choice(n, k)]; }
struct Op { std::string data; data_flow::Subset sub; const types::IType* base = nullptr; }; // data starting with a digit or '-': constant
struct P {
    bool maps = false; // the original has maps: assumed free of conflicts
    StructuredSDFGBuilder b{"f", FunctionType_CPU}; std::vector<Input> in; types::Scalar i64{types::Int64}, i32{types::Int32}; types::Pointer opq; std::map<std::string, std::unique_ptr<types::IType>> acc; // memlet base types of the arrays
    Sequence& root() { return b.subject().root(); }
    void scalar(const std::string& n, types::PrimitiveType t = types::Int64, bool arg = false, int64_t lo = -1000000, int64_t hi = 1000000) { b.add_container(n, types::Scalar(t), arg); if (arg) { Input i; i.name = n; i.pointer = false; i.elems = 0; i.value = sdfgev::flt(t) ? (int64_t)dsym_u64(n.c_str()) : dsym_range(n.c_str(), lo, hi); in.push_back(i); } }
    void fill(Input& i, types::PrimitiveType t, int64_t lo, int64_t hi) { i.pointer = true; i.esize = (sdfgev::bits(t) + 7) / 8; for (int64_t k = 0; k < i.elems; k++) { std::string q = i.name + std::to_string(k); i.data.push_back(sdfgev::flt(t) ? (int64_t)dsym_u64(q.c_str()) : dsym_range(q.c_str(), lo, hi)); } in.push_back(i); }
    void array(const std::string& n, int64_t elems, types::PrimitiveType t = types::Int32, int64_t lo = -1000000, int64_t hi = 1000000) { if (cfg("typed", 0)) b.add_container(n, types::Pointer(types::Scalar(t)), true); else b.add_container(n, opq, true); acc[n] = std::make_unique<types::Pointer>(types::Scalar(t)); Input i; i.name = n; i.elems = elems; fill(i, t, lo, hi); } // pointer argument
    void blank(const std::string& n) { for (auto& i : in) if (i.name == n) i.unset.assign((size_t)i.elems, 1); } // starts without values
    void array2(const std::string& n, int64_t rows, int64_t cols, types::PrimitiveType t = types::Int32, int64_t lo = -1000000, int64_t hi = 1000000) { b.add_container(n, opq, true); acc[n] = std::make_unique<types::Pointer>(types::Array(types::Scalar(t), K(cols))); Input i; i.name = n; i.elems = rows * cols; fill(i, t, lo, hi); }
    void ext(const std::string& n, int64_t elems, types::PrimitiveType t = types::Int32, int64_t lo = -1000000, int64_t hi = 1000000) { types::Scalar s(t); if (elems > 1) b.add_external(n, types::Pointer(types::Array(s, K(elems))), LinkageType_External); else b.add_external(n, types::Pointer(s), LinkageType_External); acc[n] = std::make_unique<types::Pointer>(s); Input i; i.name = n; i.elems = elems; fill(i, t, lo, hi); }
    void local(const std::string& n, const types::IType& t) { b.add_container(n, t); acc[n] = t.clone(); }
    const types::IType& base(const std::string& n) { auto i = acc.find(n); return i != acc.end() ? *i->second : b.subject().type(n); }
    // one block: dst = code(ops)
    structured_control_flow::Block& st(Sequence& s, const Op& dst, T code, const std::vector<Op>& ops, const control_flow::Assignments& as = {}) { auto& bl = b.add_block(s, as); into(bl, dst, code, ops); return bl; }
    data_flow::AccessNode& into(structured_control_flow::Block& bl, const Op& dst, T code, const std::vector<Op>& ops, const std::map<std::string, data_flow::AccessNode*>* nodes = nullptr) {
        std::vector<std::string> ins; for (size_t i = 0; i < ops.size(); i++) ins.push_back("_in" + std::to_string(i)); auto& t = b.add_tasklet(bl, code, "_out", ins);
        for (size_t i = 0; i < ops.size(); i++) { auto& o = ops[i]; if (isdigit((unsigned char)o.data[0]) || o.data[0] == '-') { const types::IType& ty = o.base ? *o.base : code >= T::fp_neg && code <= T::fp_uno ? (const types::IType&)f64 : i32; auto& c = b.add_constant(bl, o.data, ty); b.add_computational_memlet(bl, c, t, ins[i], {}, ty); continue; }
            data_flow::AccessNode* a = nullptr; if (nodes) { auto k = nodes->find(o.data); if (k != nodes->end()) a = k->second; } if (!a) a = &b.add_access(bl, o.data); b.add_computational_memlet(bl, *a, t, ins[i], o.sub, o.base ? *o.base : base(o.data)); }
        auto& d = b.add_access(bl, dst.data); b.add_computational_memlet(bl, t, "_out", d, dst.sub, dst.base ? *dst.base : base(dst.data)); return d;
    }
    types::Scalar f64{types::Double};
};
using Xf = bool (*)(StructuredSDFGBuilder&, analysis::AnalysisManager&, P&);
// run original and transformed on the same inputs; every memory cell an input names, the result and the calls made must agree
inline void same(Machine& m, Machine& n, std::vector<Input>& in, const char* what) {
    for (auto& i : in) if (i.elems > 0) { auto &x = m.objs[(size_t)i.object], &y = n.objs[(size_t)i.object]; bool eq = true, defd = true; for (size_t k = 0; k < x.c.size(); k++) if (x.c[k].st == 1) { defd = defd && y.c[k].st == 1 && y.c[k].size == x.c[k].size; if (y.c[k].st == 1) eq = eq & (x.c[k].v == y.c[k].v); } dsym_assert(defd, "the transformed program leaves the same memory set"); dsym_assert(eq, what); }
    dsym_assert(m.returned == n.returned, "the transformed program returns on the same path"); if (m.returned) dsym_assert(m.ret == n.ret, "the transformed program returns the same value"); bool tr = m.trace.size() == n.trace.size(); if (tr) for (size_t k = 0; k < m.trace.size(); k++) tr = tr & (m.trace[k] == n.trace[k]); dsym_assert(tr, "the transformed program makes the same calls");
}
inline bool agree(Machine& m, Machine& n, std::vector<Input>& in) { bool eq = m.trace.size() == n.trace.size() && m.returned == n.returned; for (auto& i : in) if (i.elems > 0) { auto &x = m.objs[(size_t)i.object], &y = n.objs[(size_t)i.object]; for (size_t k = 0; k < x.c.size(); k++) eq = eq & (x.c[k].st == y.c[k].st) & (x.c[k].v == y.c[k].v); } return eq & (m.ret == n.ret); }
inline void check(P& p, Xf xf, const char* what) {
    auto& sdfg = p.b.subject(); sdfg.validate(); auto c = sdfg.clone(); StructuredSDFGBuilder tb(c); analysis::AnalysisManager am(tb.subject()); bool applied;
    try { applied = xf(tb, am, p); } catch (const std::exception& e) { dsym_note(e.what()); dsym_assert(false, "the transformation does not fail"); return; }
    if (applied) dsym_reach("applied"); else if (!cfg("always", 0)) { dsym_reach("refused"); return; }
    try { tb.subject().validate(); } catch (const std::exception& e) { dsym_note(e.what()); dsym_assert(false, "the transformed program is valid"); return; }
    std::vector<Input> in2 = p.in; Options o1; o1.race = p.maps; Machine m(sdfg, o1); const char* e1 = m.run(p.in); if (e1) { dsym_note(e1); dsym_reach(e1); dsym_assume(false); } dsym_assume(!m.ub); if (p.maps) for (int k = 1; k < 3; k++) { std::vector<Input> q = p.in; Options ok; ok.maporder = k; Machine w(sdfg, ok); dsym_assume(!w.run(q)); dsym_assume(agree(m, w, p.in)); } // maps of the original: any order
    Options o; o.fuel = 4000; o.maporder = (int)cfg("maporder", 0); if (o.maporder == 3) o.maporder = (int)dsym_choice("maporder", 3); Machine n(tb.subject(), o); const char* e2 = n.run(in2); if (e2) dsym_note(e2); dsym_assert(!e2, "the transformed program has no invalid access, unset value, division by zero or endless loop the original lacks"); dsym_assert(!n.ub, "the transformed program has no overflow the original lacks"); same(m, n, p.in, what); dsym_reach("end");
}
inline bool fix(passes::Pass& p, StructuredSDFGBuilder& b, analysis::AnalysisManager& am, int max = 12) { bool any = false; for (int i = 0; i < max; i++) { if (!p.run(b, am)) return any; any = true; } dsym_assert(false, "the pass reaches a fixed point"); return any; }
} // namespace opt
