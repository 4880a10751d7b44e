// Generated C and C++ code against the program it was generated from.
#pragma once
#include "opt.h"
#include "crun.h"
#include "sdfg/codegen/code_generators/c_code_generator.h"
#include "sdfg/codegen/code_generators/cpp_code_generator.h"
#include "sdfg/codegen/dispatchers/node_dispatcher_registry.h"
namespace opt {
struct Emitted { std::string classes, globals, header, body; };
inline Emitted emit(sdfg::StructuredSDFG& f, bool cpp) {
    auto ip = codegen::InstrumentationPlan::none(f); auto ap = codegen::ArgCapturePlan::none(f); analysis::AnalysisManager am(f);
    auto take = [](codegen::CodeGenerator& g) { g.generate(); return Emitted{g.classes().str(), g.globals().str(), g.function_definition(), g.main().str()}; };
    if (cpp) { codegen::CPPCodeGenerator g(f, am, *ip, *ap); return take(g); } codegen::CCodeGenerator g(f, am, *ip, *ap); return take(g);
}
inline void registry() { static bool done = false; if (!done) { codegen::register_default_dispatchers(); done = true; } }
inline void generated(P& p, const char* what) {
    auto& f = p.b.subject(); f.validate(); bool cpp = cfg("cpp", 0); registry(); Emitted t;
    try { t = emit(f, cpp); } catch (const std::exception& e) { dsym_note(e.what()); dsym_assert(false, "code generation does not fail"); return; }
    std::vector<Input> in2 = p.in; Machine m(f); const char* e1 = m.run(p.in); if (e1) { dsym_note(e1); dsym_reach(e1); dsym_assume(false); } dsym_assume(!m.ub);
    dsym_note(t.body.c_str()); crun::Unit u; try { u = crun::parse(cpp, t.classes, t.globals, t.header, t.body); } catch (const crun::Stop& s) { dsym_note(s.why); dsym_assert(false, "the generated code is well-formed"); return; }
    crun::Run r(u, f, (int)cfg("fuel", 3000)); const char* e2 = r.go(in2); if (e2) dsym_note(e2); dsym_assert(!e2, "the generated code has no invalid access, unset value, ill-typed operation or endless loop the program lacks"); dsym_assert(!r.m.ub, "the generated code has no overflow the program lacks"); same(m, r.m, p.in, what); dsym_reach("end");
}
} // namespace opt
