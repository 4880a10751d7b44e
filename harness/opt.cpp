// Translation validation of docc's passes and transformations on families of small programs.
#include "opt.h"
#include "gen.h"
#include "ser.h"
#include "sdfg/passes/structured_control_flow/for2map.h"
#include "sdfg/passes/structured_control_flow/loop_normalization.h"
using namespace opt;
template std::basic_ostream<char, std::char_traits<char>>& std::operator<<(std::basic_ostream<char, std::char_traits<char>>&, const std::string&); // only declared extern by the library
// ---- one loop over arrays ----
static Expression idx(unsigned k) { Expression i = S("i"); switch (k) { case 0: return i; case 1: return i + K(1); case 2: return i - K(1); case 3: return K(2) * i; case 4: return S("N") - K(1) - i; case 5: return K(0); default: return S("N"); } }
static structured_control_flow::For& oneloop(P& p) {
    Expression i = S("i"), N = S("N"); symbolic::Symbol iv = symbolic::symbol("i"); p.scalar("N", types::Int64, true, cfg("Nlo", -1), cfg("Nhi", 4)); p.scalar("i"); p.array("A", 9); p.array("B", 9);
    Expression init, up; symbolic::Condition c; switch (pick("init", 3)) { case 0: init = K(0); break; case 1: init = K(1); break; default: init = N; } switch (pick("up", 4)) { case 0: up = i + K(1); break; case 1: up = i + K(2); break; case 2: up = i - K(1); break; default: up = K(2) * i; }
    switch (pick("cond", 7)) { case 0: c = symbolic::Lt(i, N); break; case 1: c = symbolic::Le(i, N - K(1)); break; case 2: c = symbolic::Ne(i, N); break; case 3: c = symbolic::Gt(i, K(0)); break; case 4: c = symbolic::And(symbolic::Lt(i, N), symbolic::Lt(i, K(3))); break; case 5: c = symbolic::Ge(i, K(1)); break; default: p.scalar("k", types::Int64, true, 0, 1); c = symbolic::Gt(i, S("k")); }
    auto& f = p.b.add_for(p.root(), iv, c, init, up); return f;
}
static void body1(P& p, Sequence& s) {
    unsigned k = pick("stmt", 7); Expression w = idx(pick("widx", 7)), r = idx(pick("ridx", 7));
    switch (k) {
    case 0: p.st(s, {"A", {w}}, T::int_add, {{"A", {r}}, {"B", {idx(0)}}}); break;                                                      // A[w] = A[r] + B[i]
    case 1: p.st(s, {"A", {w}}, T::int_add, {{"B", {r}}, {"1", {}}}); break;                                                            // A[w] = B[r] + 1
    case 2: p.scalar("t", types::Int32); p.st(s, {"t", {}}, T::int_mul, {{"B", {r}}, {"3", {}}}); p.st(s, {"A", {w}}, T::int_add, {{"t", {}}, {"A", {w}}}); break; // through a temporary
    case 3: p.scalar("t", types::Int32, true); p.st(s, {"t", {}}, T::int_add, {{"t", {}}, {"B", {r}}}); p.st(s, {"A", {w}}, T::assign, {{"t", {}}}); break; // running sum
    case 4: { p.scalar("j"); auto& bl = p.b.add_block(s, {{symbolic::symbol("j"), r}}); (void)bl; p.st(s, {"A", {S("j")}}, T::int_add, {{"B", {w}}, {"7", {}}}); break; } // index through a symbol
    case 6: if (!p.b.subject().exists("k")) p.scalar("k", types::Int64, true, 0, 1); p.b.add_block(s, {{symbolic::symbol("k"), S("k") + K(1)}}); p.st(s, {"A", {w}}, T::int_add, {{"B", {r}}, {"1", {}}}); break; // counts along
    default: { auto& ie = p.b.add_if_else(s); auto& th = p.b.add_case(ie, symbolic::Lt(w, K(2))); p.st(th, {"A", {idx(0)}}, T::assign, {{"B", {idx(0)}}}); auto& el = p.b.add_case(ie, symbolic::Not(symbolic::Lt(w, K(2)))); p.st(el, {"A", {r}}, T::assign, {{"5", {}}}); } // conditional
    }
}
static bool x_for2map(StructuredSDFGBuilder& b, analysis::AnalysisManager& am, P&) { passes::For2MapPass p; return fix(p, b, am); }
static void after(P& p) { unsigned k = pick("post", 4); if (k == 0) return; p.array("R", 1, types::Int64); if (k == 2) p.b.add_block(p.root(), {{symbolic::symbol("i"), K(1)}}); if (k == 3) { auto& ie = p.b.add_if_else(p.root()); p.b.add_block(p.b.add_case(ie, symbolic::Lt(S("N"), K(2))), {{symbolic::symbol("i"), K(1)}}); p.b.add_case(ie, symbolic::Ge(S("N"), K(2))); } p.st(p.root(), {"R", {K(0)}}, T::assign, {{"i", {}}}); } // the induction variable after the loop
extern "C" void h_for2map() { P p; auto& f = oneloop(p); body1(p, f.root()); after(p); check(p, x_for2map, "loop turned into a map: same memory"); }
static bool x_norm(StructuredSDFGBuilder& b, analysis::AnalysisManager& am, P&) { passes::LoopNormalizationPass p; return fix(p, b, am); }
extern "C" void h_loopnorm() { P p; auto& f = oneloop(p); body1(p, f.root()); after(p); check(p, x_norm, "normalised loop: same memory"); }
// ---- scalars, symbols and control flow ----
#include "sdfg/passes/dataflow/constant_propagation.h"
#include "sdfg/passes/dataflow/dead_data_elimination.h"
#include "sdfg/passes/dataflow/tasklet_fusion.h"
#include "sdfg/passes/structured_control_flow/block_fusion.h"
#include "sdfg/passes/structured_control_flow/sequence_fusion.h"
#include "sdfg/passes/structured_control_flow/dead_cfg_elimination.h"
#include "sdfg/passes/structured_control_flow/common_assignment_elimination.h"
#include "sdfg/passes/structured_control_flow/condition_elimination.h"
#include "sdfg/passes/structured_control_flow/while_to_for_conversion.h"
#include "sdfg/passes/symbolic/symbol_evolution.h"
#include "sdfg/passes/symbolic/symbol_promotion.h"
#include "sdfg/passes/symbolic/symbol_propagation.h"
#include "sdfg/passes/symbolic/type_minimization.h"
using symbolic::Symbol; static Symbol Y(const char* n) { return symbolic::symbol(n); }
static int loops_ = 0;
static types::Scalar L64{types::Int64};
static void stmt(P& p, Sequence& s, unsigned k, unsigned v) { // v: variant
    const char* X = v & 1 ? "y" : "x"; const char* Z = v & 2 ? "x" : "z"; auto c64 = [](const char* n) { return Op{n, {}, &L64}; }; auto empty = [&](const control_flow::Assignments& a) { p.b.add_block(s, a); };
    switch (k) {
    case 0: p.st(s, {X, {}}, T::assign, {{"a", {}}}); break;
    case 1: p.st(s, {"y", {}}, T::int_add, {{"x", {}}, c64("1")}); break;
    case 2: empty({{Y("z"), S("x") + S(v & 1 ? "y" : "a")}}); break;
    case 3: p.st(s, {"A", {S(Z)}}, T::int_add, {{"y", {}}, {"A", {K(0)}}}); break;
    case 4: p.st(s, {X, {}}, T::assign, {{"A", {S("z")}}}); break;
    case 5: p.st(s, {"E", {K(0)}}, T::assign, {{X, {}}}); break;
    case 6: { auto& ie = p.b.add_if_else(s); auto c = v & 1 ? symbolic::Lt(S("x"), S("y")) : symbolic::Eq(S("z"), K(2)); auto& t = p.b.add_case(ie, c); p.st(t, {"x", {}}, T::assign, {{"b", {}}}); auto& e = p.b.add_case(ie, symbolic::Not(c)); if (v & 2) p.b.add_block(e, {{Y("z"), S("z") + K(1)}}); else p.st(e, {"y", {}}, T::assign, {{"x", {}}}); break; }
    case 7: { std::string n = "i" + std::to_string(loops_++); p.scalar(n); Symbol i = symbolic::symbol(n); auto& f = p.b.add_for(s, i, symbolic::Lt(i, K(3)), K(0), i + K(1)); if (v == 0) p.st(f.root(), {"x", {}}, T::int_add, {{"x", {}}, {"A", {i}}}); else if (v == 1) { p.b.add_block(f.root(), {{Y("z"), S("z") + K(1)}}); } else if (v == 2) p.st(f.root(), {"A", {S("z") + i}}, T::assign, {{"x", {}}}); else { p.st(f.root(), {"y", {}}, T::assign, {{"A", {i}}}); p.b.add_block(f.root(), {{Y("z"), i}}); } break; }
    case 8: { auto& w = p.b.add_while(s); auto& ie = p.b.add_if_else(w.root()); auto& t = p.b.add_case(ie, symbolic::Ge(S("z"), K(3))); if (v & 1) p.b.add_break(t); else p.b.add_break(t, {}); auto& e = p.b.add_case(ie, symbolic::Lt(S("z"), K(3))); if (v & 2) { p.st(e, {"A", {S("z")}}, T::assign, {{"x", {}}}, {{Y("z"), S("z") + K(1)}}); } else { p.b.add_block(e, {{Y("z"), S("z") + K(v & 1 ? 2 : 1)}}); p.b.add_continue(e); } break; }
    case 9: p.st(s, {X, {}}, T::assign, {c64(v & 2 ? "2" : "0")}); break;
    case 10: empty({{Y("z"), v & 1 ? K(3) : v & 2 ? S("z") + K(1) : S("a")}}); break;
    case 11: p.st(s, {"y", {}}, T::assign, {{"x", {}}}); break;
    case 12: { auto& bl = p.b.add_block(s); auto& t = p.into(bl, {"t", {}}, v & 2 ? T::assign : T::int_add, v & 2 ? std::vector<Op>{{"a", {}}} : std::vector<Op>{{"a", {}}, {"x", {}}}); std::map<std::string, data_flow::AccessNode*> nodes{{"t", &t}}; p.into(bl, {X, {}}, T::int_add, {{"t", {}}, c64("1")}, &nodes); break; }
    case 13: { auto& ie = p.b.add_if_else(s); auto& t = p.b.add_case(ie, symbolic::Gt(S(v & 1 ? "x" : "z"), K(2))); if (v & 2) p.b.add_return(t, "x"); else { p.st(t, {"A", {K(1)}}, T::assign, {{"y", {}}}); p.b.add_block(t, {{Y("z"), K(0)}}); } break; }
    case 14: p.st(s, {"n", {}}, T::assign, {{X, {}}}); p.st(s, {"x", {}}, T::assign, {{"n", {}}}); break;                                  // through a 32-bit copy
    case 15: p.st(s, {"A", {K(2)}}, T::int_mul, {{X, {}}, {"y", {}}}); p.st(s, {"A", {K(2)}}, T::assign, {{"A", {K(3)}}}); break;          // overwritten store
    case 16: { auto& q = p.b.add_sequence(s, v & 1 ? control_flow::Assignments{{Y("y"), S("z") + K(1)}} : control_flow::Assignments{}); if (v & 2) { p.b.add_block(q, {{Y("z"), S("z") + K(1)}}); auto& q2 = p.b.add_sequence(q, {{Y("x"), S("z") + S("y")}}); p.st(q2, {"y", {}}, T::assign, {{"x", {}}}); } else { p.st(q, {"x", {}}, T::assign, {{"a", {}}}); p.b.add_block(q, {{Y("z"), S("x")}}); } break; } // nested sequences
    case 17: switch (v) {
        case 0: { auto& ie = p.b.add_if_else(s); p.st(p.b.add_case(ie, symbolic::__false__()), {"x", {}}, T::assign, {{"b", {}}}); p.st(p.b.add_case(ie, symbolic::__true__()), {"y", {}}, T::assign, {{"x", {}}}); break; }
        case 1: { auto& ie = p.b.add_if_else(s); p.b.add_case(ie, symbolic::Lt(S("z"), K(2))); break; }
        case 2: { auto& f = p.b.add_map(s, Y("t"), symbolic::Lt(S("t"), S("a") + K(1)), S("a"), S("t") + K(1), structured_control_flow::ScheduleType_Sequential::create()); p.st(f.root(), {"A", {S("t")}}, T::assign, {{"x", {}}}); break; }
        default: { auto& ie = p.b.add_if_else(s); auto c = symbolic::Lt(S("z"), K(2)); p.b.add_case(ie, c); p.st(p.b.add_case(ie, symbolic::Not(c)), {"y", {}}, T::assign, {{"x", {}}}); }
        } break;
    case 18: { auto& ie = p.b.add_if_else(s); auto c = symbolic::Lt(S("a"), K(2)); auto& t = p.b.add_case(ie, c); auto& e = p.b.add_case(ie, v == 2 ? symbolic::Gt(S("a"), K(2)) : symbolic::Not(c)); control_flow::Assignments q; if (v == 1) q = {{Y("z"), S("z") + K(1)}}; else if (v == 3) q = {{Y("z"), S("b")}}; else q = {{Y("z"), K(3)}}; p.st(t, {"x", {}}, T::assign, {{"b", {}}}, q); p.st(e, {"y", {}}, T::assign, {{"x", {}}}, q); break; } // the same assignment in both branches
    case 19: { std::string n = "i" + std::to_string(loops_++); p.scalar(n); Symbol i = symbolic::symbol(n); Expression N = S(v & 2 ? "z" : "a"); auto& ie = p.b.add_if_else(s); auto& t = p.b.add_case(ie, symbolic::Lt(K(0), N)); auto& f = p.b.add_for(t, i, symbolic::Lt(i, N), K(0), i + K(1), v & 1 ? control_flow::Assignments{{Y("y"), K(3)}} : control_flow::Assignments{}); p.st(f.root(), {"A", {i}}, T::assign, {{"x", {}}}); break; } // guarded loop
    case 20: { auto& w = p.b.add_while(s); auto go = symbolic::Lt(S("z"), v == 3 ? S("a") : K(3)); if (v == 2) { p.b.add_block(w.root(), {{Y("z"), S("z") + K(1)}}); p.st(w.root(), {"A", {S("z")}}, T::assign, {{"x", {}}}); } else p.st(w.root(), {"A", {S("z")}}, T::assign, {{"x", {}}}, {{Y("z"), S("z") + K(v == 3 ? 2 : 1)}}); auto& ie = p.b.add_if_else(w.root()); if (v == 1) { p.b.add_break(p.b.add_case(ie, symbolic::Not(go))); p.b.add_continue(p.b.add_case(ie, go)); } else { p.b.add_continue(p.b.add_case(ie, go)); p.b.add_break(p.b.add_case(ie, symbolic::Not(go))); } break; } // tested at the end
    case 21: { Expression e = symbolic::trunc_i32(v & 1 ? S("z") + S("a") : S("z")); if (v & 2) { std::string n = "i" + std::to_string(loops_++); p.scalar(n); Symbol i = symbolic::symbol(n); auto& f = p.b.add_for(s, i, symbolic::Lt(i, e), K(0), i + K(1)); p.st(f.root(), {"A", {symbolic::trunc_i32(i)}}, T::assign, {{"x", {}}}); } else p.st(s, {"A", {e}}, T::assign, {{"x", {}}}); break; }
    case 22: { auto& w = p.b.add_while(s); auto go = symbolic::Lt(S("z"), K(3)); p.st(w.root(), {"A", {S("z")}}, T::assign, {{"x", {}}}); auto& g = p.b.add_if_else(w.root()); auto& gt = p.b.add_case(g, symbolic::Lt(S("a"), K(v & 1 ? 4 : 2))); p.b.add_block(gt, {{Y("z"), S("z") + K(1)}}); if (v & 2) { auto& ge = p.b.add_case(g, symbolic::Le(K(v & 1 ? 4 : 2), S("a"))); p.st(ge, {"y", {}}, T::assign, {{"a", {}}}); p.b.add_break(ge); } auto& ie = p.b.add_if_else(w.root()); p.b.add_continue(p.b.add_case(ie, go)); p.b.add_break(p.b.add_case(ie, symbolic::Not(go))); break; } // conditional update
    case 23: { auto& w = p.b.add_while(s); auto go = symbolic::Lt(S("z"), v & 1 ? S("a") : K(3)); auto& ie = p.b.add_if_else(w.root()); auto& t = p.b.add_case(ie, go); p.st(t, {"A", {S("z")}}, T::assign, {{"x", {}}}, {{Y("z"), S("z") + K(1)}}); if (v & 2) { auto& q = p.b.add_if_else(t); p.b.add_continue(p.b.add_case(q, symbolic::Lt(S("a"), K(2)))); } p.st(t, {"y", {}}, T::assign, {{"x", {}}}); p.b.add_break(p.b.add_case(ie, symbolic::Not(go))); break; } // tested at the start
    }
}
static const unsigned NST = 24;
static void scalars(P& p) {
    loops_ = 0; p.scalar("a", types::Int64, true, 0, 3); p.scalar("b", types::Int64, true, -2, 3); for (auto n : {"x", "y", "z", "t"}) p.scalar(n); p.scalar("n", types::Int32); p.array("A", 10, types::Int64, 0, 3); p.ext("E", 1, types::Int64);
    Sequence& r = p.root(); p.st(r, {"x", {}}, T::assign, {{"a", {}}}); p.st(r, {"y", {}}, T::assign, {{"2", {}, &L64}}, {{Y("z"), K(1)}});
    int n = (int)cfg("n", 3), first = (int)cfg("first", -1); for (int i = 0; i < n; i++) { unsigned k = i == 0 && first >= 0 ? (unsigned)first : pick("st", NST); stmt(p, r, k, pick("var", 4)); }
    switch (pick("out", 3)) { case 0: p.st(r, {"A", {K(9)}}, T::assign, {{"x", {}}}); break; case 1: p.st(r, {"A", {K(9)}}, T::int_add, {{"y", {}}, {"z", {}}}); break; default: p.b.add_return(r, "x"); }
}
template<class PASS> static bool x_pass(StructuredSDFGBuilder& b, analysis::AnalysisManager& am, P&) { PASS p; return fix(p, b, am); }
static bool x_pipe(StructuredSDFGBuilder& b, analysis::AnalysisManager& am, P&) { bool r = false; switch (cfg("pipe", 0)) { case 0: r = passes::Pipeline::expression_combine().run(b, am); break; case 1: r = passes::Pipeline::controlflow_simplification().run(b, am); break; case 2: r = passes::Pipeline::dataflow_simplification().run(b, am); break; case 3: r = passes::Pipeline::data_parallelism().run(b, am); break; default: r |= passes::Pipeline::expression_combine().run(b, am); r |= passes::Pipeline::controlflow_simplification().run(b, am); r |= passes::Pipeline::dead_code_elimination().run(b, am); r |= passes::Pipeline::data_parallelism().run(b, am); } return r; }
static Xf passno(int k) {
    switch (k) { case 0: return x_pass<passes::SymbolPropagation>; case 1: return x_pass<passes::SymbolPromotion>; case 2: return x_pass<passes::SymbolEvolution>; case 3: return x_pass<passes::ConstantPropagation>; case 4: return x_pass<passes::DeadDataElimination>; case 5: return x_pass<passes::BlockFusionPass>; case 6: return x_pass<passes::TaskletFusionPass>; case 7: return x_pass<passes::SequenceFusion>;
    case 8: return x_pass<passes::DeadCFGElimination>; case 9: return x_pass<passes::CommonAssignmentElimination>; case 10: return x_pass<passes::ConditionEliminationPass>; case 11: return x_pass<passes::WhileToForConversion>; case 12: return x_pass<passes::TypeMinimizationPass>; case 13: return x_pass<passes::For2MapPass>; case 14: return x_pass<passes::LoopNormalizationPass>; default: return x_pipe; }
}
extern "C" void h_scalars() { P p; scalars(p); check(p, passno((int)cfg("pass", 0)), "transformed program: same memory"); }
// ---- loop nests ----
#include "sdfg/transformations/loop_interchange.h"
#include "sdfg/transformations/loop_tiling.h"
#include "sdfg/transformations/loop_skewing.h"
#include "sdfg/transformations/loop_distribute.h"
#include "sdfg/transformations/out_local_storage.h"
#include "sdfg/transformations/map_fusion.h"
using structured_control_flow::StructuredLoop;
static StructuredLoop& addloop(P& p, Sequence& s, const char* iv, symbolic::Condition c, Expression init, Expression up, bool map) { p.maps |= map; if (map) return p.b.add_map(s, symbolic::symbol(iv), c, init, up, structured_control_flow::ScheduleType_Sequential::create()); return p.b.add_for(s, symbolic::symbol(iv), c, init, up); }
static StructuredLoop* firstloop(Sequence& s, int skip = 0) { for (size_t i = 0; i < s.size(); i++) if (auto l = dynamic_cast<StructuredLoop*>(&s.at(i).first)) if (!skip--) return l; return nullptr; }
static void nest(P& p) {
    Expression i = S("i"), j = S("j"), N = S("N"), M = S("M"); p.scalar("N", types::Int64, true, 0, cfg("Nhi", 3)); p.scalar("M", types::Int64, true, 0, cfg("Mhi", 3)); p.scalar("i"); p.scalar("j"); p.array("A", 36); p.array("B", 36); p.array("R", 4, types::Int64);
    Expression init, up, jinit; symbolic::Condition c, d; switch (pick("init", 2)) { case 0: init = K(0); break; default: init = K(1); } up = i + K(1 + pick("up", 2)); switch (pick("cond", 4)) { case 0: c = symbolic::Lt(i, N); break; case 1: c = symbolic::Le(i, N); break; case 2: c = symbolic::Ne(i, N); break; default: c = symbolic::And(symbolic::Lt(i, N), symbolic::Lt(i, K(2))); }
    switch (pick("jinit", 3)) { case 0: jinit = K(0); break; case 1: jinit = i; break; default: jinit = K(1); } switch (pick("jcond", 3)) { case 0: d = symbolic::Lt(j, M); break; case 1: d = symbolic::Le(j, i); break; default: d = symbolic::Lt(j, K(3)); }
    unsigned kind = pick("kind", 4); auto& lo = addloop(p, p.root(), "i", c, init, up, kind & 1); unsigned imp = pick("imp", 3); if (imp == 1) p.st(lo.root(), {"A", {K(6) * i}}, T::assign, {{"B", {i}}});
    auto& li = addloop(p, lo.root(), "j", d, jinit, j + K(1 + (int)cfg("jstep", 0)), kind & 2); if (imp == 2) p.st(lo.root(), {"B", {i}}, T::assign, {{"A", {K(6) * i + K(1)}}});
    auto at = [&](Expression a, Expression b) { return data_flow::Subset{K(6) * (a + K(1)) + b + K(1)}; }; Sequence& s = li.root();
    switch (pick("stmt", 6)) {
    case 0: { int q = (int)pick("dep", 9); p.st(s, {"A", at(i, j)}, T::int_add, {{"A", at(i + K(q / 3 - 1), j + K(q % 3 - 1))}, {"B", at(j, i)}}); break; }
    case 1: p.st(s, {"A", at(i, j)}, T::int_add, {{"B", at(j, i)}, {"1", {}}}); p.st(s, {"B", at(i, j)}, T::int_sub, {{"A", at(i, j)}, {"3", {}}}); break;
    case 2: p.st(s, {"A", {i}}, T::int_add, {{"A", {i}}, {"B", at(i, j)}}); break;
    case 3: p.st(s, {"A", {j}}, T::int_add, {{"A", {j}}, {"B", at(i, j)}}); break;
    case 4: p.scalar("t", types::Int32); p.st(s, {"t", {}}, T::int_mul, {{"B", at(j, i)}, {"3", {}}}); p.st(s, {"A", at(i, j)}, T::int_add, {{"t", {}}, {"A", at(i, j)}}); break;
    default: p.st(s, {"A", {K(0)}}, T::int_add, {{"A", {K(0)}}, {"B", at(i, j)}});
    }
    switch (pick("post", kind & 1 ? 1 : 3)) { case 0: break; case 1: p.st(p.root(), {"R", {K(0)}}, T::assign, {{"i", {}}}); break; default: p.b.add_block(p.root(), {{symbolic::symbol("i"), K(1)}}); p.st(p.root(), {"R", {K(0)}}, T::assign, {{"i", {}}}); }
}
template<class X> static bool once(X&& x, StructuredSDFGBuilder& b, analysis::AnalysisManager& am) { if (!x.can_be_applied(b, am)) return false; x.apply(b, am); return true; }
static bool x_nest(StructuredSDFGBuilder& b, analysis::AnalysisManager& am, P&) {
    auto* lo = firstloop(b.subject().root()); if (!lo) return false; auto* li = firstloop(lo->root()); using namespace transformations;
    switch (cfg("xf", 0)) { case 0: return once(LoopInterchange(*lo, *li), b, am); case 1: return once(LoopTiling(*lo, (size_t)cfg("tile", 2)), b, am); case 2: return once(LoopTiling(*li, (size_t)cfg("tile", 2)), b, am); case 3: return once(LoopSkewing(*lo, *li, (int)cfg("skew", 1)), b, am); case 4: return once(LoopDistribute(*lo), b, am); case 5: return once(LoopDistribute(*li), b, am);
    case 6: return once(OutLocalStorage(*lo, cfg("ols", 0) ? "B" : "A"), b, am); case 7: return once(OutLocalStorage(*li, cfg("ols", 0) ? "B" : "A"), b, am); case 8: { passes::For2MapPass p; return fix(p, b, am); } default: { passes::LoopNormalizationPass p; return fix(p, b, am); } }
}
extern "C" void h_nest() { P p; nest(p); check(p, x_nest, "transformed nest: same memory"); }
// ---- two loops ----
static void pair(P& p) {
    Expression i = S("i"), j = S("j"), N = S("N"), M = S("M"); p.scalar("N", types::Int64, true, 0, 3); p.scalar("M", types::Int64, true, 0, 3); p.scalar("i"); p.scalar("j"); p.array("A", 9); p.array("B", 9); p.array("T", 9); if (!cfg("preset", 0)) p.blank("T");
    auto& f = addloop(p, p.root(), "i", symbolic::Lt(i, N), K(pick("init", 2)), i + K(1 + pick("up", 2)), true); Expression w; switch (pick("widx", 5)) { case 0: w = i; break; case 1: w = i + K(1); break; case 2: w = K(2) * i; break; case 3: w = N - i; break; default: w = i + M; }
    Expression r = pick("ridx", 2) ? i + K(1) : i; p.st(f.root(), {"T", {w}}, T::int_add, {{pick("src", 2) ? "B" : "A", {r}}, {"1", {}}});
    if (pick("gap", 2)) p.b.add_block(p.root());
    auto& g = addloop(p, p.root(), "j", symbolic::Lt(j, pick("bound", 2) ? M : N), K(pick("jinit", 2)), j + K(1 + pick("jup", 2)), pick("second", 2)); auto ix = [&](unsigned k) -> Expression { switch (k) { case 0: return j; case 1: return j + K(1); case 2: return K(2) * j; default: return N - j; } };
    Expression c = ix(pick("cidx", 4)); switch (pick("cons", 4)) { case 0: p.st(g.root(), {"B", {j}}, T::int_mul, {{"T", {c}}, {"3", {}}}); break; case 1: p.st(g.root(), {"B", {j}}, T::int_add, {{"T", {c}}, {"T", {ix(0)}}}); break; case 2: p.st(g.root(), {"A", {j}}, T::int_add, {{"T", {c}}, {"2", {}}}); break; default: p.st(g.root(), {"A", {j}}, T::assign, {{"T", {c}}}); p.st(g.root(), {"B", {j}}, T::assign, {{"A", {j + K(1)}}}); }
}
static bool x_pair(StructuredSDFGBuilder& b, analysis::AnalysisManager& am, P&) { auto *f = firstloop(b.subject().root()), *g = firstloop(b.subject().root(), 1); return once(transformations::MapFusion(dynamic_cast<structured_control_flow::Map&>(*f), *g), b, am); }
extern "C" void h_pair() { P p; pair(p); check(p, x_pair, "fused loops: same memory"); }

// ---- generated code ----
static void emitted(P& p) { if (cfg("ser", 0)) roundtrip(p, "read back: same memory"); else generated(p, "generated code: same memory"); }
static void rettype(P& p) { p.b.set_return_type(types::Scalar(types::Int64)); }
extern "C" void h_gen_scalars() { P p; rettype(p); scalars(p); emitted(p); }
extern "C" void h_gen_nest() { P p; nest(p); p.maps = false; emitted(p); }
extern "C" void h_gen_pair() { P p; pair(p); emitted(p); }
// one tasklet of every code over typed scalars
static types::PrimitiveType ity(unsigned k) { static const types::PrimitiveType t[] = {types::Int8, types::Int16, types::Int32, types::Int64, types::UInt8, types::UInt16, types::UInt32, types::UInt64, types::Bool, types::Float, types::Double}; return t[k]; }
static void targ(P& p, const std::string& n, types::PrimitiveType t) { p.b.add_container(n, types::Scalar(t), true); Input i; i.name = n; i.pointer = false; i.elems = 0; i.value = (int64_t)dsym_u64(n.c_str()); if (!sdfgev::flt(t)) i.value = sdfgev::wrap(i.value, t); p.in.push_back(i); }
extern "C" void h_gen_ops() {
    P p; unsigned lo = (unsigned)cfg("lo", 0), k = lo + pick("code", (unsigned)cfg("n", 16)); auto c = (T)k; bool fp = data_flow::is_floating_point(c), asg = c == T::assign, cmp = c >= T::fp_oeq && c <= T::fp_uno;
    types::PrimitiveType t = ity(fp ? 9 + pick("fty", 2) : pick("ity", asg ? 11 : 8)), o = t; if (asg) o = ity(pick("oty", 11)); else if (cmp) o = pick("oty", 2) ? types::Bool : types::Int32; else if (!fp && pick("wide", 2)) o = sdfgev::sgn(t) ? types::Int64 : types::UInt64;
    size_t n = data_flow::arity(c); std::vector<Op> in; for (size_t i = 0; i < n; i++) { std::string nm(1, (char)('a' + i)); targ(p, nm, t); in.push_back({nm, {}}); }
    unsigned cst = n == 2 && !asg ? pick("const", 2) : 0; types::Scalar ty(t); static const char *ci[] = {"3", "2.5"}; if (cst) in[1] = {ci[fp], {}, &ty}; 
    p.local("r", types::Scalar(o)); p.b.add_container("O", p.opq, true); p.acc["O"] = std::make_unique<types::Pointer>(types::Scalar(o)); Input i; i.name = "O"; i.elems = 1; p.fill(i, o, 0, 0); p.blank("O");
    p.st(p.root(), {"r", {}}, c, in); p.st(p.root(), {"O", {K(0)}}, T::assign, {{"r", {}}}); emitted(p);
}
// symbolic expressions in assignments, conditions, bounds and subscripts
static Expression texpr(unsigned k) {
    Expression a = S("a"), b = S("b"), n = S("n"); switch (k) {
    case 0: return a - (b - n); case 1: return (a + b) * (a - K(1)); case 2: return K(-1) * a * b + K(7); case 3: return a * a - b * b; case 4: return symbolic::pow(a, K(3)); case 5: return symbolic::pow(a - K(1), K(2)) * K(2);
    case 6: return symbolic::div(a + b, K(2)); case 7: return symbolic::mod(a - b, K(3)); case 8: return symbolic::div(symbolic::div(a, K(2)), b - n) * K(3); case 9: return symbolic::min(a, symbolic::min(b, n)); case 10: return symbolic::max(a + b, symbolic::max(b, K(2))) - K(1);
    case 11: return symbolic::abs(a - b) * K(2); case 12: return symbolic::zext_i64(n); case 13: return symbolic::trunc_i32(a * K(3)) + K(1); case 14: return symbolic::size_of_type(types::Scalar(types::Int32)) * a; case 15: return K(2) * (a - (b + K(3)) * (n - a));
    case 16: return symbolic::pow(K(2), symbolic::abs(n)); case 17: return symbolic::min(a, b) - symbolic::max(a, b); case 18: return K(4000000000ll) + a; case 19: return K(-3) - a; case 20: return symbolic::div(K(-1) * a, K(3)) - symbolic::mod(b, K(2)); case 21: return symbolic::zext_i64(n) - symbolic::zext_i64(S("n")) + symbolic::divide_ceil(symbolic::abs(a), K(3)); default: return a;
    }
}
static symbolic::Condition tcond(unsigned k) {
    Expression a = S("a"), b = S("b"), n = S("n"); switch (k) {
    case 0: return symbolic::Lt(a, b); case 1: return symbolic::Le(a, b - n); case 2: return symbolic::Eq(a, b); case 3: return symbolic::Ne(a, n); case 4: return symbolic::And(symbolic::Lt(a, b), symbolic::Not(symbolic::Eq(b, n))); case 5: return symbolic::Or(symbolic::And(symbolic::Lt(a, b), symbolic::Lt(b, n)), symbolic::Eq(a, n)); case 6: return symbolic::Not(symbolic::And(symbolic::Lt(a, b), symbolic::Le(n, b))); case 7: return symbolic::And(symbolic::Or(symbolic::Lt(a, b), symbolic::Eq(n, symbolic::integer(1))), symbolic::Or(symbolic::Ne(a, n), symbolic::Lt(b, n))); case 8: return symbolic::Gt(a, symbolic::integer(2)); case 9: return symbolic::Ge(a - b, symbolic::max(n, symbolic::integer(0))); case 10: return symbolic::Not(symbolic::Or(symbolic::Eq(a, b), symbolic::Eq(b, n))); default: return symbolic::Eq(S("c"), symbolic::__true__());
    }
}
extern "C" void h_gen_expr() {
    P p; p.scalar("a", types::Int64, true, -5, 6); p.scalar("b", types::Int64, true, -5, 6); p.scalar("n", types::Int32, true, -5, 6); p.scalar("y"); p.array("O", 2, types::Int64); Sequence& r = p.root();
    switch (cfg("where", 0)) {
    case 0: p.b.add_block(r, {{symbolic::symbol("y"), texpr(pick("e", 22))}}); p.st(r, {"O", {K(0)}}, T::assign, {{"y", {}}}); break;
    case 1: { targ(p, "c", types::Bool); auto &c1 = *new symbolic::Condition(tcond(pick("c1", 12))), &c2 = *new symbolic::Condition(tcond(pick("c2", 12))); auto& ie = p.b.add_if_else(r); p.st(p.b.add_case(ie, c1), {"O", {K(0)}}, T::assign, {{"1", {}, &p.i64}}); p.st(p.b.add_case(ie, c2), {"O", {K(0)}}, T::assign, {{"2", {}, &p.i64}}); p.st(r, {"O", {K(1)}}, T::assign, {{"O", {K(0)}}}); break; }
    case 2: { p.scalar("i"); p.array("A", 40, types::Int64); auto& f = p.b.add_for(r, symbolic::symbol("i"), symbolic::And(symbolic::Lt(S("i"), texpr(pick("e", 12))), symbolic::Lt(S("i"), K(3))), pick("lo", 2) ? symbolic::max(K(0), S("n")) : K(0), S("i") + K(1)); p.st(f.root(), {"A", {S("i") * K(7) + symbolic::abs(S("b"))}}, T::int_add, {{"A", {K(20) - S("i") * symbolic::max(S("a"), K(0))}}, {"5", {}, &p.i64}}); break; }
    default: { p.array("A", 40, types::Int64); p.st(r, {"A", {symbolic::max(symbolic::min(texpr(pick("e", 22)), K(39)), K(0))}}, T::assign, {{"a", {}}}); }
    } emitted(p);
}
#include "sdfg/data_flow/library_nodes/math/cmath/cmath_node.h"
static void lib(P& p, structured_control_flow::Block& b, data_flow::LibraryNode& l, const std::vector<std::pair<std::string, const types::IType*>>& in, const std::vector<std::pair<std::string, const types::IType*>>& out, const std::vector<data_flow::Subset>& is = {}) { for (size_t i = 0; i < in.size(); i++) p.b.add_computational_memlet(b, p.b.add_access(b, in[i].first), l, l.inputs().at(i), i < is.size() ? is[i] : data_flow::Subset{}, *in[i].second); for (size_t i = 0; i < out.size(); i++) p.b.add_computational_memlet(b, l, l.outputs().at(i), p.b.add_access(b, out[i].first), {}, *out[i].second); }
extern "C" void h_gen_mem() {
    P p; Sequence& r = p.root(); p.scalar("a", types::Int64, true, 0, 2); p.scalar("b", types::Int64, true, 0, 2); p.scalar("x", types::Int32); p.array("O", 6, types::Int64); Expression a = S("a"), b = S("b"); types::Scalar i32(types::Int32), i64(types::Int64), f64(types::Double), f32(types::Float); types::Pointer pi32(i32), pi64(i64);
    switch (cfg("k", 0)) {
    case 0: p.ext("E", 6); p.ext("e", 1); p.st(r, {"E", {a + K(1)}}, T::int_add, {{"E", {b}}, {"e", {K(0)}}}); p.st(r, {"e", {K(0)}}, T::int_sub, {{"E", {b}}, {"E", {a}}}); break;
    case 1: case 2: { auto& d = p.b.add_structure("rec", cfg("k", 0) == 2); d.add_member(types::Scalar(types::Int8)); d.add_member(i64); d.add_member(types::Array(i32, K(3))); d.add_member(i32); types::Structure st("rec"); p.local("s", st); p.local("v", types::Array(st, K(3)));
        p.st(r, {"s", {K(1)}}, T::int_add, {{"a", {}}, {"b", {}}}); p.st(r, {"s", {K(2), a}}, T::assign, {{"9", {}}}); p.st(r, {"v", {b, K(2), K(1)}}, T::assign, {{"s", {K(2), a}}}); p.st(r, {"v", {a, K(1)}}, T::int_mul, {{"s", {K(1)}}, {"s", {K(1)}}}); p.st(r, {"v", {b, K(3)}}, T::assign, {{"v", {b, K(2), K(1)}}}); p.st(r, {"v", {a, K(0)}}, T::assign, {{"5", {}}}); p.st(r, {"O", {K(0)}}, T::assign, {{"v", {b, K(3)}}}); p.st(r, {"O", {K(1)}}, T::assign, {{"v", {a, K(1)}}}); p.st(r, {"O", {K(2)}}, T::assign, {{"v", {a, K(0)}}}); break; }
    case 3: { p.array("A", 8); p.b.add_container("q", p.opq); p.acc["q"] = pi32.clone(); auto& bl = p.b.add_block(r); p.b.add_reference_memlet(bl, p.b.add_access(bl, "A"), p.b.add_access(bl, "q"), {a + K(2)}, pi32); p.st(r, {"q", {b}}, T::int_add, {{"A", {a}}, {"q", {K(1)}}}); p.st(r, {"O", {K(0)}}, T::assign, {{"q", {b}}}); auto& b2 = p.b.add_block(r); p.b.add_dereference_memlet(b2, p.b.add_access(b2, "q"), p.b.add_access(b2, "x"), true, pi32); p.st(r, {"O", {K(1)}}, T::assign, {{"x", {}}}); auto& b3 = p.b.add_block(r); p.b.add_dereference_memlet(b3, p.b.add_access(b3, "x"), p.b.add_access(b3, "A"), false, pi32); break; }
    case 4: { a = K(pick("va", 3)); b = K(pick("vb", 3)); p.array2("A", 3, 4); p.st(r, {"A", {a, b + K(1)}}, T::int_sub, {{"A", {b, a}}, {"A", {a, K(3)}}}); types::Pointer vla(types::Array(i32, b + K(2))); p.b.add_container("q", p.opq); p.acc["q"] = vla.clone(); auto& bl = p.b.add_block(r); p.b.add_reference_memlet(bl, p.b.add_access(bl, "A"), p.b.add_access(bl, "q"), {K(0), K(1)}, *p.acc["A"]); p.st(r, {"q", {a, b}}, T::int_add, {{"q", {b, a - a}}, {"3", {}}}); break; }
    case 5: { p.local("L", types::Array(types::Array(i64, K(3)), K(3))); p.local("M", types::Array(i64, K(9))); p.st(r, {"L", {a, b}}, T::int_sub, {{"a", {}}, {"b", {}}}); p.st(r, {"M", {a * K(3) + b}}, T::assign, {{"L", {a, b}}}); p.st(r, {"O", {a + b}}, T::int_add, {{"M", {K(3) * a + b}}, {"L", {a, b}}}); break; }
    case 6: { p.b.add_container("q", cfg("typed", 0) ? pi64 : p.opq); p.b.add_container("w", p.opq); p.acc["q"] = pi64.clone(); p.acc["w"] = pi64.clone(); unsigned how = pick("alloc", 3); auto& bl = p.b.add_block(r); if (how == 0) lib(p, bl, p.b.add_library_node<stdlib::MallocNode>(bl, DebugInfo(), K(8) * (a + K(2))), {}, {{"q", &pi64}}); else if (how == 1) lib(p, bl, p.b.add_library_node<stdlib::CallocNode>(bl, DebugInfo(), a + K(2), K(8)), {}, {{"q", &pi64}}); else lib(p, bl, p.b.add_library_node<stdlib::AllocaNode>(bl, DebugInfo(), K(8) * (a + K(2))), {}, {{"q", &pi64}});
        p.st(r, {"q", {K(0)}}, T::assign, {{"b", {}}}); p.st(r, {"q", {a + K(1)}}, T::int_add, {{"q", {K(0)}}, {"a", {}}}); auto& b2 = p.b.add_block(r); lib(p, b2, p.b.add_library_node<stdlib::MallocNode>(b2, DebugInfo(), K(32)), {}, {{"w", &pi64}}); unsigned mv = pick("move", 3); auto& b3 = p.b.add_block(r);
        if (mv == 0) lib(p, b3, p.b.add_library_node<stdlib::MemcpyNode>(b3, DebugInfo(), K(8) * (a + K(2))), {{"q", &pi64}}, {{"w", &pi64}}); else if (mv == 1) lib(p, b3, p.b.add_library_node<stdlib::MemmoveNode>(b3, DebugInfo(), K(8) * (a + K(1))), {{"q", &pi64}}, {{"w", &pi64}}); else lib(p, b3, p.b.add_library_node<stdlib::MemsetNode>(b3, DebugInfo(), pick("fill", 2) ? K(255) : K(0), K(8) * (b + K(1))), {}, {{"w", &pi64}});
        p.st(r, {"O", {K(0)}}, T::assign, {{"w", {K(0)}}}); p.st(r, {"O", {K(1)}}, T::assign, {{"q", {a + K(1)}}}); if (how < 2) { auto& b4 = p.b.add_block(r); auto& fr = p.b.add_library_node<stdlib::FreeNode>(b4, DebugInfo()); lib(p, b4, fr, {{"q", &pi64}}, {{"q", &pi64}}); } break; }
    case 7: { types::Function fn(i64); fn.add_param(i64); fn.add_param(pi32); p.b.add_external("g", fn, LinkageType_External); types::Function fv((types::Scalar(types::Void))); fv.add_param(i32); p.b.add_external("h", fv, LinkageType_External); p.array("A", 4); p.scalar("y"); auto& bl = p.b.add_block(r); lib(p, bl, p.b.add_library_node<data_flow::CallNode>(bl, DebugInfo(), std::string("g"), std::vector<std::string>{"_ret"}, std::vector<std::string>{"_arg0", "_arg1"}), {{"a", &i64}, {"A", &pi32}}, {{"y", &i64}}); p.st(r, {"O", {K(0)}}, T::assign, {{"y", {}}}); p.st(r, {"x", {}}, T::assign, {{"A", {b}}}); auto& b2 = p.b.add_block(r); lib(p, b2, p.b.add_library_node<data_flow::CallNode>(b2, DebugInfo(), std::string("h"), std::vector<std::string>{}, std::vector<std::string>{"_arg0"}), {{"x", &i32}}, {}); break; }
    case 8: { using F = math::cmath::CMathFunction; static const unsigned fx[] = {43, 44, 45, 46, 47, 48}; unsigned fk = pick("fun", 57); for (auto x : fx) dsym_assume(fk != x); auto fn = (F)fk; bool integral = fn == F::lround || fn == F::llround || fn == F::lrint || fn == F::llrint; auto prim = pick("prec", 2) ? types::Float : types::Double; types::Scalar ft(prim); targ(p, "u", prim); targ(p, "v", prim); targ(p, "w", prim); p.b.add_container("Q", p.opq, true); p.acc["Q"] = std::make_unique<types::Pointer>(ft); Input i; i.name = "Q"; i.elems = 1; p.fill(i, prim, 0, 0); auto oprim = integral ? types::Int64 : prim; types::Scalar zt(oprim); if (integral) p.acc["Q"] = std::make_unique<types::Pointer>(i64); p.scalar("z", oprim); auto& bl = p.b.add_block(r); auto& l = p.b.add_library_node<math::cmath::CMathNode>(bl, DebugInfo(), fn, prim); const char* nm[] = {"u", "v", "w"}; std::vector<std::pair<std::string, const types::IType*>> in; for (size_t k = 0; k < l.inputs().size(); k++) in.push_back({nm[k], &ft}); lib(p, bl, l, in, {{"z", &zt}}); p.st(r, {"Q", {K(0)}}, T::assign, {{"z", {}}}); break; }
    case 9: { p.b.add_container("h", types::Pointer(types::StorageType::CPU_Heap(K(8) * (a + K(1)), types::StorageType::AllocationType::Managed, types::StorageType::Managed), 0, "", i64)); p.b.add_container("k", types::Pointer(types::StorageType("CPU_Stack", K(16), types::StorageType::Managed, types::StorageType::Unmanaged), 0, "", i64)); p.acc["h"] = pi64.clone(); p.acc["k"] = pi64.clone(); p.st(r, {"h", {a}}, T::assign, {{"b", {}}}); p.st(r, {"k", {K(1)}}, T::int_add, {{"h", {a}}, {"1", {}, &i64}}); p.st(r, {"O", {b}}, T::assign, {{"k", {K(1)}}}); break; }
    case 10: { p.ext("E", 6); unsigned w = pick("ret", 4); auto& ie = p.b.add_if_else(r); auto& t = p.b.add_case(ie, symbolic::Lt(a, b)); if (w == 0) { p.b.set_return_type(i64); p.b.add_return(t, "a"); p.b.add_constant_return(r, "-7", i64); } else if (w == 1) { p.b.set_return_type(pi32); p.b.add_return(t, "E"); p.b.add_constant_return(r, symbolic::__nullptr__()->get_name(), pi32); } else if (w == 2) { p.b.set_return_type(i32); p.st(r, {"x", {}}, T::assign, {{"E", {a}}}); p.b.add_constant_return(t, "3", i32); p.b.add_return(r, "x"); } else { p.b.set_return_type(types::Scalar(types::Bool)); p.b.add_constant_return(t, "true", types::Scalar(types::Bool)); p.b.add_constant_return(r, "false", types::Scalar(types::Bool)); } break; }
    case 11: { p.b.add_container("q", p.opq); p.acc["q"] = pi32.clone(); p.array("A", 4); auto& bl = p.b.add_block(r); p.b.add_reference_memlet(bl, p.b.add_constant(bl, symbolic::__nullptr__()->get_name(), p.opq), p.b.add_access(bl, "q"), {}, p.opq); auto& ie = p.b.add_if_else(r); auto& t = p.b.add_case(ie, symbolic::Lt(a, b)); auto& b2 = p.b.add_block(t); p.b.add_reference_memlet(b2, p.b.add_access(b2, "A"), p.b.add_access(b2, "q"), {b}, pi32); auto& i2 = p.b.add_if_else(r); p.st(p.b.add_case(i2, symbolic::Ne(S("q"), symbolic::__nullptr__())), {"O", {K(0)}}, T::assign, {{"q", {K(1)}}}); p.st(p.b.add_case(i2, symbolic::Eq(S("q"), symbolic::__nullptr__())), {"O", {K(0)}}, T::assign, {{"a", {}}}); break; }
    default: { // nested blocks with the same connectors, several outputs, chains inside one block
        auto& bl = p.b.add_block(r); p.scalar("t"); auto& t1 = p.into(bl, {"t", {}}, T::int_add, {{"a", {}}, {"b", {}}}); std::map<std::string, data_flow::AccessNode*> nodes{{"t", &t1}}; p.into(bl, {"O", {K(0)}}, T::int_mul, {{"t", {}}, {"t", {}}}, &nodes); p.into(bl, {"O", {K(1)}}, T::int_sub, {{"t", {}}, {"2", {}, &i64}}, &nodes); p.b.add_block(r, {{symbolic::symbol("t"), S("t") * K(2)}}); p.st(r, {"O", {K(2)}}, T::assign, {{"t", {}}}); }
    } emitted(p);
}
// everything a program carries besides its computation
static DebugInfo dbg(const char* n, uint64_t mask) { auto v = [&](const char* s) { return (size_t)(dsym_u64((std::string(n) + s).c_str()) & mask); }; return DebugInfo(std::string("f\"\\é/") + n, n, v("l"), v("c"), v("L"), v("C")); }
static bool samedbg(const DebugInfo& a, const DebugInfo& b) { return a.has() == b.has() && a.filename() == b.filename() && a.function() == b.function() && a.start_line() == b.start_line() && a.start_column() == b.start_column() && a.end_line() == b.end_line() && a.end_column() == b.end_column(); }
extern "C" void h_ser_deco() {
    using ST = types::StorageType; uint64_t mask = cfg("text", 0) ? 3 : ~0ull; P p; Sequence& r = p.root(); p.scalar("a", types::Int64, true, -100, 100); p.array("O", 4, types::Int64); types::Scalar i32(types::Int32), i64(types::Int64); static const ScheduleTypeCategory cats[] = {ScheduleTypeCategory::Offloader, ScheduleTypeCategory::Parallelizer, ScheduleTypeCategory::Vectorizer, ScheduleTypeCategory::None};
    p.b.subject().add_metadata("k1", "v \"quoted\" \n"); p.b.subject().add_metadata("", "empty"); size_t al = (size_t)(dsym_u64("align") & mask);
    ST s1("NV_Global", S("a") * K(8), pick("al", 2) ? ST::Managed : ST::Unmanaged, pick("de", 2) ? ST::Managed : ST::Unmanaged); s1.arg1(S("a") + K(1)); types::Scalar d1(s1, al, "{7}", types::Double); p.b.add_container("d1", d1); p.b.add_container("d2", types::Array(ST::NV_Shared(), al, "i", types::Array(i32, K(2)), K(3))); p.b.add_container("d3", types::Pointer(ST::CPU_Heap(), 16, "", d1)); types::Tensor ten(ST::CPU_Heap(), al, "t", i64, {K(2), S("a") + K(2)}, {K(1), K(2)}, K(1)); p.b.add_container("d4", types::Pointer(types::Array(types::Scalar(types::Float), S("a") * K(2))));
    types::Function fn(i64, pick("var", 2)); fn.add_param(i32); fn.add_param(types::Pointer(i64)); p.b.add_external("zf", fn, pick("link", 2) ? LinkageType_Internal : LinkageType_External); p.b.add_external("ag", i64, LinkageType_Internal); auto& sd = p.b.add_structure("rec", pick("packed", 2)); sd.add_member(i32); sd.add_member(types::Pointer()); types::Structure inner(ST::CPU_Heap(), al, "x", "rec"); auto& s2 = p.b.add_structure("alpha", false); s2.add_member(inner); p.b.add_container("d5", types::Pointer(types::Array(inner, K(2))));
    std::vector<std::pair<std::string, types::PrimitiveType>> prims; for (auto t : {types::Void, types::Bool, types::Int8, types::Int128, types::UInt16, types::UInt128, types::Half, types::BFloat, types::X86_FP80, types::FP128, types::PPC_FP128}) { std::string n = "e" + std::to_string((int)t); if (t != types::Void) p.b.add_container(n, types::Pointer(types::Scalar(t))); }
    ScheduleType sch("OTHER", cats[pick("cat", 4)]); sch.set_property("x", "1"); sch.set_property("y z", "\"q\""); DebugInfo di[7]; for (int k = 0; k < 7; k++) di[k] = dbg(std::string(1, (char)('p' + k)).c_str(), cfg("text", 0) && k != 3 ? 0 : mask);
    p.scalar("i"); p.scalar("y"); auto& m = p.b.add_map(r, symbolic::symbol("i"), symbolic::Lt(S("i"), K(2)), K(0), S("i") + K(1), structured_control_flow::ScheduleType_Sequential::create(), {{symbolic::symbol("y"), S("a") + K(1)}}, di[0]); bool later = pick("later", 2); if (later) p.b.update_schedule_type(m, sch); else p.b.update_schedule_type(m, ScheduleType("OTHER", sch.category()));
    dsym_assert(m.schedule_type().value() == "OTHER" && m.schedule_type().category() == sch.category() && m.schedule_type().properties().size() == (later ? 2 : 0), "a map gets the schedule it is given");
    auto& bl = p.b.add_block(m.root(), {}, di[1]); auto& in = p.b.add_access(bl, "a", di[2]); auto& out = p.b.add_access(bl, "O", di[3]); auto& t = p.b.add_tasklet(bl, T::assign, "o", {"q"}, di[4]); p.b.add_computational_memlet(bl, in, t, "q", {}, i64, di[5]); if (pick("ten", 2)) p.b.add_computational_memlet(bl, t, "o", out, {S("i"), K(0)}, ten, di[6]); else p.b.add_computational_memlet(bl, t, "o", out, {S("i")}, types::Pointer(i64), di[6]);
    auto& w = p.b.add_while(r, {}, di[2]); auto& ie = p.b.add_if_else(w.root(), {}, di[3]); auto& c1 = p.b.add_case(ie, symbolic::Lt(S("a"), K(0)), di[4]); p.b.add_break(c1, {}, di[5]); auto& c2 = p.b.add_case(ie, symbolic::__true__(), di[4]); auto& sq = p.b.add_sequence(c2, {{symbolic::symbol("y"), S("y") + K(1)}}, di[6]); (void)sq; p.b.add_return(w.root(), "y", {}, di[1]); p.b.set_return_type(i64);
    roundtrip(p, "read back: same memory"); auto& f = p.b.subject(); auto g = f.clone(); auto& gr = g->root(); auto& gm = dynamic_cast<structured_control_flow::Map&>(gr.at(0).first); auto& gw = dynamic_cast<structured_control_flow::While&>(gr.at(1).first); auto& gi = dynamic_cast<structured_control_flow::IfElse&>(gw.root().at(0).first); auto& gb = dynamic_cast<structured_control_flow::Block&>(gm.root().at(0).first);
    dsym_assert(gm.schedule_type().value() == m.schedule_type().value() && gm.schedule_type().category() == m.schedule_type().category() && gm.schedule_type().properties() == m.schedule_type().properties(), "a map keeps its schedule");
    bool same_ = samedbg(gm.debug_info(), m.debug_info()) && samedbg(gb.debug_info(), bl.debug_info()) && samedbg(gw.debug_info(), w.debug_info()) && samedbg(gi.debug_info(), ie.debug_info()) && samedbg(gi.at(0).first.debug_info(), ie.at(0).first.debug_info()) && samedbg(gw.root().at(1).first.debug_info(), w.root().at(1).first.debug_info()); for (auto& n : gb.dataflow().nodes()) for (auto& o : bl.dataflow().nodes()) if (n.element_id() == o.element_id()) same_ &= samedbg(n.debug_info(), o.debug_info()); for (auto& n : gb.dataflow().edges()) for (auto& o : bl.dataflow().edges()) if (n.element_id() == o.element_id()) same_ &= samedbg(n.debug_info(), o.debug_info());
    dsym_assert(same_, "debug information is kept"); dsym_assert(gm.element_id() == m.element_id() && gb.element_id() == bl.element_id() && gi.at(1).first.element_id() == ie.at(1).first.element_id() && gr.at(0).second.element_id() == r.at(0).second.element_id(), "element identifiers are kept");
}
