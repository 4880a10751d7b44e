// JSON round trips and clones of whole programs.
#pragma once
#include "opt.h"
#include "sdfg/serializer/json_serializer.h"
#include "sdfg/deepcopy/structured_sdfg_deep_copy.h"
namespace opt {
// the order of the nodes and edges of a data-flow graph carries no meaning
inline void norm(nlohmann::json& j) {
    if (j.is_object()) for (auto k : {"nodes", "edges"}) if (j.contains(k) && j[k].is_array()) { std::vector<nlohmann::json> v(j[k].begin(), j[k].end()); std::sort(v.begin(), v.end(), [](const nlohmann::json& a, const nlohmann::json& b) { return a["element_id"].get<size_t>() < b["element_id"].get<size_t>(); }); j[k] = nlohmann::json(v); }
    if (j.is_object() && j.contains("structures")) { auto& k = j["structures"]; std::vector<nlohmann::json> v(k.begin(), k.end()); std::sort(v.begin(), v.end(), [](const nlohmann::json& a, const nlohmann::json& b) { return a["name"].get<std::string>() < b["name"].get<std::string>(); }); k = nlohmann::json(v); }
    if (j.is_object() || j.is_array()) for (auto& x : j) norm(x);
}
inline void ids(const nlohmann::json& j, std::set<size_t>& seen, bool& dup, size_t& top) { if (j.is_object() && j.contains("element_id")) { size_t i = j["element_id"].get<size_t>(); if (!seen.insert(i).second) dup = true; if (i > top) top = i; } if (j.is_object() || j.is_array()) for (auto& x : j) ids(x, seen, dup, top); }
inline void differ(const nlohmann::json& a, const nlohmann::json& b, const char* what) { if (!(a == b)) { dsym_note(nlohmann::json::diff(a, b).dump().substr(0, 400).c_str()); dsym_assert(false, what); } else dsym_assert(true, what); }
inline void sametype(const types::IType& a, const types::IType& b) { dsym_assert(a == b, "same type"); dsym_assert(a.alignment() == b.alignment() && a.initializer() == b.initializer() && a.storage_type() == b.storage_type() && a.storage_type().allocation() == b.storage_type().allocation() && a.storage_type().deallocation() == b.storage_type().deallocation(), "same alignment, initializer and storage"); }
inline void samefn(const StructuredSDFG& f, const StructuredSDFG& g) {
    dsym_assert(f.name() == g.name() && f.type().value() == g.type().value() && f.element_counter() == g.element_counter() && f.metadata() == g.metadata(), "same name, type, element counter and metadata"); sametype(f.return_type(), g.return_type()); dsym_assert(f.arguments() == g.arguments() && f.externals() == g.externals(), "same arguments and externals in the same order");
    size_t n = 0; for (auto& c : f.containers()) { n++; dsym_assert(g.exists(c), "same containers"); sametype(f.type(c), g.type(c)); dsym_assert(f.is_argument(c) == g.is_argument(c) && f.is_external(c) == g.is_external(c) && f.is_transient(c) == g.is_transient(c), "same kind of container"); if (f.is_external(c)) dsym_assert(f.linkage_type(c) == g.linkage_type(c), "same linkage"); } for (auto& c : g.containers()) { (void)c; n--; } dsym_assert(n == 0, "same containers");
    for (auto& s : f.structures()) { auto &a = f.structure(s), &b = g.structure(s); dsym_assert(a.num_members() == b.num_members() && a.is_packed() == b.is_packed(), "same structures"); for (size_t i = 0; i < a.num_members(); i++) sametype(a.member_type(symbolic::integer((int64_t)i)), b.member_type(symbolic::integer((int64_t)i))); }
}
// identifiers dropped, data-flow graphs reduced to the number of nodes and edges
inline void strip(nlohmann::json& j) { if (j.is_object()) { j.erase("element_id"); for (auto k : {"nodes", "edges"}) if (j.contains(k)) j[k] = j[k].size(); } if (j.is_object() || j.is_array()) for (auto& x : j) strip(x); }
inline void roundtrip(P& p, const char* what) {
    auto& f = p.b.subject(); f.validate(); static bool done = false; if (!done) { serializer::register_default_serializers(); done = true; }
    serializer::JSONSerializer s; nlohmann::json j = s.serialize(f), j2; norm(j); std::set<size_t> seen; bool dup = false; size_t top = 0; ids(j["root"], seen, dup, top); dsym_assert(!dup, "element identifiers are unique"); dsym_assert(top <= f.element_counter(), "element identifiers do not exceed the element counter");
    if (cfg("text", 0)) j = nlohmann::json::parse(j.dump());
    std::unique_ptr<StructuredSDFG> g; try { g = s.deserialize(j); g->validate(); j2 = s.serialize(*g); } catch (const std::exception& e) { dsym_note(e.what()); dsym_assert(false, "a serialized program can be read back"); return; } norm(j2); samefn(f, *g); differ(j, j2, "serializing what was read back gives the same JSON");
    std::unique_ptr<StructuredSDFG> c; nlohmann::json j3; try { c = f.clone(); c->validate(); j3 = s.serialize(*c); } catch (const std::exception& e) { dsym_note(e.what()); dsym_assert(false, "a program can be cloned"); return; } dsym_assert(c.get() != &f && &c->root() != &f.root(), "a clone is a separate program"); norm(j3); samefn(f, *c); differ(j, j3, "a clone has the same structure");
    std::vector<Input> in2 = p.in; Machine m(f); const char* e1 = m.run(p.in); if (e1) { dsym_note(e1); dsym_reach(e1); dsym_assume(false); } dsym_assume(!m.ub); Machine n(*g); const char* e2 = n.run(in2); if (e2) dsym_note(e2); dsym_assert(!e2, "the program read back has no fault the original lacks"); same(m, n, p.in, what);
    if (cfg("alsoclone", 0)) { std::vector<Input> in3 = p.in; Machine o(*c); const char* e3 = o.run(in3); dsym_assert(!e3, "the clone has no fault the original lacks"); same(m, o, p.in, what); }
    builder::StructuredSDFGBuilder nb(c); auto& d = nb.subject(); nb.remove_children(d.root()); deepcopy::StructuredSDFGDeepCopy dc(nb, d.root(), f.root()); try { dc.insert(); d.validate(); } catch (const std::exception& e) { dsym_note(e.what()); dsym_assert(false, "the statements of a program can be copied"); return; }
    nlohmann::json a = j["root"]["children"], b = s.serialize(d), t1 = j["root"]["transitions"], t2 = b["root"]["transitions"]; { std::set<size_t> s2; bool d2 = false; size_t t = 0; ids(b["root"], s2, d2, t); dsym_assert(!d2 && t <= d.element_counter(), "a copy has element identifiers of its own"); } b = b["root"]["children"]; dsym_assert(a.size() > 0 || f.root().size() == 0, "statements are serialized"); strip(a); strip(b); strip(t1); strip(t2); differ(a, b, "copied statements have the same structure"); differ(t1, t2, "copied statements keep the assignments");
    std::vector<Input> in4 = p.in; Machine q(d); const char* e4 = q.run(in4); if (e4) dsym_note(e4); dsym_assert(!e4, "the copied statements have no fault the original lacks"); same(m, q, p.in, what); dsym_reach("end");
}
} // namespace opt
