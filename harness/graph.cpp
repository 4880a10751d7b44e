// Harnesses over the graph algorithms (sdfg/src/graph/graph.cpp).  Graph shapes are chosen symbolically: every edge slot is a symbolic choice.
#include <algorithm>
#include <vector>
#include "dsym.h"
#include "sdfg/graph/graph.h"
using namespace sdfg::graph;
static const Vertex NUL = boost::graph_traits<Graph>::null_vertex();
struct G { int n; Graph g; std::vector<Vertex> v; std::vector<Edge> e; std::vector<std::pair<int, int>> ed; unsigned succ[12] = {};
    int idx(Vertex x) const { for (int i = 0; i < n; i++) if (v[i] == x) return i; return -1; } };
// mode 2: a fixed path / binary tree / two chains on n vertices plus m edges with symbolic end points
// mode 0: adjacency bits (i,j) symbolic (self loops when cfg loops); mode 1: m edges with symbolic end points in symbolic order (parallel edges, any insertion order)
static void mk(G& G) {
    G.n = (int)dsym_cfg("n", 4); for (int i = 0; i < G.n; i++) G.v.push_back(boost::add_vertex(G.g)); std::vector<std::pair<int, int>> ed; int dag = (int)dsym_cfg("dag", 0);
    if (dsym_cfg("mode", 0) == 0) { unsigned fix = (unsigned)dsym_cfg("fix", 0), nfix = (unsigned)dsym_cfg("nfix", 0), k = 0; for (int i = 0; i < G.n; i++) for (int j = 0; j < G.n; j++) { if (i == j && !dsym_cfg("loops", 0)) continue; if (dag && j <= i) continue; bool b = k < nfix ? (fix >> k) & 1 : dsym_choice("edge", 2); k++; if (b) ed.push_back({i, j}); } }
    else { int m = (int)dsym_cfg("m", 4); int tree = (int)dsym_cfg("tree", 0); if (dsym_cfg("mode", 0) == 2) for (int i = 1; i < G.n; i++) if (tree == 0) ed.push_back({i - 1, i}); else if (tree == 1) ed.push_back({(i - 1) / 2, i}); else if (tree == 2) { if (i != G.n / 2) ed.push_back({i - 1, i}); }
        for (int k = 0; k < m; k++) { int f = (int)dsym_cfg(k == 0 ? "s0" : "s1", -1); unsigned s = f >= 0 && k < 2 ? (unsigned)f : dsym_choice("from", G.n); ed.push_back({(int)s, (int)dsym_choice("to", G.n)}); } }
    for (auto& p : ed) { auto r = boost::add_edge(G.v[p.first], G.v[p.second], G.g); dsym_assert(r.second, "edge added"); G.e.push_back(r.first); G.ed.push_back(p); G.succ[p.first] |= 1u << p.second; }
}
static unsigned reach(const unsigned* succ, int n, unsigned from, unsigned without) { unsigned r = from & ~without; for (int k = 0; k < n; k++) { unsigned x = r; for (int i = 0; i < n; i++) if (r >> i & 1) x |= succ[i]; r = x & ~without; } return r; }
static void unchanged(G& G) {
    int nv = 0; for (auto [b, e] = boost::vertices(G.g); b != e; ++b) { dsym_assert(G.idx(*b) >= 0, "the graph has no additional vertices after the call"); nv++; } dsym_assert(nv == G.n, "the graph keeps its vertices");
    size_t ne = 0; for (auto [b, e] = boost::edges(G.g); b != e; ++b) { ne++; bool f = false; for (auto& x : G.e) f |= x == *b; dsym_assert(f, "the graph has no additional edges after the call"); } dsym_assert(ne == G.ed.size(), "the graph keeps its edges");
}
// idom over a successor relation rooted at r
static void check_dom(G& G, const unsigned* succ, int n, int root, const std::unordered_map<Vertex, Vertex>& t, int synth) {
    unsigned all = reach(succ, n, 1u << root, 0); dsym_assert((int)t.size() == G.n, "one entry per vertex");
    unsigned dom[12]; for (int d = 0; d < n; d++) { unsigned r = d == root ? 0 : reach(succ, n, 1u << root, 1u << d); dom[d] = all & ~r; } // dom[d]: vertices dominated by d
    for (int i = 0; i < G.n; i++) {
        auto it = t.find(G.v[i]); dsym_assert(it != t.end(), "every vertex has an entry"); if (i == root || !(all >> i & 1)) { dsym_assert(it->second == NUL, "the root and unreachable vertices have no immediate dominator"); continue; }
        int want = -1; for (int d = 0; d < n; d++) { if (d == i || !(dom[d] >> i & 1)) continue; bool im = true; for (int o = 0; o < n; o++) if (o != i && o != d && (dom[o] >> i & 1) && !(dom[o] >> d & 1)) im = false; if (im) want = d; }
        if (want == synth) dsym_assert(it->second == NUL, "vertices only joined by the virtual exit have no immediate post-dominator"); else dsym_assert(want >= 0 && it->second == G.v[want], "the immediate dominator is the closest vertex on every path");
    }
}
extern "C" void h_dom() { G G; mk(G); int root = (int)dsym_choice("root", dsym_cfg("roots", G.n)); auto t = dominator_tree(G.g, G.v[root]); check_dom(G, G.succ, G.n, root, t, -1); unchanged(G); dsym_reach("end"); }
extern "C" void h_pdom() {
    G G; mk(G); unsigned term = 0; int nt = 0, last = 0; for (int i = 0; i < G.n; i++) if (!G.succ[i]) { term |= 1u << i; nt++; last = i; } dsym_assume(nt > 0);
    auto t = post_dominator_tree(G.g); unsigned pred[12] = {}; for (int i = 0; i < G.n; i++) for (int j = 0; j < G.n; j++) if (G.succ[i] >> j & 1) pred[j] |= 1u << i; int n = G.n, root = last; if (nt > 1) { root = n; pred[n] = term; n++; }
    check_dom(G, pred, n, root, t, nt > 1 ? G.n : -1); unchanged(G); if (nt > 1) dsym_reach("multi"); dsym_reach("end");
}
static bool acyclic(G& G) { for (int i = 0; i < G.n; i++) if (reach(G.succ, G.n, G.succ[i], 0) >> i & 1) return false; return true; }
extern "C" void h_topo() {
    G G; mk(G); bool ac = acyclic(G), thrown = false; std::list<Vertex> o; try { o = topological_sort(G.g); } catch (const boost::not_a_dag&) { thrown = true; } dsym_assert(thrown == !ac, "sorting fails exactly on cyclic graphs"); dsym_assert(is_acyclic(G.g) == ac, "acyclicity test");
    if (ac) { std::vector<int> pos(G.n, -1); int k = 0; for (auto x : o) { int i = G.idx(x); dsym_assert(i >= 0 && pos[i] < 0, "every vertex appears once"); pos[i] = k++; } dsym_assert(k == G.n, "every vertex appears"); for (auto& e : G.ed) dsym_assert(pos[e.first] < pos[e.second], "edges point forward in the order"); dsym_reach("dag"); }
    unchanged(G); dsym_reach("end");
}
template<class M> static void check_part(G& G, size_t num, const M& m, const unsigned (*rel)) {
    dsym_assert((int)m.size() == G.n, "every vertex is assigned a component"); size_t c[12]; unsigned used = 0; for (int i = 0; i < G.n; i++) { auto it = m.find(G.v[i]); dsym_assert(it != m.end(), "every vertex is assigned a component"); c[i] = it->second; dsym_assert(c[i] < num, "component numbers are below the component count"); used |= 1u << c[i]; }
    dsym_assert(used == (1u << num) - 1, "every component is used"); for (int i = 0; i < G.n; i++) for (int j = 0; j < G.n; j++) dsym_assert((c[i] == c[j]) == (bool)(rel[i] >> j & 1), "two vertices share a component exactly when they are connected");
}
extern "C" void h_scc() { G G; mk(G); unsigned r[12], rel[12] = {}; for (int i = 0; i < G.n; i++) r[i] = reach(G.succ, G.n, 1u << i, 0); for (int i = 0; i < G.n; i++) for (int j = 0; j < G.n; j++) if ((r[i] >> j & 1) && (r[j] >> i & 1)) rel[i] |= 1u << j; auto p = strongly_connected_components(G.g); check_part(G, (size_t)p.first, p.second, rel); unchanged(G); dsym_reach("end"); }
extern "C" void h_wcc() { G G; mk(G); unsigned s[12] = {}, rel[12]; for (auto& e : G.ed) { s[e.first] |= 1u << e.second; s[e.second] |= 1u << e.first; } for (int i = 0; i < G.n; i++) rel[i] = reach(s, G.n, 1u << i, 0); auto p = weakly_connected_components(G.g); check_part(G, p.first, p.second, rel); unchanged(G); dsym_reach("end"); }
extern "C" void h_dfs() {
    G G; mk(G); int st = (int)dsym_choice("start", dsym_cfg("roots", G.n)); auto l = depth_first_search(G.g, G.v[st]); unsigned seen = 0, r = reach(G.succ, G.n, 1u << st, 0); int k = 0; std::vector<int> ord;
    for (auto x : l) { int i = G.idx(x); dsym_assert(i >= 0 && !(seen >> i & 1), "every vertex is visited once"); seen |= 1u << i; ord.push_back(i); if (k == 0) dsym_assert(i == st, "the walk starts at the start vertex"); if (k < __builtin_popcount(r)) dsym_assert(r >> i & 1, "everything reachable from the start is visited before anything else"); k++; }
    dsym_assert(k == G.n, "every vertex is visited");
    // depth first: the next vertex is a successor of the deepest visited vertex that still has unvisited successors
    std::vector<int> stack{st}; unsigned vis = 1u << st; for (int q = 1; q < __builtin_popcount(r); q++) { while (!stack.empty() && !(G.succ[stack.back()] & ~vis)) stack.pop_back(); dsym_assert(!stack.empty() && (G.succ[stack.back()] >> ord[q] & 1), "the walk is depth first"); stack.push_back(ord[q]); vis |= 1u << ord[q]; }
    unchanged(G); dsym_reach("end");
}
extern "C" void h_back() {
    G G; mk(G); int st = (int)dsym_choice("start", dsym_cfg("roots", G.n)); auto l = back_edges(G.g, G.v[st]); std::vector<char> in(G.e.size(), 0); for (auto& b : l) { bool f = false; for (size_t i = 0; i < G.e.size(); i++) if (G.e[i] == b) { dsym_assert(!in[i], "a back edge is reported once"); in[i] = 1; f = true; dsym_assert(reach(G.succ, G.n, 1u << G.ed[i].second, 0) >> G.ed[i].first & 1, "a back edge closes a cycle"); } dsym_assert(f, "back edges are edges of the graph"); }
    unsigned s[12] = {}; for (size_t i = 0; i < G.e.size(); i++) if (!in[i]) s[G.ed[i].first] |= 1u << G.ed[i].second; for (int i = 0; i < G.n; i++) dsym_assert(!(reach(s, G.n, s[i], 0) >> i & 1), "without its back edges the graph is acyclic"); if (acyclic(G)) dsym_assert(l.empty(), "an acyclic graph has no back edges"); unchanged(G); dsym_reach("end");
}
static void enumerate(G& G, int at, int dst, unsigned vis, std::vector<int>& cur, std::vector<std::vector<int>>& out) { for (size_t i = 0; i < G.ed.size(); i++) if (G.ed[i].first == at) { int t = G.ed[i].second; if (vis >> t & 1) continue; cur.push_back((int)i); if (t == dst) out.push_back(cur); else enumerate(G, t, dst, vis | 1u << t, cur, out); cur.pop_back(); } }
extern "C" void h_paths() {
    G G; mk(G); int s = (int)dsym_choice("s", dsym_cfg("roots", G.n)), d = (int)dsym_choice("d", G.n); if (s == d) dsym_end(); auto l = all_simple_paths(G.g, G.v[s], G.v[d]); std::vector<std::vector<int>> want; std::vector<int> cur; enumerate(G, s, d, 1u << s, cur, want);
    std::vector<std::vector<int>> got; for (auto& p : l) { std::vector<int> x; for (auto& e : p) for (size_t i = 0; i < G.e.size(); i++) if (G.e[i] == e) x.push_back((int)i); dsym_assert(x.size() == p.size(), "paths consist of edges of the graph"); unsigned vis = 1u << s; int at = s; for (int i : x) { dsym_assert(G.ed[i].first == at, "consecutive edges of a path are adjacent"); at = G.ed[i].second; dsym_assert(!(vis >> at & 1), "a simple path visits no vertex twice"); vis |= 1u << at; } dsym_assert(at == d, "a path ends at the destination"); got.push_back(x); }
    dsym_assert(got.size() == want.size(), "every simple path is listed once"); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); dsym_assert(got == want, "exactly the simple paths are listed"); unchanged(G); dsym_reach("end");
}
extern "C" void h_views() {
    G G; mk(G); auto rg = reverse(G.g); std::vector<std::pair<int, int>> a, b; for (auto [i, e] = boost::edges(rg); i != e; ++i) a.push_back({G.idx(boost::target(*i, rg)), G.idx(boost::source(*i, rg))}); b = G.ed; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); dsym_assert(a == b, "the reverse graph has every edge reversed");
    auto u = undirected(G.g); auto& ug = *std::get<0>(u); auto& m = std::get<1>(u); auto& rm = std::get<2>(u); dsym_assert((int)boost::num_vertices(ug) == G.n && (int)m.size() == G.n && (int)rm.size() == G.n, "the undirected graph has the same vertices"); for (auto x : G.v) dsym_assert(rm.at(m.at(x)) == x, "the vertex mappings are inverse to each other");
    std::vector<std::pair<int, int>> c, d; for (auto [i, e] = boost::edges(ug); i != e; ++i) { int x = G.idx(rm.at(boost::source(*i, ug))), y = G.idx(rm.at(boost::target(*i, ug))); c.push_back({std::min(x, y), std::max(x, y)}); } for (auto& e : G.ed) d.push_back({std::min(e.first, e.second), std::max(e.first, e.second)}); std::sort(c.begin(), c.end()); std::sort(d.begin(), d.end()); dsym_assert(c == d, "the undirected graph has the same edges"); unchanged(G); dsym_reach("end");
}
