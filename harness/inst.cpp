// Harnesses over the instrumentation runtime (rtl/src/instrumentation.cpp), driven through its C entry points with a recording PAPI.
#include <string>
#include <vector>
#include <cstring>
#include "dsym.h"
#include "model.h"
#include "minijson.h"
#include "daisy_rtl/daisy_rtl.h"
static uint32_t pick(const char* n, uint32_t k) { int64_t v = dsym_cfg(n, -1); return v >= 0 ? (uint32_t)v : dsym_choice(n, k); }
// ---------------- recording PAPI ----------------
struct ES { int state = 0; bool running = false; std::vector<std::string> ev; std::vector<long long> cur; }; // state 1 created, 2 cleaned, 3 destroyed
static std::vector<ES>* es; static bool sym_counts = true, sym_time = true; static long long now_ns; static int created, destroyed; static int missing_sym = -1, init_bad = 0, create_fail = 0; static int nread, ntime;
static std::vector<long long>* last_read; static long long last_now;
static int p_init(int v) { return init_bad ? v + 1 : v; }
static int p_create(int* id) { if (create_fail) return -1; dsym_assert(*id == -1, "an event set variable holding a live event set is not overwritten"); es->push_back(ES()); es->back().state = 1; *id = (int)es->size() - 1; created++; return 0; }
static ES& live(int id) { dsym_assert(id >= 0 && id < (int)es->size(), "only created event sets are used"); ES& e = (*es)[id]; dsym_assert(e.state != 3, "no event set is used after it was destroyed"); return e; }
static int p_add(int id, const char* n) { ES& e = live(id); if (e.running) return -1; e.ev.push_back(n); e.cur.push_back(0); return 0; }
static int p_start(int id) { ES& e = live(id); if (e.ev.empty()) return -1; dsym_assert(!e.running, "a running event set is not started again"); e.running = true; return 0; }
static void bump(ES& e) { for (auto& c : e.cur) c += sym_counts ? dsym_range("dc", 0, 1ll << 40) : 3 + ((nread + 37 * (int)(&c - &e.cur[0])) * 7919) % 101; nread++; }
static int p_stop(int id, long long* out) { ES& e = live(id); if (!e.running) return -1; e.running = false; for (size_t i = 0; i < e.cur.size(); i++) out[i] = e.cur[i]; return 0; }
static int p_reset(int) { return 0; }
static int p_read(int id, long long* out) { ES& e = live(id); dsym_assert(e.running, "counters are read from a running event set"); bump(e); for (size_t i = 0; i < e.cur.size(); i++) out[i] = e.cur[i]; *last_read = e.cur; return 0; }
static int p_clean(int id) { ES& e = live(id); if (e.running) return -1; e.ev.clear(); e.cur.clear(); e.state = 2; return 0; }
static int p_destroy(int* id) { ES& e = live(*id); dsym_assert(e.state == 2, "event sets are cleaned before they are destroyed"); e.state = 3; destroyed++; *id = -1; return 0; }
static const char* p_err(int) { return "err"; }
static long long p_nsec() { now_ns += sym_time ? dsym_range("dt", 0, 1ll << 40) : 1500 + (ntime++ * 7907) % 97 * 250; last_now = now_ns; return now_ns; }
static const char* const syms[] = {"PAPI_library_init", "PAPI_create_eventset", "PAPI_cleanup_eventset", "PAPI_destroy_eventset", "PAPI_add_named_event", "PAPI_start", "PAPI_stop", "PAPI_reset", "PAPI_read", "PAPI_strerror", "PAPI_get_real_nsec"};
extern "C" void* dsym_dlsym(const char* n) {
    void* f[] = {(void*)p_init, (void*)p_create, (void*)p_clean, (void*)p_destroy, (void*)p_add, (void*)p_start, (void*)p_stop, (void*)p_reset, (void*)p_read, (void*)p_err, (void*)p_nsec};
    for (int i = 0; i < 11; i++) if (!strcmp(n, syms[i])) return i == missing_sym ? nullptr : f[i]; return nullptr;
}
static int expect_exit = 0;
extern "C" void dsym_on_exit(int code) { dsym_assert(expect_exit && code != 0, "the runtime only terminates the process for the documented configuration errors"); dsym_reach("exit"); }
static const char* cpu_ev; static const char* cuda_ev; static bool aggregate; static const char* outfile;
static std::vector<std::string> evs(const char* s) { std::vector<std::string> r; if (!s || !*s) return r; std::string c; for (; *s; s++) if (*s == ',') { r.push_back(c); c.clear(); } else c += *s; r.push_back(c); return r; }
static void setup(bool agg, const char* cpu, const char* cuda, const char* file) {
    es = new std::vector<ES>(); es->reserve(64); last_read = new std::vector<long long>(); now_ns = sym_time ? dsym_range("t0", 1, 1ll << 40) : 1000000; aggregate = agg; cpu_ev = cpu; cuda_ev = cuda; outfile = file ? file : "daisy_trace.json";
    dsym_setenv("__DAISY_PAPI_VERSION", "0x07020000"); dsym_setenv("__DAISY_INSTRUMENTATION_MODE", agg ? "aggregate" : nullptr); dsym_setenv("__DAISY_INSTRUMENTATION_EVENTS", cpu); dsym_setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", cuda); dsym_setenv("__DAISY_INSTRUMENTATION_FILE", file); dsym_mark_atexit();
}
struct Ev { long long start, end; std::vector<long long> counts; };
struct Rg { __daisy_metadata_t md; enum __daisy_event_set kind; size_t id = 0; bool ever = false, awake = false, inside = false; std::vector<Ev> ev; long long st; std::vector<long long> c0; std::vector<std::pair<std::string, std::vector<double>>> stat; };
static std::string* names; static std::string* uuids;
static void mk(Rg& r, int i, int kind, bool full) {
    memset(&r.md, 0, sizeof r.md); r.md.file_name = full ? "/a/b/file.c" : "x.c"; r.md.function_name = names[i].c_str(); r.md.line_begin = 10 + i; r.md.line_end = 20 + i; r.md.column_begin = 3; r.md.column_end = 4; r.md.region_uuid = uuids[i].c_str(); r.kind = (enum __daisy_event_set)kind;
    if (full) { r.md.sdfg_name = "sdfg"; r.md.sdfg_file = "s.json"; r.md.arg_capture_path = "cap"; r.md.features_file = "feat"; r.md.opt_report_file = "opt"; r.md.element_type = "map"; r.md.target_type = "T"; r.md.element_id = 77; r.md.loopnest_index = -1; r.md.num_loops = 2; r.md.num_maps = 1; r.md.num_fors = 5; r.md.num_whiles = 6; r.md.max_depth = 9; r.md.is_perfectly_nested = 1; r.md.is_elementwise = 1; }
}
static void init_names(int n) { names = new std::string[n]; uuids = new std::string[n]; for (int i = 0; i < n; i++) { names[i] = std::string("fn") + (char)('a' + i); uuids[i] = std::string("u_") + (char)('a' + i) + (char)('a' + i); } }
static int nev(Rg& r) { return r.kind == __DAISY_EVENT_SET_CPU ? (int)evs(cpu_ev).size() : r.kind == __DAISY_EVENT_SET_CUDA ? (int)evs(cuda_ev).size() : 0; }
static void r_init(Rg& r) { size_t id = __daisy_instrumentation_init(&r.md, r.kind); dsym_assert(id != 0, "a region has a non-zero id"); if (r.ever) dsym_assert(id == r.id, "the same region always has the same id"); r.id = id; r.ever = r.awake = true; }
static void r_enter(Rg& r) { last_read->clear(); __daisy_instrumentation_enter(r.id); r.st = last_now; r.c0 = *last_read; dsym_assert((int)r.c0.size() == nev(r), "entering reads every configured counter"); r.inside = true; }
static void r_exit(Rg& r) { last_read->clear(); __daisy_instrumentation_exit(r.id); Ev e; e.start = r.st; e.end = last_now; for (size_t i = 0; i < last_read->size() && i < r.c0.size(); i++) e.counts.push_back((*last_read)[i] - r.c0[i]); dsym_assert((int)e.counts.size() == nev(r), "leaving reads every configured counter"); r.ev.push_back(e); r.inside = false; }
static void r_fin(Rg& r) { __daisy_instrumentation_finalize(r.id); r.awake = false; }
static void check_meta(const JV& row, Rg& r) {
    const __daisy_metadata_t& m = r.md; dsym_assert(jstr_is(row.at("ph"), "X"), "complete event"); std::string nm = std::string(m.function_name) + " [L" + std::to_string(m.line_begin) + "-" + std::to_string(m.line_end) + "]"; dsym_assert(jstr_is(row.at("name"), nm.c_str()), "row names the region");
    const JV& a = row.at("args"); dsym_assert(jstr_is(a.at("function"), m.function_name), "function name"); const JV& sr = a.at("source_ranges"); dsym_assert(sr.t == 'a' && sr.a.size() == 1 && jstr_is(sr.a[0].at("file"), m.file_name) && jint_is(sr.a[0].at("from").at("line"), m.line_begin) && jint_is(sr.a[0].at("from").at("col"), m.column_begin) && jint_is(sr.a[0].at("to").at("line"), m.line_end) && jint_is(sr.a[0].at("to").at("col"), m.column_end), "source range");
    const char* fn = strrchr(m.file_name, '/'); dsym_assert(jstr_is(a.at("module"), fn ? fn + 1 : m.file_name), "module"); auto S = [](const char* s) { return s ? s : ""; }; const JV& d = a.at("docc");
    dsym_assert(jstr_is(d.at("sdfg_name"), S(m.sdfg_name)) && jstr_is(d.at("sdfg_file"), S(m.sdfg_file)) && jstr_is(d.at("arg_capture_path"), S(m.arg_capture_path)) && jstr_is(d.at("features_file"), S(m.features_file)) && jstr_is(d.at("opt_report_file"), S(m.opt_report_file)) && jstr_is(a.at("target_type"), S(m.target_type)), "compiler metadata");
    if (m.sdfg_name && m.sdfg_file) { const JV& l = d.at("loop_info"); dsym_assert(jint_is(d.at("element_id"), (long long)m.element_id) && jstr_is(d.at("element_type"), m.element_type) && jint_is(l.at("loopnest_index"), m.loopnest_index) && jint_is(l.at("num_loops"), m.num_loops) && jint_is(l.at("num_maps"), m.num_maps) && jint_is(l.at("num_fors"), m.num_fors) && jint_is(l.at("num_whiles"), m.num_whiles) && jint_is(l.at("max_depth"), m.max_depth), "loop metadata");
        dsym_assert(l.at("is_perfectly_nested").mag == m.is_perfectly_nested && l.at("is_perfectly_parallel").mag == m.is_perfectly_parallel && l.at("is_elementwise").mag == m.is_elementwise && l.at("has_side_effects").mag == m.has_side_effects, "loop flags"); }
}
static void load(JV& j) { size_t n; const char* p = vfs_data(outfile, &n); dsym_assert(p != nullptr, "the report is written to the configured file"); bool ok = json_parse(p, n, j); dsym_assert(ok, "the report is well-formed JSON"); dsym_assert(j.t == 'o' && j.at("traceEvents").t == 'a', "the report is a trace-event list"); dsym_assert(vfs_open_handles == 0, "report closed"); }
static Rg* find(std::vector<Rg>& rs, const JV& row) { for (auto& r : rs) if (jstr_is(row.at("args").at("function"), r.md.function_name)) return &r; return nullptr; }
static void check_trace(std::vector<Rg>& rs) {
    JV j; load(j); const JV& t = j.at("traceEvents"); size_t total = 0; std::vector<size_t> pos(rs.size(), 0); for (auto& r : rs) total += r.ev.size() + r.inside; dsym_assert(t.a.size() == total, "one row per execution of a region");
    for (auto& row : t.a) { Rg* r = find(rs, row); dsym_assert(r != nullptr, "row belongs to a region"); size_t k = pos[r - &rs[0]]++; check_meta(row, *r); if (k >= r->ev.size()) continue; Ev& e = r->ev[k];
        dsym_assert(jint_is(row.at("ts"), e.start / 1000), "start time in microseconds"); dsym_assert(jreal_is(row.at("dur"), (double)(e.end - e.start) / 1000), "duration in microseconds"); const JV& m = row.at("args").at("metrics"); auto names = r->kind == __DAISY_EVENT_SET_CPU ? evs(cpu_ev) : r->kind == __DAISY_EVENT_SET_CUDA ? evs(cuda_ev) : std::vector<std::string>(); dsym_assert(m.o.size() == names.size(), "every configured counter is reported");
        for (size_t i = 0; i < names.size(); i++) dsym_assert(jint_is(m.at(names[i].c_str()), e.counts[i]), "counter value is the difference between leaving and entering"); }
}
static void check_stats(const JV& s, const std::vector<double>& x, bool var, const char* what) {
    double n = (double)x.size(), sum = 0, mn = x[0], mx = x[0]; for (double v : x) { sum += v; if (v < mn) mn = v; if (v > mx) mx = v; } double mean = sum / n, q = 0; for (double v : x) q += (v - mean) * (v - mean); q /= n;
    dsym_assert(jint_is(s.at("count"), (long long)x.size()), "count"); dsym_assert(jreal_is(s.at("mean"), mean, fabs(mx) + fabs(mn)), "mean is the arithmetic mean of the executions"); dsym_assert(jreal_is(s.at("min"), mn), "minimum over the executions"); dsym_assert(jreal_is(s.at("max"), mx), "maximum over the executions"); if (var) dsym_assert(jreal_is(s.at("variance"), q, mx * mx + mn * mn), "variance is the population variance of the executions"); (void)what;
}
static void check_agg(std::vector<Rg>& rs) {
    JV j; load(j); const JV& t = j.at("traceEvents"); size_t total = 0; for (auto& r : rs) total += r.ever; dsym_assert(t.a.size() == total, "one row per region");
    for (auto& row : t.a) { Rg* r = find(rs, row); dsym_assert(r != nullptr, "row belongs to a region"); check_meta(row, *r); const JV& m = row.at("args").at("metrics"); const JV& rt = m.at("runtime"); dsym_assert(jint_is(rt.at("count"), (long long)r->ev.size()), "runtime count is the number of executions"); auto names = r->kind == __DAISY_EVENT_SET_CPU ? evs(cpu_ev) : r->kind == __DAISY_EVENT_SET_CUDA ? evs(cuda_ev) : std::vector<std::string>();
        if (!r->ev.empty()) { std::vector<double> d; double tot = 0; for (auto& e : r->ev) { d.push_back((double)(e.end - e.start) / 1000); tot += d.back(); } check_stats(rt, d, dsym_cfg("var", 1), "runtime"); dsym_assert(jreal_is(row.at("dur"), tot), "total duration"); dsym_assert(jint_is(row.at("ts"), r->ev[0].start / 1000), "first start");
            for (size_t i = 0; i < names.size(); i++) { std::vector<double> c; for (auto& e : r->ev) c.push_back((double)e.counts[i]); check_stats(m.at(names[i].c_str()), c, dsym_cfg("var", 1), "counter"); } }
        for (auto& s : r->stat) check_stats(m.at(("static:::" + s.first).c_str()), s.second, dsym_cfg("var", 1), "static"); }
}
static const char* evset(unsigned k) { static const char* v[] = {nullptr, "", "A", "A,perf::B", "A,perf::B,PAPI_TOT_CYC,D"}; return v[k]; }
// measurements: one or two regions, sequential or nested, with or without counters
static void measure(bool agg) {
    sym_counts = dsym_cfg("sc", 1); sym_time = dsym_cfg("st", 1);
    setup(agg, evset(pick("cpuev", 4)), evset(pick("cudaev", 4)), pick("file", 2) ? "out.json" : nullptr); init_names(2); std::vector<Rg> rs(2); int k0 = pick("kind0", 3), k1 = pick("kind1", 3); mk(rs[0], 0, k0, pick("full", 2)); mk(rs[1], 1, k1, false); int steps = (int)dsym_cfg("steps", 2);
    for (int s = 0; s < steps; s++) switch (dsym_choice("op", 4)) {
        case 0: r_init(rs[0]); r_enter(rs[0]); r_exit(rs[0]); r_fin(rs[0]); break;
        case 1: r_init(rs[1]); r_enter(rs[1]); r_exit(rs[1]); r_enter(rs[1]); r_exit(rs[1]); r_fin(rs[1]); break;
        case 2: r_init(rs[0]); r_enter(rs[0]); r_init(rs[1]); r_enter(rs[1]); r_exit(rs[1]); r_fin(rs[1]); r_exit(rs[0]); r_fin(rs[0]); dsym_reach("nested"); break;
        case 3: r_init(rs[1]); r_fin(rs[1]); break;
    }
    dsym_run_atexit(); if (!rs[0].ever && !rs[1].ever) dsym_end(); if (agg) check_agg(rs); else check_trace(rs); dsym_reach("end");
}
// every overlap of up to three regions: each step enters a region that is not active or leaves an active one
extern "C" void h_overlap() {
    sym_counts = dsym_cfg("sc", 0); sym_time = dsym_cfg("st", 0); bool agg = pick("agg", 2); setup(agg, evset(3), evset(3), "o.json"); init_names(3); std::vector<Rg> rs(3); for (int i = 0; i < 3; i++) { mk(rs[i], i, (i + (int)dsym_cfg("rot", 0)) % 3, i == 0); r_init(rs[i]); } int steps = (int)dsym_cfg("steps", 6);
    for (int s = 0; s < steps; s++) { Rg& r = rs[dsym_choice("r", 3)]; if (r.inside) r_exit(r); else r_enter(r); }
    for (auto& r : rs) if (r.inside) r_exit(r); for (auto& r : rs) r_fin(r); dsym_run_atexit(); if (agg) check_agg(rs); else check_trace(rs); dsym_reach("end");
}
extern "C" void h_trace() { measure(false); }
extern "C" void h_agg() { measure(true); }
// statistics of one region over n executions
extern "C" void h_stats() {
    sym_counts = dsym_cfg("sc", 1); sym_time = dsym_cfg("st", 1); setup(true, pick("ev", 2) ? "A" : nullptr, pick("ev", 2) ? "A" : nullptr, nullptr); init_names(1); std::vector<Rg> rs(1); mk(rs[0], 0, pick("kind", 2), false); int n = (int)dsym_cfg("n", 3); r_init(rs[0]); for (int i = 0; i < n; i++) { r_enter(rs[0]); r_exit(rs[0]); } r_fin(rs[0]); dsym_run_atexit(); check_agg(rs); dsym_reach("end");
}
// static counters
extern "C" void h_static() {
    sym_time = false; setup(true, nullptr, nullptr, nullptr); init_names(2); std::vector<Rg> rs(2); mk(rs[0], 0, 0, false); mk(rs[1], 1, 0, true); r_init(rs[0]); r_init(rs[1]); int n = (int)dsym_cfg("n", 3); static const char* nm[] = {"m", "kk"}; bool inc = dsym_choice("inc", 2);
    if (dsym_cfg("entered", 1)) for (auto& r : rs) { r_enter(r); r_exit(r); }
    for (int i = 0; i < n; i++) { unsigned w = dsym_choice("which", 2), g = dsym_choice("region", 2); long long v = dsym_range("v", -(1ll << 40), 1ll << 40); char key[4]; strcpy(key, nm[w]); double x; if (inc) { __daisy_instrumentation_increment(rs[g].id, key, v); x = (double)v; } else { x = (double)v / 4; __daisy_instrumentation_metric(rs[g].id, key, x); } key[0] = '#';
        bool f = false; for (auto& s : rs[g].stat) if (s.first == nm[w]) { s.second.push_back(x); f = true; } if (!f) rs[g].stat.push_back({nm[w], {x}}); }
    r_fin(rs[1]); r_fin(rs[0]); dsym_run_atexit(); check_agg(rs); dsym_reach("end");
}
// non-finite metrics must not corrupt the report
extern "C" void h_static_nonfinite() {
    sym_time = false; setup(true, nullptr, nullptr, nullptr); init_names(1); std::vector<Rg> rs(1); mk(rs[0], 0, 0, false); r_init(rs[0]); r_enter(rs[0]); r_exit(rs[0]); unsigned n = 1 + dsym_choice("n", 2); static const double v[] = {1.5, INFINITY, -INFINITY, NAN, 1e308}; for (unsigned i = 0; i < n; i++) __daisy_instrumentation_metric(rs[0].id, "m", v[dsym_choice("v", 5)]); r_fin(rs[0]); dsym_run_atexit(); JV j; load(j); const JV& s = j.at("traceEvents").a[0].at("args").at("metrics").at("static:::m"); dsym_assert(jint_is(s.at("count"), n), "count"); for (const char* k : {"mean", "variance", "min", "max"}) dsym_assert(s.at(k).t == 'n' || s.at(k).t == 'z', "numbers or null"); dsym_reach("end");
}
// every string of the metadata may contain any character
extern "C" void h_strings() {
    sym_time = false; setup(pick("agg", 2), nullptr, nullptr, nullptr); init_names(1); static const char* odd[] = {"plain", "operator\"\"_km", "C:\\dir\\f.c", "a\"b\\c", "tab\there", "nl\nx"}; const char* s = odd[dsym_choice("odd", 6)]; names[0] = "fn"; std::vector<Rg> rs(1); mk(rs[0], 0, 0, true); unsigned w = dsym_choice("field", 8);
    switch (w) { case 0: rs[0].md.function_name = s; break; case 1: rs[0].md.sdfg_name = s; break; case 2: rs[0].md.sdfg_file = s; break; case 3: rs[0].md.arg_capture_path = s; break; case 4: rs[0].md.features_file = s; break; case 5: rs[0].md.opt_report_file = s; break; case 6: rs[0].md.target_type = s; break; case 7: rs[0].md.file_name = s; break; }
    r_init(rs[0]); r_enter(rs[0]); r_exit(rs[0]); r_fin(rs[0]); dsym_run_atexit(); if (aggregate) check_agg(rs); else check_trace(rs); dsym_reach("end");
}
// histories: any interleaving of initialise / run / finalise over more regions than the runtime keeps asleep
extern "C" void h_lifecycle() {
    sym_time = sym_counts = false; setup(pick("agg", 2), pick("cpuev", 2) ? "A" : nullptr, "G", nullptr); int N = 13; init_names(N); std::vector<Rg> rs(N); for (int i = 0; i < N; i++) mk(rs[i], i, i % 3, false);
    int pre = (int)dsym_cfg("pre", 11); for (int i = 0; i < pre; i++) { r_init(rs[i]); r_enter(rs[i]); r_exit(rs[i]); } for (int i = 0; i < pre; i++) r_fin(rs[i]); int steps = (int)dsym_cfg("steps", 3), lo = (int)dsym_cfg("lo", 0), cnt = (int)dsym_cfg("cnt", 6);
    for (int s = 0; s < steps; s++) { static const int rep[] = {0, 1, 2, 10, 11, 12}; Rg& r = rs[rep[lo + dsym_choice("r", cnt)]]; if (!r.awake) { r_init(r); if (dsym_choice("run", 2)) { r_enter(r); r_exit(r); } } else if (dsym_choice("fin", 2)) r_fin(r); else { r_enter(r); r_exit(r); } }
    for (int i = 0; i < N; i++) for (int k = 0; k < i; k++) if (rs[i].ever && rs[k].ever) dsym_assert(rs[i].id != rs[k].id, "distinct regions have distinct ids");
    int sleeping = 0; for (auto& r : rs) { if (r.ever && !r.awake) sleeping++; } int awake = 0; for (auto& r : rs) awake += r.awake; dsym_assert(created - destroyed <= awake + 10, "only a bounded number of finalised regions keeps its event set");
    for (auto& r : rs) if (r.awake) r_fin(r); dsym_run_atexit(); dsym_assert(created == destroyed, "every event set of a finalised region is destroyed exactly once"); for (auto& e : *es) dsym_assert(!e.running, "no event set is left running"); if (aggregate) check_agg(rs); else check_trace(rs); dsym_observe("created", created); dsym_reach("end");
}
// configuration errors end the process with a failure status, correct configurations do not
extern "C" void h_config() {
    sym_time = false; setup(false, nullptr, nullptr, nullptr); unsigned k = dsym_choice("what", 5); if (k == 1) { missing_sym = (int)dsym_choice("sym", 11); } if (k == 2) dsym_setenv("__DAISY_PAPI_VERSION", nullptr); if (k == 3) init_bad = 1; if (k == 4) dlopen_fail = 1; expect_exit = k != 0; init_names(1); Rg r; mk(r, 0, 0, false); r_init(r); dsym_assert(k == 0, "a missing measurement library is a configuration error"); dsym_assert(__daisy_instrumentation_init(nullptr, __DAISY_EVENT_SET_CPU) == 0, "no metadata, no region"); r_enter(r); r_exit(r); r_fin(r); unsigned op = dsym_choice("op", 4); expect_exit = 1; size_t bad = r.id + 1 + dsym_choice("bad", 2);
    if (op == 0) __daisy_instrumentation_enter(bad); if (op == 1) __daisy_instrumentation_exit(bad); if (op == 2) __daisy_instrumentation_finalize(bad); if (op == 3) __daisy_instrumentation_metric(bad, "x", 1); dsym_assert(false, "using an unknown region is an error"); 
}
// two threads: every pair of entry points on shared or distinct regions
static std::vector<Rg>* tr; static unsigned topa, topb, tra, trb;
static void tbody(unsigned op, unsigned rr) { Rg& r = (*tr)[rr]; switch (op) { case 0: __daisy_instrumentation_init(&(*tr)[2 + rr].md, (*tr)[2 + rr].kind); break; case 1: __daisy_instrumentation_enter(r.id); break; case 2: __daisy_instrumentation_exit(r.id); break; case 3: __daisy_instrumentation_metric(r.id, "m", 1.0); break; case 4: __daisy_instrumentation_finalize(r.id); break; case 5: __daisy_instrumentation_increment(r.id, "m", 1); break; } }
static void ta() { tbody(topa, tra); } static void tb() { tbody(topb, trb); }
extern "C" void h_threads() {
    sym_time = sym_counts = false; setup(pick("agg", 2), nullptr, nullptr, nullptr); init_names(4); std::vector<Rg> rs(4); tr = &rs; for (int i = 0; i < 4; i++) mk(rs[i], i, 2, false); r_init(rs[0]); r_init(rs[1]); r_enter(rs[0]); r_enter(rs[1]); topa = dsym_choice("opa", 6); topb = dsym_choice("opb", 6); tra = 0; trb = dsym_choice("rb", 2);
    dsym_par(ta, tb);
    dsym_reach("end");
}
