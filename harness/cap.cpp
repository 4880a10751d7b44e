// Harnesses over arg-capture-io and the rtl capture entry points.
#include <string>
#include <vector>
#include <cstring>
#include <stdexcept>
#include "dsym.h"
#include "model.h"
#include <__dsym_vfs.h>
#include "daisy_rtl/arg_capture_io.h"
#include "daisy_rtl/base64.h"
#include "daisy_rtl/daisy_rtl.h"
#include "daisy_rtl/primitive_types.h"
using namespace arg_capture;
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static unsigned sextet(unsigned b, unsigned nb, const uint8_t* p, unsigned n) { unsigned v = 0; for (unsigned i = 0; i < 6; i++) { unsigned bit = b * 6 + i; unsigned x = bit / 8 < n ? (p[bit / 8] >> (7 - bit % 8)) & 1 : 0; v = v << 1 | x; } (void)nb; return v; }
// RFC 4648 alphabet as arithmetic (independent of any table in the code under test)
static uint8_t rfc_char(unsigned s) { return (uint8_t)dsym_ite64(s < 26, 'A' + s, dsym_ite64(s < 52, 'a' + (s - 26), dsym_ite64(s < 62, '0' + (s - 52), dsym_ite64(s == 62, '+', '/')))); }
static int rfc_val(uint8_t c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }

extern "C" void h_b64_rt() {
    unsigned n = dsym_choice("n", (uint32_t)dsym_cfg("max", 6) + 1); uint8_t* v = new uint8_t[n]; if (n) dsym_bytes(v, n, "b");
    std::string e = base64_encode(v, n);
    dsym_assert(e.size() == (n + 2) / 3 * 4, "encoded length is the RFC 4648 length");
    unsigned nch = (n * 8 + 5) / 6;
    for (unsigned i = 0; i < e.size(); i++) { uint8_t want = i < nch ? rfc_char(sextet(i, 0, v, n)) : (uint8_t)'='; dsym_assert((uint8_t)e[i] == want, "encoded character matches RFC 4648"); }
    std::vector<uint8_t> d = base64_decode(e);
    dsym_assert(d.size() == n, "decode restores the length");
    for (unsigned i = 0; i < n; i++) dsym_assert(d[i] == v[i], "decode restores every byte");
    delete[] v; dsym_observe("n", n); dsym_reach("end");
}
extern "C" void h_b64_dec() {
    unsigned n = dsym_choice("n", (uint32_t)dsym_cfg("max", 5) + 1); std::string s; for (unsigned i = 0; i < n; i++) s += (char)dsym_u8("c");
    std::vector<uint8_t> d = base64_decode(s);
    // reference: the longest prefix of alphabet characters, 6 bits each, whole bytes only
    unsigned k = 0; while (k < n && rfc_val((uint8_t)s[k]) >= 0) k++;
    k = (unsigned)dsym_concretize(k);
    unsigned full = k * 6 / 8;
    dsym_assert(d.size() == full, "decoded length covers exactly the valid prefix");
    for (unsigned j = 0; j < full && j < d.size(); j++) { unsigned b = 0; for (unsigned i = 0; i < 8; i++) { unsigned bit = j * 8 + i; b = b << 1 | ((rfc_val((uint8_t)s[bit / 6]) >> (5 - bit % 6)) & 1); } dsym_assert(d[j] == b, "decoded byte is the RFC 4648 value"); }
    dsym_observe("k", k); dsym_reach("end");
}

static bool dims_eq(const std::vector<size_t>& a, const std::vector<size_t>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static bool bytes_eq(const uint8_t* a, const uint8_t* b, size_t n) { uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
// a choice that a job may pin through its configuration (splits the work over processes)
static uint32_t pick(const char* n, uint32_t k) { int64_t v = dsym_cfg(n, -1); return v >= 0 ? (uint32_t)v : dsym_choice(n, k); }
struct Ref { int idx; bool after; int type; std::vector<size_t> dims; std::vector<uint8_t> bytes; std::string el; bool live = true; };
static Ref make_ref(int nidx, unsigned maxd, unsigned maxv) {
    Ref r; static const int idxs[] = {0, 3, -1, 1073741824}; r.idx = idxs[dsym_choice("idx", nidx)]; r.after = dsym_choice("after", 2); r.type = dsym_choice("type", 3) * 9;
    unsigned nd = 1 + dsym_choice("nd", maxd); size_t sz = 1; for (unsigned i = 0; i < nd; i++) { size_t v = dsym_choice("dim", maxv + 1); r.dims.push_back(v); sz *= v; }
    r.bytes.resize(sz); if (sz) dsym_bytes(r.bytes.data(), sz, "d"); return r;
}
// in-memory captures: the last capture under a key wins, everything else is untouched, the caller's buffer may change afterwards
extern "C" void h_inline() {
    ArgCaptureIO io("fn"); std::vector<Ref> refs; int steps = (int)dsym_cfg("steps", 2); static const char* els[] = {"", "7"};
    for (int s = 0; s < steps; s++) {
        Ref r = make_ref((int)dsym_cfg("nidx", 2), (unsigned)dsym_cfg("maxd", 2), (unsigned)dsym_cfg("maxv", 2)); r.el = els[dsym_choice("el", (uint32_t)dsym_cfg("nel", 2))];
        std::vector<uint8_t> buf = r.bytes; bool ok = io.create_and_capture_inline(r.idx, r.after, r.type, r.dims, buf.data(), r.el);
        dsym_assert(ok, "inline capture succeeds"); for (auto& b : buf) b ^= 0x5a;
        for (auto& q : refs) if (q.live && q.idx == r.idx && q.after == r.after && q.el == r.el) q.live = false;
        refs.push_back(r);
        size_t live = 0; for (auto& q : refs) live += q.live; size_t have = 0; for (auto& e : io.get_captures()) have += e.second.size();
        dsym_assert(live == have, "one entry per key");
        for (auto& q : refs) { if (!q.live) continue;
            auto ei = io.get_captures().find(q.el); dsym_assert(ei != io.get_captures().end(), "element present");
            auto ci = ei->second.find(std::make_pair((int32_t)q.idx, q.after)); dsym_assert(ci != ei->second.end(), "captured key is found");
            const ArgCapture& c = ci->second; dsym_assert(c.arg_idx == q.idx && c.after == q.after && c.primitive_type == q.type, "argument index, phase and type kept"); dsym_assert(dims_eq(c.dims, q.dims), "dimensions kept");
            dsym_assert(c.data != nullptr && c.data->size() == q.bytes.size(), "captured size is the product of the dimensions"); dsym_assert(bytes_eq(c.data->data(), q.bytes.data(), q.bytes.size()), "captured bytes are the argument's bytes"); }
    }
    io.clear(); dsym_assert(io.get_captures().empty(), "clear removes every capture"); dsym_reach("end");
}
// lookup keys: distinct (index, phase) pairs never alias and equal pairs are always found, for every index
extern "C" void h_keys() {
    int32_t i1 = (int32_t)dsym_u32("i1"), i2 = (int32_t)dsym_u32("i2"); bool a1 = dsym_bool("a1"), a2 = dsym_bool("a2"); ArgCaptureIO io("fn"); uint8_t x = dsym_u8("x"), y = dsym_u8("y");
    io.create_and_capture_inline(i1, a1, 2, {1}, &x, "e"); io.create_and_capture_inline(i2, a2, 2, {1}, &y, "e");
    auto& m = io.get_captures().at("e"); bool same = i1 == i2 && a1 == a2; dsym_assert(m.size() == (same ? 1u : 2u), "number of entries equals number of distinct keys");
    auto it = m.find({i1, a1}); dsym_assert(it != m.end() && it->second.data->at(0) == (same ? y : x), "first key maps to its own data"); auto it2 = m.find({i2, a2}); dsym_assert(it2 != m.end() && it2->second.data->at(0) == y, "second key maps to its own data"); dsym_reach("end");
}
// invocation numbering per element
extern "C" void h_invoke() {
    ArgCaptureIO io("fn"); static const char* els[] = {"0", "1", "10"}; uint32_t n[3] = {0, 0, 0}; int steps = (int)dsym_cfg("steps", 4);
    for (int s = 0; s < steps; s++) { unsigned e = dsym_choice("el", 3); if (dsym_choice("clr", 2)) io.clear(); io.invocation(els[e]); n[e]++; for (int k = 0; k < 3; k++) { bool threw = false; uint32_t v = 0; try { v = io.get_current_invocation(els[k]); } catch (const std::out_of_range&) { threw = true; } dsym_assert(threw == (n[k] == 0), "an element without invocations has no number"); if (!threw) dsym_assert(v == n[k] - 1, "invocations are numbered 0,1,2,... per element"); } }
    dsym_assert(io.get_name() == "fn", "name"); dsym_reach("end");
}
static void do_capture(__daisy_capture_t* ctx, Ref& r, size_t el);
static std::string fetch_error;
static bool fetch(const ArgCapture& c, std::vector<uint8_t>& out, size_t sz) {
    out.assign(sz, 0xEE); if (c.data) { if (c.data->size() != sz) return false; memcpy(out.data(), c.data->data(), sz); return true; }
    if (!c.ext_file) return false; try { ArgCaptureIO::read_data_from_raw_file(*c.ext_file, out.data(), sz); } catch (const std::exception&) { return false; } long s = vfs_size(c.ext_file->string().c_str()); return s == (long)sz;
}
static void check_index(const std::string& path, const std::string& name, uint32_t inv, const std::string& el, const std::vector<Ref>& refs) {
    std::shared_ptr<ArgCaptureIO> r; try { r = ArgCaptureIO::from_index<ArgCaptureIO>(path); } catch (const std::exception& e) { dsym_assert(false, "the index of a completed invocation can be loaded"); }
    dsym_assert(r->get_name() == name, "index keeps the kernel name"); dsym_assert(r->get_current_invocation(el) == inv, "index keeps the invocation number");
    dsym_assert(r->get_captures().size() == 1 && r->get_captures().count(el), "index belongs to the element");
    auto& m = r->get_captures().at(el); size_t live = 0; for (auto& q : refs) live += q.live && q.el == el; dsym_assert(m.size() == live, "index lists every captured argument exactly once");
    for (auto& q : refs) { if (!q.live || q.el != el) continue; auto it = m.find({q.idx, q.after}); dsym_assert(it != m.end(), "captured argument is listed"); const ArgCapture& c = it->second;
        dsym_assert(c.arg_idx == q.idx && c.after == q.after && c.primitive_type == q.type, "index keeps argument index, phase and type"); dsym_assert(dims_eq(c.dims, q.dims), "index keeps the dimensions");
        std::vector<uint8_t> b; dsym_assert(fetch(c, b, q.bytes.size()), "captured data can be read back"); dsym_assert(bytes_eq(b.data(), q.bytes.data(), b.size()), "read-back bytes equal the captured bytes"); }
}
// index round trip: inline and file captures of several elements, written and loaded again
extern "C" void h_index() {
    ArgCaptureIO io("fn"); static const char* els[] = {"3", "12"}; static const int idxs[] = {0, -12}; std::vector<Ref> refs; int steps = (int)dsym_cfg("steps", 2); uint32_t inv[2]; for (int e = 0; e < 2; e++) { inv[e] = e ? 1 : pick("inv", 2) * 10; for (unsigned k = 0; k <= inv[e]; k++) io.invocation(els[e]); }
    for (int s = 0; s < steps; s++) { Ref r; r.idx = idxs[dsym_choice("idx", 2)]; r.after = dsym_choice("after", 2); r.type = s ? 15 : 0; size_t sz; if (dsym_choice("shape", 2)) { r.dims = {2, (size_t)s + 1}; sz = 2 * s + 2; } else { r.dims = {4, 0, 7}; sz = 0; } r.bytes.resize(sz); if (sz) dsym_bytes(r.bytes.data(), sz, "d"); r.el = els[s == 0 ? pick("el0", 2) : dsym_choice("el", 2)]; bool ok;
        if (s == 0 ? pick("file0", 2) : s == 1 ? pick("file1", 2) : dsym_choice("file", 2)) { std::filesystem::path f = std::string("out/dir/f") + (char)('0' + s) + ".bin"; ok = io.create_and_capture_to_file(r.idx, r.after, r.type, r.dims, f, r.bytes.data(), r.el); dsym_reach("file"); } else { ok = io.create_and_capture_inline(r.idx, r.after, r.type, r.dims, r.bytes.data(), r.el); dsym_reach("inline"); }
        dsym_assert(ok, "capture without I/O faults succeeds"); for (auto& q : refs) if (q.live && q.idx == r.idx && q.after == r.after && q.el == r.el) q.live = false; refs.push_back(r); }
    io.write_index("out/dir");
    for (int e = 0; e < 2; e++) { bool any = false; for (auto& q : refs) any |= q.live && q.el == els[e]; std::string p = "out/dir/fn_inv" + std::to_string(inv[e]) + "_" + els[e] + ".index.json"; dsym_assert(vfs_exists(p.c_str()) == any, "one index file per captured element, under its documented name"); if (any) check_index(p, "fn", inv[e], els[e], refs); }
    dsym_assert(vfs_open_handles == 0, "all files closed"); dsym_reach("end");
}
// every dimension / type value survives the textual index
extern "C" void h_index_nums() {
    ArgCaptureIO io("fn"); io.invocation("1"); Ref r; r.el = "1"; unsigned w = pick("which", 4); r.idx = w == 0 ? (int)dsym_range("idx", -130, 130) : 2; r.after = dsym_choice("after", 2); r.type = w == 1 ? (int)dsym_range("type", 0, 18) : 15; r.dims = {w == 2 ? (size_t)dsym_range("d0", 0, 300) : 7, 0, w == 3 ? (size_t)dsym_range("d2", 1, 12) : 3}; uint8_t b = 0;
    io.create_and_capture_inline(r.idx, r.after, r.type, r.dims, &b, "1"); io.write_index("o"); check_index("o/fn_inv0_1.index.json", "fn", 0, "1", {r}); dsym_reach("end");
}
// long histories: invocation numbers stay exact and distinct beyond the first few
extern "C" void h_rtl_long() {
    dsym_setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all"); __daisy_capture_t* ctx = __daisy_capture_init("k", "d"); int n = (int)dsym_cfg("n", 300); unsigned at = dsym_choice("at", 3); int cap = at == 0 ? 9 : at == 1 ? 10 : n - 1; std::vector<Ref> keep; std::vector<int> when;
    for (int i = 0; i < n; i++) { dsym_assert(__daisy_capture_enter(ctx, 5), "every invocation is selected"); if (i == cap || i == 0 || i == n - 2) { Ref r; r.idx = 1; r.after = false; r.type = 8; r.dims = {2}; r.bytes.resize(2); dsym_bytes(r.bytes.data(), 2, "d"); do_capture(ctx, r, 5); keep.push_back(r); when.push_back(i); } __daisy_capture_end(ctx); }
    for (size_t k = 0; k < keep.size(); k++) check_index("d/k_inv" + std::to_string(when[k]) + "_5.index.json", "k", (uint32_t)when[k], "5", {keep[k]}); dsym_reach("end");
}
// loading rejects indexes of another format version and missing files
extern "C" void h_index_version() {
    uint32_t ver = dsym_choice("ver", 5); static const char* vs[] = {"0", "1", "2", "4294967295", "17"}; std::string j = std::string("{\"captures\":[],\"element_id\":\"5\",\"format\":") + vs[ver] + ",\"invocation\":3,\"target\":\"k\"}"; vfs_put("d/i.json", j.data(), j.size());
    bool threw = false; std::shared_ptr<ArgCaptureIO> r; try { r = ArgCaptureIO::from_index<ArgCaptureIO>("d/i.json"); } catch (const std::runtime_error&) { threw = true; } dsym_assert(threw == (ver != 1), "only format version 1 is accepted"); if (!threw) dsym_assert(r->get_current_invocation("5") == 3 && r->get_name() == "k", "fields read");
    threw = false; try { ArgCaptureIO::from_index<ArgCaptureIO>("d/none.json"); } catch (const std::runtime_error&) { threw = true; } dsym_assert(threw, "a missing index is reported"); dsym_reach("end");
}
// file captures under every combination of I/O faults
extern "C" void h_faults() {
    ArgCaptureIO io("fn"); Ref r = make_ref(1, 2, 2); bool isnull = dsym_choice("null", 2); std::filesystem::path f = "a/b/c.bin"; io.invocation("1"); r.el = "1";
    bool preexist = dsym_choice("pre", 2); if (preexist) vfs_put("a/b/c.bin", "oldoldold", 9);
    vfs_fault_mode = VFS_OPEN_W | VFS_WRITE | VFS_CLOSE | VFS_MKDIR; bool ok = io.create_and_capture_to_file(r.idx, r.after, r.type, r.dims, f, isnull ? nullptr : r.bytes.data(), "1"); vfs_fault_mode = 0;
    bool expect = !vfs_faults_injected && !(isnull && r.bytes.size()); dsym_assert(ok == expect, "a capture reports success exactly when everything was written");
    auto& m = io.get_captures().at("1"); auto it = m.find({r.idx, r.after}); bool linked = it != m.end() && it->second.ext_file; dsym_assert(linked == expect, "a failed capture is not linked to a file");
    if (ok) { size_t n; const char* d = vfs_data("a/b/c.bin", &n); dsym_assert(n == r.bytes.size(), "file holds exactly the argument's size"); if (n) dsym_assert(bytes_eq((const uint8_t*)d, r.bytes.data(), n), "file holds the argument's bytes"); dsym_reach("ok"); } else dsym_reach("fail");
    dsym_assert(vfs_open_handles == 0, "no file stays open"); dsym_observe("ok", ok);
}
// writing the index under faults: failures are reported, success means the index loads
extern "C" void h_index_faults() {
    ArgCaptureIO io("fn"); Ref r = make_ref(1, 1, 2); r.el = "1"; io.invocation("1"); io.create_and_capture_inline(r.idx, r.after, r.type, r.dims, r.bytes.data(), "1");
    vfs_fault_mode = VFS_OPEN_W | VFS_WRITE | VFS_CLOSE | VFS_MKDIR; bool threw = false; try { io.write_index("o"); } catch (const std::exception&) { threw = true; } vfs_fault_mode = 0;
    dsym_assert(threw == (vfs_faults_injected != 0), "an index that could not be written is reported"); dsym_assert(vfs_open_handles == 0, "no file stays open");
    if (!threw) { check_index("o/fn_inv0_1.index.json", "fn", 0, "1", {r}); dsym_reach("ok"); } else dsym_reach("fail");
}
// reading raw data: exact bytes or an exception
extern "C" void h_read_raw() {
    unsigned have = dsym_choice("have", 5), want = dsym_choice("want", 5); uint8_t src[5], dst[6]; dsym_bytes(src, 5, "s"); memset(dst, 0xA5, 6); bool exists = dsym_choice("exists", 2); if (exists) vfs_put("d/f", (const char*)src, have);
    bool threw = false; try { ArgCaptureIO::read_data_from_raw_file("d/f", dst, want); } catch (const std::runtime_error&) { threw = true; }
    dsym_assert(threw == (!exists || have < want), "reading fails exactly when the data is not there"); if (!threw) dsym_assert(bytes_eq(dst, src, want), "bytes read are the file's"); for (unsigned i = want; i < 6; i++) dsym_assert(dst[i] == 0xA5, "nothing beyond the requested size is written"); dsym_assert(vfs_open_handles == 0, "closed"); dsym_reach("end");
}

// sizes beyond memory: only the size reaching the file system is checked
extern "C" void h_huge() {
    vfs_phantom_limit = 1 << 16; ArgCaptureIO io("fn"); unsigned nd = 1 + dsym_choice("nd", 4); std::vector<size_t> dims; unsigned __int128 prod = 1;
    for (unsigned i = 0; i < nd; i++) { size_t v; if (i < 2) v = (size_t)dsym_range("dim", 1, (int64_t)1 << dsym_cfg("bits", 17)); else { static const size_t c[] = {1, 3, (size_t)1 << 20}; v = c[dsym_choice("k", 3)]; } dims.push_back(v); prod *= v; }
    dsym_assume(prod > (1u << 16) && prod < ((unsigned __int128)1 << 62)); uint8_t b[8]; std::filesystem::path f = "h/x.bin"; bool ok = io.create_and_capture_to_file(0, false, 15, dims, f, b, "1"); dsym_assert(ok, "large capture succeeds"); dsym_assert((uint64_t)vfs_size("h/x.bin") == (uint64_t)prod, "file size is the product of the dimensions"); dsym_reach("end");
}

// ---- runtime entry points ----
struct Done { std::string path; uint32_t inv; std::string el; std::vector<Ref> refs; };
static void do_capture(__daisy_capture_t* ctx, Ref& r, size_t el) {
    r.el = std::to_string(el); uint8_t* d = r.bytes.data();
    switch (r.dims.size()) {
    case 1: __daisy_capture_raw(ctx, r.idx, d, r.dims[0], r.type, r.after, el); break;
    case 2: __daisy_capture_1d(ctx, r.idx, d, r.dims[0], r.type, r.dims[1], r.after, el); break;
    case 3: __daisy_capture_2d(ctx, r.idx, d, r.dims[0], r.type, r.dims[1], r.dims[2], r.after, el); break;
    default: __daisy_capture_3d(ctx, r.idx, d, r.dims[0], r.type, r.dims[1], r.dims[2], r.dims[3], r.after, el);
    }
}
// strategies, invocation selection, output location, injective naming, read-back of everything captured so far
extern "C" void h_rtl() {
    static const char* strats[] = {nullptr, "once", "all", "never", "bogus", ""}; unsigned st = pick("strategy", 6); dsym_setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", strats[st]);
    const char* envd = pick("envdir", 2) ? "envd" : nullptr; dsym_setenv("__DAISY_CAPTURE_BASE_DIR", envd); const char* arg = pick("argdir", 2) ? "argd/x" : nullptr;
    std::string base = envd ? envd : arg ? arg : "arg_captures"; int warn0 = stderr_lines; __daisy_capture_t* ctx = __daisy_capture_init("k", arg);
    dsym_assert((stderr_lines > warn0) == (st >= 4), "an unknown strategy is reported"); bool never = st == 3, all = st == 2; dsym_assert((ctx == nullptr) == never, "strategy never yields no context");
    static const size_t eids[] = {1, 11}; static const int idxs[] = {1, 11}; uint32_t cnt[2] = {0, 0}; std::vector<Done> done; int steps = (int)dsym_cfg("steps", 2), ncap = (int)dsym_cfg("ncap", 2);
    for (int s = 0; s < steps; s++) {
        unsigned e = dsym_choice("el", 2); bool take = __daisy_capture_enter(ctx, eids[e]); uint32_t inv = cnt[e]++; bool want = !never && (all || inv == 0); dsym_assert(take == want, "enter selects exactly the invocations the strategy asks for");
        if (!take) { __daisy_capture_end(ctx); continue; }
        Done d; d.inv = inv; d.el = std::to_string(eids[e]);
        for (int c = 0; c < ncap; c++) { Ref r; r.idx = idxs[dsym_choice("idx", 2)]; r.after = dsym_choice("after", 2); r.type = 15; unsigned nd = 1 + (s + 2 * c + inv) % 4; for (unsigned i = 0; i < nd; i++) r.dims.push_back(i ? i : 1 + c); size_t sz = 1; for (auto x : r.dims) sz *= x; r.bytes.resize(sz); dsym_bytes(r.bytes.data(), sz, "d"); do_capture(ctx, r, eids[e]); for (auto& q : d.refs) if (q.idx == r.idx && q.after == r.after) q.live = false; d.refs.push_back(r); }
        __daisy_capture_end(ctx); d.path = base + "/k_inv" + std::to_string(inv) + "_" + d.el + ".index.json"; done.push_back(d);
    }
    for (auto& d : done) check_index(d.path, "k", d.inv, d.el, d.refs);
    int idx = 0; for (int i = 0; i < vfs_count(); i++) { std::string n = vfs_name(i); dsym_assert(n.compare(0, base.size() + 1, base + "/") == 0, "every file lies in the selected directory"); if (n.size() > 11 && n.compare(n.size() - 11, 11, ".index.json") == 0) idx++; }
    dsym_assert(idx == (int)done.size(), "one index per captured invocation and none otherwise"); dsym_assert(vfs_open_handles == 0, "closed"); dsym_observe("done", done.size()); dsym_reach("end");
}
// dimensions of 1d/2d/3d captures
extern "C" void h_rtl_dims() {
    __daisy_capture_t* ctx = __daisy_capture_init("k", "d"); __daisy_capture_enter(ctx, 5); Ref r = make_ref(2, 4, 2); do_capture(ctx, r, 5); __daisy_capture_end(ctx); check_index("d/k_inv0_5.index.json", "k", 0, "5", {r}); dsym_reach("end");
}
// size boundaries of raw captures
extern "C" void h_rtl_raw() {
    dsym_setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all"); __daisy_capture_t* ctx = __daisy_capture_init("k", "d"); static const unsigned szs[] = {0, 1, 31, 32, 33, 40}; unsigned n = szs[dsym_choice("sz", 6)];
    dsym_assert(__daisy_capture_enter(ctx, 5), "enter"); Ref r; r.idx = 2; r.after = dsym_choice("after", 2); r.type = dsym_choice("type", 19); r.dims = {n}; r.bytes.resize(n); if (n) dsym_bytes(r.bytes.data(), n, "d"); do_capture(ctx, r, 5); __daisy_capture_end(ctx); check_index("d/k_inv0_5.index.json", "k", 0, "5", {r}); dsym_reach("end");
}
// the runtime reports failed captures by an exception, and null contexts do nothing
extern "C" void h_rtl_faults() {
    __daisy_capture_t* ctx = __daisy_capture_init("k", "d"); __daisy_capture_enter(ctx, 5); Ref r = make_ref(1, 4, 1); bool n = dsym_choice("null", 2);
    vfs_fault_mode = VFS_OPEN_W | VFS_WRITE | VFS_CLOSE | VFS_MKDIR; bool threw = false; std::vector<uint8_t> save = r.bytes; Ref q = r; if (n) { q.bytes = {}; q.bytes.shrink_to_fit(); }
    size_t sz = r.bytes.size(); dsym_assume(!(n && r.dims.size() == 1 && sz)); try { do_capture(ctx, n ? q : r, 5); } catch (const std::runtime_error&) { threw = true; } vfs_fault_mode = 0;
    dsym_assert(threw == (vfs_faults_injected != 0 || (n && sz)), "a failed capture raises std::runtime_error"); dsym_assert(vfs_open_handles == 0, "closed");
    Ref z = r; int w = vfs_writes; do_capture(nullptr, z, 5); __daisy_capture_end(nullptr); dsym_assert(!__daisy_capture_enter(nullptr, 1) && vfs_writes == w, "a null context does nothing"); dsym_reach(threw ? "fail" : "ok");
}
// several contexts at once, large element ids, many arguments, and files left over from an earlier run
extern "C" void h_rtl_wide() {
    dsym_setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all"); static const size_t eids[] = {5, ((size_t)1 << 32) + 5, (size_t)-1, 50}; static const char* nm[] = {"k", "kk"}; int nargs = (int)dsym_cfg("nargs", 14);
    std::string junk(3000, '}'); vfs_put("d/k_inv0_5.index.json", junk.data(), junk.size()); vfs_put("d/k_inv0_arg1_in_5.bin", junk.data(), junk.size()); vfs_put("d/k_inv1_5.index.json", junk.data(), junk.size());
    __daisy_capture_t* c[2]; for (int i = 0; i < 2; i++) c[i] = __daisy_capture_init(nm[i], "d"); std::vector<Done> done; uint32_t cnt[2][4] = {};
    for (int s = 0; s < (int)dsym_cfg("steps", 3); s++) { unsigned w = dsym_choice("ctx", 2), e = s == 0 ? 0 : dsym_choice("el", 4); dsym_assert(__daisy_capture_enter(c[w], eids[e]), "every invocation is selected"); Done d; d.inv = cnt[w][e]++; d.el = std::to_string(eids[e]);
        for (int a = 0; a < nargs; a++) for (int ph = 0; ph < 2; ph++) { Ref r; r.idx = a; r.after = ph; r.type = (a + ph) % 19; unsigned nd = 1 + a % 4; for (unsigned i = 0; i < nd; i++) r.dims.push_back(i ? 1 + (a + i) % 3 : 1 + a % 3); size_t sz = 1; for (auto x : r.dims) sz *= x; r.bytes.resize(sz); for (size_t i = 0; i < sz; i++) r.bytes[i] = (uint8_t)(a * 31 + ph * 7 + i + s * 3); if (a == 1 || a == nargs - 1) dsym_bytes(r.bytes.data() + sz - 1, 1, "d"); do_capture(c[w], r, eids[e]); d.refs.push_back(r); }
        __daisy_capture_end(c[w]); d.path = std::string("d/") + nm[w] + "_inv" + std::to_string(d.inv) + "_" + d.el + ".index.json"; for (auto& x : d.refs) x.live = true; done.push_back(d);
        for (auto& x : done) if (x.path == d.path && x.refs.size() && &x != &done.back()) dsym_assert(false, "distinct invocations of a region have distinct index names"); }
    for (auto& d : done) { size_t n = d.path.find("/k_"); check_index(d.path, n == std::string::npos ? "kk" : "k", d.inv, d.el, d.refs); } dsym_assert(vfs_open_handles == 0, "closed"); dsym_reach("end");
}
// arguments of many sizes: first, last and one inner byte symbolic, every other byte a fixed pattern
static void big_bytes(std::vector<uint8_t>& b) { for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)(i * 167 + (i >> 8) * 13 + 1); if (b.size()) { dsym_bytes(&b[0], 1, "b0"); dsym_bytes(&b[b.size() - 1], 1, "bn"); dsym_bytes(&b[b.size() / 2], 1, "bm"); } }
extern "C" void h_big() {
    static const unsigned szs[] = {57, 76, 77, 127, 128, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8193, 16383, 16385, 32769, 65535, 65536, 65537}; unsigned lo = (unsigned)dsym_cfg("lo", 0), hi = (unsigned)dsym_cfg("hi", 26); bool il = dsym_cfg("inline", 0); unsigned n = szs[lo + dsym_choice("sz", hi - lo)];
    Ref r; r.idx = 1; r.after = dsym_choice("after", 2); r.type = 8; r.dims = {n}; r.bytes.resize(n); big_bytes(r.bytes); r.el = "5";
    if (il) { ArgCaptureIO io("fn"); io.invocation("5"); io.create_and_capture_inline(r.idx, r.after, r.type, r.dims, r.bytes.data(), "5"); io.write_index("d"); check_index("d/fn_inv0_5.index.json", "fn", 0, "5", {r}); }
    else { r.dims = {1, n}; __daisy_capture_t* c = __daisy_capture_init("k", "d"); __daisy_capture_enter(c, 5); do_capture(c, r, 5); __daisy_capture_end(c); check_index("d/k_inv0_5.index.json", "k", 0, "5", {r}); size_t m = 0; const char* p = vfs_data((std::string("d/k_inv0_arg1_") + (r.after ? "out" : "in") + "_5.bin").c_str(), &m); dsym_assert(p && m == n, "file holds exactly the argument's size"); }
    dsym_reach("end");
}
// base64 over long inputs, symbolic bytes at the ends and in the middle
extern "C" void h_b64_long() {
    static const unsigned szs[] = {48, 54, 56, 57, 58, 60, 63, 64, 72, 75, 76, 77, 114, 127, 128, 129, 171, 255, 256, 257, 300, 512, 1021, 1022, 1023, 1024, 3000}; unsigned n = szs[dsym_choice("sz", 27)]; std::vector<uint8_t> v(n); big_bytes(v); std::string e = base64_encode(v.data(), n);
    dsym_assert(e.size() == (n + 2) / 3 * 4, "encoded length is the RFC 4648 length"); unsigned nch = (n * 8 + 5) / 6; bool ok = true; for (unsigned i = 0; i < e.size(); i++) { uint8_t want = i < nch ? rfc_char(sextet(i, 0, v.data(), n)) : (uint8_t)'='; ok = ok & ((uint8_t)e[i] == want); } dsym_assert(ok, "encoded characters match RFC 4648");
    std::vector<uint8_t> d = base64_decode(e); dsym_assert(d.size() == n, "decode restores the length"); dsym_assert(bytes_eq(d.data(), v.data(), n), "decode restores every byte"); dsym_reach("end");
}
