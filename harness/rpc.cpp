// Harnesses over the remote-optimiser client configuration and transport (rpc/)
#include <curl/curl.h>
#include <cstring>
#include <filesystem>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include "dsym.h"
#include "model.h"
#include "sdfg/passes/rpc/daisytuner_rpc_context.h"
#include "sdfg/passes/rpc/rpc_context.h"
#include "sdfg/util/utils_curl.h"
using namespace sdfg::passes::rpc;
static const std::string DEF = "https://docc-backend-1080482399950.europe-west1.run.app/docc", SESSION = "/var/lib/daisytuner/session";
static uint32_t pick(const char* n, uint32_t k) { int64_t v = dsym_cfg(n, -1); return v >= 0 ? (uint32_t)v : dsym_choice(n, k); }
static void env(const char* n, const char* v) { dsym_setenv(n, v); }
static const char* opt(const char* n, const char* v) { switch (dsym_choice(n, 3)) { case 0: return nullptr; case 1: return ""; default: return v; } }
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static std::string trimmed(std::string s) { size_t n = s.size(); while (n && ws(s[n - 1])) n--; return s.substr(0, n); }
struct World { std::string tok; bool job = false, any = false; std::string server; };
static std::string filetext(const char* n, const char* dflt) { static const char* tails[] = {"", "\n", " \r\n\t", "\n\n x"}; return std::string(dflt) + tails[dsym_choice(n, 4)]; }
// the whole credential search: every combination of sources
static World world() {
    World w; const char* j = opt("job", "jt"); const char* a = opt("acc", "at"); unsigned hm = dsym_choice("home", 4), sess = dsym_choice("sess", 2); const char* srv = opt("srv", "http://other:1/x"); env("DOCC_JOB_TOKEN", j); env("DOCC_ACCESS_TOKEN", a); env("RPC_SERVER", srv); env("HOME", hm == 0 ? nullptr : hm == 1 ? "" : "/home/u");
    std::string ht, st; if (hm == 3) { ht = filetext("ht", "hometok"); vfs_put("/home/u/.config/docc/token", ht.data(), ht.size()); } if (sess) { st = filetext("st", "sesstok"); vfs_put(SESSION.c_str(), st.data(), st.size()); }
    w.server = srv && *srv ? srv : DEF; w.any = true; if (j && *j) { w.tok = j; w.job = true; } else if (a && *a) w.tok = a; else if (hm == 3) w.tok = trimmed(ht); else if (sess) w.tok = trimmed(st); else w.any = false; return w;
}
extern "C" void h_auth() {
    World w = world(); auto r = DaisytunerRpcContext::find_docc_auth(); dsym_assert(r.has_value() == w.any, "credentials are found exactly when a source provides them"); if (w.any) { dsym_assert(r->first == w.tok, "the token comes from the source with the highest precedence, without trailing white space"); dsym_assert(r->second == w.job, "only the job token is marked as one"); dsym_reach("found"); } dsym_reach("end");
}
static void check_ctx(const RpcContext& c, const World& w) { dsym_assert(c.get_remote_address() == w.server + "/transfertune", "the request goes to the configured server"); auto h = c.get_auth_headers(); dsym_assert(h.size() == 1 && h.count("Authorization") && h["Authorization"] == (w.job ? "Job " : "Token ") + w.tok, "the request carries the credential"); }
extern "C" void h_ctx() {
    World w = world(); bool thrown = false; std::shared_ptr<RpcContext> c; try { if (dsym_choice("fn", 2)) c = build_rpc_context_from_docc_config(); else c = DaisytunerRpcContext::from_docc_config(); } catch (const std::runtime_error&) { thrown = true; } dsym_assert(thrown == !w.any, "missing credentials are reported as an error"); if (!thrown) check_ctx(*c, w);
    SimpleRpcContextBuilder b; if (dsym_choice("pre", 2)) b.initialize_local_default(); bool had = !b.server.empty(); b.from_docc_config(); thrown = false; try { c = b.build(false); } catch (const std::runtime_error&) { thrown = true; } dsym_assert(thrown == (!w.any && !had), "a context without a server cannot be built"); if (!thrown && w.any) check_ctx(*c, w); if (!thrown && !w.any) dsym_assert(c->get_remote_address() == "http://localhost:8080/docc/transfertune" && c->get_auth_headers().empty(), "without credentials the earlier configuration stays");
    DaisytunerRpcContext d("tk", dsym_choice("isjob", 2)); World e = w; e.tok = "tk"; e.job = d.get_auth_headers()["Authorization"] == "Job tk"; check_ctx(d, e); dsym_reach("end");
}
// tokens with arbitrary characters
extern "C" void h_token_bytes() {
    unsigned n = dsym_choice("n", (unsigned)dsym_cfg("max", 4) + 1); std::string s; for (unsigned i = 0; i < n; i++) s += (char)dsym_u8("c"); env("DOCC_JOB_TOKEN", nullptr); env("DOCC_ACCESS_TOKEN", nullptr); unsigned src = dsym_choice("src", 2); env("HOME", src ? "/h" : nullptr); if (src) vfs_put("/h/.config/docc/token", s.data(), n); else vfs_put(SESSION.c_str(), s.data(), n); auto r = DaisytunerRpcContext::find_docc_auth(); dsym_assert(r.has_value(), "a readable token file provides the token"); size_t k = n; while (k && ws(s[k - 1])) k--; dsym_assert(r->first.size() == k, "exactly the trailing white space is removed"); for (size_t i = 0; i < k; i++) dsym_assert(r->first[i] == s[i], "the rest of the token is unchanged"); dsym_assert(!r->second, "not a job token"); dsym_reach("end");
}
// configuration files
extern "C" void h_file() {
    // every member: absent, string, empty string, other type
    auto val = [](const char* n, const char* s) -> std::pair<int, std::string> { switch (dsym_choice(n, 4)) { case 0: return {0, ""}; case 1: return {1, std::string("\"") + s + "\""}; case 2: return {2, "\"\""}; default: return {3, "17"}; } };
    auto sv = val("server", "http://s"), ep = val("endpoint", "ep"); std::string t = "{"; bool f = true; auto add = [&](const std::string& k, const std::string& v) { if (!f) t += ", "; f = false; t += "\"" + k + "\": " + v; };
    unsigned hd = dsym_choice("headers", 3); auto h1 = hd == 1 ? val("h1", "v1") : std::pair<int, std::string>{0, ""}; auto h2 = hd == 1 ? val("h2", "v2") : std::pair<int, std::string>{0, ""}; if (hd == 1) { std::string o = "{"; if (h1.first) o += "\"K1\": " + h1.second; if (h2.first) o += std::string(h1.first ? ", " : "") + "\"K2\": " + h2.second; add("HEADERS", o + "}"); } if (hd == 2) add("HEADERS", "[\"K1\"]"); if (sv.first) add("SERVER", sv.second); add("extra", "[1, {\"a\": null}]"); if (ep.first) add("ENDPOINT", ep.second); t += "}\n";
    unsigned pre = dsym_choice("pre", 2); SimpleRpcContextBuilder b; if (pre) { b.initialize_local_default(); b.add_header("K1", "old"); b.add_header("Z", "z"); } unsigned how = pick("how", 4); vfs_put("/cfg/rpc.json", t.data(), t.size()); env("SDFG_RPC_CONFIG", how == 3 ? "" : "/cfg/rpc.json");
    if (how == 0) b.from_file("/cfg/rpc.json"); else b.from_env(); bool read = how != 3; std::string server = pre ? "http://localhost:8080/docc" : "", endp = pre ? "transfertune" : ""; if (read && sv.first == 1) server = "http://s"; if (read && sv.first == 2) server = ""; if (read && ep.first == 1) endp = "ep"; if (read && ep.first == 2) endp = ""; size_t nh = pre ? 2 : 0; std::string k1 = pre ? "old" : "", k2; bool hk1 = pre, hk2 = false; if (read && (h1.first == 1 || h1.first == 2)) { k1 = h1.first == 1 ? "v1" : ""; if (!hk1) nh++; hk1 = true; } if (read && (h2.first == 1 || h2.first == 2)) { k2 = h2.first == 1 ? "v2" : ""; nh++; hk2 = true; }
    bool thrown = false; std::shared_ptr<SimpleRpcContext> c; try { c = b.build(false); } catch (const std::runtime_error&) { thrown = true; } dsym_assert(thrown == server.empty(), "a context without a server cannot be built"); if (thrown) dsym_end();
    dsym_assert(c->get_remote_address() == server + "/" + endp, "later configuration overrides earlier member by member"); auto h = c->get_auth_headers(); dsym_assert(h.size() == nh, "headers are merged"); if (hk1) dsym_assert(h.count("K1") && h["K1"] == k1, "header value"); if (hk2) dsym_assert(h.count("K2") && h["K2"] == k2, "header value"); if (pre) dsym_assert(h["Z"] == "z", "other headers stay"); dsym_reach("end");
}
extern "C" void h_file_bad() { unsigned k = dsym_choice("k", 3); if (k == 1) vfs_put("/cfg/rpc.json", "{\"SERVER\": ", 11); if (k == 2) vfs_put("/cfg/rpc.json", "", 0); SimpleRpcContextBuilder b; bool thrown = false; try { if (dsym_choice("env", 2)) { env("SDFG_RPC_CONFIG", "/cfg/rpc.json"); b.from_env(); } else b.from_file("/cfg/rpc.json"); } catch (const std::exception&) { thrown = true; } dsym_assert(thrown, "an unreadable configuration file is reported"); dsym_assert(b.server.empty() && b.headers.empty(), "and changes nothing"); dsym_reach("end"); }
extern "C" void h_header() {
    unsigned n = dsym_choice("n", (unsigned)dsym_cfg("max", 5) + 1); char s[16]; for (unsigned i = 0; i < n; i++) { s[i] = (char)dsym_u8("c"); dsym_assume(s[i] != 0); } s[n] = 0; bool set = dsym_choice("set", 2); env("RPC_HEADER", set ? s : nullptr); SimpleRpcContextBuilder b; b.add_header("keep", "1"); b.from_header_env(); if (!set || !n) { dsym_assert(b.headers.size() == 1, "no header variable, no header"); dsym_reach("none"); dsym_end(); }
    size_t c = 0; while (c < n && s[c] != ':') c++; std::string key = c < n ? std::string(s, c) : "RPC-Hint", v = c < n ? std::string(s + c + 1, n - c - 1) : std::string(s, n); auto it = b.headers.find(key); dsym_assert(it != b.headers.end() && it->second == v, "the header is split at the first colon"); if (key != "keep") dsym_assert(b.headers.size() == 2 && b.headers["keep"] == "1", "other headers stay"); dsym_reach("end");
}
extern "C" void h_auto() { unsigned f = dsym_choice("file", 2), h = dsym_choice("hdr", 3); std::string t = "{\"SERVER\":\"http://s\",\"HEADERS\":{\"A\":\"1\"}}"; if (f) { vfs_put("/c.json", t.data(), t.size()); env("SDFG_RPC_CONFIG", "/c.json"); } env("RPC_HEADER", h == 0 ? nullptr : h == 1 ? "A:2" : "hint"); auto c = build_rpc_context_auto(); auto m = c->get_auth_headers(); dsym_assert(c->get_remote_address() == (f ? "http://s/transfertune" : "http://localhost:8080/docc/transfertune"), "file overrides the local default"); dsym_assert(m.size() == (size_t)((f || h == 1) + (h == 2)), "headers"); if (h == 1) dsym_assert(m["A"] == "2", "the environment header overrides the file"); else if (f) dsym_assert(m["A"] == "1", "file header"); if (h == 2) dsym_assert(m["RPC-Hint"] == "hint", "hint header"); auto l = build_rpc_context_local(); dsym_assert(l->get_remote_address() == "http://localhost:8080/docc/transfertune" && l->get_auth_headers().empty(), "local default"); dsym_reach("end"); }
// ---------------- transport ----------------
static size_t (*wcb)(char*, size_t, size_t, void*); static void* wdata; static std::string* sent; static std::string* url; static void* hdrs; static long status; static int code, nchunk; static std::string* full; static bool performed, aborted;
extern "C" CURLcode curl_easy_setopt(CURL*, CURLoption o, ...) { va_list ap; va_start(ap, o); void* p = va_arg(ap, void*); va_end(ap); if (o == CURLOPT_WRITEFUNCTION) wcb = (size_t(*)(char*, size_t, size_t, void*))p; else if (o == CURLOPT_WRITEDATA) wdata = p; else if (o == CURLOPT_URL) *url = (const char*)p; else if (o == CURLOPT_POSTFIELDS || o == CURLOPT_COPYPOSTFIELDS) *sent = (const char*)p; else if (o == CURLOPT_HTTPHEADER) hdrs = p; return CURLE_OK; }
extern "C" CURLcode curl_easy_perform(CURL*) { performed = true; for (int k = 0; k < nchunk; k++) { unsigned n = dsym_choice("len", (unsigned)dsym_cfg("maxlen", 3) + 1); char* b = new char[n + 1]; for (unsigned i = 0; i < n; i++) { b[i] = (char)dsym_u8("b"); } unsigned sz = n > 1 && dsym_choice("two", 2) && n % 2 == 0 ? 2 : 1; size_t r = wcb(b, sz, n / sz, wdata); if (r != n) aborted = true; full->append(b, n); for (unsigned i = 0; i < n; i++) b[i] = '#'; delete[] b; } return (CURLcode)code; }
extern "C" CURLcode curl_easy_getinfo(CURL*, CURLINFO i, ...) { va_list ap; va_start(ap, i); void* p = va_arg(ap, void*); va_end(ap); if (i == CURLINFO_RESPONSE_CODE) *(long*)p = status; return CURLE_OK; }
extern "C" const char* curl_easy_strerror(CURLcode) { return "transport failed"; }
static void start() { full = new std::string(); sent = new std::string(); url = new std::string(); nchunk = (int)dsym_choice("chunks", (unsigned)dsym_cfg("maxchunks", 2) + 1); }
extern "C" void h_post() {
    start(); static const int st[] = {200, 201, 203, 204, 199, 100, 299, 301, 400, 401, 402, 403, 404, 500, 503, 0}; status = dsym_cfg("anystatus", 0) ? dsym_range("status", 0, 999) : st[pick("st", 16)]; code = 0; struct curl_slist hl; hl.data = nullptr; hl.next = nullptr; bool wh = dsym_choice("hdr", 2); HttpResult r = post_json((CURL*)1, "http://u/v", "{\"p\":1}", wh ? &hl : nullptr);
    dsym_assert(performed && !aborted, "the transfer is performed and never aborted by the receiver"); dsym_assert(*url == "http://u/v" && *sent == "{\"p\":1}", "address and payload are passed on"); dsym_assert(hdrs == (wh ? &hl : nullptr), "headers are passed on"); dsym_assert(r.curl_code == CURLE_OK && r.http_status == status, "status is reported"); dsym_assert(r.body.size() == full->size(), "the body is complete"); for (size_t i = 0; i < full->size(); i++) dsym_assert(r.body[i] == (*full)[i], "the body is the received bytes in order");
    bool ok = (status >= 200) & (status < 204); dsym_assert(r.error_message.empty() == ok, "an error is reported exactly for unsuccessful responses"); if (!r.error_message.empty()) dsym_assert(r.error_message.size() > full->size(), "the error shows the response"); dsym_reach("end");
}
extern "C" void h_post_fail() { start(); code = (int)dsym_range("code", 1, 98); status = 200; HttpResult r = post_json((CURL*)1, "http://u/v", "x", nullptr); dsym_assert((int)r.curl_code == code, "transport failures are reported"); dsym_assert(!r.error_message.empty(), "with a message"); dsym_assert(r.body.size() == full->size(), "what was received is kept"); dsym_assert(r.http_status == 0, "and no status"); dsym_reach("end"); }
