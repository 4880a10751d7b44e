// Native replay runtime: the dsym API over a test vector.  usage: prog <harness> <vector-file> [cfg k=v]...
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include <pthread.h>
#include <map>
#include <string>
#include <vector>
#include "dsym.h"
#include "model.h"
static std::map<std::string, uint64_t> vec; static std::map<std::string, int> cnt; static std::map<std::string, int64_t> cfg;
static void emit(const char* k, const char* l, unsigned long long v) { char b[1024]; int n = snprintf(b, sizeof b, "%s\t%s\t%llu\n", k, l, v); (void)!write(1, b, n); }
static uint64_t getv(const char* name, unsigned w) { std::string k = std::string(name) + "#" + std::to_string(cnt[name]++); if (w != 8) k += ":" + std::to_string(w); auto it = vec.find(k); return it == vec.end() ? 0 : it->second; }
static bool in_exit = false;
static void finish(const char* how) { emit("END", how, 0); _exit(0); }
static void (*exit_hook)(int) = nullptr;
struct AtEx { void (*fn)(void*); void* arg; }; static std::vector<AtEx> atex;
extern "C" {
uint8_t dsym_u8(const char* n) { return (uint8_t)getv(n, 8); } uint16_t dsym_u16(const char* n) { return (uint16_t)getv(n, 16); } uint32_t dsym_u32(const char* n) { return (uint32_t)getv(n, 32); } uint64_t dsym_u64(const char* n) { return getv(n, 64); } bool dsym_bool(const char* n) { return getv(n, 1) & 1; }
double dsym_f64(const char* n) { uint64_t v = getv(n, 64); double d; memcpy(&d, &v, 8); return d; } float dsym_f32(const char* n) { uint32_t v = (uint32_t)getv(n, 32); float d; memcpy(&d, &v, 4); return d; }
int64_t dsym_range(const char* n, int64_t lo, int64_t hi) { int64_t v = (int64_t)getv(n, 64); if (v < lo || v > hi) finish("assume"); return v; }
uint32_t dsym_choice(const char* n, uint32_t k) { uint32_t v = (uint32_t)getv(n, 32); if (v >= k) finish("assume"); return v; }
uint64_t dsym_concretize(uint64_t v) { return v; }
void dsym_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = dsym_u8(nm); }
void dsym_assume(bool c) { if (!c) finish("assume"); }
void dsym_assert(bool c, const char* l) { if (!c) { emit("ASSERT", l, 0); _exit(7); } }
void dsym_reach(const char* l) { emit("REACH", l, 0); }
void dsym_observe(const char* l, uint64_t v) { emit("OBS", l, v); }
int64_t dsym_cfg(const char* n, int64_t d) { auto it = cfg.find(n); return it == cfg.end() ? d : it->second; }
bool dsym_native(void) { return true; }
void dsym_end(void) { finish("end"); }
void dsym_note(const char*) {} void dsym_thread(int) {} void dsym_lock(const void*) {} void dsym_unlock(const void*) {} uint64_t dsym_held_locks(void) { return 0; }
bool dsym_is_symbolic(uint64_t) { return false; } bool dsym_is_symbolic_f(double) { return false; } uint64_t dsym_valid_bytes(const void*) { return ~0ull; }
void dsym_print(const char* s, uint64_t v) { emit("PRINT", s, v); }
int dsym_fmt_double(char* b, size_t n, const char* f, int prec, double v) { return prec >= 0 ? snprintf(b, n, f, prec, v) : snprintf(b, n, f, v); }
uint64_t dsym_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void __wrap_exit(int c) { if (!in_exit && exit_hook) { in_exit = true; exit_hook(c); } finish("exit"); __builtin_unreachable(); }
int __wrap___cxa_atexit(void (*f)(void*), void* a, void*) { atex.push_back({f, a}); return 0; }
void dsym_mark_atexit(void) { atex.clear(); }
void dsym_run_atexit(void) { while (!atex.empty()) { AtEx a = atex.back(); atex.pop_back(); a.fn(a.arg); } }
static void* par_tramp(void* f) { ((void (*)())f)(); return nullptr; }
void dsym_par(void (*a)(void), void (*b)(void)) { pthread_t x, y; pthread_create(&x, 0, par_tramp, (void*)a); pthread_create(&y, 0, par_tramp, (void*)b); pthread_join(x, 0); pthread_join(y, 0); }
int __wrap_getpid(void) { return 4242; } int __wrap_gettid(void) { return 4243; }
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    FILE* f = __real_fopen(argv[2], "r"); if (!f) return 2; char nm[4096]; unsigned w; unsigned long long v; while (fscanf(f, "%4095s %u %llu", nm, &w, &v) == 3) vec[nm] = v; __real_fclose(f);
    for (int i = 3; i < argc; i++) { std::string a = argv[i]; auto q = a.find('='); cfg[a.substr(0, q)] = strtoll(a.c_str() + q + 1, 0, 0); }
    auto h = (void (*)())__real_dlsym(RTLD_DEFAULT, argv[1]); if (!h) return 2; exit_hook = (void (*)(int))__real_dlsym(RTLD_DEFAULT, "dsym_on_exit");
    try { h(); } catch (const std::exception& e) { emit("UNCAUGHT", "exception", 0); _exit(8); } catch (...) { emit("UNCAUGHT", "exception", 0); _exit(8); }
    finish("end");
}
