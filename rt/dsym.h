// Harness API.  Under the symbolic engine these are builtins; in the native replay build they read a test vector.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t dsym_u8(const char* name);
uint16_t dsym_u16(const char* name);
uint32_t dsym_u32(const char* name);
uint64_t dsym_u64(const char* name);
bool dsym_bool(const char* name);
double dsym_f64(const char* name);
float dsym_f32(const char* name);
int64_t dsym_range(const char* name, int64_t lo, int64_t hi);      // symbolic value in [lo,hi]
uint32_t dsym_choice(const char* name, uint32_t n);                // explores every value 0..n-1
uint64_t dsym_concretize(uint64_t v);                              // explores every feasible value
void dsym_bytes(void* p, size_t n, const char* name);
void dsym_assume(bool c);
void dsym_assert(bool c, const char* label);
void dsym_reach(const char* label);
void dsym_observe(const char* label, uint64_t v);
int64_t dsym_cfg(const char* name, int64_t dflt);
bool dsym_native(void);
void dsym_end(void) __attribute__((noreturn));
void dsym_note(const char* s);
void dsym_thread(int tid);
void dsym_lock(const void*);
void dsym_unlock(const void*);
uint64_t dsym_held_locks(void);
bool dsym_is_symbolic(uint64_t v);
bool dsym_is_symbolic_f(double v);
uint64_t dsym_valid_bytes(const void* p);
void dsym_print(const char* s, uint64_t v);
int dsym_fmt_double(char* buf, size_t n, const char* fmt, int prec, double v);
uint64_t dsym_ite64(bool c, uint64_t a, uint64_t b);
// runtime model control (rt/rt.cpp)
void dsym_setenv(const char* name, const char* value);             // value may be null
void dsym_run_atexit(void);
void dsym_reset_runtime(void);
#ifdef __cplusplus
}
#endif
