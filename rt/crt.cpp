// C runtime for the symbolic build (no libc is linked there).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "dsym.h"
extern "C" {
void* malloc(size_t); void* memcpy(void*, const void*, size_t); size_t strlen(const char*);
double strtod(const char*, char**);
static int g_errno;
int* __errno_location(void) { return &g_errno; }
char __libc_single_threaded = 1;
void* __dso_handle = 0;
// ---- strings ----
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) a++, b++; if (!*b) return (char*)h; if (!*h) return 0; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) d++, s++; return d; }
char* strncat(char* d, const char* s, size_t n) { char* r = d; d += strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char* strndup(const char* s, size_t n) { size_t k = strnlen(s, n); char* r = (char*)malloc(k + 1); memcpy(r, s, k); r[k] = 0; return r; }
char* strtok_r(char* s, const char* del, char** sv) { if (!s) s = *sv; s += strspn(s, del); if (!*s) { *sv = s; return 0; } char* t = s; s += strcspn(s, del); if (*s) *s++ = 0; *sv = s; return t; }
char* strtok(char* s, const char* del) { static char* sv; return strtok_r(s, del, &sv); }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* b = (const unsigned char*)p; while (n--) if (b[n] == (unsigned char)c) return (void*)(b + n); return 0; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { const char *a = (const char*)h, *b = (const char*)n; if (!nn) return (void*)h; for (size_t i = 0; i + nn <= hn; i++) { size_t k = 0; while (k < nn && a[i + k] == b[k]) k++; if (k == nn) return (void*)(a + i); } return 0; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x - 'A' < 26u) x += 32; if (y - 'A' < 26u) y += 32; if (x != y) return (int)x - y; if (!x) return 0; } return 0; }
char* strerror(int) { return (char*)"error"; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x - 'A' < 26u) x += 32; if (y - 'A' < 26u) y += 32; if (x != y) return (int)x - y; if (!x) return 0; } }
// ---- ctype: defined on EOF and unsigned char only, branch free ----
#define DOM(c) dsym_assert((unsigned)((c) + 128) < 384u, "ctype argument is in the range the C library accepts (-128..255)")
#define R(a, b) ((unsigned)(c - a) <= (unsigned)(b - a))
int isdigit(int c) { DOM(c); return R('0', '9'); }
int isalpha(int c) { DOM(c); return R('a', 'z') | R('A', 'Z'); }
int isupper(int c) { DOM(c); return R('A', 'Z'); }
int islower(int c) { DOM(c); return R('a', 'z'); }
int isalnum(int c) { DOM(c); return R('0', '9') | R('a', 'z') | R('A', 'Z'); }
int isspace(int c) { DOM(c); return (c == ' ') | R(9, 13); }
int isblank(int c) { DOM(c); return (c == ' ') | (c == 9); }
int isxdigit(int c) { DOM(c); return R('0', '9') | R('a', 'f') | R('A', 'F'); }
int isprint(int c) { DOM(c); return R(32, 126); }
int isgraph(int c) { DOM(c); return R(33, 126); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int iscntrl(int c) { DOM(c); return R(0, 31) | (c == 127); }
int toupper(int c) { return R('a', 'z') ? c - 32 : c; }
int tolower(int c) { return R('A', 'Z') ? c + 32 : c; }
// ---- numbers ----
static int digitval(unsigned char c) { if (c - '0' < 10u) return c - '0'; if ((c | 32) - 'a' < 26u) return (c | 32) - 'a' + 10; return 99; }
static unsigned long long parse_mag(const char* s, char** end, int base, bool* neg, bool* ovf, bool* any) {
    const char* p = s; while (*p == ' ' || (unsigned)(*p - 9) < 5u) p++;
    *neg = false; if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitval(p[2]) < 16) { base = 16; p += 2; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; *ovf = false; *any = false;
    for (;; p++) { int d = digitval(*p); if (d >= base) break; *any = true;
        unsigned __int128 t = (unsigned __int128)v * base + d; if (t >> 64) *ovf = true; v = (unsigned long long)t; }
    if (end) *end = (char*)(*any ? p : s);
    return v;
}
long strtol(const char* s, char** end, int base) { bool n, o, a; unsigned long long v = parse_mag(s, end, base, &n, &o, &a);
    if (n) { if (o || v > 9223372036854775808ull) { g_errno = 34; return -9223372036854775807L - 1; } return (long)(0 - v); }
    if (o || v > 9223372036854775807ull) { g_errno = 34; return 9223372036854775807L; } return (long)v; }
unsigned long strtoul(const char* s, char** end, int base) { bool n, o, a; unsigned long long v = parse_mag(s, end, base, &n, &o, &a); if (o) { g_errno = 34; return ~0ul; } return n ? 0 - v : v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
double atof(const char* s) { return strtod(s, 0); }
struct lconv_ { char* dp; char* ts; char* rest[24]; };
static lconv_ g_lconv = {(char*)".", (char*)"", {0}};
struct lconv* localeconv(void) { return (struct lconv*)&g_lconv; }
// ---- formatted output ----
unsigned dsym_tab_put(unsigned long, unsigned long);
static void symtxt(char k, unsigned long v, bool neg, char* t, int& len) { unsigned id = dsym_tab_put(v, neg); t[0] = 1; t[1] = k; for (int i = 0; i < 4; i++) t[2 + i] = (char)('a' + (id >> (4 * i) & 15)); len = 6; }
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
    size_t n = 0;
    auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++; if (*f == '%') { put('%'); continue; }
        bool zero = false, left = false, plus = false; int width = 0, prec = -1;
        for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '#' || *f == ' ') ; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while ((unsigned)(*f - '0') < 10u) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while ((unsigned)(*f - '0') < 10u) prec = prec * 10 + (*f++ - '0'); }
        int lng = 0; bool sz = false; for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') sz = true; else if (*f == 'h') lng--; else break; }
        char tmp[400]; const char* s = tmp; int len = 0; char c = *f; unsigned long long v; bool neg = false; int base; char d[70]; int k = 0;
        if (c == 's') { s = va_arg(ap, const char*); if (!s) s = "(null)"; if (prec >= 0) { while (len < prec && s[len]) len++; } else len = (int)strlen(s); zero = false; }
        else if (c == 'c') { tmp[0] = (char)va_arg(ap, int); len = 1; zero = false; }
        else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
            base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10;
            if (c == 'd' || c == 'i') { long long sv = (lng > 0 || sz) ? va_arg(ap, long long) : va_arg(ap, int); neg = sv < 0; v = neg ? 0ull - (unsigned long long)sv : (unsigned long long)sv; }
            else if (c == 'p') v = (unsigned long long)va_arg(ap, void*); else v = (lng > 0 || sz) ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
            if (!width && prec < 0 && base == 10 && (dsym_is_symbolic(v) || dsym_is_symbolic(neg))) { symtxt('i', v, neg, tmp, len); goto emit; }
            v = dsym_concretize(v);
            do { int g = (int)(v % base); d[k++] = (char)(g < 10 ? '0' + g : (c == 'X' ? 'A' : 'a') + g - 10); v /= base; } while (v);
            if (prec >= 0) { while (k < prec) d[k++] = '0'; zero = false; }
            if (c == 'p') { d[k++] = 'x'; d[k++] = '0'; }
            if (zero && !left) while (k + (neg || plus) < width && k < 68) d[k++] = '0';
            if (neg) d[k++] = '-'; else if (plus) d[k++] = '+';
            while (k) tmp[len++] = d[--k];
        } else if (c == 'f' || c == 'g' || c == 'e' || c == 'F' || c == 'G' || c == 'E') { double dv; dv = va_arg(ap, double); if (dsym_is_symbolic_f(dv)) { unsigned long u; memcpy(&u, &dv, 8); symtxt('d', u, 0, tmp, len); goto emit; } char fm[5]; fm[0] = '%'; fm[1] = '.'; fm[2] = '*'; fm[3] = c; fm[4] = 0; len = dsym_fmt_double(tmp, sizeof tmp, fm, prec < 0 ? 6 : prec, dv); }
        else dsym_assert(false, "runtime model: unsupported printf conversion");
    emit:
        if (!left) for (int i = len; i < width; i++) put(zero ? '0' : ' ');
        for (int i = 0; i < len; i++) put(s[i]);
        if (left) for (int i = len; i < width; i++) put(' ');
    }
    if (cap) out[n < cap ? n : cap - 1] = 0;
    return (int)n;
}
int snprintf(char* o, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
int sprintf(char* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, 1u << 20, f, ap); va_end(ap); return r; }
// ---- atexit ----
struct AtEx { void (*fn)(void*); void* arg; };
static AtEx g_atexit[256]; static int g_natexit;
int __cxa_atexit(void (*fn)(void*), void* arg, void*) { if (g_natexit < 256) { g_atexit[g_natexit].fn = fn; g_atexit[g_natexit++].arg = arg; } return 0; }
int atexit(void (*fn)(void)) { return __cxa_atexit((void (*)(void*))fn, 0, 0); }
static int g_atexit_mark = -1;
__attribute__((noinline)) void dsym_mark_atexit(void) { g_atexit_mark = g_natexit; }
// runs what the program registered since dsym_mark_atexit (default: everything since the harness started)
void dsym_run_atexit(void) { int lo = g_atexit_mark < 0 ? 0 : g_atexit_mark; while (g_natexit > lo) { AtEx a = g_atexit[--g_natexit]; a.fn(a.arg); } }
// ---- misc ----
int getpid(void) { return 4242; }
int gettid(void) { return 4243; }
long syscall(long, ...) { return 4243; }
long sysconf(int) { return 8; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int pthread_once(int* o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { char* p = (char*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; } }
static unsigned long g_clk = 1000;
int clock_gettime(int, long* ts) { g_clk += 1000; ts[0] = (long)(g_clk / 1000000000ul); ts[1] = (long)(g_clk % 1000000000ul); return 0; }
long time(long* t) { if (t) *t = 1; return 1; }
}
