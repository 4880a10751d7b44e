// In-memory file system, environment and stdio model shared by the symbolic and the native replay builds.
#include <map>
#include <string>
#include <cstring>
#include <cstdarg>
#include <iostream>
#include "dsym.h"
#include "model.h"
#include <__dsym_vfs.h>
struct VNode { bool dir = false; std::string data; size_t phantom = 0; };
extern "C" { unsigned long vfs_phantom_limit = 0; } // writes larger than this only record their size (0: off)
struct VHandle { std::string path; size_t pos; bool wr; bool failed; };
static std::map<std::string, VNode>& fs() { static std::map<std::string, VNode>* m = new std::map<std::string, VNode>(); return *m; }
int vfs_fault_mode = 0; int vfs_faults_injected = 0; int vfs_open_handles = 0; int vfs_writes = 0;
static bool fault(const char* n, int kind) { if (!(vfs_fault_mode & kind)) return false; if (dsym_choice(n, 2)) { vfs_faults_injected |= kind; return true; } return false; }
static std::string norm(const char* p) { std::string s(p), r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '/' && !r.empty() && r.back() == '/') continue; r += s[i]; } while (r.size() > 1 && r.back() == '/') r.pop_back(); if (r.compare(0, 2, "./") == 0) r = r.substr(2); return r; }
extern "C" {
void* vfs_open(const char* path, int wr, int app, int tr) {
    std::string p = norm(path); auto it = fs().find(p);
    if (p.empty()) return nullptr;
    if (wr) { if (it != fs().end() && it->second.dir) return nullptr;
        auto k = p.rfind('/'); if (k != std::string::npos && k > 0 && !vfs_is_dir(p.substr(0, k).c_str())) return nullptr;
        if (fault("fault_open_w", VFS_OPEN_W)) return nullptr; VNode& n = fs()[p]; if (tr) { n.data.clear(); n.phantom = 0; } vfs_open_handles++; return new VHandle{p, app ? n.data.size() : 0, true, false}; }
    if (it == fs().end() || it->second.dir) return nullptr; if (fault("fault_open_r", VFS_OPEN_R)) return nullptr;
    vfs_open_handles++; return new VHandle{p, 0, false, false}; }
long vfs_write(void* hh, const char* s, size_t n) { VHandle* h = (VHandle*)hh; vfs_writes++; if (!h->wr || h->failed) return 0; VNode& v = fs()[h->path];
    if (n && fault("fault_write", VFS_WRITE)) { h->failed = true; return 0; }
    if (vfs_phantom_limit && n > vfs_phantom_limit) { v.phantom += n; return (long)n; }
    if (h->pos == v.data.size()) v.data.append(s, n); else { if (h->pos > v.data.size()) v.data.resize(h->pos); size_t k = v.data.size() - h->pos < n ? v.data.size() - h->pos : n; v.data.replace(h->pos, k, s, n); } h->pos += n; return (long)n; }
long vfs_read(void* hh, char* s, size_t n) { VHandle* h = (VHandle*)hh; VNode& v = fs()[h->path]; size_t a = h->pos < v.data.size() ? v.data.size() - h->pos : 0; if (n < a) a = n; if (a) memcpy(s, v.data.data() + h->pos, a); h->pos += a; return (long)a; }
int vfs_close(void* hh) { VHandle* h = (VHandle*)hh; int r = 0; if (h->wr && fault("fault_close", VFS_CLOSE)) { r = -1; VNode& v = fs()[h->path]; v.data.clear(); } delete h; vfs_open_handles--; return r; }
long vfs_avail(void* hh) { VHandle* h = (VHandle*)hh; VNode& v = fs()[h->path]; return h->pos < v.data.size() ? v.data.size() - h->pos : 0; }
int vfs_seek(void* hh, long p) { ((VHandle*)hh)->pos = p; return 0; }
long vfs_tell(void* hh) { return ((VHandle*)hh)->pos; }
int vfs_exists(const char* p) { std::string n = norm(p); if (n == "/" || n == ".") return 1; return fs().count(n) ? 1 : 0; }
int vfs_is_dir(const char* p) { std::string n = norm(p); if (n == "/" || n == "." || n == "/tmp") return 1; auto it = fs().find(n); return it != fs().end() && it->second.dir; }
int vfs_mkdirs(const char* p) { std::string n = norm(p); if (vfs_is_dir(n.c_str())) return 0; if (fault("fault_mkdir", VFS_MKDIR)) return -1; for (size_t i = 1; i <= n.size(); i++) if (i == n.size() || n[i] == '/') { std::string q = n.substr(0, i); auto it = fs().find(q); if (it != fs().end() && !it->second.dir) return -1; fs()[q].dir = true; } return 1; }
int vfs_remove(const char* p) { return fs().erase(norm(p)) ? 1 : 0; }
long vfs_size(const char* p) { auto it = fs().find(norm(p)); return it == fs().end() || it->second.dir ? -1 : (long)(it->second.data.size() + it->second.phantom); }
void vfs_put(const char* p, const char* d, size_t n) { std::string q = norm(p); auto k = q.rfind('/'); if (k != std::string::npos && k > 0) { int f = vfs_fault_mode; vfs_fault_mode = 0; vfs_mkdirs(q.substr(0, k).c_str()); vfs_fault_mode = f; } VNode& v = fs()[q]; v.dir = false; v.data.assign(d, n); }
int vfs_count(void) { int n = 0; for (auto& k : fs()) if (!k.second.dir) n++; return n; }
const char* vfs_name(int i) { for (auto& k : fs()) if (!k.second.dir && i-- == 0) return k.first.c_str(); return nullptr; }
const char* vfs_data(const char* p, size_t* n) { auto it = fs().find(norm(p)); if (it == fs().end() || it->second.dir) { *n = 0; return nullptr; } *n = it->second.data.size(); return it->second.data.data(); }
}
static struct { uint64_t v, neg; } g_tab[4096]; static unsigned g_ntab;
extern "C" unsigned dsym_tab_put(unsigned long v, unsigned long neg) { if (g_ntab >= 4096) abort(); g_tab[g_ntab].v = v; g_tab[g_ntab].neg = neg; return g_ntab++; }
extern "C" uint64_t dsym_tab_get(unsigned id, uint64_t* neg) { *neg = g_tab[id].neg; return g_tab[id].v; }
#ifndef DSYM_NATIVE
extern "C" void dsym_par(void (*a)(void), void (*b)(void)) { dsym_thread(1); a(); dsym_assert(dsym_held_locks() == 0, "no lock is kept after an entry point returns"); dsym_thread(2); b(); dsym_assert(dsym_held_locks() == 0, "no lock is kept after an entry point returns"); dsym_thread(0); }
#endif
// ---- environment ----
static const char* g_envn[64]; static const char* g_envv[64]; static int g_nenv;
extern "C" void dsym_setenv(const char* n, const char* v) { for (int i = 0; i < g_nenv; i++) if (!strcmp(g_envn[i], n)) { g_envv[i] = v; return; } if (g_nenv < 64) { g_envn[g_nenv] = n; g_envv[g_nenv++] = v; } }
extern "C" char* RTFN(getenv)(const char* n) { for (int i = 0; i < g_nenv; i++) if (!strcmp(g_envn[i], n)) return (char*)g_envv[i]; return nullptr; }
extern "C" char* RTFN(secure_getenv)(const char* n) { return RTFN(getenv)(n); }
extern "C" int RTFN(setenv)(const char* n, const char* v, int) { dsym_setenv(n, v); return 0; }
// ---- stdio ----
int stderr_lines = 0;
struct XFile { void* h; int std_; bool err; };
static XFile xout{nullptr, 1, false}, xerr{nullptr, 2, false};
#ifdef DSYM_NATIVE
static XFile* X(FILE* f) { return f == stderr ? &xerr : f == stdout ? &xout : (XFile*)f; }
#else
extern "C" { FILE* stdout = (FILE*)&xout; FILE* stderr = (FILE*)&xerr; FILE* stdin = nullptr; }
static XFile* X(FILE* f) { return (XFile*)f; }
#endif
static long xwrite(XFile* f, const char* p, size_t n) { if (f->std_) { stderr_lines++; return (long)n; } long r = vfs_write(f->h, p, n); if (r != (long)n) f->err = true; return r; }
extern "C" {
FILE* RTFN(fopen)(const char* p, const char* m) { void* h = vfs_open(p, m[0] != 'r' || strchr(m, '+'), m[0] == 'a', m[0] == 'w'); return h ? (FILE*)new XFile{h, 0, false} : nullptr; }
FILE* RTFN(fopen64)(const char* p, const char* m) { return RTFN(fopen)(p, m); }
int RTFN(fclose)(FILE* f) { XFile* x = X(f); if (x->std_) return 0; int r = vfs_close(x->h); if (x->err) r = -1; delete x; return r; }
int RTFN(fflush)(FILE*) { return 0; }
int RTFN(ferror)(FILE* f) { return X(f)->err; }
size_t RTFN(fwrite)(const void* p, size_t s, size_t n, FILE* f) { long r = xwrite(X(f), (const char*)p, s * n); return s ? r / s : 0; }
size_t RTFN(fread)(void* p, size_t s, size_t n, FILE* f) { XFile* x = X(f); return x->std_ ? 0 : vfs_read(x->h, (char*)p, s * n) / s; }
int RTFN(fputs)(const char* s, FILE* f) { xwrite(X(f), s, strlen(s)); return 1; }
int RTFN(fputc)(int c, FILE* f) { char b = (char)c; xwrite(X(f), &b, 1); return c; }
int RTFN(putc)(int c, FILE* f) { return RTFN(fputc)(c, f); }
int RTFN(puts)(const char*) { return 1; }

int RTFN(vfprintf)(FILE* f, const char* fm, va_list ap) { XFile* x = X(f); if (x->std_) { stderr_lines++; return 0; }
    if (!strcmp(fm, "%s")) { const char* s = va_arg(ap, const char*); size_t n = strlen(s); return (int)xwrite(x, s, n); }
    char* b = (char*)malloc(65536); int n = vsnprintf(b, 65536, fm, ap); xwrite(x, b, (size_t)n); free(b); return n; }
int RTFN(fprintf)(FILE* f, const char* fm, ...) { va_list ap; va_start(ap, fm); int r = RTFN(vfprintf)(f, fm, ap); va_end(ap); return r; }
int RTFN(printf)(const char*, ...) { return 0; }
void RTFN(perror)(const char*) { stderr_lines++; }
void* dsym_dlsym(const char* name) __attribute__((weak));
int dlopen_fail = 0;
void* RTFN(dlopen)(const char*, int) { return dlopen_fail ? nullptr : (void*)&dlopen_fail; }
void* RTFN(dlsym)(void*, const char* n) { return dsym_dlsym ? dsym_dlsym(n) : nullptr; }
char* RTFN(dlerror)(void) { return (char*)"dlerror"; }
int RTFN(dlclose)(void*) { return 0; }
}
namespace std { inline namespace __dsym {
struct __nullbuf : streambuf { protected: streamsize xsputn(const char*, streamsize n) override { return n; } int_type overflow(int_type c) override { return c; } };
alignas(16) static __nullbuf __nb;
ostream cout(&__nb), cerr(&__nb), clog(&__nb); istream cin(&__nb);
} }
