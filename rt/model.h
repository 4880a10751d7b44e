#pragma once
#include <stddef.h>
#ifdef DSYM_NATIVE
#define RTFN(n) __wrap_##n
#else
#define RTFN(n) n
#endif
enum { VFS_OPEN_W = 1, VFS_WRITE = 2, VFS_CLOSE = 4, VFS_MKDIR = 8, VFS_OPEN_R = 16 };
extern int vfs_fault_mode, vfs_faults_injected, vfs_open_handles, vfs_writes, stderr_lines;
extern "C" {
extern int dlopen_fail;
void vfs_put(const char* path, const char* data, size_t n);
int vfs_count(void); const char* vfs_name(int i); const char* vfs_data(const char* path, size_t* n);
void dsym_mark_atexit(void);
void dsym_par(void (*a)(void), void (*b)(void)); // two threads; symbolically a lockset race check

unsigned dsym_tab_put(unsigned long v, unsigned long neg); uint64_t dsym_tab_get(unsigned id, uint64_t* neg); // numbers printed symbolically
extern unsigned long vfs_phantom_limit;
}
