// In-memory file system with optional nondeterministic faults; implemented in rt/vfs.cpp.
#pragma once
#include <stddef.h>
extern "C" {
void* vfs_open(const char* path, int write, int append, int trunc_); // null on failure
long vfs_write(void* h, const char* p, size_t n);                    // bytes accepted (n unless a fault)
long vfs_read(void* h, char* p, size_t n);                           // bytes read
int vfs_close(void* h);                                              // 0 ok, -1 delayed write error
long vfs_avail(void* h); int vfs_seek(void* h, long pos); long vfs_tell(void* h);
int vfs_exists(const char* path); int vfs_is_dir(const char* path); int vfs_mkdirs(const char* path); // mkdirs: 0 ok, 1 created, -1 error
int vfs_remove(const char* path); long vfs_size(const char* path);
}
