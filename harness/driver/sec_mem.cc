// Only in the "mem" build: what the process holds on to.
#include "core.h"
#include <dirent.h>
#include <cerrno>
#include <cstdlib>

extern "C" {
void* __libc_malloc (size_t);
void* __libc_calloc (size_t, size_t);
void* __libc_realloc (void*, size_t);
void* __libc_memalign (size_t, size_t);
void  __libc_free (void*);

static long gBlocks;

void* malloc (size_t n) { void* p = __libc_malloc (n); gBlocks += p != nullptr; return p; }
void* calloc (size_t n, size_t m) { void* p = __libc_calloc (n, m); gBlocks += p != nullptr; return p; }
void* realloc (void* q, size_t n)
{
    void* p = __libc_realloc (q, n);
    if (!q) gBlocks += p != nullptr;
    else if (!p && n == 0) --gBlocks;
    return p;
}
void* memalign (size_t a, size_t n) { void* p = __libc_memalign (a, n); gBlocks += p != nullptr; return p; }
void* aligned_alloc (size_t a, size_t n) { return memalign (a, n); }
int posix_memalign (void** r, size_t a, size_t n) { *r = memalign (a, n); return *r ? 0 : ENOMEM; }
void  free (void* p) { gBlocks -= p != nullptr; __libc_free (p); }
}

// held : blocks of memory allocated and not freed, open files
static Reg r1 ("held", [] (const Args&) {
    long b = gBlocks, f = 0;
    if (DIR* d = opendir ("/proc/self/fd")) {
        while (readdir (d)) ++f;
        closedir (d);
    }
    return "H " + std::to_string (b) + " " + std::to_string (f);
});
