/* Counts the blocks and bytes the process holds on the heap. */
#define _GNU_SOURCE
#include <errno.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stddef.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static atomic_long blocks, bytes;
#define API __attribute__((visibility("default")))
static void *in(void *p) { if (p) { blocks++; bytes += (long)malloc_usable_size(p); } return p; }
static void out(void *p) { if (p) { blocks--; bytes -= (long)malloc_usable_size(p); } }
API void *malloc(size_t n) { return in(__libc_malloc(n)); }
API void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
API void free(void *p) { out(p); __libc_free(p); }
API void *realloc(void *p, size_t n) {
    long old = p ? (long)malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || !n) { if (p) { blocks--; bytes -= old; } in(q); }
    return q;
}
API void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
API void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
API int posix_memalign(void **p, size_t a, size_t n) { void *q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
API void mem_live(long *r) { r[0] = blocks; r[1] = bytes; }
