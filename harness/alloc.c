/* Interposed allocator: counts live blocks, and fails the k-th allocation when armed. */
#include <stddef.h>
#include <errno.h>
#include <malloc.h>
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void *__libc_memalign(size_t, size_t); extern void __libc_free(void *);
static volatile long armed, at, sticky, cnt, failed, live, bytes;
void fz_alloc_arm(long k, int s) { at = k; sticky = s; cnt = 0; failed = 0; armed = 1; }
long fz_alloc_disarm(void) { armed = 0; return cnt; }
long fz_alloc_failed(void) { return failed; }
long fz_alloc_live(void) { return live; }
long fz_alloc_bytes(void) { return bytes; }
static int deny(void) { if (!armed) return 0; ++cnt; if (at && (cnt == at || (sticky && cnt > at))) { ++failed; errno = ENOMEM; return 1; } return 0; }
static void *got(void *p) { if (p) { ++live; bytes += malloc_usable_size(p); } return p; }
void *malloc(size_t n) { return deny() ? NULL : got(__libc_malloc(n)); }
void *calloc(size_t m, size_t n) { return deny() ? NULL : got(__libc_calloc(m, n)); }
void *realloc(void *p, size_t n) {
  size_t o; void *r; if (deny()) return NULL; if (!p) return got(__libc_malloc(n));
  o = malloc_usable_size(p); r = __libc_realloc(p, n); if (r) { bytes += malloc_usable_size(r) - o; } else if (!n) { --live; bytes -= o; } return r; }
void *memalign(size_t a, size_t n) { return deny() ? NULL : got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { void *r = memalign(a, n); if (!r) return ENOMEM; *p = r; return 0; }
void free(void *p) { if (!p) return; --live; bytes -= malloc_usable_size(p); __libc_free(p); }
