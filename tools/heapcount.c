/* LD_PRELOAD: counts the bytes and blocks a process holds from malloc, in the file VERIF_HEAP_FILE (shared mapping). */
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

struct counts { long bytes, blocks, calls; };
static struct counts own, *at = &own;

__attribute__((constructor)) static void start(void) {
    const char *f = getenv("VERIF_HEAP_FILE");
    if (!f) return;
    int fd = open(f, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) return;
    *(struct counts *)m = own;
    at = m;
}

static void add(void *p, int sign) {
    if (!p) return;
    __atomic_fetch_add(&at->bytes, sign * (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    __atomic_fetch_add(&at->blocks, sign, __ATOMIC_RELAXED);
    __atomic_fetch_add(&at->calls, 1, __ATOMIC_RELAXED);
}

void *malloc(size_t n) { void *p = __libc_malloc(n); add(p, 1); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); add(p, 1); return p; }
void free(void *p) { add(p, -1); __libc_free(p); }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    long was = malloc_usable_size(p);
    void *q = __libc_realloc(p, n);
    if (q) __atomic_fetch_add(&at->bytes, (long)malloc_usable_size(q) - was, __ATOMIC_RELAXED);
    else if (n == 0) { __atomic_fetch_add(&at->bytes, -was, __ATOMIC_RELAXED); __atomic_fetch_add(&at->blocks, -1, __ATOMIC_RELAXED); }
    return q;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); add(p, 1); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
    void *p = memalign(a, n);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
