/* An allocator whose placement of blocks is chosen by LAYOUT: direction of addresses, reuse of freed blocks, stride and fill are parts of the state explored. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/mman.h>
#include <pthread.h>

#define SPACE (3ull << 29)
static char *lo, *hi;
static int ready, down, reuse, alternate, turn; static unsigned stride; static int fill;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
typedef struct head { size_t size; struct head *next; } head;      /* 16 bytes before each block */
static head *lists[256];

static void init(void) {
    const char *s = getenv("LAYOUT");                               /* e.g. "dr16:170": d=down u=up a=alternate; r=reuse n=no reuse; stride; fill */
    if (!s) s = "ur0:0";
    down = s[0] == 'd'; alternate = s[0] == 'a'; reuse = s[1] == 'r';
    char *e; stride = strtoul(s + 2, &e, 10); fill = *e == ':' ? atoi(e + 1) : 0;
    lo = mmap((void *)0x200000000000ull, SPACE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (lo == MAP_FAILED) abort();
    hi = lo + SPACE; ready = 1;
}
static int cls(size_t n) { return n <= 2048 ? (int)(n / 16) : 128 + (63 - __builtin_clzll(n)); }
static void *get(size_t n, size_t al) {
    if (n < 16) n = 16;
    n = (n + 15) & ~(size_t)15;
    if (n > 2048) { size_t p = 4096; while (p < n) p <<= 1; n = p; }
    pthread_mutex_lock(&mu);
    if (!ready) init();
    head *h = 0;
    if (reuse && al <= 16 && lists[cls(n)]) { h = lists[cls(n)]; lists[cls(n)] = h->next; }
    else {
        size_t pad = stride; int d = alternate ? (turn ^= 1) : down;
        if (d) { hi -= pad; hi = (char *)(((uintptr_t)hi - n) & ~(uintptr_t)(al - 1)); h = (head *)(hi - 16); hi -= 16; }
        else { char *b = (char *)(((uintptr_t)lo + 16 + pad + al - 1) & ~(uintptr_t)(al - 1)); h = (head *)(b - 16); lo = b + n; }
        if (lo >= hi) abort();
        h->size = n;
    }
    pthread_mutex_unlock(&mu);
    return h + 1;
}
void *malloc(size_t n) { void *p = get(n, 16); if (fill) memset(p, fill, ((head *)p - 1)->size < (1 << 16) ? ((head *)p - 1)->size : 1 << 16); return p; }
void free(void *p) { if (!p) return; head *h = (head *)p - 1; if (fill) memset(p, ~fill, h->size < (1 << 16) ? h->size : 1 << 16); if (!reuse) return; pthread_mutex_lock(&mu); h->next = lists[cls(h->size)]; lists[cls(h->size)] = h; pthread_mutex_unlock(&mu); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void *p = get(n, 16); memset(p, 0, n); return p; }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); head *h = (head *)p - 1; if (h->size >= n) return p; void *q = malloc(n); memcpy(q, p, h->size); free(p); return q; }
void *memalign(size_t al, size_t n) { return get(n, al < 16 ? 16 : al); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { *o = memalign(al, n); return 0; }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~(size_t)4095); }
size_t malloc_usable_size(void *p) { return p ? ((head *)p - 1)->size : 0; }
