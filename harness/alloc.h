/* alloc.h - the library's memory (linked with --wrap; the driver itself uses the real functions):
 * an exact account of what is in use - each block carries its requested size, so that the figure is
 * independent of the allocator's rounding, splitting and caching - and failures on demand. */
#include <stddef.h>
#include <errno.h>
extern void *__real_malloc(size_t);
extern void __real_free(void *);
extern void *__real_realloc(void *, size_t);
extern void *__real_calloc(size_t, size_t);

static long oom_at;             /* the oom_at-th allocation from now fails (0: none) */
static int oom_on;              /* and all later ones */
static int oom(void)
{
  if (oom_at && --oom_at == 0) {
    if (oom_on) oom_at = 1;
    errno = ENOMEM;
    return 1;
  }
  return 0;
}

#if ASAN
void *__wrap_malloc(size_t n) { return oom() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return oom() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return n && oom() ? NULL : __real_realloc(p, n); }
void __wrap_free(void *p) { __real_free(p); }
#else
static long live_bytes;
#define A_MAGIC 0x6d70692d73657269UL
typedef struct { size_t n; unsigned long magic; } a_head;

void *__wrap_malloc(size_t n)
{
  a_head *h;
  if (oom() || n > (size_t)-1 / 2 || !(h = __real_malloc(n + sizeof *h))) return NULL;
  h->n = n;
  h->magic = A_MAGIC ^ (unsigned long) h;
  live_bytes += (long) n;
  return h + 1;
}

void *__wrap_calloc(size_t a, size_t b)
{
  void *p;
  if (b && a > (size_t)-1 / 2 / b) return NULL;
  p = __wrap_malloc(a * b);
  return p ? memset(p, 0, a * b) : NULL;
}

static int a_mine(a_head *h) { return h->magic == (A_MAGIC ^ (unsigned long) h); }

void __wrap_free(void *p)
{
  a_head *h = (a_head *) p - 1;
  if (!p) return;
  if (!a_mine(h)) { __real_free(p); return; }      /* from within libc */
  h->magic = 0;
  live_bytes -= (long) h->n;
  __real_free(h);
}

void *__wrap_realloc(void *p, size_t n)
{
  a_head *h = (a_head *) p - 1;
  void *q;
  if (!p) return __wrap_malloc(n);
  if (!a_mine(h)) return __real_realloc(p, n);
  if (!n) { __wrap_free(p); return NULL; }
  if (!(q = __wrap_malloc(n))) return NULL;
  memcpy(q, p, n < h->n ? n : h->n);
  __wrap_free(p);
  return q;
}
#endif

#define malloc(n) __real_malloc(n)
#define calloc(a, b) __real_calloc(a, b)
#define realloc(p, n) __real_realloc(p, n)
#define free(p) __real_free(p)
