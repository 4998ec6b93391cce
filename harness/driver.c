/*
 * driver.c - interpreter for generated MPI programs (see ../DESIGN.md).
 *
 * stdin:  "P <nbytes>\n" + program text, any number of times
 * stdout: "R <wstatus> <reslen> <outlen> <errlen>\n" + the three byte strings
 *
 * Every program runs in a forked child.  Each op prints exactly one line of
 * results.  Only the public API is used: the C functions of mpi.h and README,
 * and the Fortran symbols (lower case, one underscore).
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <wchar.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#if defined(__SANITIZE_ADDRESS__)
extern size_t __sanitizer_get_current_allocated_bytes(void);
#define ALLOCATED() ((long)__sanitizer_get_current_allocated_bytes())
#define ASAN 1
#else
#define ALLOCATED() live_bytes
#define ASAN 0
#endif
#include "alloc.h"
#include "serve.h"
#include "mpi.h"

/* public functions that mpi.h did not declare at the pinned commit */
extern int MPI_Get_version(int *, int *) __attribute__((weak));
extern int MPI_Init_thread(int *, char ***, int, int *);
extern int MPI_Get_address(void *, MPI_Aint *);
extern int MPI_Address(void *, MPI_Aint *);
extern int MPI_Info_free(MPI_Info *);


/* Fortran symbols: everything is a pointer */
#define FDECL(n) extern int n##_();
FDECL(mpi_init) FDECL(mpi_init_thread) FDECL(mpi_finalize) FDECL(mpi_initialized)
FDECL(mpi_abort) FDECL(mpi_error_string) FDECL(mpi_get_processor_name)
FDECL(mpi_get_library_version) FDECL(mpi_get_version)
FDECL(mpi_send) FDECL(mpi_ssend) FDECL(mpi_rsend) FDECL(mpi_isend) FDECL(mpi_irsend)
FDECL(mpi_irecv) FDECL(mpi_recv) FDECL(mpi_sendrecv) FDECL(mpi_probe) FDECL(mpi_iprobe)
FDECL(mpi_wait) FDECL(mpi_test) FDECL(mpi_waitany) FDECL(mpi_testany)
FDECL(mpi_waitall) FDECL(mpi_testall) FDECL(mpi_waitsome) FDECL(mpi_testsome)
FDECL(mpi_request_free)
FDECL(mpi_get_count) FDECL(mpi_get_elements)
FDECL(mpi_type_contiguous) FDECL(mpi_type_vector) FDECL(mpi_type_hvector)
FDECL(mpi_type_create_hvector) FDECL(mpi_type_indexed)
FDECL(mpi_type_create_indexed_block) FDECL(mpi_type_hindexed) FDECL(mpi_type_struct)
FDECL(mpi_type_commit) FDECL(mpi_type_free) FDECL(mpi_type_size)
FDECL(mpi_type_extent) FDECL(mpi_type_lb) FDECL(mpi_type_ub)
FDECL(mpi_get_address) FDECL(mpi_address)
FDECL(mpi_pack) FDECL(mpi_unpack) FDECL(mpi_pack_size)
FDECL(mpi_barrier) FDECL(mpi_bcast) FDECL(mpi_gather) FDECL(mpi_gatherv)
FDECL(mpi_allgather) FDECL(mpi_allgatherv) FDECL(mpi_scatter) FDECL(mpi_scatterv)
FDECL(mpi_reduce) FDECL(mpi_allreduce) FDECL(mpi_scan) FDECL(mpi_reduce_scatter)
FDECL(mpi_alltoall) FDECL(mpi_alltoallv) FDECL(mpi_alltoallw)
FDECL(mpi_op_create) FDECL(mpi_op_free)
FDECL(mpi_comm_free) FDECL(mpi_comm_size) FDECL(mpi_comm_rank) FDECL(mpi_comm_dup)
FDECL(mpi_comm_create) FDECL(mpi_comm_split) FDECL(mpi_comm_group)
FDECL(mpi_intercomm_create)
FDECL(mpi_group_incl) FDECL(mpi_group_range_incl) FDECL(mpi_group_union)
FDECL(mpi_group_intersection) FDECL(mpi_group_difference) FDECL(mpi_group_free)
FDECL(mpi_group_translate_ranks)
FDECL(mpi_cart_create) FDECL(mpi_cart_get) FDECL(mpi_cart_coords) FDECL(mpi_dims_create)
FDECL(mpi_info_create) FDECL(mpi_info_set) FDECL(mpi_info_free)
extern double mpi_wtime_(void);
/* claimed bindings that a broken tree may lack: the check reports that itself */
#pragma weak MPI_Type_dup
FDECL(mpi_type_dup)
#pragma weak mpi_type_dup_
FDECL(mpi_intercomm_merge)
#pragma weak mpi_intercomm_merge_

extern void vh_sentinels_(void);
static int *f_sign, *f_sigs, *f_inpl;
static int f_snap[9];            /* their contents, which no call may change */
static void snap(int *s) { memcpy(s, f_sign, 16); memcpy(s+4, f_sigs, 16); memcpy(s+8, f_inpl, 4); }
void vh_save_(int *a, int *b, int *c) { f_sign = a; f_sigs = b; f_inpl = c; snap(f_snap); }

/* ------------------------------------------------------------------ */
/* exact-size temporaries, released after every op                     */

static void **arena; static int narena, caparena;
static void *tmp(size_t n)
{
  void *p = malloc(n);
  if (narena == caparena)
    arena = realloc(arena, (caparena = caparena ? 2*caparena : 4096) * sizeof *arena);
  arena[narena++] = p;
  memset(p, 0xA5, n);
  return p;
}
static void reset(void) { while (narena) free(arena[--narena]); }
static int *fi(int v) { int *p = tmp(sizeof(int)); *p = v; return p; }
static MPI_Aint *fl(MPI_Aint v) { MPI_Aint *p = tmp(sizeof *p); *p = v; return p; }

/* ------------------------------------------------------------------ */
/* program objects                                                     */

#define NT 8192
#define NR 131072
#define NC 8192
#define NG 4096
#define NB 8192
#define NS 131072
static int tslot[NT], rslot[NR], cslot[NC], gslot[NG], oslot[256];
static MPI_Status sslot[NS];
static struct { unsigned char *p; long size; int big; } bufs[NB];

static unsigned char pat(uint32_t i, uint32_t seed)
{
  uint32_t x = i * 2654435761u + seed * 0x9E3779B1u;
  x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13;
  return x & 0xff;
}
static void fillpat(unsigned char *p, long n, uint32_t seed)
{ for (long i = 0; i < n; i++) p[i] = pat((uint32_t)i, seed); }

static uint32_t crct[256];
static uint32_t crc(const unsigned char *p, long n)
{
  uint32_t c = ~0u;
  if (!crct[1])
    for (uint32_t i = 0; i < 256; i++) {
      uint32_t v = i;
      for (int k = 0; k < 8; k++) v = v & 1 ? 0xEDB88320u ^ (v >> 1) : v >> 1;
      crct[i] = v;
    }
  for (long i = 0; i < n; i++) c = crct[(c ^ p[i]) & 0xff] ^ (c >> 8);
  return ~c;
}

static int handle(char kind, int *slots, int lim)
{
  while (*cur == ' ') cur++;
  if (*cur == kind) return slots[slotno(kind, lim)];
  return num();
}
#define T() handle('t', tslot, NT)
#define C() handle('c', cslot, NC)
#define G() handle('g', gslot, NG)
static int ishandle(char kind) { while (*cur == ' ') cur++; return *cur == kind; }

/* b3:-8 | @null | @inplace */
static void *bufspec(char *s, int fort)
{
  if (!strcmp(s, "@null")) return NULL;
  if (!strcmp(s, "@inplace")) return fort ? (void *)f_inpl : MPI_IN_PLACE;
  if (s[0] == 'b') {
    char *e; int b = strtol(s+1, &e, 10); long off = 0;
    if (*e == ':') off = strtol(e+1, NULL, 0);
    if (b < 0 || b >= NB || !bufs[b].p) die("no buffer %d", b);
    return (void *)((uintptr_t)bufs[b].p + off);
  }
  die("bad buffer %s", s);
  return NULL;
}
/* a displacement: integer or @b3:16 (absolute address) */
static MPI_Aint aint(void)
{
  while (*cur == ' ') cur++;
  if (*cur == '@') {
    char *s = tok();
    MPI_Aint a;
    MPI_Get_address(bufspec(s+1, 0), &a);
    return a;
  }
  return num();
}
/* arrays: n values, or "R start step" */
static int *ints(long n)
{
  while (*cur == ' ') cur++;
  if (*cur == '~') { tok(); return NULL; }
  int *a = tmp(n * sizeof(int));
  if (*cur == 'R') {
    tok(); long s = num(), d = num();
    for (long i = 0; i < n; i++) a[i] = s + i*d;
  } else
    for (long i = 0; i < n; i++) a[i] = num();
  return a;
}
static MPI_Aint *aints(long n)
{
  MPI_Aint *a = tmp(n * sizeof(MPI_Aint));
  while (*cur == ' ') cur++;
  if (*cur == 'R') {
    tok(); long s = num(), d = num();
    for (long i = 0; i < n; i++) a[i] = s + i*d;
  } else
    for (long i = 0; i < n; i++) a[i] = aint();
  return a;
}
static int *thandles(long n)
{
  int *a = tmp(n * sizeof(int));
  while (*cur == ' ') cur++;
  if (*cur == '~') { tok(); return NULL; }
  if (*cur == 'R') { tok(); int h = T(); for (long i = 0; i < n; i++) a[i] = h; }
  else for (long i = 0; i < n; i++) a[i] = T();
  return a;
}

/* ------------------------------------------------------------------ */
/* stand-ins for the environment                                       */

static int host_mode = -1; static char host_name[4096]; static int host_called;
int gethostname(char *name, size_t len)
{
  host_called = 1;
  size_t l = strlen(host_name);
  if (host_mode == 1) { errno = EINVAL; return -1; }
  if (l < len) { memcpy(name, host_name, l + 1); return 0; }
  memcpy(name, host_name, len);          /* POSIX: truncated, unterminated */
  if (host_mode == 2) { errno = ENAMETOOLONG; return -1; }    /* glibc */
  return 0;
}
#if !ASAN
static int fake_clock, fake_used; static struct timeval fake_tv;
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
  if (fake_clock) { fake_used++; *tv = fake_tv; return 0; }
  struct timespec ts;
  extern int __clock_gettime(clockid_t, struct timespec *);
  __clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
  extern int __clock_gettime(clockid_t, struct timespec *);
  if (fake_clock && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) {
    fake_used++; ts->tv_sec = fake_tv.tv_sec; ts->tv_nsec = fake_tv.tv_usec * 1000;
    return 0;
  }
  return __clock_gettime(id, ts);
}
#endif

static long opcalls;
static void userop(void *a, void *b, int *l, MPI_Datatype *d) { opcalls++; }

#include "scale.h"

/* ------------------------------------------------------------------ */

static int is(const char *a, const char *b) { return !strcmp(a, b); }
static MPI_Status *newstat(long n) { return tmp(n * sizeof(MPI_Status)); }
/* status argument: "-" or s<slot> */
static int statarg(void)
{
  char *s = tok();
  if (s[0] == '-') return -1;
  if (s[0] != 's') die("status %s", s);
  return atoi(s+1);
}
static void putstat(int slot, MPI_Status *st, long n)
{
  if (slot < 0) return;
  for (long i = 0; i < n; i++) {
    sslot[slot+i] = st[i];
    out("%d %d ", st[i].MPI_SOURCE, st[i].MPI_TAG);
  }
}
#define FST(slot, st)  ((slot) < 0 ? (void *)f_sign : (void *)(st))
#define CST(slot, st)  ((slot) < 0 ? MPI_STATUS_IGNORE : (st))
#define FSTS(slot, st) ((slot) < 0 ? (void *)f_sigs : (void *)(st))
#define CSTS(slot, st) ((slot) < 0 ? MPI_STATUSES_IGNORE : (st))

static void hex(const unsigned char *p, long n)
{ for (long i = 0; i < n; i++) out("%02x", p[i]); out(" "); }

static void dumpbuf(int b)
{
  if (bufs[b].size <= 512) hex(bufs[b].p, bufs[b].size);
  else out("crc:%u ", crc(bufs[b].p, bufs[b].size));
}

static void runline(char *line);

static int op_p2p(char *op, int f)
{
  int *ie = fi(-99), *rq = fi(-98), rc;
  if (is(op,"send") || is(op,"ssend") || is(op,"rsend") || is(op,"isend") || is(op,"irsend")) {
    void *b = bufspec(tok(), f); int n = num(), t = T(), d = num(), tag = num(), c = C(), r = -1;
    if (op[0] == 'i') r = slotno('r', NR);
    if (f) {
      if (is(op,"send"))   mpi_send_(b, fi(n), fi(t), fi(d), fi(tag), fi(c), ie);
      if (is(op,"ssend"))  mpi_ssend_(b, fi(n), fi(t), fi(d), fi(tag), fi(c), ie);
      if (is(op,"rsend"))  mpi_rsend_(b, fi(n), fi(t), fi(d), fi(tag), fi(c), ie);
      if (is(op,"isend"))  mpi_isend_(b, fi(n), fi(t), fi(d), fi(tag), fi(c), rq, ie);
      if (is(op,"irsend")) mpi_irsend_(b, fi(n), fi(t), fi(d), fi(tag), fi(c), rq, ie);
      rc = *ie;
    } else {
      rc = -1;
      if (is(op,"send"))   rc = MPI_Send(b, n, t, d, tag, c);
      if (is(op,"ssend"))  rc = MPI_Ssend(b, n, t, d, tag, c);
      if (is(op,"rsend"))  rc = MPI_Rsend(b, n, t, d, tag, c);
      if (is(op,"isend"))  rc = MPI_Isend(b, n, t, d, tag, c, rq);
      if (is(op,"irsend")) rc = MPI_Irsend(b, n, t, d, tag, c, rq);
    }
    outl(rc);
    if (r >= 0) { rslot[r] = *rq; outl(*rq); }
    return 1;
  }
  if (is(op,"irecv") || is(op,"recv")) {
    void *b = bufspec(tok(), f); int n = num(), t = T(), s = num(), tag = num(), c = C();
    if (op[0] == 'i') {
      int r = slotno('r', NR);
      if (f) { mpi_irecv_(b, fi(n), fi(t), fi(s), fi(tag), fi(c), rq, ie); rc = *ie; }
      else rc = MPI_Irecv(b, n, t, s, tag, c, rq);
      outl(rc); rslot[r] = *rq; outl(*rq);
    } else {
      int st = statarg(); MPI_Status *ms = newstat(1);
      if (f) { mpi_recv_(b, fi(n), fi(t), fi(s), fi(tag), fi(c), FST(st,ms), ie); rc = *ie; }
      else rc = MPI_Recv(b, n, t, s, tag, c, CST(st,ms));
      outl(rc); putstat(st, ms, 1);
    }
    return 1;
  }
  if (is(op,"sendrecv")) {
    void *b = bufspec(tok(), f); int n = num(), t = T(), d = num(), tag = num();
    void *rb = bufspec(tok(), f); int rn = num(), rt = T(), s = num(), rtag = num();
    int c = C(), st = statarg(); MPI_Status *ms = newstat(1);
    if (f) {
      mpi_sendrecv_(b, fi(n), fi(t), fi(d), fi(tag), rb, fi(rn), fi(rt), fi(s), fi(rtag),
                    fi(c), FST(st,ms), ie);
      rc = *ie;
    } else
      rc = MPI_Sendrecv(b, n, t, d, tag, rb, rn, rt, s, rtag, c, CST(st,ms));
    outl(rc); putstat(st, ms, 1);
    return 1;
  }
  if (is(op,"probe") || is(op,"iprobe")) {
    int s = num(), tag = num(), c = C(), st = statarg(), *fg = fi(-97);
    MPI_Status *ms = newstat(1);
    if (op[0] == 'i') {
      if (f) { mpi_iprobe_(fi(s), fi(tag), fi(c), fg, FST(st,ms), ie); rc = *ie; }
      else rc = MPI_Iprobe(s, tag, c, fg, CST(st,ms));
      outl(rc); outl(*fg);
    } else {
      if (f) { mpi_probe_(fi(s), fi(tag), fi(c), FST(st,ms), ie); rc = *ie; }
      else rc = MPI_Probe(s, tag, c, CST(st,ms));
      outl(rc);
    }
    putstat(st, ms, 1);
    return 1;
  }
  return 0;
}

static int op_req(char *op, int f)
{
  int *ie = fi(-99), rc;
  if (is(op,"wait") || is(op,"test")) {
    int lit = !ishandle('r'), r = 0, *h, *fg = fi(-97);
    if (lit) h = fi(num()); else { r = slotno('r', NR); h = fi(rslot[r]); }
    int st = statarg(); MPI_Status *ms = newstat(1);
    if (op[0] == 'w') {
      if (f) { mpi_wait_(h, FST(st,ms), ie); rc = *ie; }
      else rc = MPI_Wait(h, CST(st,ms));
      outl(rc);
    } else {
      if (f) { mpi_test_(h, fg, FST(st,ms), ie); rc = *ie; }
      else rc = MPI_Test(h, fg, CST(st,ms));
      outl(rc); outl(*fg);
    }
    if (!lit) rslot[r] = *h;
    outl(*h); putstat(st, ms, 1);
    return 1;
  }
  if (is(op,"rfree")) {
    int r = slotno('r', NR), *h = fi(rslot[r]);
    if (f) { mpi_request_free_(h, ie); rc = *ie; }
    else rc = MPI_Request_free(h);
    rslot[r] = *h;
    outl(rc); outl(*h);
    return 1;
  }
  if (is(op,"waitany") || is(op,"testany") || is(op,"waitall") || is(op,"testall") ||
      is(op,"waitsome") || is(op,"testsome")) {
    int n = num(), *ids = malloc((n + 1) * sizeof(int)), *h = tmp(n * sizeof(int));
    int *idx = fi(-96), *fg = fi(-97), *inds = tmp(n * sizeof(int));
    for (int i = 0; i < n; i++)
      if (ishandle('r')) { ids[i] = slotno('r', NR); h[i] = rslot[ids[i]]; }
      else { ids[i] = -1; h[i] = num(); }
    int st = statarg();
    int ns = (op[4] == 'a' && op[5] == 'n') ? 1 : n;
    MPI_Status *ms = newstat(ns);
    if (is(op,"waitany")) {
      if (f) { mpi_waitany_(fi(n), h, idx, FST(st,ms), ie); rc = *ie; }
      else rc = MPI_Waitany(n, h, idx, CST(st,ms));
      outl(rc); outl(*idx);
    } else if (is(op,"testany")) {
      if (f) { mpi_testany_(fi(n), h, idx, fg, FST(st,ms), ie); rc = *ie; }
      else rc = MPI_Testany(n, h, idx, fg, CST(st,ms));
      outl(rc); outl(*fg); outl(*idx);
    } else if (is(op,"waitall")) {
      if (f) { mpi_waitall_(fi(n), h, FSTS(st,ms), ie); rc = *ie; }
      else rc = MPI_Waitall(n, h, CSTS(st,ms));
      outl(rc);
    } else if (is(op,"testall")) {
      if (f) { mpi_testall_(fi(n), h, fg, FSTS(st,ms), ie); rc = *ie; }
      else rc = MPI_Testall(n, h, fg, CSTS(st,ms));
      outl(rc); outl(*fg);
    } else {
      if (is(op,"waitsome")) {
        if (f) { mpi_waitsome_(fi(n), h, idx, inds, FSTS(st,ms), ie); rc = *ie; }
        else rc = MPI_Waitsome(n, h, idx, inds, CSTS(st,ms));
      } else {
        if (f) { mpi_testsome_(fi(n), h, idx, inds, FSTS(st,ms), ie); rc = *ie; }
        else rc = MPI_Testsome(n, h, idx, inds, CSTS(st,ms));
      }
      outl(rc); outl(*idx);
      for (int i = 0; i < n; i++) outl(inds[i]);
    }
    for (int i = 0; i < n; i++) { if (ids[i] >= 0) rslot[ids[i]] = h[i]; outl(h[i]); }
    putstat(st, ms, ns);
    free(ids);
    return 1;
  }
  if (is(op,"getcount") || is(op,"getelem")) {
    int st = statarg(), t = T(), *n = fi(-95);
    MPI_Status *ms = newstat(1); *ms = sslot[st];
    if (op[3] == 'c') {
      if (f) { mpi_get_count_(ms, fi(t), n, ie); rc = *ie; } else rc = MPI_Get_count(ms, t, n);
    } else {
      if (f) { mpi_get_elements_(ms, fi(t), n, ie); rc = *ie; } else rc = MPI_Get_elements(ms, t, n);
    }
    outl(rc); outl(*n);
    return 1;
  }
  return 0;
}

static int op_type(char *op, int f)
{
  int *ie = fi(-99), *nt = fi(-94), rc = -1;
  if (is(op,"contig")) {
    int n = num(), o = T(), s = slotno('t', NT);
    if (f) { mpi_type_contiguous_(fi(n), fi(o), nt, ie); rc = *ie; }
    else rc = MPI_Type_contiguous(n, o, nt);
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"vector")) {
    int n = num(), bl = num(), st = num(), o = T(), s = slotno('t', NT);
    if (f) { mpi_type_vector_(fi(n), fi(bl), fi(st), fi(o), nt, ie); rc = *ie; }
    else rc = MPI_Type_vector(n, bl, st, o, nt);
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"hvector") || is(op,"chvector")) {
    int n = num(), bl = num(); MPI_Aint st = aint(); int o = T(), s = slotno('t', NT);
    if (op[0] == 'h') {
      if (f) { mpi_type_hvector_(fi(n), fi(bl), fl(st), fi(o), nt, ie); rc = *ie; }
      else rc = MPI_Type_hvector(n, bl, st, o, nt);
    } else {
      if (f) { mpi_type_create_hvector_(fi(n), fi(bl), fl(st), fi(o), nt, ie); rc = *ie; }
      else rc = MPI_Type_create_hvector(n, bl, st, o, nt);
    }
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"indexed")) {
    int n = num(), *bl = ints(n), *d = ints(n), o = T(), s = slotno('t', NT);
    if (f) { mpi_type_indexed_(fi(n), bl, d, fi(o), nt, ie); rc = *ie; }
    else rc = MPI_Type_indexed(n, bl, d, o, nt);
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"iblock")) {
    int n = num(), bl = num(), *d = ints(n), o = T(), s = slotno('t', NT);
    if (f) { mpi_type_create_indexed_block_(fi(n), fi(bl), d, fi(o), nt, ie); rc = *ie; }
    else rc = MPI_Type_create_indexed_block(n, bl, d, o, nt);
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"hindexed")) {
    int n = num(), *bl = ints(n); MPI_Aint *d = aints(n); int o = T(), s = slotno('t', NT);
    if (f) { mpi_type_hindexed_(fi(n), bl, d, fi(o), nt, ie); rc = *ie; }
    else rc = MPI_Type_hindexed(n, bl, d, o, nt);
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"struct")) {
    int n = num(), *bl = ints(n); MPI_Aint *d = aints(n); int *o = thandles(n), s = slotno('t', NT);
    if (f) { mpi_type_struct_(fi(n), bl, d, o, nt, ie); rc = *ie; }
    else rc = MPI_Type_struct(n, bl, d, o, nt);
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"tdup")) {
    int o = T(), s = slotno('t', NT);
    if (f ? !mpi_type_dup_ : !MPI_Type_dup) { out("undefined-symbol mpi_type_dup "); return 1; }
    if (f) { mpi_type_dup_(fi(o), nt, ie); rc = *ie; }
    else rc = MPI_Type_dup(o, nt);
    tslot[s] = *nt; outl(rc); outl(*nt); return 1;
  }
  if (is(op,"commit") || is(op,"tfree")) {
    int lit = !ishandle('t'), s = 0, *h;
    if (lit) h = fi(num()); else { s = slotno('t', NT); h = fi(tslot[s]); }
    if (op[0] == 'c') { if (f) { mpi_type_commit_(h, ie); rc = *ie; } else rc = MPI_Type_commit(h); }
    else { if (f) { mpi_type_free_(h, ie); rc = *ie; } else rc = MPI_Type_free(h); }
    if (op[0] == 'c') { outl(rc); outl(lit ? 0 : *h == tslot[s] ? 0 : *h); }
    else { outl(rc); outl(*h); }
    if (!lit) tslot[s] = *h;
    return 1;
  }
  if (is(op,"geom")) {          /* size extent lb ub */
    int t = T(), *sz = fi(-93);
    MPI_Aint *e = fl(-92), *lb = fl(-91), *ub = fl(-90);
    if (f) {
      int bad = 0;
      mpi_type_size_(fi(t), sz, ie); bad |= *ie; *ie = -99;
      mpi_type_extent_(fi(t), e, ie); bad |= *ie; *ie = -99;
      mpi_type_lb_(fi(t), lb, ie); bad |= *ie; *ie = -99;
      mpi_type_ub_(fi(t), ub, ie); bad |= *ie;
      rc = bad;
    } else
      rc = MPI_Type_size(t, sz) | MPI_Type_extent(t, e) | MPI_Type_lb(t, lb) | MPI_Type_ub(t, ub);
    out("%d %d %ld %ld %ld ", rc, *sz, (long)*e, (long)*lb, (long)*ub);
    return 1;
  }
  if (is(op,"getaddr") || is(op,"address")) {
    void *p = bufspec(tok(), f); MPI_Aint *a = fl(-89);
    if (f) {
      if (op[0] == 'g') mpi_get_address_(p, a, ie); else mpi_address_(p, a, ie);
      rc = *ie;
    } else
      rc = op[0] == 'g' ? MPI_Get_address(p, a) : MPI_Address(p, a);
    out("%d %ld ", rc, (long)((uintptr_t)*a - (uintptr_t)p));
    return 1;
  }
  if (is(op,"pack")) {
    void *b = bufspec(tok(), f); int n = num(), t = T(); void *p = bufspec(tok(), f);
    int sz = num(), *pos = fi(num()), c = C();
    if (f) { mpi_pack_(b, fi(n), fi(t), p, fi(sz), pos, fi(c), ie); rc = *ie; }
    else rc = MPI_Pack(b, n, t, p, sz, pos, c);
    outl(rc); outl(*pos); return 1;
  }
  if (is(op,"unpack")) {
    void *p = bufspec(tok(), f); int sz = num(), *pos = fi(num());
    void *b = bufspec(tok(), f); int n = num(), t = T(), c = C();
    if (f) { mpi_unpack_(p, fi(sz), pos, b, fi(n), fi(t), fi(c), ie); rc = *ie; }
    else rc = MPI_Unpack(p, sz, pos, b, n, t, c);
    outl(rc); outl(*pos); return 1;
  }
  if (is(op,"packsize")) {
    int n = num(), t = T(), c = C();
    if (f) { int *sz = fi(-88); mpi_pack_size_(fi(n), fi(t), fi(c), sz, ie); outl(*ie); outl(*sz); }
    else { MPI_Aint *sz = fl(-88); rc = MPI_Pack_size(n, t, c, sz); outl(rc); outl((long)*sz); }
    return 1;
  }
  return 0;
}

static int op_coll(char *op, int f)
{
  int *ie = fi(-99), rc = -1;
  if (is(op,"barrier")) {
    int c = C();
    if (f) { mpi_barrier_(fi(c), ie); rc = *ie; } else rc = MPI_Barrier(c);
    outl(rc); return 1;
  }
  if (is(op,"bcast")) {
    void *b = bufspec(tok(), f); int n = num(), t = T(), r = num(), c = C();
    if (f) { mpi_bcast_(b, fi(n), fi(t), fi(r), fi(c), ie); rc = *ie; }
    else rc = MPI_Bcast(b, n, t, r, c);
    outl(rc); return 1;
  }
  if (is(op,"gather") || is(op,"scatter") || is(op,"allgather") || is(op,"alltoall")) {
    void *s = bufspec(tok(), f); int sn = num(), st = T();
    void *r = bufspec(tok(), f); int rn = num(), rt = T(), root = 0;
    if (is(op,"gather") || is(op,"scatter")) root = num();
    int c = C();
    if (f) {
      if (is(op,"gather")) mpi_gather_(s, fi(sn), fi(st), r, fi(rn), fi(rt), fi(root), fi(c), ie);
      if (is(op,"scatter")) mpi_scatter_(s, fi(sn), fi(st), r, fi(rn), fi(rt), fi(root), fi(c), ie);
      if (is(op,"allgather")) mpi_allgather_(s, fi(sn), fi(st), r, fi(rn), fi(rt), fi(c), ie);
      if (is(op,"alltoall")) mpi_alltoall_(s, fi(sn), fi(st), r, fi(rn), fi(rt), fi(c), ie);
      rc = *ie;
    } else {
      if (is(op,"gather")) rc = MPI_Gather(s, sn, st, r, rn, rt, root, c);
      if (is(op,"scatter")) rc = MPI_Scatter(s, sn, st, r, rn, rt, root, c);
      if (is(op,"allgather")) rc = MPI_Allgather(s, sn, st, r, rn, rt, c);
      if (is(op,"alltoall")) rc = MPI_Alltoall(s, sn, st, r, rn, rt, c);
    }
    outl(rc); return 1;
  }
  if (is(op,"gatherv") || is(op,"allgatherv")) {
    void *s = bufspec(tok(), f); int sn = num(), st = T();
    void *r = bufspec(tok(), f); int *rn = ints(1), *d = ints(1), rt = T(), root = 0;
    if (op[0] == 'g') root = num();
    int c = C();
    if (f) {
      if (op[0] == 'g') mpi_gatherv_(s, fi(sn), fi(st), r, rn, d, fi(rt), fi(root), fi(c), ie);
      else mpi_allgatherv_(s, fi(sn), fi(st), r, rn, d, fi(rt), fi(c), ie);
      rc = *ie;
    } else
      rc = op[0] == 'g' ? MPI_Gatherv(s, sn, st, r, rn, d, rt, root, c)
                        : MPI_Allgatherv(s, sn, st, r, rn, d, rt, c);
    outl(rc); return 1;
  }
  if (is(op,"scatterv")) {
    void *s = bufspec(tok(), f); int *sn = ints(1), *d = ints(1), st = T();
    void *r = bufspec(tok(), f); int rn = num(), rt = T(), root = num(), c = C();
    if (f) { mpi_scatterv_(s, sn, d, fi(st), r, fi(rn), fi(rt), fi(root), fi(c), ie); rc = *ie; }
    else rc = MPI_Scatterv(s, sn, d, st, r, rn, rt, root, c);
    outl(rc); return 1;
  }
  if (is(op,"alltoallv") || is(op,"alltoallw")) {
    void *s = bufspec(tok(), f); int *sn = ints(1), *sd = ints(1), *st = thandles(1);
    void *r = bufspec(tok(), f); int *rn = ints(1), *rd = ints(1), *rt = thandles(1);
    int c = C();
    if (f) {
      if (op[8] == 'v') mpi_alltoallv_(s, sn, sd, st, r, rn, rd, rt, fi(c), ie);
      else mpi_alltoallw_(s, sn, sd, st, r, rn, rd, rt, fi(c), ie);
      rc = *ie;
    } else
      rc = op[8] == 'v' ? MPI_Alltoallv(s, sn, sd, st ? *st : 0, r, rn, rd, *rt, c)
                        : MPI_Alltoallw(s, sn, sd, st, r, rn, rd, rt, c);
    outl(rc); return 1;
  }
  if (is(op,"reduce") || is(op,"allreduce") || is(op,"scan") || is(op,"redscat")) {
    void *s = bufspec(tok(), f), *r = bufspec(tok(), f); int n = num(), t = T();
    char *o = tok(); int mop = o[0] == 'o' ? oslot[atoi(o+1)] : atoi(o), root = 0;
    if (is(op,"reduce")) root = num();
    int c = C();
    int *an = fi(n);
    if (f) {
      if (is(op,"reduce")) mpi_reduce_(s, r, fi(n), fi(t), fi(mop), fi(root), fi(c), ie);
      if (is(op,"allreduce")) mpi_allreduce_(s, r, fi(n), fi(t), fi(mop), fi(c), ie);
      if (is(op,"scan")) mpi_scan_(s, r, fi(n), fi(t), fi(mop), fi(c), ie);
      if (is(op,"redscat")) mpi_reduce_scatter_(s, r, an, fi(t), fi(mop), fi(c), ie);
      rc = *ie;
    } else {
      if (is(op,"reduce")) rc = MPI_Reduce(s, r, n, t, mop, root, c);
      if (is(op,"allreduce")) rc = MPI_Allreduce(s, r, n, t, mop, c);
      if (is(op,"scan")) rc = MPI_Scan(s, r, n, t, mop, c);
      if (is(op,"redscat")) rc = MPI_Reduce_scatter(s, r, an, t, mop, c);
    }
    outl(rc); return 1;
  }
  if (is(op,"opcreate")) {
    int cm = num(); char *o = tok(); int *h = fi(-87);
    if (f) { mpi_op_create_(userop, fi(cm), h, ie); rc = *ie; }
    else rc = MPI_Op_create(userop, cm, h);
    oslot[atoi(o+1)] = *h; outl(rc); return 1;
  }
  if (is(op,"opfree")) {
    char *o = tok(); int *h = fi(oslot[atoi(o+1)]);
    if (f) { mpi_op_free_(h, ie); rc = *ie; } else rc = MPI_Op_free(h);
    oslot[atoi(o+1)] = *h; outl(rc); return 1;
  }
  if (is(op,"opcalls")) { outl(opcalls); return 1; }
  return 0;
}

static int op_comm(char *op, int f)
{
  int *ie = fi(-99), *h = fi(-86), rc = -1;
  if (is(op,"cdup") || is(op,"imerge")) {
    int c = C(), hi = 0;
    if (op[0] == 'i') hi = num();
    int s = slotno('c', NC);
    if (op[0] == 'c') { if (f) { mpi_comm_dup_(fi(c), h, ie); rc = *ie; } else rc = MPI_Comm_dup(c, h); }
    else if (f) {
      if (!mpi_intercomm_merge_) { out("undefined-symbol mpi_intercomm_merge "); return 1; }
      mpi_intercomm_merge_(fi(c), fi(hi), h, ie); rc = *ie;
    } else rc = MPI_Intercomm_merge(c, hi, h);
    cslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"ccreate")) {
    int c = C(), g = G(), s = slotno('c', NC);
    if (f) { mpi_comm_create_(fi(c), fi(g), h, ie); rc = *ie; } else rc = MPI_Comm_create(c, g, h);
    cslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"csplit")) {
    int c = C(), col = num(), key = num(), s = slotno('c', NC);
    if (f) { mpi_comm_split_(fi(c), fi(col), fi(key), h, ie); rc = *ie; }
    else rc = MPI_Comm_split(c, col, key, h);
    cslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"icreate")) {
    int a = C(), la = num(), b = C(), lb = num(), tag = num(), s = slotno('c', NC);
    if (f) { mpi_intercomm_create_(fi(a), fi(la), fi(b), fi(lb), fi(tag), h, ie); rc = *ie; }
    else rc = MPI_Intercomm_create(a, la, b, lb, tag, h);
    cslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"cfree")) {
    int s = slotno('c', NC); *h = cslot[s];
    if (f) { mpi_comm_free_(h, ie); rc = *ie; } else rc = MPI_Comm_free(h);
    cslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"cinfo")) {          /* size rank */
    int c = C(), *r = fi(-85), bad;
    if (f) { mpi_comm_size_(fi(c), h, ie); bad = *ie; *ie = -99; mpi_comm_rank_(fi(c), r, ie); rc = bad | *ie; }
    else rc = MPI_Comm_size(c, h) | MPI_Comm_rank(c, r);
    outl(rc); outl(*h); outl(*r); return 1;
  }
  if (is(op,"cgroup")) {
    int c = C(), s = slotno('g', NG);
    if (f) { mpi_comm_group_(fi(c), h, ie); rc = *ie; } else rc = MPI_Comm_group(c, h);
    gslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"cconv")) { int c = C(); outl(MPI_Comm_f2c(c) == c); outl(MPI_Comm_c2f(c) == c); return 1; }
  if (is(op,"rconv")) { int r = slotno('r', NR); outl(MPI_Request_f2c(rslot[r]) == rslot[r]); outl(MPI_Request_c2f(rslot[r]) == rslot[r]); return 1; }
  if (is(op,"gconv")) { int g = G(); outl(MPI_Group_f2c(g) == g); outl(MPI_Group_c2f(g) == g); return 1; }
  if (is(op,"oconv")) { int o = num(); outl(MPI_Op_f2c(o) == o); outl(MPI_Op_c2f(o) == o); return 1; }
  if (is(op,"gincl")) {
    int g = G(), n = num(), *r = ints(n), s = slotno('g', NG);
    if (f) { mpi_group_incl_(fi(g), fi(n), r, h, ie); rc = *ie; } else rc = MPI_Group_incl(g, n, r, h);
    gslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"grange")) {
    int g = G(), n = num(), *r = ints(3L*n), s = slotno('g', NG);
    if (f) { mpi_group_range_incl_(fi(g), fi(n), r, h, ie); rc = *ie; }
    else rc = MPI_Group_range_incl(g, n, (int (*)[3])r, h);
    gslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"gunion") || is(op,"ginter") || is(op,"gdiff")) {
    int a = G(), b = G(), s = slotno('g', NG);
    if (f) {
      if (is(op,"gunion")) mpi_group_union_(fi(a), fi(b), h, ie);
      if (is(op,"ginter")) mpi_group_intersection_(fi(a), fi(b), h, ie);
      if (is(op,"gdiff")) mpi_group_difference_(fi(a), fi(b), h, ie);
      rc = *ie;
    } else {
      if (is(op,"gunion")) rc = MPI_Group_union(a, b, h);
      if (is(op,"ginter")) rc = MPI_Group_intersection(a, b, h);
      if (is(op,"gdiff")) rc = MPI_Group_difference(a, b, h);
    }
    gslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"gfree")) {
    int s = slotno('g', NG); *h = gslot[s];
    if (f) { mpi_group_free_(h, ie); rc = *ie; } else rc = MPI_Group_free(h);
    gslot[s] = *h; outl(rc); outl(*h); return 1;
  }
  if (is(op,"gtrans")) {
    int a = G(), n = num(), *r = ints(n), b = G(), *o = tmp(n * sizeof(int));
    if (f) { mpi_group_translate_ranks_(fi(a), fi(n), r, fi(b), o, ie); rc = *ie; }
    else rc = MPI_Group_translate_ranks(a, n, r, b, o);
    outl(rc); for (int i = 0; i < n; i++) outl(o[i]); return 1;
  }
  if (is(op,"cartcreate")) {
    int c = C(), nd = num(), *d = ints(nd), *p = ints(nd), re = num(), s = slotno('c', NC);
    if (f) { mpi_cart_create_(fi(c), fi(nd), d, p, fi(re), h, ie); rc = *ie; }
    else rc = MPI_Cart_create(c, nd, d, p, re, h);
    cslot[s] = *h; outl(rc); outl(*h);
    for (int i = 0; i < nd; i++) { outl(d[i]); outl(p[i]); }
    return 1;
  }
  if (is(op,"cartget")) {       /* alloc entries, maxdims used */
    int c = C(), nd = num(), al = num(), *d = tmp(al*sizeof(int)), *p = tmp(al*sizeof(int)), *x = tmp(al*sizeof(int));
    for (int i = 0; i < al; i++) d[i] = p[i] = x[i] = -12345;
    if (f) { mpi_cart_get_(fi(c), fi(nd), d, p, x, ie); rc = *ie; }
    else rc = MPI_Cart_get(c, nd, d, p, x);
    if (!f) for (int i = 0; i < nd && i < al; i++) if (p[i] != -12345) p[i] = !!p[i];   /* a C truth value */
    outl(rc); for (int i = 0; i < al; i++) { outl(d[i]); outl(p[i]); outl(x[i]); } return 1;
  }
  if (is(op,"cartcoords")) {
    int c = C(), r = num(), nd = num(), al = num(), *x = tmp(al*sizeof(int));
    for (int i = 0; i < al; i++) x[i] = -12345;
    if (f) { mpi_cart_coords_(fi(c), fi(r), fi(nd), x, ie); rc = *ie; }
    else rc = MPI_Cart_coords(c, r, nd, x);
    outl(rc); for (int i = 0; i < al; i++) outl(x[i]); return 1;
  }
  if (is(op,"dims")) {          /* nnodes ndims alloc initial values */
    int nn = num(), nd = num(), al = num(), *d = ints(al);
    if (f) { mpi_dims_create_(fi(nn), fi(nd), d, ie); rc = *ie; }
    else rc = MPI_Dims_create(nn, nd, d);
    outl(rc); for (int i = 0; i < al; i++) outl(d[i]); return 1;
  }
  return 0;
}

static int op_env(char *op, int f)
{
  int *ie = fi(-99), *h = fi(-86), rc = -1;
  if (is(op,"initialized")) {
    if (f) { mpi_initialized_(h, ie); rc = *ie; } else rc = MPI_Initialized(h);
    outl(rc); outl(*h); return 1;
  }
  if (is(op,"init")) {
    if (f) { mpi_init_(ie); rc = *ie; } else rc = MPI_Init(NULL, NULL);
    outl(rc); return 1;
  }
  if (is(op,"initargs")) {
    char *av[] = {"prog", "arg", NULL}, **pav = av; int ac = 2;
    rc = MPI_Init(&ac, &pav);
    outl(rc); outl(ac == 2 && pav == av && !strcmp(av[0], "prog") && !strcmp(av[1], "arg")); return 1;
  }
  if (is(op,"initthread")) {
    int lv = num();
    if (f) { mpi_init_thread_(fi(lv), h, ie); rc = *ie; } else rc = MPI_Init_thread(NULL, NULL, lv, h);
    outl(rc); outl(*h); return 1;
  }
  if (is(op,"finalize")) {
    if (f) { mpi_finalize_(ie); rc = *ie; } else rc = MPI_Finalize();
    outl(rc); return 1;
  }
  if (is(op,"abort")) {
    int c = C(), e = num();
    if (f) mpi_abort_(fi(c), fi(e), ie); else MPI_Abort(c, e);
    out("returned "); return 1;
  }
  if (is(op,"errstr")) {
    int e = num(); char *s = tmp(MPI_MAX_ERROR_STRING);
    if (f) { mpi_error_string_(fi(e), s, h, ie, (size_t)MPI_MAX_ERROR_STRING); rc = *ie; }
    else rc = MPI_Error_string(e, s, h);
    outl(rc); outl(*h); hex((unsigned char *)s, MPI_MAX_ERROR_STRING); return 1;
  }
  if (is(op,"version")) {
    int a[2] = {-5,-5};
    if (f) { mpi_get_version_(a, a+1, ie); rc = *ie; }
    else rc = MPI_Get_version ? MPI_Get_version(a, a+1) : -1;
    outl(rc); outl(a[0]); outl(a[1]); return 1;
  }
  if (is(op,"verstr")) {
    char *s = tmp(MPI_MAX_LIBRARY_VERSION_STRING);
    if (f) { mpi_get_library_version_(s, h, ie, (size_t)MPI_MAX_LIBRARY_VERSION_STRING); rc = *ie; }
    else rc = MPI_Get_library_version(s, h);
    outl(rc); outl(*h); hex((unsigned char *)s, MPI_MAX_LIBRARY_VERSION_STRING); return 1;
  }
  if (is(op,"pname")) {         /* mode: 0 POSIX, 1 fails, 2 glibc; name length; seed */
    host_mode = num(); int l = num(), sd = num(); host_called = 0;
    for (int i = 0; i < l; i++) host_name[i] = "abcdefghijklmnopqrstuvwxyz0123456789-."[pat(i, sd) % 38];
    host_name[l] = 0;
    char *s = tmp(MPI_MAX_PROCESSOR_NAME);
    if (f) { mpi_get_processor_name_(s, h, ie, (size_t)MPI_MAX_PROCESSOR_NAME); rc = *ie; }
    else rc = MPI_Get_processor_name(s, h);
    outl(rc); outl(*h); outl(host_called); hex((unsigned char *)host_name, l); out("| ");
    hex((unsigned char *)s, MPI_MAX_PROCESSOR_NAME); return 1;
  }
  if (is(op,"maxima")) {
    out("%d %d %d ", MPI_MAX_PROCESSOR_NAME, MPI_MAX_LIBRARY_VERSION_STRING, MPI_MAX_ERROR_STRING);
    return 1;
  }
#if !ASAN
  if (is(op,"wtime")) {         /* fake clock: difference of two readings minus the truth */
    long s1 = num(), u1 = num(), s2 = num(), u2 = num(); int f2 = num(); double a, b;
    fake_clock = 1; fake_used = 0;
    fake_tv.tv_sec = s1; fake_tv.tv_usec = u1; a = f ? mpi_wtime_() : MPI_Wtime();
    fake_tv.tv_sec = s2; fake_tv.tv_usec = u2; b = f2 ? mpi_wtime_() : MPI_Wtime();
    fake_clock = 0;
    out("%.9f %.9f %d ", b - a, (double)(s2 - s1) + (u2 - u1) / 1e6, fake_used); return 1;
  }
#endif
  if (is(op,"wtimereal")) {     /* real clock: brackets */
    struct timespec t0, t1, t2, t3; double a, b; long us = num();
    clock_gettime(CLOCK_REALTIME, &t0);
    a = f ? mpi_wtime_() : MPI_Wtime();
    clock_gettime(CLOCK_REALTIME, &t1);
    usleep(us);
    clock_gettime(CLOCK_REALTIME, &t2);
    b = f ? mpi_wtime_() : MPI_Wtime();
    clock_gettime(CLOCK_REALTIME, &t3);
#define D(x, y) ((double)((y).tv_sec - (x).tv_sec) + ((y).tv_nsec - (x).tv_nsec) / 1e9)
    out("%.9f %.9f %.9f ", b - a, D(t1, t2), D(t0, t3)); return 1;
  }
  if (is(op,"info")) {          /* create, set, free */
    char *k = tok(), *v = tok(); *h = -5;
    if (f) {
      mpi_info_create_(h, ie); rc = *ie; *ie = -99;
      mpi_info_set_(h, k, v, ie, strlen(k), strlen(v)); rc |= *ie; *ie = -99;
      mpi_info_free_(h, ie); rc |= *ie;
    } else
      rc = MPI_Info_create(h) | MPI_Info_set(*h, k, v) | MPI_Info_free(h);
    outl(rc); outl(*h); return 1;
  }
  if (is(op,"errh")) {
    int c = C(), e = num();
    outl(MPI_Errhandler_set(c, e ? MPI_ERRORS_RETURN : MPI_ERRORS_ARE_FATAL)); return 1;
  }
  if (is(op,"csizes")) {        /* the C compiler's word on the predefined types */
    struct { float a; int b; } fi_; struct { double a; int b; } di; struct { long a; int b; } li;
    struct { short a; int b; } si; struct { long double a; int b; } ldi;
    out("%zu %zu %zu %zu %zu %zu %zu %zu %zu %zu ", sizeof(char), sizeof(short), sizeof(int), sizeof(long),
        sizeof(float), sizeof(double), sizeof(long double), sizeof(long long), sizeof(wchar_t), sizeof(MPI_Offset));
    out("%zu %zu %zu %zu %zu ", sizeof fi_, sizeof di, sizeof li, sizeof si, sizeof ldi);
    return 1;
  }
  return 0;
}

static int op_mem(char *op)
{
  if (is(op,"buf")) {
    int b = slotno('b', NB); long n = num(); int sd = num();
    if (bufs[b].p) { if (bufs[b].big) munmap(bufs[b].p, bufs[b].size); else free(bufs[b].p); }
    bufs[b].p = malloc(n); bufs[b].size = n; bufs[b].big = 0;
    fillpat(bufs[b].p, n, sd); return 1;
  }
  if (is(op,"unbuf")) {
    int b = slotno('b', NB);
    if (bufs[b].big) munmap(bufs[b].p, bufs[b].size); else free(bufs[b].p);
    bufs[b].p = NULL; return 1;
  }
  if (is(op,"big")) {
    int b = slotno('b', NB); long n = num();
    void *p = mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) die("mmap %ld: %s", n, strerror(errno));
    madvise(p, n, MADV_NOHUGEPAGE);
    bufs[b].p = p; bufs[b].size = n; bufs[b].big = 1; return 1;
  }
  if (is(op,"fill")) {          /* b off len seed */
    int b = slotno('b', NB); long o = num(), n = num(); int sd = num();
    fillpat(bufs[b].p + o, n, sd); return 1;
  }
  if (is(op,"dump")) { dumpbuf(slotno('b', NB)); return 1; }
  if (is(op,"dumpw")) {         /* window */
    int b = slotno('b', NB); long o = num(), n = num();
    hex(bufs[b].p + o, n); return 1;
  }
  if (is(op,"stray")) {         /* b n (off len)*: first nonzero byte outside the windows, or -1 */
    int b = slotno('b', NB), n = num(); long sz = bufs[b].size, np = (sz + 4095) / 4096, bad = -1;
    long *w = malloc((2*n + 1) * sizeof(long));
    for (int i = 0; i < 2*n; i++) w[i] = num();
    unsigned char *v = mmap(NULL, np, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (mincore(bufs[b].p, sz, v)) die("mincore");
    for (long pg = 0; pg < np && bad < 0; pg++)
      if (v[pg] & 1)
        for (long i = pg*4096; i < (pg+1)*4096 && i < sz; i++)
          if (bufs[b].p[i]) {
            int in = 0;
            for (int k = 0; k < n; k++) if (i >= w[2*k] && i < w[2*k] + w[2*k+1]) in = 1;
            if (!in) { bad = i; break; }
          }
    munmap(v, np); free(w);
    outl(bad); return 1;
  }
  if (is(op,"cpu")) { struct rlimit rl = { num(), 290 }; setrlimit(RLIMIT_CPU, &rl); return 1; }
  if (is(op,"oom")) { oom_at = num(); oom_on = num(); return 1; }
  if (is(op,"mem")) { outl(ALLOCATED()); return 1; }
  return 0;
}

/* "rep n1 n2 ..": run the lines up to "endrep" n1 times (first one visibly),
   then n2 more times, ...; prints the allocated bytes after each batch */

static int op_rep(char *op)
{
  if (!is(op,"rep")) return 0;
  int k[8], nk = 0, start = pc, end = pc, wasq = quiet;
  long mem[8];
  while (more()) k[nk++] = num();
  while (!is(lines[end], "endrep")) end++;
  out("\n");
  for (int b = 0; b < nk; b++) {
    for (int i = 0; i < k[b]; i++) {
      quiet = wasq || b || i;
      for (pc = start; pc < end; ) {
        char *cp = strdup(lines[pc++]);
        runline(cp);
        free(cp);
      }
    }
    mem[b] = ALLOCATED();
  }
  quiet = wasq;
  pc = end + 1;
  for (int b = 0; b < nk; b++) outl(mem[b]);
  return 1;
}

static void runline(char *line)
{
  cur = line;
  char *op = tok();
  if (op[0] == '#') return;
  if (op_mem(op) || op_rep(op) || op_scale(op) || op_queue(op) || op_capacity(op) || op_marathon(op)) { out("\n"); reset(); return; }
  char *l = tok();
  int f = l[0] == 'f';
  if (!(op_p2p(op, f) || op_req(op, f) || op_type(op, f) || op_coll(op, f) ||
        op_comm(op, f) || op_env(op, f)))
    die("unknown op %s", op);
  if (more()) die("extra tokens after %s: %s", op, cur);
  if (f) {
    int now[9]; snap(now);
    if (memcmp(now, f_snap, sizeof now)) {
      out("sentinel-overwritten"); memcpy(f_snap, now, sizeof now);
    }
  }
  out("\n");
  reset();
}

static void start(void) { vh_sentinels_(); }
