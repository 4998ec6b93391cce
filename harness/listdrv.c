/*
 * listdrv.c - interpreter for generated histories of lists (list.h), see serve.h.
 * Lists are l0.., items i0..; items print as the value they hold, or "-".
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include "serve.h"
#include "listops.h"

#define NL 1000
#define NI 20000
static pList ls[NL];
static pListitem is_[NI];
static void start(void) { }
static int slot(char kind, int lim)
{
  char *s = tok();
  int v = atoi(s + 1);
  if (s[0] != kind || v < 0 || v >= lim) die("slot %s", s);
  return v;
}
#define L() (ls[slot('l', NL)])
#define V() ((void *)(intptr_t)num())
static void item(pListitem i) { if (i) outl((long)(intptr_t)AP_listitem_data(i)); else out("- "); }

static long calls[200000]; static int ncalls;
static int first(void *d, void *f)
{ if (ncalls < 200000) calls[ncalls++] = (long)(intptr_t)d; return d == f ? 7 : 0; }
static int addup(void *d, void *f)
{ if (ncalls < 200000) calls[ncalls++] = (long)(intptr_t)d; return (int)((intptr_t)d * (intptr_t)f); }
static void called(void) { outl(ncalls); for (int i = 0; i < ncalls; i++) outl(calls[i]); ncalls = 0; }

/* what f prints */
static void printed(void (*f)(char *, pList), char *s, pList l, int fd)
{
  fflush(NULL);
  int old = dup(fd), m = memfd_create("p", 0);
  static char buf[1 << 20];
  dup2(m, fd); f(s, l); fflush(NULL); dup2(old, fd); close(old);
  long n = pread(m, buf, sizeof buf - 1, 0);
  close(m);
  for (long i = 0; i < n; i++) if (buf[i] == '\n') buf[i] = '/';
  while (n > 0 && buf[n-1] == ' ') n--;
  buf[n < 0 ? 0 : n] = 0;
  out("%s ", buf);
}
static int verified;
static void verify(char *s, pList l) { verified = AP_listitem_verify(); }

static void runline(char *line)
{
  cur = line;
  char *op = tok();
#define is(x) (!strcmp(op, x))
  if (is("new")) ls[slot('l', NL)] = AP_list_new();
  else if (is("free")) { int l = slot('l', NL); AP_list_free(ls[l]); ls[l] = NULL; }
  else if (is("size")) outl(AP_list_size(L()));
  else if (is("prepend")) { pList l = L(); int i = slot('i', NI); item(is_[i] = AP_list_prepend(l, V())); }
  else if (is("append")) { pList l = L(); int i = slot('i', NI); item(is_[i] = AP_list_append(l, V())); }
  else if (is("fill")) {          /* n values from v on, every k-th in front */
    pList l = L(); long n = num(), v = num(), k = num(), bad = 0;
    for (long i = 0; i < n; i++) {
      void *d = (void *)(intptr_t)(v + i);
      pListitem x = k && i % k == 0 ? AP_list_prepend(l, d) : AP_list_append(l, d);
      if (!x || AP_listitem_data(x) != d) bad++;
    }
    outl(bad);
  }
  else if (is("sum")) {           /* a digest of the walk */
    pList l = L(); void *d = NULL, *t = NULL; unsigned long h = 0; long n = 0;
    while (AP_list_next(l, &d, &t) && n < 10000000) { n++; h = (h * 31 + (unsigned long)(intptr_t)d) & 0xffffffffffffUL; }
    outl(n); outl((long)h);
  }
  else if (is("delete")) { pList l = L(); outl(!!AP_list_delete(l, V())); }
  else if (is("delitem")) { pList l = L(); AP_list_delete_item(l, is_[slot('i', NI)]); }
  else if (is("headitem")) { pList l = L(); int i = slot('i', NI); item(is_[i] = AP_list_head_item(l)); }
  else if (is("head") || is("tail")) {
    pList l = L(); void *d = (void *)(intptr_t)-99;
    int rc = is("head") ? AP_list_head(l, &d) : AP_list_tail(l, &d);
    outl(!!rc); outl((long)(intptr_t)d);
  }
  else if (is("search")) { pList l = L(); void *v = V(); int i = slot('i', NI); item(is_[i] = AP_list_search(l, v)); }
  else if (is("searchf")) {
    pList l = L(); void *v = V(); int i = slot('i', NI);
    item(is_[i] = AP_list_search_func(l, first, v)); called();
  }
  else if (is("apply")) { pList l = L(); void *v = V(); outl(AP_list_apply(l, addup, v)); called(); }
  else if (is("next")) { int a = slot('i', NI), b = slot('i', NI); item(is_[b] = AP_listitem_next(is_[a])); }
  else if (is("prev")) { int a = slot('i', NI), b = slot('i', NI); item(is_[b] = AP_listitem_prev(is_[a])); }
  else if (is("same")) { int a = slot('i', NI), b = slot('i', NI); outl(is_[a] == is_[b]); }
  else if (is("data")) item(is_[slot('i', NI)]);
  else if (is("walk")) {
    pList l = L(); void *d = NULL, *t = NULL; int n = 0;
    while (AP_list_next(l, &d, &t) && n++ < 1000000) outl((long)(intptr_t)d);
  }
  else if (is("bwalk")) {
    pList l = L(); void *d, *t = NULL; int n = 0;
    while ((d = AP_list_braindead_next(l, &t)) && n++ < 1000000) outl((long)(intptr_t)d);
  }
  else if (is("items")) {
    pList l = L(); pListitem i, e = NULL; int n = 0;
    for (i = AP_list_head_item(l); i && n++ < 1000000; i = AP_listitem_next(i)) { item(i); e = i; }
    out("| ");
    for (n = 0; e && n++ < 1000000; e = AP_listitem_prev(e)) item(e);
  }
  else if (is("weed")) {          /* delete every k-th item while walking along */
    pList l = L(); int k = num(), n = 0; pListitem i, x;
    for (i = AP_list_head_item(l); i; i = x) { x = AP_listitem_next(i); if (n++ % k == 0) AP_list_delete_item(l, i); }
  }
  else if (is("dup")) { pList l = L(); ls[slot('l', NL)] = AP_list_duplicate(l); }
  else if (is("print")) { pList l = L(); printed(AP_list_print, "some", l, 1); }
  else if (is("revprint")) { pList l = L(); printed(AP_list_revprint, "some", l, 1); }
  else if (is("verify")) {
    quiet = 1; printed(verify, "", NULL, 2); quiet = 0;
    outl(!!verified);
  }
  else die("unknown op %s", op);
  if (more()) die("extra tokens after %s: %s", op, cur);
  out("\n");
}
