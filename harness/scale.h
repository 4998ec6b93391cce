/*
 * scale <seed> <target> <churn> <phases> <fort%>:  grow a mixed population of pending
 * requests, communicators and datatypes to <target> live handles, churn, shrink,
 * grow again, and release everything; each object carries a payload that only it
 * can deliver.  Prints "ok ..." or "BAD ...".
 */
static uint64_t sc_state;
static uint32_t rnd(uint32_t n)
{
  sc_state ^= sc_state << 13; sc_state ^= sc_state >> 7; sc_state ^= sc_state << 17;
  return (uint32_t)((sc_state >> 16) % n);
}
typedef struct { int h, idx, tag, comm, kind, val, freed; } ScReq; /* kind 0 recv, 1 send; val: payload */
typedef struct { int h, pend; } ScComm;
typedef struct { int h, n, st, dup; } ScType;
static ScReq *sr; static int nsr; static int *sbuf_, *freeidx, nfreeidx;
static ScComm *scm; static int nscm;
static ScType *sty; static int nsty;
static int sc_tag, sc_fort;
static char sc_bad[256];
#define BAD(...) do { if (!sc_bad[0]) snprintf(sc_bad, sizeof sc_bad, __VA_ARGS__); } while (0)
static int sc_f(void) { return (int)rnd(100) < sc_fort; }

static int cmpint(const void *a, const void *b)
{ int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
static void distinct(const char *what, int *v, int n)
{
  qsort(v, n, sizeof(int), cmpint);
  for (int i = 0; i < n; i++) {
    if (v[i] == 0) BAD("%s: null handle for a live object", what);
    if (i && v[i] == v[i-1]) BAD("%s: handle %d denotes two live objects", what, v[i]);
  }
}
static void sc_distinct(void)
{
  int *v = malloc((nsr + nscm + nsty + 1) * sizeof(int)), n = 0;
  for (int i = 0; i < nsr; i++) if (!sr[i].freed) v[n++] = sr[i].h;
  distinct("request", v, n);
  n = 0;
  for (int i = 0; i < nscm; i++) v[n++] = scm[i].h;
  distinct("communicator", v, n);
  n = 0;
  for (int i = 0; i < nsty; i++) v[n++] = sty[i].h;
  for (int i = 0; i < n; i++) if (v[i] < 0 && v[i] >= -64) BAD("datatype: handle %d is predefined", v[i]);
  distinct("datatype", v, n);
  free(v);
}
static void sc_newcomm(void)
{
  int h = -1, base = nscm ? scm[rnd(nscm)].h : MPI_COMM_WORLD, ie, z = 0;
  if (rnd(2)) { if (sc_f()) mpi_comm_dup_(&base, &h, &ie); else MPI_Comm_dup(base, &h); }
  else { if (sc_f()) mpi_comm_split_(&base, &z, &z, &h, &ie); else MPI_Comm_split(base, 0, 0, &h); }
  scm[nscm].h = h; scm[nscm].pend = 0; nscm++;
}
static void sc_newtype(void)
{
  int n = 1 + rnd(20), st = n + rnd(30), h = -1;
  MPI_Aint d[2] = { 0, 4L*st }; int bl[2] = { n, 1 };
  /* n ints, then one at 4*st: size 4(n+1), extent 4(st+1) */
  if (nsty && rnd(8) == 0) {
    ScType *o = &sty[rnd(nsty)];
    MPI_Type_contiguous(1, o->h, &h);
    sty[nsty] = *o;
  } else {
    int two = 2, mi = MPI_INT, ie;
    if (sc_f()) mpi_type_hindexed_(&two, bl, d, &mi, &h, &ie);
    else MPI_Type_hindexed(2, bl, d, MPI_INT, &h);
    sty[nsty].n = n; sty[nsty].st = st;
  }
  sty[nsty].h = h; nsty++;
  MPI_Type_commit(&h);
  if (h != sty[nsty-1].h) BAD("commit changed a handle");
}
static void sc_checktype(int i)
{
  int sz = -1; MPI_Aint e = -1;
  MPI_Type_size(sty[i].h, &sz); MPI_Type_extent(sty[i].h, &e);
  if (sz != 4*(sty[i].n + 1)) BAD("datatype %d: size %d, made with %d", sty[i].h, sz, 4*(sty[i].n+1));
  if ((long)e != 4L*(sty[i].st + 1)) BAD("datatype %d: extent %ld, made with %ld", sty[i].h, (long)e, 4L*(sty[i].st+1));
  if (rnd(4) == 0) {
    int src[64], dst[32], pos = 0;
    for (int k = 0; k < 64; k++) src[k] = rnd(1u<<30);
    memset(dst, 0x55, sizeof dst);
    MPI_Pack(src, 1, sty[i].h, dst, sizeof dst, &pos, MPI_COMM_WORLD);
    if (pos != 4*(sty[i].n+1)) BAD("datatype %d packs %d bytes", sty[i].h, pos);
    else {
      for (int k = 0; k < sty[i].n; k++) if (dst[k] != src[k]) BAD("datatype %d packs wrong data", sty[i].h);
      if (dst[sty[i].n] != src[sty[i].st]) BAD("datatype %d packs wrong last element", sty[i].h);
    }
  }
}
static void sc_newreq(void)
{
  int c = rnd(nscm), ie, one = 1, mi = MPI_INT, zero = 0;
  if (scm[c].pend > 150) c = rnd(nscm);
  ScReq *r = &sr[nsr++];
  r->idx = freeidx[--nfreeidx]; r->tag = sc_tag++; r->comm = c; r->kind = rnd(2); r->h = -1; r->freed = 0;
  r->val = rnd(1u<<30);
  if (r->kind) {
    sbuf_[r->idx] = r->val;
    if (sc_f()) mpi_isend_(&sbuf_[r->idx], &one, &mi, &zero, &r->tag, &scm[c].h, &r->h, &ie);
    else MPI_Isend(&sbuf_[r->idx], 1, MPI_INT, 0, r->tag, scm[c].h, &r->h);
  } else {
    sbuf_[r->idx] = -1;
    if (sc_f()) mpi_irecv_(&sbuf_[r->idx], &one, &mi, &zero, &r->tag, &scm[c].h, &r->h, &ie);
    else MPI_Irecv(&sbuf_[r->idx], 1, MPI_INT, 0, r->tag, scm[c].h, &r->h);
  }
  scm[c].pend++;
  if (r->h == 0) BAD("null request handle");
}
static void sc_matchreq(int i)
{
  ScReq r = sr[i]; MPI_Status st; int fl = -1, h = r.h, c = scm[r.comm].h, got = -1;
  if (rnd(4) == 0) {
    MPI_Test(&h, &fl, &st);
    if (fl != 0 || h != r.h) BAD("unmatched request %d tests complete", r.h);
  }
  if (r.kind) {
    MPI_Recv(&got, 1, MPI_INT, 0, r.tag, c, &st);
    if (got != r.val) BAD("receive with tag %d got %d, sent %d", r.tag, got, r.val);
    if (st.MPI_TAG != r.tag || st.MPI_SOURCE != 0) BAD("status of tag %d says %d/%d", r.tag, st.MPI_SOURCE, st.MPI_TAG);
  } else {
    MPI_Send(&r.val, 1, MPI_INT, 0, r.tag, c);
    if (sbuf_[r.idx] != r.val) BAD("pending receive tag %d got %d, sent %d", r.tag, sbuf_[r.idx], r.val);
  }
  if (sc_f()) { int ie, fst[4]; mpi_wait_(&h, fst, &ie); st.MPI_TAG = fst[1]; st.MPI_SOURCE = fst[0]; }
  else MPI_Wait(&h, &st);
  if (h != MPI_REQUEST_NULL) BAD("request not null after wait");
  if (!r.kind && (st.MPI_TAG != r.tag || st.MPI_SOURCE != 0)) BAD("wait status of tag %d says %d/%d", r.tag, st.MPI_SOURCE, st.MPI_TAG);
  scm[r.comm].pend--;
  freeidx[nfreeidx++] = r.idx;
  sr[i] = sr[--nsr];
}
static void sc_freecomm(int i)
{
  int h = scm[i].h, last = nscm - 1;
  if (scm[i].pend) return;
  if (last != i) {
    for (int k = 0; k < nsr; k++) if (sr[k].comm == last) sr[k].comm = i;
  }
  MPI_Comm_free(&h);
  if (h != MPI_COMM_NULL) BAD("communicator handle not null after free");
  scm[i] = scm[last]; nscm--;
}
static void sc_freetype(int i)
{
  int h = sty[i].h;
  sc_checktype(i);
  MPI_Type_free(&h);
  if (h != MPI_DATATYPE_NULL) BAD("datatype handle not null after free");
  sty[i] = sty[--nsty];
}
/*
 * queue <seed> <n> <tags> <kind> <any%> <fort%> <dt>:  n requests pend on one communicator
 * (kind 0: receives, 1: sends) and are matched here and there in the queue, now and then
 * with a new one at its end; then what is left, in order.  Each message has a number.
 * With dt they share a derived datatype, which dt 2 frees while they are all pending.
 */
static int op_queue(char *op)
{
  if (strcmp(op, "queue")) return 0;
  uint32_t seed = num(); int n = num(), tags = num(), kind = num(), any = num(); sc_fort = num();
  int dt = num(), ty = MPI_INT, other = MPI_DATATYPE_NULL;
  int steps = n < 2500 ? n : 2500, cap = n + steps, live = 0, made = 0, first = 0, ie, one = 1, mi = MPI_INT, zero = 0, c;
  int *tag = malloc(cap * sizeof(int)), *val = malloc(cap * sizeof(int)), *req = malloc(cap * sizeof(int));
  char *gone = calloc(cap, 1);
  sc_state = 88172645463325252ULL ^ ((uint64_t)seed << 20 | seed);
  for (int i = 0; i < 10; i++) rnd(2);
  sc_bad[0] = 0;
  MPI_Comm_dup(MPI_COMM_WORLD, &c);
  if (dt) { MPI_Type_contiguous(1, MPI_INT, &ty); MPI_Type_commit(&ty); }
  for (int s = 0; (s < steps || live) && !sc_bad[0]; s++) {
    while (!made || (s < steps && made < cap && (live < n || rnd(4) == 0))) {
      int k = made++;
      live++;
      tag[k] = 7 + rnd(tags); req[k] = -1;
      if (kind) {
        val[k] = k;
        if (sc_f()) mpi_isend_(&val[k], &one, &ty, &zero, &tag[k], &c, &req[k], &ie);
        else MPI_Isend(&val[k], 1, ty, 0, tag[k], c, &req[k]);
      } else {
        val[k] = -1;
        if (rnd(100) < (uint32_t)any) tag[k] = MPI_ANY_TAG;
        if (sc_f()) mpi_irecv_(&val[k], &one, &ty, &zero, &tag[k], &c, &req[k], &ie);
        else MPI_Irecv(&val[k], 1, ty, 0, tag[k], c, &req[k]);
      }
      if (req[k] == 0) BAD("null request handle");
    }
    if (dt > 1 && ty != MPI_INT) {       /* in use by all of them; its place is taken by another */
      int one_ = 1, far = 3;
      MPI_Type_free(&ty); ty = MPI_INT;
      MPI_Type_indexed(1, &one_, &far, MPI_DOUBLE, &other); MPI_Type_commit(&other);
    }
    while (gone[first]) first++;
    int k = first, t, fl = -1, got = -1;
    if (s < steps) { while (gone[k = first + rnd(made - first)]) ; }
    if (s == 0) k = made - 1;
    MPI_Status st; memset(&st, 0x5a, sizeof st);
    t = tag[k];
    if (kind) {
      if (rnd(100) < (uint32_t)any) t = MPI_ANY_TAG;
      for (k = first; gone[k] || (t != MPI_ANY_TAG && tag[k] != t); k++) ;
      if (rnd(2)) {
        MPI_Iprobe(0, t, c, &fl, &st);
        if (!fl || st.MPI_TAG != tag[k]) BAD("probe for tag %d names %d, not %d (message %d of %d)", t, st.MPI_TAG, tag[k], k, made);
      }
      if (sc_f()) { int f[4]; mpi_recv_(&got, &one, &mi, &zero, &t, &c, f, &ie); st.MPI_TAG = f[1]; }
      else MPI_Recv(&got, 1, MPI_INT, 0, t, c, &st);
      if (got != k || st.MPI_TAG != tag[k]) BAD("receive of tag %d took message %d with tag %d, not %d (of %d)", t, got, st.MPI_TAG, k, made);
    } else {
      if (t == MPI_ANY_TAG) t = 7 + rnd(tags);
      for (k = first; gone[k] || (tag[k] != MPI_ANY_TAG && tag[k] != t); k++) ;
      got = rnd(1 << 30);
      if (sc_f()) mpi_send_(&got, &one, &mi, &zero, &t, &c, &ie);
      else MPI_Send(&got, 1, MPI_INT, 0, t, c);
      if (val[k] != got) BAD("message with tag %d did not go to receive %d of %d", t, k, made);
    }
    gone[k] = 1; live--;
    MPI_Test(&req[k], &fl, &st);
    if (!fl || req[k] != MPI_REQUEST_NULL) BAD("request %d of %d is not complete", k, made);
    if (!kind && st.MPI_TAG != t) BAD("status of receive %d has tag %d, not %d", k, st.MPI_TAG, t);
  }
  MPI_Status st; int fl = -1;
  MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, c, &fl, &st);
  if (fl) BAD("a message is left");
  MPI_Comm_free(&c);
  if (ty != MPI_INT) {
    int sz = -1;
    MPI_Type_size(ty, &sz);
    if (sz != (int)sizeof(int)) BAD("the datatype has size %d now", sz);
    MPI_Type_free(&ty);
  }
  if (other != MPI_DATATYPE_NULL) MPI_Type_free(&other);
  if (sc_bad[0]) out("BAD %s ", sc_bad);
  else out("ok %d ", made);
  free(tag); free(val); free(req); free(gone);
  return 1;
}
/*
 * capacity <0|1>:  how many more requests can be live at once, found out in a child that
 * posts receives until it is stopped; 0 remembers it, 1 says whether it is still the same.
 */
static int op_capacity(char *op)
{
  static long before;
  if (strcmp(op, "capacity")) return 0;
  int cmp = num(), st;
  volatile long *n = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  fflush(NULL);
  pid_t p = fork();
  if (p == 0) {
    int z = open("/dev/null", O_RDWR), h;
    static int b;
    dup2(z, 1); dup2(z, 2);
    for (long k = 0; k < 400000; k++) { MPI_Irecv(&b, 0, MPI_INT, 0, 5, MPI_COMM_WORLD, &h); n[0]++; }
    _exit(0);
  }
  waitpid(p, &st, 0);
  if (!cmp) before = n[0];
  outl(!cmp || before == n[0]);
  if (cmp && before != n[0]) { outl(before); outl(n[0]); }
  munmap((void *)n, 4096);
  return 1;
}
/*
 * marathon <seed> <n> <fort%>:  n messages in all the ways there are to send and receive
 * one, with communicators and datatypes that come and go; memory in the middle and at the
 * end is the same.
 */
static int op_marathon(char *op)
{
  if (strcmp(op, "marathon")) return 0;
  uint32_t seed = num(); long n = num(), mem = 0; sc_fort = num();
  int ie, zero = 0, any = MPI_ANY_TAG, c = -1, ty = -1;
  static int a[8], b[8];
  sc_state = 88172645463325252ULL ^ ((uint64_t)seed << 20 | seed);
  for (int i = 0; i < 10; i++) rnd(2);
  sc_bad[0] = 0;
  MPI_Comm_dup(MPI_COMM_WORLD, &c);
  MPI_Type_contiguous(1, MPI_INT, &ty); MPI_Type_commit(&ty);
  for (long s = 0; s < n && !sc_bad[0]; s++) {
    int k = 1 + rnd(4), m = k + rnd(3), tag = rnd(1u<<30), w = rnd(6), f = sc_f(), q[2] = { -1, -1 }, fl = -1, got = -1;
    int t = rnd(2) ? ty : MPI_INT, u = rnd(2) ? ty : MPI_INT, cc = rnd(2) ? c : MPI_COMM_WORLD, rt = rnd(4) ? tag : any;
    MPI_Status st[2]; memset(st, 0x5a, sizeof st);
    int fs[8];
    if (s == n/2) mem = ALLOCATED();
    if (s % 61 == 3) { MPI_Comm_free(&c); if (rnd(2)) MPI_Comm_dup(MPI_COMM_WORLD, &c); else MPI_Comm_split(MPI_COMM_WORLD, 0, 0, &c); cc = c; }
    if (s % 67 == 5) { MPI_Type_free(&ty); MPI_Type_contiguous(1, MPI_INT, &ty); MPI_Type_commit(&ty); t = u = ty; }
    for (int i = 0; i < 8; i++) { a[i] = s * 8 + i; b[i] = -1; }
    switch (w) {
    case 0:                                             /* isend, recv */
      if (f) mpi_isend_(a, &k, &t, &zero, &tag, &cc, q, &ie); else MPI_Isend(a, k, t, 0, tag, cc, q);
      if (f) { mpi_recv_(b, &m, &u, &zero, &rt, &cc, fs, &ie); memcpy(st, fs, sizeof st[0]); } else MPI_Recv(b, m, u, 0, rt, cc, st);
      if (f) mpi_wait_(q, fs, &ie); else MPI_Wait(q, MPI_STATUS_IGNORE);
      break;
    case 1:                                             /* irecv, send */
      if (f) mpi_irecv_(b, &m, &u, &zero, &rt, &cc, q, &ie); else MPI_Irecv(b, m, u, 0, rt, cc, q);
      if (f) mpi_send_(a, &k, &t, &zero, &tag, &cc, &ie);
      else if (rnd(2)) MPI_Send(a, k, t, 0, tag, cc);
      else if (rnd(2)) MPI_Ssend(a, k, t, 0, tag, cc);
      else MPI_Rsend(a, k, t, 0, tag, cc);
      MPI_Wait(q, st);
      break;
    case 2: case 3:                                     /* both at once, either first */
      for (int j = 0; j < 2; j++)
        if (j == w - 2) {
          if (f) mpi_isend_(a, &k, &t, &zero, &tag, &cc, q + 1, &ie); else MPI_Isend(a, k, t, 0, tag, cc, q + 1);
        } else {
          if (f) mpi_irecv_(b, &m, &u, &zero, &rt, &cc, q, &ie); else MPI_Irecv(b, m, u, 0, rt, cc, q);
        }
      if (s % 3 == 0) MPI_Waitall(2, q, st);
      else if (s % 3 == 1) { MPI_Testall(2, q, &fl, st); if (!fl) BAD("message %ld: not all complete", s); }
      else { MPI_Test(q, &fl, st); MPI_Request_free(q + 1); if (!fl) BAD("message %ld: not complete", s); }
      break;
    case 4:                                             /* probe */
      MPI_Isend(a, k, t, 0, tag, cc, q);
      MPI_Iprobe(0, rt, cc, &fl, st);
      if (!fl || st[0].MPI_TAG != tag) BAD("message %ld: not probed", s);
      MPI_Recv(b, m, u, MPI_ANY_SOURCE, rt, cc, st);
      MPI_Waitany(1, q, &fl, st + 1);
      if (fl != 0) BAD("message %ld: waitany says %d", s, fl);
      break;
    default:
      if (f) { mpi_sendrecv_(a, &k, &t, &zero, &tag, b, &m, &u, &zero, &rt, &cc, fs, &ie); memcpy(st, fs, sizeof st[0]); }
      else MPI_Sendrecv(a, k, t, 0, tag, b, m, u, 0, rt, cc, st);
    }
    if (q[0] != MPI_REQUEST_NULL && q[0] != -1) BAD("message %ld (%d): request not null", s, w);
    if (st[0].MPI_TAG != tag || st[0].MPI_SOURCE != 0) BAD("message %ld (%d): status has tag %d, not %d", s, w, st[0].MPI_TAG, tag);
    MPI_Get_count(st, u, &got);
    if (got != k) BAD("message %ld (%d): count %d, not %d", s, w, got, k);
    for (int i = 0; i < 8; i++) if (b[i] != (i < k ? (int)(s * 8 + i) : -1)) BAD("message %ld (%d): item %d is %d", s, w, i, b[i]);
    if (s % 16 == 1) {
      memset(b, -1, sizeof b);
      MPI_Allreduce(a, b, k, t, MPI_SUM, cc);
      MPI_Allgather(b, k, u, b + 4, k, t, cc);
      for (int i = 0; i < 4; i++) if (b[i] != (i < k ? a[i] : -1) || b[4 + i] != b[i]) BAD("collective %ld: item %d is %d, %d", s, i, b[i], b[4+i]);
      int ps = 1;
      char pk[64];
      MPI_Pack(a, k, t, pk, 64, &ps, cc);
      if (ps != 1 + 4*k || memcmp(pk + 1, a, 4*k)) BAD("pack %ld", s);
    }
  }
  if (!sc_bad[0] && ALLOCATED() > mem + 4096) BAD("memory grew from %ld to %ld in %ld messages", mem, ALLOCATED(), n / 2);
  MPI_Comm_free(&c); MPI_Type_free(&ty);
  if (sc_bad[0]) out("BAD %s ", sc_bad);
  else out("ok ");
  return 1;
}
static int op_scale(char *op)
{
  if (strcmp(op, "scale")) return 0;
  uint32_t seed = num(); int target = num(), churn = num(), phases = num(); sc_fort = num();
  int cap = target + 1000, minc = 4 + target / 60, peak = 0;
  sc_state = 88172645463325252ULL ^ ((uint64_t)seed << 20 | seed);
  for (int i = 0; i < 10; i++) rnd(2);
  sr = malloc(cap * sizeof *sr); scm = malloc(cap * sizeof *scm); sty = malloc(cap * sizeof *sty);
  sbuf_ = malloc(cap * sizeof(int)); freeidx = malloc(cap * sizeof(int));
  nsr = nscm = nsty = nfreeidx = 0; sc_tag = 0; sc_bad[0] = 0;
  for (int i = cap - 1; i >= 0; i--) freeidx[nfreeidx++] = i;
  for (int p = 0; p < phases && !sc_bad[0]; p++) {
    int goal = p == phases - 1 ? target : target / 2 + rnd(target / 2 + 1);
    while (nsr + nscm + nsty < goal && !sc_bad[0]) {        /* grow */
      uint32_t k = rnd(100);
      if (nscm < minc && (nscm < 4 || k < 15)) sc_newcomm();
      else if (k < 25) sc_newtype();
      else sc_newreq();
    }
    if (nsr + nscm + nsty > peak) peak = nsr + nscm + nsty;
    sc_distinct();
    for (int i = 0; i < churn && !sc_bad[0]; i++) {         /* churn in place */
      uint32_t k = rnd(100);
      if (k < 60) { if (nsr) { sc_matchreq(rnd(nsr)); sc_newreq(); } }
      else if (k < 80) { if (nsty) { sc_freetype(rnd(nsty)); sc_newtype(); } }
      else if (k < 90) { if (nsty) sc_checktype(rnd(nsty)); }
      else { if (nsty) { sc_freetype(rnd(nsty)); sc_newreq(); } }
    }
    for (int i = 0; i < 20 && !sc_bad[0]; i++) { if (nscm > 3) sc_freecomm(rnd(nscm)); sc_newcomm(); }
    sc_distinct();
    int low = p == phases - 1 ? 0 : (int)rnd(goal / 2 + 1);
    while (nsr + nsty > low && !sc_bad[0]) {                /* shrink */
      if (nsty && rnd(nsr + nsty) < (uint32_t)nsty) sc_freetype(rnd(nsty));
      else sc_matchreq(rnd(nsr));
    }
  }
  for (int i = nscm - 1; i >= 0 && !sc_bad[0]; i--) sc_freecomm(i);
  if (sc_bad[0]) out("BAD %s ", sc_bad);
  else out("ok %d %d ", peak, sc_tag);
  free(sr); free(scm); free(sty); free(sbuf_); free(freeidx);
  return 1;
}
