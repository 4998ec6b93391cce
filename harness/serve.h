/* serve.h: what the drivers share: results in shared memory (they survive a crash), tokens,
   and the server that runs each program in a child */
static void runline(char *line);
static void start(void);

#define RESMAX (256L << 20)
static struct { volatile long len; char txt[]; } *res;
static int quiet;

static void out(const char *fmt, ...)
{
  va_list ap;
  if (quiet) return;
  va_start(ap, fmt);
  if (res->len < RESMAX - 70000)
    res->len += vsnprintf(res->txt + res->len, 60000, fmt, ap);
  va_end(ap);
}
static void outl(long v) { out("%ld ", v); }

static void die(const char *fmt, ...)   /* harness misuse, not a finding */
{
  va_list ap;
  quiet = 0;
  out("\nHARNESS ");
  va_start(ap, fmt);
  if (res->len < RESMAX - 70000)
    res->len += vsnprintf(res->txt + res->len, 60000, fmt, ap);
  va_end(ap);
  _exit(77);
}

static char *cur;
static char *tok(void)
{
  char *s;
  while (*cur == ' ') cur++;
  if (!*cur) die("missing token");
  s = cur;
  while (*cur && *cur != ' ') cur++;
  if (*cur) *cur++ = 0;
  return s;
}
static int more(void) { while (*cur == ' ') cur++; return *cur != 0; }
static long num(void)
{
  char *s = tok(), *e;
  long v = strtol(s, &e, 0);
  if (*e) die("bad number %s", s);
  return v;
}
static int slotno(char kind, int lim)
{
  char *s = tok();
  if (s[0] != kind) die("expected %c slot, got %s", kind, s);
  int v = atoi(s+1);
  if (v < 0 || v >= lim) die("slot range");
  return v;
}
static char **lines; static int nlines, pc;

static void child(char *text)
{
  int cap = 0;
  for (char *p = text; *p; ) {
    char *e = strchr(p, '\n');
    if (e) *e = 0;
    if (*p) {
      if (nlines == cap) lines = realloc(lines, (cap = cap ? 2*cap : 256) * sizeof *lines);
      lines[nlines++] = p;
    }
    if (!e) break;
    p = e + 1;
  }
  start();
  while (pc < nlines) {
    char *cp = strdup(lines[pc++]);
    runline(cp);
    free(cp);
  }
  out("END\n");
  fflush(NULL);
  _exit(0);
}

static void wr(const void *p, long n)
{
  const char *c = p;
  while (n > 0) { long k = write(1, c, n); if (k <= 0) exit(3); c += k; n -= k; }
}

int main(int argc, char **argv)
{
  int cpu = argc > 1 ? atoi(argv[1]) : 20;
  int fo = memfd_create("out", 0), fe = memfd_create("err", 0);
  static char header[256];
  FILE *in = stdin;
  res = mmap(NULL, RESMAX + 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (res == MAP_FAILED || fo < 0 || fe < 0) { perror("driver"); return 3; }
  while (fgets(header, sizeof header, in)) {
    long n = atol(header + 2);
    char *text = malloc(n + 1);
    if (fread(text, 1, n, in) != (size_t)n) return 3;
    text[n] = 0;
    res->len = 0;
    if (ftruncate(fo, 0) || ftruncate(fe, 0)) return 3;
    lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (pid == 0) {
      struct rlimit rl = { cpu, 290 }, nocore = { 0, 0 };
      setrlimit(RLIMIT_CPU, &rl); setrlimit(RLIMIT_CORE, &nocore);
      alarm(300);
      int dn = open("/dev/null", O_RDONLY);
      dup2(dn, 0); dup2(fo, 1); dup2(fe, 2);
      child(text);
    }
    int ws = 0;
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) ;
    free(text);
    long lo = lseek(fo, 0, SEEK_END), le = lseek(fe, 0, SEEK_END);
    long ko = lo < 20000 ? lo : 20000, ke = le < 20000 ? le : 20000;
    static char ob[20000], eb[20000];
    if (pread(fo, ob, ko, 0) != ko || pread(fe, eb, ke, 0) != ke) return 3;
    int h = snprintf(header, sizeof header, "R %d %ld %ld %ld\n", ws, res->len, ko, ke);
    wr(header, h); wr(res->txt, res->len); wr(ob, ko); wr(eb, ke);
  }
  return 0;
}
