/* Command-server runtime shared by the executors: one request line in, one JSON line out. */
#ifndef PBT_H
#define PBT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <gsl/gsl_rng.h>

/* functions that no header declares: a tree in which they are static or renamed cannot be asked */
#define NEED(f) do { if (!(f)) _exit(77); } while (0)
struct cmd { const char *name; void (*fn)(void); };
extern struct cmd commands[];

static FILE *resp;
static char *pbt_cur;               /* rest of the request line */

static char *tok(void)
{
  while (*pbt_cur == ' ') pbt_cur++;
  char *s = pbt_cur;
  if (!*s || *s == '\n') { fprintf(resp, "!missing token\n"); fflush(resp); exit(3); }
  while (*pbt_cur && *pbt_cur != ' ' && *pbt_cur != '\n') pbt_cur++;
  if (*pbt_cur) *pbt_cur++ = 0;
  return s;
}
static long ri(void) { return strtol(tok(), NULL, 10); }
static double rd(void) { return strtod(tok(), NULL); }
static int pbt_hex(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* a string token: 'x' + hex; returned malloc'ed exactly (so ASan sees overruns), length in *len */
static char *rs_len(long *len)
{
  char *t = tok();
  if (*t != 'x') { fprintf(resp, "!string expected: %s\n", t); fflush(resp); exit(3); }
  long n = strlen(t + 1) / 2;
  char *o = malloc(n + 1);
  for (long i = 0; i < n; i++) o[i] = 16 * pbt_hex(t[1 + 2 * i]) + pbt_hex(t[2 + 2 * i]);
  o[n] = 0;
  if (len) *len = n;
  return o;
}
static char *rs(void) { return rs_len(NULL); }

/* ---- output ---- */
static int pbt_comma;
static void o_sep(void) { if (pbt_comma) fputc(',', resp); pbt_comma = 1; }
static void o_open(char c) { o_sep(); fputc(c, resp); pbt_comma = 0; }
static void o_close(char c) { fputc(c, resp); pbt_comma = 1; }
static void o_i(long v) { o_sep(); fprintf(resp, "%ld", v); }
static void o_d(double v)
{
  o_sep();
  if (isnan(v)) fputs("NaN", resp);
  else if (isinf(v)) fputs(v > 0 ? "Infinity" : "-Infinity", resp);
  else fprintf(resp, "%.17g", v);
}
static void o_sn(const char *s, long n)
{
  o_sep(); fputc('"', resp);
  for (long i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { fputc('\\', resp); fputc(c, resp); }
    else if (c < 32 || c == 127) fprintf(resp, "\\u%04x", c);
    else fputc(c, resp);
  }
  fputc('"', resp);
}
static void o_s(const char *s) { if (s) o_sn(s, strlen(s)); else { o_sep(); fputs("null", resp); } }
static void o_k(const char *k) { o_s(k); fputc(':', resp); pbt_comma = 0; }
static void o_ki(const char *k, long v) { o_k(k); o_i(v); }
static void o_kd(const char *k, double v) { o_k(k); o_d(v); }
static void o_ks(const char *k, const char *v) { o_k(k); o_s(v); }

static FILE *in_stream(const char *data, long n)
{
  /* a real (unlinked) temporary file: behaves exactly like a user's file */
  FILE *f = tmpfile();
  fwrite(data, 1, n, f); rewind(f);
  return f;
}
static FILE *out_stream(void) { return tmpfile(); }
/* reads back everything written to f and closes it */
static char *out_text(FILE *f, long *n)
{
  fflush(f);
  long len = ftell(f); fseek(f, 0, SEEK_END); len = ftell(f); rewind(f);
  char *b = malloc(len + 1);
  len = fread(b, 1, len, f); b[len] = 0;
  fclose(f);
  if (n) *n = len;
  return b;
}
static void o_ktext(const char *k, FILE *f) { long n; char *b = out_text(f, &n); o_k(k); o_sn(b, n); free(b); }
static char *slurp(const char *fn, long *n)
{
  FILE *f = fopen(fn, "rb");
  if (!f) return NULL;
  fseek(f, 0, SEEK_END); long len = ftell(f); rewind(f);
  char *b = malloc(len + 1); len = fread(b, 1, len, f); b[len] = 0; fclose(f);
  if (n) *n = len;
  return b;
}

/* A generator which, if PBT_RNG is set, mixes the extreme words of the Mersenne twister (0 gives the draw 0.0, all ones the
 * largest draw below 1) among ordinary ones, half of the time, one time in 8 or one time in 64 depending on the seed. */
struct edge_state { unsigned long long x; unsigned long mask; };
static unsigned long edge_word(struct edge_state *s)
{
  s->x += 0x9e3779b97f4a7c15ULL;
  unsigned long long z = s->x;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31;
  return z >> 32;
}
static void edge_set(void *v, unsigned long seed)
{
  struct edge_state *s = v;
  s->x = seed * 0x2545f4914f6cdd1dULL + 1; s->mask = (unsigned long[]){1, 7, 63}[seed % 3];
}
static unsigned long edge_get(void *v)
{
  static const unsigned long extreme[] = {0, 0, 0xffffffffUL, 0xffffffffUL, 0xffffffffUL, 1, 0x80000000UL, 0x7fffffffUL};
  unsigned long w = edge_word(v), k = edge_word(v);
  return k & ((struct edge_state *)v)->mask ? w : extreme[(k >> 8) % 8];
}
static double edge_double(void *v) { return edge_get(v) / 4294967296.0; }
static const gsl_rng_type edge_type = {"edge", 0xffffffffUL, 0, sizeof(struct edge_state), edge_set, edge_get, edge_double};

static gsl_rng *new_rng(unsigned long seed)
{
  gsl_rng *g = gsl_rng_alloc(getenv("PBT_RNG") ? &edge_type : gsl_rng_mt19937);
  gsl_rng_set(g, seed);
  return g;
}

/* how much the library prints (environment PBT_VERB): must not matter */
static inline char pbt_verb(void) { const char *s = getenv("PBT_VERB"); return s ? *s : 'q'; }
#define VERB pbt_verb()

/* Runs a decorrelation estimate talking aloud and keeps the estimates it announces (lines "... estimate ... = x [y]"). */
static double est_[512][2]; static int est_n, est_k, est_result = -1;
static inline void est_parse(FILE *f)
{
  char line[300];
  est_n = 0; est_k = 0;
  rewind(f);
  while (fgets(line, sizeof line, f)) {
    char *e = strchr(line, '=');
    double a, b; int k;
    if (!e || !strstr(line, "estimate") || (k = sscanf(e + 1, "%lf %lf", &a, &b)) < 1) continue;
    if (k == 1) b = 0;
    if (a < 0 || b < 0 || est_n >= 512) continue;
    est_[est_n][0] = a; est_[est_n++][1] = b; est_k = k;
  }
}
#define ESTIMATE(call, verb) do { \
    FILE *keep_ = stderr, *f_ = tmpfile(); char verb = VERB == 'q' ? 'v' : VERB; \
    if (f_) stderr = f_; \
    est_result = decor = (call); \
    stderr = keep_; \
    if (f_) { est_parse(f_); fclose(f_); } \
  } while (0)
static inline void o_estimates(void)
{
  if (est_result < 0) return;
  o_k("est"); o_open('['); o_i(est_result);
  for (int i = 0; i < est_n; i++) { o_open('['); for (int j = 0; j < est_k; j++) o_d(est_[i][j]); o_close(']'); }
  o_close(']');
  est_result = -1; est_n = 0;
}

void __attribute__((weak)) pbt_leak_begin(void);
void __attribute__((weak)) pbt_leak_end(FILE *);

int main(void)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);   /* a request that never ends must not outlive the check */
  int fd = dup(1);
  resp = fdopen(fd, "w");
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);                       /* the library prints to stdout */
  char *line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    pbt_cur = line;
    char *name = tok();
    struct cmd *c;
    for (c = commands; c->name; c++) if (!strcmp(c->name, name)) break;
    if (!c->name) { fprintf(resp, "!unknown command %s\n", name); fflush(resp); return 3; }
    pbt_comma = 0; est_result = -1;
    fputc('{', resp);
    if (pbt_leak_begin) pbt_leak_begin();
    c->fn();
    if (pbt_leak_end) pbt_leak_end(resp);
    fputs("}\n", resp);
    fflush(resp);
    fflush(stdout);
    rewind(stderr);
    if (ftruncate(2, 0)) {}
    lseek(2, 0, SEEK_SET);
  }
  return 0;
}
#endif
