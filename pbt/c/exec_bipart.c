#include "pbt_bip.h"
#include "src/bipartite.h"

static void prints(struct binet *b, const char *pre)
{
  char k[40];
  for (int w = 0; w < 2; w++) {
    FILE *f = out_stream(); FPrintBipart(f, b, w); sprintf(k, "%stxt%d", pre, w); o_ktext(k, f);
    for (int c = 0; c < 2; c++) {
      FPrintPajekFileBipart("bip.net", b, c, w);
      sprintf(k, "%spajek%d%d", pre, c, w); o_k(k); long n; char *t = slurp("bip.net", &n); o_sn(t, n); free(t); unlink("bip.net");
    }
  }
}
static void c_bread(void)
{
  int w = ri(), add = ri(); long n; char *d = rs_len(&n);
  FILE *f = in_stream(d, n);
  struct binet *b = FBuildNetworkBipart(f, w, add);
  fclose(f); free(d);
  dump_bip("net", b);
  if (!b) return;
  o_ki("nl", NLinksBipart(b));
  prints(b, "");
  FILE *g = out_stream(); FPrintBipart(g, b, 1); rewind(g);
  struct binet *r = FBuildNetworkBipart(g, 1, 0); fclose(g);
  dump_bip("again", r);
  RemoveBipart(r); RemoveBipart(b);
}
static void attrs(const char *key, struct binet *b)
{
  o_k(key); o_open('[');
  for (int s = 0; s < 2; s++) {
    struct node_gra *p = s ? b->net2 : b->net1; o_open('[');
    while ((p = p->next) != NULL) { o_open('['); o_d(p->coorX); o_d(p->coorY); o_d(p->coorZ); o_i(p->state); o_i(p->inGroup); o_i(p->ivar1); o_d(p->dvar1); o_close(']'); }
    o_close(']');
  }
  o_close(']');
}
/* ops: i invert, c copy and go on with the copy, d copy and drop the copy, r <set> <label>; after each one a dump */
static void c_bops(void)
{
  struct binet *b = read_bip();
  for (int s = 0; s < 2; s++) {
    struct node_gra *p = s ? b->net2 : b->net1; int i = s * 50;
    while ((p = p->next) != NULL) { i++; p->coorX = i * .5; p->coorY = -i; p->coorZ = i * i; p->state = i + 7; p->inGroup = i % 5; p->ivar1 = 3 * i; p->dvar1 = i / 4.; }
  }
  int n = ri();
  o_k("steps"); o_open('[');
  for (int i = 0; i < n; i++) {
    char op = *tok();
    if (op == 'i') { struct binet *x = InvertBipart(b); if (x != b) { if (x) b = x; } }
    else if (op == 'c') { struct binet *x = CopyBipart(b); RemoveBipart(b); b = x; }
    else if (op == 'd') { struct binet *x = CopyBipart(b); if (x->net1->next) RemoveNodeBipart(x, x->net1->next->label, 1); RemoveBipart(x); }
    else { int s = ri(); char *l = rs(); RemoveNodeBipart(b, l, s); free(l); }
    o_open('{'); dump_bip("net", b); attrs("attr", b); o_ki("nl", NLinksBipart(b)); o_close('}');
  }
  o_close(']');
  prints(b, "");
  RemoveBipart(b);
}
static void c_bproj(void)
{
  struct binet *b = read_bip();
  for (int s = 1; s < 3; s++) {
    int n; struct node_gra **l = net_nodes(b->net1, &n); char k[8];
    sprintf(k, "com%d", s); o_k(k); o_open('[');
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { o_i(NCommonLinksBipart(l[i], l[j])); o_d(SumProductsOfCommonWeightsBipart(l[i], l[j])); }
    o_close(']'); free(l);
    struct node_gra *p = ProjectBipart(b); sprintf(k, "p%d", s); dump_net(k, p); RemoveGraph(p);
    p = ProjectBipartWeighted(b); sprintf(k, "w%d", s); dump_net(k, p); RemoveGraph(p);
    InvertBipart(b);
  }
  dump_bip("net", b);
  RemoveBipart(b);
}
static void c_bmod(void)
{
  struct binet *b = read_bip();
  struct group *part = read_part(b->net1, NULL);
  MapPartToNet(part, b->net1);
  int n; struct node_gra **l = net_nodes(b->net1, &n);
  o_kd("q", ModularityBipart(b, part)); o_kd("qw", ModularityBipartWeighted(b, part));
  double **m = malloc((n + 1) * sizeof *m);
  for (int i = 0; i < n; i++) { m[i] = malloc(n * sizeof **m); for (int j = 0; j < n; j++) m[i][j] = rd(); }
  o_kd("qf", ModularityBipartWeightedFast(b, part, m));
  for (int i = 0; i < n; i++) free(m[i]);
  free(m);
  o_k("P"); o_open('['); for (int i = 0; i < n; i++) o_d(ParticipationCoefficientBipart(l[i])); o_close(']');
  if (n) { double a, s, lo, hi; StatisticsParticipationCoefficientBipart(b->net1, &a, &s, &lo, &hi);
    o_k("stat"); o_open('['); o_d(a); o_d(s); o_d(lo); o_d(hi); o_close(']'); }
  for (int d = 0; d < 2; d++) for (int w = 0; w < 2; w++) {
    char k[8]; sprintf(k, "tab%d%d", d, w);
    FILE *f = out_stream(); FPrintTabNodesBipart(f, b, part, d, w); o_ktext(k, f);
  }
  dump_part("part", part, b->net1); dump_bip("net", b);
  free(l); RemovePartition(part); RemoveBipart(b);
}
static void c_brand(void)
{
  struct binet *b = read_bip();
  double times = rd(); gsl_rng *g = new_rng(ri());
  struct binet *r = RandomizeBipart(b, times, g);
  o_ki("same", r == b);
  dump_bip("net", r);
  gsl_rng_free(g); RemoveBipart(r);
}
/* reps randomisations of copies; each as a bit mask of links u*n2+a */
static void c_brandstat(void)
{
  struct binet *b = read_bip();
  double times = rd(); gsl_rng *g = new_rng(ri()); int reps = ri();
  int n2 = CountNodes(b->net2);
  o_k("s"); o_open('[');
  for (int i = 0; i < reps; i++) {
    struct binet *c = CopyBipart(b); RandomizeBipart(c, times, g);
    unsigned long m = 0; struct node_gra *p = c->net1;
    while ((p = p->next) != NULL) { struct node_lis *q = p->neig; while ((q = q->next) != NULL) m |= 1UL << (p->num * n2 + q->ref->num); }
    o_i(m);
    RemoveBipart(c);
  }
  o_close(']');
  gsl_rng_free(g); RemoveBipart(b);
}
static int *modsizes(int *nmod, int *npm)
{
  int eq = ri(); *nmod = ri();
  if (eq) { *npm = ri(); return NULL; }
  *npm = -1;
  int *s = malloc((*nmod + 1) * sizeof *s);
  for (int i = 0; i < *nmod; i++) s[i] = ri();
  return s;
}
static double *colprob(int nmod)
{
  if (!ri()) return NULL;
  double *c = malloc(nmod * sizeof *c);
  for (int i = 0; i < nmod; i++) c[i] = rd();
  return c;
}
static void c_bgen(void)
{
  int nmod, npm; int *ms = modsizes(&nmod, &npm); double *cp = colprob(nmod);
  int S2 = ri(), lo = ri(), hi = ri(); double gp = rd(), p = rd(); gsl_rng *g = new_rng(ri());
  struct binet *b = BuildModularBipartiteNetwork(ms, npm, nmod, cp, S2, lo, hi, gp, p, g);
  dump_bip("net", b);
  o_k("iv"); o_open('['); for (int s = 0; s < 2; s++) { struct node_gra *q = s ? b->net2 : b->net1; while ((q = q->next) != NULL) o_i(q->ivar1); } o_close(']');
  RemoveBipart(b); gsl_rng_free(g); free(ms); free(cp);
}
/* per team: colour, members; flat list */
static void c_bgenstat(void)
{
  int nmod, npm; int *ms = modsizes(&nmod, &npm); double *cp = colprob(nmod);
  int S2 = ri(), lo = ri(), hi = ri(); double gp = rd(), p = rd(); gsl_rng *g = new_rng(ri());
  struct binet *b = BuildModularBipartiteNetwork(ms, npm, nmod, cp, S2, lo, hi, gp, p, g);
  o_k("t"); o_open('[');
  struct node_gra *q = b->net2;
  while ((q = q->next) != NULL) {
    o_open('['); o_i(q->inGroup);
    struct node_lis *n = q->neig; while ((n = n->next) != NULL) o_i(n->ref->num);
    o_close(']');
  }
  o_close(']');
  RemoveBipart(b); gsl_rng_free(g); free(ms); free(cp);
}
struct cmd commands[] = {{"bread", c_bread}, {"bops", c_bops}, {"bproj", c_bproj}, {"bmod", c_bmod}, {"brand", c_brand},
  {"brandstat", c_brandstat}, {"bgen", c_bgen}, {"bgenstat", c_bgenstat}, {0, 0}};
