/* Recommender (recommend.c) and conflict scores (conflict.c). */
#include "pbt_sbm.h"
#include "pbt_bip.h"
#include "src/recommend.h"
#include "src/conflict.h"
#define MAXK 8
static struct binet *B;
static int K, n1, n2, ng1, ng2, LS, LCS, LFS, decor;
static struct node_gra **nl1, **nl2;
static struct group *p1, *p2, **gl1, **gl2;
static int **N1[MAXK], **N2[MAXK], **G1[MAXK], **G2[MAXK];
static double *LL, **LC, *LF, H;
static gsl_rng *gen;

static struct group *place(struct node_gra *net, struct node_gra **nl, int n, struct group ***gl)
{
  struct group *part = CreateHeaderGroup(), *last = part;
  *gl = malloc((n + 1) * sizeof **gl);
  for (int i = 0; i < n; i++) (*gl)[i] = last = CreateGroup(last, i);
  ResetNetGroup(net);
  for (int i = 0; i < n; i++) AddNodeToGroup((*gl)[ri()], nl[i]);
  return part;
}
static double scratch_H(int kind) { return kind == '2' ? H2State(p1, p2) : HKState(K, p1, p2); }
static void begin(int kind)
{
  decor = 1; K = ri(); B = read_bip();
  nl1 = net_nodes(B->net1, &n1); nl2 = net_nodes(B->net2, &n2);
  p1 = place(B->net1, nl1, n1, &gl1); p2 = place(B->net2, nl2, n2, &gl2);
  gen = new_rng(ri());
  LS = ri(); LCS = ri(); LFS = ri();
  LL = InitializeFastLog(LS); LC = InitializeFastLogChoose(LCS); LF = InitializeFastLogFact(LFS);
  for (int k = 0; k < K; k++) {
    N1[k] = allocate_i_mat(n1, n2); G1[k] = allocate_i_mat(n1, n2); N2[k] = allocate_i_mat(n2, n1); G2[k] = allocate_i_mat(n2, n1);
    for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) {
      G1[k][i][j] = G2[k][j][i] = NWeightG2GLinks(gl1[i], gl2[j], (double)k);
      N1[k][i][j] = NWeightLinksToGroup(nl1[i], gl2[j], (double)k);
      N2[k][j][i] = NWeightLinksToGroup(nl2[j], gl1[i], (double)k);
    }
  }
  ng1 = NNonEmptyGroups(p1); ng2 = NNonEmptyGroups(p2);
  H = scratch_H(kind);
}
static void end(void)
{
  RemovePartition(p1); RemovePartition(p2); free(gl1); free(gl2); free(nl1); free(nl2);
  for (int k = 0; k < K; k++) { free_i_mat(N1[k], n1); free_i_mat(G1[k], n1); free_i_mat(N2[k], n2); free_i_mat(G2[k], n2); }
  FreeFastLog(LL); FreeFastLogChoose(LC, LCS); FreeFastLogFact(LF);
  gsl_rng_free(gen); RemoveBipart(B);
}
#define A &H, nl1, nl2, gl1, gl2, p1, p2, n1, n2, &ng1, &ng2
#define A2 A, N1[0], N2[0], N1[1], N2[1], G1[0], G2[0], G1[1], G2[1], LL, LS, LC, LCS, LF, LFS, gen
#define AK A, N1, N2, G1, G2, LL, LS, LF, LFS, gen
static void step(int kind, char op, int f)
{
  if (kind == '2') switch (op) {
    case 'm': MCStep2State(f, A2); break;
    case 'd': ESTIMATE(GetDecorrelationStep2State(A2, v_), v_); break;
    case 't': ThermalizeMC2State(f, A2, VERB); break;
  } else switch (op) {
    case 'm': MCStepKState(K, f, AK); break;
    case 'd': ESTIMATE(GetDecorrelationStepKState(K, AK, v_), v_); break;
    case 't': ThermalizeMCKState(K, f, AK, VERB); break;
    case 'g': GibbsStepKState(K, AK); break;
    case 'T': GibbsThermalizeKState(K, AK, VERB); break;
  }
}
static void o_rect(const char *k, int **m[], int a, int b)
{
  o_k(k); o_open('[');
  for (int x = 0; x < K; x++) {
    o_open('[');
    for (int i = 0; i < a; i++) { o_open('['); for (int j = 0; j < b; j++) o_i(m[x][i][j]); o_close(']'); }
    o_close(']');
  }
  o_close(']');
}
static void o_groups(const char *k, struct group **gl, int n)
{
  o_k(k); o_open('[');
  for (int i = 0; i < n; i++) {
    o_open('['); o_i(gl[i]->size);
    struct node_lis *p = gl[i]->nodeList;
    while ((p = p->next) != NULL) o_i(p->node);
    o_close(']');
  }
  o_close(']');
}
static void dump_state(int kind)
{
  o_open('{');
  o_kd("H", H); o_kd("H0", scratch_H(kind)); o_ki("ng1", ng1); o_ki("ng2", ng2); o_ki("decor", decor);
  dump_ingroup("in1", B->net1); dump_ingroup("in2", B->net2);
  o_groups("g1", gl1, n1); o_groups("g2", gl2, n2);
  o_rect("N1", N1, n1, n2); o_rect("N2", N2, n2, n1); o_rect("G1", G1, n1, n2); o_rect("G2", G2, n2, n1);
  o_close('}');
}
static void c_steps(void)
{
  int kind = *tok(); begin(kind);
  int N = ri();
  o_k("states"); o_open('[');
  dump_state(kind);
  for (int i = 0; i < N; i++) { char op = *tok(); int f = ri(); step(kind, op, f); dump_state(kind); }
  o_close(']');
  o_estimates();
  dump_bip("net", B);
  end();
}
static void c_hist(void)
{
  int kind = *tok(); begin(kind);
  char op = *tok(); int f = ri(); long burn = ri(), N = ri();
  hist_clear();
  for (long i = 0; i < burn; i++) step(kind, op, f);
  for (long i = 0; i < N; i++) {
    int mem[64]; char buf[140]; struct node_gra *p; int n;
    step(kind, op, f);
    for (n = 0, p = B->net1; (p = p->next) != NULL; ) mem[n++] = p->inGroup;
    hist_canon(buf, mem, n); buf[n] = '|';
    int o = n + 1;
    for (n = 0, p = B->net2; (p = p->next) != NULL; ) mem[n++] = p->inGroup;
    hist_canon(buf + o, mem, n);
    hist_add_key(buf);
  }
  hist_dump("hist"); hist_clear();
  end();
}
static void dump_query(struct query *q, struct binet *b)
{
  struct node_gra *p; int i, x = -1, y = -1;
  for (i = 0, p = b->net1; (p = p->next) != NULL; i++) if (p == q->n1) x = i;
  for (i = 0, p = b->net2; (p = p->next) != NULL; i++) if (p == q->n2) y = i;
  o_open('['); o_i(x); o_i(y); o_d(q->score); o_close(']');
}
static void dump_queries(const char *k, struct query **q, int n, struct binet *b)
{
  o_k(k); o_open('[');
  for (int i = 0; i < n; i++) dump_query(q[i], b);
  o_close(']');
}
static struct query **read_q(struct binet *b, int *n)
{
  int a, c; struct node_gra **x = net_nodes(b->net1, &a), **y = net_nodes(b->net2, &c);
  *n = ri();
  struct query **q = malloc((*n + 1) * sizeof *q);
  for (int i = 0; i < *n; i++) { int u = ri(), v = ri(); q[i] = CreateQuery(x[u], y[v]); }
  free(x); free(y);
  return q;
}
static void free_q(struct query **q, int n) { for (int i = 0; i < n; i++) FreeQuery(q[i]); free(q); }
static void c_score(void)
{
  int kind = *tok(), k = ri(); struct binet *b = read_bip();
  int nq; struct query **q = read_q(b, &nq);
  int N = ri(); gsl_rng *g = new_rng(ri()); char v = *tok(); int d = ri();
  if (kind == '2') {
    double *s = MultiLinkScore2State(b, q, nq, N, g, v, d);
    o_k("s"); o_open('['); for (int i = 0; i < nq; i++) o_d(s[i]); o_close(']');
    free_d_vec(s);
  } else {
    double **s = kind == 'k' ? MultiLinkScoreKState(k, b, q, nq, N, g, v, d) : GibbsMultiLinkScoreKState(k, b, q, nq, N, g, v);
    o_dmat("s", s, k, nq);
    free_d_mat(s, k);
  }
  dump_queries("q", q, nq, b);
  dump_bip("net", b);
  free_q(q, nq); gsl_rng_free(g); RemoveBipart(b);
}
static void c_conflict(void)
{
  struct binet *b = read_bip();
  int N = ri(); gsl_rng *g = new_rng(ri()); char v = *tok(); int d = ri();
  int n = CountNodes(b->net1) * CountNodes(b->net2);
  struct query **q = AllLinkScore2State(b, N, g, v, d);
  dump_queries("q", q, n, b);
  dump_bip("net", b);
  free_q(q, n); gsl_rng_free(g); RemoveBipart(b);
}
static void c_files(void)
{
  long n; char *t = rs_len(&n);
  FILE *f = in_stream(t, n);
  struct binet *b = ReadRecommenderObservations(f);
  fclose(f); free(t);
  dump_bip("read", b);
  t = rs_len(&n); int nq = ri();
  if (!b) { free(t); for (n = ri(); n > 0; n--) ri(); return; }
  f = in_stream(t, n);
  struct query **q = ReadQueries(f, nq, b);
  fclose(f); free(t);
  dump_bip("net", b);
  if (!q) { o_k("q"); o_s(NULL); for (n = ri(); n > 0; n--) ri(); RemoveBipart(b); return; }
  dump_queries("q", q, nq, b);
  free_q(q, nq);
  int nr = ri();
  o_k("un"); o_open('[');
  for (int i = 0; i <= nr; i++) {
    o_open('{');
    int un = CountUnobserved(b);
    o_ki("n", un);
    q = BuildUnobservedSet(b);
    dump_queries("set", q, un, b);
    free_q(q, un);
    dump_bip("net", b);
    o_close('}');
    if (i < nr) RemoveRatings(b, ri());
  }
  o_close(']');
  RemoveBipart(b);
}
struct cmd commands[] = { {"steps", c_steps}, {"hist", c_hist}, {"score", c_score}, {"conflict", c_conflict}, {"files", c_files}, {NULL, NULL} };
