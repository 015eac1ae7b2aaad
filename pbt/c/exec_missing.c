/* Block-model samplers and estimators of missing.c and sparse_missing.c. */
#include "pbt_sbm.h"
#include "src/missing.h"
#include "src/sparse_missing.h"

static struct sbm S;
static double linC, bA, bB, H;
static int LCS, LFS, LGS;
static double **LC, *LF, *GA, *GB, *GAB;
static int decor;
static double scratch_H(char kind) { return kind == 's' ? SparsePartitionH(S.part, bA, bB) : PartitionH(S.part, linC); }
static void step(char kind, int factor)
{
  switch (kind) {
  case 'm': LinkScoreMCStep(factor, &H, linC, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, LC, LCS, LF, LFS, S.gen); break;
  case 'g': GibbsLinkScoreStep(&H, linC, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, LC, LCS, LF, LFS, S.gen); break;
  case 's': SparseGibbsLinkScoreStep(&H, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, GA, GB, GAB, LGS, LF, LFS, bA, bB, S.gen); break;
  case 'd': ESTIMATE(GetDecorrelationStep(&H, linC, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, LC, LCS, LF, LFS, S.gen, v_), v_); break;
  case 't': ThermalizeLinkScoreMC(factor, &H, linC, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, LC, LCS, LF, LFS, S.gen, VERB); break;
  case 'T': GibbsThermalizeLinkScore(&H, linC, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, LC, LCS, LF, LFS, S.gen, VERB); break;
  case 'U': SparseGibbsThermalizeLinkScore(&H, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, GA, GB, GAB, LGS, LF, LFS, bA, bB, S.gen, VERB); break;
  }
}
static void begin(char kind)
{
  S = read_sbm();
  linC = rd(); bA = rd(); bB = rd();
  LCS = ri(); LFS = ri(); LGS = ri();
  LC = InitializeFastLogChoose(LCS); LF = InitializeFastLogFact(LFS);
  GA = InitializeFastLogGamma(LGS, bA); GB = InitializeFastLogGamma(LGS, bB); GAB = InitializeFastLogGamma(LGS, bA + bB);
  H = scratch_H(kind); decor = 0;
}
static void end(void)
{
  FreeFastLogChoose(LC, LCS); FreeFastLogFact(LF); FreeFastLogGamma(GA); FreeFastLogGamma(GB); FreeFastLogGamma(GAB);
  free_sbm(&S);
}
/* steps family(m/s) <state> linC bA bB LCS LFS LGS N (op factor)*N */
static void c_steps(void)
{
  char fam = *tok();
  begin(fam);
  int N = ri();
  o_k("states"); o_open('[');
  dump_sbm(&S, H, scratch_H(fam));
  for (int i = 0; i < N; i++) { char op = *tok(); int f = ri(); step(op, f); dump_sbm(&S, H, scratch_H(fam)); }
  o_close(']');
  dump_net("net", S.net);
  end();
}
/* hist op factor burn nIter: histogram of the partitions visited */
static void c_hist(void)
{
  char fam = *tok();
  begin(fam);
  char op = *tok(); int f = ri(); long burn = ri(), N = ri();
  hist_clear();
  for (long i = 0; i < burn; i++) step(op, f);
  for (long i = 0; i < N; i++) { step(op, f); hist_add_net(S.net); }
  hist_dump("hist");
  o_kd("H", H); o_kd("H0", scratch_H(fam));
  hist_clear();
  end();
}
/* decor <state> ...: the decorrelation step */
static void c_decor(void)
{
  begin('m'); step('d', 1);
  o_ki("decor", decor); o_estimates(); o_k("state"); dump_sbm(&S, H, scratch_H('m'));
  end();
}
/* ---- several-valued links ---- */
static int K, ng, ***N2G, ***GK;
static void dump_k(void)
{
  o_open('{');
  o_kd("H", H); o_kd("H0", LSHKState(K, S.part)); o_ki("ng", ng);
  dump_ingroup("in", S.net);
  o_k("G"); o_open('[');
  for (int k = 0; k < K; k++) { o_open('['); for (int i = 0; i < S.n; i++) { o_open('['); for (int j = 0; j < S.n; j++) o_i(GK[k][i][j]); o_close(']'); } o_close(']'); }
  o_close(']');
  o_k("N"); o_open('[');
  for (int k = 0; k < K; k++) { o_open('['); for (int i = 0; i < S.n; i++) { o_open('['); for (int j = 0; j < S.n; j++) o_i(N2G[k][i][j]); o_close(']'); } o_close(']'); }
  o_close(']');
  o_k("size"); o_open('['); for (int i = 0; i < S.n; i++) o_i(S.glist[i]->size); o_close(']');
  o_close('}');
}
static void begin_k(void)
{
  decor = 0;
  S = read_sbm();
  K = ri(); LFS = ri();
  LF = InitializeFastLogFact(LFS);
  N2G = malloc(K * sizeof *N2G); GK = malloc(K * sizeof *GK);
  for (int k = 0; k < K; k++) {
    N2G[k] = allocate_i_mat(S.n, S.n); GK[k] = allocate_i_mat(S.n, S.n);
    for (int i = 0; i < S.n; i++) for (int j = 0; j < S.n; j++) {
      GK[k][i][j] = 0;
      N2G[k][i][j] = NWeightLinksToGroup(S.nlist[i], S.glist[j], (double)k);
    }
    for (int u = 0; u < S.n; u++) {
      struct node_lis *q = S.nlist[u]->neig;
      while ((q = q->next) != NULL) if (q->node > u && q->weight == (double)k) {
        int a = S.nlist[u]->inGroup, b = q->ref->inGroup;
        GK[k][a][b]++; if (a != b) GK[k][b][a]++;
      }
    }
  }
  ng = NNonEmptyGroups(S.part);
  H = LSHKState(K, S.part);
}
static void step_k(char op, int f)
{
  if (op == 'm') LSMCStepKState(K, f, &H, S.nlist, S.glist, S.part, S.n, &ng, &N2G, &GK, NULL, 0, LF, LFS, S.gen);
  else if (op == 't') LSThermalizeMCKState(K, f, &H, S.nlist, S.glist, S.part, S.n, &ng, &N2G, &GK, NULL, 0, LF, LFS, S.gen, VERB);
  else ESTIMATE(LSGetDecorrelationStepKState(K, &H, S.nlist, S.glist, S.part, S.n, &ng, &N2G, &GK, NULL, 0, LF, LFS, S.gen, v_), v_);
}
static void end_k(void)
{
  for (int k = 0; k < K; k++) { free_i_mat(N2G[k], S.n); free_i_mat(GK[k], S.n); }
  free(N2G); free(GK); FreeFastLogFact(LF); free_sbm(&S);
}
static void c_ksteps(void)
{
  begin_k();
  int N = ri();
  o_k("states"); o_open('['); dump_k();
  for (int i = 0; i < N; i++) { char op = *tok(); int f = ri(); step_k(op, f); dump_k(); }
  o_close(']');
  o_ki("decor", decor); o_estimates();
  dump_net("net", S.net);
  end_k();
}
static void c_khist(void)
{
  begin_k();
  int f = ri(); long burn = ri(), N = ri();
  hist_clear();
  for (long i = 0; i < burn; i++) step_k('m', f);
  for (long i = 0; i < N; i++) { step_k('m', f); hist_add_net(S.net); }
  hist_dump("hist"); hist_clear();
  o_kd("H", H); o_kd("H0", LSHKState(K, S.part));
  end_k();
}
/* ---- estimators ---- */
static void c_score(void)
{
  char kind = *tok();
  struct node_gra *net = read_net();
  double lc = rd(); int N = ri(); gsl_rng *g = new_rng(ri()); char v = *tok();
  int n = CountNodes(net);
  double **p = kind == 'm' ? LinkScore(net, lc, N, g, v) : kind == 'g' ? GibbsLinkScore(net, lc, N, g, v) : SparseGibbsLinkScore(net, N, g, v);
  o_dmat("p", p, n, n);
  free_d_mat(p, n);
  dump_net("net", net);
  gsl_rng_free(g); RemoveGraph(net);
}
static void c_kscore(void)
{
  int K = ri();
  struct node_gra *net = read_net();
  int N = ri(), dec = ri(); gsl_rng *g = new_rng(ri()); char v = *tok();
  struct query **q; int nq;
  double **p = LSMultiLinkScoreKState(K, net, N, g, v, dec, &q, &nq);
  o_k("q"); o_open('[');
  for (int i = 0; i < nq; i++) { o_open('['); o_i(q[i]->n1->num); o_i(q[i]->n2->num); o_close(']'); FreeQuery(q[i]); }
  o_close(']');
  o_dmat("p", p, K, nq);
  free(q); free_d_mat(p, K);
  dump_net("net", net);
  gsl_rng_free(g); RemoveGraph(net);
}
static void c_netscore(void)
{
  struct node_gra *tar = read_net(), *obs = read_net();
  double lc = rd(); int N = ri(); gsl_rng *g = new_rng(ri());
  o_kd("r", NetworkScore(tar, obs, lc, N, g, VERB));
  dump_net("tar", tar); dump_net("obs", obs);
  gsl_rng_free(g); RemoveGraph(tar); RemoveGraph(obs);
}
static void c_psample(void)
{
  struct node_gra *net = read_net();
  double lc = rd(); int N = ri(); gsl_rng *g = new_rng(ri()); int burn = ri(); double thin = rd(); int full = ri();
  struct group **pl = PartitionSampling(net, lc, N, g, VERB, burn, thin);
  int n; struct node_gra **l = net_nodes(net, &n);
  hist_clear();
  int bad = 0;
  if (full) { o_k("parts"); o_open('['); }
  for (int i = 0; i < N; i++) {
    int mem[64]; char buf[70];
    for (int j = 0; j < 64; j++) mem[j] = -1;
    struct group *gr = pl[i];
    if (full) o_open('[');
    int gi = 0;
    while ((gr = gr->next) != NULL) {
      int c = 0;
      struct node_lis *p = gr->nodeList;
      while ((p = p->next) != NULL) {
        c++;
        if (p->node < 0 || p->node >= n || strcmp(p->nodeLabel, l[p->node]->label) || mem[p->node] != -1) bad++;
        else mem[p->node] = gi;
      }
      if (c != gr->size) bad++;
      gi++;
    }
    for (int j = 0; j < n; j++) if (mem[j] < 0) bad++;
    if (full) { for (int j = 0; j < n; j++) o_i(mem[j]); o_close(']'); }
    hist_canon(buf, mem, n); hist_add_key(buf);
    RemovePartition(pl[i]);
  }
  if (full) o_close(']');
  o_ki("bad", bad);
  hist_dump("hist"); hist_clear();
  dump_net("net", net);
  free(pl); free(l); gsl_rng_free(g); RemoveGraph(net);
}
static void c_recon(void)
{
  char kind = *tok();
  struct node_gra *net = read_net(); gsl_rng *g = new_rng(ri());
  struct node_gra *r = kind == 'r' ? NetReconstruct(net, g) : NetFromSBMScores(net, g);
  dump_net("res", r); dump_net("net", net);
  RemoveGraph(r); gsl_rng_free(g); RemoveGraph(net);
}
static void c_err(void)
{
  char kind = *tok();
  struct node_gra *net = read_net(); gsl_rng *g = new_rng(ri());
  o_kd("r", kind == 'e' ? SBMError(net, g) : SBMStructureScore(net, ri(), g));
  dump_net("net", net);
  gsl_rng_free(g); RemoveGraph(net);
}
static void c_decay(void)
{
  int n = ri(); double x1 = rd(), y1 = rd(), x2 = rd(), y2 = rd();
  o_kd("r", CalculateDecay(n, x1, y1, x2, y2));
}
struct cmd commands[] = { {"steps", c_steps}, {"hist", c_hist}, {"decor", c_decor}, {"ksteps", c_ksteps}, {"khist", c_khist},
  {"score", c_score}, {"kscore", c_kscore}, {"netscore", c_netscore}, {"psample", c_psample}, {"recon", c_recon},
  {"err", c_err}, {"decay", c_decay}, {NULL, NULL} };
