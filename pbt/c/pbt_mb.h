/* Shared by exec_mb and exec_od: the estimators of overlapping layers. Needs the functions below to be defined by the includer. */
static struct sbm S;
static double linC, H;
static int LCS, LFS, decor;
static double **LC, *LF, *HL;
static double scratch_H(char fam);
static void step(char op, int factor);
static double **score(char kind, struct node_gra *net, double lc, int N, gsl_rng *g, char v);

static void begin(char fam)
{
  decor = 0; S = read_sbm();
  linC = rd(); LCS = ri(); LFS = ri();
  LC = InitializeFastLogChoose(LCS); LF = InitializeFastLogFact(LFS);
  HL = InitializeHarmonicList(S.n * S.n + 5);
  H = scratch_H(fam);
}
static void end(void)
{
  FreeFastLogChoose(LC, LCS); FreeFastLogFact(LF); FreeHarmonicList(HL); free_sbm(&S);
}
static void c_steps(void)
{
  char fam = *tok();
  begin(fam);
  int N = ri();
  o_k("states"); o_open('[');
  dump_sbm(&S, H, scratch_H(fam));
  for (int i = 0; i < N; i++) { char op = *tok(); int f = ri(); step(op, f); dump_sbm(&S, H, scratch_H(fam)); }
  o_close(']');
  o_ki("decor", decor); o_estimates();
  dump_net("net", S.net);
  end();
}
static void c_hist(void)
{
  char fam = *tok();
  begin(fam);
  char op = *tok(); int f = ri(); long burn = ri(), N = ri();
  hist_clear();
  for (long i = 0; i < burn; i++) step(op, f);
  for (long i = 0; i < N; i++) { step(op, f); hist_add_net(S.net); }
  hist_dump("hist"); hist_clear();
  o_kd("H", H); o_kd("H0", scratch_H(fam));
  end();
}
static void c_score(void)
{
  char kind = *tok();
  struct node_gra *net = read_net();
  double lc = rd(); int N = ri(); gsl_rng *g = new_rng(ri()); char v = *tok();
  int n = CountNodes(net);
  double **p = score(kind, net, lc, N, g, v);
  o_dmat("p", p, n, n);
  free_d_mat(p, n);
  dump_net("net", net);
  gsl_rng_free(g); RemoveGraph(net);
}
