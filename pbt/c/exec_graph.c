#include "pbt_net.h"
#include "src/models.h"
#include "src/matrix.h"
#include "src/datastruct.h"

/* ---- files ---- */
static void c_fbuild(void)
{
  long n; char *data = rs_len(&n);
  int w = ri(), a = ri(), add = ri(), sym = ri();
  FILE *f = in_stream(data, n);
  struct node_gra *net = FBuildNetwork(f, w, a, add, sym);
  fclose(f);
  dump_net("net", net);
  if (net) {
    int nn; struct node_gra **l = net_nodes(net, &nn);
    void *dict = MakeLabelDict(net);
    o_ki("count", CountNodes(net));
    o_ki("links_dir", TotalNLinks(net, 0));
    o_ki("links_sym", TotalNLinks(net, 1));
    o_k("deg"); o_open('['); for (int i = 0; i < nn; i++) o_i(NodeDegree(l[i])); o_close(']');
    o_k("str"); o_open('['); for (int i = 0; i < nn; i++) o_d(NodeStrength(l[i])); o_close(']');
    /* lookups: by label, by number, links */
    int bad = 0;
    for (int i = 0; i < nn; i++) {
      if (GetNodeDict(l[i]->label, dict) != l[i]) bad |= 1;
      if (GetNode(i, net) != l[i]) bad |= 2;
    }
    if (GetNodeDict("no such label#", dict) != NULL) bad |= 4;
    o_ki("badlookup", bad);
    o_k("links"); o_open('[');
    int mx = nn < 12 ? nn : 12;
    for (int i = 0; i < mx; i++) for (int j = 0; j < mx; j++) {
      int x = IsThereLink(l[i], l[j]), y = IsThereLinkSoft(l[i], j);
      o_open('['); o_i(i); o_i(j); o_i(x); o_i(y);
      if (x == 1) { struct node_lis *k = GetLink(l[i], j); o_d(k->weight); o_i(k->ref == l[j]); }
      o_close(']');
    }
    o_close(']');
    int t = 0;
    for (int i = 0; i < nn; i++) {
      char *lab = strdup(l[i]->label);       /* same text, other storage */
      if (IsThereNode(lab, net) != 1) t |= 1;
      free(lab);
    }
    if (IsThereNode("no such label#", net) != 0) t |= 2;
    o_ki("badisthere", t);
    FreeLabelDict(dict);
    free(l);
    RemoveGraph(net);
  }
  free(data);
}

static void c_print(void)
{
  struct node_gra *net = read_net();
  int w = ri(), sym = ri();
  FILE *f = out_stream();
  FPrintNetAdjacencyList(f, net, w, sym);
  o_ktext("adj", f);
  f = out_stream(); FPrintDegrees(f, net); o_ktext("deg", f);
  int coor = ri();
  int n; struct node_gra **l = net_nodes(net, &n);
  for (int i = 0; i < n; i++) { l[i]->coorX = i * 0.5; l[i]->coorY = i * i * 0.25; l[i]->coorZ = -i; }
  FPrintPajekFile("pajek.net", net, coor, w, sym);
  long len; char *b = slurp("pajek.net", &len);
  o_k("pajek"); o_sn(b, len); free(b); unlink("pajek.net");
  free(l);
  RemoveGraph(net);
}

/* attributes of all nodes */
static void dump_attr(const char *k, struct node_gra *net)
{
  int n; struct node_gra **l = net_nodes(net, &n);
  o_k(k); o_open('[');
  for (int i = 0; i < n; i++) {
    o_open('['); o_d(l[i]->coorX); o_d(l[i]->coorY); o_d(l[i]->coorZ); o_i(l[i]->state); o_i(l[i]->ivar1);
    o_i(l[i]->inGroup); o_d(l[i]->dvar1); o_i(NodeDegree(l[i])); o_d(NodeStrength(l[i])); o_close(']');
  }
  o_close(']');
  free(l);
}
static void c_copy(void)
{
  struct node_gra *net = read_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  for (int i = 0; i < n; i++) {
    l[i]->coorX = rd(); l[i]->coorY = rd(); l[i]->coorZ = rd();
    l[i]->state = ri(); l[i]->ivar1 = ri(); l[i]->inGroup = ri(); l[i]->dvar1 = rd();
  }
  int warm = ri();                       /* fill the degree/strength caches of the original first */
  if (warm) for (int i = 0; i < n; i++) { NodeDegree(l[i]); NodeStrength(l[i]); }
  struct node_gra *c = CopyNetwork(net);
  dump_net("copy", c); dump_attr("cattr", c); dump_attr("oattr", net);
  /* mutate the copy: drop its links, add a node; then look at the original, then free the copy */
  int cn; struct node_gra **cl = net_nodes(c, &cn);
  for (int i = 0; i < cn; i++) {
    cl[i]->coorX = 1234.; cl[i]->inGroup = 77; cl[i]->label[0] = '#';
    while (cl[i]->neig->next) RemoveLink(cl[i], cl[i]->neig->next->ref, 0);
  }
  CreateNodeGraph(c, "extra");
  free(cl);
  dump_net("orig1", net);
  RemoveGraph(c);
  dump_net("orig2", net); dump_attr("oattr2", net);
  c = CopyNetwork(net);
  RemoveGraph(net);
  dump_net("copy2", c);
  RemoveGraph(c);
  free(l);
}

/* ---- stateful editing: n labels, nops, ops; after each op a compact state ---- */
static void c_edit(void)
{
  struct node_gra *net = CreateHeaderGraph();
  int n0 = ri();
  for (int i = 0; i < n0; i++) { char *s = rs(); CreateNodeGraph(net, s); free(s); }
  int nops = ri();
  o_k("states"); o_open('[');
  for (int k = 0; k < nops; k++) {
    char op = *tok();
    long ret = 0; double dret = 0;
    int n; struct node_gra **l = net_nodes(net, &n);
    switch (op) {
    case 'N': { char *s = rs(); CreateNodeGraph(net, s); free(s); break; }
    case 'A': { int u = ri(), v = ri(), au = ri(), add = ri(); double w = rd(); ret = AddAdjacency(l[u], l[v], au, add, w, 0); break; }
    case 'R': { int u = ri(), v = ri(), sym = ri(); RemoveLink(l[u], l[v], sym); break; }
    case 'I': ret = RemoveIsolatedNodes(net); break;
    case 'C': CleanAdjacencies(net); break;
    case 'L': RewireAdjacencyByLabel(net); break;
    case 'M': RewireAdjacencyByNum(net); break;
    case 'S': { int u = ri(), v = ri(), au = ri(), add = ri(); double w = rd(); ret = AddAdjacencySoft(l[u], l[v]->label, au, add, w, 0);
                RewireAdjacencyByLabel(net); break; }
    case 'G': { struct node_gra *c = CopyNetwork(net); RemoveGraph(net); net = c; break; }
    case 'D': { int u = ri(); ret = NodeDegree(l[u]); dret = NodeStrength(l[u]); break; }
    case 'T': { int sym = ri(); ret = TotalNLinks(net, sym); break; }
    case 'X': { /* drop a node from the list (it must be isolated in the model after CleanAdjacencies) */
                int u = ri(); struct node_gra *prev = u ? l[u - 1] : net; prev->next = l[u]->next; FreeNode(l[u]);
                CleanAdjacencies(net); RewireAdjacencyByLabel(net); RenumberNodes(net); break; }
    }
    free(l);
    o_open('{'); o_ki("ret", ret); o_kd("dret", dret);
    int full = ri();
    if (full) {
      l = net_nodes(net, &n);
      dump_net("net", net);
      if (full > 1) {
        o_k("deg"); o_open('['); for (int i = 0; i < n; i++) o_i(NodeDegree(l[i])); o_close(']');
        o_k("str"); o_open('['); for (int i = 0; i < n; i++) o_d(NodeStrength(l[i])); o_close(']');
        o_ki("tot", TotalNLinks(net, 0));
      }
      free(l);
    }
    o_close('}');
  }
  o_close(']');
  RemoveGraph(net);
}

/* ---- statistics ---- */
static void c_stats(void)
{
  struct node_gra *net = read_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  int sq = ri();
  o_ki("count", CountNodes(net)); o_ki("links0", TotalNLinks(net, 0)); o_ki("links1", TotalNLinks(net, 1));
  o_kd("avdeg0", AverageDegree(net, 0)); o_kd("avdeg1", AverageDegree(net, 1));
  o_kd("avdeg2", AverageSquaredDegree(net));
  o_kd("cc", ClusteringCoefficient(net)); o_kd("cc2", ClusteringCoefficient2(net));
  o_kd("assort", Assortativity(net));
  if (sq) o_kd("square", SquareClustering(net));
  o_k("deg"); o_open('['); for (int i = 0; i < n; i++) o_i(NodeDegree(l[i])); o_close(']');
  o_k("str"); o_open('['); for (int i = 0; i < n; i++) o_d(NodeStrength(l[i])); o_close(']');
  o_k("cc1"); o_open('['); for (int i = 0; i < n; i++) o_d(OneNodeClusteringCoefficient(l[i], net)); o_close(']');
  o_k("sq1"); o_open('['); for (int i = 0; i < n; i++) o_d(OneNodeSquareClustering(l[i], net)); o_close(']');
  o_k("knn"); o_open('['); for (int i = 0; i < n; i++) o_d(CalculateKnn(l[i])); o_close(']');
  int np = ri();
  o_k("pairs"); o_open('[');
  for (int k = 0; k < np; k++) {
    int u = ri(), v = ri();
    o_open('['); o_i(CommonNeighbors(l[u], l[v])); o_d(JaccardIndex(l[u], l[v])); o_d(TopologicalOverlap(l[u], l[v])); o_close(']');
  }
  o_close(']');
  dump_net("after", net);
  free(l); RemoveGraph(net);
}

static void c_dist(void)
{
  struct node_gra *net = read_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  o_kd("apl", AveragePathLength(net)); o_kd("aid", AverageInverseDistance(net));
  FILE *f = out_stream(); FPrintDistanceHistogram(f, net); o_ktext("hist", f);
  int from = ri();
  f = out_stream(); FPrintDistanceHistogramFromNode(f, net, from); o_ktext("histfrom", f);
  dump_net("after", net);
  free(l); RemoveGraph(net);
}
static void c_betw(void)
{
  struct node_gra *net = read_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  int links = ri();
  CalculateNodeBetweenness(net);
  o_k("node"); o_open('['); for (int i = 0; i < n; i++) o_d(l[i]->dvar1); o_close(']');
  double a, b, c, d; NodeBetweennessStatistics(net, &a, &b, &c, &d);
  o_k("stats"); o_open('['); o_d(a); o_d(b); o_d(c); o_d(d); o_close(']');
  if (links) {
    CalculateLinkBetweenness(net);
    dump_net("link", net);
    int n1 = -1, n2 = -1;
    CalculateBiggestLinkBetweenness(net, &n1, &n2);
    o_ki("n1", n1); o_ki("n2", n2);
    dump_net("link2", net);
  }
  free(l); RemoveGraph(net);
}
static void c_comp(void)
{
  struct node_gra *net = read_net();
  int thres = ri(), directed = ri();
  int n; struct node_gra **l = net_nodes(net, &n);
  if (!directed) o_ki("connected", IsGraphConnected(net));
  o_ki("count", CountStronglyConnectedSets(net));
  struct node_gra *g = GetLargestStronglyConnectedSet(net, thres); dump_net("giant", g); RemoveGraph(g);
  g = GetLargestWeaklyConnectedSet(net, thres); dump_net("wgiant", g); RemoveGraph(g);
  struct node_gra **list = calloc(n + 1, sizeof *list);
  int k = GetAllConnectedSets(net, list);
  o_ki("nall", k);
  o_k("all"); o_open('[');
  for (int i = 0; i < k; i++) { o_open('{'); dump_net("net", list[i]); o_close('}'); RemoveGraph(list[i]); }
  o_close(']');
  free(list);
  int np = ri();
  o_k("acl"); o_open('[');
  for (int i = 0; i < np; i++) {
    int u = ri(); int *cl = calloc(n, sizeof *cl);
    for (int j = 0; j < n; j++) cl[j] = ri();
    o_i(AreConnectedList(net, l[u], cl)); free(cl);
  }
  o_close(']');
  dump_net("after", net);
  free(l); RemoveGraph(net);
}
static void c_compare(void)
{
  struct node_gra *a = read_net(), *b = read_net();
  int i[6]; double d[4];
  CompareTwoNetworks(a, b, &i[0], &i[1], &i[2], &d[0], &d[1], &i[3], &i[4], &i[5], &d[2], &d[3]);
  o_k("i"); o_open('['); for (int k = 0; k < 6; k++) o_i(i[k]); o_close(']');
  o_k("d"); o_open('['); for (int k = 0; k < 4; k++) o_d(d[k]); o_close(']');
  struct node_gra *s = AddTwoNetworks(a, b);
  dump_net("sum", s);
  dump_net("a", a); dump_net("b", b);
  RemoveGraph(a); RemoveGraph(b);
  dump_net("sum2", s);
  RemoveGraph(s);
}
static void c_randomize(void)
{
  struct node_gra *net = read_net();
  double times = rd(); unsigned long seed = ri(); int warm = ri();
  int n; struct node_gra **l = net_nodes(net, &n);
  if (warm) for (int i = 0; i < n; i++) { NodeDegree(l[i]); NodeStrength(l[i]); }
  gsl_rng *g = new_rng(seed);
  struct node_gra *r = RandomizeSymmetricNetwork(net, times, g);
  dump_net("net", r);
  free(l);
  l = net_nodes(r, &n);
  o_k("deg"); o_open('['); for (int i = 0; i < n; i++) o_i(NodeDegree(l[i])); o_close(']');
  free(l); gsl_rng_free(g);
  RemoveGraph(r);
}
/* many randomisations of one small network (n<=8): the set of resulting link sets as 64-bit keys */
static void c_randmany(void)
{
  struct node_gra *net = read_net();
  double times = rd(); unsigned long seed = ri(); int reps = ri();
  gsl_rng *g = new_rng(seed);
  unsigned long *seen = malloc(4096 * sizeof *seen); int ns = 0;
  for (int i = 0; i < reps; i++) {
    struct node_gra *c = RandomizeSymmetricNetwork(CopyNetwork(net), times, g), *p = c;
    unsigned long key = 0;
    while ((p = p->next) != NULL) { struct node_lis *q = p->neig; while ((q = q->next) != NULL) key |= 1ul << (p->num * 8 + q->ref->num); }
    RemoveGraph(c);
    int j; for (j = 0; j < ns; j++) if (seen[j] == key) break;
    if (j == ns && ns < 4096) seen[ns++] = key;
  }
  o_k("keys"); o_open('['); for (int i = 0; i < ns; i++) { o_sep(); fprintf(resp, "\"%lu\"", seen[i]); } o_close(']');
  free(seen); gsl_rng_free(g); RemoveGraph(net);
}
static void c_randlinks(void)
{
  struct node_gra *net = read_net();
  int add = ri(), k = ri(), sym = ri(), reps = ri(); unsigned long seed = ri(); int warm = ri();
  gsl_rng *g = new_rng(seed);
  o_k("nets"); o_open('[');
  for (int i = 0; i < reps; i++) {
    struct node_gra *c = CopyNetwork(net);
    int n; struct node_gra **l = net_nodes(c, &n);
    if (warm) for (int j = 0; j < n; j++) { NodeDegree(l[j]); NodeStrength(l[j]); }
    if (add) AddRandomLinks(c, k, sym, g); else RemoveRandomLinks(c, k, sym, g);
    o_open('{'); dump_net("net", c); o_ki("tot", TotalNLinks(c, sym));
    o_k("deg"); o_open('['); for (int j = 0; j < n; j++) o_i(NodeDegree(l[j])); o_close(']');
    o_close('}');
    free(l); RemoveGraph(c);
  }
  o_close(']');
  gsl_rng_free(g); RemoveGraph(net);
}
static void c_model(void)
{
  char kind = *tok();
  unsigned long seed = ri();
  gsl_rng *g = new_rng(seed);
  struct node_gra *net = NULL;
  if (kind == 'E') { int S = ri(); net = EmptyGraph(S); }
  else if (kind == 'R') { int S = ri(); double p = rd(); net = ERGraph(S, p, g); }
  else if (kind == 'P') { int S = ri(), m = ri(); net = PAGraph(S, m, g); }
  else if (kind == 'B') {
    int k = ri(); int *gs = malloc(k * sizeof(int)); double **q = malloc(k * sizeof *q);
    for (int i = 0; i < k; i++) gs[i] = ri();
    for (int i = 0; i < k; i++) { q[i] = malloc(k * sizeof(double)); for (int j = 0; j < k; j++) q[i][j] = rd(); }
    net = UndirectedBlockGraph(k, gs, q, VERB, g);
    for (int i = 0; i < k; i++) free(q[i]);
    free(q); free(gs);
  } else if (kind == 'G') {
    int k = ri(), gs = ri(); double kin = rd(), kout = rd();
    net = GirvanNewmanGraph(k, gs, kin, kout, VERB, g);
  }
  dump_net("net", net);
  RemoveGraph(net); gsl_rng_free(g);
}
/* repeated model generation: counts of each link over reps seeds */
static void c_modelstat(void)
{
  char kind = *tok();
  unsigned long seed = ri(); int reps = ri();
  int S = 0, k = 0, gsz = 0; double p = 0, kin = 0, kout = 0; int m = 0;
  int gs[16]; double *q[16];
  if (kind == 'R') { S = ri(); p = rd(); }
  else if (kind == 'P') { S = ri(); m = ri(); }
  else if (kind == 'B') { k = ri(); for (int i = 0; i < k; i++) S += gs[i] = ri();
    for (int i = 0; i < k; i++) { q[i] = malloc(k * sizeof(double)); for (int j = 0; j < k; j++) q[i][j] = rd(); } }
  else if (kind == 'G') { k = ri(); gsz = ri(); kin = rd(); kout = rd(); S = k * gsz; }
  long *cnt = calloc(S * S, sizeof *cnt);
  gsl_rng *g = new_rng(seed);
  long tot = 0;
  for (int r = 0; r < reps; r++) {
    struct node_gra *net = kind == 'R' ? ERGraph(S, p, g) : kind == 'P' ? PAGraph(S, m, g) :
      kind == 'B' ? UndirectedBlockGraph(k, gs, q, VERB, g) : GirvanNewmanGraph(k, gsz, kin, kout, VERB, g);
    struct node_gra *x = net;
    while ((x = x->next) != NULL) { struct node_lis *y = x->neig; while ((y = y->next) != NULL) { cnt[x->num * S + y->ref->num]++; tot++; } }
    RemoveGraph(net);
  }
  o_ki("tot", tot);
  o_k("cnt"); o_open('['); for (int i = 0; i < S * S; i++) o_i(cnt[i]); o_close(']');
  if (kind == 'B') for (int i = 0; i < k; i++) free(q[i]);
  free(cnt); gsl_rng_free(g);
}
static void c_matrix(void)
{
  struct node_gra *net = read_net();
  int lap = ri(), sync = ri();
  int n = CountNodes(net);
  int **A = AdjacencyMat(net);
  o_k("A"); o_open('['); for (int i = 0; i < n; i++) { o_open('['); for (int j = 0; j < n; j++) o_i(A[i][j]); o_close(']'); } o_close(']');
  free_i_mat(A, n);
  if (lap) {
    A = LaplacianMat(net);
    o_k("L"); o_open('['); for (int i = 0; i < n; i++) { o_open('['); for (int j = 0; j < n; j++) o_i(A[i][j]); o_close(']'); } o_close(']');
    free_i_mat(A, n);
    gsl_vector *v = LaplacianSpectrum(net);
    o_k("spec"); o_open('['); for (int i = 0; i < n; i++) o_d(gsl_vector_get(v, i)); o_close(']');
    gsl_vector_free(v);
    if (sync) o_kd("sync", Synchronizability(net));
  }
  dump_net("after", net);
  RemoveGraph(net);
}
/* ---- tools ---- */
static void c_vec(void)
{
  int n = ri(); double *d = allocate_d_vec(n);
  for (int i = 0; i < n; i++) d[i] = rd();
  o_kd("mean", mean(d, n)); o_kd("std", stddev(d, n)); o_kd("max", max(d, n)); o_kd("min", min(d, n));
  int same = 1; (void)same;
  o_k("d"); o_open('['); for (int i = 0; i < n; i++) o_d(d[i]); o_close(']');
  free_d_vec(d);
}
static void c_comb(void)
{
  int what = ri();
  if (what == 0) { long a = ri(); o_ki("v", fact(a)); }
  else if (what == 1) { int a = ri(), b = ri(); o_kd("v", (double)Choose(a, b)); }
  else { int a = ri(), b = ri(); o_kd("v", LogChoose(a, b)); }
}
static void c_tables(void)
{
  int size = ri(), nq = ri(); double x = rd();
  double **lc = InitializeFastLogChoose(size); double *ll = InitializeFastLog(size), *lf = InitializeFastLogFact(size),
    *lg = InitializeFastLogGamma(size, x), *h = InitializeHarmonicList(size);
  o_k("q"); o_open('[');
  for (int i = 0; i < nq; i++) {
    int r = ri(), l = ri();
    o_open('[');
    o_d(FastLogChoose(r, l, lc, size)); o_d(FastLogChoose(r, l, lc, size)); o_d(FastLog(r, ll, size));
    o_d(FastLogFact(r, lf, size)); o_d(FastLogGamma(r, lg, size, x)); o_close(']');
  }
  o_close(']');
  o_k("harm"); o_open('['); for (int i = 0; i < size; i++) o_d(h[i]); o_close(']');
  FreeFastLogChoose(lc, size); FreeFastLog(ll); FreeFastLogFact(lf); FreeFastLogGamma(lg); FreeHarmonicList(h);
}
static void c_lines(void)
{
  long n; char *d = rs_len(&n);
  FILE *f = fopen("lines.txt", "wb"); fwrite(d, 1, n, f); fclose(f);
  o_ki("v", CountLinesInFile("lines.txt"));
  unlink("lines.txt"); free(d);
}
static void c_alloc(void)
{
  int r = ri(), c = ri();
  int **im = allocate_i_mat(r, c); double **dm = allocate_d_mat(r, c); int *iv = allocate_i_vec(r); double *dv = allocate_d_vec(c);
  int zero = 1;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { im[i][j] = i * c + j; if (dm[i][j] != 0) zero = 0; dm[i][j] = i * c + j; }
  for (int i = 0; i < r; i++) iv[i] = i;
  for (int i = 0; i < c; i++) dv[i] = i;
  FILE *f = out_stream(); fprintf_i_mat(f, im, r, c); o_ktext("print", f);
  int ok = 1;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (im[i][j] != i * c + j || dm[i][j] != i * c + j) ok = 0;
  o_ki("ok", ok); o_ki("zero", zero);
  free_i_mat(im, r); free_d_mat(dm, r); free_i_vec(iv); free_d_vec(dv);
}
static void c_geom(void)
{
  double p = rd(); int reps = ri(); unsigned long seed = ri();
  gsl_rng *g = new_rng(seed); long h[12] = {0}; double s = 0; int lo = 0, hi = 0;
  for (int i = 0; i < reps; i++) { int v = geometric_dist_val(p, g); s += v; if (v < lo) lo = v; if (v > hi) hi = v; h[v < 11 ? (v < 0 ? 11 : v) : 11]++; }
  o_kd("mean", s / reps); o_ki("lo", lo); o_ki("hi", hi); o_k("h"); o_open('['); for (int i = 0; i < 12; i++) o_i(h[i]); o_close(']');
  gsl_rng_free(g);
}
/* stacks and queues: elements are small integers cast to pointers (1..) */
static void c_container(void)
{
  struct stack *s = stack_create(); struct queue *q = queue_create();
  int n = ri();
  o_k("r"); o_open('[');
  for (int i = 0; i < n; i++) {
    int op = ri(); long v = ri(), r = 0;
    switch (op) {
    case 0: stack_push(s, (void *)v); break;
    case 1: r = (long)stack_pop(s); break;
    case 2: r = (long)stack_top(s); break;
    case 3: stack_clear(s); break;
    case 4: queue_enqueue(q, (void *)v); break;
    case 5: r = (long)queue_dequeue(q); break;
    case 6: r = (long)queue_first(q); break;
    case 7: queue_clear(q); break;
    case 8: stack_free(s); s = stack_create(); break;
    case 9: queue_free(q); q = queue_create(); break;
    }
    o_open('['); o_i(r); o_i(stack_empty(s) ? 1 : 0); o_i(s->length); o_i(queue_empty(q) ? 1 : 0); o_i(q->length); o_close(']');
  }
  o_close(']');
  stack_free(s); queue_free(q);
}
struct cmd commands[] = {
  {"fbuild", c_fbuild}, {"print", c_print}, {"copy", c_copy}, {"edit", c_edit}, {"stats", c_stats}, {"dist", c_dist},
  {"betw", c_betw}, {"comp", c_comp}, {"compare", c_compare}, {"randomize", c_randomize}, {"randlinks", c_randlinks}, {"randmany", c_randmany},
  {"model", c_model}, {"modelstat", c_modelstat}, {"matrix", c_matrix}, {"vec", c_vec}, {"comb", c_comb}, {"tables", c_tables},
  {"lines", c_lines}, {"alloc", c_alloc}, {"geom", c_geom}, {"container", c_container}, {0, 0}};
