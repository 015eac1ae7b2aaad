/* Large networks: linked directly (the library's AddAdjacency looks through the whole list each time). */
#include "pbt_bip.h"
static int so_save;
static FILE *so_begin(void) { fflush(stdout); FILE *f = tmpfile(); so_save = dup(1); dup2(fileno(f), 1); return f; }
static void so_end(const char *k, FILE *f) { fflush(stdout); dup2(so_save, 1); close(so_save); if (k) o_ktext(k, f); else fclose(f); }

static void append(struct node_lis **tail, struct node_gra *v)
{
  struct node_lis *a = calloc(1, sizeof *a);
  a->node = v->num; a->nodeLabel = calloc(MAX_LABEL_LENGTH, 1); strcpy(a->nodeLabel, v->label); a->ref = v; a->weight = 1.0;
  (*tail)->next = a; *tail = a;
}
static struct node_gra **nodes(struct node_gra *net, int n, char c)
{
  struct node_gra **l = malloc((n + 1) * sizeof *l), *last = net;
  for (int i = 0; i < n; i++) { char s[20]; sprintf(s, "%c%d", c, i); l[i] = last = CreateNodeGraph(last, s); }
  return l;
}
/* request: n m (u v)*m   undirected */
static struct node_gra *large_net(void)
{
  struct node_gra *net = CreateHeaderGraph();
  int n = ri(), m = ri();
  struct node_gra **l = nodes(net, n, 'n');
  struct node_lis **t = malloc((n + 1) * sizeof *t);
  for (int i = 0; i < n; i++) t[i] = l[i]->neig;
  for (int i = 0; i < m; i++) { int u = ri(), v = ri(); append(&t[u], l[v]); append(&t[v], l[u]); }
  free(l); free(t);
  return net;
}
static void c_net(void)
{
  struct node_gra *net = large_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  for (char *w = tok(); *w; w++) {
    char k[2] = {*w, 0}; FILE *f; double a[4]; struct node_gra **c, *g; int i, r;
    switch (*w) {
    case 'A': o_kd(k, Assortativity(net)); break;
    case 'q': o_kd(k, AverageSquaredDegree(net)); break;
    case 'L': o_ki(k, TotalNLinks(net, 1)); break;
    case '1': o_kd(k, ClusteringCoefficient(net)); break;
    case '2': o_kd(k, ClusteringCoefficient2(net)); break;
    case 'k': o_kd(k, CalculateKnn(l[0])); break;
    case 'p': o_kd(k, AveragePathLength(net)); break;
    case 'i': o_kd(k, AverageInverseDistance(net)); break;
    case 'h': f = out_stream(); FPrintDistanceHistogramFromNode(f, net, 0); o_ktext(k, f); break;
    case 'H': f = out_stream(); FPrintDistanceHistogram(f, net); o_ktext(k, f); break;
    case 'b': CalculateNodeBetweenness(net); o_k(k); o_open('['); for (i = 0; i < n; i++) o_d(l[i]->dvar1); o_close(']'); break;
    case 'B': NodeBetweennessStatistics(net, a, a + 1, a + 2, a + 3); o_k(k); o_open('['); for (i = 0; i < 4; i++) o_d(a[i]); o_close(']'); break;
    case 'c': o_ki(k, IsGraphConnected(net)); break;
    case 'C': o_ki(k, CountStronglyConnectedSets(net)); break;
    case 'w': g = GetLargestWeaklyConnectedSet(net, n + 1); o_ki(k, CountNodes(g)); RemoveGraph(g); break;
    case 's':
      c = malloc((n + 1) * sizeof *c); r = GetAllConnectedSets(net, c);
      o_k(k); o_open('['); for (i = 0; i < r; i++) { o_i(CountNodes(c[i])); RemoveGraph(c[i]); } o_close(']'); free(c); break;
    }
  }
  free(l); RemoveGraph(net);
}
/* network, then k and the group of each node */
static void c_part(void)
{
  struct node_gra *net = large_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  struct group *part = read_part(net, NULL);
  o_kd("Q", Modularity(part)); o_kd("QW", ModularityWeight(part));
  int np = ri();
  o_k("P"); o_open('['); for (int i = 0; i < np; i++) o_d(ParticipationCoefficient(l[ri()])); o_close(']');
  for (char *t = "nfpez"; *t; t++) { char k[2] = {*t, 0}; FILE *f = so_begin(); BlockModel(part, *t, 0); so_end(k, f); }
  free(l); RemovePartition(part); RemoveGraph(net);
}
/* two partitions of n nodes, each a list of group sizes over consecutive runs of the nodes; shift of the second */
static struct group *runs(struct node_gra **l, int n, int shift)
{
  int k = ri(), x = 0;
  struct group *part = CreateHeaderGroup(), *g = part;
  for (int i = 0; i < k; i++) {
    int s = ri(); g = CreateGroup(g, i);
    struct node_lis *t = g->nodeList;
    for (int j = 0; j < s; j++, x++) { append(&t, l[(x + shift) % n]); g->size++; }
  }
  return part;
}
static void c_info(void)
{
  int n = ri();
  struct node_gra *net = CreateHeaderGraph();
  struct node_gra **l = nodes(net, n, 'n');
  struct group *a = runs(l, n, 0); int shift = ri(); struct group *b = runs(l, n, shift);
  o_kd("I", MutualInformation(a, b, 0));
  RemovePartition(a); RemovePartition(b); free(l); RemoveGraph(net);
}
/* actors, teams, m (actor team)*m; groups of the first k actors, the rest by themselves are left out */
static void c_bip(void)
{
  struct binet *b = CreateBipart();
  int n1 = ri(), n2 = ri(), m = ri();
  b->net1 = CreateHeaderGraph(); b->net2 = CreateHeaderGraph();
  struct node_gra **l1 = nodes(b->net1, n1, 'a'), **l2 = nodes(b->net2, n2, 't');
  struct node_lis **t1 = malloc((n1 + 1) * sizeof *t1), **t2 = malloc((n2 + 1) * sizeof *t2);
  for (int i = 0; i < n1; i++) t1[i] = l1[i]->neig;
  for (int i = 0; i < n2; i++) t2[i] = l2[i]->neig;
  for (int i = 0; i < m; i++) { int u = ri(), v = ri(); append(&t1[u], l2[v]); append(&t2[v], l1[u]); }
  int k = ri(), q = ri();
  struct group *part = CreateHeaderGroup(), *g[20], *last = part;
  for (int i = 0; i < k; i++) last = g[i] = CreateGroup(last, i);
  for (int i = 0; i < q; i++) { int u = ri(); AddNodeToGroup(g[ri()], l1[u]); }
  o_kd("Q", ModularityBipart(b, part));
  free(l1); free(l2); free(t1); free(t2); RemovePartition(part); RemoveBipart(b);
}
struct cmd commands[] = { {"net", c_net}, {"part", c_part}, {"info", c_info}, {"bip", c_bip}, {0, 0} };
