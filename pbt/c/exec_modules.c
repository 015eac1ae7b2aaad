#include "pbt_part.h"
extern struct group *FReadPartition(FILE *) __attribute__((weak));
extern struct group *SAGroupSplit(struct group *, double, double, double, int, gsl_rng *) __attribute__((weak));
extern struct group *SACommunityIdent(struct node_gra *, double, double, double, double, int, char, int, char, gsl_rng *) __attribute__((weak));

/* library stdout into a response field */
static int so_save;
static FILE *so_begin(void) { fflush(stdout); FILE *f = tmpfile(); so_save = dup(1); dup2(fileno(f), 1); return f; }
static void so_end(const char *k, FILE *f) { fflush(stdout); dup2(so_save, 1); close(so_save); o_ktext(k, f); }

/* stateful partition editing */
static void c_pops(void)
{
  struct node_gra *net = read_net();
  struct group *part = read_part(net, NULL);
  int n; struct node_gra **l = net_nodes(net, &n);
  int nops = ri();
  o_k("states"); o_open('[');
  for (int k = 0; k < nops; k++) {
    char op = *tok();
    int ng; struct group **g = part_groups(part, &ng);
    long ret = 0;
    switch (op) {
    case 'm': { int u = ri(), a = ri(), b = ri(); ret = MoveNode(l[u], g[a], g[b]); break; }
    case 'f': { int u = ri(), a = ri(), b = ri(); ret = MoveNodeFast(l[u], g[a], g[b]); break; }
    case 'r': { int u = ri(), a = ri(), b = ri(); ret = RemoveNodeFromGroup(g[a], l[u]); if (ret) AddNodeToGroup(g[b], l[u]); break; }
    case 'M': { int a = ri(), b = ri(); MergeGroups(g[a], g[b]); break; }
    case 'F': { int a = ri(), b = ri(); MergeGroupsFast(g[a], g[b]); break; }
    case 'C': part = CompressPart(part); break;
    case 'P': MapPartToNet(part, net); break;
    case 'Q': MapPartToNetFast(part, net); break;
    case 'Y': { struct group *c = CopyPartition(part); RemovePartition(part); part = c; MapPartToNet(part, net); break; }
    case 'E': { struct group *e = GetEmptyGroup(part); ret = -1; for (int i = 0; i < ng; i++) if (g[i] == e) ret = i; if (!e) ret = -2; break; }
    case 'L': { int lab = ri(); struct group *e = GetGroup(part, lab); ret = -1; for (int i = 0; i < ng; i++) if (g[i] == e) ret = i; if (!e) ret = -2; break; }
    case 'N': { int lab = ri(); CreateGroup(part, lab); break; }
    }
    free(g);
    o_open('{'); o_ki("ret", ret); o_ki("ng", NGroups(part)); o_ki("nne", NNonEmptyGroups(part)); o_ki("size", PartitionSize(part));
    dump_part("part", part, net); dump_ingroup("in", net);
    o_close('}');
  }
  o_close(']');
  dump_net("net", net);
  RemovePartition(part); free(l); RemoveGraph(net);
}

/* write, read back, map */
static void c_pio(void)
{
  struct node_gra *net = read_net();
  struct group *part = read_part(net, NULL);
  FILE *f = out_stream(); FPrintPartition(f, part, 0); o_ktext("long", f);
  FPrintPajekPartitionFile("part.clu", net);
  long n; char *b = slurp("part.clu", &n); o_k("pajek"); o_sn(b, n); free(b); unlink("part.clu");
  f = out_stream(); FPrintPartition(f, part, 1); fflush(f); rewind(f);
  struct group *r = FCreatePartition(f);
  o_ktext("list", f);
  dump_part("read", r, net);
  MapPartToNet(r, net);
  dump_part("mapped", r, net); dump_ingroup("in", net);
  RemovePartition(r); RemovePartition(part); RemoveGraph(net);
}
/* read given text */
static void c_pread(void)
{
  int tabs = ri(); long n; char *d = rs_len(&n);
  FILE *f = in_stream(d, n);
  if (tabs) NEED(FReadPartition);
  struct group *r = tabs ? FReadPartition(f) : FCreatePartition(f);
  fclose(f); free(d);
  if (!r) { o_k("read"); o_s(NULL); return; }
  dump_part("read", r, NULL);
  RemovePartition(r);
}
static void c_pmake(void)
{
  struct node_gra *net = read_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  int gsize = ri(), k = ri(), s = ri(), which = ri();
  struct group *p = CreateEquiNPartition(net, gsize);
  /* CreateEquiNPartition does not reset groups; the nodes are fresh here */
  dump_part("equi", p, net); dump_ingroup("equi_in", net); RemovePartition(p);
  p = CreateEquiNPartitionSoft(k, s); dump_part("soft", p, NULL); RemovePartition(p);
  for (int i = 0; i < n; i++) l[i]->inGroup = ri();
  p = CreatePartitionFromInGroup(net); dump_part("ing", p, net); dump_ingroup("ing_in", net);
  struct group *c = CopyPartition(p); MapPartToNet(p, net); MapPartToNet(c, net);
  dump_part("copy", c, net);
  /* change the copy, then look at the original */
  if (c->next && c->next->next) MergeGroups(c->next, c->next->next);
  RemovePartition(c); MapPartToNet(p, net);
  dump_part("orig", p, net);
  /* nets of one group */
  struct group *g = p; for (int i = 0; i <= which && g->next; i++) g = g->next;
  for (int i = 0; i < n; i++) { l[i]->state = 10 + i; l[i]->coorX = i * .5; l[i]->coorY = -i; l[i]->coorZ = i * i; l[i]->ivar1 = 3 * i; l[i]->dvar1 = i / 4.; }
  struct node_gra *b = BuildNetFromGroup(g);
  dump_net("gnet", b);
  o_k("gattr"); o_open('['); struct node_gra *x = b;
  while ((x = x->next) != NULL) { o_open('['); o_i(x->state); o_d(x->coorX); o_d(x->coorY); o_d(x->coorZ); o_i(x->ivar1); o_d(x->dvar1); o_i(NodeDegree(x)); o_close(']'); }
  o_close(']');
  RemoveGraph(b);
  b = BuildNetFromGroupNeig(g);
  dump_net("nnet", b); dump_ingroup("nnet_in", b);
  RemoveGraph(b);
  dump_net("net", net);
  RemovePartition(p);
  p = ClustersPartition(net); dump_part("clusters", p, net); dump_ingroup("clusters_in", net); RemovePartition(p);
  free(l); RemoveGraph(net);
}
/* a partition mapped softly onto another network */
static void c_psoft(void)
{
  struct node_gra *net = read_net();
  struct group *part = read_part(net, NULL);
  struct node_gra *sub = read_net();
  MapPartToNetSoft(part, sub);
  dump_ingroup("in", sub); dump_part("part", part, net);
  RemovePartition(part); RemoveGraph(net); RemoveGraph(sub);
}
static void c_pmeas(void)
{
  struct node_gra *net = read_net();
  int k; struct group *part = read_part(net, &k);
  double w = rd(); int block = ri();
  int n, ng; struct node_gra **l = net_nodes(net, &n); struct group **g = part_groups(part, &ng);
  o_kd("Q", Modularity(part)); o_kd("QW", ModularityWeight(part));
  o_k("ng"); o_open('[');
  for (int i = 0; i < n; i++) {
    o_open('[');
    for (int j = 0; j < ng; j++) {
      o_open('['); o_i(NLinksToGroup(l[i], g[j])); o_i(NLinksToGroupByNum(l[i], g[j]->label)); o_d(StrengthToGroup(l[i], g[j]));
      o_d(StrengthToGroupByNum(l[i], g[j]->label)); o_i(NWeightLinksToGroup(l[i], g[j], w)); o_close(']');
    }
    o_close(']');
  }
  o_close(']');
  o_k("gg"); o_open('[');
  for (int i = 0; i < ng; i++) {
    o_open('[');
    for (int j = 0; j < ng; j++) { o_open('['); o_i(NG2GLinks(g[i], g[j])); o_d(NG2GLinksWeight(g[i], g[j])); o_i(NWeightG2GLinks(g[i], g[j], w)); o_close(']'); }
    o_close(']');
  }
  o_close(']');
  double a, b, c, d; GroupSizeStatistics(part, &a, &b, &c, &d);
  o_k("gs"); o_open('['); o_d(a); o_d(b); o_d(c); o_d(d); o_close(']');
  if (block) { const char *t = "nfpz"; o_k("block"); o_open('{');
    for (; *t; t++) { char kk[2] = {*t, 0}; FILE *f = so_begin(); BlockModel(part, *t, 0); so_end(kk, f); } o_close('}'); }
  free(g); free(l); RemovePartition(part); RemoveGraph(net);
}
/* link removal; mode w: within group a, b: between groups, i: by inGroup */
static void c_prem(void)
{
  struct node_gra *net = read_net();
  struct group *part = read_part(net, NULL);
  char mode = *tok(); int a = ri(), sym = ri();
  int ng; struct group **g = part_groups(part, &ng);
  if (mode == 'w') RemoveWithinGroupLinks(g[a], sym);
  else if (mode == 'b') RemoveBetweenGroupLinks(part, sym);
  else RemoveInterGroupLinks(net);
  dump_net("net", net);
  free(g); RemovePartition(part); RemoveGraph(net);
}
static void c_pcmp(void)
{
  struct node_gra *net = read_net();
  int n; struct node_gra **l = net_nodes(net, &n);
  struct group *a = read_part(net, NULL), *b = read_part(net, NULL);
  int sep = ri();      /* second partition over a copy of the network */
  struct node_gra *c = NULL;
  if (sep) { c = CopyNetwork(net); MapPartToNet(b, c); }
  o_kd("mi0", MutualInformation(a, b, 0)); o_kd("mi1", MutualInformation(a, b, 1)); o_kd("mi0r", MutualInformation(b, a, 0));
  o_kd("cc", CorrectlyClassified(a, b));
  dump_part("a", a, net);
  RemovePartition(a); RemovePartition(b); free(l); RemoveGraph(net); if (c) RemoveGraph(c);
}
static void c_roles(void)
{
  struct node_gra *net = read_net();
  struct group *part = read_part(net, NULL);
  MapPartToNet(part, net);
  int n; struct node_gra **l = net_nodes(net, &n);
  o_k("v"); o_open('[');
  for (int i = 0; i < n; i++) {
    o_open('['); o_d(ParticipationCoefficient(l[i])); o_d(WeightedParticipationCoefficient(l[i], part));
    o_d(WithinModuleRelativeDegree(l[i], part)); o_d(WithinModuleRelativeStrength(l[i], part)); o_close(']');
  }
  o_close(']');
  struct group *r = CatalogRoleIdent(net, part);
  dump_part("roles", r, net); dump_ingroup("roles_in", net); RemovePartition(r);
  r = CatalogRoleIdentStrength(net, part);
  dump_part("rolesw", r, net); dump_ingroup("rolesw_in", net); RemovePartition(r);
  RemovePartition(part); free(l); RemoveGraph(net);
}
static void err_begin(void) { fflush(stderr); rewind(stderr); if (ftruncate(2, 0)) {} lseek(2, 0, SEEK_SET); }
static void err_end(const char *k)
{
  fflush(stderr);
  long len = lseek(2, 0, SEEK_END); char *b = malloc(len + 1);
  int fd = open("/proc/self/fd/2", O_RDONLY); len = read(fd, b, len); close(fd); if (len < 0) len = 0; b[len] = 0;
  if (len > 200000) len = 200000;
  o_k(k); o_sn(b, len); free(b);
}
static void c_sa(void)
{
  struct node_gra *net = read_net();
  double Ti = rd(), Tf = rd(), Ts = rd(), fac = rd(); int ngroup = ri(); char init = *tok(); int coll = ri(); char out = *tok();
  unsigned long seed = ri();
  gsl_rng *g = new_rng(seed);
  err_begin();
  NEED(SACommunityIdent);
  struct group *p = SACommunityIdent(net, Ti, Tf, Ts, fac, ngroup, init, coll, out, g);
  err_end("err");
  dump_part("part", p, net); dump_ingroup("in", net); o_kd("Q", Modularity(p));
  dump_net("net", net);
  FILE *f = fopen("part.tmp", "r");             /* the best partition so far, in some modes */
  if (f) { o_ktext("tmp", f); unlink("part.tmp"); }
  gsl_rng_free(g); RemovePartition(p); RemoveGraph(net);
}
static void c_split(void)
{
  struct node_gra *net = read_net();
  struct group *part = read_part(net, NULL);
  int a = ri(); double Ti = rd(), Tf = rd(), Ts = rd(); int cl = ri(); unsigned long seed = ri();
  int ng; struct group **gl = part_groups(part, &ng);
  gsl_rng *g = new_rng(seed);
  NEED(SAGroupSplit);
  struct group *s = SAGroupSplit(gl[a], Ti, Tf, Ts, cl, g);
  dump_part("split", s, NULL);
  dump_part("part", part, net); dump_ingroup("in", net);
  gsl_rng_free(g); RemovePartition(s); RemovePartition(part); free(gl); RemoveGraph(net);
}
struct cmd commands[] = {{"pops", c_pops}, {"pio", c_pio}, {"pread", c_pread}, {"pmake", c_pmake}, {"psoft", c_psoft},
  {"pmeas", c_pmeas}, {"prem", c_prem}, {"pcmp", c_pcmp}, {"roles", c_roles}, {"sa", c_sa}, {"split", c_split}, {0, 0}};
