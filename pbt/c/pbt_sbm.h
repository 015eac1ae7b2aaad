/* State of a block-model sampler over one network, in the shape the samplers of the library expect. */
#ifndef PBT_SBM_H
#define PBT_SBM_H
#include "pbt_part.h"

struct sbm { struct node_gra *net; int n; struct node_gra **nlist; struct group *part, **glist; int **G2G, *n2g; gsl_rng *gen; };

/* request: network, one group label in 0..n-1 per node, seed */
static struct sbm read_sbm(void)
{
  struct sbm s;
  s.net = read_net();
  s.nlist = net_nodes(s.net, &s.n);
  s.part = CreateHeaderGroup();
  s.glist = malloc((s.n + 1) * sizeof *s.glist);
  struct group *last = s.part;
  for (int i = 0; i < s.n; i++) s.glist[i] = last = CreateGroup(last, i);
  ResetNetGroup(s.net);
  for (int i = 0; i < s.n; i++) AddNodeToGroup(s.glist[ri()], s.nlist[i]);
  s.gen = new_rng(ri());
  s.G2G = allocate_i_mat(s.n, s.n);
  s.n2g = allocate_i_vec(s.n);
  for (int i = 0; i < s.n; i++) {
    s.n2g[i] = 0;
    s.G2G[i][i] = s.glist[i]->inlinks;
    for (int j = i + 1; j < s.n; j++) s.G2G[i][j] = s.G2G[j][i] = NG2GLinks(s.glist[i], s.glist[j]);
  }
  return s;
}
static void o_mat(const char *k, int **m, int n)
{
  o_k(k); o_open('[');
  for (int i = 0; i < n; i++) { o_open('['); for (int j = 0; j < n; j++) o_i(m[i][j]); o_close(']'); }
  o_close(']');
}
static void o_dmat(const char *k, double **m, int n1, int n2)
{
  o_k(k); o_open('[');
  for (int i = 0; i < n1; i++) { o_open('['); for (int j = 0; j < n2; j++) o_d(m[i][j]); o_close(']'); }
  o_close(']');
}
/* {H, H0, in:[group per node], G:[[..]], mem:[[nodes of group]..], size:[..]} */
static void dump_sbm(struct sbm *s, double H, double H0)
{
  o_open('{');
  o_kd("H", H); o_kd("H0", H0);
  dump_ingroup("in", s->net);
  o_mat("G", s->G2G, s->n);
  o_k("mem"); o_open('[');
  for (int i = 0; i < s->n; i++) {
    o_open('[');
    struct node_lis *p = s->glist[i]->nodeList;
    while ((p = p->next) != NULL) o_i(p->node);
    o_close(']');
  }
  o_close(']');
  o_k("cnt"); o_open('[');
  for (int i = 0; i < s->n; i++) {
    struct group *g = s->glist[i];
    o_open('['); o_i(g->label); o_i(g->size); o_i(g->totlinks); o_i(g->inlinks); o_i(g->outlinks); o_close(']');
  }
  o_close(']');
  o_close('}');
}
/* histogram of canonical memberships (restricted growth strings) */
struct hist { char *key; long cnt; struct hist *next; };
static struct hist *hist_tab[4096];
static void hist_clear(void)
{
  for (int i = 0; i < 4096; i++) {
    while (hist_tab[i]) { struct hist *h = hist_tab[i]; hist_tab[i] = h->next; free(h->key); free(h); }
  }
}
static void hist_add_key(const char *k)
{
  unsigned h = 5381;
  for (const char *c = k; *c; c++) h = h * 33 + *c;
  h &= 4095;
  struct hist *e;
  for (e = hist_tab[h]; e; e = e->next) if (!strcmp(e->key, k)) { e->cnt++; return; }
  e = malloc(sizeof *e); e->key = strdup(k); e->cnt = 1; e->next = hist_tab[h]; hist_tab[h] = e;
}
static int hist_canon(char *buf, const int *mem, int n)
{
  int seen[64], ns = 0;
  for (int i = 0; i < n; i++) {
    int k;
    for (k = 0; k < ns; k++) if (seen[k] == mem[i]) break;
    if (k == ns) seen[ns++] = mem[i];
    buf[i] = 'a' + k;
  }
  buf[n] = 0;
  return ns;
}
static void hist_dump(const char *key)
{
  o_k(key); o_open('{');
  for (int i = 0; i < 4096; i++) for (struct hist *h = hist_tab[i]; h; h = h->next) o_ki(h->key, h->cnt);
  o_close('}');
}
static void hist_add_net(struct node_gra *net)
{
  int mem[64], n = 0; char buf[70];
  struct node_gra *p = net;
  while ((p = p->next) != NULL && n < 64) mem[n++] = p->inGroup;
  hist_canon(buf, mem, n);
  hist_add_key(buf);
}
static void free_sbm(struct sbm *s)
{
  RemovePartition(s->part); free_i_mat(s->G2G, s->n); free_i_vec(s->n2g); free(s->glist); free(s->nlist);
  gsl_rng_free(s->gen); RemoveGraph(s->net);
}
#endif
