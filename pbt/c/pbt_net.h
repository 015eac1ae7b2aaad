/* Networks over the wire. */
#ifndef PBT_NET_H
#define PBT_NET_H
#include "pbt.h"
#include "src/tools.h"
#include "src/graph.h"

static struct node_gra **net_nodes(struct node_gra *net, int *n)
{
  int c = 0; struct node_gra *p = net;
  while ((p = p->next) != NULL) c++;
  struct node_gra **l = malloc((c + 1) * sizeof *l);
  c = 0; p = net;
  while ((p = p->next) != NULL) l[c++] = p;
  *n = c;
  return l;
}

/* what earlier calls leave behind in a network (scratch fields and filled caches); decided by the network itself */
static void soil(struct node_gra **l, int n, unsigned h)
{
  if (h % 4 == 0) return;
  for (int i = 0; i < n; i++) {
    l[i]->state = 1 + (i + h) % 3; l[i]->dvar1 = 1e3 + i; l[i]->ivar1 = 3 + i; l[i]->trans = 1 + i;
    l[i]->coorX = .25 * i; l[i]->coorY = .5 * i; l[i]->coorZ = -.75 * i;
    for (struct node_lis *q = l[i]->neig; (q = q->next) != NULL; ) { q->btw = 7.5 + i; q->status = 1; }
    if (h & 1) { NodeDegree(l[i]); NodeStrength(l[i]); }
  }
}

/* request: n label*n m (u v w)*m   -- each entry is one directed adjacency u->v */
static struct node_gra *read_net(void)
{
  struct node_gra *net = CreateHeaderGraph(), *last = net;
  int n = ri();
  struct node_gra **l = malloc((n + 1) * sizeof *l);
  for (int i = 0; i < n; i++) { char *s = rs(); l[i] = last = CreateNodeGraph(last, s); free(s); }
  int m = ri(); unsigned h = 3 * n + 5 * m;
  for (int i = 0; i < m; i++) {
    int u = ri(), v = ri(); double w = rd();
    AddAdjacency(l[u], l[v], 1, 0, w, 0);
    h += (i + 3) * (u + 7 * v);
  }
  soil(l, n, h);
  free(l);
  return net;
}

/* {"nodes":[[label,num,inGroup],..],"adj":[[ [index of ref, node, nodeLabel, weight, btw],..],..]} ; index -1 NULL, -9 foreign */
static void dump_net(const char *key, struct node_gra *net)
{
  o_k(key);
  if (!net) { o_sep(); fputs("null", resp); return; }
  int n; struct node_gra **l = net_nodes(net, &n);
  o_open('{');
  o_k("nodes"); o_open('[');
  for (int i = 0; i < n; i++) { o_open('['); o_s(l[i]->label); o_i(l[i]->num); o_i(l[i]->inGroup); o_close(']'); }
  o_close(']');
  o_k("adj"); o_open('[');
  for (int i = 0; i < n; i++) {
    o_open('[');
    struct node_lis *q = l[i]->neig;
    while ((q = q->next) != NULL) {
      int r = -9;
      if (!q->ref) r = -1;
      else if (q->node >= 0 && q->node < n && l[q->node] == q->ref) r = q->node;
      else for (int j = 0; j < n; j++) if (l[j] == q->ref) { r = j; break; }
      o_open('['); o_i(r); o_i(q->node); o_s(q->nodeLabel); o_d(q->weight); o_d(q->btw); o_close(']');
    }
    o_close(']');
  }
  o_close(']');
  o_close('}');
  free(l);
}
#endif
