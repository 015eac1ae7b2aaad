/* Bipartite networks over the wire. */
#ifndef PBT_BIP_H
#define PBT_BIP_H
#include "pbt_part.h"
#include "src/bipartite.h"

/* request: n1 label*n1 n2 label*n2 m (u a w)*m */
static struct binet *read_bip(void)
{
  struct binet *b = CreateBipart();
  struct node_gra **l[2]; int nn[2]; unsigned h = 0;
  for (int s = 0; s < 2; s++) {
    struct node_gra *net = CreateHeaderGraph(), *last = net;
    int n = nn[s] = ri(); h += 3 * n;
    l[s] = malloc((n + 1) * sizeof **l);
    for (int i = 0; i < n; i++) { char *t = rs(); l[s][i] = last = CreateNodeGraph(last, t); free(t); }
    if (s) b->net2 = net; else b->net1 = net;
  }
  int m = ri();
  for (int i = 0; i < m; i++) {
    int u = ri(), a = ri(); double w = rd();
    AddAdjacency(l[0][u], l[1][a], 0, 0, w, 0);
    AddAdjacency(l[1][a], l[0][u], 0, 0, w, 0);
    h += (i + 3) * (u + 7 * a);
  }
  soil(l[0], nn[0], h); soil(l[1], nn[1], h / 4);
  free(l[0]); free(l[1]);
  return b;
}
/* {"s1":[[label,num,inGroup,[[index in other|-1|-9,node,nodeLabel,weight]..]]..],"s2":..} */
static void dump_bip(const char *key, struct binet *b)
{
  o_k(key);
  if (!b) { o_sep(); fputs("null", resp); return; }
  o_open('{');
  for (int s = 0; s < 2; s++) {
    int n, m;
    struct node_gra **l = net_nodes(s ? b->net2 : b->net1, &n), **o = net_nodes(s ? b->net1 : b->net2, &m);
    o_k(s ? "s2" : "s1"); o_open('[');
    for (int i = 0; i < n; i++) {
      o_open('['); o_s(l[i]->label); o_i(l[i]->num); o_i(l[i]->inGroup); o_open('[');
      struct node_lis *q = l[i]->neig;
      while ((q = q->next) != NULL) {
        int r = -9;
        if (!q->ref) r = -1;
        else for (int j = 0; j < m; j++) if (o[j] == q->ref) { r = j; break; }
        o_open('['); o_i(r); o_i(q->node); o_s(q->nodeLabel); o_d(q->weight); o_close(']');
      }
      o_close(']'); o_close(']');
    }
    o_close(']');
    free(l); free(o);
  }
  o_close('}');
}
#endif
