/* List-based partitions over the wire. */
#ifndef PBT_PART_H
#define PBT_PART_H
#include "pbt_net.h"
#include "src/modules.h"

static struct group **part_groups(struct group *part, int *n)
{
  int c = 0; struct group *g = part;
  while ((g = g->next) != NULL) c++;
  struct group **l = malloc((c + 1) * sizeof *l);
  c = 0; g = part;
  while ((g = g->next) != NULL) l[c++] = g;
  *n = c;
  return l;
}
/* request: ngroups, then one group index per node */
static struct group *read_part(struct node_gra *net, int *pk)
{
  int k = ri();
  struct group *part = CreateHeaderGroup();
  for (int i = 0; i < k; i++) CreateGroup(part, i);
  int ng, nn; struct group **g = part_groups(part, &ng); struct node_gra **l = net_nodes(net, &nn);
  ResetNetGroup(net);
  for (int i = 0; i < nn; i++) AddNodeToGroup(g[ri()], l[i]);
  free(g); free(l);
  if (pk) *pk = k;
  return part;
}
/* [[label,size,[tot,in,out,totW,inW,outW],[[nodeLabel,node,ref index in net|-1 NULL|-9 foreign]..]]..] */
static void dump_part(const char *key, struct group *part, struct node_gra *net)
{
  o_k(key);
  if (!part) { o_sep(); fputs("null", resp); return; }
  int n = 0; struct node_gra **l = net ? net_nodes(net, &n) : NULL;
  o_open('[');
  struct group *g = part;
  while ((g = g->next) != NULL) {
    o_open('['); o_i(g->label); o_i(g->size);
    o_open('['); o_i(g->totlinks); o_i(g->inlinks); o_i(g->outlinks); o_d(g->totlinksW); o_d(g->inlinksW); o_d(g->outlinksW); o_close(']');
    o_open('[');
    struct node_lis *p = g->nodeList;
    while ((p = p->next) != NULL) {
      int r = -9;
      if (!net || !p->ref) r = -1;
      else for (int j = 0; j < n; j++) if (l[j] == p->ref) { r = j; break; }
      o_open('['); o_s(p->nodeLabel); o_i(p->node); o_i(r); o_close(']');
    }
    o_close(']');
    o_close(']');
  }
  o_close(']');
  free(l);
}
static void dump_ingroup(const char *key, struct node_gra *net)
{
  o_k(key); o_open('[');
  while ((net = net->next) != NULL) o_i(net->inGroup);
  o_close(']');
}
#endif
