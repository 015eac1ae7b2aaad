/* Layouts: forces, energies, boxes, component arrangement, normalisation, dynamics. */
#include "pbt_net.h"
#include "src/layout.h"
int AssignBox(struct node_gra *node, int nbox, double xmin, double xmax, double ymin, double ymax) __attribute__((weak));

static void read_coords(struct node_gra *net)
{
  int i = 0;
  while ((net = net->next) != NULL) { net->coorX = rd(); net->coorY = rd(); net->coorZ = rd(); net->trans = i++; }
}
static void dump_coords(const char *k, struct node_gra *net)
{
  o_k(k); o_open('[');
  while ((net = net->next) != NULL) { o_open('['); o_d(net->coorX); o_d(net->coorY); o_d(net->coorZ); o_close(']'); }
  o_close(']');
}
static void dump_boxes(const char *k, struct node_box **b, int n)
{
  o_k(k); o_open('[');
  for (int i = 0; i < n; i++) {
    o_open('[');
    for (struct node_box *p = b[i]->next; p; p = p->next) o_i(p->ref->num);
    o_close(']');
  }
  o_close(']');
}
/* forces dim <net> coords nbox  xmin xmax ymin ymax zmin zmax  nremove node* */
static void c_forces(void)
{
  int dim = ri();
  if (dim != 3) NEED(AssignBox);
  struct node_gra *net = read_net();
  read_coords(net);
  int nbox = ri();
  double l[6]; for (int i = 0; i < 6; i++) l[i] = rd();
  int n; struct node_gra **nl = net_nodes(net, &n);
  int nb = dim == 3 ? nbox * nbox * nbox : nbox * nbox;
  struct node_box **b = malloc(nb * sizeof *b);
  int *in = malloc((n + 1) * sizeof *in);
  for (int i = 0; i < nb; i++) b[i] = CreateNodeBox(NULL);
  o_k("in"); o_open('[');
  for (int i = 0; i < n; i++) {
    in[i] = dim == 3 ? AssignBox3D(nl[i], nbox, l[0], l[1], l[2], l[3], l[4], l[5]) : AssignBox(nl[i], nbox, l[0], l[1], l[2], l[3]);
    o_i(in[i]);
    if (in[i] < 0 || in[i] >= nb) in[i] = -1; else AddNodeToBox(nl[i], b[in[i]]);
  }
  o_close(']');
  dump_boxes("boxes", b, nb);
  double *F[3]; for (int i = 0; i < 3; i++) F[i] = calloc(n + 1, sizeof(double));
  o_kd("E", dim == 3 ? PotentialEnergy3D(net, b, nbox) : PotentialEnergy(net, b, nbox));
  if (dim == 3) CalculateNodeForces3D(net, F[0], F[1], F[2], b, nbox); else CalculateNodeForces(net, F[0], F[1], b, nbox);
  o_k("F"); o_open('[');
  for (int i = 0; i < n; i++) { o_open('['); for (int d = 0; d < dim; d++) o_d(F[d][i]); o_close(']'); }
  o_close(']');
  int nr = ri();
  for (int i = 0; i < nr; i++) { int v = ri(); if (in[v] >= 0) RemoveNodeFromBox(nl[v], b[in[v]]); }
  dump_boxes("boxes2", b, nb);
  dump_coords("xyz", net);
  dump_net("net", net);
  for (int i = 0; i < nb; i++) FreeBox(b[i]);
  for (int i = 0; i < 3; i++) free(F[i]);
  free(b); free(in); free(nl);
  RemoveGraph(net);
}
/* layout method <net> drag dt nsteps seed nbox nrandom */
static void c_layout(void)
{
  int method = ri();
  struct node_gra *net = read_net();
  double drag = rd(), dt = rd(); int nsteps = ri(); long seed = ri(); int nbox = ri(), nr = ri();
  gsl_rng *g = new_rng(seed);
  o_k("u"); o_open('['); for (int i = 0; i < nr; i++) o_d(gsl_rng_uniform(g)); o_close(']');
  gsl_rng_set(g, seed);
  if (method == 3) MDGraphLayout3D(net, drag, dt, nsteps, g, nbox);
  else if (method == 2) MDGraphLayout2Dp(net, drag, dt, nsteps, g, nbox);
  else MDGraphLayout(net, drag, dt, nsteps, g, nbox);
  dump_coords("xyz", net);
  dump_net("net", net);
  FILE *f = out_stream(); PrintNodeCoordinates(f, net); o_ktext("text", f);
  RemoveGraph(net); gsl_rng_free(g);
}
/* arrange <net> coords seed */
static void c_arrange(void)
{
  struct node_gra *net = read_net();
  read_coords(net);
  gsl_rng *g = new_rng(ri());
  ArrangeComponents(net, g);
  dump_coords("xyz", net);
  dump_net("net", net);
  RemoveGraph(net); gsl_rng_free(g);
}
/* normal dim <net> coords */
static void c_normal(void)
{
  int dim = ri();
  struct node_gra *net = read_net();
  read_coords(net);
  if (dim == 3) NormalizeCoordinates3D(net); else NormalizeCoordinates(net);
  dump_coords("xyz", net);
  RemoveGraph(net);
}
/* circle N (x y r)* xtot ytot */
static void c_circle(void)
{
  int N = ri(); double *x = malloc((N + 1) * 8), *y = malloc((N + 1) * 8), *r = malloc((N + 1) * 8);
  for (int i = 0; i < N; i++) { x[i] = rd(); y[i] = rd(); r[i] = rd(); }
  double xt = rd(), yt = rd();
  o_k("d"); o_open('['); for (int i = 0; i < N; i++) o_d(CircleDistance(i, xt, yt, x, y, r, N)); o_close(']');
  free(x); free(y); free(r);
}
struct cmd commands[] = {{"forces", c_forces}, {"layout", c_layout}, {"arrange", c_arrange}, {"normal", c_normal}, {"circle", c_circle}, {NULL, NULL}};
