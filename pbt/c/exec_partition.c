/* Array-based partitions, modularity annealing and the netcarto input/output. */
#include "pbt.h"
#include "src/partition.h"
#include "src/movements.h"
#include "src/fillpartitions.h"
#include "src/sannealing.h"
#include "src/io.h"

static void dump_state(const char *key, Partition *p)
{
  o_k(key);
  if (!p) { o_sep(); fputs("null", resp); return; }
  o_open('{');
  o_ki("N", p->N); o_ki("M", p->M); o_ki("nempty", p->nempty);
  o_k("modules"); o_open('[');
  for (unsigned i = 0; i < p->M; i++) {
    Module *m = p->modules[i];
    o_open('['); o_i(m->id); o_i(m->size); o_d(m->strength);
    unsigned c = 0;
    o_open('['); for (Node *x = m->first; x && c <= p->N; x = x->next, c++) o_i(x->id); o_close(']');
    c = 0;
    o_open('['); for (Node *x = m->last; x && c <= p->N; x = x->prev, c++) o_i(x->id); o_close(']');
    o_close(']');
  }
  o_close(']');
  o_k("nodes"); o_open('[');
  for (unsigned i = 0; i < p->N; i++) {
    o_open('['); o_i(p->nodes[i]->id); o_i(p->nodes[i]->module); o_d(p->nodes[i]->strength); o_close(']');
  }
  o_close(']');
  o_close('}');
}
static void dump_adj(AdjaArray *a)
{
  o_k("adj"); o_open('{');
  o_ki("N", a->N); o_ki("E", a->E);
  o_k("rows"); o_open('[');
  for (unsigned i = 0; i < a->N; i++) {
    o_open('[');
    for (unsigned j = a->idx[i]; j < a->idx[i + 1]; j++) { o_open('['); o_i(a->neighbors[j]); o_d(a->strength[j]); o_close(']'); }
    o_close(']');
  }
  o_close(']');
  o_close('}');
}
static void dump_roles(Partition *p, AdjaArray *a)
{
  double *c = malloc(p->N * sizeof *c), *q = malloc(p->N * sizeof *q);
  for (unsigned i = 0; i < p->N; i++) c[i] = q[i] = 7.5;
  PartitionRolesMetrics(p, a, c, q);
  o_k("roles"); o_open('[');
  for (unsigned i = 0; i < p->N; i++) { o_open('['); o_d(c[i]); o_d(q[i]); o_i(GetRole(q[i], c[i])); o_close(']'); }
  o_close(']');
  free(c); free(q);
}

/* N M E (u v w)*E normalize seed  -> partition and array */
static gsl_rng *gen_;
static void read_pa(Partition **pp, AdjaArray **aa)
{
  int N = ri(), M = ri(), E = ri();
  int *u = malloc((E + 1) * sizeof *u), *v = malloc((E + 1) * sizeof *v);
  double *w = malloc((E + 1) * sizeof *w);
  for (int i = 0; i < E; i++) { u[i] = ri(); v[i] = ri(); w[i] = rd(); }
  int norm = ri();
  gen_ = new_rng(ri());
  if (norm == 2) {
    /* the list is bipartite (actor, team, weight): work on its projection */
    unsigned *bu = malloc((E + 1) * sizeof *bu), *bv = malloc((E + 1) * sizeof *bv);
    for (int i = 0; i < E; i++) { bu[i] = u[i]; bv[i] = v[i]; }
    *pp = NULL; *aa = NULL;
    ProjectBipartEdgeList(bu, bv, w, E, pp, aa);
    free(bu); free(bv);
  } else {
    *pp = CreatePartition(N, M);
    *aa = CreateAdjaArray(N, E);
    EdgeListToAdjaArray(u, v, w, *aa, *pp, norm);
  }
  AssignNodesToModules(*pp, gen_);
  free(u); free(v); free(w);
}

static void c_ops(void)
{
  Partition *p; AdjaArray *a;
  read_pa(&p, &a);
  dump_adj(a);
  dump_state("start", p);
  o_kd("q", PartitionModularity(p, a, 0)); o_kd("qd", PartitionModularity(p, a, 1));
  int n = ri();
  o_k("steps"); o_open('[');
  for (int i = 0; i < n; i++) {
    char op = *tok();
    double pred = 0; long ret = 0;
    o_open('{');
    if (op == 'C') {
      int u = ri(), m = ri() % p->M;
      if (u >= (int)p->N) u = p->N - 1;
      o_ki("u", u); o_ki("a", p->nodes[u]->module); o_ki("b", m);
      if (m != (int)p->nodes[u]->module) pred = dEChangeModule(u, m, p, a);
      ChangeModule(u, m, p);
    } else if (op == 'G') {
      int x = ri() % p->M, y = ri() % p->M;
      if (x == y) y = (x + 1) % p->M;
      o_ki("a", x); o_ki("b", y);
      if (x != y) { pred = dEMergeModules(x, y, p, a); MergeModules(x, y, p); }
    } else if (op == 'S' || op == 'A') {
      /* split the r-th non-empty module into the first empty one, when there is one */
      int r = ri(); int e = -1, t = -1, k = 0;
      double Ti = 0, Tf = 0; int lim = 0;
      if (op == 'A') { Ti = rd(); Tf = rd(); lim = ri(); }
      for (unsigned j = 0; j < p->M; j++) if (!p->modules[j]->size && e < 0) e = j;
      for (unsigned j = 0; j < p->M; j++) if (p->modules[j]->size) k++;
      if (k) r %= k;
      for (unsigned j = 0; j < p->M; j++) if (p->modules[j]->size && r-- == 0) t = j;
      o_ki("a", t); o_ki("b", e);
      if (e >= 0 && t >= 0) {
        if (op == 'S') ret = SplitModuleByComponent(t, e, p, a, gen_);
        else ret = SplitModuleSA(t, e, Ti, Tf, 0.95, lim, p, a, gen_);
        pred = (p->modules[t]->size && p->modules[e]->size) ? -dEMergeModules(t, e, p, a) : 0;
      }
    } else if (op == 'Z') CompressPartition(p);
    else if (op == 'Y') { Partition *c = CopyPartitionStruct(p); FreePartition(p); p = c; }
    o_ks("op", (char[]){op, 0}); o_kd("pred", pred); o_ki("ret", ret);
    dump_state("s", p);
    o_kd("q", PartitionModularity(p, a, 0)); o_kd("qd", PartitionModularity(p, a, 1));
    o_close('}');
  }
  o_close(']');
  dump_roles(p, a);
  FreePartition(p); FreeAdjaArray(a); gsl_rng_free(gen_);
}

/* fac Ti Tf Ts proba nochange */
static void c_anneal(void)
{
  Partition *p; AdjaArray *a;
  read_pa(&p, &a);
  double fac = rd(), Ti = rd(), Tf = rd(), Ts = rd(), pr = rd(); int lim = ri();
  dump_adj(a);
  dump_state("start", p);
  o_kd("q0", PartitionModularity(p, a, 0));
  fflush(stderr);
  int keep = dup(2); FILE *f = tmpfile();
  dup2(fileno(f), 2);
  int rc = GeneralSA(&p, a, fac, Ti, Tf, Ts, pr, lim, gen_);
  fflush(stderr);
  lseek(fileno(f), 0, SEEK_END);
  dup2(keep, 2); close(keep);
  fseek(f, 0, SEEK_END);
  o_ktext("log", f);
  o_ki("rc", rc);
  dump_state("end", p);
  o_kd("q1", PartitionModularity(p, a, 0));
  CompressPartition(p);
  dump_state("compressed", p);
  FreePartition(p); FreeAdjaArray(a); gsl_rng_free(gen_);
}

/* E (in out w)*E */
static void c_proj(void)
{
  int E = ri();
  unsigned *u = malloc((E + 1) * sizeof *u), *v = malloc((E + 1) * sizeof *v);
  double *w = malloc((E + 1) * sizeof *w);
  for (int i = 0; i < E; i++) { u[i] = ri(); v[i] = ri(); w[i] = rd(); }
  Partition *p = NULL; AdjaArray *a = NULL;
  int r = ProjectBipartEdgeList(u, v, w, E, &p, &a);
  o_ki("ret", r);
  dump_adj(a); dump_state("part", p);
  free(u); free(v); free(w);
  gsl_rng *g = new_rng(1);
  AssignNodesToModules(p, g);
  int k = ri();
  for (unsigned i = 0; i < p->N; i++) { int m = ri() % k; if (m >= (int)p->M) m = p->M - 1; if (m != (int)p->nodes[i]->module) ChangeModule(i, m, p); }
  CompressPartition(p);
  dump_state("end", p);
  o_kd("q", PartitionModularity(p, a, 0)); o_kd("qd", PartitionModularity(p, a, 1));
  dump_roles(p, a);
  FreePartition(p); FreeAdjaArray(a); gsl_rng_free(g);
}

/* text weighted bipartite */
static void c_edges(void)
{
  long n; char *t = rs_len(&n);
  int w = ri(), b = ri();
  FILE *f = in_stream(t, n);
  unsigned *ni = NULL, *no = NULL, E = 0, N = 0; double *ws = NULL; char **lab = NULL;
  int rc = EdgeListFileInput(f, w, b, &ni, &no, &ws, &lab, &E, &N);
  fclose(f);
  o_ki("rc", rc);
  if (!rc) {
    o_k("labels"); o_open('['); for (unsigned i = 0; i < N; i++) o_s(lab[i]); o_close(']');
    o_k("edges"); o_open('[');
    for (unsigned i = 0; i < E; i++) { o_open('['); o_i(ni[i]); o_i(no[i]); o_d(ws[i]); o_close(']'); }
    o_close(']');
    for (unsigned i = 0; i < N; i++) free(lab[i]);
    free(lab); free(ni); free(no); free(ws);
  }
  free(t);
}

/* N M labels strengths (module per node) (conn part)*N : both output formats */
static void c_out(void)
{
  int N = ri(), M = ri();
  char **lab = malloc((N + 1) * sizeof *lab);
  for (int i = 0; i < N; i++) lab[i] = rs();
  Partition *p = CreatePartition(N, M);
  gsl_rng *g = new_rng(3);
  AssignNodesToModules(p, g);
  for (int i = 0; i < N; i++) { int m = ri(); if (m != (int)p->nodes[i]->module) ChangeModule(i, m, p); }
  double *c = malloc((N + 1) * sizeof *c), *q = malloc((N + 1) * sizeof *q);
  for (int i = 0; i < N; i++) { c[i] = rd(); q[i] = rd(); }
  FILE *f = out_stream();
  TabularOutput(f, lab, p, c, q);
  o_ktext("table", f);
  f = out_stream();
  ClusteringOutput(f, p, lab);
  o_ktext("clust", f);
  for (int i = 0; i < N; i++) free(lab[i]);
  free(lab); free(c); free(q); FreePartition(p); gsl_rng_free(g);
}

/* N M labels strengths text */
static void c_assignf(void)
{
  int N = ri(), M = ri();
  char **lab = malloc((N + 1) * sizeof *lab);
  for (int i = 0; i < N; i++) lab[i] = rs();
  Partition *p = CreatePartition(N, M);
  for (int i = 0; i < N; i++) p->nodes[i]->strength = rd();
  long n; char *t = rs_len(&n);
  FILE *f = in_stream(t, n);
  o_ki("missing", AssignNodesToModulesFromFile(f, p, lab));
  fclose(f);
  dump_state("part", p);
  for (int i = 0; i < N; i++) free(lab[i]);
  free(lab); free(t); FreePartition(p);
}

static void c_stack(void)
{
  int max = ri(), n = ri();
  Stack *s = CreateStack(max);
  o_k("pops"); o_open('[');
  for (int i = 0; i < n; i++) { int v = ri(); if (v < 0) o_i(PopFromStack(s)); else AddToStack(v, s); }
  o_close(']');
  FreeStack(s);
}

struct cmd commands[] = {
  {"ops", c_ops}, {"anneal", c_anneal}, {"proj", c_proj}, {"edges", c_edges}, {"out", c_out},
  {"assignf", c_assignf}, {"stack", c_stack}, {NULL, NULL}
};
