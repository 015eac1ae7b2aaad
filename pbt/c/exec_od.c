/* Degeneracy-only layers (only_deg.c). */
#include "pbt_sbm.h"
#include "src/only_deg.h"
#include "pbt_mb.h"
extern double LogDegeneracy_OD(int) __attribute__((weak));
#define A1 &H, linC, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, LC, LCS, LF, LFS, HL, S.gen
static double scratch_H(char fam) { return PartitionHMB_OD(S.part, linC, HL); }
static void step(char op, int factor)
{
  switch (op) {
  case 'm': LSMCStepMB_OD(factor, A1); break;
  case 'g': GibbsLinkScoreStepMB_OD(A1); break;
  case 'd': ESTIMATE(GetDecorrelationStepMB_OD(A1, v_), v_); break;
  case 't': ThermalizeLSMCMB_OD(factor, A1, VERB); break;
  }
}
static double **score(char kind, struct node_gra *net, double lc, int N, gsl_rng *g, char v)
{
  return kind == 'm' ? LinkScoreMB_OD(net, lc, N, g, v) : GibbsLinkScoreMB_OD(net, lc, N, g, v);
}
static void c_deg(void) { NEED(LogDegeneracy_OD); int n = ri(); o_k("d"); o_open('['); for (int i = 0; i < n; i++) o_d(LogDegeneracy_OD(ri())); o_close(']'); }
struct cmd commands[] = { {"steps", c_steps}, {"hist", c_hist}, {"score", c_score}, {"deg", c_deg}, {NULL, NULL} };
