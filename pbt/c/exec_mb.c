/* Overlapping layers, AND and OR (multiblock.c). */
#include "pbt_sbm.h"
#include "src/multiblock.h"
#include "pbt_mb.h"
#define A1 &H, linC, S.nlist, S.glist, S.part, S.n, S.G2G, S.n2g, LC, LCS, LF, LFS, HL, S.gen
static double scratch_H(char fam) { return fam == 'a' ? PartitionHMB(S.part, linC, HL) : ORPartitionHMB(S.part, linC, HL); }
static void step(char op, int factor)
{
  switch (op) {
  case 'm': LSMCStepMB(factor, A1); break;
  case 'g': GibbsLinkScoreStepMB(A1); break;
  case 'd': ESTIMATE(GetDecorrelationStepMB(A1, v_), v_); break;
  case 't': ThermalizeLSMCMB(factor, A1, VERB); break;
  case 'M': ORLSMCStepMB(factor, A1); break;
  case 'G': ORGibbsLinkScoreStepMB(A1); break;
  case 'D': ESTIMATE(ORGetDecorrelationStepMB(A1, v_), v_); break;
  case 'u': ORThermalizeLSMCMB(factor, A1, VERB); break;
  }
}
static double **score(char kind, struct node_gra *net, double lc, int N, gsl_rng *g, char v)
{
  switch (kind) {
  case 'm': return LinkScoreMB(net, lc, N, g, v);
  case 'g': return GibbsLinkScoreMB(net, lc, N, g, v);
  case 'M': return ORLinkScoreMB(net, lc, N, g, v);
  default: return ORGibbsLinkScoreMB(net, lc, N, g, v);
  }
}
static void c_deg(void) { int n = ri(); o_k("d"); o_open('['); for (int i = 0; i < n; i++) o_d(LogDegeneracy(ri())); o_close(']'); }
struct cmd commands[] = { {"steps", c_steps}, {"hist", c_hist}, {"score", c_score}, {"deg", c_deg}, {NULL, NULL} };
