/* The search tree behind every table of labels (lib/search.c). */
#define _GNU_SOURCE 1
#include <search.h>
#include "pbt.h"
static long ncmp, gone;
static int cmp(const void *a, const void *b) { ncmp++; return strcmp(a, b); }
static void bye(void *k) { gone++; o_s(k); free(k); }
static void see(const void *n, VISIT v, int depth) { o_open('['); o_i(v == preorder ? 0 : v == postorder ? 1 : v == endorder ? 2 : 3); o_s(*(char **)n); o_i(depth); o_close(']'); }
static void c_tree(void)
{
  void *root = NULL;
  int n = ri();
  o_k("r"); o_open('[');
  for (int i = 0; i < n; i++) {
    char op = *tok();
    char *k, **e; void *p;
    o_open('[');
    ncmp = 0;
    switch (op) {
    case 's': k = rs(); e = tsearch(k, &root, cmp); o_i(*e == k); o_s(*e); o_i(ncmp); if (*e != k) free(k); break;
    case 'f': k = rs(); p = tfind(k, &root, cmp); o_i(p != NULL); o_s(p ? *(char **)p : ""); o_i(ncmp); free(k); break;
    case 'd': { k = rs(); char *old = (p = tfind(k, &root, cmp)) ? *(char **)p : NULL; ncmp = 0;
      p = tdelete(k, &root, cmp); o_i(p != NULL); o_s(old ? old : ""); o_i(ncmp); free(k); free(old); break; }
    case 'w': o_open('['); twalk(root, see); o_close(']'); break;
    case 'x': gone = 0; o_open('['); tdestroy(root, bye); root = NULL; o_close(']'); break;
    }
    o_close(']');
  }
  o_close(']');
  o_k("rest"); o_open('['); tdestroy(root, bye); o_close(']');
}
struct cmd commands[] = { {"tree", c_tree}, {NULL, NULL} };
