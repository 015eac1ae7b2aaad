/* Linked into the executors of the 'leak' flavour: what a request allocated and is still alive when it ends.
   The whole process is watched (GSL and stdio as well, so an open file or a generator counts too). */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
extern void *__libc_stack_end;

#define NFR 6
struct rec { void *p; size_t n; void *fr[NFR]; };
static struct rec *tab; static size_t cap, used;        /* open addressing, linear probing */
static int on;

static size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull % cap; }
static void put(struct rec r);
static void grow(void)
{
  struct rec *old = tab; size_t oc = cap;
  cap = cap ? cap * 2 : 1 << 12; used = 0;
  tab = __libc_calloc(cap, sizeof *tab);
  for (size_t i = 0; i < oc; i++) if (old[i].p) put(old[i]);
  __libc_free(old);
}
static void put(struct rec r)
{
  if (2 * (used + 1) > cap) grow();
  size_t i = slot(r.p);
  while (tab[i].p) i = (i + 1) % cap;
  tab[i] = r; used++;
}
static int drop(void *p)
{
  if (!cap || !p) return 0;
  size_t i = slot(p);
  while (tab[i].p && tab[i].p != p) i = (i + 1) % cap;
  if (!tab[i].p) return 0;
  tab[i].p = NULL; used--;
  for (size_t j = (i + 1) % cap; tab[j].p; j = (j + 1) % cap) {
    struct rec r = tab[j]; tab[j].p = NULL; used--;
    put(r);
  }
  return 1;
}
static void note(void *p, size_t n, void **bp, void *ret)
{
  struct rec r = { p, n, { ret } };
  for (int i = 1; i < NFR; i++) {
    if ((void *)bp < (void *)&r || (void *)bp >= __libc_stack_end || (uintptr_t)bp & 7) break;
    r.fr[i] = bp[1];
    if ((void **)*bp <= bp) break;
    bp = *bp;
  }
  put(r);
}
#define NOTE(p, n) do { if (on && (p)) note(p, n, *(void ***)__builtin_frame_address(0), __builtin_return_address(0)); } while (0)

void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) memset(p, 165, n); NOTE(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); NOTE(p, a * b); return p; }
void free(void *p) { drop(p); __libc_free(p); }
void *realloc(void *q, size_t n)
{
  int had = drop(q);
  void *p = __libc_realloc(q, n);
  if (had || !q) NOTE(p, n);
  return p;
}

void pbt_leak_begin(void) { if (cap) memset(tab, 0, cap * sizeof *tab); used = 0; on = 1; }
void pbt_leak_end(FILE *f)
{
  on = 0;
  int k = 0;
  fprintf(f, ",\"_leaks\":[%zu,[", used);
  for (size_t i = 0; i < cap && k < 8; i++)
    if (tab[i].p) {
      fprintf(f, "%s[%zu", k++ ? "," : "", tab[i].n);
      for (int j = 0; j < NFR && tab[i].fr[j]; j++) fprintf(f, ",%lu", (unsigned long)tab[i].fr[j]);
      fputs("]", f);
    }
  fputs("]]", f);
}
