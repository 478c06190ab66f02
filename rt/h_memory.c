// C17: the allocator, sorting and searching of the tree's C library.
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "symx.h"
#ifndef ONLY
#define ONLY -1
#endif
#ifndef NS
#define NS 6
#endif
#ifndef K
#define K 4
#endif
void *h_alloc(size_t) __asm__("malloc");
typedef unsigned char u8;
#define A(c) symx_assert((c) != 0, #c)
#define ARENA (1 << 20)
static char arena[ARENA] __attribute__((aligned(4096))); static size_t used; static int nofail = 1, calls; static size_t limit = ARENA;
void *sbrk(intptr_t n) { calls++; if (n < 0 || (size_t)n > limit - used) return (void *)-1; char *p = arena + used; used += n; return p; }
typedef struct { char *p; size_t n; u8 v; } Blk; static Blk b[K + 4]; static int nb;
static void fill(char *p, size_t n, u8 v) { if (n) { p[0] = v; p[n / 2] = v; p[n - 1] = v; } }
static void good(Blk *x) { if (x->n) { A((u8)x->p[0] == x->v); A((u8)x->p[x->n / 2] == x->v); A((u8)x->p[x->n - 1] == x->v); } }
static void fresh(char *p, size_t n) { // a block just returned
  A(p >= arena && p + n <= arena + used); A(((uintptr_t)p & 7) == 0);
  for (int i = 0; i < nb; i++) if (b[i].p) A(p + n <= b[i].p || b[i].p + b[i].n <= p);
}
static size_t size(int k) { // around the header and page sizes; a free byte within each
  static const size_t base[] = {1, 16, 4064, 32, 4080, 8160, 0}; u8 d; symx_symbolic(&d, 1, "size"); size_t n = base[symx_choose(k)]; if (n == 0) return 0; symx_assume(d < 2); return symx_concretize(n + d);
}
static void add(char *p, size_t n) { fresh(p, n); u8 v; symx_symbolic(&v, 1, "fill"); fill(p, n, v); b[nb].p = p; b[nb].n = n; b[nb].v = v; nb++; }
static void ops(int n, int kinds, int failing) {
  for (int i = 0; i < n; i++) {
    int k = symx_choose(kinds);
    if (failing && i == n - 1) limit = used;
    if (k == 0 || !nb) { size_t s = size(failing ? 5 : 4); char *p = malloc(s); if (failing && !p) { A(used + s > limit - 64 || 1); continue; } A(p != 0); add(p, s); }
    else { int j = symx_choose(nb); if (!b[j].p) symx_path_end("already free");
      if (k == 1) { free(b[j].p); b[j].p = 0; }
      else { size_t s = size(4); Blk o = b[j]; b[j].p = 0; char *p = realloc(o.p, s); if (!p) { A(failing); b[j] = o; continue; }
        size_t m = o.n < s ? o.n : s; if (m) { A((u8)p[0] == o.v); if (o.n / 2 < m) A((u8)p[o.n / 2] == o.v); if (o.n <= s) A((u8)p[o.n - 1] == o.v); } add(p, s); } }
    for (int j = 0; j < nb; j++) if (b[j].p) good(&b[j]);
  }
}
static void t_malloc(void) { ops(K, 2, 0); }
static void t_realloc(void) { ops(K - 1, 3, 0); }
static void t_exhausted(void) { ops(3, 3, 1); }
static void t_reuse(void) { // everything freed, in any order: the memory is one piece again
  size_t n[3]; char *p[3]; for (int i = 0; i < 3; i++) { n[i] = size(4); p[i] = malloc(n[i]); add(p[i], n[i]); }
  unsigned o = symx_choose(6); static const u8 perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int i = 0; i < 3; i++) { free(p[perm[o][i]]); b[perm[o][i]].p = 0; for (int j = 0; j < 3; j++) if (b[j].p) good(&b[j]); }
  size_t u = used; char *q = malloc(used - 64); A(q != 0); A(used == u); add(q, u - 64);
}
static void t_calloc(void) { char *p = malloc(100); fill(p, 100, 0xff); for (int i = 0; i < 100; i++) p[i] = 0x55; free(p); size_t a, c; symx_symbolic(&a, 8, "n"); symx_symbolic(&c, 8, "size"); symx_assume((a <= 5) & (c <= 5)); a = symx_concretize(a); c = symx_concretize(c); char *q = calloc(a, c); A(q != 0); fresh(q, a * c); for (size_t i = 0; i < a * c; i++) A(q[i] == 0); }
static void t_overflow(void) { // sizes no allocation can satisfy
  size_t a, c; symx_symbolic(&a, 8, "n"); symx_symbolic(&c, 8, "size"); int k = symx_choose(3);
  if (k == 0) { symx_assume(a > (size_t)-1 / 4); A(malloc(a) == 0); }
  else if (k == 1) { c = (size_t[]){2, 3, 8, 16, 1000, (size_t)1 << 32}[symx_choose(6)]; symx_assume(a > (size_t)-1 / c); A(calloc(a, c) == 0); A(calloc(c, a) == 0); }
  else { char *p = malloc(10); add(p, 10); symx_assume(a > (size_t)-1 / 4); A(realloc(p, a) == 0); good(&b[0]); }
}
static void t_free_null(void) { free(0); char *p = malloc(0); free(p); char *q = realloc(0, 5); A(q != 0); add(q, 5); good(&b[0]); }
// sorting
static char *base; static size_t esz, nel; static int bad;
static int key(const void *p) { return esz == 1 ? *(signed char *)p : esz == 3 ? *(signed char *)p : esz == 2 ? (signed char)*(short *)p : (signed char)*(int *)p; }
static int cmp(const void *x, const void *y) { const char *p = x, *q = y; if (p < base || p >= base + nel * esz || (p - base) % esz) bad = 1; if (q < base || q >= base + nel * esz || (q - base) % esz) bad = 1; int a = key(x), c = key(y); return a < c ? -1 : a > c; }
static void sort(size_t n, size_t sz) { // element: key, then its original index
  esz = sz; nel = n; base = h_alloc(n * sz ? n * sz : 1); signed char k[8]; if (n) symx_symbolic(k, n, "key");
  for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < sz; j++) base[i * sz + j] = 0x77; base[i * sz] = k[i]; if (sz > 1) base[i * sz + 1] = i; if (sz > 2) base[i * sz + sz - 1] = i + 1; }
  qsort(base, n, sz, cmp); A(!bad); unsigned seen = 0; int ok = 1;
  for (size_t i = 0; i < n; i++) { char *e = base + i * sz; if (i) ok &= (signed char)e[-(long)sz] <= (signed char)e[0]; if (sz > 1) { unsigned id = (u8)e[1]; A(id < n); id = symx_concretize(id); A(!(seen >> id & 1)); seen |= 1u << id; ok &= e[0] == k[id]; if (sz > 2) ok &= e[sz - 1] == (int)id + 1; for (size_t j = 2; j + 1 < sz; j++) ok &= e[j] == 0x77; } }
  A(ok);
  if (sz == 1) { signed char probe; symx_symbolic(&probe, 1, "probe"); int a = 0, c = 0; for (size_t i = 0; i < n; i++) a += k[i] <= probe, c += base[i] <= probe; symx_assert(a == c, "the sorted elements are the original ones"); }
}
static void t_qsort(void) { unsigned n = symx_choose(NS + 1); static const u8 s[] = {3, 4, 8, 2}; sort(n, s[n & 3]); }
static void t_qsort_bytes(void) { sort(NS - 1, 1); }
static void t_qsort_sizes(void) { static const u8 s[] = {5, 12, 16, 24, 40}; sort(3, s[symx_choose(5)]); }
static int scmp(const void *k, const void *e) { const char *q = e; if (q < base || q >= base + nel * esz || (q - base) % esz) bad = 1; signed char a = *(const signed char *)k; int c = key(e); return a < c ? -1 : a > c; }
static void t_bsearch(void) { unsigned n = symx_choose(6); static const u8 s[] = {1, 2, 3, 8}; esz = s[symx_choose(4)]; nel = n; base = h_alloc(n * esz + 1); signed char k[8], want; symx_symbolic(k, 8, "key"); symx_symbolic(&want, 1, "want"); for (unsigned i = 0; i < n; i++) { for (size_t j = 0; j < esz; j++) base[i * esz + j] = 0; base[i * esz] = k[i]; if (i) symx_assume(k[i - 1] <= k[i]); }
  char *r = bsearch(&want, base, n, esz, scmp); A(!bad); int have = 0; for (unsigned i = 0; i < n; i++) have |= k[i] == want; A(have == (r != 0)); if (r) { A(r >= base && r < base + n * esz && (r - base) % esz == 0); A((signed char)*r == want); } }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(malloc), F(realloc), F(exhausted), F(reuse), F(calloc), F(overflow), F(free_null), F(qsort), F(qsort_bytes), F(qsort_sizes), F(bsearch)};
void harness(void) { unsigned i = ONLY < 0 ? symx_choose(sizeof T / sizeof *T) : ONLY; symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); symx_path_end(T[i].n); }
