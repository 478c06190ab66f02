// C14: string and memory functions of the tree's C library against their definitions in ISO C / POSIX.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <strings.h>
#include "symx.h"
#ifndef ONLY
#define ONLY -1
#endif
#ifndef N
#define N 4
#endif
void *h_alloc(size_t) __asm__("malloc");
typedef unsigned char u8;
static char *gm; static size_t gmn;
void *malloc(size_t n) { gm = h_alloc(n ? n : 1); gmn = n; return gm; }
static int sgn(int x) { return (x > 0) - (x < 0); }
#define A(c) symx_assert((c) != 0, #c)
// a string object of exactly n+1 bytes; any byte may be NUL, the last one is
static char *str(unsigned n, const char *nm) { char *p = h_alloc(n + 1); symx_symbolic(p, n ? n : 1, nm); p[n] = 0; return p; }
static char *buf(unsigned n, const char *nm) { char *p = h_alloc(n ? n : 1); if (n) symx_symbolic(p, n, nm); return p; }
static char *dup(const char *s, unsigned n) { char *p = h_alloc(n ? n : 1); for (unsigned i = 0; i < n; i++) p[i] = s[i]; return p; }
static void same(const char *p, const char *q, unsigned n, const char *m) { int d = 0; for (unsigned i = 0; i < n; i++) d |= p[i] ^ q[i]; symx_assert(d == 0, m); }
static size_t len(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static int sc(void) { int c; symx_symbolic(&c, 4, "c"); return c; }
static size_t pickn(void) { unsigned i = symx_choose(N + 3); return i == N + 2 ? (size_t)-1 : i; }
static size_t bigs(void) { static const size_t t[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65}; return t[symx_choose(sizeof t / sizeof *t)]; }
static void t_strlen(void) { char *s = str(N, "s"); size_t l = len(s); A(strlen(s) == l); }
static void t_strnlen(void) { char *s = str(N, "s"); size_t n = pickn(), l = 0; while (l < n && s[l]) l++; A(strnlen(s, n) == l); }
static void t_strnlen_unterminated(void) { char *s = buf(N, "s"); size_t l = 0; while (l < N && s[l]) l++; A(strnlen(s, N) == l); }
static void t_strchr(void) { char *s = str(N, "s"); int c = sc(); char *e = 0; for (size_t i = 0;; i++) { if (s[i] == (char)c) { e = s + i; break; } if (!s[i]) break; } A(strchr(s, c) == e); }
static void t_strrchr(void) { char *s = str(N, "s"); int c = sc(); char *e = 0; for (size_t i = 0;; i++) { if (s[i] == (char)c) e = s + i; if (!s[i]) break; } A(strrchr(s, c) == e); }
static void t_strstr(void) {
  char *s = str(N, "s"), *t = str(symx_choose(4), "t"); size_t a = len(s), b = len(t); char *e = 0;
  for (size_t i = 0; i + b <= a && !e; i++) { size_t k = 0; while (k < b && s[i + k] == t[k]) k++; if (k == b) e = s + i; }
  A(strstr(s, t) == e);
}
static int ocmp(const u8 *p, const u8 *q, size_t n, int stop) { for (size_t i = 0; i < n; i++) { if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; if (stop && !p[i]) return 0; } return 0; }
static void t_strcmp(void) { char *s = str(N, "s"), *t = str(symx_choose(N + 1), "t"); A(sgn(strcmp(s, t)) == ocmp((u8 *)s, (u8 *)t, N + 9, 1)); A(sgn(strcmp(t, s)) == ocmp((u8 *)t, (u8 *)s, N + 9, 1)); }
static void t_strcoll(void) { char *s = str(N, "s"), *t = str(2, "t"); A(sgn(strcoll(s, t)) == ocmp((u8 *)s, (u8 *)t, N + 9, 1)); }
static void t_strncmp(void) { char *s = str(N, "s"), *t = str(symx_choose(N + 1), "t"); size_t n = pickn(); A(sgn(strncmp(s, t, n)) == ocmp((u8 *)s, (u8 *)t, n, 1)); }
static void t_strncmp_unterminated(void) { char *s = buf(3, "s"), *t = buf(3, "t"); A(sgn(strncmp(s, t, 3)) == ocmp((u8 *)s, (u8 *)t, 3, 1)); }
static void t_memcmp(void) { unsigned n = symx_choose(2 * N + 1); char *s = buf(n, "s"), *t = buf(n, "t"); A(sgn(memcmp(s, t, n)) == ocmp((u8 *)s, (u8 *)t, n, 0)); }
static void t_memchr(void) { unsigned n = symx_choose(2 * N + 1); char *s = buf(n, "s"); int c = sc(); char *e = 0; for (unsigned i = 0; i < n && !e; i++) if ((u8)s[i] == (u8)c) e = s + i; A(memchr(s, c, n) == e); }
static void t_memcpy(void) { size_t n = bigs(), o = symx_choose(2); char *d = buf(n + 4, "d"), *s = buf(n + o, "s"), *e = dup(d, n + 4), *k = dup(s, n + o); for (size_t i = 0; i < n; i++) e[i + 2] = s[i + o]; A(memcpy(d + 2, s + o, n) == d + 2); same(d, e, n + 4, "memcpy wrote the right bytes only"); same(s, k, n + o, "the source is unchanged"); }
static void t_memmove(void) {
  size_t n = bigs(), S = n + 8; char *d = buf(S, "d"), *k = dup(d, S), *e = dup(d, S); unsigned x = symx_choose(5) * 2, y = symx_choose(5) * 2; x = x > 8 ? 8 : x;
  for (size_t i = 0; i < n; i++) e[x + i] = k[y + i]; A(memmove(d + x, d + y, n) == d + x); same(d, e, S, "memmove moved the right bytes only");
}
static void t_memset(void) { size_t n = bigs(); unsigned o = symx_choose(3); int c = sc(); char *d = buf(n + 4, "d"), *e = dup(d, n + 4); for (size_t i = 0; i < n; i++) e[i + o] = (char)c; A(memset(d + o, c, n) == d + o); same(d, e, n + 4, "memset set the right bytes only"); }
static void t_memccpy(void) {
  unsigned n = symx_choose(N + 1); char *s = buf(n, "s"), *d = buf(n + 1, "d"), *e = dup(d, n + 1), *r = 0; int c = sc();
  for (unsigned i = 0; i < n; i++) { e[i] = s[i]; if ((u8)s[i] == (u8)c) { r = d + i + 1; break; } }
  A(memccpy(d, s, c, n) == r); same(d, e, n + 1, "memccpy wrote the right bytes only");
}
static void t_strcpy(void) { char *s = str(N, "s"), *d = buf(N + 2, "d"), *e = dup(d, N + 2); size_t l = len(s); for (size_t i = 0; i <= l; i++) e[i] = s[i]; A(strcpy(d, s) == d); same(d, e, N + 2, "strcpy wrote the right bytes only"); }
static void t_stpcpy(void) { char *s = str(N, "s"), *d = buf(N + 2, "d"), *e = dup(d, N + 2); size_t l = len(s); for (size_t i = 0; i <= l; i++) e[i] = s[i]; A(stpcpy(d, s) == d + l); same(d, e, N + 2, "stpcpy wrote the right bytes only"); }
static void t_strncpy(void) { char *s = str(N, "s"); unsigned n = symx_choose(N + 4); char *d = buf(n + 1, "d"), *e = dup(d, n + 1); size_t l = len(s); for (size_t i = 0; i < n; i++) e[i] = i < l ? s[i] : 0; A(strncpy(d, s, n) == d); same(d, e, n + 1, "strncpy wrote the right bytes only"); }
static void t_stpncpy(void) { char *s = str(N, "s"); unsigned n = symx_choose(N + 4); char *d = buf(n + 1, "d"), *e = dup(d, n + 1); size_t l = len(s); for (size_t i = 0; i < n; i++) e[i] = i < l ? s[i] : 0; A(stpncpy(d, s, n) == d + (l < n ? l : n)); same(d, e, n + 1, "stpncpy wrote the right bytes only"); }
static void t_strcat(void) { char *s = str(3, "s"), *d = buf(8, "d"); d[symx_choose(4)] = 0; char *e = dup(d, 8); size_t l = len(d), k = len(s); for (size_t i = 0; i <= k; i++) e[l + i] = s[i]; A(strcat(d, s) == d); same(d, e, 8, "strcat wrote the right bytes only"); }
static void t_strncat(void) { char *s = str(3, "s"), *d = buf(8, "d"); d[symx_choose(4)] = 0; char *e = dup(d, 8); size_t n = pickn(), l = len(d), k = len(s); if (k > n) k = n; for (size_t i = 0; i < k; i++) e[l + i] = s[i]; e[l + k] = 0; A(strncat(d, s, n) == d); same(d, e, 8, "strncat wrote the right bytes only"); }
static void t_strdup(void) { char *s = str(N, "s"); size_t l = len(s); char *r = strdup(s); A(r == gm); A(gmn >= l + 1); same(r, s, l + 1, "strdup copied the string"); }
static void t_strndup(void) { char *s = str(N, "s"); size_t n = pickn(), l = len(s); if (l > n) l = n; char *r = strndup(s, n); A(r == gm); A(gmn >= l + 1); same(r, s, l, "strndup copied the string"); A(r[l] == 0); }
static void t_strndup_unterminated(void) { char *s = buf(3, "s"); size_t l = 0; while (l < 3 && s[l]) l++; char *r = strndup(s, 3); A(r == gm && gmn >= l + 1); same(r, s, l, "strndup copied the string"); A(r[l] == 0); }
static int in(const char *s, char c) { for (; *s; s++) if (*s == c) return 1; return 0; }
static void t_strspn(void) { char *s = str(N, "s"), *t = str(symx_choose(3), "t"); size_t l = 0; while (s[l] && in(t, s[l])) l++; A(strspn(s, t) == l); }
static void t_strcspn(void) { char *s = str(N, "s"), *t = str(symx_choose(3), "t"); size_t l = 0; while (s[l] && !in(t, s[l])) l++; A(strcspn(s, t) == l); }
static void t_strpbrk(void) { char *s = str(N, "s"), *t = str(symx_choose(3), "t"); size_t l = 0; while (s[l] && !in(t, s[l])) l++; A(strpbrk(s, t) == (s[l] ? s + l : 0)); }
static void tok(int r_) {
  char *s = str(N, "s"), *o = dup(s, N + 1), *save = 0; size_t p = 0; char *first = s;
  for (int k = 0; k < 4; k++) { // the delimiters may differ from call to call
    char *t = str(symx_choose(2) + 1, "t"), *e = 0;
    while (o[p] && in(t, o[p])) p++;
    if (o[p]) { e = s + p; while (o[p] && !in(t, o[p])) p++; if (o[p]) o[p++] = 0; }
    char *g = r_ ? strtok_r(first, t, &save) : strtok(first, t); first = 0; A(g == e); same(s, o, N + 1, "strtok cut the string at the delimiter");
    if (!e) break;
  }
}
static void t_strtok(void) { tok(0); }
static void t_strtok_r(void) { tok(1); }
static int lowr(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ccmp(const u8 *p, const u8 *q, size_t n) { for (size_t i = 0; i < n; i++) { int a = lowr(p[i]), b = lowr(q[i]); if (a != b) return a < b ? -1 : 1; if (!a) return 0; } return 0; }
static void t_strcasecmp(void) { char *s = str(3, "s"), *t = str(symx_choose(4), "t"); A(sgn(strcasecmp(s, t)) == ccmp((u8 *)s, (u8 *)t, 99)); }
static void t_strncasecmp(void) { char *s = str(3, "s"), *t = str(symx_choose(4), "t"); size_t n = pickn(); A(sgn(strncasecmp(s, t, n)) == ccmp((u8 *)s, (u8 *)t, n)); }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(strlen), F(strnlen), F(strnlen_unterminated), F(strchr), F(strrchr), F(strstr), F(strcmp), F(strcoll), F(strncmp), F(strncmp_unterminated), F(memcmp), F(memchr), F(memcpy), F(memmove), F(memset), F(memccpy), F(strcpy), F(stpcpy), F(strncpy), F(stpncpy), F(strcat), F(strncat), F(strdup), F(strndup), F(strndup_unterminated), F(strspn), F(strcspn), F(strpbrk), F(strtok), F(strtok_r), F(strcasecmp), F(strncasecmp)};
void harness(void) { unsigned i = ONLY < 0 ? symx_choose(sizeof T / sizeof *T) : ONLY; symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); symx_path_end(T[i].n); }
