// C15: character classes and text-to-integer conversion of the tree's C library.
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <ctype.h>
#include <stdlib.h>
#include "symx.h"
#ifndef ONLY
#define ONLY -1
#endif
#ifndef NL
#define NL 3
#endif
#ifndef N
#define N 4
#endif
void *h_alloc(size_t) __asm__("malloc");
typedef unsigned long long u64; typedef long long i64; typedef unsigned char u8; typedef unsigned __int128 u128;
#define A(c) symx_assert((c) != 0, #c)
static char *str(unsigned n, const char *nm) { char *p = h_alloc(n + 1); symx_symbolic(p, n ? n : 1, nm); p[n] = 0; return p; }
static int chr(void) { u8 c; symx_symbolic(&c, 1, "c"); int e = symx_choose(2); return e ? -1 : c; }
static int rng(int c, int a, int b) { return (c >= a) & (c <= b); }
#define CT(f, e) static void t_##f(void) { int c = chr(); A(!!f(c) == !!(e)); }
CT(isdigit, rng(c, '0', '9')) CT(isxdigit, rng(c, '0', '9') | rng(c, 'a', 'f') | rng(c, 'A', 'F')) CT(isalpha, rng(c, 'a', 'z') | rng(c, 'A', 'Z')) CT(isalnum, rng(c, '0', '9') | rng(c, 'a', 'z') | rng(c, 'A', 'Z'))
CT(isspace, rng(c, 9, 13) | (c == ' ')) CT(isupper, rng(c, 'A', 'Z')) CT(islower, rng(c, 'a', 'z')) CT(isprint, rng(c, 32, 126)) CT(isgraph, rng(c, 33, 126)) CT(iscntrl, rng(c, 0, 31) | (c == 127))
CT(ispunct, rng(c, 33, 47) | rng(c, 58, 64) | rng(c, 91, 96) | rng(c, 123, 126)) CT(isascii, rng(c, 0, 127))
static void t_tolower(void) { int c = chr(); A(tolower(c) == (rng(c, 'A', 'Z') ? c + 32 : c)); }
static void t_toupper(void) { int c = chr(); A(toupper(c) == (rng(c, 'a', 'z') ? c - 32 : c)); }
static int dig(int c) { if (rng(c, '0', '9')) return c - '0'; if (rng(c, 'a', 'z')) return c - 'a' + 10; if (rng(c, 'A', 'Z')) return c - 'A' + 10; return 99; }
typedef struct { int neg, over; u64 mag; const char *end; } R;
// ISO C 7.22.1.4 on exact integers
static R oracle(const char *s, int base) {
  R r = {0, 0, 0, s}; const char *p = s; while (rng((u8)*p, 9, 13) | (*p == ' ')) p++;
  if (*p == '-') { r.neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && dig((u8)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (; dig((u8)*p) < base; p++) { u128 v = (u128)r.mag * base + dig((u8)*p); if (r.over | (v >> 64 != 0)) r.over = 1; r.mag = (u64)v; r.end = p + 1; }
  return r;
}
static i64 sres(R r) { if (!r.neg) return r.over || r.mag > (u64)LLONG_MAX ? LLONG_MAX : (i64)r.mag; return r.over || r.mag > (u64)1 << 63 ? LLONG_MIN : (i64)(0 - r.mag); }
#ifndef NB
#define NB 6
#endif
static const int bases[] = {0, 10, 16, 3, 36, 8, 2, 11};
static void s_fn(int k, char *s, int base) {
  R r = oracle(s, base); char *e = 0, **pe = base == 3 ? 0 : &e;
  if (k == 0) A(strtol(s, pe, base) == sres(r)); else if (k == 1) A(strtoll(s, pe, base) == sres(r));
  else { if (r.over & r.neg) symx_path_end("the sign of an overflowing unsigned conversion is not specified here"); u64 v = r.over ? ULLONG_MAX : r.neg ? 0 - r.mag : r.mag; if (k == 2) A(strtoul(s, pe, base) == v); else A(strtoull(s, pe, base) == v); }
  if (pe) A(e == r.end);
}
static void s_free(int k) { s_fn(k, str(N, "s"), k ? bases[symx_choose(3)] : bases[symx_choose(NB)]); }
// long digit strings around the limits: a fixed prefix and free last characters
static void s_limit(int k) {
  static const struct { const char *p; int base; } L[] = {{"9223372036854775", 10}, {"-9223372036854775", 10}, {"1844674407370955", 10}, {"  -1844674407370955", 10}, {"0x7fffffffffffff", 16}, {"ffffffffffffff", 16}, {"-800000000000000", 16}, {"77777777777777777777", 8}, {"177777777777777777777", 0}, {"1111111111111111111111111111111111111111111111111111111111111", 2}, {"1y2p0ij32e8", 36}, {"3w5e11264sg", 36}, {"99999999999999999999", 10}, {"0", 10}, {"12345678", 10}};
  static const unsigned char sg[] = {0, 1, 4, 6, 7, 9, 10, 12, 13}, us[] = {2, 3, 5, 8, 9, 11, 12, 14}; unsigned i = k < 2 ? sg[symx_choose(sizeof sg)] : us[symx_choose(sizeof us)], n = 0; char *s = h_alloc(96); while (L[i].p[n]) { s[n] = L[i].p[n]; n++; }
  symx_symbolic(s + n, NL, "t"); s[n + NL] = 0; for (int j = 0; j < NL; j++) symx_assume(rng(s[n + j], '0', '9') | rng(s[n + j], 'a', 'f') | (s[n + j] == 0)); s_fn(k, s, L[i].base);
}
#define ST(f, k) static void t_##f(void) { s_free(k); } static void t_##f##_limits(void) { s_limit(k); }
ST(strtol, 0) ST(strtoll, 1) ST(strtoul, 2) ST(strtoull, 3)
static R ten(char *s) { return oracle(s, 10); }
static void t_atoi(void) { char *s = str(N + 1, "s"); R r = ten(s); A(atoi(s) == (int)(r.neg ? 0 - r.mag : r.mag)); }
static void t_atoi_limits(void) { static const char *L[] = {"2147483", "-2147483", " +214748"}; const char *q = L[symx_choose(3)]; char *s = h_alloc(32); unsigned n = 0; while (*q) s[n++] = *q++; symx_symbolic(s + n, 3, "t"); s[n + 3] = 0; for (int j = 0; j < 3; j++) symx_assume(rng(s[n + j], '0', '9') | (s[n + j] == 'z')); R r = ten(s); i64 v = r.neg ? -(i64)r.mag : (i64)r.mag; symx_assume((v >= INT_MIN) & (v <= INT_MAX)); A(atoi(s) == v); }
static void t_atol(void) { char *s = str(N + 1, "s"); A(atol(s) == sres(ten(s))); }
static void t_atoll(void) { char *s = str(N + 1, "s"); A(atoll(s) == sres(ten(s))); }
static void t_abs(void) { int x; symx_symbolic(&x, 4, "x"); symx_assume(x != INT_MIN); A(abs(x) == (x < 0 ? -x : x)); }
static void t_labs(void) { long x; symx_symbolic(&x, 8, "x"); symx_assume(x != LONG_MIN); A(labs(x) == (x < 0 ? -x : x)); }
static void t_llabs(void) { i64 x; symx_symbolic(&x, 8, "x"); symx_assume(x != LLONG_MIN); A(llabs(x) == (x < 0 ? -x : x)); }
static void t_nrand48(void) { unsigned short x[3], y[3]; symx_symbolic(x, 6, "x"); for (int i = 0; i < 3; i++) y[i] = x[i]; u64 v = y[0] | (u64)y[1] << 16 | (u64)y[2] << 32; v = (v * 0x5deece66d + 11) & (((u64)1 << 48) - 1); long r = nrand48(x); A(r == (long)(v >> 17)); A(x[0] == (unsigned short)v && x[1] == (unsigned short)(v >> 16) && x[2] == (unsigned short)(v >> 32)); }
static void t_rand(void) { unsigned sd; symx_symbolic(&sd, 4, "seed"); srand(sd); u64 v = (u64)sd << 16 | 0x330e; for (int i = 0; i < 2; i++) { v = (v * 0x5deece66d + 11) & (((u64)1 << 48) - 1); int r = rand(); A(r == (int)(v >> 17)); A(r >= 0 && r <= RAND_MAX); } }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(isdigit), F(isxdigit), F(isalpha), F(isalnum), F(isspace), F(isupper), F(islower), F(isprint), F(isgraph), F(iscntrl), F(ispunct), F(isascii), F(tolower), F(toupper), F(strtol), F(strtoll), F(strtoul), F(strtoull), F(strtol_limits), F(strtoll_limits), F(strtoul_limits), F(strtoull_limits), F(atoi), F(atoi_limits), F(atol), F(atoll), F(abs), F(labs), F(llabs), F(nrand48), F(rand)};
void harness(void) { unsigned i = ONLY < 0 ? symx_choose(sizeof T / sizeof *T) : ONLY; symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); symx_path_end(T[i].n); }
