// C16: formatted output of the tree's C library: integer, pointer, character and string conversions.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "symx.h"
#ifndef ONLY
#define ONLY -1
#endif
void *h_alloc(size_t) __asm__("malloc");
typedef unsigned long long u64; typedef long long i64; typedef unsigned char u8;
#define A(c) symx_assert((c) != 0, #c)
static char *al(size_t n) { size_t *p = h_alloc(n + 16); *p = n; return (char *)(p + 2); }
void *malloc(size_t n) { return al(n); }
void *calloc(size_t a, size_t b) { char *p = al(a * b); for (size_t i = 0; i < a * b; i++) p[i] = 0; return p; }
void *realloc(void *p, size_t n) { char *q = al(n); if (p) { size_t o = ((size_t *)p)[-2]; for (size_t i = 0; i < n && i < o; i++) q[i] = ((char *)p)[i]; } return q; }
void free(void *p) { (void)p; }
static char out[512]; static int on; // expected text
static void pc(int c) { out[on++] = c; }
static void rep(int c, int n) { while (n-- > 0) pc(c); }
typedef struct { int left, plus, zero, width, prec; } Spec; // prec < 0: none
// ISO C 7.21.6.1 for an already converted digit string
static void num(Spec s, const char *sign, const char *dig, int nd, int iszero) {
  if (s.prec == 0 && iszero) nd = 0; int sl = strlen(sign), z = s.prec > nd ? s.prec - nd : 0, pad = s.width - (sl + z + nd); if (pad < 0) pad = 0;
  if (s.zero && !s.left && s.prec < 0) z = pad, pad = 0;
  if (!s.left) rep(' ', pad); while (*sign) pc(*sign++); rep('0', z); for (int i = 0; i < nd; i++) pc(dig[i]); if (s.left) rep(' ', pad);
}
static char digs[72]; static int conv(u64 v, unsigned base, int up) { char t[72]; int n = 0; do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v); for (int i = 0; i < n; i++) digs[i] = t[n - 1 - i]; return n; }
static void txt(Spec s, const char *p, int n) { if (!s.left) rep(' ', s.width - n); for (int i = 0; i < n; i++) pc(p[i]); if (s.left) rep(' ', s.width - n); }
static char fmt[64]; static int fn; static void fc(int c) { fmt[fn++] = c; } static void fnum(int n) { if (n >= 10) fc('0' + n / 10); fc('0' + n % 10); }
static int star[2], nstar;
static int stars, few; static Spec spec(int nflags) { // flags in both orders, width and precision in the format or as arguments
  Spec s = {0, 0, 0, 0, -1}; fc('%'); nstar = 0;
  if (few) { unsigned k = symx_choose(4); if (k == 1) { s.left = 1; fc('-'); } if (k == 2) { s.zero = 1; fc('0'); } if (k == 3) { s.plus = 1; fc('+'); } if (k) { s.width = 22; fnum(22); } if (k == 3) { s.prec = 12; fc('.'); fnum(12); } return s; }
  switch (symx_choose(nflags)) { case 1: s.left = 1; fc('-'); break; case 2: s.zero = 1; fc('0'); break; case 3: s.plus = 1; fc('+'); break; case 4: s.left = s.plus = 1; fc('-'); fc('+'); break; case 5: s.plus = s.zero = 1; fc('+'); fc('0'); break; case 6: s.left = s.zero = 1; fc('0'); fc('-'); break; case 7: s.plus = s.left = 1; fc('+'); fc('-'); break; }
  switch (symx_choose(stars ? 4 : 3)) { case 1: s.width = 2; fc('2'); break; case 2: s.width = 19; fc('1'); fc('9'); break; case 3: { int w; symx_symbolic(&w, 4, "width"); symx_assume((w >= -3) & (w <= 4)); w = symx_concretize(w); fc('*'); star[nstar++] = w; if (w < 0) s.left = 1, w = -w; s.width = w; break; } }
  switch (symx_choose(stars ? 4 : 3)) { case 1: s.prec = 0; fc('.'); break; case 2: s.prec = 3; fc('.'); fc('3'); break; case 3: { int w; symx_symbolic(&w, 4, "prec"); symx_assume((w >= -1) & (w <= 3)); w = symx_concretize(w); fc('.'); fc('*'); star[nstar++] = w; s.prec = w < 0 ? -1 : w; break; } }
  return s;
}
static int call(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
static void check(const char *g, int r, size_t n) { // g: n bytes buffer
  symx_assert(r == on, "printf returns the number of characters of the full text"); int d = 0;
  size_t m = (size_t)on < n ? on : n ? n - 1 : 0; for (size_t i = 0; i < m; i++) d |= g[i] ^ out[i]; symx_assert(d == 0, "printf writes the right characters"); if (n) symx_assert(g[m] == 0, "the text is terminated");
}
static size_t sizes(void) { return symx_choose(5) ? 300 : symx_choose(3) * 3; }
#define RUN(v) do { char *g = h_alloc(bn ? bn : 1); int r; switch (nstar) { case 0: r = call(g, bn, fmt, v); break; case 1: r = call(g, bn, fmt, star[0], v); break; default: r = call(g, bn, fmt, star[0], star[1], v); } check(g, r, bn); } while (0)
static void lit(void) { fmt[fn] = 0; }
static i64 edge[] = {0, 9, 10, 99, 100, -1, -10, 2147483647, -2147483647 - 1, 4294967295u, 9223372036854775807ll, -9223372036854775807ll - 1, 1000000000, 999999999999999999, 1234567890123456789};
static void integer(int fl, int c, int len, int value) {
  few = value == 1; Spec s = spec(fl); i64 v; size_t bn = 300;
  if (len == 1) fc('l'); else if (len == 2) { fc('l'); fc('l'); } else if (len == 3) fc('z'); fc(c); fc('|'); lit();
  if (value != 1) { u8 k; symx_symbolic(&k, 1, "v"); symx_assume(k <= (value ? 10 : 120)); v = c == 'd' && symx_choose(2) ? -(i64)k : (i64)k; } else v = edge[symx_choose(sizeof edge / sizeof *edge)];
  u64 u = len == 0 ? (c == 'd' ? (u64)(int)v : (unsigned)v) : (u64)v; const char *sign = "";
  if (c == 'd') { i64 x = (i64)u; if (x < 0) { sign = "-"; u = 0 - u; } else if (s.plus) sign = "+"; }
  int nd = conv(u, c == 'd' || c == 'u' ? 10 : 16, c == 'X'); num(s, sign, digs, nd, u == 0); pc('|');
  if (len == 0) RUN((int)v); else RUN((long)v);
}
static const int lens[] = {0, 1, 2, 3};
static void t_d(void) { integer(8, 'd', 1, 0); } static void t_d_star(void) { stars = 1; integer(2, 'd', 1, 2); } static void t_d_sizes(void) { integer(3, 'd', symx_choose(4), 1); }
static void t_u(void) { integer(3, 'u', 0, 0); } static void t_u_sizes(void) { integer(2, 'u', symx_choose(4), 1); }
static void t_x(void) { integer(3, 'x', 0, 0); } static void t_x_sizes(void) { integer(2, 'x', symx_choose(4), 1); } static void t_X(void) { integer(3, 'X', symx_choose(2), 1); }
static void t_x_all(void) { u64 v; symx_symbolic(&v, 8, "v"); size_t bn = 300; fc('%'); fc('l'); fc('x'); lit(); int nd = conv(v, 16, 0); num((Spec){0, 0, 0, 0, -1}, "", digs, nd, v == 0); nstar = 0; RUN((long)v); }
static void t_p(void) { u64 v; symx_symbolic(&v, 8, "v"); symx_assume(v < 0x100000); Spec s = {0, 0, 0, 0, -1}; fc('%'); switch (symx_choose(3)) { case 1: s.width = 12; fc('1'); fc('2'); break; case 2: s.left = 1; s.width = 9; fc('-'); fc('9'); break; } fc('p'); fc('.'); lit(); int nd = conv(v, 16, 0); num(s, "0x", digs, nd, 0); pc('.'); size_t bn = 300; nstar = 0; RUN((void *)v); }
static void t_s(void) {
  unsigned n = symx_choose(5); stars = n == 2 && symx_choose(2); Spec s = spec(2); fc(0x73); fc(0x7c); lit(); char *p; int z = s.prec >= 0 && (unsigned)s.prec <= n && symx_choose(2); size_t bn = 300;
  p = h_alloc(n + 1); if (n) symx_symbolic(p, n, "s"); if (z) { char *q = h_alloc(s.prec ? s.prec : 1); for (int i = 0; i < s.prec; i++) q[i] = p[i]; p = q; n = s.prec; } else p[n] = 0; // not terminated: exactly precision bytes
  int L = 0; while ((s.prec < 0 || L < s.prec) && (!z || L < (int)n) && p[L]) L++; txt(s, p, L); pc('|'); RUN(p);
}
static void t_s_null(void) { Spec s = {0, 0, 0, 8, -1}; fc('%'); fc('8'); fc('s'); lit(); size_t bn = 300; txt(s, "(null)", 6); nstar = 0; RUN((char *)0); }
static void t_c(void) { Spec s = {0, 0, 0, 0, -1}; u8 c; symx_symbolic(&c, 1, "c"); fc('a'); fc('%'); if (symx_choose(2)) { s.left = 1; fc('-'); } switch (symx_choose(3)) { case 1: s.width = 1; fc('1'); break; case 2: s.width = 21; fc('2'); fc('1'); break; } fc('c'); fc('b'); lit(); pc('a'); char k = c; txt(s, &k, 1); pc('b'); size_t bn = 300; nstar = 0; RUN(c); }
static void t_literal(void) { // text and %% with symbolic characters
  char t[4]; symx_symbolic(t, 4, "t"); for (int i = 0; i < 4; i++) symx_assume(t[i] != '%'); for (int i = 0; i < 4 && t[i]; i++) { fc(t[i]); pc(t[i]); if (i == 1) { fc('%'); fc('%'); pc('%'); } } lit(); size_t bn = symx_choose(7); nstar = 0; RUN(0);
}
static void t_truncation(void) { // every size of the buffer
  size_t bn = symx_choose(14); short v; symx_symbolic(&v, 2, "v"); symx_assume((v >= -99) & (v <= 999)); char s[4]; symx_symbolic(s, 3, "s"); s[3] = 0;
  const char *f = "<%d,%5s>%c"; while (*f) fc(*f++); lit(); pc('<'); u64 u = v < 0 ? -v : v; num((Spec){0, 0, 0, 0, -1}, v < 0 ? "-" : "", digs, conv(u, 10, 0), u == 0); pc(','); txt((Spec){0, 0, 0, 5, -1}, s, strlen(s)); pc('>'); pc('!');
  char *g = h_alloc(bn ? bn : 1); int r = call(g, bn, fmt, v, s, '!'); check(g, r, bn);
}
static void t_mixed(void) { // registers run out: integer arguments continue on the stack, floating ones are counted apart
  short v[6]; symx_symbolic(v, 12, "v"); for (int i = 0; i < 6; i++) { symx_assume((v[i] >= 0) & (v[i] <= 9)); } const char *f = "%d%ld%u%x%d%d%s%zu"; while (*f) fc(*f++); lit(); for (int i = 0; i < 6; i++) pc('0' + v[i]); pc('k'); pc('7'); char *g = h_alloc(300); int r = call(g, 300, fmt, v[0], (long)v[1], v[2], v[3], v[4], v[5], "k", (size_t)7); check(g, r, 300);
}
static void t_sprintf(void) { short v; symx_symbolic(&v, 2, "v"); symx_assume((v >= -99) & (v <= 99)); u64 u = v < 0 ? -v : v; num((Spec){0, 0, 0, 4, -1}, v < 0 ? "-" : "", digs, conv(u, 10, 0), 0); char *g = h_alloc(300); int r = sprintf(g, "%4d", v); check(g, r, 300); char *h = h_alloc(4); r = snprintf(h, 4, "%4d", v); check(h, r, 4); }
static void t_memstream(void) { char *m; size_t n; FILE *f = open_memstream(&m, &n); A(f != 0); short v; symx_symbolic(&v, 2, "v"); symx_assume((v >= -99) & (v <= 99)); char s[3]; symx_symbolic(s, 2, "s"); s[2] = 0; u64 u = v < 0 ? -v : v;
  for (int i = 0; i < 3; i++) { int a = on; num((Spec){0, 0, 0, 9, -1}, v < 0 ? "-" : "", digs, conv(u, 10, 0), 0); txt((Spec){0, 0, 0, 0, -1}, s, strlen(s)); pc('\n'); A(fprintf(f, "%9d%s\n", v, s) == on - a); } A(fclose(f) == 0); A(n == (size_t)on); check(m, on, n + 1); }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(d), F(d_star), F(d_sizes), F(u), F(u_sizes), F(x), F(x_sizes), F(X), F(x_all), F(p), F(s), F(s_null), F(c), F(literal), F(truncation), F(mixed), F(sprintf), F(memstream)};
void harness(void) { unsigned i = ONLY < 0 ? symx_choose(sizeof T / sizeof *T) : ONLY; symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); symx_path_end(T[i].n); }
