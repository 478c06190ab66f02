#include "tvrt.h"
typedef struct { int id; uint64_t a[4]; } Ev;
static Ev evR[64], evS[64]; static int neR, neS; static uint64_t extret[64]; static int nret; int side;
uint8_t *escR, *escS; int escN; static uint8_t escval[64][16];
static uint64_t extv(int k) { while (nret <= k && nret < 64) { symx_symbolic(&extret[nret], 8, "extret"); if (escN) for (int i = 0; i < escN; i++) symx_symbolic(&escval[nret][i], 1, "esc"); nret++; } if (k >= 64) symx_path_end("too many external calls"); return extret[k]; }
static uint64_t logE(int id, uint64_t a, uint64_t b, uint64_t c, uint64_t d) { // one observable external call
  Ev *e; int k; if (side) { k = neS; if (neS >= 60) symx_path_end("too many external calls"); e = &evS[neS++]; } else { k = neR; if (neR >= 60) symx_path_end("too many external calls"); e = &evR[neR++]; }
  e->id = id; e->a[0] = a; e->a[1] = b; e->a[2] = c; e->a[3] = d; uint64_t v = extv(k);
  if (escN) { uint8_t *p = side ? escS : escR; uint64_t h = 0; for (int i = 0; i < escN; i++) { h = h ^ ((uint64_t)p[i] << (8 * (i & 7))); p[i] ^= escval[k][i]; } e->a[3] ^= h; }
  return v; }
uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return d != d ? 0x7ff8000000000000ULL : u; }
uint64_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return d != d ? 0x7fc00000u : u; }
double bd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
float bf(uint64_t u) { float d; uint32_t v = (uint32_t)u; memcpy(&d, &v, 4); return d; }
int ext_i(int a) { return (int)logE(1, (uint32_t)a, 0, 0, 0); }
long ext_l(long a, long b) { return (long)logE(2, a, b, 0, 0); }
double ext_d(double a) { return bd(logE(3, dbits(a), 0, 0, 0)); }
float ext_f(float a, double b) { return bf(logE(4, fbits(a), dbits(b), 0, 0)); }
void ext_v(void) { logE(5, 0, 0, 0, 0); }
unsigned char ext_c(signed char a, unsigned short b) { return (unsigned char)logE(6, (uint8_t)a, b, 0, 0); }
#include <stdarg.h>
static uint64_t unk64(void) { uint64_t v; symx_symbolic(&v, 8, "ext_hi"); return v; }
#ifndef RVABI
static void s_i(Call *c) { c->rax = (uint32_t)ext_i((int)c->ireg[0]) | unk64() << 32; }
static void s_l(Call *c) { c->rax = ext_l(c->ireg[0], c->ireg[1]); }
static void s_d(Call *c) { double d = ext_d(bd(c->freg[0])); memcpy(&c->xmm0, &d, 8); c->rax = unk64(); }
static void s_f(Call *c) { float f = ext_f(bf(c->freg[0]), bd(c->freg[1])); uint32_t u; memcpy(&u, &f, 4); c->xmm0 = u | unk64() << 32; c->rax = unk64(); }
static void s_v(Call *c) { ext_v(); c->rax = unk64(); }
static void s_c(Call *c) { c->rax = ext_c((signed char)c->ireg[0], (unsigned short)c->ireg[1]) | unk64() << 32; }
static void s_clob(Call *c) { c->rax = unk64(); }
#else // RISC-V: narrow results are sign-extended, single results boxed; AArch64 (A64ABI): upper bits unknown
#ifdef A64ABI
#define HI(v, s) ((uint32_t)(v) | unk64() << 32)
#define NB(u) ((u) | unk64() << 32)
#define EXT(r, t) ((void)0)
#else
#define EXT(r, t) symx_assert((r) == (uint64_t)(int64_t)(int)(t)(r), "argument not extended as the calling convention requires")
#define HI(v, s) ((uint64_t)(int64_t)(s)(v))
#define NB(u) ((u) | 0xffffffff00000000ull)
#endif
static void s_i(Call *c) { EXT(c->ireg[0], int); int v = ext_i((int)c->ireg[0]); c->rax = HI(v, int); }
static void s_l(Call *c) { c->rax = ext_l(c->ireg[0], c->ireg[1]); }
static void s_d(Call *c) { double d = ext_d(bd(c->freg[0])); memcpy(&c->xmm0, &d, 8); c->rax = unk64(); }
static void s_f(Call *c) { float f = ext_f(bf(c->freg[0]), bd(c->freg[1])); uint32_t u; memcpy(&u, &f, 4); c->xmm0 = NB(u); c->rax = unk64(); }
static void s_v(Call *c) { ext_v(); c->rax = unk64(); }
static void s_c(Call *c) { int v = ext_c((signed char)c->ireg[0], (unsigned short)c->ireg[1]); c->rax = HI(v, int); }
static void s_clob(Call *c) { c->rax = unk64(); }
#endif
const ExtFn ext_fns[] = {{"ext_i", s_i}, {"ext_l", s_l}, {"ext_d", s_d}, {"ext_f", s_f}, {"ext_v", s_v}, {"ext_c", s_c}, {"ext_clob", s_clob}}; const int n_ext_fns = 7;
void cmpEv(void) {
  symx_assert(neR == neS, "different number of external calls");
  for (int i = 0; i < neR; i++) { symx_assert(evR[i].id == evS[i].id, "external calls in a different order"); int ok = 1; for (int j = 0; j < 4; j++) ok &= evR[i].a[j] == evS[i].a[j]; symx_assert(ok, "argument or memory seen by an external call differs"); }
}
uint64_t hi32(uint64_t v, int w) { uint64_t u; symx_symbolic(&u, 8, "hi"); return (uint32_t)v | u << 32; }
void symbytes(uint8_t *p, int n, const char *nm) { symx_symbolic(p, n, nm); }
