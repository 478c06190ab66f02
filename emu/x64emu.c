#include "x64emu.h"
#include "symx.h"
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32; typedef uint8_t u8; typedef uint16_t u16; typedef unsigned __int128 u128; typedef __int128 s128;
uint64_t x64_hook_lo, x64_hook_hi, x64_bias_lo, x64_bias_hi, x64_bias;

static void *H(u64 a) { if (x64_bias && a >= x64_bias_lo && a < x64_bias_hi) a += x64_bias; return (void *)a; }
typedef u16 __attribute__((aligned(1))) u16u; typedef u32 __attribute__((aligned(1))) u32u; typedef u64 __attribute__((aligned(1))) u64u;
static u64 ldm(u64 a, int w) { void *p = H(a); switch (w) { case 1: return *(u8 *)p; case 2: return *(u16u *)p; case 4: return *(u32u *)p; default: return *(u64u *)p; } }
static void stm(u64 a, int w, u64 v) { void *p = H(a); switch (w) { case 1: *(u8 *)p = v; break; case 2: *(u16u *)p = v; break; case 4: *(u32u *)p = v; break; default: *(u64u *)p = v; } }
static u64 msk(int w) { return w == 8 ? ~0ULL : (1ULL << (w * 8)) - 1; }
static u64 sxt(u64 v, int w) { return w == 1 ? (u64)(s64)(int8_t)v : w == 2 ? (u64)(s64)(int16_t)v : w == 4 ? (u64)(s64)(s32)v : v; }

typedef struct { int reg; int mem; u64 addr; } Opd;   // ModRM r/m operand
typedef struct {
  X64 *c; u64 p0, p; int osz, rep, repne, rex, w, rr, xx, bb, haverex; int modrm, mod, reg, rm; Opd ea;
} D;

static u64 rdr(D *d, int r, int w) { if (w == 1 && !d->haverex && r >= 4 && r < 8) return (d->c->r[r - 4] >> 8) & 0xff; return d->c->r[r] & msk(w); }
static void wrr(D *d, int r, int w, u64 v) {
  u64 *q = &d->c->r[r];
  switch (w) {
  case 1: if (!d->haverex && r >= 4 && r < 8) { q = &d->c->r[r - 4]; *q = (*q & ~0xff00ULL) | ((v & 0xff) << 8); } else *q = (*q & ~0xffULL) | (v & 0xff); break;
  case 2: *q = (*q & ~0xffffULL) | (v & 0xffff); break;
  case 4: *q = (u32)v; break;
  default: *q = v;
  }
}
static u64 fetch(D *d, int n) { u64 v = ldm(d->p, n); d->p += n; return v; }
static u64 imms(D *d, int n) { return sxt(fetch(d, n), n); }
// decode ModRM; immBytes: number of immediate bytes that follow (for rip-relative)
static void modrm(D *d, int immBytes) {
  X64 *c = d->c; int m = (int)fetch(d, 1); d->modrm = m; d->mod = m >> 6; d->reg = ((m >> 3) & 7) | (d->rr << 3); d->rm = m & 7;
  if (d->mod == 3) { d->ea.mem = 0; d->ea.reg = d->rm | (d->bb << 3); return; }
  d->ea.mem = 1; u64 a = 0;
  if (d->rm == 4) {
    int s = (int)fetch(d, 1); int base = s & 7, idx = ((s >> 3) & 7) | (d->xx << 3), sc = s >> 6;
    if (idx != 4) a = c->r[idx] << sc;
    if (base == 5 && d->mod == 0) a += imms(d, 4); else a += c->r[base | (d->bb << 3)];
  } else if (d->rm == 5 && d->mod == 0) {
    s64 o = (s64)imms(d, 4); a = d->p + immBytes + o;
  } else a = c->r[d->rm | (d->bb << 3)];
  if (d->mod == 1) a += imms(d, 1); else if (d->mod == 2) a += imms(d, 4);
  d->ea.addr = a;
}
static u64 rdE(D *d, int w) { return d->ea.mem ? ldm(d->ea.addr, w) : rdr(d, d->ea.reg, w); }
static void wrE(D *d, int w, u64 v) { if (d->ea.mem) stm(d->ea.addr, w, v & msk(w)); else wrr(d, d->ea.reg, w, v); }

static void setcc(X64 *c, int op, int w, u64 a, u64 b, u64 r) { c->ccop = op; c->ccw = w; c->cca = a & msk(w); c->ccb = b & msk(w); c->ccr = r & msk(w); }
static int parity(u64 v) { v &= 0xff; v ^= v >> 4; v ^= v >> 2; v ^= v >> 1; return !(v & 1); }
static const char *E_FLAGS = "undefined flags used";
static const char *E_OP = "unsupported instruction";
static const char *E_DIV = "divide error";
int x64_cond(X64 *c, int cc) {
  int neg = cc & 1, r = 0; u64 a = c->cca, b = c->ccb, v = c->ccr; int w = c->ccw; u64 sb = w ? 1ULL << (w * 8 - 1) : 0;
  s64 sa = (s64)sxt(a, w), sbv = (s64)sxt(b, w);
  switch (c->ccop) {
  case CC_SUB:
    switch (cc >> 1) {
    case 0: r = ((a ^ b) & (a ^ v) & sb) != 0; break; case 1: r = a < b; break; case 2: r = a == b; break; case 3: r = a <= b; break;
    case 4: r = (v & sb) != 0; break; case 5: r = parity(v); break; case 6: r = sa < sbv; break; default: r = sa <= sbv; } break;
  case CC_LOGIC:
    switch (cc >> 1) {
    case 0: case 1: r = 0; break; case 2: case 3: r = v == 0; break; case 4: case 6: r = (v & sb) != 0; break; case 5: r = parity(v); break; default: r = (s64)sxt(v, w) <= 0; } break;
  case CC_ADD: {
    int of = ((a ^ v) & (b ^ v) & sb) != 0, sf = (v & sb) != 0;
    switch (cc >> 1) {
    case 0: r = of; break; case 1: r = v < a; break; case 2: r = v == 0; break; case 3: r = (v < a) | (v == 0); break;
    case 4: r = sf; break; case 5: r = parity(v); break; case 6: r = sf ^ of; break; default: r = (v == 0) | (sf ^ of); } break; }
  case CC_EXPL:
    switch (cc >> 1) {
    case 0: r = c->of; break; case 1: r = c->cf; break; case 2: r = c->zf; break; case 3: r = c->cf | c->zf; break;
    case 4: r = c->sf; break; case 5: r = c->pf; break; case 6: r = c->sf ^ c->of; break; default: r = c->zf | (c->sf ^ c->of); } break;
  default: c->err = E_FLAGS; return 0;
  }
  return r ^ neg;
}
static void toExpl(X64 *c) {
  if (c->ccop == CC_EXPL || c->ccop == CC_UNDEF) return;
  u8 of = x64_cond(c, 0), cf = x64_cond(c, 2), zf = x64_cond(c, 4), sf = x64_cond(c, 8), pf = x64_cond(c, 10);
  c->of = of; c->cf = cf; c->zf = zf; c->sf = sf; c->pf = pf; c->ccop = CC_EXPL;
}
static int alu(D *d, int op, int w, u64 a, u64 b, u64 *out) { // returns 1 if result is written
  X64 *c = d->c; u64 r; a &= msk(w); b &= msk(w);
  switch (op) {
  case 0: r = a + b; setcc(c, CC_ADD, w, a, b, r); break;
  case 1: r = a | b; setcc(c, CC_LOGIC, w, a, b, r); break;
  case 2: case 3: { // adc / sbb
    int ci = x64_cond(c, 2); if (c->err) return 0; u64 sb = 1ULL << (w * 8 - 1);
    if (op == 2) { r = (a + b + ci) & msk(w); u8 cf = ci ? r <= a : r < a, of = ((a ^ r) & (b ^ r) & sb) != 0; c->cf = cf; c->of = of; }
    else { r = (a - b - ci) & msk(w); u8 cf = ci ? a <= b : a < b, of = ((a ^ b) & (a ^ r) & sb) != 0; c->cf = cf; c->of = of; }
    c->zf = r == 0; c->sf = (r & sb) != 0; c->pf = parity(r); c->ccop = CC_EXPL; break; }
  case 4: r = a & b; setcc(c, CC_LOGIC, w, a, b, r); break;
  case 5: case 7: r = a - b; setcc(c, CC_SUB, w, a, b, r); break;
  default: r = a ^ b; setcc(c, CC_LOGIC, w, a, b, r); break;
  }
  *out = r & msk(w); return op != 7;
}
static u64 shift(D *d, int op, int w, u64 a, u64 n, int immediate) {
  X64 *c = d->c; n &= w == 8 ? 63 : 31; unsigned bits = w * 8; a &= msk(w); u64 r;
  if (immediate && n == 0) return a;
  switch (op) {
  case 4: case 6: r = w == 8 ? a << n : (u64)((u64)(a << n) & msk(w)); break;
  case 5: r = a >> n; break;
  case 7: r = (u64)((s64)sxt(a, w) >> n) & msk(w); break;
  case 0: case 1: { u64 k = n % bits; if (op == 1) k = (bits - k) % bits; r = k ? ((a << k) | (a >> (bits - k))) & msk(w) : a; c->ccop = CC_UNDEF; return r; }
  default: c->err = E_OP; return 0;
  }
  if (immediate && n < bits) {
    u64 sb = 1ULL << (bits - 1);
    c->ccop = CC_EXPL; c->zf = r == 0; c->sf = (r & sb) != 0; c->pf = parity(r);
    c->cf = op == 4 || op == 6 ? (a >> (bits - n)) & 1 : op == 5 ? (a >> (n - 1)) & 1 : (u64)((s64)sxt(a, w) >> (n - 1)) & 1;
    c->of = op == 7 ? 0 : op == 5 ? (a & sb) != 0 : ((r & sb) != 0) ^ c->cf;
  } else c->ccop = CC_UNDEF;
  return r;
}
static void push(X64 *c, u64 v) { c->r[RSP] -= 8; stm(c->r[RSP], 8, v); }
static u64 pop(X64 *c) { u64 v = ldm(c->r[RSP], 8); c->r[RSP] += 8; return v; }

typedef union { double d; u64 u; } DU; typedef union { float f; u32 u; } FU;
static double asd(u64 v) { DU x; x.u = v; return x.d; } static u64 ofd(double v) { DU x; x.d = v; return x.u; }
static float asf(u64 v) { FU x; x.u = (u32)v; return x.f; } static u32 off(float v) { FU x; x.f = v; return x.u; }
static u64 xlo(D *d, int dbl) { if (d->ea.mem) return ldm(d->ea.addr, dbl ? 8 : 4); u64 v = d->c->x[d->ea.reg][0]; return dbl ? v : (u32)v; }
static void ld128(D *d, u64 *o) { if (d->ea.mem) { o[0] = ldm(d->ea.addr, 8); o[1] = ldm(d->ea.addr + 8, 8); } else { o[0] = d->c->x[d->ea.reg][0]; o[1] = d->c->x[d->ea.reg][1]; } }
static void setsd(X64 *c, int r, int dbl, u64 v) { if (dbl) c->x[r][0] = v; else c->x[r][0] = (c->x[r][0] & 0xffffffff00000000ULL) | (u32)v; }
double sqrt(double);

static __attribute__((noinline)) void jmpRel(D *d, u64 o) { d->p += o; } // a call, so that the branch is not turned into a select

static int op0f(D *d) {
  X64 *c = d->c; int op = (int)fetch(d, 1); int w = d->w ? 8 : d->osz ? 2 : 4;
  int dbl = d->repne, sc = d->rep || d->repne; // scalar form
  if (op >= 0x80 && op <= 0x8f) { s64 o = (s64)imms(d, 4); if (x64_cond(c, op & 15)) jmpRel(d, o); return c->err != 0; }
  if (op >= 0x90 && op <= 0x9f) { modrm(d, 0); int v = x64_cond(c, op & 15); wrE(d, 1, v); return c->err != 0; }
  if (op >= 0x40 && op <= 0x4f) { modrm(d, 0); u64 v = rdE(d, w); u64 o = rdr(d, d->reg, w); int k = x64_cond(c, op & 15); wrr(d, d->reg, w, k ? v : o); return c->err != 0; }
  switch (op) {
  case 0x05: c->err = "syscall"; return 1;
  case 0x0b: c->err = "ud2"; return 1;
  case 0x1e: if (d->rep) { int m = (int)fetch(d, 1); if (m == 0xfa) return 0; } c->err = E_OP; return 1; // endbr64
  case 0x1f: modrm(d, 0); return 0; // nop
  case 0x10: case 0x11: // movups/movss/movupd/movsd
    modrm(d, 0);
    if (!sc) { if (op == 0x10) { u64 o[2]; ld128(d, o); c->x[d->reg][0] = o[0]; c->x[d->reg][1] = o[1]; } else if (d->ea.mem) { stm(d->ea.addr, 8, c->x[d->reg][0]); stm(d->ea.addr + 8, 8, c->x[d->reg][1]); } else { c->x[d->ea.reg][0] = c->x[d->reg][0]; c->x[d->ea.reg][1] = c->x[d->reg][1]; } return 0; }
    if (op == 0x10) { u64 v = xlo(d, dbl); if (d->ea.mem) { c->x[d->reg][0] = v; c->x[d->reg][1] = 0; } else setsd(c, d->reg, dbl, v); }
    else { if (d->ea.mem) stm(d->ea.addr, dbl ? 8 : 4, c->x[d->reg][0]); else setsd(c, d->ea.reg, dbl, c->x[d->reg][0]); }
    return 0;
  case 0x28: case 0x29: case 0x6f: case 0x7f: // movaps/movapd, movdqa/movdqu
    modrm(d, 0); if (op == 0x28 || op == 0x6f) { u64 o[2]; ld128(d, o); c->x[d->reg][0] = o[0]; c->x[d->reg][1] = o[1]; } else if (d->ea.mem) { stm(d->ea.addr, 8, c->x[d->reg][0]); stm(d->ea.addr + 8, 8, c->x[d->reg][1]); } else { c->x[d->ea.reg][0] = c->x[d->reg][0]; c->x[d->ea.reg][1] = c->x[d->reg][1]; }
    return 0;
  case 0x2a: { if (!sc) break; modrm(d, 0); u64 v = rdE(d, d->w ? 8 : 4); s64 s = d->w ? (s64)v : (s32)v; if (dbl) setsd(c, d->reg, 1, ofd(d->w ? (double)s : (double)(s32)v)); else setsd(c, d->reg, 0, off(d->w ? (float)s : (float)(s32)v)); return 0; }
  case 0x2c: { if (!sc) break; modrm(d, 0); u64 v = xlo(d, dbl); u64 r; // cvttsd2si: out-of-range -> integer indefinite
    if (d->w) { if (dbl) { double x = asd(v); r = x >= -9223372036854775808.0 && x < 9223372036854775808.0 ? (u64)(s64)x : 0x8000000000000000ULL; } else { float x = asf(v); r = x >= -9223372036854775808.0f && x < 9223372036854775808.0f ? (u64)(s64)x : 0x8000000000000000ULL; } }
    else { if (dbl) { double x = asd(v); r = x > -2147483649.0 && x < 2147483648.0 ? (u32)(s32)x : 0x80000000u; } else { float x = asf(v); r = x >= -2147483648.0f && x < 2147483648.0f ? (u32)(s32)x : 0x80000000u; } }
    wrr(d, d->reg, d->w ? 8 : 4, r); return 0; }
  case 0x2e: case 0x2f: { modrm(d, 0); int dd = d->osz; u64 b = xlo(d, dd), a = c->x[d->reg][0]; int lt, eq, un;
    if (dd) { double x = asd(a), y = asd(b); un = x != x || y != y; lt = x < y; eq = x == y; } else { float x = asf(a), y = asf(b); un = x != x || y != y; lt = x < y; eq = x == y; }
    c->ccop = CC_EXPL; c->of = 0; c->sf = 0; c->zf = un | eq; c->pf = un; c->cf = un | lt; return 0; }
  case 0x51: case 0x58: case 0x59: case 0x5c: case 0x5e: case 0x5d: case 0x5f: { if (!sc) break; modrm(d, 0); u64 b = xlo(d, dbl), a = c->x[d->reg][0]; u64 r;
    if (dbl) { double x = asd(a), y = asd(b), z; switch (op) { case 0x51: z = sqrt(y); break; case 0x58: z = x + y; break; case 0x59: z = x * y; break; case 0x5c: z = x - y; break; case 0x5e: z = x / y; break; case 0x5d: z = x < y ? x : y; break; default: z = x > y ? x : y; } r = ofd(z); }
    else { float x = asf(a), y = asf(b), z; switch (op) { case 0x58: z = x + y; break; case 0x59: z = x * y; break; case 0x5c: z = x - y; break; case 0x5e: z = x / y; break; case 0x5d: z = x < y ? x : y; break; case 0x5f: z = x > y ? x : y; break; default: c->err = E_OP; return 1; } r = off(z); }
    setsd(c, d->reg, dbl, r); return 0; }
  case 0x5a: { if (!sc) break; modrm(d, 0); if (dbl) setsd(c, d->reg, 0, off((float)asd(xlo(d, 1)))); else setsd(c, d->reg, 1, ofd((double)asf(xlo(d, 0)))); return 0; }
  case 0x54: case 0x55: case 0x56: case 0x57: case 0xef: case 0xeb: case 0xdb: case 0xdf: { if (sc) break; modrm(d, 0); u64 o[2]; ld128(d, o); u64 *x = c->x[d->reg];
    for (int i = 0; i < 2; i++) switch (op) { case 0x54: case 0xdb: x[i] &= o[i]; break; case 0x55: case 0xdf: x[i] = ~x[i] & o[i]; break; case 0x56: case 0xeb: x[i] |= o[i]; break; default: x[i] ^= o[i]; }
    return 0; }
  case 0x6e: modrm(d, 0); c->x[d->reg][0] = rdE(d, d->w ? 8 : 4); c->x[d->reg][1] = 0; return 0;
  case 0x7e: modrm(d, 0); if (d->rep) { c->x[d->reg][0] = xlo(d, 1); c->x[d->reg][1] = 0; } else wrE(d, d->w ? 8 : 4, c->x[d->reg][0]); return 0;
  case 0xd6: modrm(d, 0); if (d->ea.mem) stm(d->ea.addr, 8, c->x[d->reg][0]); else { c->x[d->ea.reg][0] = c->x[d->reg][0]; c->x[d->ea.reg][1] = 0; } return 0;
  case 0x12: case 0x16: case 0x14: { if (sc || op != 0x14) break; modrm(d, 0); u64 o[2]; ld128(d, o); if (d->osz) { c->x[d->reg][1] = o[0]; } else { u64 a = c->x[d->reg][0]; c->x[d->reg][0] = (a & 0xffffffff) | (o[0] << 32); c->x[d->reg][1] = (a >> 32) | (o[0] & 0xffffffff00000000ULL); } return 0; }
  case 0xaf: { modrm(d, 0); u64 a = rdr(d, d->reg, w), b = rdE(d, w); wrr(d, d->reg, w, a * b); c->ccop = CC_UNDEF; return 0; }
  case 0xb6: modrm(d, 0); wrr(d, d->reg, w, rdE(d, 1)); return 0;
  case 0xb7: modrm(d, 0); wrr(d, d->reg, w, rdE(d, 2)); return 0;
  case 0xbe: modrm(d, 0); wrr(d, d->reg, w, sxt(rdE(d, 1), 1)); return 0;
  case 0xbf: modrm(d, 0); wrr(d, d->reg, w, sxt(rdE(d, 2), 2)); return 0;
  case 0xa2: break;
  case 0xa3: case 0xba: { // bt and friends (register forms and immediate)
    if (op == 0xba) { modrm(d, 1); u64 n = fetch(d, 1) & (w * 8 - 1); int k = d->modrm >> 3 & 7; if (k < 4) break; u64 v = rdE(d, w); c->ccop = CC_EXPL; c->cf = (v >> n) & 1; c->zf = c->sf = c->of = c->pf = 0; if (k == 5) wrE(d, w, v | (1ULL << n)); else if (k == 6) wrE(d, w, v & ~(1ULL << n)); else if (k == 7) wrE(d, w, v ^ (1ULL << n)); return 0; }
    modrm(d, 0); if (d->ea.mem) break; u64 n = rdr(d, d->reg, w) & (w * 8 - 1); c->ccop = CC_EXPL; c->cf = (rdE(d, w) >> n) & 1; c->zf = c->sf = c->of = c->pf = 0; return 0; }
  case 0xb8: { if (!d->rep) break; modrm(d, 0); u64 v = rdE(d, w); u64 n = 0; for (int i = 0; i < w * 8; i++) n += (v >> i) & 1; wrr(d, d->reg, w, n); setcc(c, CC_LOGIC, w, 0, 0, v); return 0; }
  case 0xbc: case 0xbd: { // bsf/tzcnt, bsr/lzcnt (bsf/bsr of 0 leave the destination)
    modrm(d, 0); u64 v = rdE(d, w); int bits = w * 8; u64 o = rdr(d, d->reg, w), r = d->rep ? (u64)bits : o;
    if (op == 0xbc) { for (int i = bits; i-- > 0;) r = (v >> i) & 1 ? (u64)i : r; } else { for (int i = 0; i < bits; i++) r = (v >> i) & 1 ? (u64)(d->rep ? bits - 1 - i : i) : r; }
    wrr(d, d->reg, w, r); c->ccop = CC_EXPL; c->zf = d->rep ? r == 0 : v == 0; c->cf = d->rep ? v == 0 : 0; c->of = c->sf = c->pf = 0; return 0; }
  case 0xc8: case 0xc9: case 0xca: case 0xcb: case 0xcc: case 0xcd: case 0xce: case 0xcf: { int r = (op & 7) | (d->bb << 3); u64 v = rdr(d, r, w), o = 0; for (int i = 0; i < w; i++) o |= ((v >> (8 * i)) & 0xff) << (8 * (w - 1 - i)); wrr(d, r, w, o); return 0; }
  case 0xc0: { modrm(d, 0); u64 a = rdE(d, 1), b = rdr(d, d->reg, 1), o; alu(d, 0, 1, a, b, &o); wrr(d, d->reg, 1, a); wrE(d, 1, o); return 0; }
  case 0xc1: { modrm(d, 0); u64 a = rdE(d, w), b = rdr(d, d->reg, w), o; alu(d, 0, w, a, b, &o); wrr(d, d->reg, w, a); wrE(d, w, o); return 0; }
  }
  c->err = E_OP; return 1;
}

static int muldiv(D *d, int k, int w) {
  X64 *c = d->c; u64 v = rdE(d, w);
  u64 lo = c->r[RAX] & msk(w), hi = c->r[RDX] & msk(w);
  if (w == 1) { hi = (c->r[RAX] >> 8) & 0xff; }
  u64 q, r;
  switch (k) {
  case 4: { u64 plo, phi; if (w == 8) { u128 p = (u128)lo * v; plo = (u64)p; phi = (u64)(p >> 64); } else { u64 p = lo * v; plo = p & msk(w); phi = (p >> (w * 8)) & msk(w); }
    if (w == 1) { wrr(d, RAX, 2, plo | phi << 8); } else { wrr(d, RAX, w, plo); wrr(d, RDX, w, phi); } c->ccop = CC_UNDEF; return 0; }
  case 5: { u64 plo, phi; if (w == 8) { s128 p = (s128)(s64)lo * (s64)v; plo = (u64)p; phi = (u64)((u128)p >> 64); } else { u64 p = (u64)((s64)sxt(lo, w) * (s64)sxt(v, w)); plo = p & msk(w); phi = (p >> (w * 8)) & msk(w); }
    if (w == 1) { wrr(d, RAX, 2, plo | phi << 8); } else { wrr(d, RAX, w, plo); wrr(d, RDX, w, phi); } c->ccop = CC_UNDEF; return 0; }
  case 6:
    if (v == 0) { c->err = E_DIV; return 1; }
    if (hi == 0) { switch (w) { case 1: q = (u8)lo / (u8)v; r = (u8)lo % (u8)v; break; case 2: q = (u16)lo / (u16)v; r = (u16)lo % (u16)v; break; case 4: q = (u32)lo / (u32)v; r = (u32)lo % (u32)v; break; default: q = lo / v; r = lo % v; } }
    else if (w == 8) { u128 n = ((u128)hi << 64) | lo; if (hi >= v) { c->err = E_DIV; return 1; } q = (u64)(n / v); r = (u64)(n % v); }
    else { u64 n = (hi << (w * 8)) | lo; if (hi >= v) { c->err = E_DIV; return 1; } q = n / v; r = n % v; }
    break;
  default: {
    u64 sv = sxt(v, w), sl = sxt(lo, w);
    if (v == 0) { c->err = E_DIV; return 1; }
    if (hi == (((u64)((s64)sl >> 63)) & msk(w))) {
      if (v == msk(w) && lo == (1ULL << (w * 8 - 1))) { c->err = E_DIV; return 1; }
      // do not fold the -1 case into the solver's division
      switch (w) {
      case 1: q = (u64)((s32)(int8_t)sl / (s32)(int8_t)sv); r = (u64)((s32)(int8_t)sl % (s32)(int8_t)sv); break;
      case 2: q = (u64)((s32)(int16_t)sl / (s32)(int16_t)sv); r = (u64)((s32)(int16_t)sl % (s32)(int16_t)sv); break;
      case 4: q = (u64)((s32)sl / (s32)sv); r = (u64)((s32)sl % (s32)sv); break;
      default: q = (u64)((s64)sl / (s64)sv); r = (u64)((s64)sl % (s64)sv); }
    } else if (w == 8) { s128 n = (s128)(((u128)hi << 64) | lo), dv = (s64)sv; s128 qq = n / dv, rr = n % dv; if (qq != (s64)qq) { c->err = E_DIV; return 1; } q = (u64)qq; r = (u64)rr; }
    else { s64 n = (s64)sxt((hi << (w * 8)) | lo, w * 2), dv = (s64)sv; if (dv == -1) { q = (u64)-n; r = 0; } else { q = (u64)(n / dv); r = (u64)(n % dv); } if (q != sxt(q, w)) { c->err = E_DIV; return 1; } }
    break; }
  }
  if (w == 1) wrr(d, RAX, 2, (q & 0xff) | (r & 0xff) << 8); else { wrr(d, RAX, w, q); wrr(d, RDX, w, r); }
  c->ccop = CC_UNDEF; return 0;
}

int x64_step(X64 *c) {
  D dd, *d = &dd; d->c = c; d->p0 = d->p = c->rip; d->osz = d->rep = d->repne = d->rex = d->w = d->rr = d->xx = d->bb = d->haverex = 0;
  int op;
  for (;;) { op = (int)fetch(d, 1); if (op == 0x66) d->osz = 1; else if (op == 0xf3) { d->rep = 1; d->repne = 0; } else if (op == 0xf2) { d->repne = 1; d->rep = 0; } else break; }
  if ((op & 0xf0) == 0x40) { d->haverex = 1; d->w = op >> 3 & 1; d->rr = op >> 2 & 1; d->xx = op >> 1 & 1; d->bb = op & 1; op = (int)fetch(d, 1); }
  int w = d->w ? 8 : d->osz ? 2 : 4; int iw = w == 2 ? 2 : 4; int wb = op & 1 ? w : 1;
  u64 a, b, o;
  if (op == 0x0f) { if (op0f(d)) return 1; c->rip = d->p; return c->err != 0; }
  if (op < 0x40 && (op & 7) < 6) {
    int k = op >> 3;
    switch (op & 7) {
    case 0: case 1: modrm(d, 0); a = rdE(d, wb); b = rdr(d, d->reg, wb); if (alu(d, k, wb, a, b, &o)) wrE(d, wb, o); break;
    case 2: case 3: modrm(d, 0); a = rdr(d, d->reg, wb); b = rdE(d, wb); if (alu(d, k, wb, a, b, &o)) wrr(d, d->reg, wb, o); break;
    case 4: b = fetch(d, 1); if (alu(d, k, 1, rdr(d, RAX, 1), b, &o)) wrr(d, RAX, 1, o); break;
    default: b = imms(d, iw); if (alu(d, k, w, rdr(d, RAX, w), b, &o)) wrr(d, RAX, w, o); break;
    }
    c->rip = d->p; return c->err != 0;
  }
  switch (op) {
  case 0x50: case 0x51: case 0x52: case 0x53: case 0x54: case 0x55: case 0x56: case 0x57: push(c, c->r[(op & 7) | (d->bb << 3)]); break;
  case 0x58: case 0x59: case 0x5a: case 0x5b: case 0x5c: case 0x5d: case 0x5e: case 0x5f: c->r[(op & 7) | (d->bb << 3)] = pop(c); break;
  case 0x63: modrm(d, 0); wrr(d, d->reg, w, sxt(rdE(d, 4), 4)); break;
  case 0x68: push(c, imms(d, 4)); break;
  case 0x6a: push(c, imms(d, 1)); break;
  case 0x69: modrm(d, iw); b = rdE(d, w); a = imms(d, iw); wrr(d, d->reg, w, a * b); c->ccop = CC_UNDEF; break;
  case 0x6b: modrm(d, 1); b = rdE(d, w); a = imms(d, 1); wrr(d, d->reg, w, a * b); c->ccop = CC_UNDEF; break;
  case 0x70: case 0x71: case 0x72: case 0x73: case 0x74: case 0x75: case 0x76: case 0x77: case 0x78: case 0x79: case 0x7a: case 0x7b: case 0x7c: case 0x7d: case 0x7e: case 0x7f:
    o = imms(d, 1); if (x64_cond(c, op & 15)) jmpRel(d, o); break;
  case 0x80: case 0x81: case 0x83: { int ib = op == 0x81 ? iw : 1; modrm(d, ib); a = rdE(d, wb); b = imms(d, ib); if (alu(d, d->modrm >> 3 & 7, wb, a, b, &o)) wrE(d, wb, o); break; }
  case 0x84: case 0x85: modrm(d, 0); a = rdE(d, wb); b = rdr(d, d->reg, wb); alu(d, 4, wb, a, b, &o); break;
  case 0x86: case 0x87: modrm(d, 0); a = rdE(d, wb); b = rdr(d, d->reg, wb); wrr(d, d->reg, wb, a); wrE(d, wb, b); break;
  case 0x88: case 0x89: modrm(d, 0); wrE(d, wb, rdr(d, d->reg, wb)); break;
  case 0x8a: case 0x8b: modrm(d, 0); wrr(d, d->reg, wb, rdE(d, wb)); break;
  case 0x8d: modrm(d, 0); if (!d->ea.mem) { c->err = E_OP; return 1; } wrr(d, d->reg, w, d->ea.addr); break;
  case 0x8f: { u64 v = pop(c); modrm(d, 0); wrE(d, 8, v); break; }
  case 0x90: if (d->bb) { a = c->r[8]; o = rdr(d, RAX, w); wrr(d, RAX, w, a); wrr(d, 8, w, o); } break;
  case 0x91: case 0x92: case 0x93: case 0x94: case 0x95: case 0x96: case 0x97: { int r = (op & 7) | (d->bb << 3); a = rdr(d, r, w); b = rdr(d, RAX, w); wrr(d, r, w, b); wrr(d, RAX, w, a); break; }
  case 0x98: if (w == 8) c->r[RAX] = sxt(c->r[RAX], 4); else if (w == 4) wrr(d, RAX, 4, sxt(c->r[RAX], 2)); else wrr(d, RAX, 2, sxt(c->r[RAX], 1)); break;
  case 0x99: a = sxt(c->r[RAX], w); wrr(d, RDX, w, (u64)((s64)a >> 63)); break;
  case 0xa4: case 0xa5: case 0xaa: case 0xab: { // movs/stos
    int sz = op & 1 ? w : 1; u64 n = d->rep ? c->r[RCX] : 1;
    if (d->repne) { c->err = E_OP; return 1; }
    while (n) { if (op < 0xa8) { stm(c->r[RDI], sz, ldm(c->r[RSI], sz)); c->r[RSI] += sz; } else stm(c->r[RDI], sz, c->r[RAX]); c->r[RDI] += sz; n--; }
    if (d->rep) c->r[RCX] = 0; break; }
  case 0xa8: alu(d, 4, 1, rdr(d, RAX, 1), fetch(d, 1), &o); break;
  case 0xa9: alu(d, 4, w, rdr(d, RAX, w), imms(d, iw), &o); break;
  case 0xb0: case 0xb1: case 0xb2: case 0xb3: case 0xb4: case 0xb5: case 0xb6: case 0xb7: wrr(d, (op & 7) | (d->bb << 3), 1, fetch(d, 1)); break;
  case 0xb8: case 0xb9: case 0xba: case 0xbb: case 0xbc: case 0xbd: case 0xbe: case 0xbf: wrr(d, (op & 7) | (d->bb << 3), w, fetch(d, w)); break;
  case 0xc0: case 0xc1: modrm(d, 1); a = rdE(d, wb); b = fetch(d, 1); o = shift(d, d->modrm >> 3 & 7, wb, a, b, 1); wrE(d, wb, o); break;
  case 0xd0: case 0xd1: modrm(d, 0); a = rdE(d, wb); o = shift(d, d->modrm >> 3 & 7, wb, a, 1, 1); wrE(d, wb, o); break;
  case 0xd2: case 0xd3: modrm(d, 0); a = rdE(d, wb); o = shift(d, d->modrm >> 3 & 7, wb, a, c->r[RCX] & 0xff, 0); wrE(d, wb, o); break;
  case 0xc2: { u64 n = fetch(d, 2); d->p = pop(c); c->r[RSP] += n; break; }
  case 0xc3: d->p = pop(c); break;
  case 0xc6: case 0xc7: { int ib = op == 0xc7 ? iw : 1; modrm(d, ib); if (d->modrm & 0x38) { c->err = E_OP; return 1; } wrE(d, wb, imms(d, ib)); break; }
  case 0xc9: c->r[RSP] = c->r[RBP]; c->r[RBP] = pop(c); break;
  case 0xcc: c->err = "int3"; return 1;
  case 0xcd: c->err = "int"; return 1;
  case 0xe8: { s64 t = (s64)imms(d, 4); push(c, d->p); d->p += t; break; }
  case 0xe9: { s64 t = (s64)imms(d, 4); d->p += t; break; }
  case 0xeb: { s64 t = (s64)imms(d, 1); d->p += t; break; }
  case 0xf4: c->err = "hlt"; return 1;
  case 0xf6: case 0xf7: {
    int k = d->p ? 0 : 0; u64 m = ldm(d->p, 1); k = (int)(m >> 3 & 7); modrm(d, k < 2 ? (op == 0xf7 ? iw : 1) : 0);
    switch (k) {
    case 0: case 1: a = rdE(d, wb); b = op == 0xf7 ? imms(d, iw) : imms(d, 1); alu(d, 4, wb, a, b, &o); break;
    case 2: wrE(d, wb, ~rdE(d, wb)); break;
    case 3: a = rdE(d, wb); alu(d, 5, wb, 0, a, &o); wrE(d, wb, o); break;
    default: if (muldiv(d, k, wb)) return 1; }
    break; }
  case 0xfe: case 0xff: {
    modrm(d, 0); int k = d->modrm >> 3 & 7;
    if (k < 2) { // inc/dec keep CF
      int had = c->ccop != CC_UNDEF; u8 cf = 0; if (had) { cf = x64_cond(c, 2); }
      a = rdE(d, wb); u64 r = (k ? a - 1 : a + 1) & msk(wb); u64 sb = 1ULL << (wb * 8 - 1);
      c->ccop = CC_EXPL; c->cf = cf; c->zf = r == 0; c->sf = (r & sb) != 0; c->pf = parity(r); c->of = k ? r == sb - 1 : r == sb; wrE(d, wb, r); break; }
    if (op == 0xfe) { c->err = E_OP; return 1; }
    if (k == 2) { u64 t = rdE(d, 8); push(c, d->p); d->p = t; } else if (k == 4) d->p = rdE(d, 8); else if (k == 6) push(c, rdE(d, 8)); else { c->err = E_OP; return 1; }
    break; }
  default: c->err = E_OP; return 1;
  }
  c->rip = d->p; return c->err != 0;
}
int x64_run(X64 *c, long max) {
  (void)toExpl;
  for (c->steps = 0; c->steps < max; c->steps++) {
    if (symx_is_symbolic(c->rip)) c->rip = symx_concretize(c->rip);
    if (c->rip == X64_STOP) return 0;
    if (c->rip >= x64_hook_lo && c->rip < x64_hook_hi) { if (x64_hook(c, c->rip)) return 1; continue; }
    if (x64_step(c)) return 1;
  }
  c->err = "step limit"; return 1;
}
