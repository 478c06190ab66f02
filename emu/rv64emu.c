#include "rv64emu.h"
#include "symx.h"
#include <string.h>
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32; typedef uint16_t u16; typedef int16_t s16; typedef uint8_t u8; typedef int8_t s8;
uint64_t rv_hook_lo, rv_hook_hi;
static const char E_OP[] = "undefined or unsupported instruction", E_REG[] = "register x0 written by a hint";
typedef union { double d; u64 u; } DU; typedef union { float f; u32 u; } FU;
static double asd(u64 v) { DU x; x.u = v; return x.d; } static u64 ofd(double v) { DU x; x.d = v; return x.u; }
static float asf(u32 v) { FU x; x.u = v; return x.f; } static u32 off(float v) { FU x; x.f = v; return x.u; }
static u32 unbox(u64 v) { return v >> 32 == 0xffffffffu ? (u32)v : 0x7fc00000u; }
static u64 box(u32 v) { return v | 0xffffffff00000000ull; }
double sqrt(double); float sqrtf(float);
static s64 sx(u64 v, int n) { return (s64)(v << (64 - n)) >> (64 - n); }
#define W(r, v) do { u64 w_ = (v); if (r) c->x[r] = w_; } while (0)
static u64 alu(int f3, int alt, u64 a, u64 b) {
  switch (f3) { case 0: return alt ? a - b : a + b; case 1: return a << (b & 63); case 2: return (s64)a < (s64)b; case 3: return a < b; case 4: return a ^ b; case 5: return alt ? (u64)((s64)a >> (b & 63)) : a >> (b & 63); case 6: return a | b; default: return a & b; }
}
static u64 aluw(int f3, int alt, u32 a, u32 b) {
  switch (f3) { case 0: return (s64)(s32)(alt ? a - b : a + b); case 1: return (s64)(s32)(a << (b & 31)); default: return (s64)(s32)(alt ? (u32)((s32)a >> (b & 31)) : a >> (b & 31)); }
}
static u64 muldiv(int f3, u64 a, u64 b) {
  switch (f3) { case 0: return a * b; case 1: return (u64)(((__int128)(s64)a * (s64)b) >> 64); case 2: return (u64)(((__int128)(s64)a * (__int128)(unsigned __int128)b) >> 64); case 3: return (u64)(((unsigned __int128)a * b) >> 64);
  case 4: if (!b) return ~0ull; if (a == 1ull << 63 && b == ~0ull) return a; return (u64)((s64)a / (s64)b); case 5: return b ? a / b : ~0ull;
  case 6: if (!b) return a; if (a == 1ull << 63 && b == ~0ull) return 0; return (u64)((s64)a % (s64)b); default: return b ? a % b : a; }
}
static u64 muldivw(int f3, u32 a, u32 b) {
  switch (f3) { case 0: return (s64)(s32)(a * b); case 4: if (!b) return ~0ull; if (a == 1u << 31 && b == ~0u) return (s64)(s32)a; return (s64)((s32)a / (s32)b); case 5: return b ? (s64)(s32)(a / b) : ~0ull;
  case 6: if (!b) return (s64)(s32)a; if (a == 1u << 31 && b == ~0u) return 0; return (s64)((s32)a % (s32)b); default: return b ? (s64)(s32)(a % b) : (s64)(s32)a; }
}
static u64 ld(u64 a, int f3) { switch (f3) { case 0: return (s64)*(s8 *)a; case 1: return (s64)*(s16 *)a; case 2: return (s64)*(s32 *)a; case 3: return *(u64 *)a; case 4: return *(u8 *)a; case 5: return *(u16 *)a; default: return *(u32 *)a; } }
static void st(u64 a, int f3, u64 v) { switch (f3) { case 0: *(u8 *)a = (u8)v; break; case 1: *(u16 *)a = (u16)v; break; case 2: *(u32 *)a = (u32)v; break; default: *(u64 *)a = v; } }
static u64 f2i(double x, int k) { // toward zero, saturating; NaN gives the largest value
  switch (k) {
  case 0: return x > -2147483649.0 && x < 2147483648.0 ? (u64)(s64)(s32)x : (x != x || x > 0) ? 0x7fffffffull : (u64)(s64)INT32_MIN;
  case 1: return x > -1.0 && x < 4294967296.0 ? (u64)(s64)(s32)(u32)x : (x != x || x > 0) ? ~0ull : 0;
  case 2: return x >= -9223372036854775808.0 && x < 9223372036854775808.0 ? (u64)(s64)x : (x != x || x > 0) ? 0x7fffffffffffffffull : 1ull << 63;
  default: return x > -1.0 && x < 18446744073709551616.0 ? (u64)x : (x != x || x > 0) ? ~0ull : 0; }
}
static u64 f2if(float x, int k) {
  switch (k) {
  case 0: return x >= -2147483648.0f && x < 2147483648.0f ? (u64)(s64)(s32)x : (x != x || x > 0) ? 0x7fffffffull : (u64)(s64)INT32_MIN;
  case 1: return x > -1.0f && x < 4294967296.0f ? (u64)(s64)(s32)(u32)x : (x != x || x > 0) ? ~0ull : 0;
  case 2: return x >= -9223372036854775808.0f && x < 9223372036854775808.0f ? (u64)(s64)x : (x != x || x > 0) ? 0x7fffffffffffffffull : 1ull << 63;
  default: return x > -1.0f && x < 18446744073709551616.0f ? (u64)x : (x != x || x > 0) ? ~0ull : 0; }
}
static int fpop(RV *c, u32 in) {
  int rd = in >> 7 & 31, f3 = in >> 12 & 7, rs1 = in >> 15 & 31, rs2 = in >> 20 & 31, f7 = in >> 25, dbl = f7 & 1; u64 a = c->f[rs1], b = c->f[rs2];
  if (f7 >> 1 & 1) { c->err = E_OP; return 1; }
  int op = f7 >> 2;
  if ((op <= 3 || op == 11) && f3 != 7 && f3 != 0) { c->err = "rounding mode"; return 1; }
  switch (op) {
  case 0: case 1: case 2: case 3: if (dbl) { double x = asd(a), y = asd(b); c->f[rd] = ofd(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y); } else { float x = asf(unbox(a)), y = asf(unbox(b)); c->f[rd] = box(off(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y)); } return 0;
  case 11: if (rs2) break; if (dbl) c->f[rd] = ofd(sqrt(asd(a))); else c->f[rd] = box(off(sqrtf(asf(unbox(a))))); return 0;
  case 4: { u64 s = dbl ? 1ull << 63 : 1u << 31, x = dbl ? a : unbox(a), y = dbl ? b : unbox(b), r; if (f3 > 2) break; if (f3 == 0 && rs1 == rs2) { c->f[rd] = dbl ? a : box((u32)x); return 0; } r = f3 == 0 ? (x & ~s) | (y & s) : f3 == 1 ? (x & ~s) | (~y & s) : x ^ (y & s); c->f[rd] = dbl ? r : box((u32)r); return 0; }
  case 8: if (dbl && rs2 == 0) { c->f[rd] = ofd((double)asf(unbox(a))); return 0; } if (!dbl && rs2 == 1) { c->f[rd] = box(off((float)asd(a))); return 0; } break;
  case 20: { int r; if (dbl) { double x = asd(a), y = asd(b); r = f3 == 2 ? x == y : f3 == 1 ? x < y : x <= y; } else { float x = asf(unbox(a)), y = asf(unbox(b)); r = f3 == 2 ? x == y : f3 == 1 ? x < y : x <= y; } if (f3 > 2) break; W(rd, r); return 0; }
  case 24: if (rs2 > 3) break; if (f3 != 1) { c->err = "conversion to integer that does not truncate"; return 1; } W(rd, dbl ? f2i(asd(a), rs2) : f2if(asf(unbox(a)), rs2)); return 0;
  case 26: { u64 v = c->x[rs1]; if (f3 != 7 && f3 != 0) { c->err = "rounding mode"; return 1; } if (rs2 > 3) break;
    if (dbl) c->f[rd] = ofd(rs2 == 0 ? (double)(s32)v : rs2 == 1 ? (double)(u32)v : rs2 == 2 ? (double)(s64)v : (double)v); else c->f[rd] = box(off(rs2 == 0 ? (float)(s32)v : rs2 == 1 ? (float)(u32)v : rs2 == 2 ? (float)(s64)v : (float)v)); return 0; }
  case 28: if (rs2 || f3) break; W(rd, dbl ? a : (u64)(s64)(s32)a); return 0;
  case 30: if (rs2 || f3) break; c->f[rd] = dbl ? c->x[rs1] : box((u32)c->x[rs1]); return 0;
  }
  c->err = E_OP; return 1;
}
static int branch(int f3, u64 a, u64 b) { switch (f3) { case 0: return a == b; case 1: return a != b; case 4: return (s64)a < (s64)b; case 5: return (s64)a >= (s64)b; case 6: return a < b; case 7: return a >= b; } return 2; }
// a taken branch: kept as control flow so that the program counter stays concrete
static __attribute__((noinline)) void go(RV *c, u64 to) { c->pc = to; }
static int step32(RV *c, u32 in) {
  int rd = in >> 7 & 31, f3 = in >> 12 & 7, rs1 = in >> 15 & 31, rs2 = in >> 20 & 31, f7 = in >> 25; u64 *x = c->x; u64 pc = c->pc, next = pc + 4; s64 I = (s32)in >> 20, S = ((s64)((s32)in >> 25) << 5) | rd;
  switch (in & 0x7f) {
  case 0x37: W(rd, (s64)(s32)(in & 0xfffff000)); break;
  case 0x17: W(rd, pc + (s64)(s32)(in & 0xfffff000)); break;
  case 0x6f: { s64 o = sx((u64)(in >> 31) << 20 | (in >> 21 & 0x3ff) << 1 | (in >> 20 & 1) << 11 | (in >> 12 & 0xff) << 12, 21); W(rd, next); next = pc + o; break; }
  case 0x67: { if (f3) goto bad; u64 t = (x[rs1] + I) & ~1ull; W(rd, next); next = t; break; }
  case 0x63: { s64 o = sx((u64)(in >> 31) << 12 | (in >> 25 & 0x3f) << 5 | (in >> 8 & 0xf) << 1 | (in >> 7 & 1) << 11, 13); if (f3 == 2 || f3 == 3) goto bad; if (branch(f3, x[rs1], x[rs2])) { go(c, pc + o); return 0; } break; }
  case 0x03: if (f3 == 7) goto bad; { u64 v = ld(x[rs1] + I, f3); W(rd, v); } break;
  case 0x23: if (f3 > 3) goto bad; st(x[rs1] + S, f3, x[rs2]); break;
  case 0x13: if (f3 == 1) { if (f7 >> 1) goto bad; W(rd, alu(1, 0, x[rs1], I & 63)); } else if (f3 == 5) { if ((f7 >> 1) & ~0x10) goto bad; W(rd, alu(5, f7 >> 5 & 1, x[rs1], I & 63)); } else W(rd, alu(f3, 0, x[rs1], I)); break;
  case 0x1b: if (f3 == 0) W(rd, aluw(0, 0, (u32)x[rs1], (u32)I)); else if (f3 == 1 && !f7) W(rd, aluw(1, 0, (u32)x[rs1], rs2)); else if (f3 == 5 && !(f7 & ~0x20)) W(rd, aluw(5, f7 >> 5, (u32)x[rs1], rs2)); else goto bad; break;
  case 0x33: if (f7 == 1) W(rd, muldiv(f3, x[rs1], x[rs2])); else if (f7 == 0 || (f7 == 0x20 && (f3 == 0 || f3 == 5))) W(rd, alu(f3, f7 >> 5, x[rs1], x[rs2])); else goto bad; break;
  case 0x3b: if (f7 == 1 && (f3 == 0 || f3 > 3)) W(rd, muldivw(f3, (u32)x[rs1], (u32)x[rs2])); else if ((f7 == 0 && (f3 == 0 || f3 == 1 || f3 == 5)) || (f7 == 0x20 && (f3 == 0 || f3 == 5))) W(rd, aluw(f3, f7 >> 5, (u32)x[rs1], (u32)x[rs2])); else goto bad; break;
  case 0x07: if (f3 == 2) c->f[rd] = box(*(u32 *)(x[rs1] + I)); else if (f3 == 3) c->f[rd] = *(u64 *)(x[rs1] + I); else goto bad; break;
  case 0x27: if (f3 == 2) *(u32 *)(x[rs1] + S) = (u32)c->f[rs2]; else if (f3 == 3) *(u64 *)(x[rs1] + S) = c->f[rs2]; else goto bad; break;
  case 0x53: if (fpop(c, in)) return 1; break;
  case 0x0f: break;
  default: bad: c->err = E_OP; return 1;
  }
  c->pc = next; return 0;
}
static int step16(RV *c, u32 in) {
  u64 *x = c->x; u64 pc = c->pc, next = pc + 2; int f3 = in >> 13, rd = in >> 7 & 31, rs2 = in >> 2 & 31, r1 = 8 + (in >> 7 & 7), r2 = 8 + (in >> 2 & 7); s64 imm6 = sx((in >> 12 & 1) << 5 | (in >> 2 & 31), 6); int sh = (in >> 12 & 1) << 5 | (in >> 2 & 31);
  u64 uw = (in >> 10 & 7) << 3 | (in >> 6 & 1) << 2 | (in >> 5 & 1) << 6, ud = (in >> 10 & 7) << 3 | (in >> 5 & 3) << 6;
  switch ((in & 3) << 3 | f3) {
  case 000: { u64 i = (in >> 11 & 3) << 4 | (in >> 7 & 15) << 6 | (in >> 6 & 1) << 2 | (in >> 5 & 1) << 3; if (!i) goto bad; x[r2] = x[2] + i; break; }
  case 001: c->f[r2] = *(u64 *)(x[r1] + ud); break;
  case 002: x[r2] = (s64)*(s32 *)(x[r1] + uw); break;
  case 003: x[r2] = *(u64 *)(x[r1] + ud); break;
  case 005: *(u64 *)(x[r1] + ud) = c->f[r2]; break;
  case 006: *(u32 *)(x[r1] + uw) = (u32)x[r2]; break;
  case 007: *(u64 *)(x[r1] + ud) = x[r2]; break;
  case 010: W(rd, x[rd] + imm6); break;
  case 011: if (!rd) goto bad; x[rd] = (s64)(s32)(x[rd] + imm6); break;
  case 012: W(rd, imm6); break;
  case 013: if (rd == 2) { s64 i = sx((in >> 12 & 1) << 9 | (in >> 6 & 1) << 4 | (in >> 5 & 1) << 6 | (in >> 3 & 3) << 7 | (in >> 2 & 1) << 5, 10); if (!i) goto bad; x[2] += i; } else { if (!imm6) goto bad; W(rd, imm6 << 12); } break;
  case 014: switch (in >> 10 & 3) {
    case 0: x[r1] >>= sh; break; case 1: x[r1] = (u64)((s64)x[r1] >> sh); break; case 2: x[r1] &= imm6; break;
    default: switch ((in >> 12 & 1) << 2 | (in >> 5 & 3)) { case 0: x[r1] -= x[r2]; break; case 1: x[r1] ^= x[r2]; break; case 2: x[r1] |= x[r2]; break; case 3: x[r1] &= x[r2]; break; case 4: x[r1] = (s64)(s32)(x[r1] - x[r2]); break; case 5: x[r1] = (s64)(s32)(x[r1] + x[r2]); break; default: goto bad; } } break;
  case 015: { s64 o = sx((in >> 12 & 1) << 11 | (in >> 11 & 1) << 4 | (in >> 9 & 3) << 8 | (in >> 8 & 1) << 10 | (in >> 7 & 1) << 6 | (in >> 6 & 1) << 7 | (in >> 3 & 7) << 1 | (in >> 2 & 1) << 5, 12); next = pc + o; break; }
  case 016: case 017: { s64 o = sx((in >> 12 & 1) << 8 | (in >> 10 & 3) << 3 | (in >> 5 & 3) << 6 | (in >> 3 & 3) << 1 | (in >> 2 & 1) << 5, 9); int t = x[r1] == 0; if (f3 == 7) t = !t; if (t) { go(c, pc + o); return 0; } break; }
  case 020: if (!rd) goto bad; x[rd] <<= sh; break;
  case 021: c->f[rd] = *(u64 *)(x[2] + ((in >> 12 & 1) << 5 | (in >> 5 & 3) << 3 | (in >> 2 & 7) << 6)); break;
  case 022: if (!rd) goto bad; x[rd] = (s64)*(s32 *)(x[2] + ((in >> 12 & 1) << 5 | (in >> 4 & 7) << 2 | (in >> 2 & 3) << 6)); break;
  case 023: if (!rd) goto bad; x[rd] = *(u64 *)(x[2] + ((in >> 12 & 1) << 5 | (in >> 5 & 3) << 3 | (in >> 2 & 7) << 6)); break;
  case 024: if (!(in >> 12 & 1)) { if (!rs2) { if (!rd) goto bad; next = x[rd] & ~1ull; } else W(rd, x[rs2]); } else { if (!rs2) { if (!rd) { c->err = "breakpoint"; return 1; } u64 t = x[rd] & ~1ull; x[1] = next; next = t; } else W(rd, x[rd] + x[rs2]); } break;
  case 025: *(u64 *)(x[2] + ((in >> 10 & 7) << 3 | (in >> 7 & 7) << 6)) = c->f[rs2]; break;
  case 026: *(u32 *)(x[2] + ((in >> 9 & 15) << 2 | (in >> 7 & 3) << 6)) = (u32)x[rs2]; break;
  case 027: *(u64 *)(x[2] + ((in >> 10 & 7) << 3 | (in >> 7 & 7) << 6)) = x[rs2]; break;
  default: bad: c->err = E_OP; return 1;
  }
  c->pc = next; return 0;
}
int rv_run(RV *c, long max) {
  for (c->steps = 0; c->steps < max; c->steps++) {
    if (symx_is_symbolic(c->pc)) c->pc = symx_concretize(c->pc); // one path per target
    u64 pc = c->pc; if (pc == RV_STOP) return 0;
    if (pc >= rv_hook_lo && pc < rv_hook_hi) { if (rv_hook(c, pc)) return 1; continue; }
    if (pc & 1) { c->err = "misaligned program counter"; return 1; }
    u32 lo = *(u16 *)pc; c->x[0] = 0;
    if ((lo & 3) == 3) { u32 in = lo | (u32)*(u16 *)(pc + 2) << 16; if (step32(c, in)) return 1; } else if (step16(c, lo)) return 1;
  }
  c->err = "does not terminate within the step limit"; return 1;
}
