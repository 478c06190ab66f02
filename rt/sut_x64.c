// x86-64: run the program in the interpreter (symx) or on the processor (native replay).
#include "sut.h"
#include "elfobj.h"
#include "symx.h"
#include "x64emu.h"
#include <stdlib.h>
#include <string.h>
const char *sut_err; static uint64_t hookBase;
static const int calleeSaved[] = {RBX, RBP, R12, R13, R14, R15};
#define NSTK 1024   /* bytes of unknown stack contents below the frame */
#define STKSZ 65536
#define ABOVE 64
static void unk(uint64_t *p, const char *n) { symx_symbolic(p, 8, n); }
#ifdef NATIVE
#include <sys/mman.h>
#include <stdio.h>
static char *arena; static size_t apos;
void *sut_alloc(size_t n, size_t align) { if (!arena) { arena = mmap((void *)0x300000000000, 64 << 20, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } if (align < 16) align = 16; apos = (apos + 64 + align - 1) & ~(align - 1); void *p = arena + apos; apos += n; return p; }
void tramp_call(uint64_t fn, uint64_t *st);  // st: r[16] then x[16][2]
uint64_t *ext_state;                          // registers saved by the external-call stub
uint64_t tramp_host_rsp;
extern char ext_stub_common[];
static int nextHook;
static void makeStub(uint64_t at, int ix) { // mov $ix,%r11 ; movabs $common,%r10... (r10 is caller-saved): jmp *%r10
  uint8_t *p = (uint8_t *)at; p[0] = 0x41; p[1] = 0xbb; memcpy(p + 2, &ix, 4); p[6] = 0x49; p[7] = 0xba; uint64_t c = (uint64_t)ext_stub_common; memcpy(p + 8, &c, 8); p[16] = 0x41; p[17] = 0xff; p[18] = 0xe2;
}
void ext_dispatch(uint64_t *st, int ix) { // st: r[16], x[16][2]; r[RSP] points at the return address
  Call c; memset(&c, 0, sizeof c); static const int ir[] = {RDI, RSI, RDX, RCX, R8, R9};
  for (int i = 0; i < 6; i++) c.ireg[i] = st[ir[i]];
  for (int i = 0; i < 8; i++) c.freg[i] = st[16 + 2 * i];
  for (int i = 0; i < 12; i++) c.stk[i] = ((uint64_t *)st[RSP])[1 + i];
  c.ni = (int)(st[RAX] & 0xff);
  if ((st[RSP] & 15) != 8) symx_fail("stack misaligned at call");
  ext_fns[ix].fn(&c);
  static const int scr[] = {RCX, RDX, RSI, RDI, R8, R9, R10, R11};
  for (int i = 0; i < 8; i++) unk(&st[scr[i]], "clob"); for (int i = 0; i < 32; i++) unk(&st[16 + i], "clobx");
  st[RAX] = c.rax; if (c.vararg) st[RDX] = c.rdx; st[16] = c.xmm0; if (c.vararg) st[18] = c.xmm1;
}
#else
void *sut_alloc(size_t n, size_t align) { (void)align; char *p = malloc(n + (align > 16 ? align : 0)); if (align > 16) p = (char *)(((uint64_t)p + align - 1) & ~(uint64_t)(align - 1)); return p; }
int x64_hook(X64 *c, uint64_t rip) {
  int ix = (int)((rip - hookBase) / 32); if ((rip - hookBase) % 32 || ix >= n_ext_fns) { c->err = "jump into the middle of nowhere"; return 1; }
  if ((c->r[RSP] & 15) != 8) { c->err = "stack misaligned at call"; return 1; }
  Call k; memset(&k, 0, sizeof k); static const int ir[] = {RDI, RSI, RDX, RCX, R8, R9};
  for (int i = 0; i < 6; i++) k.ireg[i] = c->r[ir[i]];
  for (int i = 0; i < 8; i++) k.freg[i] = c->x[i][0];
  for (int i = 0; i < 12; i++) k.stk[i] = ((uint64_t *)c->r[RSP])[1 + i];
  k.ni = (int)(c->r[RAX] & 0xff);
  ext_fns[ix].fn(&k);
  uint64_t ra = *(uint64_t *)c->r[RSP]; c->r[RSP] += 8;
  static const int scr[] = {RCX, RDX, RSI, RDI, R8, R9, R10, R11};
  for (int i = 0; i < 8; i++) unk(&c->r[scr[i]], "clob"); for (int i = 0; i < 16; i++) { unk(&c->x[i][0], "clobx"); unk(&c->x[i][1], "clobx"); }
  c->r[RAX] = k.rax; if (k.vararg) c->r[RDX] = k.rdx; c->x[0][0] = k.xmm0; if (k.vararg) c->x[1][0] = k.xmm1;
  c->ccop = CC_UNDEF; c->rip = ra; return 0;
}
#endif
uint64_t sut_sym(const char *n) { return elf_sym(n); }
void sut_init(void) {
  static ExtSym es[64];
  hookBase = (uint64_t)sut_alloc(32 * (n_ext_fns + 1), 32);
  for (int i = 0; i < n_ext_fns && i < 64; i++) { es[i].name = ext_fns[i].name; es[i].addr = hookBase + 32 * i;
#ifdef NATIVE
    makeStub(es[i].addr, i);
#endif
  }
  for (int i = 0; symx_getarg(i); i++) if (elf_add(symx_getarg(i))) symx_fail(elf_error);
  if (elf_link(es, n_ext_fns)) symx_fail(elf_error);
#ifndef NATIVE
  x64_hook_lo = hookBase; x64_hook_hi = hookBase + 32 * n_ext_fns;
#endif
}
static char *stack;
int sut_call(const char *fn, Call *k) {
  uint64_t f = elf_sym(fn); if (!f) { sut_err = "function missing in the output"; return 1; }
  if (!stack) stack = sut_alloc(STKSZ, 64);
  static X64 c; memset(&c, 0, sizeof c);
  uint64_t top = ((uint64_t)stack + STKSZ - 4096) & ~15ULL; // argument area starts here (16-aligned at call)
  for (int i = 0; i < NSTK / 8; i++) unk((uint64_t *)(top - 8 - NSTK) + i, "stk");
  for (int i = 0; i < k->ns; i++) ((uint64_t *)top)[i] = k->stk[i];
  uint64_t above[ABOVE / 8]; for (int i = 0; i < ABOVE / 8; i++) { unk(&above[i], "frm"); ((uint64_t *)top)[k->ns + i] = above[i]; }
  for (int i = 0; i < 16; i++) if (i != RSP) unk(&c.r[i], "gpr");
  for (int i = 0; i < 16; i++) { unk(&c.x[i][0], "xmm"); unk(&c.x[i][1], "xmm"); }
  static const int ir[] = {RDI, RSI, RDX, RCX, R8, R9};
  for (int i = 0; i < k->ni; i++) c.r[ir[i]] = k->ireg[i];
  for (int i = 0; i < k->nf; i++) c.x[i][0] = k->freg[i];
  if (k->vararg) c.r[RAX] = (uint64_t)k->nf;
  uint64_t save[6]; for (int i = 0; i < 6; i++) save[i] = c.r[calleeSaved[i]];
  sut_err = 0;
#ifdef NATIVE
  c.r[RSP] = top; tramp_call(f, (uint64_t *)&c); if (c.r[RSP] != top) { sut_err = "stack pointer not restored"; return 1; }
#else
  c.r[RSP] = top - 8; *(uint64_t *)(top - 8) = X64_STOP; c.rip = f; c.ccop = CC_UNDEF;
  if (x64_run(&c, SUT_MAXSTEPS)) { sut_err = c.err; return 1; }
  if (c.r[RSP] != top) { sut_err = "stack pointer not restored"; return 1; }
#endif
  int ok = 1; for (int i = 0; i < 6; i++) ok &= save[i] == c.r[calleeSaved[i]];
  symx_assert(ok, "callee-saved register not preserved");
  ok = 1; for (int i = 0; i < ABOVE / 8; i++) ok &= ((uint64_t *)top)[k->ns + i] == above[i];
  symx_assert(ok, "caller's stack frame overwritten");
  k->rax = c.r[RAX]; k->rdx = c.r[RDX]; k->xmm0 = c.x[0][0]; k->xmm1 = c.x[1][0];
  return 0;
}
