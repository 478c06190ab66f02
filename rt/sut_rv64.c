// riscv64: run the program in the instruction interpreter (in symx; for replay the same interpreter compiled natively).
#include "sut.h"
#include "elfobj.h"
#include "symx.h"
#include "rv64emu.h"
#include <stdlib.h>
#include <string.h>
const char *sut_err; static uint64_t hookBase;
#define NSTK 1024
#define STKSZ 65536
#define ABOVE 64
static void unk(uint64_t *p, const char *n) { symx_symbolic(p, 8, n); }
#ifdef NATIVE
#include <sys/mman.h>
static char *arena; static size_t apos;
void *sut_alloc(size_t n, size_t align) { if (!arena) arena = mmap((void *)0x300000000000, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (align < 16) align = 16; apos = (apos + 64 + align - 1) & ~(align - 1); void *p = arena + apos; apos += n; return p; }
#define MAXS 20000000
#else
void *sut_alloc(size_t n, size_t align) { (void)align; char *p = malloc(n + (align > 16 ? align : 0)); if (align > 16) p = (char *)(((uint64_t)p + align - 1) & ~(uint64_t)(align - 1)); return p; }
#define MAXS SUT_MAXSTEPS
#endif
static int saved(int r) { return r == 2 || r == 3 || r == 4 || r == 8 || r == 9 || (r >= 18 && r <= 27); }
static int fsaved(int r) { return r == 8 || r == 9 || (r >= 18 && r <= 27); }
int rv_hook(RV *c, uint64_t pc) {
  int ix = (int)((pc - hookBase) / 32); if ((pc - hookBase) % 32 || ix >= n_ext_fns) { c->err = "jump into the middle of nowhere"; return 1; }
  if (c->x[2] & 15) { c->err = "stack misaligned at call"; return 1; }
  Call k; memset(&k, 0, sizeof k);
  for (int i = 0; i < 8; i++) k.ireg[i] = c->x[10 + i], k.freg[i] = c->f[10 + i];
  for (int i = 0; i < 4; i++) k.stk[i] = symx_valid((void *)(c->x[2] + 8 * i), 8) ? ((uint64_t *)c->x[2])[i] : 0;
  ext_fns[ix].fn(&k); uint64_t ra = c->x[1];
  for (int i = 1; i < 32; i++) { if (!saved(i)) unk(&c->x[i], "clob"); }
  for (int i = 0; i < 32; i++) { if (!fsaved(i)) unk(&c->f[i], "clobf"); }
  c->x[10] = k.rax; if (k.vararg) c->x[11] = k.rdx; c->f[10] = k.xmm0; c->pc = ra; return 0;
}
uint64_t sut_sym(const char *n) { return elf_sym(n); }
void sut_init(void) {
  static ExtSym es[64]; hookBase = (uint64_t)sut_alloc(32 * (n_ext_fns + 1), 32);
  for (int i = 0; i < n_ext_fns && i < 64; i++) { es[i].name = ext_fns[i].name; es[i].addr = hookBase + 32 * i; }
  for (int i = 0; symx_getarg(i); i++) if (elf_add(symx_getarg(i))) symx_fail(elf_error);
  if (elf_link(es, n_ext_fns)) symx_fail(elf_error);
  rv_hook_lo = hookBase; rv_hook_hi = hookBase + 32 * n_ext_fns;
}
static char *stack;
int sut_call(const char *fn, Call *k) {
  uint64_t f = elf_sym(fn); if (!f) { sut_err = "function missing in the output"; return 1; }
  if (!stack) stack = sut_alloc(STKSZ, 64);
  static RV c; memset(&c, 0, sizeof c);
  uint64_t top = ((uint64_t)stack + STKSZ - 4096) & ~15ULL;
  for (int i = 0; i < NSTK / 8; i++) unk((uint64_t *)(top - NSTK) + i, "stk");
  for (int i = 0; i < k->ns; i++) ((uint64_t *)top)[i] = k->stk[i];
  uint64_t above[ABOVE / 8]; for (int i = 0; i < ABOVE / 8; i++) { unk(&above[i], "frm"); ((uint64_t *)top)[k->ns + i] = above[i]; }
  for (int i = 1; i < 32; i++) unk(&c.x[i], "gpr");
  for (int i = 0; i < 32; i++) unk(&c.f[i], "fpr");
  for (int i = 0; i < k->ni; i++) c.x[10 + i] = k->ireg[i];
  for (int i = 0; i < k->nf; i++) c.f[10 + i] = k->freg[i];
  c.x[2] = top; c.x[1] = RV_STOP; c.pc = f; RV s = c; sut_err = 0;
  if (rv_run(&c, MAXS)) { sut_err = c.err; return 1; }
  if (c.x[2] != top) { sut_err = "stack pointer not restored"; return 1; }
  int ok = 1; for (int i = 0; i < 32; i++) { if (saved(i)) ok &= s.x[i] == c.x[i]; if (fsaved(i)) ok &= s.f[i] == c.f[i]; }
  symx_assert(ok, "callee-saved register not preserved");
  ok = 1; for (int i = 0; i < ABOVE / 8; i++) ok &= ((uint64_t *)top)[k->ns + i] == above[i];
  symx_assert(ok, "caller's stack frame overwritten");
  k->rax = c.x[10]; k->rdx = c.x[11]; k->xmm0 = c.f[10]; k->xmm1 = c.f[11];
  return 0;
}
