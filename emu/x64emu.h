// x86-64 user-mode instruction interpreter. Guest addresses are host addresses
// (optionally biased, see x64_bias), so the host memory checker sees every access.
#pragma once
#include <stdint.h>
enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15 };
typedef struct {
  uint64_t r[16];
  uint64_t x[16][2];
  uint64_t rip;
  int ccop, ccw;              // lazy flags: last flag-setting operation
  uint64_t cca, ccb, ccr;
  uint8_t cf, zf, sf, of, pf; // explicit flags (CC_EXPL)
  long steps;
  const char *err;            // set when execution stopped abnormally
} X64;
enum { CC_UNDEF, CC_ADD, CC_SUB, CC_LOGIC, CC_EXPL };
#define X64_STOP 0x5a5a5a5a5a5aULL   // returning here ends the run
extern uint64_t x64_hook_lo, x64_hook_hi;      // rip in this range: call x64_hook
int x64_hook(X64 *c, uint64_t rip);            // provided by the harness; returns 0 to continue
extern uint64_t x64_bias_lo, x64_bias_hi, x64_bias; // guest range mapped at +bias
int x64_run(X64 *c, long max);                 // 0: reached X64_STOP, else c->err
int x64_step(X64 *c);                          // 0 ok
int x64_cond(X64 *c, int cc);
