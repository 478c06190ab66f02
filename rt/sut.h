// Calling a compiled function of the system under test.
#pragma once
#include <stdint.h>
typedef struct {
  uint64_t ireg[8], freg[8]; int ni, nf;   // integer and floating argument registers
  uint64_t stk[24]; int ns;                // stack argument words
  uint64_t sret;                           // nonzero: checked to come back in the return register
  uint64_t rax, rdx, xmm0, xmm1;           // results
  int vararg;                              // set the variadic marker
} Call;
void sut_init(void);                       // loads objects given as --arg
int sut_call(const char *fn, Call *c);     // returns 0 when the call completed
uint64_t sut_sym(const char *name);
extern const char *sut_err;
// external functions callable by the program: provided by the harness
typedef struct { const char *name; void (*fn)(Call *in); } ExtFn;  // fn reads ireg/freg/stk, sets rax/xmm0
extern const ExtFn ext_fns[]; extern const int n_ext_fns;
#define SUT_MAXSTEPS 20000
