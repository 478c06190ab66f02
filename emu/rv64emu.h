// RV64IMFDC user-mode instruction interpreter; guest addresses are host addresses.
#pragma once
#include <stdint.h>
typedef struct { uint64_t x[32], f[32], pc; long steps; const char *err; } RV;
#define RV_STOP 0x5a5a5a5a5a5aULL
extern uint64_t rv_hook_lo, rv_hook_hi;
int rv_hook(RV *c, uint64_t pc);
int rv_run(RV *c, long max);
