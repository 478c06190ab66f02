// Runtime shared by the translation-validation harnesses.
#pragma once
#include <stdint.h>
#include <string.h>
#include "symx.h"
#include "sut.h"
extern int side; extern uint8_t *escR, *escS; extern int escN;
uint64_t dbits(double d), fbits(float d); double bd(uint64_t u); float bf(uint64_t u);
void cmpEv(void); uint64_t hi32(uint64_t v, int w); void symbytes(uint8_t *p, int n, const char *nm);
#define SYM(p, n, nm) symx_symbolic(p, n, nm)
