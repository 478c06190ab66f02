// Base of the harnesses that run the tools: memory, process exit and system calls below the tree's own C library.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include "symx.h"
#ifndef ONLY
#define ONLY -1
#endif
void *h_alloc(size_t) __asm__("malloc");
typedef unsigned char u8; typedef unsigned long long u64; typedef long long i64; typedef unsigned int u32;
#define A(c) symx_assert((c) != 0, #c)
static char *hb_al(size_t n) { size_t *p = h_alloc(n + 16); *p = n; return (char *)(p + 2); }
void *malloc(size_t n) { return hb_al(n); }
void *calloc(size_t a, size_t b) { char *p = hb_al(a * b); for (size_t i = 0; i < a * b; i++) p[i] = 0; return p; }
void *realloc(void *p, size_t n) { char *q = hb_al(n); if (p) { size_t o = ((size_t *)p)[-2]; for (size_t i = 0; i < n && i < o; i++) q[i] = ((char *)p)[i]; } return q; }
void free(void *p) { (void)p; }
void exit(int c) { symx_exit(c); for (;;) ; }
void abort(void) { symx_fail("abort called"); for (;;) ; }
void __assert_fail(const char *a, const char *f, unsigned l, const char *g) { (void)f; (void)l; (void)g; symx_fail(a); for (;;) ; }
#ifndef HB_FILES
ssize_t read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return 0; }
ssize_t write(int fd, const void *b, size_t n) { (void)fd; (void)b; return n; }
off_t lseek(int fd, off_t o, int w) { (void)fd; (void)o; (void)w; return 0; }
int close(int fd) { (void)fd; return 0; }
int open(const char *n, int fl, ...) { (void)n; (void)fl; return -1; }
#endif
static int rng(int c, int a, int b) { return (c >= a) & (c <= b); }
static int oneof(int c, const char *s) { int r = 0; for (; *s; s++) r |= c == (u8)*s; return r; }
