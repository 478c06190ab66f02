// Harness interface of the symx symbolic executor.
#pragma once
#include <stddef.h>
void symx_symbolic(void *p, size_t n, const char *name);   // make n bytes at p unconstrained
void symx_assume(int c);
void symx_assert(int c, const char *msg);                  // violation ends the path
void symx_check(int c, const char *msg);                   // violation reported, path continues
void symx_fail(const char *msg);                           // unconditional violation
void symx_cover(const char *name);
void symx_label(const char *name);
unsigned symx_choose(unsigned n);                          // fork over 0..n-1
unsigned long symx_concretize(unsigned long v);
int symx_is_symbolic(unsigned long v);
int symx_maybe(int c);                                     // may c be true?
int symx_catch(int (*fn)(void *), void *arg);              // fn(arg), or 0x10000|code if symx_exit(code) was called inside
void symx_exit(int code);
void symx_path_end(const char *msg);
void symx_note(const char *s);
void symx_print(const char *s, unsigned long v);
int symx_tagrun(char *dst, unsigned long val);             // write a 3-byte symbolic-number token, returns 3
int symx_tag_at(const char *p, unsigned long *val);        // token at p?
int symx_valid(const void *p, size_t n);
size_t symx_objsize(const void *p);
long symx_host_size(const char *path);
long symx_host_read(const char *path, void *buf, size_t n);
const char *symx_getarg(int i);
