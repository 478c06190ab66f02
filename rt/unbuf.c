// Streams without buffers, in place of libsrc/stdio/_file.c (which C18 checks): a program cannot tell the difference.
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
#include "stdio/_file.h"
ssize_t _fread(void *c, char *b, size_t n) { FILE *f = c; ssize_t r = read(f->fd, b, n); if (r < (ssize_t)n) f->flag |= FF_EOF; return r; }
ssize_t _fwrite(void *c, const char *b, size_t n) { FILE *f = c; return write(f->fd, b, n); }
int _fflush(FILE *f) { (void)f; return 0; }
int _fseek(void *c, off_t *o, int w) { FILE *f = c; off_t r = lseek(f->fd, *o - (w == SEEK_CUR && f->unget_char != EOF), w); if (r == -1) return -1; f->flag &= ~FF_EOF; f->unget_char = EOF; *o = r; return 0; }
