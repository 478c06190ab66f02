// C18: buffered streams of the tree's C library against a plain byte-sequence model of the file.
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include "symx.h"
#ifndef ONLY
#define ONLY -1
#endif
#ifndef K
#define K 3
#endif
void *h_alloc(size_t) __asm__("malloc");
typedef unsigned char u8;
#define A(c) symx_assert((c) != 0, #c)
static char *al(size_t n) { size_t *p = h_alloc(n + 16); *p = n; return (char *)(p + 2); }
void *malloc(size_t n) { return al(n); }
void *calloc(size_t a, size_t b) { char *p = al(a * b); for (size_t i = 0; i < a * b; i++) p[i] = 0; return p; }
void *realloc(void *p, size_t n) { char *q = al(n); if (p) { size_t o = ((size_t *)p)[-2]; for (size_t i = 0; i < n && i < o; i++) q[i] = ((char *)p)[i]; } return q; }
void free(void *p) { (void)p; } void exit(int c) { symx_exit(c); }
// the file behind descriptor 3
#define CAP 2048
static u8 data[CAP]; static long fsize, fpos; static int shorts, nshort = 2, werr = -1, nw, opens, closes, oflags, omode, cerr; static const char *oname;
ssize_t read(int fd, void *buf, size_t n) { A(fd == 3); long a = fpos < fsize ? fsize - fpos : 0; if ((size_t)a < n) n = a; if (shorts && n > 1 && nshort > 0) { switch (symx_choose(3)) { case 1: nshort--; n = 1; break; case 2: nshort--; n = n - 1; break; } } for (size_t i = 0; i < n; i++) ((u8 *)buf)[i] = data[fpos + i]; fpos += n; return n; }
ssize_t write(int fd, const void *buf, size_t n) { A(fd == 3); if (nw++ == werr) return -1; if (shorts && n > 1 && nshort > 0) { switch (symx_choose(3)) { case 1: nshort--; n = 1; break; case 2: nshort--; n = n - 1; break; } } A(fpos + n <= CAP); for (size_t i = 0; i < n; i++) data[fpos + i] = ((const u8 *)buf)[i]; fpos += n; if (fpos > fsize) fsize = fpos; return n; }
off_t lseek(int fd, off_t o, int w) { A(fd == 3); long p = o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? fpos : fsize); if (p < 0) return -1; return fpos = p; }
int close(int fd) { A(fd == 3); closes++; return cerr ? -1 : 0; }
int open(const char *n, int fl, ...) { va_list ap; va_start(ap, fl); oname = n; oflags = fl; omode = va_arg(ap, int); va_end(ap); opens++; return symx_choose(2) ? -1 : 3; }
static void file(long n) { symx_symbolic(data, CAP, "data"); fsize = n; }
static void quiet(long from, long to) { for (long i = from; i < to; i++) data[i] = 'a' + i % 26; } // no line ends here
static void cmp(const void *p, long at, long n, const char *m) { int d = 0; for (long i = 0; i < n; i++) d |= ((const u8 *)p)[i] ^ data[at + i]; symx_assert(d == 0, m); }
static const int sizes[] = {3, 256, 0, 1, 255, 257, 400, 600}; static const int reads[] = {1, 200, 300, 3, 191, 192, 256};
static void rops(FILE *f, int k, int ns, int nr, int withun) {
  long pos = 0; int eof = 0, un = -1;
  for (int i = 0; i < k; i++) {
    switch (symx_choose(withun ? 6 : 5)) {
    case 0: { int c = fgetc(f); if (un >= 0) { A(c == un); un = -1; pos++; } else if (pos < fsize) { A(c == data[pos]); pos++; } else { A(c == EOF); eof = 1; } break; }
    case 1: { size_t n = reads[symx_choose(nr)], sz = symx_choose(2) ? 2 : 1; if (sz == 2 && n < 3) symx_path_end("same as a single item"); char *b = h_alloc(n); long have = un >= 0 ? 1 : 0, a = (pos + have < fsize ? fsize - pos - have : 0) + have; long tot = n / sz * sz, got = a < tot ? a : tot; size_t r = fread(b, sz, n / sz, f); A(r == got / sz);
      if (have && got) { A((u8)b[0] == un); un = -1; cmp(b + 1, pos + 1, got / sz * sz - 1, "fread gives the bytes of the file"); } else cmp(b, pos, got / sz * sz, "fread gives the bytes of the file"); pos += got; if (a < tot) eof = 1; break; }
    case 2: { long o = (long[]){0, 1, 100, -1, 260}[symx_choose(4 + (fsize > 260))]; int w = symx_choose(3); long t = (w == SEEK_SET ? 0 : w == SEEK_CUR ? pos : fsize) + o; if (t < 0) { symx_path_end("seek before the start"); } A(fseek(f, o, w) == 0); pos = t; eof = 0; un = -1; break; }
    case 3: A(ftell(f) == pos); break;
    case 4: A(!!feof(f) == eof); break;
    case 5: { if (un >= 0 || pos == 0) symx_path_end("one pushed back character, after a read"); u8 c; symx_symbolic(&c, 1, "un"); A(ungetc(c, f) == c); un = c; pos--; eof = 0; break; }
    }
  }
  A(ftell(f) == pos); { int c = fgetc(f); if (un >= 0) A(c == un); else A(c == (pos < fsize ? data[pos] : EOF)); }
}
static void t_read(void) { file(sizes[symx_choose(5)]); FILE *f = fdopen(3, "r"); A(f != 0); rops(f, K, 5, 3, 0); A(fclose(f) == 0); A(closes == 1); }
static void t_read_short(void) { shorts = 1; file(sizes[symx_choose(2)]); FILE *f = fdopen(3, "rb"); rops(f, 2, 3, 3, 0); }
static void t_read_unget(void) { file(sizes[symx_choose(2)]); FILE *f = fdopen(3, "r"); rops(f, K, 2, 2, 1); }
static void t_read_sizes(void) { file(600); FILE *f = fdopen(3, "r"); long pos = 0; for (int i = 0; i < 3; i++) { size_t n = reads[symx_choose(7)]; char *b = h_alloc(n); long got = fsize - pos < (long)n ? fsize - pos : (long)n; A(fread(b, 1, n, f) == (size_t)got); cmp(b, pos, got, "fread gives the bytes of the file"); pos += got; A(!!feof(f) == (got < (long)n)); } }
static void t_fgets(void) { file(6); for (int i = 0; i < 6; i++) symx_assume(data[i] != 0); shorts = symx_choose(2); FILE *f = fdopen(3, "r"); long pos = 0; for (int k = 0; k < 3; k++) { int n = 1 + symx_choose(5); char *b = h_alloc(n); char *r = fgets(b, n, f); int l = 0; while (l < n - 1 && pos + l < fsize) if (data[pos + l++] == '\n') break; if (!l && n > 1) { A(r == 0); continue; } A(r == b); cmp(b, pos, l, "fgets gives the bytes of the line"); A(b[l] == 0); pos += l; } }
static void t_getline(void) { file(20); quiet(3, 18); FILE *f = fdopen(3, "r"); char *l = 0; size_t cap = 0; long pos = 0; for (int k = 0; k < 3; k++) { ssize_t r = getline(&l, &cap, f); long n = 0; while (pos + n < fsize) if (data[pos + n++] == '\n') break; if (!n) { A(r == -1); break; } A(r == n); A((size_t)n < cap); cmp(l, pos, n, "getline gives the bytes of the line"); A(l[n] == 0); pos += n; } }
// writing: model of the expected contents
static u8 want[CAP]; static long wpos, wsize; static void put(u8 c) { want[wpos++] = c; if (wpos > wsize) wsize = wpos; }
static const int writes[] = {5, 128, 300, 1, 127, 129, 256};
static void wops(FILE *f, int k, int nw_, int seeks) {
  for (int i = 0; i < k; i++) switch (symx_choose(seeks ? 7 : 5)) {
  case 0: { u8 c; symx_symbolic(&c, 1, "c"); A(fputc(c, f) == c); put(c); break; }
  case 1: { int n = writes[symx_choose(nw_)]; char *b = h_alloc(n); for (int j = 0; j < n; j++) b[j] = 'A' + (j + i) % 26; symx_symbolic(b + n / 2, 1, "b"); A(fwrite(b, 1, n, f) == (size_t)n); for (int j = 0; j < n; j++) put(b[j]); break; }
  case 2: { char s[4]; symx_symbolic(s, 3, "s"); s[3] = 0; int r = fputs(s, f); A(r >= 0); for (int j = 0; s[j]; j++) put(s[j]); break; }
  case 3: A(fflush(f) == 0); A(fsize == wsize); break;
  case 4: A(ftell(f) == wpos); break;
  case 5: A(fseek(f, 0, SEEK_SET) == 0); wpos = 0; break;
  case 6: { long o = symx_choose(2) ? 0 : wpos ? -1 : 0; A(fseek(f, o, SEEK_CUR) == 0); wpos += o; break; }
  }
}
static void wend(FILE *f) { A(fclose(f) == 0); A(closes == 1); A(fsize == wsize); int d = 0; for (long i = 0; i < wsize; i++) d |= data[i] ^ want[i]; symx_assert(d == 0, "the file has the bytes written"); }
static void t_write(void) { FILE *f = fdopen(3, symx_choose(2) ? "wb" : "w"); A(f != 0); wops(f, K, 3, 0); wend(f); }
static void t_write_seek(void) { FILE *f = fdopen(3, "w"); wops(f, K, 2, 1); wend(f); }
static void t_write_short(void) { shorts = 1; FILE *f = fdopen(3, symx_choose(2) ? "wb" : "w"); wops(f, 2, 2, 0); wend(f); }
static void t_write_sizes(void) { FILE *f = fdopen(3, "wb"); for (int i = 0; i < 3; i++) { int n = writes[symx_choose(7)]; char *b = h_alloc(n); for (int j = 0; j < n; j++) b[j] = 'A' + (j + i) % 26; symx_symbolic(b, 1, "b"); symx_symbolic(b + n - 1, 1, "b"); A(fwrite(b, 1, n, f) == (size_t)n); for (int j = 0; j < n; j++) put(b[j]); } wend(f); }
static void t_write_error(void) { // a failing write is reported by some call, never lost silently
  FILE *f = fdopen(3, symx_choose(2) ? "wb" : "w"); werr = symx_choose(3); int bad = 0; for (int i = 0; i < 2; i++) { int n = writes[symx_choose(3)]; char *b = h_alloc(n); for (int j = 0; j < n; j++) b[j] = 'A'; b[n - 1] = '\n'; if (fwrite(b, 1, n, f) != (size_t)n) bad = 1; if (symx_choose(2) && fflush(f) != 0) bad = 1; } if (fclose(f) != 0) bad = 1; A(bad == (nw > werr) || nw > werr + 1); if (nw > werr) A(bad); }
static void t_close_error(void) { cerr = 1; FILE *f = fdopen(3, "w"); fputc('a', f); A(fclose(f) != 0); A(fsize == 1); }
static void t_items(void) { FILE *f = fdopen(3, "w"); char b[12]; symx_symbolic(b, 12, "b"); size_t sz = symx_choose(5), n = symx_choose(3); if (sz * n > 12) return; A(fwrite(b, sz, n, f) == (sz ? n : 0)); for (size_t i = 0; i < sz * n; i++) put(b[i]); wend(f); }
static void t_direction(void) { file(4); FILE *f = fdopen(3, "r"); char c; A(fputc('x', f) == EOF); A(fwrite("xy", 1, 2, f) == 0); A(fclose(f) == 0); A(fsize == 4); closes = 0; f = fdopen(3, "w"); A(fgetc(f) == EOF); A(fread(&c, 1, 1, f) == 0); A(ungetc('a', f) == EOF); A(fclose(f) == 0); }
static void t_fopen(void) {
  static const struct { const char *m; int fl; } M[] = {{"r", O_RDONLY}, {"w", O_WRONLY | O_CREAT | O_TRUNC}, {"a", O_WRONLY | O_CREAT | O_APPEND}, {"rb", O_RDONLY}, {"wb", O_WRONLY | O_CREAT | O_TRUNC}, {"ab", O_WRONLY | O_CREAT | O_APPEND}, {"r+", O_RDWR}, {"w+", O_RDWR | O_CREAT | O_TRUNC}, {"a+", O_RDWR | O_CREAT | O_APPEND}, {"rb+", O_RDWR}, {"r+b", O_RDWR}, {"w+b", O_RDWR | O_CREAT | O_TRUNC}};
  unsigned i = symx_choose(12); FILE *f = fopen("name", M[i].m); A(opens == 1); A(oflags == M[i].fl); A(!strcmp(oname, "name")); if (f) { A(fileno(f) == 3); int acc = M[i].fl & O_ACCMODE; if (acc != O_RDONLY) { A(fputc('q', f) == 'q'); A(fflush(f) == 0); A(fsize == 1 && data[0] == 'q'); } else { A(fputc('q', f) == EOF); } A(fclose(f) == 0); A(closes == 1); } else A(closes == 0);
}
static void t_fmemopen(void) { unsigned n = symx_choose(5); char *b = h_alloc(n ? n : 1); symx_symbolic(b, n ? n : 1, "m"); for (unsigned i = 0; i < n; i++) data[i] = b[i]; fsize = n; FILE *f = fmemopen(b, n, "r"); A(f != 0); long pos = 0; int eof = 0, un = -1;
  for (int i = 0; i < K + 1; i++) switch (symx_choose(5)) { case 0: { int c = fgetc(f); if (un >= 0) { A(c == un); un = -1; pos++; } else if (pos < fsize) A(c == data[pos++]); else { A(c == EOF); eof = 1; } break; } case 1: { if (un >= 0) symx_path_end("x"); char t[3]; int got = fsize - pos < 3 ? fsize - pos : 3; A(fread(t, 1, 3, f) == got); cmp(t, pos, got, "fread gives the bytes of the buffer"); pos += got; if (got < 3) eof = 1; break; } case 2: { if (un >= 0 || !pos) symx_path_end("x"); u8 c; symx_symbolic(&c, 1, "un"); A(ungetc(c, f) == c); pos--; un = c; eof = 0; break; } case 3: A(!!feof(f) == eof); break; case 4: { int w = symx_choose(3); long o = symx_choose(3) - 1, to = o + (w == 0 ? 0 : w == 1 ? pos : fsize); if (un >= 0 || to < 0 || to > fsize) symx_path_end("x"); A(fseek(f, o, w == 0 ? SEEK_SET : w == 1 ? SEEK_CUR : SEEK_END) == 0); pos = to; eof = 0; A(ftell(f) == pos); break; } } }
static void t_two_streams(void) { // many streams open and closed in any order
  char *m[3]; size_t n[3]; FILE *f[3]; u8 c[3]; for (int i = 0; i < 3; i++) { f[i] = open_memstream(&m[i], &n[i]); A(f[i] != 0); symx_symbolic(&c[i], 1, "c"); } int o = symx_choose(3); for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) A(fputc(c[i], f[i]) == c[i]); for (int i = 0; i < 3; i++) { int j = (i + o) % 3; A(fclose(f[j]) == 0); A(n[j] == 2); A((u8)m[j][0] == c[j] && (u8)m[j][1] == c[j] && m[j][2] == 0); } }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(read), F(read_short), F(read_unget), F(read_sizes), F(fgets), F(getline), F(write), F(write_seek), F(write_short), F(write_sizes), F(write_error), F(close_error), F(items), F(direction), F(fopen), F(fmemopen), F(two_streams)};
void harness(void) { unsigned i = ONLY < 0 ? symx_choose(sizeof T / sizeof *T) : ONLY; symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); symx_path_end(T[i].n); }
