// Native implementation of the harness interface: replays one counterexample.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <setjmp.h>
#include "symx.h"
typedef struct { char *name; unsigned char v[16]; } M; static M *ms; static int nm; static char *gargs[2048]; static int ngargs; static unsigned long choices[64]; static int nch, ich;
static struct { char *n; int c; } cnt[4096]; static int ncnt;
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int cmp(const void *a, const void *b) { return strcmp(((M *)a)->name, ((M *)b)->name); }
static M *find(const char *n) { M k; k.name = (char *)n; return nm ? bsearch(&k, ms, nm, sizeof(M), cmp) : 0; }
void symx_symbolic(void *p, size_t n, const char *name) {
  int i; for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].n, name)) break;
  if (i == ncnt) { cnt[ncnt].n = strdup(name); cnt[ncnt].c = 0; ncnt++; }
  int k = cnt[i].c++; char full[256]; if (k) snprintf(full, sizeof full, "%s#%d", name, k); else snprintf(full, sizeof full, "%s", name);
  memset(p, 0, n);
  if (n <= 8) { M *m = find(full); if (m) memcpy(p, m->v, n); return; }
  for (size_t j = 0; j < n; j++) { char e[300]; snprintf(e, sizeof e, "%s[%zu]", full, j); M *m = find(e); if (m) ((char *)p)[j] = m->v[0]; }
}
static void done(int code) { fflush(0); _exit(code); }
void symx_assume(int c) { if (!c) { printf("REPLAY infeasible\n"); done(3); } }
void symx_assert(int c, const char *m) { if (!c) { printf("REPLAY violation: %s\n", m); done(1); } }
static int soft; void symx_check(int c, const char *m) { if (!c) { printf("REPLAY violation: %s\n", m); soft = 1; } }
void symx_fail(const char *m) { printf("REPLAY violation: %s\n", m); done(1); }
void symx_cover(const char *n) { (void)n; } void symx_label(const char *n) { (void)n; }
unsigned symx_choose(unsigned n) { (void)n; return ich < nch ? (unsigned)choices[ich++] : 0; }
unsigned long symx_concretize(unsigned long v) { return v; }
int symx_is_symbolic(unsigned long v) { (void)v; return 0; }
int symx_maybe(int c) { return c; }
static jmp_buf *cur; static int xcode;
int symx_catch(int (*fn)(void *), void *arg) { jmp_buf b, *old = cur; cur = &b; int r; if (setjmp(b)) r = xcode; else r = fn(arg); cur = old; return r; }
void symx_exit(int code) { xcode = (code & 0xff) | 0x10000; if (!cur) done(0); longjmp(*cur, 1); }
void symx_path_end(const char *m) { (void)m; done(soft); }
void symx_note(const char *s) { printf("note: %s\n", s); } void symx_print(const char *s, unsigned long v) { printf("%s = %ld 0x%lx\n", s, (long)v, v); }
int symx_tagrun(char *dst, unsigned long val) { return sprintf(dst, "%lu", val); }
int symx_tag_at(const char *p, unsigned long *v) { (void)p; (void)v; return 0; }
int symx_valid(const void *p, size_t n) { (void)p; (void)n; return 1; }
long symx_host_size(const char *path) { FILE *f = fopen(path, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long n = ftell(f); fclose(f); return n; }
long symx_host_read(const char *path, void *b, size_t n) { FILE *f = fopen(path, "rb"); if (!f) return 0; long r = fread(b, 1, n, f); fclose(f); return r; }
const char *symx_getarg(int i) { return i < ngargs ? gargs[i] : 0; }
static void onsig(int s) { static const char m[] = "REPLAY violation: crashed with a signal\n"; (void)s; if (write(1, m, sizeof m - 1) < 0) {} _exit(1); }
void harness(void);
int main(int argc, char **argv) { // replay model.txt args...   model.txt: "name hex" / "choice n"
  FILE *f = fopen(argv[1], "r"); char nmb[512], val[128]; int cap = 0;
  while (f && fscanf(f, "%511s %127s", nmb, val) == 2) {
    if (!strcmp(nmb, "choice")) { choices[nch++] = strtoul(val, 0, 10); continue; }
    if (nm == cap) ms = realloc(ms, (cap = cap * 2 + 64) * sizeof(M));
    M *m = &ms[nm++]; memset(m, 0, sizeof *m); m->name = strdup(nmb); char *h = val; if (h[0] == '0' && h[1] == 'x') h += 2; int L = strlen(h);
    for (int i = 0; i < L && i < 32; i++) m->v[i / 2] |= hexv(h[L - 1 - i]) << (4 * (i & 1));
  }
  if (nm) qsort(ms, nm, sizeof(M), cmp);
  for (int i = 2; i < argc; i++) gargs[ngargs++] = argv[i];
  static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; int sg[] = {SIGSEGV, SIGILL, SIGFPE, SIGBUS, SIGTRAP, SIGABRT, SIGALRM}; for (int i = 0; i < 7; i++) sigaction(sg[i], &sa, 0);
  alarm(20); harness(); fflush(0); return soft;
}
