// C11: the linker, on object files and archives built here, against the meaning of symbols, sections and relocations.
#define HB_FILES
#include "hb.h"
#include <sys/stat.h>
#include <elf.h>
#include "../config.h"
#define H_FILE 4
#define H_ABS 0xfff1
int ld_main(int argc, char **argv);
static struct { const char *name; u8 *b; long n, cap; int wr; } vf[8]; static int nvf; static struct { int f; long pos; } fds[16]; static int nfd;
static int vfind(const char *n) { for (int i = 0; i < nvf; i++) if (!strcmp(vf[i].name, n)) return i; return -1; }
static void vadd(const char *n, u8 *b, long len) { vf[nvf].name = n; vf[nvf].b = b; vf[nvf].n = vf[nvf].cap = len; nvf++; }
int open(const char *n, int fl, ...) { int i = vfind(n); if ((fl & O_ACCMODE) != O_RDONLY) { A(i < 0); i = nvf; vadd(n, h_alloc(40000), 0); vf[i].cap = 40000; vf[i].wr = 1; } if (i < 0) return -1; fds[nfd].f = i; fds[nfd].pos = 0; return 10 + nfd++; }
ssize_t read(int fd, void *b, size_t n) { if (fd < 10) return 0; int f = fds[fd - 10].f; long p = fds[fd - 10].pos; size_t k = p < vf[f].n ? vf[f].n - p : 0; if (k > n) k = n; memcpy(b, vf[f].b + p, k); fds[fd - 10].pos += k; return k; }
ssize_t write(int fd, const void *b, size_t n) { if (fd < 10) return n; int f = fds[fd - 10].f; long p = fds[fd - 10].pos; A(vf[f].wr && p + (long)n <= vf[f].cap); memcpy(vf[f].b + p, b, n); p += n; fds[fd - 10].pos = p; if (p > vf[f].n) vf[f].n = p; return n; }
off_t lseek(int fd, off_t o, int w) { if (fd < 10) return 0; int f = fds[fd - 10].f; long p = o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? fds[fd - 10].pos : vf[f].n); return p < 0 ? -1 : (fds[fd - 10].pos = p); }
int close(int fd) { (void)fd; return 0; }
int stat(const char *n, struct stat *s) { if (vfind(n) < 0) return -1; s->st_mode = S_IFREG | 0644; return 0; }
static double conv_(char **e, const char *p) { if (e) *e = (char *)p; return 0; }
double strtod(const char *p, char **e) { return conv_(e, p); } float strtof(const char *p, char **e) { return conv_(e, p); }
char *getcwd(char *b, size_t n) { (void)b; (void)n; return 0; }
#if XCC_TARGET_ARCH == XCC_ARCH_X64
#define MACH EM_X86_64
#define R_ABS R_X86_64_64
#elif XCC_TARGET_ARCH == XCC_ARCH_AARCH64
#define MACH EM_AARCH64
#define R_ABS R_AARCH64_ABS64
#else
#define MACH EM_RISCV
#define R_ABS R_RISCV_64
#endif
// object files
typedef struct { const char *name; int type, flags, align, size; u8 *b; u64 addr; } Sec;
typedef struct { const char *name; int info, shndx; u64 value; } Sy;
typedef struct { int sec; u64 off; int type, sym; i64 add; } Re;
typedef struct { const char *fn; Sec s[8]; int ns; Sy y[48]; int ny; Re r[48]; int nr; } Obj;
static Obj *new(const char *fn) { Obj *o = calloc(1, sizeof *o); o->fn = fn; return o; }
static int sec(Obj *o, const char *n, int align, int size) {
  Sec *s = &o->s[++o->ns]; s->name = n; s->align = align; s->size = size; s->flags = SHF_ALLOC; s->type = SHT_PROGBITS; s->b = h_alloc(size + 1);
  if (!strcmp(n, ".text")) s->flags |= SHF_EXECINSTR; else if (strcmp(n, ".rodata")) s->flags |= SHF_WRITE;
  if (!strcmp(n, ".bss")) s->type = SHT_NOBITS; if (!strcmp(n, ".init_array")) s->type = SHT_INIT_ARRAY; if (!strcmp(n, ".fini_array")) s->type = SHT_FINI_ARRAY;
  if (s->type == SHT_NOBITS) memset(s->b, 0, size); else symx_symbolic(s->b, size, n); return o->ns;
}
static int sym(Obj *o, const char *n, int bind, int type, int shndx, u64 value) { Sy *y = &o->y[++o->ny]; y->name = n; y->info = ELF64_ST_INFO(bind, type); y->shndx = shndx; y->value = value; return o->ny; }
static int glob(Obj *o, const char *n, int shndx, u64 value) { return sym(o, n, STB_GLOBAL, shndx ? STT_OBJECT : STT_NOTYPE, shndx, value); }
static void rel(Obj *o, int s, u64 off, int type, int y, i64 add) { Re *r = &o->r[o->nr++]; r->sec = s; r->off = off; r->type = type; r->sym = y; r->add = add; }
static u8 *W; static long wn; static void wr(const void *p, long n) { memcpy(W + wn, p, n); wn += n; } static void wpad(int a) { while (wn % a) W[wn++] = 0; }
static long wstr(const char *s, long base) { long at = wn - base; wr(s, strlen(s) + 1); return at; }
static void emit(Obj *o) { // at W + wn
  long base = wn; Elf64_Ehdr eh; memset(&eh, 0, sizeof eh); wn += sizeof eh; Elf64_Shdr sh[24]; memset(sh, 0, sizeof sh); int n = 1; long nm[24]; const char *nms[24]; nms[0] = "";
  for (int i = 1; i <= o->ns; i++, n++) { Sec *s = &o->s[i]; nms[n] = s->name; sh[n].sh_type = s->type; sh[n].sh_flags = s->flags; sh[n].sh_addralign = s->align; sh[n].sh_size = s->size; sh[n].sh_offset = wn - base; if (s->type != SHT_NOBITS) wr(s->b, s->size); }
  int isy = n, nrel = 0; for (int i = 1; i <= o->ns; i++) { int k = 0; for (int j = 0; j < o->nr; j++) k += o->r[j].sec == i; nrel += k > 0; } isy += nrel;
  for (int i = 1; i <= o->ns; i++) { int k = 0; for (int j = 0; j < o->nr; j++) k += o->r[j].sec == i; if (!k) continue; wpad(8);
    nms[n] = ".rela"; sh[n].sh_type = SHT_RELA; sh[n].sh_link = isy; sh[n].sh_info = i; sh[n].sh_entsize = 24; sh[n].sh_addralign = 8; sh[n].sh_size = 24 * k; sh[n].sh_offset = wn - base; n++;
    for (int j = 0; j < o->nr; j++) if (o->r[j].sec == i) { Elf64_Rela r = {o->r[j].off, ELF64_R_INFO((u64)o->r[j].sym, o->r[j].type), o->r[j].add}; wr(&r, 24); } }
  wpad(8); nms[n] = ".symtab"; sh[n].sh_type = SHT_SYMTAB; sh[n].sh_link = n + 1; sh[n].sh_entsize = 24; sh[n].sh_addralign = 8; sh[n].sh_offset = wn - base; sh[n].sh_size = 24 * (o->ny + 1); n++;
  long so = 1; Elf64_Sym z; memset(&z, 0, sizeof z); wr(&z, sizeof z);
  for (int i = 1; i <= o->ny; i++) { z.st_name = o->y[i].name ? so : 0; if (o->y[i].name) so += strlen(o->y[i].name) + 1; z.st_info = o->y[i].info; z.st_shndx = o->y[i].shndx; z.st_value = o->y[i].value; if (o->y[i].shndx) symx_symbolic(&z.st_size, 8, "st_size"); z.st_other = 0; wr(&z, sizeof z); }
  nms[n] = ".strtab"; sh[n].sh_type = SHT_STRTAB; sh[n].sh_addralign = 1; sh[n].sh_offset = wn - base; wr("", 1); for (int i = 1; i <= o->ny; i++) if (o->y[i].name) wr(o->y[i].name, strlen(o->y[i].name) + 1); sh[n].sh_size = wn - base - sh[n].sh_offset; n++;
  nms[n] = ".shstrtab"; sh[n].sh_type = SHT_STRTAB; sh[n].sh_addralign = 1; sh[n].sh_offset = wn - base; { long b = wn; n++; for (int i = 0; i < n; i++) sh[i].sh_name = wstr(nms[i], b); sh[n - 1].sh_size = wn - b; }
  wpad(8); memcpy(eh.e_ident, "\177ELF", 4); eh.e_ident[4] = ELFCLASS64; eh.e_ident[5] = ELFDATA2LSB; eh.e_ident[6] = 1; eh.e_type = ET_REL; eh.e_machine = MACH; eh.e_version = 1; eh.e_ehsize = 64; eh.e_shentsize = 64; eh.e_shnum = n; eh.e_shstrndx = n - 1; eh.e_shoff = wn - base; wr(sh, 64 * n); memcpy(W + base, &eh, 64);
}
static void ofile(Obj *o) { W = h_alloc(6000); wn = 0; emit(o); vadd(o->fn, W, wn); }
static void dec(char *p, long v) { char t[12]; int n = 0; do t[n++] = '0' + v % 10; while (v /= 10); while (n) *p++ = t[--n]; }
static void ahdr(const char *n, long size) { char h[60]; memset(h, ' ', 60); memcpy(h, n, strlen(n)); h[strlen(n)] = '/'; h[16] = '0'; dec(h + 48, size); h[58] = 0x60; h[59] = '\n'; wr(h, 60); }
static void be(u32 v) { u8 b[4] = {v >> 24, v >> 16, v >> 8, v}; wr(b, 4); }
static void afile(const char *fn, Obj **m, int n) { // archive with a symbol index, as GNU ar writes it
  u8 *body[4]; long len[4]; for (int i = 0; i < n; i++) { W = h_alloc(3000); wn = 0; emit(m[i]); body[i] = W; len[i] = wn; }
  int ns = 0; long sl = 0; for (int i = 0; i < n; i++) for (int j = 1; j <= m[i]->ny; j++) if (m[i]->y[j].info >> 4 && m[i]->y[j].shndx) { ns++; sl += strlen(m[i]->y[j].name) + 1; }
  long isz = 4 + 4 * ns + sl; W = h_alloc(9000); wn = 0; wr("!<arch>\n", 8); ahdr("", isz); long at = 68 + isz + (isz & 1); be(ns);
  long ats[4]; for (int i = 0; i < n; i++) { ats[i] = at; at += 60 + len[i] + (len[i] & 1); } int first = n > 1 ? symx_choose(n) : 0;
  for (int k = 0; k < n; k++) { int i = (first + k) % n; for (int j = 1; j <= m[i]->ny; j++) if (m[i]->y[j].info >> 4 && m[i]->y[j].shndx) be(ats[i]); }
  for (int k = 0, i = first; k < n; k++, i = (i + 1) % n) for (int j = 1; j <= m[i]->ny; j++) if (m[i]->y[j].info >> 4 && m[i]->y[j].shndx) wr(m[i]->y[j].name, strlen(m[i]->y[j].name) + 1);
  if (isz & 1) wr("\n", 1); for (int i = 0; i < n; i++) { ahdr(m[i]->fn, len[i]); wr(body[i], len[i]); if (len[i] & 1) wr("\n", 1); }
  vadd(fn, W, wn);
}
// running the linker
static char *av[16]; static int ac; static void arg(const char *s) { av[ac++] = (char *)s; }
static int go_(void *p) { (void)p; return ld_main(ac, av); }
static int go(void) { av[ac] = 0; return symx_catch(go_, 0) & 0xff; }
static u8 *im; static long in; static Elf64_Ehdr *eh; static Elf64_Phdr *ph;
static void image(const char *n) { // the output is an executable whose segments can be mapped
  int i = vfind(n); symx_assert(i >= 0, "the output file is written"); im = vf[i].b; in = vf[i].n; A(in >= 64); eh = (void *)im; A(!memcmp(im, "\177ELF", 4)); A(im[4] == ELFCLASS64 && im[5] == ELFDATA2LSB && im[6] == 1); A(eh->e_type == ET_EXEC && eh->e_machine == MACH && eh->e_version == 1 && eh->e_ehsize == 64 && eh->e_phentsize == 56); A(eh->e_phoff + 56 * eh->e_phnum <= (u64)in); ph = (void *)(im + eh->e_phoff);
  int ex = 0; for (int k = 0; k < eh->e_phnum; k++) { Elf64_Phdr *p = &ph[k]; if (p->p_type != PT_LOAD) continue; symx_assert(p->p_filesz <= p->p_memsz, "p_filesz <= p_memsz"); symx_assert(p->p_filesz == 0 || p->p_offset + p->p_filesz <= (u64)in, "a segment lies in the file"); symx_assert(p->p_filesz == 0 || (p->p_offset & 4095) == (p->p_vaddr & 4095), "file offset and address of a segment agree modulo the page size"); A((p->p_flags & (PF_W | PF_X)) != (PF_W | PF_X));
    if (p->p_flags & PF_X && eh->e_entry >= p->p_vaddr && eh->e_entry < p->p_vaddr + p->p_filesz) ex = 1;
    for (int j = 0; j < k; j++) symx_assert(ph[j].p_type != PT_LOAD || ((ph[j].p_vaddr + ph[j].p_memsz + 4095) & ~4095ull) <= (p->p_vaddr & ~4095ull) || ((p->p_vaddr + p->p_memsz + 4095) & ~4095ull) <= (ph[j].p_vaddr & ~4095ull), "segments do not share a page"); }
  symx_assert(ex, "the entry point is in an executable segment");
}
static int at(u64 a, int need) { for (int k = 0; k < eh->e_phnum; k++) if (ph[k].p_type == PT_LOAD && a >= ph[k].p_vaddr && a < ph[k].p_vaddr + ph[k].p_memsz) { symx_assert((ph[k].p_flags & need) == need, "the segment has the rights of the section"); return a - ph[k].p_vaddr < ph[k].p_filesz ? im[ph[k].p_offset + (a - ph[k].p_vaddr)] : 0; } symx_fail("an address of a section is not in any segment"); return 0; }
static u64 ld_n(u64 a, int n) { u64 v = 0; for (int i = 0; i < n; i++) v |= (u64)at(a + i, PF_R) << 8 * i; return v; }
#define ld8(a) ld_n(a, 8)
// a first object with the entry point, which has the addresses of all sections of the others in a table
static Obj *P, *objs[4]; static int nobj; static int pt, pd, ptab; static char names[4][8][4]; static int tabn;
static int want(const char *n) { int y = glob(P, n, 0, 0); rel(P, pd, 8 * tabn, R_ABS, y, 0); return tabn++; }
static int wanta(const char *n, i64 add) { int y = 0; for (int i = 1; i <= P->ny; i++) if (P->y[i].name && !strcmp(P->y[i].name, n)) y = i; if (!y) y = glob(P, n, 0, 0); rel(P, pd, 8 * tabn, R_ABS, y, add); return tabn++; }
static void probe(int size) { P = new("p.o"); pt = sec(P, ".text", 8, 16); pd = sec(P, ".data", 8, size); ptab = sym(P, "tab", STB_LOCAL, STT_OBJECT, pd, 0); glob(P, "_start", pt, 0); rel(P, pt, 8, R_ABS, ptab, 0); }
static int isarr(Sec *s) { return s->type == SHT_INIT_ARRAY || s->type == SHT_FINI_ARRAY; }
static void reg(Obj *o) { int ns = o->ns; for (int i = 1; i <= ns; i++) if (isarr(&o->s[i])) { int k = sec(o, ".rodata", 8, 8); rel(o, k, 0, R_ABS, sym(o, "arr", STB_LOCAL, STT_OBJECT, i, 0), 0); }
  for (int i = 1; i <= o->ns; i++) if (!isarr(&o->s[i])) { char *n = names[nobj][i]; n[0] = 's'; n[1] = '0' + nobj; n[2] = '0' + i; n[3] = 0; glob(o, n, i, 0); want(n); } objs[nobj++] = o; }
static u64 tab; static u64 entry(int i) { return symx_concretize(ld8(tab + 8 * i)); }
static int skips(Obj *o, int s, int off) { for (int j = 0; j < o->nr; j++) if (o->r[j].sec == s && off >= (int)o->r[j].off && off < (int)o->r[j].off + 8) return 1; return 0; }
static void sections(int exact) { // every section is placed, aligned, apart from the others, in a segment of its kind, with its bytes
  image("a.out"); tab = symx_concretize(ld8(eh->e_entry + 8)); symx_assert(tab % 8 == 0, "alignment"); int t = 0;
  P->s[pt].addr = eh->e_entry; P->s[pd].addr = tab;
  for (int i = 0; i < nobj; i++) for (int k = 1; k <= objs[i]->ns; k++) if (!isarr(&objs[i]->s[k])) objs[i]->s[k].addr = entry(t++);
  for (int i = 0; i < nobj; i++) { int x = objs[i]->ns; for (int k = 1; k <= objs[i]->ns; k++) x -= isarr(&objs[i]->s[k]); for (int k = 1; k <= objs[i]->ns; k++) { Sec *s = &objs[i]->s[k]; if (isarr(s)) s->addr = symx_concretize(ld8(objs[i]->s[++x].addr)); symx_assert(s->addr % s->align == 0, "a section is aligned"); } }
  objs[nobj] = P;
  for (int i = 0; i <= nobj; i++) for (int k = 1; k <= objs[i]->ns; k++) { Sec *s = &objs[i]->s[k];
    for (int j = 0; j <= i; j++) for (int l = 1; l <= objs[j]->ns; l++) if (j < i || l < k) { Sec *q = &objs[j]->s[l]; symx_assert(s->addr + s->size <= q->addr || q->addr + q->size <= s->addr, "sections do not overlap"); }
    int need = s->flags & SHF_EXECINSTR ? PF_R | PF_X : s->flags & SHF_WRITE ? PF_R | PF_W : PF_R, d = 0; for (int b = 0; b < s->size; b++) { int c = at(s->addr + b, need); if (!skips(objs[i], k, b)) d |= c ^ s->b[b]; } if (exact) symx_assert(d == 0, "a section has the bytes of its object file"); }
}
static u64 val(Obj *o, int s, u64 off, int n) { return ld_n(o->s[s].addr + off, n); }
static const char *SN[] = {"", ".text", ".rodata", ".data", ".init_array", ".bss"};
static int rev;
static void files(void) { ofile(P); arg("ld"); if (!rev) arg("p.o"); for (int i = 0; i < nobj; i++) ofile(objs[i]); for (int i = 0; i < nobj; i++) arg(objs[rev ? nobj - 1 - i : i]->fn); if (rev) arg("p.o"); }
static void layout_(int which, int align, int s1, int s2, int order) { // one kind of section with an unusual size and alignment
  probe(128); Obj *a = new("a.o"), *b = new("b.o"); for (int i = 1; i <= 5; i++) { int k = order ? 6 - i : i; sec(a, SN[k], k == which ? align : k == 4 ? 8 : 1, k == which ? s1 : k == 4 ? 8 : 3); } reg(a); for (int i = 1; i <= 5; i++) if (i == which || i == 5) sec(b, SN[i], i == which ? align : 1, i == which ? s2 : 5); reg(b);
  files(); symx_assert(go() == 0, "linking succeeds"); sections(1);
}
static void t_layout(void) { int w = 1 + symx_choose(5); static const int al[] = {1, 4, 16, 64}; int a = w == 4 ? 8 : al[symx_choose(4)]; static const int sz[][2] = {{1, 16}, {24, 1}}; int k = symx_choose(2); layout_(w, a, w == 4 ? 8 : sz[k][0], w == 4 ? 16 : sz[k][1], k); }
static void t_layout_large_align(void) { int w = 1 + symx_choose(5); if (w == 4) return; static const int al[] = {512, 4096, 8192}; layout_(w, al[symx_choose(3)], 8, 8, 0); }
static void t_layout_only(void) { // objects with a single kind of section
  probe(64); if (symx_choose(2)) P->s[pd].align = 32; Obj *a = new("a.o"); int w = 1 + symx_choose(5); sec(a, SN[w], 8, 8); reg(a); files(); symx_assert(go() == 0, "linking succeeds"); sections(1); }
static void t_layout_no_data(void) { // no data at all
  P = new("p.o"); pt = sec(P, ".text", 4, 6); glob(P, "_start", pt, 2); ofile(P); arg("ld"); arg("p.o"); symx_assert(go() == 0, "linking succeeds"); image("a.out"); int d = 0; for (int i = 0; i < 6; i++) d |= at(eh->e_entry - 2 + i, PF_R | PF_X) ^ P->s[pt].b[i]; A(d == 0); }
static void t_large(void) { probe(64); Obj *a = new("a.o"); int w = symx_choose(3); sec(a, w == 0 ? ".text" : w == 1 ? ".data" : ".bss", 4, 4500); reg(a); Obj *b = new("b.o"); sec(b, ".text", 1, 1); sec(b, ".data", 4, 8); sec(b, ".bss", 8, 8); reg(b); files(); symx_assert(go() == 0, "linking succeeds"); sections(1); }
// relocations
static u64 sv(const char *n) { u64 v; symx_symbolic(&v, 8, n); return v; }
static u64 off(void) { u64 v = sv("value"); symx_assume(v < 1 << 24); return v; } // an offset in a section
static i64 amax = 0; static int evenadd; static int near; static i64 dmin, dmax; static void (*more)(Obj *, int, int, i64);
static void reloc(int type, int n, void (*chk)(Obj *, int, u64, u64, u64), int size, void (*fill)(u8 *)) {
  probe(96); Obj *a = new("a.o"), *b = new("b.o"); int shift = symx_choose(2), bt = 0, bd; if (shift) sym(a, "a.c", STB_LOCAL, H_FILE, H_ABS, 0); int nsec = 4; static const char *N[] = {".text", ".rodata", ".data", ".bss"};
  for (int i = 0; i < nsec; i++) { int k = sec(a, N[i], 4, size + 8); sym(a, 0, STB_LOCAL, STT_SECTION, k, 0); } bt = sec(b, ".text", 4, 8); bd = sec(b, ".data", 4, 16); (void)bt;
  int from = 1 + 2 * (n == 8 ? symx_choose(2) : 0), kind = symx_choose(near ? 4 : 6), to = near ? 1 : 1 + symx_choose(4); u64 S, add = sv("addend"), v = off(); int y; Obj *d = a; if (amax) symx_assume((i64)add < amax && (i64)add >= -amax); if (amax || near) symx_assume(v < 4096);
  if (evenadd) symx_assume(!((add | v) & (evenadd * 2 - 1)));
  if (near) { i64 dd = (kind ? v : 0) + add - 4; symx_assume(dd >= dmin && dd < dmax && !(dd & 1)); }
  switch (kind) { case 0: y = to + shift; v = 0; break; case 1: y = sym(a, "loc", STB_LOCAL, STT_OBJECT, to, v); break; case 2: y = glob(a, "g", to, v); break; case 3: y = sym(a, "w", STB_WEAK, STT_FUNC, to, v); break;
  case 4: y = glob(a, "ext", 0, 0); glob(b, "ext", bd, v); d = b; to = bd; break; default: y = glob(a, "ext", 0, 0); sym(b, "ext", STB_WEAK, STT_OBJECT, bd, v); d = b; to = bd; }
  reg(a); reg(b); if (fill) fill(a->s[from].b + 4); rel(a, from, 4, type, y, add); if (more) more(a, from, y, add); rev = symx_choose(2);
  files(); symx_assert(go() == 0, "linking succeeds"); sections(1); S = d->s[to].addr + v; chk(a, from, S + add, a->s[from].addr + 4, 4);
}
static void c_abs(Obj *o, int s, u64 SA, u64 Pc, u64 off) { (void)Pc; symx_assert(val(o, s, off, 8) == SA, "S + A"); }
static void t_abs64(void) { reloc(R_ABS, 8, c_abs, 16, 0); }
#if XCC_TARGET_ARCH == XCC_ARCH_X64
static void c_pc(Obj *o, int s, u64 SA, u64 Pc, u64 off) { symx_assert((u32)val(o, s, off, 4) == (u32)(SA - Pc), "S + A - P"); int d = 0; for (int i = 4; i < 8; i++) d |= at(o->s[s].addr + off + i, PF_R) ^ o->s[s].b[off + i]; symx_assert(d == 0, "bytes after the field are kept"); }
static void t_pc32(void) { reloc(symx_choose(2) ? R_X86_64_PC32 : R_X86_64_PLT32, 4, c_pc, 16, 0); }
#endif

#define W4(o) ((u32)val(a, s, o, 4))
static u32 orig(Obj *a, int s, int o) { u8 *b = a->s[s].b + o; return b[0] | b[1] << 8 | b[2] << 16 | (u32)b[3] << 24; }
#define KEEP(o, m) symx_assert((W4(o) & (u32)~(m)) == (orig(a, s, o) & (u32)~(m)), "the other bits of the instruction are kept")
#define SX(v, n) ((i64)((u64)(v) << (64 - (n))) >> (64 - (n)))
#if XCC_TARGET_ARCH == XCC_ARCH_RISCV64
#define BF(h, l) ((u64)(w >> (l)) & ((1u << ((h) - (l) + 1)) - 1))
static void m_relax(Obj *a, int s, int y, i64 add) { (void)y; (void)add; rel(a, s, 4, R_RISCV_RELAX, 0, 0); }
static int hi; static void m_pair(Obj *a, int s, int y, i64 add) { rel(a, s, 4, R_RISCV_RELAX, 0, 0); rel(a, s, 8, hi ? R_RISCV_LO12_I : R_RISCV_PCREL_LO12_I, y, hi ? add : 0); rel(a, s, 8, R_RISCV_RELAX, 0, 0); }
static void c_pair(Obj *a, int s, u64 SA, u64 Pc, u64 o) { u32 h = W4(o), l = W4(o + 4); KEEP(o, 0xfffff000u); KEEP(o + 4, 0xfff00000u); symx_assert((u64)((i64)(int)(h & 0xfffff000u) + ((i64)(int)l >> 20)) == SA - (hi ? 0 : Pc), "the pair of instructions computes S + A (- P)"); }
static void t_pcrel_pair(void) { amax = 1 << 30; more = m_pair; reloc(R_RISCV_PCREL_HI20, 4, c_pair, 16, 0); }
static void t_abs_pair(void) { amax = 1 << 30; hi = 1; more = m_pair; reloc(R_RISCV_HI20, 4, c_pair, 16, 0); }
static i64 jimm(u32 w) { return SX(BF(31, 31) << 20 | BF(19, 12) << 12 | BF(20, 20) << 11 | BF(30, 21) << 1, 21); }
static void c_call(Obj *a, int s, u64 SA, u64 Pc, u64 o) { u32 x = W4(o), y = W4(o + 4); // auipc+jalr or a jump and a nop
  symx_assert(((x & 0xfff) == 0xef && (u64)jimm(x) == SA - Pc && y == 0x13) || ((x & 0xfff) == 0x097 && (y & 0xfffff) == 0x080e7 && (u64)((i64)(int)(x & 0xfffff000u) + ((i64)(int)y >> 20)) == SA - Pc), "a call of S + A"); }
static void f_even(u8 *b) { (void)b; }
static void t_call(void) { amax = 1 << 18; more = m_relax; evenadd = 1; reloc(R_RISCV_CALL, 4, c_call, 16, f_even); }
static void f_jal(u8 *b) { symx_assume((b[0] & 0x7f) == 0x6f); }
static void c_jal(Obj *a, int s, u64 SA, u64 Pc, u64 o) { symx_assert((u64)jimm(W4(o)) == SA - Pc, "S + A - P"); KEEP(o, 0xfffff000u); }
static void t_jal(void) { near = 1; dmin = -(1 << 19); dmax = 1 << 19; reloc(R_RISCV_JAL, 4, c_jal, 16, f_jal); }
static void c_branch(Obj *a, int s, u64 SA, u64 Pc, u64 o) { u32 w = W4(o); symx_assert((u64)SX(BF(31, 31) << 12 | BF(7, 7) << 11 | BF(30, 25) << 5 | BF(11, 8) << 1, 13) == SA - Pc, "S + A - P"); KEEP(o, 0xfe000f80u); }
static void f_branch(u8 *b) { symx_assume((b[0] & 0x7f) == 0x63); }
static void t_branch(void) { near = 1; dmin = -4096; dmax = 4096; reloc(R_RISCV_BRANCH, 4, c_branch, 16, f_branch); }
static void c_cbranch(Obj *a, int s, u64 SA, u64 Pc, u64 o) { u32 w = W4(o); symx_assert((u64)SX(BF(12, 12) << 8 | BF(6, 5) << 6 | BF(2, 2) << 5 | BF(11, 10) << 3 | BF(4, 3) << 1, 9) == SA - Pc, "S + A - P"); KEEP(o, 0x1c7cu); }
static void f_cbranch(u8 *b) { symx_assume((b[0] & 3) == 1 && (b[1] & 0xc0) == 0xc0); }
static void t_cbranch(void) { near = 1; dmin = -256; dmax = 256; reloc(R_RISCV_RVC_BRANCH, 4, c_cbranch, 16, f_cbranch); }
static void c_cj(Obj *a, int s, u64 SA, u64 Pc, u64 o) { u32 w = W4(o); symx_assert((u64)SX(BF(12, 12) << 11 | BF(8, 8) << 10 | BF(10, 9) << 8 | BF(6, 6) << 7 | BF(7, 7) << 6 | BF(2, 2) << 5 | BF(11, 11) << 4 | BF(5, 3) << 1, 12) == SA - Pc, "S + A - P"); KEEP(o, 0x1ffcu); }
static void f_cj(u8 *b) { symx_assume((b[0] & 3) == 1 && (b[1] & 0xe0) == 0xa0); }
static void t_cj(void) { near = 1; dmin = -2048; dmax = 2048; reloc(R_RISCV_RVC_JUMP, 4, c_cj, 16, f_cj); }
#endif
#if XCC_TARGET_ARCH == XCC_ARCH_AARCH64
static void c_page(Obj *a, int s, u64 SA, u64 Pc, u64 o) { u32 w = W4(o); KEEP(o, 0x60ffffe0u); symx_assert((u64)(SX((u64)((w >> 5) & 0x7ffff) << 2 | ((w >> 29) & 3), 21) << 12) == (SA & ~4095ull) - (Pc & ~4095ull), "Page(S + A) - Page(P)"); }
static void t_page(void) { amax = 1 << 30; reloc(R_AARCH64_ADR_PREL_PG_HI21, 4, c_page, 16, 0); }
static void c_lo12(Obj *a, int s, u64 SA, u64 Pc, u64 o) { (void)Pc; u32 w = W4(o); KEEP(o, 0x3ffc00u); symx_assert(((w >> 10) & 0xfff) == (SA & 0xfff), "low bits of S + A"); }
static void t_lo12(void) { reloc(R_AARCH64_ADD_ABS_LO12_NC, 4, c_lo12, 16, 0); }
static void c_call26(Obj *a, int s, u64 SA, u64 Pc, u64 o) { u32 w = W4(o); KEEP(o, 0x3ffffffu); symx_assert((u64)(SX(w & 0x3ffffffu, 26) << 2) == SA - Pc, "S + A - P"); }
static void t_call26(void) { amax = 1 << 26; evenadd = 2; reloc(R_AARCH64_CALL26, 4, c_call26, 16, 0); }
#endif
// symbols: which definition a reference gets, and which programs are rejected
enum { NONE, STRONG, WEAK, COMMON, LOCAL };
static void def(Obj *o, const char *n, int how, int s, u64 v) { if (how == NONE) glob(o, n, 0, 0); else if (how == COMMON) glob(o, n, SHN_COMMON, v); else sym(o, n, how == WEAK ? STB_WEAK : how == LOCAL ? STB_LOCAL : STB_GLOBAL, STT_OBJECT, s, v); }
static void t_resolve(void) { // three objects which define, tentatively define, weakly define or only use x
  probe(128); int k[3], strong = 0, weak = 0, common = 0; Obj *o[3]; static const char *fn[] = {"a.o", "b.o", "c.o"}; int bs[3];
  for (int i = 0; i < 3; i++) { k[i] = symx_choose(5); strong += k[i] == STRONG; weak += k[i] == WEAK; common += k[i] == COMMON; o[i] = new(fn[i]); sec(o[i], ".text", 4, 4); sec(o[i], ".data", 4, 16); bs[i] = sec(o[i], ".bss", 4, 8); }
  if (weak && common) symx_path_end("weak and tentative definitions of one name");
  int tx[3], ref = 0; for (int i = 0; i < 3; i++) { def(o[i], "x", k[i], 2, 4); reg(o[i]); int y = o[i]->ny; for (int j = 1; j <= o[i]->ny; j++) if (o[i]->y[j].name && !strcmp(o[i]->y[j].name, "x")) y = j; rel(o[i], 2, 8, R_ABS, y, 0); ref += k[i] != LOCAL; }
  (void)tx; files(); int rc = go(); int defs = strong + weak + common;
  if (strong > 1) { symx_assert(rc != 0, "two definitions of a name are an error"); return; } if (!defs && ref) { symx_assert(rc != 0, "a name without definition is an error"); return; }
  symx_assert(rc == 0, "linking succeeds"); sections(1); u64 common_at = 0;
  for (int i = 0; i < 3; i++) { u64 got = val(o[i], 2, 8, 8); if (k[i] == LOCAL) { symx_assert(got == o[i]->s[2].addr + 4, "a local name is the object's own"); continue; }
    if (strong) { for (int j = 0; j < 3; j++) if (k[j] == STRONG) symx_assert(got == o[j]->s[2].addr + 4, "the definition is used"); }
    else if (weak) { for (int j = 0; j < 3; j++) if (k[j] == WEAK) { symx_assert(got == o[j]->s[2].addr + 4, "the first weak definition is used"); break; } }
    else { if (!common_at) common_at = got; symx_assert(got == common_at, "one object for all tentative definitions"); int in = 0; for (int j = 0; j < 3; j++) in |= k[j] == COMMON && got >= o[j]->s[bs[j]].addr && got < o[j]->s[bs[j]].addr + 8; symx_assert(in, "a tentative definition lives in .bss"); } }
}
static void t_undefined(void) { // every missing name is an error, wherever it is used
  probe(64); Obj *a = new("a.o"); sec(a, ".text", 4, 16); sec(a, ".data", 4, 16); reg(a); int y = glob(a, "missing", 0, 0), d = symx_choose(3); if (d == 0) rel(a, 1, 0, R_ABS, y, 0); if (d == 1) rel(a, 2, 8, R_ABS, y, 0); if (symx_choose(2)) { Obj *b = new("b.o"); sec(b, ".data", 4, 4); sym(b, "missing", STB_LOCAL, STT_OBJECT, 1, 0); reg(b); } files(); symx_assert(go() != 0, "a name without definition is an error"); }
static void t_entry(void) { // the entry symbol
  static const char *E[] = {"_start", "main", "weird", "absent"}; int e = symx_choose(4); probe(64); Obj *a = new("a.o"); sec(a, ".text", 8, 32); glob(a, "main", 1, 8); sym(a, "weird", STB_WEAK, STT_FUNC, 1, 16); rel(a, 1, 16, R_ABS, 0, 0); a->nr = 0; reg(a); files(); if (e || symx_choose(2)) { arg("-e"); arg(E[e]); } int rc = go(); if (e == 3) { symx_assert(rc != 0, "a missing entry point is an error"); return; } A(rc == 0);
  image("a.out"); u64 en = eh->e_entry; int d = 0; if (e == 0) { for (int i = 0; i < 8; i++) d |= at(en + i, PF_X) ^ P->s[pt].b[i]; } else for (int i = 0; i < 16; i++) d |= at(en + i, PF_X) ^ a->s[1].b[8 * e + i]; symx_assert(d == 0, "the entry point is the symbol asked for"); }
static void t_output_name(void) { probe(32); ofile(P); arg("ld"); int w = symx_choose(3); if (w == 0) { arg("-o"); arg("x.exe"); } else if (w == 1) arg("-ox.exe"); arg("p.o"); A(go() == 0); A(vfind(w == 2 ? "a.out" : "x.exe") >= 0 && vfind(w == 2 ? "x.exe" : "a.out") < 0); }
static void t_init_array(void) { // the run-time start-up code walks these
  probe(128); Obj *a = new("a.o"), *b = new("b.o"); int f = symx_choose(2); const char *N = f ? ".fini_array" : ".init_array"; static const char *S[] = {"__init_array_start", "__init_array_end", "__fini_array_start", "__fini_array_end"}; if (symx_choose(2)) sec(a, ".data", 1, 3); int ka = sec(a, N, 8, 16); int ta = sec(a, ".text", 1, 5); int kb = 0; int wb = symx_choose(3); if (wb) kb = sec(b, N, 8, 8 * wb); else sec(b, ".data", 1, 1); int both = symx_choose(2); if (both) sec(b, f ? ".init_array" : ".fini_array", 8, 8);
  reg(a); reg(b); int s = want(S[2 * f]), e = want(S[2 * f + 1]), os = want(S[2 - 2 * f]), oe = want(S[3 - 2 * f]); int y = glob(a, "fn", ta, 1); rel(a, ka, 8, R_ABS, y, 0); files(); A(go() == 0); sections(1);
  u64 st = entry(s), en = entry(e), o1 = entry(os), o2 = entry(oe); symx_assert(st % 8 == 0 && st == a->s[ka].addr, "the array starts at the first object's entries"); symx_assert(en == st + 16 + 8 * wb, "the array has all entries"); if (wb) A(b->s[kb].addr == st + 16); A(o2 >= o1 && o2 - o1 == (both ? 8 : 0)); symx_assert(val(a, ka, 8, 8) == a->s[ta].addr + 1, "S + A"); }
// archives: members are linked when they define a name that is still missing, and only then
static void t_archive(void) {
  probe(128); static const char *fn[] = {"m0.o", "m1.o", "m2.o"}; Obj *m[3]; int perm = symx_choose(3), use[3], nx[3], odd = symx_choose(2);
  // m0 defines f0 and uses f1 (maybe); m1 defines f1; m2 defines f2 and dup
  int chain = symx_choose(2), u0 = symx_choose(2), u1 = symx_choose(2), u2 = symx_choose(2), dup = symx_choose(2); static const char *D[] = {"f0", "f1", "f2"}; (void)nx;
  for (int i = 0; i < 3; i++) { m[i] = new(fn[i]); sec(m[i], ".text", 4, 8 + (odd && i == 0)); sec(m[i], ".data", 8, 16); glob(m[i], D[i], 1, 4); if (i == 0 && chain) { int y = glob(m[0], "f1", 0, 0); rel(m[0], 2, 8, R_ABS, y, 0); } if (i == 2) glob(m[2], "dup", 2, 0); }
  use[0] = u0; use[1] = u1 || (u0 && chain); use[2] = u2; int t[3] = {-1, -1, -1}; if (u0) t[0] = want("f0"); if (u1) t[1] = want("f1"); if (u2) t[2] = want("f2"); if (dup) glob(P, "dup", pd, 0);
  for (int i = 0; i < 3; i++) if (use[i]) { char *n = names[i][1]; n[0] = 's'; n[1] = '0' + i; n[2] = 0; }
  Obj *x[3]; for (int i = 0; i < 3; i++) x[i] = m[(i + perm) % 3]; afile("libx.a", x, 3); ofile(P); arg("ld"); arg("p.o"); arg("libx.a"); int rc = go(); if (dup && u2) { symx_assert(rc != 0, "two definitions of a name are an error"); return; } symx_assert(rc == 0, "linking succeeds"); image("a.out"); tab = symx_concretize(ld8(eh->e_entry + 8));
  for (int i = 0; i < 3; i++) if (t[i] >= 0) { u64 f = entry(t[i]); int d = 0; for (int b = 0; b < 4; b++) d |= at(f + b, PF_R | PF_X) ^ m[i]->s[1].b[4 + b]; symx_assert(d == 0, "the name has the definition of the archive's member"); }
  u64 total = 0; for (int i = 0; i < 3; i++) if (use[i]) total += 8; for (int k = 0; k < eh->e_phnum; k++) if (ph[k].p_flags & PF_X) A(ph[k].p_filesz >= 16 + total && ph[k].p_filesz <= 16 + total + 8); // no other member is linked
}
static void t_archive_search(void) { // -l and -L
  probe(64); Obj *m[1] = {new("m.o")}; sec(m[0], ".text", 4, 8); glob(m[0], "f", 1, 0); int t = want("f"); int w = symx_choose(4); afile(w == 3 ? "d3/libx.a" : w ? "d2/libx.a" : "d1/libx.a", m, 1); ofile(P); arg("ld"); arg("-Ld1"); arg("-L"); arg("d2"); arg("p.o"); arg(w == 2 ? "-l" : "-lx"); if (w == 2) arg("x"); int rc = go(); if (w == 3) { symx_assert(rc != 0, "a missing library is an error"); return; } A(rc == 0); image("a.out"); tab = symx_concretize(ld8(eh->e_entry + 8)); u64 f = entry(t); int d = 0; for (int b = 0; b < 8; b++) d |= at(f + b, PF_R | PF_X) ^ m[0]->s[1].b[b]; A(d == 0); }
static void t_archive_reloc(void) { // relocations inside members, at an odd position in the archive too
  probe(64); Obj *m[2] = {new("m.o"), new("n.o")}; sec(m[0], ".text", 1, 7 + symx_choose(2)); sec(m[0], ".data", 8, 16); glob(m[0], "g", 2, 0); int y = sym(m[0], "loc", STB_LOCAL, STT_OBJECT, 1, 1); glob(m[0], "e", 0, 0); i64 add = sv("addend"); rel(m[0], 2, 8, R_ABS, y, add); rel(m[0], 2, 0, R_ABS, y + 1, 0); sec(m[1], ".text", 1, 5); sec(m[1], ".data", 4, 3); glob(m[1], "e", 2, 2); glob(m[0], "s01", 1, 0); glob(m[0], "s02", 2, 0); glob(m[1], "s11", 1, 0); glob(m[1], "s12", 2, 0);
  want("s01"); want("s02"); want("s11"); want("s12"); afile("x.a", m, 2); ofile(P); arg("ld"); arg("p.o"); arg("x.a"); A(go() == 0); objs[0] = m[0]; objs[1] = m[1]; nobj = 2; sections(1); symx_assert(val(m[0], 2, 8, 8) == m[0]->s[1].addr + 1 + add, "S + A"); symx_assert(val(m[0], 2, 0, 8) == m[1]->s[2].addr + 2, "S + A"); }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(layout), F(layout_large_align), F(layout_only), F(layout_no_data), F(large), F(abs64), F(resolve), F(undefined), F(entry), F(output_name), F(init_array), F(archive), F(archive_search), F(archive_reloc),
#if XCC_TARGET_ARCH == XCC_ARCH_X64
F(pc32),
#elif XCC_TARGET_ARCH == XCC_ARCH_RISCV64
F(pcrel_pair), F(abs_pair), F(call), F(jal), F(branch), F(cbranch), F(cj),
#else
F(page), F(lo12), F(call26),
#endif
};
void harness(void) { int n = sizeof T / sizeof *T; int i = ONLY >= 0 ? ONLY : (int)symx_choose(n); symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); }
