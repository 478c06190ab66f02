#include "elfobj.h"
#include <elf.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "symx.h"
char elf_error[160];
#define MAXO 2048
static struct { uint8_t *buf; long n; Elf64_Ehdr *eh; Elf64_Shdr *sh; uint64_t *addr; Elf64_Sym *sym; int nsym; const char *str; uint64_t *symaddr; } O[MAXO]; static int nO;
static int slen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static int seq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static int fail(const char *m, const char *x) { int i = 0; for (; *m && i < 100; m++) elf_error[i++] = *m; for (; x && *x && i < 158; x++) elf_error[i++] = *x; elf_error[i] = 0; return -1; }
int elf_add(const char *path) {
  long n = symx_host_size(path); if (n < (long)sizeof(Elf64_Ehdr)) return fail("cannot read ", path);
  if (nO >= MAXO) return fail("too many objects", path);
  int k = nO++; uint8_t *b = malloc(n); symx_host_read(path, b, n); O[k].buf = b; O[k].n = n;
  Elf64_Ehdr *eh = O[k].eh = (Elf64_Ehdr *)b; if (b[0] != 0x7f || b[1] != 'E' || eh->e_type != ET_REL) return fail("not an ELF object: ", path);
  Elf64_Shdr *sh = O[k].sh = (Elf64_Shdr *)(b + eh->e_shoff); O[k].addr = calloc(eh->e_shnum, 8);
  for (int i = 0; i < eh->e_shnum; i++) {
    if (sh[i].sh_type == SHT_SYMTAB) { O[k].sym = (Elf64_Sym *)(b + sh[i].sh_offset); O[k].nsym = sh[i].sh_size / sizeof(Elf64_Sym); O[k].str = (char *)(b + sh[sh[i].sh_link].sh_offset); }
    if (!(sh[i].sh_flags & SHF_ALLOC)) continue;
    uint8_t *p = sut_alloc(sh[i].sh_size ? sh[i].sh_size : 1, sh[i].sh_addralign ? sh[i].sh_addralign : 1); O[k].addr[i] = (uint64_t)p;
    if (sh[i].sh_type == SHT_NOBITS) memset(p, 0, sh[i].sh_size); else memcpy(p, b + sh[i].sh_offset, sh[i].sh_size);
  }
  O[k].symaddr = calloc(O[k].nsym + 1, 8);
  return 0;
}
#define HSZ 32768
typedef struct { const char *n; uint64_t a; int weak; } Ent;
static Ent H[HSZ], G[HSZ]; static int hashed, ghashed;
static uint32_t hsh(const char *s) { uint32_t h = 5381; while (*s) h = h * 33 + (uint8_t)*s++; return (h ^ h >> 13) & (HSZ - 1); }
static int mkhash(Ent *T, int globals) {
  int cnt = 0;
  for (int k = 0; k < nO; k++) for (int i = 0; i < O[k].nsym; i++) {
    Elf64_Sym *s = &O[k].sym[i]; uint64_t a; int bind = ELF64_ST_BIND(s->st_info); if (s->st_shndx == SHN_UNDEF || !s->st_name || (globals && bind == STB_LOCAL)) continue;
    if (s->st_shndx == SHN_COMMON) a = O[k].symaddr[i]; else if (s->st_shndx < SHN_LORESERVE) a = O[k].addr[s->st_shndx] + s->st_value; else if (globals && s->st_shndx == SHN_ABS) a = s->st_value; else continue;
    const char *nm = O[k].str + s->st_name; if (!globals && nm[0] == '.') continue;
    int weak = bind == STB_WEAK; uint32_t h = hsh(nm); while (T[h].n && !seq(T[h].n, nm)) h = (h + 1) & (HSZ - 1);
    if (!T[h].n) { if (++cnt >= HSZ - 8) return fail("too many symbols", 0); T[h].n = nm; T[h].a = a; T[h].weak = weak; } else if (globals && T[h].weak && !weak) { T[h].a = a; T[h].weak = 0; } }
  return 0;
}
static int resolveOne(int k, int i, const ExtSym *ext, int next, uint64_t *out) {
  Elf64_Sym *s = &O[k].sym[i];
  if (s->st_shndx == SHN_ABS) { *out = s->st_value; return 0; }
  if (s->st_shndx == SHN_COMMON) { *out = O[k].symaddr[i]; return 0; }
  if (s->st_shndx != SHN_UNDEF) { *out = O[k].addr[s->st_shndx] + s->st_value; return 0; }
  const char *nm = O[k].str + s->st_name;
  if (!ghashed) { ghashed = 1; if (mkhash(G, 1)) return -1; }
  uint32_t h = hsh(nm); while (G[h].n && !seq(G[h].n, nm)) h = (h + 1) & (HSZ - 1);
  if (G[h].n) { *out = G[h].a; return 0; }
  for (int j = 0; j < next; j++) if (seq(ext[j].name, nm)) { *out = ext[j].addr; return 0; }
  if (ELF64_ST_BIND(s->st_info) == STB_WEAK) { *out = 0; return 0; }
  return fail("undefined symbol ", nm);
}
uint64_t elf_sym(const char *name) {
  if (!hashed) { hashed = 1; mkhash(H, 0); }
  uint32_t h = hsh(name); while (H[h].n) { if (seq(H[h].n, name)) return H[h].a; h = (h + 1) & (HSZ - 1); }
  return 0;
}
static uint32_t r32(uint64_t p) { uint32_t v; memcpy(&v, (void *)p, 4); return v; }
static void w32(uint64_t p, uint32_t v) { memcpy((void *)p, &v, 4); }
static void w64(uint64_t p, uint64_t v) { memcpy((void *)p, &v, 8); }
static int fits32(int64_t v) { return v == (int32_t)v; }
// riscv %pcrel_lo: the symbol labels the auipc; remember high parts
static struct { uint64_t pc; int64_t val; } H20[4096]; static int nH20;
static uint64_t gotSlot(uint64_t v) { uint64_t *p = sut_alloc(8, 8); *p = v; return (uint64_t)p; }
int elf_link(const ExtSym *ext, int next) {
  for (int k = 0; k < nO; k++) for (int i = 0; i < O[k].nsym; i++) { Elf64_Sym *s = &O[k].sym[i]; if (s->st_shndx == SHN_COMMON) { uint64_t prev = 0; for (int j = 0; j < k && !prev; j++) for (int m = 0; m < O[j].nsym; m++) if (O[j].sym[m].st_shndx == SHN_COMMON && seq(O[j].str + O[j].sym[m].st_name, O[k].str + s->st_name)) prev = O[j].symaddr[m]; if (!prev) { prev = (uint64_t)sut_alloc(s->st_size, s->st_value); memset((void *)prev, 0, s->st_size); } O[k].symaddr[i] = prev; } }
  for (int pass = 0; pass < 2; pass++)
  for (int k = 0; k < nO; k++) for (int i = 0; i < O[k].eh->e_shnum; i++) {
    Elf64_Shdr *rs = &O[k].sh[i]; if (rs->sh_type != SHT_RELA) continue;
    uint64_t base = O[k].addr[rs->sh_info]; if (!base) continue;
    Elf64_Rela *r = (Elf64_Rela *)(O[k].buf + rs->sh_offset); int n = rs->sh_size / sizeof *r;
    for (int j = 0; j < n; j++) {
      uint64_t P = base + r[j].r_offset, S; int ty = ELF64_R_TYPE(r[j].r_info), si = ELF64_R_SYM(r[j].r_info); int64_t A = r[j].r_addend;
      if (r[j].r_offset >= O[k].sh[rs->sh_info].sh_size) return fail("relocation outside its section", 0);
      if (O[k].eh->e_machine == EM_RISCV && (ty == R_RISCV_RELAX || ty == R_RISCV_ALIGN || ty == R_RISCV_NONE)) continue;
      if (resolveOne(k, si, ext, next, &S)) return -1;
      if (O[k].eh->e_machine == EM_X86_64) {
        if (pass) continue;
        switch (ty) {
        case R_X86_64_NONE: break;
        case R_X86_64_64: w64(P, S + A); break;
        case R_X86_64_PC32: case R_X86_64_PLT32: if (!fits32((int64_t)(S + A - P))) return fail("PC32 overflow", 0); w32(P, S + A - P); break;
        case R_X86_64_GOTPCREL: case R_X86_64_GOTPCRELX: case R_X86_64_REX_GOTPCRELX: w32(P, gotSlot(S) + A - P); break;
        case R_X86_64_32: if ((S + A) >> 32) return fail("R_X86_64_32 overflow", 0); w32(P, S + A); break;
        case R_X86_64_32S: if (!fits32((int64_t)(S + A))) return fail("R_X86_64_32S overflow", 0); w32(P, S + A); break;
        case R_X86_64_PC64: w64(P, S + A - P); break;
        default: return fail("relocation type", 0);
        }
      } else if (O[k].eh->e_machine == EM_RISCV) {
        int64_t v = (int64_t)(S + A - P);
        if (pass) { // lo12 after all hi20 are known
          if (ty != R_RISCV_PCREL_LO12_I && ty != R_RISCV_PCREL_LO12_S) continue;
          int f = -1; for (int q = 0; q < nH20; q++) if (H20[q].pc == P - 4) f = q; /* the pairing of the tree's own ld */ if (f < 0) for (int q = 0; q < nH20; q++) if (H20[q].pc == S) f = q; if (f < 0) return fail("pcrel_lo without hi", 0);
          int64_t lo = H20[f].val + A; uint32_t in = r32(P);
          if (ty == R_RISCV_PCREL_LO12_I) in = (in & 0xfffff) | ((uint32_t)lo << 20); else in = (in & 0x1fff07f) | (((uint32_t)lo >> 5 & 0x7f) << 25) | (((uint32_t)lo & 0x1f) << 7);
          w32(P, in); continue;
        }
        switch (ty) {
        case R_RISCV_NONE: case R_RISCV_RELAX: case R_RISCV_ALIGN: break;
        case R_RISCV_64: w64(P, S + A); break;
        case R_RISCV_32: w32(P, S + A); break;
        case R_RISCV_CALL: case R_RISCV_CALL_PLT: { if (!fits32(v)) return fail("call overflow", 0); uint32_t hi = (uint32_t)(v + 0x800) & 0xfffff000u; w32(P, (r32(P) & 0xfff) | hi); w32(P + 4, (r32(P + 4) & 0xfffff) | ((uint32_t)v << 20)); break; }
        case R_RISCV_GOT_HI20: v = (int64_t)(gotSlot(S + A) - P); /* fallthrough */
        case R_RISCV_PCREL_HI20: { if (!fits32(v)) return fail("pcrel overflow", 0); uint32_t hi = (uint32_t)(v + 0x800) & 0xfffff000u; w32(P, (r32(P) & 0xfff) | hi); if (nH20 < 4096) { H20[nH20].pc = P; H20[nH20++].val = v; } break; }
        case R_RISCV_PCREL_LO12_I: case R_RISCV_PCREL_LO12_S: break;
        case R_RISCV_JAL: { uint32_t u = (uint32_t)v; if (v < -(1 << 20) || v >= (1 << 20)) return fail("jal overflow", 0); w32(P, (r32(P) & 0xfff) | ((u >> 20 & 1) << 31) | ((u >> 1 & 0x3ff) << 21) | ((u >> 11 & 1) << 20) | ((u >> 12 & 0xff) << 12)); break; }
        case R_RISCV_BRANCH: { uint32_t u = (uint32_t)v; if (v < -4096 || v >= 4096) return fail("branch overflow", 0); w32(P, (r32(P) & 0x1fff07f) | ((u >> 12 & 1) << 31) | ((u >> 5 & 0x3f) << 25) | ((u >> 1 & 0xf) << 8) | ((u >> 11 & 1) << 7)); break; }
        case R_RISCV_RVC_JUMP: { uint32_t u = (uint32_t)v; uint16_t in = (uint16_t)r32(P); in = (in & 0xe003) | ((u >> 11 & 1) << 12) | ((u >> 4 & 1) << 11) | ((u >> 8 & 3) << 9) | ((u >> 10 & 1) << 8) | ((u >> 6 & 1) << 7) | ((u >> 7 & 1) << 6) | ((u >> 1 & 7) << 3) | ((u >> 5 & 1) << 2); memcpy((void *)P, &in, 2); break; }
        case R_RISCV_RVC_BRANCH: { uint32_t u = (uint32_t)v; uint16_t in = (uint16_t)r32(P); in = (in & 0xe383) | ((u >> 8 & 1) << 12) | ((u >> 3 & 3) << 10) | ((u >> 6 & 3) << 5) | ((u >> 1 & 3) << 3) | ((u >> 5 & 1) << 2); memcpy((void *)P, &in, 2); break; }
        default: return fail("relocation type", 0);
        }
      } else if (O[k].eh->e_machine == EM_AARCH64) {
        if (pass) continue;
        int64_t v = (int64_t)(S + A - P); uint64_t X = S + A;
        switch (ty) {
        case R_AARCH64_NONE: break;
        case R_AARCH64_ABS64: w64(P, X); break;
        case R_AARCH64_ABS32: w32(P, X); break;
        case R_AARCH64_CALL26: case R_AARCH64_JUMP26: w32(P, (r32(P) & 0xfc000000) | ((uint32_t)(v >> 2) & 0x3ffffff)); break;
        case R_AARCH64_ADR_GOT_PAGE: X = gotSlot(X); /* fallthrough */
        case R_AARCH64_ADR_PREL_PG_HI21: { int64_t pg = (int64_t)((X & ~0xfffULL) - (P & ~0xfffULL)) >> 12; w32(P, (r32(P) & 0x9f00001f) | ((uint32_t)(pg & 3) << 29) | ((uint32_t)(pg >> 2 & 0x7ffff) << 5)); break; }
        case R_AARCH64_ADD_ABS_LO12_NC: case R_AARCH64_LDST8_ABS_LO12_NC: w32(P, (r32(P) & ~(0xfffu << 10)) | ((uint32_t)(X & 0xfff) << 10)); break;
        case R_AARCH64_LDST16_ABS_LO12_NC: w32(P, (r32(P) & ~(0xfffu << 10)) | ((uint32_t)(X & 0xfff) >> 1 << 10)); break;
        case R_AARCH64_LDST32_ABS_LO12_NC: w32(P, (r32(P) & ~(0xfffu << 10)) | ((uint32_t)(X & 0xfff) >> 2 << 10)); break;
        case R_AARCH64_LDST64_ABS_LO12_NC: w32(P, (r32(P) & ~(0xfffu << 10)) | ((uint32_t)(X & 0xfff) >> 3 << 10)); break;
        case R_AARCH64_CONDBR19: w32(P, (r32(P) & ~(0x7ffffu << 5)) | ((uint32_t)(v >> 2 & 0x7ffff) << 5)); break;
        default: return fail("relocation type", 0);
        }
      } else return fail("machine", 0);
    }
  }
  (void)slen; hashed = 1; mkhash(H, 0); return 0;
}
