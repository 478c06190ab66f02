// Loader for ELF64 relocatable objects (x86-64, riscv64, aarch64).
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef struct { const char *name; uint64_t addr; } ExtSym;
int elf_add(const char *path);                 // load one object's sections; 0 on success
int elf_link(const ExtSym *ext, int next);     // resolve and relocate everything; 0 on success
uint64_t elf_sym(const char *name);            // address of a defined symbol, 0 if absent
uint64_t elf_symsize(const char *name);
extern char elf_error[160];
void *sut_alloc(size_t n, size_t align);       // memory for the loaded program
void elf_patch_code_done(void);
