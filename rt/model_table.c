// The specification of src/util/table.c (interned names and maps), used in its place: C22 shows that table.c satisfies it.
#include <stdlib.h>
#include <string.h>
#include "table.h"
static Name **names; static int nnames, cnames;
const Name *alloc_name(const char *begin, const char *end, bool make_copy) {
  int n = end ? (int)(end - begin) : (int)strlen(begin);
  for (int i = 0; i < nnames; i++) if (names[i]->bytes == n) { int d = 0; for (int j = 0; j < n; j++) d |= names[i]->chars[j] ^ begin[j]; if (d == 0) return names[i]; }
  if (make_copy) { char *p = malloc(n + 1); memcpy(p, begin, n); begin = p; }
  if (nnames == cnames) names = realloc(names, (cnames = cnames * 2 + 64) * sizeof(Name *));
  Name *x = malloc(sizeof *x); x->chars = begin; x->bytes = n; x->hash = 0; return names[nnames++] = x;
}
bool equal_name(const Name *a, const Name *b) { return a == b; }
void table_init(Table *t) { t->entries = 0; t->capacity = t->count = t->used = 0; }
Table *alloc_table(void) { Table *t = malloc(sizeof *t); table_init(t); return t; }
static TableEntry *find(Table *t, const Name *k) { for (int i = 0; i < t->used; i++) if (t->entries[i].key == k) return &t->entries[i]; return 0; }
void *table_get(Table *t, const Name *k) { TableEntry *e = find(t, k); return e ? e->value : 0; }
bool table_try_get(Table *t, const Name *k, void **o) { TableEntry *e = find(t, k); if (!e) return false; if (o) *o = e->value; return true; }
bool table_put(Table *t, const Name *k, void *v) {
  TableEntry *e = find(t, k); if (e) { e->value = v; return false; }
  if (t->used == t->capacity) t->entries = realloc(t->entries, (t->capacity = t->capacity * 2 + 8) * sizeof(TableEntry));
  t->entries[t->used].key = k; t->entries[t->used++].value = v; t->count++; return true;
}
bool table_delete(Table *t, const Name *k) { TableEntry *e = find(t, k); if (!e) return false; e->key = 0; t->count--; return true; }
int table_iterate(Table *t, int i, const Name **k, void **v) { for (; i < t->used; i++) if (t->entries[i].key) { if (k) *k = t->entries[i].key; if (v) *v = t->entries[i].value; return i + 1; } return -1; }
