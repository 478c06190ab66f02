// Reference preprocessor (ISO C 6.10 with the GNU comma and __VA_OPT__ extensions): written from the standard, independent
// of the implementation. Works on (symbolic) bytes: splices lines, makes tokens, runs directives, expands macros with hide sets.
#pragma once
#define RT 160
typedef struct { const char *s; int n, k, sp, line, bol, line0; u64 hs; } Tk; // k: i identifier, 0 number, " string or character, p punctuator, m placemarker
typedef struct { Tk t[RT]; int n; } Tl;
static char rp_pool[8192]; static int rp_np;
static char *rp_new(int n) { char *p = rp_pool + rp_np; rp_np += n + 1; A(rp_np < (int)sizeof rp_pool); p[n] = 0; return p; }
static int rp_err;      // the program is invalid: must be diagnosed
static int rp_undef;    // behaviour undefined / unspecified: not compared
static int rp_id(int c) { return rng(c, 'a', 'z') | rng(c, 'A', 'Z') | (c == '_'); }
static int rp_dg(int c) { return rng(c, '0', '9'); }
static int eqs(const char *a, int n, const char *b) { int i; for (i = 0; i < n; i++) if (!b[i] || a[i] != b[i]) return 0; return !b[n]; }
static int is(const Tk *t, const char *s) { return eqs(t->s, t->n, s); }
static int same(const Tk *a, const Tk *b) { if (a->n != b->n) return 0; for (int i = 0; i < a->n; i++) if (a->s[i] != b->s[i]) return 0; return 1; }
static int rp_punct(const char *p) {
  static const char *const L[] = {"...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"};
  for (unsigned i = 0; i < sizeof L / sizeof *L; i++) { int j = 0; while (L[i][j] && L[i][j] == p[j]) j++; if (!L[i][j]) return j; }
  return 1;
}
// one token at p (not white space); returns its length
static int rp_tok(const char *p, int *k) {
  int n = 1; u8 c = *p;
  if (rp_id(c)) { while (rp_id(p[n]) | rp_dg(p[n])) n++; *k = 'i'; }
  else if (rp_dg(c) || (c == '.' && rp_dg(p[1]))) { for (;;) { if ((p[n] == '+' || p[n] == '-') && (((p[n - 1] | 32) == 'e') | ((p[n - 1] | 32) == 'p'))) n++; else if (rp_id(p[n]) | rp_dg(p[n]) | (p[n] == '.')) n++; else break; } *k = '0'; }
  else if (c == '"' || c == '\'') { while (p[n] && p[n] != c) { if (p[n] == '\\' && p[n + 1]) n++; n++; } if (!p[n]) { rp_undef = 1; *k = 'p'; return 1; } n++; *k = '"'; }
  else { *k = 'p'; n = rp_punct(p); }
  return n;
}
// a preprocessing number that is a C constant (others are not valid in a translation unit)
static int rp_const(const char *s, int n) {
  int i = 0, b = 10; if (n > 1 && s[0] == '0') { if ((s[1] | 32) == 'x') { b = 16; i = 2; } else if ((s[1] | 32) == 'b') { b = 2; i = 2; } }
  int st = i, pt = 0, ex = 0; for (; i < n; i++) { if (rp_dg(s[i]) && s[i] - '0' < b) continue; if (b == 16 && rng(s[i] | 32, 'a', 'f')) continue; if (s[i] == '.' && !pt && b != 2) { pt = 1; continue; } break; }
  if (i - st - pt < 1) return 0;
  if (i < n && b != 2 && (s[i] | 32) == (b == 16 ? 'p' : 'e')) { ex = 1; i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; int q = i; while (i < n && rp_dg(s[i])) i++; if (i == q) return 0; }
  if (b == 16 && pt && !ex) return 0;
  if (pt | ex) { if (i < n && ((s[i] | 32) == 'f' || (s[i] | 32) == 'l')) i++; return i == n; }
  if (b == 10 && s[0] == '0') for (int k = 0; k < i; k++) if (s[k] > '7') return 0;
  int u = 0, l = 0; for (; i < n; i++) { if ((s[i] | 32) == 'u' && !u) u = 1; else if ((s[i] | 32) == 'l' && !l) { l = 1; if (i + 1 < n && s[i + 1] == s[i]) i++; } else return 0; }
  return 1;
}
// phases 1-3
static void rp_lex(const char *src, Tl *o) {
  int len = strlen(src); char *b = rp_new(len + 2); static int ln[1024]; int n = 0, line = 1;
  for (int i = 0; i < len; i++) { if (src[i] == '\\' && src[i + 1] == '\n') { i++; line++; continue; } ln[n] = line; b[n++] = src[i]; if (src[i] == '\n') line++; }
  ln[n] = line; b[n] = 0; o->n = 0;
  int sp = 0, bol = 1, cur = 1; // cur: line the logical line began on
  for (int i = 0; i < n;) {
    u8 c = b[i];
    if (c == '\n') { bol = 1; sp = 0; i++; cur = ln[i]; continue; }
    if (c == ' ' || c == '\t' || c == '\v' || c == '\f') { sp |= 1; i++; continue; }
    if (c == '/' && b[i + 1] == '/') { while (i < n && b[i] != '\n') i++; continue; }
    if (c == '/' && b[i + 1] == '*') { int j = i + 2; while (j < n && !(b[j] == '*' && b[j + 1] == '/')) j++; if (j >= n) { rp_err = 1; return; } i = j + 2; sp |= 2; continue; }
    Tk *t = &o->t[o->n++]; A(o->n < RT - 2); t->s = b + i; t->hs = 0; t->sp = sp; t->bol = bol; t->line = ln[i]; t->line0 = cur;
    t->n = rp_tok(b + i, &t->k); if (t->k == '0' && !rp_const(t->s, t->n)) rp_undef = 1; if (t->n == 1 && (c == '\\' || c == '@' || c == '$' || c == '`')) rp_undef = 1;
    for (int j = 0; j < t->n; j++) if (b[i + j] == '\n') { rp_undef = 1; }
    i += t->n; sp = 0; bol = 0;
  }
}
// ---- macros
typedef struct { Tk name; int fn, np, va, on; Tk par[4]; Tl body; } Mac;
static Mac mac[12]; static int nmac;
static int m_find(const Tk *t) { for (int i = 0; i < nmac; i++) if (same(&mac[i].name, t)) return i; return -1; } // index stays the same after #undef
static int m_get(const Tk *t) { if (t->k != 'i') return -1; int i = m_find(t); return i >= 0 && mac[i].on ? i : -1; }
static const char *rp_file; static int rp_lineno, rp_linedelta;
static void tl_push(Tl *l, const Tk *t) { A(l->n < RT); l->t[l->n++] = *t; }
static void tl_splice(Tl *l, int at, int del, const Tl *r) { int m = l->n - at - del; A(l->n - del + r->n < RT); if (r->n > del) for (int i = m - 1; i >= 0; i--) l->t[at + r->n + i] = l->t[at + del + i]; else for (int i = 0; i < m; i++) l->t[at + r->n + i] = l->t[at + del + i]; for (int i = 0; i < r->n; i++) l->t[at + i] = r->t[i]; l->n += r->n - del; }
static void expand(Tl *l);
static Tl *tl_new(void) { Tl *l = h_alloc(sizeof *l); l->n = 0; return l; }
static Tk rp_str(const Tl *a) {
  int n = 2; for (int i = 0; i < a->n; i++) n += 2 * a->t[i].n + 1; char *p = rp_new(n); int m = 0; p[m++] = '"';
  for (int i = 0; i < a->n; i++) { if (i && a->t[i].sp) p[m++] = ' '; for (int j = 0; j < a->t[i].n; j++) { char c = a->t[i].s[j]; if (a->t[i].k == '"' && (c == '"' || c == '\\')) p[m++] = '\\'; p[m++] = c; } }
  p[m++] = '"'; p[m] = 0; Tk t = {p, m, '"', 0, 0, 0, 0}; return t;
}
static int rp_par(const Mac *m, const Tk *t) { if (!m->fn || t->k != 'i') return -1; for (int i = 0; i < m->np + m->va; i++) if (same(&m->par[i], t)) return i; return -1; }
static void paste(Tl *o, const Tk *r) { // ## between the last token of o and r
  Tk *l = &o->t[o->n - 1]; if (r->k == 'm') return; if (l->k == 'm') { int sp = l->sp; *l = *r; l->sp = sp; return; }
  char *p = rp_new(l->n + r->n); memcpy(p, l->s, l->n); memcpy(p + l->n, r->s, r->n); int k, n = l->n + r->n;
  if (p[0] == '/' && (p[1] == '/' || p[1] == '*')) { rp_undef = 1; return; }
  if (rp_tok(p, &k) != n) rp_undef = 1; // not a valid token: undefined
  l->s = p; l->n = n; l->k = k; l->hs &= r->hs;
}
static const Tk rp_pm = {"", 0, 'm', 0, 0, 0, 0};
static void subst(Mac *m, int b0, int b1, Tl **arg, Tl **exp_, Tl *o) {
  Tl *B = &m->body;
  for (int i = b0; i < b1; i++) {
    Tk *t = &B->t[i]; int j, cat = i > b0 && is(&B->t[i - 1], "##"), before = i + 1 < b1 && is(&B->t[i + 1], "##");
    if (is(t, "##") && i > b0 && i + 1 < b1) continue;
    Tl *piece = tl_new();
    if (m->fn && is(t, "#") && i + 1 < b1 && (j = rp_par(m, &B->t[i + 1])) >= 0) { Tk s = rp_str(arg[j]); s.sp = t->sp; tl_push(piece, &s); i++; before = i + 1 < b1 && is(&B->t[i + 1], "##"); if (cat || before) rp_undef = 1; }
    else if (m->va && is(t, "__VA_OPT__") && i + 1 < b1 && is(&B->t[i + 1], "(")) {
      int d = 0, e = i + 1; for (; e < b1; e++) { if (is(&B->t[e], "(")) d++; if (is(&B->t[e], ")") && !--d) break; }
      if (e >= b1) { rp_err = 1; return; } if (arg[m->np]->n) subst(m, i + 2, e, arg, exp_, piece); i = e; before = i + 1 < b1 && is(&B->t[i + 1], "##"); if (cat || before) rp_undef = 1;
    }
    else if ((j = rp_par(m, t)) >= 0) {
      if (cat && m->va && j == m->np && i >= b0 + 2 && is(&B->t[i - 2], ",")) { // GNU: , ## __VA_ARGS__
        if (!arg[j]->n) { o->n--; continue; } if (before) rp_undef = 1;
        cat = 0; if (!exp_[j]) { exp_[j] = tl_new(); *exp_[j] = *arg[j]; expand(exp_[j]); } *piece = *exp_[j]; 
      } else if (cat || before) { *piece = *arg[j]; if (!piece->n) tl_push(piece, &rp_pm); }
      else { if (!exp_[j]) { exp_[j] = tl_new(); *exp_[j] = *arg[j]; expand(exp_[j]); } *piece = *exp_[j]; }
      if (piece->n) piece->t[0].sp = t->sp;
    } else tl_push(piece, t);
    int k = 0; if (cat && o->n && piece->n) { paste(o, &piece->t[0]); k = 1; }
    for (; k < piece->n; k++) tl_push(o, &piece->t[k]);
  }
}
static void expand(Tl *l) {
  for (int i = 0; i < l->n;) {
    Tk *t = &l->t[i]; int mi = m_get(t);
    if (t->k == 'i' && mi < 0 && (is(t, "__LINE__") || is(t, "__FILE__"))) { char *p; int n = 0; if (t->s[2] == 'L') { int v = t->line + rp_linedelta; p = rp_new(6); char r[6]; int m = 0; do r[m++] = '0' + v % 10; while (v /= 10); while (m) p[n++] = r[--m]; t->k = '0'; } else { p = rp_new(strlen(rp_file) + 2); p[n++] = '"'; for (const char *f = rp_file; *f; f++) p[n++] = *f; p[n++] = '"'; t->k = '"'; } t->s = p; t->n = n; i++; continue; }
    if (mi < 0 || (t->hs >> mi & 1)) { i++; continue; }
    Mac *m = &mac[mi]; Tl *o = tl_new(); Tl *arg[5] = {0}, *ex[5] = {0}; int del = 1; u64 hs = t->hs | 1ull << mi; int sp = t->sp, line = t->line, line0 = t->line0;
    if (m->fn) {
      int j = i + 1; if (j >= l->n || !is(&l->t[j], "(")) { i++; continue; }
      int d = 0, na = 0, cnt = m->np + m->va; arg[0] = tl_new();
      for (j++;; j++) { if (j >= l->n) { rp_err = 1; return; } Tk *a = &l->t[j]; if (is(a, ")")) { if (!d) break; d--; } if (is(a, "(")) d++; if (is(a, ",") && !d && !(m->va && na == m->np)) { na++; if (na >= 5) { rp_err = 1; return; } arg[na] = tl_new(); continue; } tl_push(arg[na], a); if (arg[na]->n > 1 && a->bol) arg[na]->t[arg[na]->n - 1].sp = 1; }
      hs = (t->hs & l->t[j].hs) | 1ull << mi; del = j - i + 1; na++;
      if (cnt == 0) { if (na > 1 || arg[0]->n) { rp_err = 1; return; } }
      else if (na == cnt - 1 && m->va) arg[na] = tl_new();
      else if (na != cnt) { rp_err = 1; return; }
    }
    subst(m, 0, m->body.n, arg, ex, o);
    if (rp_err) return;
    int w = 0; for (int k = 0; k < o->n; k++) if (o->t[k].k != 'm') { o->t[w] = o->t[k]; o->t[w].hs |= hs; o->t[w].bol = 0; o->t[w].line = line; o->t[w].line0 = line0; w++; } o->n = w; if (w) o->t[0].sp = sp;
    tl_splice(l, i, del, o);
  }
}
static void rp_define(Tk *t, int n) { // tokens after `define'
  if (n < 1 || t->k != 'i' || is(t, "defined")) { rp_err = 1; return; }
  Mac d; d.name = t[0]; d.fn = d.np = d.va = 0; d.on = 1; d.body.n = 0; int i = 1;
  if (n > 1 && is(&t[1], "(") && !t[1].sp) { d.fn = 1; i = 2; if (i < n && is(&t[i], ")")) i++; else for (;;) { if (i >= n) { rp_err = 1; return; } if (is(&t[i], "...")) { d.va = 1; static const Tk va = {"__VA_ARGS__", 11, 'i', 0, 0, 0, 0}; d.par[d.np] = va; i++; } else { if (t[i].k != 'i') { rp_err = 1; return; } d.par[d.np] = t[i++]; for (int q = 0; q < d.np; q++) if (same(&d.par[q], &d.par[d.np])) rp_undef = 1; if (i < n && is(&t[i], "...")) { d.va = 1; i++; } else d.np++; } if (i >= n) { rp_err = 1; return; } if (is(&t[i], ")")) { i++; break; } if (d.va || !is(&t[i], ",") || d.np > 3) { rp_err = 1; return; } i++; } }
  else if (n > 1 && !t[1].sp && t[1].k != 'i') rp_undef = 1; // white space required after the name
  for (; i < n; i++) { if (d.body.n && t[i].sp == 2 && t[i].k != 'p' && t[i - 1].k != 'p') rp_undef = 1; tl_push(&d.body, &t[i]); } // (the project's own suite fixes that a comment in a body joins identifiers)
  if (d.body.n) { d.body.t[0].sp = 0; if (is(&d.body.t[0], "##") || is(&d.body.t[d.body.n - 1], "##")) { rp_undef = 1; return; } }
  if (d.fn) for (int k = 0; k < d.body.n; k++) if (is(&d.body.t[k], "#") && (k + 1 >= d.body.n || rp_par(&d, &d.body.t[k + 1]) < 0)) { rp_undef = 1; return; }
  int m = m_find(&d.name); if (m < 0) { m = nmac++; A(nmac <= 12); } else if (mac[m].on) rp_undef = 1; mac[m] = d;
}
// ---- conditions
typedef struct { u64 v; int u; } Rv;
static Tk *ce, *ce1; static int rp_dead; // evaluating an unevaluated operand
static Rv R_(u64 v, int u) { Rv r = {v, u}; return r; }
static int nx(const char *s) { return ce < ce1 && is(ce, s); }
static int acc(const char *s) { if (nx(s)) { ce++; return 1; } return 0; }
static Rv r_cond(void);
static Rv r_num(const Tk *t) {
  int b = 10, i = 0; u64 v = 0; int u = 0; if (t->s[0] == '0' && t->n > 1) { int c = t->s[1] | 32; if (c == 'x') { b = 16; i = 2; } else if (c == 'b') { b = 2; i = 2; } else b = 8; }
  int st = i; for (; i < t->n; i++) { int c = t->s[i]; int d; if (rp_dg(c)) d = c - '0'; else if (b == 16 && rng(c | 32, 'a', 'f')) d = (c | 32) - 'a' + 10; else break; if (d >= b) { rp_err = 1; return R_(0, 0); } v = v * b + d; }
  if (i == st) { rp_err = 1; return R_(0, 0); } int l = 0;
  for (; i < t->n; i++) { int c = t->s[i] | 32; if (c == 'u' && !u) u = 1; else if (c == 'l' && !l) { l = 1; if (i + 1 < t->n && t->s[i + 1] == t->s[i]) i++; } else { rp_err = 1; return R_(0, 0); } }
  if (v >> 63 && b == 10 && !u) rp_undef = 1;
  return R_(v, u | (int)(v >> 63));
}
static int r_esc(const char *s, int n, int *p) { int c = s[(*p)++]; if (c != '\\') return c; c = s[(*p)++]; switch (c) { case 'n': return 10; case 't': return 9; case '0': return 0; case 'a': return 7; case 'x': { int v = 0; while (*p < n && (rp_dg(s[*p]) | rng(s[*p] | 32, 'a', 'f'))) { int d = s[(*p)++]; v = v * 16 + (rp_dg(d) ? d - '0' : (d | 32) - 'a' + 10); } return (signed char)v; } default: return c; } }
static Rv r_prim(void) {
  if (ce >= ce1) { rp_err = 1; return R_(0, 0); }
  Tk *t = ce++;
  if (is(t, "(")) { Rv r = r_cond(); if (!acc(")")) rp_err = 1; return r; }
  if (t->k == 'i') return R_(0, 0);
  if (t->k == '0') return r_num(t);
  if (t->k == '"' && t->s[0] == '\'') { int p = 1; int v = r_esc(t->s, t->n, &p); if (p != t->n - 1) rp_undef = 1; return R_((u64)(i64)(signed char)v, 0); }
  rp_err = 1; return R_(0, 0);
}
static Rv r_un(void) {
  if (acc("-")) { Rv r = r_un(); r.v = 0 - r.v; return r; } if (acc("+")) return r_un(); if (acc("~")) { Rv r = r_un(); r.v = ~r.v; return r; } if (acc("!")) { Rv r = r_un(); return R_(!r.v, 0); }
  return r_prim();
}
static Rv r_bin(int lv) {
  static const char *const O[10][5] = {{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}};
  if (lv == 10) return r_un();
  Rv l = r_bin(lv + 1);
  for (;;) {
    int k = -1; for (int i = 0; i < 5 && O[lv][i]; i++) if (nx(O[lv][i])) { k = i; break; }
    if (k < 0 || rp_err) return l;
    ce++;
    if (lv < 2) { int dead = lv ? !l.v : !!l.v; rp_dead += dead; Rv r = r_bin(lv + 1); rp_dead -= dead; l = R_(lv ? !!l.v & !!r.v : !!l.v | !!r.v, 0); continue; }
    Rv r = r_bin(lv + 1); int u = l.u | r.u; u64 a = l.v, b = r.v;
    switch (lv) {
    case 2: l = R_(a | b, u); break; case 3: l = R_(a ^ b, u); break; case 4: l = R_(a & b, u); break;
    case 5: l = R_((a == b) ^ k, 0); break;
    case 6: { int lt = u ? a < b : (i64)a < (i64)b, gt = u ? a > b : (i64)a > (i64)b; l = R_(k == 0 ? lt : k == 1 ? gt : k == 2 ? !gt : !lt, 0); break; }
    case 7: if (b >= 64) { if (rp_dead) b = 0; else { rp_undef = 1; return l; } } l = R_(k == 0 ? a << b : l.u ? a >> b : (u64)((i64)a >> b), l.u); break;
    case 8: l = R_(k ? a - b : a + b, u); break;
    default:
      if (k == 0) { l = R_(a * b, u); break; }
      if (!b) { if (!rp_dead) { rp_undef = 1; return l; } l = R_(0, u); break; }
      if (!u && b == (u64)-1 && a == 1ull << 63) { if (!rp_dead) { rp_undef = 1; return l; } l = R_(0, u); break; }
      l = R_(u ? (k == 1 ? a / b : a % b) : (k == 1 ? (u64)((i64)a / (i64)b) : (u64)((i64)a % (i64)b)), u);
    }
  }
}
static Rv r_cond(void) {
  Rv c = r_bin(0); if (rp_err || !acc("?")) return c;
  int f = !c.v; rp_dead += f; Rv a = r_cond(); rp_dead -= f; if (!acc(":")) { rp_err = 1; return c; } rp_dead += !f; Rv b = r_cond(); rp_dead -= !f;
  int u = a.u | b.u; return R_(c.v ? a.v : b.v, u);
}
static int rp_if(Tk *t, int n) {
  Tl *l = tl_new(); 
  static const Tk one = {"1", 1, '0', 1, 0, 0, 0}, zero = {"0", 1, '0', 1, 0, 0, 0};
  // defined X, defined(X) before macro replacement
  for (int i = 0; i < n; i++) {
    if (t[i].k == 'i' && is(&t[i], "defined")) { int j = i + 1, par = j < n && is(&t[j], "("); j += par; if (j >= n || t[j].k != 'i') { rp_err = 1; return 0; } int d = m_get(&t[j]) >= 0 || is(&t[j], "__LINE__") || is(&t[j], "__FILE__"); if (par) { j++; if (j >= n || !is(&t[j], ")")) { rp_err = 1; return 0; } } tl_push(l, d ? &one : &zero); i = j; continue; }
    tl_push(l, &t[i]);
  }
  expand(l); if (rp_err) return 0; for (int i = 0; i < l->n; i++) if (is(&l->t[i], "defined")) rp_undef = 1;
  ce = l->t; ce1 = ce + l->n; rp_dead = 0; if (!l->n) { rp_err = 1; return 0; }
  Rv r = r_cond(); if (ce < ce1) rp_err = 1; return r.v != 0;
}
// ---- a whole file; include: callback giving the text of a file or 0
static const char *(*rp_open)(const char *name, int n, int sys, const char **fn);
static int rp_depth; static const char *rp_once[4]; static int rp_nonce;
static void rp_flush(Tl *pend, Tl *out) { if (!pend->n) return; expand(pend); for (int i = 0; i < pend->n; i++) { pend->t[i].line += rp_linedelta; pend->t[i].line0 += rp_linedelta; tl_push(out, &pend->t[i]); } pend->n = 0; }
static void rp_run(const char *src, const char *fname, Tl *out) {
  Tl *l = tl_new(), *pend = tl_new(); int q = rp_undef; rp_lex(src, l); if (rp_err) return; (void)q;
  const char *of = rp_file; rp_file = fname; int old = rp_linedelta; rp_linedelta = 0;
  struct { int on, taken, els; } st[8]; int ns = 0, on = 1;
  for (int i = 0; i < l->n && !rp_err && !rp_undef;) {
    int e = i + 1; while (e < l->n && !l->t[e].bol) e++;
    Tk *t = &l->t[i]; int n = e - i;
    if (!(n && t->k == 'p' && is(t, "#"))) { if (on) for (int k = 0; k < n; k++) tl_push(pend, &t[k]); i = e; continue; }
    rp_flush(pend, out); if (rp_err || rp_undef) break;
    i = e; t++; n--; rp_lineno = n ? t->line : 0;
    if (!n) continue;
    Tk *d = t++; n--;
    if (is(d, "if") || is(d, "ifdef") || is(d, "ifndef")) { A(ns < 8); st[ns].on = on; st[ns].els = 0; int c = 0; if (on) { if (is(d, "if")) c = rp_if(t, n); else if (n != 1 || t->k != 'i') rp_err = 1; else { c = m_get(t) >= 0 || is(t, "__LINE__"); if (is(d, "ifndef")) c = !c; } } st[ns].taken = c; ns++; on = on && c; }
    else if (is(d, "elif")) { if (!ns || st[ns - 1].els) { rp_err = 1; break; } int c = 0; if (st[ns - 1].on && !st[ns - 1].taken) c = rp_if(t, n); on = c; st[ns - 1].taken |= c; }
    else if (is(d, "else")) { if (!ns || st[ns - 1].els) { rp_err = 1; break; } if (n) rp_undef = 1; st[ns - 1].els = 1; on = st[ns - 1].on && !st[ns - 1].taken; }
    else if (is(d, "endif")) { if (!ns) { rp_err = 1; break; } if (n) rp_undef = 1; on = st[--ns].on; }
    else if (!on) continue;
    else if (is(d, "define")) rp_define(t, n);
    else if (is(d, "undef")) { if (n != 1 || t->k != 'i') { rp_err = 1; break; } int m = m_find(t); if (m >= 0) mac[m].on = 0; }
    else if (is(d, "error")) { rp_err = 1; }
    else if (is(d, "line")) { Tl *x = tl_new(); for (int k = 0; k < n; k++) tl_push(x, &t[k]); expand(x); if (x->n < 1 || x->t[0].k != '0') { rp_err = 1; break; } int v = 0; for (int k = 0; k < x->t[0].n; k++) v = v * 10 + x->t[0].s[k] - '0'; rp_linedelta = v - (d->line + 1); if (x->n > 1) { char *p = rp_new(x->t[1].n); memcpy(p, x->t[1].s + 1, x->t[1].n - 2); p[x->t[1].n - 2] = 0; rp_file = p; } }
    else if (is(d, "include")) { Tl *x = tl_new(); for (int k = 0; k < n; k++) tl_push(x, &t[k]); if (n && t->k == 'i') expand(x); const char *fn, *s = 0; if (!x->n) { rp_err = 1; break; } if (x->t[0].k == '"' && x->n == 1) s = rp_open(x->t[0].s + 1, x->t[0].n - 2, 0, &fn); else { int k = 1; char *p = rp_new(64); int m = 0; if (!is(&x->t[0], "<")) { rp_err = 1; break; } for (; k < x->n && !is(&x->t[k], ">"); k++) { memcpy(p + m, x->t[k].s, x->t[k].n); m += x->t[k].n; } if (k != x->n - 1) { rp_err = 1; break; } s = rp_open(p, m, 1, &fn); } if (!s) { rp_err = 1; break; } int seen = 0; for (int k = 0; k < rp_nonce; k++) seen |= rp_once[k] == s; if (!seen && rp_depth < 5) { rp_depth++; rp_run(s, fn, out); rp_depth--; } }
    else if (is(d, "pragma")) { if (n == 1 && is(t, "once")) rp_once[rp_nonce++] = src; }
    else if (d->k == '0') rp_undef = 1;
    else rp_err = 1;
  }
  if (!rp_err && !rp_undef) rp_flush(pend, out);
  if (ns && !rp_undef) rp_err = 1;
  rp_file = of; rp_linedelta = old;
}
// ---- tokens of preprocessed output, with the presumed line of each
static int rp_out(const char *s, Tk *o, int max) {
  int n = 0, line = 1, bol = 1;
  for (int i = 0; s[i];) {
    if (s[i] == '\n') { line++; bol = 1; i++; continue; }
    if (s[i] == ' ' || s[i] == '\t' || s[i] == '\v' || s[i] == '\f') { i++; continue; }
    if (bol && s[i] == '#' && (!i || s[i - 1] == '\n') && s[i + 1] == ' ' && rp_dg(s[i + 2])) { i++; while (s[i] == ' ') i++; int v = 0; while (rp_dg(s[i])) v = v * 10 + s[i++] - '0'; while (s[i] && s[i] != '\n') i++; if (s[i]) i++; line = v; continue; }
    bol = 0; A(n < max); Tk *t = &o[n++]; t->s = s + i; t->line = line; t->n = rp_tok(s + i, &t->k); i += t->n;
  }
  return n;
}
