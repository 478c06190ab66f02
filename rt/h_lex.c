// C13: tokens and literals of the compiler's front end against ISO C 6.4.
#include "hb.h"
#include "lexer.h"
#include "parser.h"
#include "type.h"
#include "var.h"
#include "fe_misc.h"
#include "util.h"
#include "table.h"
static void feinit(void) { init_lexer(); init_global(); }
static char txt[128]; static int tn;
static void tc(int c) { txt[tn++] = c; txt[tn] = 0; }
static void ts(const char *s) { while (*s) tc(*s++); }
static int sy(const char *nm) { u8 c; symx_symbolic(&c, 1, nm); return c; }
static int sdig(int base) { u8 c = sy("digit"); switch (base) { case 2: symx_assume(rng(c, '0', '1')); break; case 8: symx_assume(rng(c, '0', '7')); break; case 10: symx_assume(rng(c, '0', '9')); break; default: symx_assume(rng(c, '0', '9') | rng(c, 'a', 'f') | rng(c, 'A', 'F')); } return c; }
static int dv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int body(void *p);
static Expr *E;
static int body(void *p) { (void)p; E = parse_expr(); return 0; }
static void src(void) { set_source_string(txt, "t.c", 1); }
// ---- integer constants: value and type
static void chk_int(u64 v, int base, int u, int l) {
  src(); symx_assert(symx_catch(body, 0) == 0, "an integer constant is accepted"); A(E->kind == EX_FIXNUM); A((u64)E->fixnum == v);
  // the first of the list of 6.4.4.1 that can represent the value
  int k, un, big31 = v > 0x7fffffff, big32 = v > 0xffffffff, big63 = v >> 63;
  if (l == 0 && !big32 && (u ? 1 : (!big31 || base != 10))) { k = FX_INT; un = u | big31; }
  else if (l < 2 && (u || !big63 || base != 10)) { k = FX_LONG; un = u | big63; }
  else { k = FX_LLONG; un = u | big63; }
  if (!u && base == 10 && big63) symx_path_end("no type can represent it");
  A(E->type->kind == TY_FIXNUM); A(E->type->fixnum.kind == k); A(!!E->type->fixnum.is_unsigned == !!un);
  Token *t = match(-1); A(t->kind == TK_SEMICOL);
}
static const struct { const char *s; int u, l; } SUF[] = {{"", 0, 0}, {"u", 1, 0}, {"l", 0, 1}, {"ul", 1, 1}, {"lu", 1, 1}, {"ll", 0, 2}, {"ull", 1, 2}, {"llu", 1, 2}, {"U", 1, 0}, {"L", 0, 1}, {"UL", 1, 1}, {"LLU", 1, 2}};
static void suffix_(int *u, int *l) { int i = symx_choose(12); ts(SUF[i].s); *u = SUF[i].u; *l = SUF[i].l; }
static void t_int_small(void) { static const struct { const char *p; int b; } P[] = {{"", 10}, {"0", 8}, {"0x", 16}, {"0X", 16}, {"0b", 2}, {"0B", 2}}; int i = symx_choose(6), n = 1 + symx_choose(3), u, l; u64 v = 0; ts(P[i].p);
  for (int k = 0; k < n; k++) { int c = sdig(P[i].b); if (P[i].b == 10 && !k && n > 1) symx_assume(c != '0'); tc(c); v = v * P[i].b + dv(c); } suffix_(&u, &l); tc(';'); chk_int(v, P[i].b, u, l); }
static void t_int_limits(void) { static const struct { const char *p; int b; u64 v; } P[] = {{"21474836", 10, 21474836}, {"42949672", 10, 42949672}, {"92233720368547758", 10, 92233720368547758ull}, {"184467440737095515", 10, 184467440737095515ull}, {"0x7fffff", 16, 0x7fffff}, {"0xffffff", 16, 0xffffff}, {"0x7fffffffffffff", 16, 0x7fffffffffffffull}, {"0xffffffffffffff", 16, 0xffffffffffffffull}, {"0177777777", 8, 0177777777}, {"0377777777", 8, 0377777777}, {"07777777777777777777", 8, 07777777777777777777ull}, {"017777777777777777777", 8, 017777777777777777777ull}, {"0b111111111111111111111111111111", 2, 0x3fffffff}};
  int i = symx_choose(13), u, l, b = P[i].b; ts(P[i].p); u64 v = P[i].v; for (int k = 0; k < 2; k++) { int c = sdig(b); tc(c); v = v * b + dv(c); } if (i == 3) symx_assume(v >= 9223372036854775808ull); suffix_(&u, &l); tc(';'); chk_int(v, b, u, l); }
// ---- escapes; c: one source character sequence of kind k appended to txt; returns its value
static int plain(const char *nm, int q) { u8 c = sy(nm); symx_assume(rng(c, 32, 126) & (c != '\\') & (c != q)); return c; }
static int pl(const char *nm, int q) { int c = plain(nm, q); tc(c); return c; }
static int open_; // the last escape would go on with octal (1) or hexadecimal (2) digits
static int hx(int c) { return rng(c, '0', '9') | rng(c, 'a', 'f') | rng(c, 'A', 'F'); }
static void close_(int c) { if (open_ == 1) symx_assume(!rng(c, '0', '7')); if (open_ == 2) symx_assume(!hx(c)); open_ = 0; }
static int esc(int wide) {
  static const char S[] = "abfnrtv\\'\"?"; static const char V[] = "\a\b\f\n\r\t\v\\'\"?"; tc('\\');
  switch (symx_choose(4)) {
  case 0: { int i = symx_choose(11); tc(S[i]); return V[i]; }
  case 1: { int c = sdig(8); tc(c); open_ = 1; return dv(c); }
  case 2: { int n = 2 + (wide ? symx_choose(9) : symx_choose(2)), v = 0; for (int i = 0; i < n; i++) { int c = sdig(8); if (n == 3 && !i) symx_assume(wide | (c <= '3')); tc(c); v = v * 8 + dv(c); } open_ = n < 3 || wide; return v; }
  default: { tc('x'); int n = 1 + (wide ? symx_choose(7) : symx_choose(2)), v = 0; for (int i = 0; i < n; i++) { int c = sdig(16); tc(c); v = v * 16 + dv(c); } open_ = 2; return v; }
  }
}
static void t_char(void) { tc('\''); int v = symx_choose(2) ? esc(0) : pl("c", '\''); tc('\''); tc(';'); v = (signed char)v; src(); symx_assert(symx_catch(body, 0) == 0, "a character constant is accepted"); A(E->kind == EX_FIXNUM); A(E->fixnum == v); A(E->type->kind == TY_FIXNUM && E->type->fixnum.kind == FX_INT && !E->type->fixnum.is_unsigned); Token *t = match(-1); A(t->kind == TK_SEMICOL); }
static int utf8(void) { int n = 2 + symx_choose(3); u8 c = sy("u0"); int v; if (n == 2) { symx_assume(rng(c, 0xc2, 0xdf)); v = c & 31; } else if (n == 3) { symx_assume(rng(c, 0xe1, 0xec)); v = c & 15; } else { symx_assume(rng(c, 0xf1, 0xf3)); v = c & 7; } tc(c); for (int i = 1; i < n; i++) { u8 d = sy("u"); symx_assume(rng(d, 0x80, 0xbf)); tc(d); v = v << 6 | (d & 63); } return v; }
static void t_wchar(void) { ts("L'"); int v; switch (symx_choose(3)) { case 0: v = esc(1); break; case 1: v = pl("c", '\''); break; default: v = utf8(); } ts("';"); src(); symx_assert(symx_catch(body, 0) == 0, "a wide character constant is accepted"); A(E->kind == EX_FIXNUM); A(E->fixnum == v); A(E->type->kind == TY_FIXNUM && E->type->fixnum.kind == FX_INT); Token *t = match(-1); A(t->kind == TK_SEMICOL); }
static u8 want[64]; static int nw;
static void chk_str(void) { tc(';'); src(); Token *t = 0; t = match(-1); A(t->kind == TK_STR); A(t->str.kind == STR_CHAR); A(t->str.len == (size_t)nw + 1); int d = 0; for (int i = 0; i < nw; i++) d |= (u8)t->str.buf[i] ^ want[i]; symx_assert(d == 0, "the string has the right characters"); A(t->str.buf[nw] == 0); t = match(-1); A(t->kind == TK_SEMICOL); }
static void piece(void) { switch (symx_choose(3)) { case 0: { u8 c = plain("c", '"'); close_(c); want[nw++] = c; tc(c); break; } case 1: want[nw++] = esc(0); break; default: { u8 c = sy("c"); symx_assume(c >= 128); close_(c); tc(c); want[nw++] = c; } } }
static void t_string(void) { tc('"'); for (int i = 0; i < 2; i++) piece(); u8 c = plain("e", '"'); close_(c); tc(c); want[nw++] = c; tc('"'); chk_str(); }
static void t_string_concat(void) { tc('"'); want[nw++] = esc(0); tc('"'); static const char *G[] = {"", " ", "\t ", "/* \" */", " /**/ "}; ts(G[symx_choose(5)]); tc('"'); u8 c = plain("e", '"'); tc(c); want[nw++] = c; tc('"'); chk_str(); }
static void t_string_long(void) { int n = 10 + symx_choose(24); tc('"'); for (int i = 0; i < n; i++) { u8 c = i % 9 ? 'a' + i % 26 : plain("c", '"'); tc(c); want[nw++] = c; } tc('"'); chk_str(); }
static void t_string_wide(void) { ts("L\""); int v[3]; for (int i = 0; i < 2; i++) v[i] = symx_choose(2) ? pl("c", '"') : utf8(); ts("\";"); src(); Token *t = match(-1); A(t->kind == TK_STR); A(t->str.kind == STR_WIDE); A(t->str.len == 3 || t->str.len == 3 * sizeof(wchar_t)); const wchar_t *w = (const void *)t->str.buf; for (int i = 0; i < 2; i++) A((int)w[i] == v[i]); A(w[2] == 0); }
// ---- punctuators: longest match
static const struct { const char *s; int k; } P[] = {{"<<=", TK_LSHIFT_ASSIGN}, {">>=", TK_RSHIFT_ASSIGN}, {"...", TK_ELLIPSIS}, {"==", TK_EQ}, {"!=", TK_NE}, {"<=", TK_LE}, {">=", TK_GE}, {"+=", TK_ADD_ASSIGN}, {"-=", TK_SUB_ASSIGN}, {"*=", TK_MUL_ASSIGN}, {"/=", TK_DIV_ASSIGN}, {"%=", TK_MOD_ASSIGN}, {"&=", TK_AND_ASSIGN}, {"|=", TK_OR_ASSIGN}, {"^=", TK_HAT_ASSIGN}, {"++", TK_INC}, {"--", TK_DEC}, {"->", TK_ARROW}, {"&&", TK_LOGAND}, {"||", TK_LOGIOR}, {"<<", TK_LSHIFT}, {">>", TK_RSHIFT},
  {"+", TK_ADD}, {"-", TK_SUB}, {"*", TK_MUL}, {"/", TK_DIV}, {"%", TK_MOD}, {"&", TK_AND}, {"|", TK_OR}, {"^", TK_HAT}, {"<", TK_LT}, {">", TK_GT}, {"!", TK_NOT}, {"=", TK_ASSIGN}, {".", TK_DOT}, {"(", TK_LPAR}, {")", TK_RPAR}, {"{", TK_LBRACE}, {"}", TK_RBRACE}, {"[", TK_LBRACKET}, {"]", TK_RBRACKET}, {":", TK_COLON}, {";", TK_SEMICOL}, {",", TK_COMMA}, {"?", TK_QUESTION}, {"~", TK_TILDA}};
static void tokens(const char *alpha, int n) { // n free characters
  for (int i = 0; i < n; i++) { u8 c = sy("t"); symx_assume(oneof(c, alpha)); tc(c); } for (int i = 0; i + 1 < n; i++) symx_assume((txt[i] != '/') | ((txt[i + 1] != '/') & (txt[i + 1] != '*')));
  tc(' '); src(); int p = 0;
  for (int guard = 0; guard < 12; guard++) {
    while (txt[p] == ' ' || txt[p] == '\t') p++;
    Token *t = match(-1);
    if (!txt[p]) { A(t->kind == TK_EOF); return; }
    A(t->begin == txt + p); int q = p;
    if (rng(txt[p], 'a', 'z') | (txt[p] == '_')) { while (rng(txt[q], 'a', 'z') | rng(txt[q], '0', '9') | (txt[q] == '_')) q++; A(t->kind == TK_IDENT); A(t->ident->bytes == q - p); }
    else if (rng(txt[p], '0', '9')) { while (rng(txt[q], '0', '9')) q++; A(t->kind == TK_INTLIT); }
    else { for (unsigned i = 0; i < sizeof P / sizeof *P; i++) { int m = strlen(P[i].s), e = 0; for (int j = 0; j < m; j++) e |= P[i].s[j] ^ txt[p + j]; if (!e) { q = p + m; symx_assert((int)t->kind == P[i].k, "the longest punctuator is taken"); break; } } A(q > p); }
    symx_assert(t->end == txt + q, "the token has the right extent"); p = q;
  }
}
#ifndef NT
#define NT 3
#endif
static void t_punct(void) { tokens("+-*/%&|^<>!=.", NT); }
static void t_punct_mixed(void) { tokens("+-&<=>/(){}[]:;,?~ a1", NT); }
static void t_punct4(void) { static const char *Q[] = {"<<", ">>", "..", "--", "-=", "&&", "=="}; ts(Q[symx_choose(7)]); int k = tn; tn = k; for (int i = 0; i < 2; i++) { u8 c = sy("t"); symx_assume(oneof(c, "<>=.-+&|")); tc(c); } char save[8]; memcpy(save, txt, 8); tn = 4; tokens(" ", 0); }
// ---- identifiers and keywords
static const struct { const char *s; int k; } KW[] = {{"if", TK_IF}, {"else", TK_ELSE}, {"switch", TK_SWITCH}, {"case", TK_CASE}, {"default", TK_DEFAULT}, {"do", TK_DO}, {"while", TK_WHILE}, {"for", TK_FOR}, {"break", TK_BREAK}, {"continue", TK_CONTINUE}, {"goto", TK_GOTO}, {"return", TK_RETURN}, {"void", TK_VOID}, {"char", TK_CHAR}, {"short", TK_SHORT}, {"int", TK_INT}, {"long", TK_LONG}, {"const", TK_CONST}, {"unsigned", TK_UNSIGNED}, {"signed", TK_SIGNED}, {"static", TK_STATIC}, {"inline", TK_INLINE}, {"extern", TK_EXTERN}, {"volatile", TK_VOLATILE}, {"restrict", TK_RESTRICT}, {"auto", TK_AUTO}, {"register", TK_REGISTER}, {"struct", TK_STRUCT}, {"union", TK_UNION}, {"enum", TK_ENUM}, {"_Bool", TK_BOOL}, {"sizeof", TK_SIZEOF}, {"_Alignof", TK_ALIGNOF}, {"typedef", TK_TYPEDEF}, {"float", TK_FLOAT}, {"double", TK_DOUBLE}, {"_Noreturn", TK_NORETURN}, {"_Generic", TK_GENERIC}};
static int idch(int c) { return rng(c, 'a', 'z') | rng(c, 'A', 'Z') | rng(c, '0', '9') | (c == '_'); }
static void t_keyword(void) { unsigned i = symx_choose(sizeof KW / sizeof *KW); int n = strlen(KW[i].s), w = symx_choose(3); ts(KW[i].s); if (w == 1) { u8 c = sy("c"); symx_assume(idch(c)); txt[n / 2] = c; } else if (w == 2) { u8 c = sy("c"); symx_assume(idch(c)); tc(c); } int m = tn; tc('('); src(); Token *t = match(-1); A(t->begin == txt && t->end == txt + m);
  int k = TK_IDENT; for (unsigned j = 0; j < sizeof KW / sizeof *KW; j++) if ((int)strlen(KW[j].s) == m) { int e = 0; for (int x = 0; x < m; x++) e |= KW[j].s[x] ^ txt[x]; if (!e) { k = KW[j].k; break; } } symx_assert((int)t->kind == k, "keywords and only keywords are reserved"); if (k == TK_IDENT) A(t->ident->bytes == m); A(match(-1)->kind == TK_LPAR); }
static void t_ident_same(void) { char a[3], b[3]; for (int i = 0; i < 3; i++) { u8 c = sy("a"), d = sy("b"); symx_assume(idch(c) & idch(d)); if (!i) symx_assume(!rng(c, '0', '9') & !rng(d, '0', '9')); a[i] = c; b[i] = d; } a[1] = 'q'; b[1] = 'q'; for (int i = 0; i < 3; i++) tc(a[i]); tc(' '); for (int i = 0; i < 3; i++) tc(b[i]); src(); Token *t = match(-1), *s = match(-1); A(t->kind == TK_IDENT && s->kind == TK_IDENT); int e = 0; for (int i = 0; i < 3; i++) e |= a[i] ^ b[i]; A(equal_name(t->ident, s->ident) == (e == 0)); }
// ---- floating constants: extent, type, and the text handed to the conversion
static const char *f_at; static int f_f;
static double conv_(const char *p, char **e, double r) { // the C grammar of floating constants without suffix
  const char *s = p; f_at = p; int hex = 0; if (p[0] == '0' && (p[1] | 32) == 'x') { hex = 1; p += 2; } while (rng(*p, '0', '9') | (hex & (rng(*p, 'a', 'f') | rng(*p, 'A', 'F')))) p++; if (*p == '.') { p++; while (rng(*p, '0', '9') | (hex & (rng(*p, 'a', 'f') | rng(*p, 'A', 'F')))) p++; } if ((*p | 32) == (hex ? 'p' : 'e')) { const char *q = p + 1; if (*q == '+' || *q == '-') q++; if (rng(*q, '0', '9')) { while (rng(*q, '0', '9')) q++; p = q; } } (void)s; if (e) *e = (char *)p; return r; }
double strtod(const char *p, char **e) { return conv_(p, e, 42.0); }
float strtof(const char *p, char **e) { return conv_(p, e, 43.0); }
long double strtold(const char *p, char **e) { return conv_(p, e, 42.0); }
static void t_float(void) { static const char *S[] = {"#.#", "#.", ".#", "##.##", "#e#", "#E+#", "#.#e-#", ".#e##", "#.e#", "0#.#", "0##e#", "0#.", "0.#", "0e#", "00.#"}; const char *s = S[symx_choose(15)]; for (; *s; s++) tc(*s == '#' ? sdig(10) : *s); static const char *F[] = {"", "f", "F", "l", "L"}; int f = symx_choose(5); ts(F[f]); int m = tn; tc(';'); src(); symx_assert(symx_catch(body, 0) == 0, "a floating constant is accepted"); A(E->kind == EX_FLONUM); A(f_at == txt); A(E->type->kind == TY_FLONUM); A((int)E->type->flonum.kind == (f == 0 ? FL_DOUBLE : f < 3 ? FL_FLOAT : FL_LDOUBLE)); symx_assert(E->flonum == (f == 1 || f == 2 ? 43.0 : 42.0), "a floating constant is converted in its own type"); Token *t = match(-1); A(t->kind == TK_SEMICOL && t->begin == txt + m); }
static void t_float_hex(void) { static const char *S[] = {"0x#p#", "0X#.#p#", "0x.#p-#", "0x#.p+#", "0x#P##"}; const char *s = S[symx_choose(5)]; int x = 1; for (; *s; s++) { if ((*s | 32) == 'p') x = 0; tc(*s == '#' ? sdig(x ? 16 : 10) : *s); } static const char *F[] = {"", "f", "l"}; int f = symx_choose(3); ts(F[f]); int m = tn; tc(';'); src(); symx_assert(symx_catch(body, 0) == 0, "a floating constant is accepted"); A(E->kind == EX_FLONUM); A(f_at == txt); A((int)E->type->flonum.kind == (f == 0 ? FL_DOUBLE : f < 2 ? FL_FLOAT : FL_LDOUBLE)); A(E->flonum == (f == 1 ? 43.0 : 42.0)); Token *t = match(-1); A(t->kind == TK_SEMICOL && t->begin == txt + m); }
// ---- comments, line joins and line numbers of a file
static void t_lines(void) { // x <6 free characters> y: comments become white space, backslash-newline disappears
  static char b[32]; int n = 0; b[n++] = 'x'; b[n++] = ' '; for (int i = 0; i < 5; i++) { u8 c = sy("t"); symx_assume(oneof(c, "/*\n\\a ")); b[n++] = c; } b[n++] = '\n'; b[n++] = 'y'; b[n++] = '\n'; b[n] = 0;
  // reference
  char o[32]; int ln[32], m = 0, line = 1; for (int i = 0; i < n; i++) { if (b[i] == '\\' && b[i + 1] == '\n') { line++; i++; continue; } o[m] = b[i]; ln[m++] = line; if (b[i] == '\n') line++; } o[m] = 0;
  char w[32][4]; int wl[32], k = 0, i = 0;
  while (i < m) { if (o[i] == ' ' || o[i] == '\n') { i++; continue; } if (o[i] == '/' && o[i + 1] == '/') { while (o[i] != '\n') i++; continue; } if (o[i] == '/' && o[i + 1] == '*') { i += 2; while (o[i] && !(o[i] == '*' && o[i + 1] == '/')) i++; if (!o[i]) symx_path_end("comment not closed"); i += 2; continue; } if (o[i] == '\\') symx_path_end("stray backslash"); if (o[i] == '/' || o[i] == '*') { w[k][0] = o[i]; w[k][1] = 0; wl[k++] = ln[i]; i++; continue; } w[k][0] = o[i]; int a = i; while (rng(o[i], 'a', 'z')) i++; w[k][1] = i - a; wl[k++] = ln[a]; }
  FILE *f = fmemopen(b, n, "r"); set_source_file(f, "t.c");
  for (i = 0; i < k; i++) { Token *t = match(-1); if (w[i][0] == '/' || w[i][0] == '*') A(t->kind == (w[i][0] == '/' ? TK_DIV : TK_MUL)); else { A(t->kind == TK_IDENT); A(t->ident->bytes == w[i][1]); A(t->ident->chars[0] == w[i][0]); } A(t->line != 0); } A(match(-1)->kind == TK_EOF); }
static void t_linenumber(void) { // the reported line of a token: plain lines and line markers
  static char b[64]; int n = 0; int L = 1; for (int i = 0; i < 3; i++) { u8 c = sy("k"); symx_assume(oneof(c, "\n ")); if (c == '\n') { b[n++] = '\n'; L++; } else { static const char *M = "# 7 \"u.c\" 1\n"; int w = symx_choose(3); if (w == 1) { for (const char *s = M; *s; s++) b[n++] = *s; L = 7; } else if (w == 2) { for (const char *s = "a \\\n;\n"; *s; s++) b[n++] = *s; L += 2; } else { b[n++] = 'a'; b[n++] = ';'; b[n++] = '\n'; L++; } } } b[n++] = 'y'; b[n++] = '\n'; FILE *f = fmemopen(b, n, "r"); set_source_file(f, "t.c"); for (;;) { Token *t = match(-1); A(t->kind != TK_EOF); if (t->kind == TK_IDENT && t->ident->chars[0] == 'y') { A(t->line->lineno == L); break; } } }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(int_small), F(int_limits), F(char), F(wchar), F(string), F(string_concat), F(string_long), F(string_wide), F(punct), F(punct_mixed), F(punct4), F(keyword), F(ident_same), F(float), F(float_hex), F(lines), F(linenumber)};
void harness(void) { feinit(); unsigned i = ONLY < 0 ? symx_choose(sizeof T / sizeof *T) : ONLY; symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); symx_path_end(T[i].n); }
