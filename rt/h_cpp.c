// C12: preprocessing against ISO C 6.10, by a reference preprocessor executed on the same symbolic text.
#define HB_FILES
#include "hb.h"
#include <sys/stat.h>
#include "preprocessor.h"
#include "lexer.h"
#include "util.h"
#include "refpp.h"
static struct { const char *name, *text; int pos; } vf[6]; static int nvf;
static int vfind(const char *n) { for (int i = 0; i < nvf; i++) if (!strcmp(vf[i].name, n)) return i; return -1; }
int open(const char *n, int fl, ...) { (void)fl; int i = vfind(n); if (i >= 0) vf[i].pos = 0; return i < 0 ? -1 : 10 + i; }
ssize_t read(int fd, void *b, size_t n) { if (fd < 10) return 0; fd -= 10; size_t k = strlen(vf[fd].text) - vf[fd].pos; if (k > n) k = n; memcpy(b, vf[fd].text + vf[fd].pos, k); vf[fd].pos += k; return k; }
ssize_t write(int fd, const void *b, size_t n) { (void)fd; (void)b; return n; }
off_t lseek(int fd, off_t o, int w) { (void)fd; (void)o; (void)w; return 0; }
int close(int fd) { (void)fd; return 0; }
int stat(const char *n, struct stat *s) { if (vfind(n) < 0) return -1; s->st_mode = S_IFREG | 0644; return 0; }
char *getcwd(char *b, size_t n) { if (!b) b = malloc(16); strcpy(b, "/w"); return b; }
static double conv_(const char *p, char **e, double v) { while (rng(*p, '0', '9') | (*p == '.')) p++; if ((*p | 32) == 'e') { p++; if ((*p == '+') | (*p == '-')) p++; while (rng(*p, '0', '9')) p++; } if (e) *e = (char *)p; return v; }
double strtod(const char *p, char **e) { return conv_(p, e, 42.0); }
float strtof(const char *p, char **e) { return conv_(p, e, 42.0); }
static char txt[640]; static int tn;
static void tc(int c) { txt[tn++] = c; txt[tn] = 0; }
static void ts(const char *s) { while (*s) tc(*s++); }
static int sy(const char *nm) { u8 c; symx_symbolic(&c, 1, nm); return c; }
static void fr(const char *al, int n) { while (n--) { u8 c = sy("c"); symx_assume(oneof(c, al)); tc(c); } }
static void dig(int n) { while (n--) fr("0123456789", 1); }
#define PICK(a) a[symx_choose(sizeof(a) / sizeof *a)]
static char *outb; static size_t outn; static const char *mainf = "/w/t.c";
static int body(void *p) { (void)p; FILE *o = open_memstream(&outb, &outn); init_preprocessor(o); FILE *f = fmemopen(txt, tn, "r"); preprocess(f, mainf); fclose(o); return 0; }
static Tk got[RT];
enum { LINES = 1 };
static const char *vopen(const char *nm, int n, int sys, const char **fn) { // quoted: the directory of the including file, then the search path
  char b[64]; static char keep[32][64]; static int nk; A(nk < 32); for (int pass = sys; pass < 3; pass++) { int m = 0; const char *d = pass == 0 ? rp_file : pass == 1 ? "/i/a/" : "/i/b/"; int e = strlen(d); while (e && d[e - 1] != '/') e--; memcpy(b, d, e); m = e; memcpy(b + m, nm, n); b[m + n] = 0; int i = vfind(b); if (i >= 0) { strcpy(keep[nk], b); *fn = keep[nk++]; return vf[i].text; } } return 0;
}
#ifdef NATIVE
int h_puts(const char *) __asm__("puts");
#else
#define h_puts(s) ((void)0)
#endif
static void check(int fl) {
  Tl *ref = tl_new(); rp_open = vopen; rp_run(txt, mainf, ref);
  if (rp_undef) symx_path_end("the standard does not define it");
  h_puts("--- source:"); h_puts(txt); int rc = symx_catch(body, 0); h_puts("--- output:"); if (!rc) h_puts(outb); h_puts("--- expected:"); for (int i = 0; i < ref->n; i++) { char b[64]; memcpy(b, ref->t[i].s, ref->t[i].n); b[ref->t[i].n] = 0; h_puts(b); }
  if (rp_err) { symx_assert(rc != 0, "an invalid program is diagnosed"); return; }
  symx_assert(rc == 0, "a valid program is accepted");
  int n = rp_out(outb, got, RT); int k = 0; for (; k < n && k < ref->n; k++) if (!same(&got[k], &ref->t[k])) break;
  symx_assert(k == n && k == ref->n, "the output has the tokens the standard prescribes");
  if (fl & LINES) for (k = 0; k < n; k++) symx_assert((got[k].line == ref->t[k].line) | (got[k].line == ref->t[k].line0), "line markers give the line of each token");
}
// ---- #if expressions
static const char *const OPS[] = {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||"};
static const char *const OPR[] = {"+", "-", "*", "%", "<<", "&", "^", "|", "==", "<", ">=", "&&", "||"};
#ifdef DEEP
#define OPR OPS
#define PAIR 7
#else
#define PAIR 3
#endif
static const char *const UN[] = {"", "-", "~", "!"};
static void yn(void) { ts("\nyes\n#else\nno\n#endif\n"); check(0); }
static void t_if_unary(void) { ts("#if ("); ts(PICK(UN)); ts(PICK(UN)); dig(1); ts(") == "); ts(PICK(UN)); dig(1); yn(); }
static void t_if_binary(void) { ts("#if ("); if (symx_choose(2)) ts("-"); dig(1); ts(PICK(OPS)); if (symx_choose(2)) ts("-"); dig(1); ts(") == "); if (symx_choose(2)) tc('-'); dig(1); yn(); }
static void t_if_prec(void) { ts("#if ("); fr("0123", 1); ts(PICK(OPR)); fr("0123", 1); ts(PICK(OPR)); fr("0123", 1); ts(") == "); fr("012", 1); yn(); }
static void t_if_truth(void) { ts("#if "); ts(PICK(UN)); dig(1); ts(PICK(OPS)); dig(1); yn(); }
static const char *const BIG[] = {"0x7fffffffffffffff", "0x800000000000000", "0xfffffffffffffff", "92233720368547758", "184467440737095516", "-1", "1"};
static const char *const SUF[] = {"", "u", "UL", "ull", "LL"};
static void wide(int n) { int i = symx_choose(n); ts(BIG[i]); if (i != 0 && i < 5) dig(1); ts(SUF[i == 4 ? 1 : symx_choose(i < 5 ? 2 : 5)]); }
static void t_if_wide(void) { ts("#if "); wide(7); ts(PICK(OPS)); wide(7); yn(); }
static void t_if_wide2(void) { ts("#if ("); wide(7); ts(PICK(OPR)); wide(PAIR); static const char *const C[] = {" < ", " >= "}; ts(")"); ts(PICK(C)); ts(symx_choose(2) ? "0" : "1u"); yn(); }
static void t_if_ternary(void) { static const char *const F[] = {"a?b:c", "a?b:c?d:e", "a?b?c:d:e", "a||b?c:d", "a?b:c||d", "(a?-1:bu)>0", "a&&b/0", "a||b/0", "a?b:c/0", "a?b%0:c", "a&&(b||c)", "-(a-b)>c", "!a==b", "~a+b*c", "a-b-c", "a/b/c", "a<<b<<c", "a>b>c", "a==b!=c", "a%b*c"}; ts("#if "); for (const char *f = PICK(F); *f; f++) if (rng(*f, 'a', 'e')) dig(1); else tc(*f); yn(); }
static void t_if_char(void) { ts("#if '"); static const char *const E[] = {"\\n", "\\0", "\\t", "\\a", "\\'", "\\\\", "\\x7f", "\\xff", "\\\""}; if (symx_choose(2)) ts(PICK(E)); else { u8 c = sy("c"); symx_assume(rng(c, 32, 126) & (c != '\'') & (c != '\\')); tc(c); } ts("' "); static const char *const C[] = {"==", "<", "-", ">"}; ts(PICK(C)); tc(' '); if (symx_choose(2)) tc('-'); dig(2); yn(); }
static void t_if_macro(void) { ts("#define A "); fr("0123B", 1); ts("\n#define B "); fr("012A", 1); ts("\n#define f(x) x"); fr("+*-", 1); fr("1xA", 1); ts("\n#if "); static const char *const F[] = {"A", "f(A)", "f(B)==1", "C", "f(2)==A", "defined A", "!defined(C)", "defined A&&defined (B)", "A==B", "f(f(1))", "(f(1))*2==f(2)", "defined f", "C(1)", "true", "A(", "defined", "f(,)", "1 1", "", "1 +", "\"a\"", "1.5", "(1", "1)", "defined(A", "1x", "09"}; ts(PICK(F)); yn(); }
// ---- conditional groups: N directives, a token after each
#ifndef NC
#define NC 4
#endif
static void conds(int n) { static const char *const D[] = {"#if 1\n", "#if 0\n", "#ifdef M\n", "#ifndef M\n", "#elif 1\n", "#elif 0\n", "#else\n", "#endif\n", "#define M\n", "#undef M\n"}; for (int i = 0; i < n; i++) { ts(PICK(D)); tc('a' + i); tc('\n'); } check(LINES); }
static void t_cond(void) { conds(NC); }
static void t_cond_nested(void) { static const char *const D[] = {"#if 0\n", "#if 1\n", "#ifdef X\n"}; ts(PICK(D)); tc('x'); tc('\n'); conds(NC - 1); }
static void t_cond_nested2(void) { ts("#define M\n"); static const char *const D[] = {"#if 0\n", "#if 1\n"}; ts(PICK(D)); ts(PICK(D)); static const char *const E[] = {"#endif\n#else\n", "#endif\n#elif 1\n", "#else\n", "#else\n#endif\n", "#elif 1\n#endif\n", "#elif 0\n"}; ts(PICK(E)); ts("y\n"); conds(2); ts("#endif\n"); }
static void t_skipped(void) { // what is skipped is not interpreted
  static const char *const G[] = {"#if 1 +", "#ifdef", "#error no", "#foo bar", "#include <none>", "#define", "#undef 1", "x \"a\" '#'", "/* #endif */", "\"#endif\"", "// #endif", "#if (", "/* \n#endif\n*/ z", "'\"' z", "\"\\\"\" z", "#line x", "'/*' z", "\"/*\" z", "#elif 1 /* x", "a / b", "/ /* c */ /"};
  int i = symx_choose(21), k = symx_choose(4); ts(k == 0 ? "#if 0\n" : k == 1 ? "#if 1\na\n#else\n" : k == 2 ? "#if 1\na\n#elif 1\n" : "#ifdef X\n"); ts(G[i]); if (i == 18) ts(" */"); ts("\n"); if (i == 0 || i == 1 || i == 11) ts("p\n#endif\n"); if (i != 18) ts("q\n"); ts("#endif\nr\n"); check(LINES); }
static void t_elif_taken(void) { static const char *const E[] = {"1 +", "0", "1", "garbage(", "1/0", "", "x y"}; ts("#if 1\na\n#elif "); ts(PICK(E)); ts("\nb\n#elif "); ts(PICK(E)); ts("\nc\n#else\nd\n#endif\ne\n"); check(LINES); }
// ---- macros
#ifndef NL
#define NL 3
#endif
#ifndef NM
#define NM 4
#endif
static void t_obj(void) { static const char *const B[] = {"a", "b", "c", "a b", "b a", "c+a", "", "1", "x", "a c b"}; ts("#define a "); ts(PICK(B)); ts("\n#define b "); ts(PICK(B)); ts("\n#define c "); ts(PICK(B)); ts("\na b c a"); tc('\n'); check(LINES); }
static void t_obj_text(void) { ts("#define a 1\n#define aa b\n#define b a\n"); fr("ab1+. ", NM); ts("\na\n#undef a\na b aa\n"); check(LINES); }
static void t_obj_paste(void) { // tokens of an expansion never join their neighbours
  ts("#define a "); fr("+-=<>&|.#1xe", 1); if (symx_choose(2)) fr("+-=x.", 1); tc('\n'); fr("x1+-=<&. ", 1); ts("a"); fr(" +-=>|.", 1); if (symx_choose(2)) ts("a"); tc('\n'); check(0); }
static const char *const FB[] = {"x", "x x", "(x)", "x+y", "f(x)", "g(x)", "g", "g x", "x(1)", "a", "y", "", "f", "#x", "#x y", "x##y", "x##1", "a##x", "x##x", "a x##y g"};
static void t_fn(void) { ts("#define g(x) "); ts(PICK(FB)); ts("\n#define a g\n"); ts("g("); fr("ag(1), ", NM - 1); ts(")\n"); check(LINES); }
static void t_fn2(void) { ts("#define f(x,y) "); ts(PICK(FB)); ts("\n#define g(x) x f\n#define h(x,y) [f(x ,y )]\n#define a 1,2\n"); tc("fh"[symx_choose(2)]); ts("("); static const char *const R[] = {"a,g", "1,2", "(1,2),3", "g(1),a", "f(1,2),3", ",", "1", "a", "g,(", "\"1,2\",',' ", "g)(1,2", " a , b ", "a b,c d", "x,y", "f,f", "/**/1 , 2 ", "( a ),b c "}; ts(PICK(R)); ts(")(3,4)\n"); check(LINES); }
static void t_fn_nest(void) { ts("#define f(x) "); fr("fgx1", 1); tc("( "[symx_choose(2)]); fr("xg1", 1); ts(txt[tn - 2] == '(' ? ")" : ""); ts("\n#define g(x) "); static const char *const B[] = {"f(x)", "x f", "(x)", "f", "g(x)", "x"}; ts(PICK(B)); tc('\n'); fr("fg", 1); ts("("); fr("fg1", 1); ts(")("); fr("fg1", 1); ts(")\n"); check(0); }
static void t_fn_free(void) { ts("#define f(x) "); fr("x#a (+", NM); ts("\nf("); fr("1a\"", 1); ts(" +1)\n"); check(0); }
static void t_fn_lines(void) { ts("#define f(x,y) y x\n#define e\n"); static const char *const W[] = {" ", "\n", "", "/* c */", "// d\n", "\n\n", " \n \n "}; tc('f'); ts(PICK(W)); tc('('); ts(PICK(W)); tc('1'); ts(PICK(W)); tc(','); ts(PICK(W)); ts("e 2) z\n"); tc('y'); ts("\nf f\n(3,4) f\n"); check(0); }
static void t_stringize(void) { ts("#define s(x) #x\n#define t(x) s(x)\n#define a b\n"); fr("st", 1); tc('('); static const char *const P[] = {"a", "\"q\\n\"", "'\\''", "a b", " a  +  b ", "\"a\\\\\"", "'\"'", "1.5e+3", "a/**/b", "->", "a,b", "", "\\n", "(a)", "a(b)", "#", "x"}; ts(PICK(P)); fr(" +a\"", 1); ts(")\n"); check(0); }
static void t_str_char(void) { ts("#define s(x) #x\ns("); int q = symx_choose(2) ? '"' : '\''; tc(q); u8 c = sy("c"); symx_assume(rng(c, 32, 126) & (c != q)); tc(c); if (c == '\\') { u8 d = sy("d"); symx_assume(oneof(d, "abfnrtv\\\'\"?0")); tc(d); } tc(q); ts(")\n"); check(0); }
static void t_paste(void) { static const char *const P[] = {"a##x", "x##a", "x##y", "a##1", "x ## y ## b", "a x##y b", "x##y(1)", "L##x", "x##.5", "a##x y", "x y##1", "<##x", "x##=", "##x", "x##", "x##y x", "(x##y)", "x #y"}; ts("#define c(x,y) "); ts(PICK(P)); ts("\n#define ab 7\n#define a9 c\n#define b ab\nc("); fr("ab9<=", 1); if (symx_choose(2)) fr("ab1 ", 1); tc(','); fr("ab9=( ", 1); ts(")\n"); check(0); }
static void t_variadic(void) { static const char *const D[] = {"(...) <__VA_ARGS__>", "(x,...) x<__VA_ARGS__>", "(x,...) f2(x,##__VA_ARGS__)", "(x,y...) x<y>", "(x,y...) f2(x,##y)", "(...) #__VA_ARGS__", "(x,...) x __VA_OPT__(,) __VA_ARGS__", "(x,...) x __VA_OPT__(x b)", "(x,...) f2(__VA_ARGS__,x)", "(x,...) x##__VA_ARGS__", "(x,...) __VA_ARGS__ __VA_ARGS__", "(x,...) __VA_OPT__((x))[__VA_ARGS__]", "(x,...) __VA_OPT__(a) x", "(x,...) __VA_OPT__(f2(x,1)) x"}; ts("#define f"); ts(PICK(D)); ts("\n#define f2(x,y) y x\n#define a 1,2\n#define b 3\nf("); fr("ab,( ", NM); ts(")\n"); check(0); }
static void t_redef(void) { ts("#define a 1\n"); static const char *const D[] = {"#undef a\n", "#undef b\n", "#define b a\n", "#undef a\n#define a 2\n", "#define c(x) x a\n", "#undef c\n", "#define a(x) a\n", "#undef\n", "#undef 1\n", "#define b(x\n", "#define 1\n", "#define b(x,,y)\n", "#define b(1)\n"}; for (int i = 0; i < 3; i++) { ts(PICK(D)); ts("a b c(a)\n"); } check(LINES); }
// ---- text, comments, continuation lines
static void t_text(void) { ts("#define a 1\n"); static const char *const P[] = {"\"a\"", "'a'", "/* a */", "// a", "\"/*\"", "'\\''", "a", "/", "*", "\n", "/* \n a */", "\"\\\"a\"", "L\"a\"", "a.a", "a1", "1a", "1.a", "/**/", "/***/", "a/**/a", "'\"'", "\\\n", "/\\\n* a */", "a\\\na"}; for (int i = 0; i < 3; i++) ts(PICK(P)); ts("\na\n"); check(0); }
static void t_comment_free(void) { ts("#define a 1\n"); ts("/*"); fr("*/ \n\"a", NM); ts("*/a\na"); tc('\n'); check(LINES); }
static void t_comment_def(void) { static const char *const C[] = {"", "/**/", "/* \n */", "// c", "\\\n", " \\\n ", "/* x */ /* y */", "\t"}; int i = symx_choose(8); if (i == 2) i = 0; ts(C[i]); if (i == 3) tc('\n'); tc('#'); i = symx_choose(8); if (i == 2 || i == 3) i = 1; ts(C[i]); ts("define "); i = symx_choose(8); if (i == 3 || i == 2) i = 0; ts(C[i]); ts("a b"); ts(PICK(C)); if (symx_choose(2)) ts("c"); ts("\na a\n"); check(LINES * 0); }
static void t_splice(void) { static const char S[] = "#define ab 1\nab \"s\" // c\nab\n"; int i = symx_choose(sizeof S - 1); for (int k = 0; S[k]; k++) { if (k == i) ts("\\\n"); tc(S[k]); } check(0); }
static void t_noeol(void) { ts("#define a 1\n"); static const char *const P[] = {"a", "#define b", "\"x\"", "// c", "/* c */", "#", "", "a \\\n", " "}; ts(PICK(P)); check(LINES); }
static void t_lines(void) { static const char *const P[] = {"x\n", "\n", "\n\n\n\n\n\n", "/*\n\n*/\n", "#if 0\nq\n#endif\n", "#if 0\n\n\n\n\n\n\n#endif\n", "#define z z\n", "__LINE__\n", "#line 30\n", "#line 7 \"u.c\"\n", "#define z a\\\nb\n", "z __LINE__ z __FILE__\n", "// c\n", "/* c */ w\n", "#pragma once\n", "#\n"}; for (int i = 0; i < NL; i++) ts(PICK(P)); ts("e __LINE__\n"); check(LINES); }
static void t_lines_arg(void) { ts("#define f(x) x __LINE__\n#define l __LINE__\n"); static const char *const P[] = {"f(1)\n", "l\n", "\n", "f(l)\n", "f(__LINE__)\n", "#line 9\n", "#if __LINE__ == 4\nk\n#endif\n"}; for (int i = 0; i < 4; i++) ts(PICK(P)); check(LINES); }
static void t_error(void) { static const char *const P[] = {"#error x", "#foo", "# define a 1", "#else", "#endif", "#elif 1", "/* x", "#if 1", "#include \"none\"", "#include <none>", "#include none", "#define f(", "#ifdef", "#ifndef 1", "#line", "#line x", "#define f(x) x\nf(1", "#define f(x) x\nf(1,2)", "#define f(x,y) x\nf(1)", "#define f() 1\nf(1)", "#define f() 1\nf()", "#define f(x) x\nf()", "#if 0\n#else\n#else\n#endif", "#if 0\n#else\n#elif 1\n#endif", "#if defined(\n#endif", "#ifdef a b\n#endif"}; int i = symx_choose(26); ts(P[i]); tc('\n'); if (i == 25) symx_path_end("extra tokens"); check(0); }
// ---- #include
static void inc(const char *n, const char *t) { vf[nvf].name = n; vf[nvf++].text = t; }
static const char *const HB_[] = {"h\n", "#pragma once\nh\n", "#ifndef G\n#define G\nh\n#endif\n", "#define M 2\n", "h __LINE__ __FILE__\n", "#include \"k.h\"\nh\n", "#ifdef M\nm\n#else\nn\n#endif", "#undef M\n\n\n", "#include <k.h>\n#include <k.h>\n"};
static void t_include(void) { add_inc_path(INC_NORMAL, "/i/a"); add_inc_path(INC_SYSTEM, "/i/b");
  inc("/w/h.h", PICK(HB_)); if (symx_choose(2)) inc("/i/a/k.h", "ka __LINE__\n"); inc("/i/b/k.h", symx_choose(2) ? "#pragma once\nkb\n" : "kb\n"); inc("/i/b/h.h", "other\n");
  static const char *const L[] = {"#include \"h.h\"\n", "#include <h.h>\n", "#include \"k.h\"\n", "#include <k.h>\n", "#define M 1\n", "M\n", "#define I <k.h>\n#include I\n", "#define J \"h.h\"\n#include J\n#undef J\n", "x __LINE__\n", "#include \"none.h\"\n"}; for (int i = 0; i < NL - 1; i++) ts(PICK(L)); ts("M __LINE__ __FILE__\n"); check(LINES); }
static void t_include_dir(void) { add_inc_path(INC_NORMAL, "/i/a"); inc("/w/d/h.h", "#include \"s.h\"\n"); if (symx_choose(2)) inc("/w/d/s.h", "near\n"); if (symx_choose(2)) inc("/w/s.h", "top\n"); if (symx_choose(2)) inc("/i/a/s.h", "path\n"); ts("#include \"d/h.h\"\n#include \"s.h\"\n"); check(LINES); }
#define F(n) {#n, t_##n}
static const struct { const char *n; void (*f)(void); } T[] = {F(if_unary), F(if_binary), F(if_prec), F(if_truth), F(if_wide), F(if_wide2), F(if_ternary), F(if_char), F(if_macro), F(cond), F(cond_nested), F(cond_nested2), F(skipped), F(elif_taken), F(obj), F(obj_text), F(obj_paste), F(fn), F(fn2), F(fn_nest), F(fn_free), F(fn_lines), F(stringize), F(str_char), F(paste), F(variadic), F(redef), F(text), F(comment_free), F(comment_def), F(splice), F(noeol), F(lines), F(lines_arg), F(error), F(include), F(include_dir)};
void harness(void) { unsigned i = ONLY < 0 ? symx_choose(sizeof T / sizeof *T) : ONLY; symx_label(T[i].n); T[i].f(); symx_cover(T[i].n); symx_path_end(T[i].n); }
