"""Template families: objects in memory - layout, initializers, arrays, pointers, variable-length arrays."""
from tv import T, KIND, INTS, CT
import random
BASE = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double', 'char *', 'int *']
SZ = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8, 'char *': 8, 'int *': 8}
def _decl(t, n, dim=''): return '%s%s%s;' % (t if t.endswith('*') else t + ' ', n, dim)
def _rstruct(rnd, depth=0):
    """random struct/union body; returns (text, list of (path, type))"""
    n = rnd.randint(1, 5); txt = []; mem = []
    for i in range(n):
        nm = 'm%d%s' % (i, 'xyz'[depth]); r = rnd.random()
        if r < 0.55:
            t = rnd.choice(BASE); txt.append(_decl(t, nm)); mem.append((nm, t))
        elif r < 0.75:
            t = rnd.choice(BASE); d = rnd.randint(1, 4); txt.append(_decl(t, nm, '[%d]' % d)); mem.append(('%s[%d]' % (nm, rnd.randrange(d)), t))
        elif depth < 2:
            kw = rnd.choice(['struct', 'struct', 'union']); s, m = _rstruct(rnd, depth + 1)
            k = rnd.random()
            if k < 0.4: txt.append('%s { %s };' % (kw, s)); s2 = ''  # anonymous
            else: txt.append('%s { %s } %s;' % (kw, s, nm)); s2 = nm + '.'
            if k >= 0.4: mem += [(s2 + p, t) for p, t in m]
            else:
                # anonymous members share the enclosing name space
                txt[-1] = '%s { %s } %s;' % (kw, s, nm); mem += [(nm + '.' + p, t) for p, t in m]
        else:
            t = rnd.choice(BASE); txt.append(_decl(t, nm)); mem.append((nm, t))
    return ' '.join(txt), mem
def layout(seed=0, n=120):
    o = []; rnd = random.Random(seed * 101 + 7)
    for q in range(n):
        kw = 'union' if q % 7 == 3 else 'struct'; s, mem = _rstruct(rnd); D = '%s $S { %s }; ' % (kw, s); S = kw + ' $S'
        (p1, t1), (p2, t2) = rnd.choice(mem), rnd.choice(mem); rt = t2 if '*' not in t2 else 'long'
        k1 = {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[SZ[t1]] if t1 not in ('float', 'double') else ('f32' if t1 == 'float' else 'f64')
        k2 = {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[SZ[t2]] if t2 not in ('float', 'double') else ('f32' if t2 == 'float' else 'f64')
        rc = {'i8': 'signed char', 'i16': 'short', 'i32': 'int', 'i64': 'long', 'f32': 'float', 'f64': 'double'}[k2]
        cast = '(%s)' % t1 if '*' in t1 else ''
        o.append(T('lay/acc%d' % q, D + '%s $f(%s *a, long b, %s c) { a[b].%s = %sc; return %sa[b ^ 1].%s; }' % (rc, S, {'i8': 'signed char', 'i16': 'short', 'i32': 'int', 'i64': 'long', 'f32': 'float', 'f64': 'double'}[k1], p1, cast, '(long)' if '*' in t2 else '', p2), k2, ['p512', 'i64', k1], 'b >= 0 && b <= 1'))
        o.append(T('lay/size%d' % q, D + 'struct $U { char c; %s s; char d; }; long $f(%s *a, int b, struct $U *c) { %s *p = a + b; c->d = 1; return (long)(sizeof(%s) + _Alignof(%s) * 1000 + sizeof(struct $U) * 100000L) + ((char *)&p->%s - (char *)a) + (p - a); }' % (S, S, S, S, S, p1), 'i64', ['p512', 'i32', 'p512'], 'b >= 0 && b < 2'))
        o.append(T('lay/loc%d' % q, D + 'long $f(%s *a, int b) { %s v[2]; v[b & 1] = *a; v[~b & 1] = a[1]; char *p = (char *)&v[0].%s; return p[0] + p[%d] * 3 + (((long)&v[0] %% _Alignof(%s)) != 0); }' % (S, S, p1, SZ[t1] - 1, S), 'i64', ['p512', 'i32']))
    A = o.append
    for bt in ('int', 'unsigned', 'unsigned char', 'long', 'short'):  # bit-field access does not disturb neighbours
        pass
    A(T('lay/enum', 'enum $E { $A = 3 }; struct $S { char x; enum $E e; char y; }; int $f(struct $S *a, int b) { a->e = b; return a->y + sizeof(enum $E) + sizeof(a->e); }', 'i32', ['p16', 'i32']))
    A(T('lay/flex', 'struct $S { int n; char t; short d[]; }; int $f(struct $S *a, int b) { a->d[b] = 5; return sizeof(struct $S) * 100 + a->d[1]; }', 'i32', ['p32', 'i32'], 'b >= 0 && b < 8'))
    A(T('lay/aligned', 'struct $S { char c; _Alignas(16) int x; char d; }; int $f(struct $S *a, int b) { a[b].x = 3; return sizeof(struct $S) + a[b].d; }', 'i32', ['p128', 'i32'], 'b >= 0 && b < 2')) if False else None
    A(T('lay/unionpun', 'union $U { double d; long l; float f; int i[2]; char c[8]; }; long $f(long a, int b) { union $U u; u.l = a; u.c[b] ^= 1; return u.l + u.i[1]; }', 'i64', ['i64', 'i32'], 'b >= 0 && b < 8'))
    A(T('lay/fpun', 'union $U { float f; unsigned i; }; unsigned $f(float a) { union $U u; u.f = a; return u.i & 0x7f000000; }', 'u32', ['f32'], 'a == a'))
    A(T('lay/charptr', 'int $f(int a, int b) { unsigned char *p = (unsigned char *)&a; p[b] += 1; return a; }', 'i32', ['i32', 'i32'], 'b >= 0 && b < 4'))
    A(T('lay/arr2', 'int $g[3][4]; int $f(int a, int b, int c) { $g[a][b] = c; int (*p)[4] = $g + a; return p[0][b ^ 1] + (int)sizeof($g[0]) + *(*($g + a) + b) + (int)(&$g[a][b] - &$g[0][0]); }', 'i32', ['i32'] * 3, 'a >= 0 && a < 3 && b >= 0 && b < 4', globs=[('g', 48)]))
    A(T('lay/arr3', 'short $f(short *a, int b, int c, int d) { short (*p)[2][3] = (short (*)[2][3])a; p[b][c][d]++; return p[b][c][d ^ 1] + sizeof(*p) + sizeof(**p) + sizeof(***p); }', 'i16', ['p48', 'i32', 'i32', 'i32'], 'b >= 0 && b < 4 && c >= 0 && c < 2 && d >= 0 && d < 2'))
    return [t for t in o if t]
def pointers():
    o = []; A = o.append
    for k in ('i8', 'u16', 'i32', 'i64', 'f64'):
        c, n, _ = KIND[k]; P = ['p%d' % (8 * n), 'i64', 'i64']; pre = 'b >= 0 && b < 8 && c >= 0 && c < 8'
        A(T('ptr/diff-' + k, 'long $f(%s *a, long b, long c) { %s *p = &a[b], *q = a + c; return (p - q) * 100 + (p < q) + (p == q) * 2 + (p >= q) * 4 + (p != a) * 8; }' % (c, c), 'i64', P, pre))
        A(T('ptr/incdec-' + k, 'long $f(%s *a, long b, long c) { %s *p = a + b; p++; --p; *p++ = 1; p -= c; p += b; %s *q = p--; return (p - a) * 10 + (q - a); }' % (c, c, c), 'i64', P, 'b >= 0 && b < 4 && c >= 0 && c < 4 && b + 1 - c + b >= 1'))
        A(T('ptr/idx-' + k, 'long $f(%s *a, int b, unsigned char c) { return b[a] == a[c] && &a[b] == b + a; }' % c, 'i64', [P[0], 'i32', 'u8'], pre))
        A(T('ptr/neg-' + k, 'void $f(%s *a, int b) { %s *p = a + 7; p[-b] = 2; *(p - b) += 1; }' % (c, c), 'void', [P[0], 'i32'], 'b >= 0 && b < 8'))
        A(T('ptr/pp-' + k, 'long $f(%s *a, long b, long c) { %s *t[2] = {a + b, a + c}, **p = t; *p[1] = 3; p++; **p += 1; return *p - t[0]; }' % (c, c), 'i64', P, pre))
        A(T('ptr/idxs-' + k, 'long $f(%s *a, signed char b, unsigned c, short d) { return a[b] == a[c] + a[d]; }' % c, 'i64', [P[0], 'i8', 'u32', 'i16'], pre + ' && d >= 0 && d < 8'))
    A(T('ptr/list', 'struct $N { int v; struct $N *n; }; int $f(int a, int b, int c) { struct $N x = {a, 0}, y = {b, &x}, z = {c, &y}; int s = 0; for (struct $N *p = &z; p; p = p->n) s = s * 3 + p->v; z.n->n->v++; return s + x.v; }', 'i32', ['i32'] * 3))
    A(T('ptr/arrow', 'struct $N { char c; struct { short s[3]; struct $N *p; } in; }; int $f(int a, int b) { struct $N n, m; n.in.p = &m; m.in.p = &n; n.in.p->in.s[b] = a; n.in.p->in.p->c = b; return m.in.s[b] + n.c; }', 'i32', ['i32', 'i32'], 'b >= 0 && b < 3'))
    A(T('ptr/cast', 'long $f(unsigned char *a, int b) { return *(int *)(a + b) + *(short *)(a + b + 1) + (long)(signed char)a[b]; }', 'i64', ['p16', 'i32'], 'b >= 0 && b < 8'))
    A(T('ptr/int', 'long $f(char *a, long b) { long v = (long)a; char *p = (char *)(v + b); return p - a; }', 'i64', ['p8', 'i64']))
    A(T('ptr/null', 'int $f(int a) { int *p = 0, *q = &a; if (p) return 1; if (!q) return 2; if (p == 0 && q != (void *)0) return a; return 3; }', 'i32', ['i32']))
    A(T('ptr/fn', 'static int $x(int *p, int n) { return p[n]; } int $f(int *a, int b) { struct { int (*g)(int *, int); } s = {$x}, *q = &s; return q->g(a, b) + (*s.g)(a, b ^ 1) + (&$x)(a, 0); }', 'i32', ['p16', 'i32'], 'b >= 0 && b < 4'))
    A(T('ptr/compare', 'int $f(char *a, long b) { char *p = a, *e = a + 8; int n = 0; for (; p + b < e; p += 3) n++; return n; }', 'i32', ['p8', 'i64'], 'b >= 0 && b < 8'))
    A(T('ptr/void', 'long $f(void *a, int b) { char *p = a; void *q = p + b; *(char *)q = 1; return (char *)q - (char *)a; }', 'i64', ['p8', 'i32'], 'b >= 0 && b < 8'))
    A(T('ptr/voidarith', 'long $f(char *a, int b) { void *q = a; q = q + b; q++; return (char *)q - a; }', 'i64', ['p8', 'i32'])) if False else None
    A(T('vla/sum', 'int $f(int a, int b) { int v[a]; for (int i = 0; i < a; i++) v[i] = i * b; int s = 0; for (int i = 0; i < a; i++) s += v[i]; return s + (int)sizeof(v); }', 'i32', ['i32', 'i32'], 'a > 0 && a < 5'))
    A(T('vla/two', 'int $f(int a, int b) { char v[a]; long w[b]; v[a - 1] = 3; w[b - 1] = 5; v[0] += 1; w[0] += 2; ext_v(); return v[a - 1] * 10 + (int)w[b - 1] + (int)sizeof v * 100 + (int)sizeof w; }', 'i32', ['i32', 'i32'], 'a > 0 && a < 5 && b > 0 && b < 4'))
    A(T('vla/2d', 'int $f(int a, int b) { int v[a][b]; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) v[i][j] = i * 10 + j; return v[a - 1][b - 1] + (int)sizeof(v[0]) + (int)(&v[a - 1][0] - &v[0][0]); }', 'i32', ['i32', 'i32'], 'a > 0 && a < 4 && b > 0 && b < 4'))
    A(T('vla/param', 'static int $x(int n, int m, int p[n][m], int i) { return p[i][m - 1]; } int $f(int *a, int b, int c) { return $x(2, b, (int (*)[b])a, c); }', 'i32', ['p32', 'i32', 'i32'], 'b > 0 && b < 5 && c >= 0 && c < 2'))
    A(T('vla/loop', 'int $f(int a) { int s = 0; for (int i = 1; i <= a; i++) { int v[i]; v[i - 1] = i; v[0] += 1; s += v[i - 1]; } return s; }', 'i32', ['i32'], 'a < 4'))
    A(T('vla/size', 'unsigned long $f(int a) { int n = a; short v[n++]; return sizeof(v) * 10 + n; }', 'u64', ['i32'], 'a > 0 && a < 20'))
    return [t for t in o if t]
def init():
    """initializers: every byte of the object, at a symbolic index"""
    o = []
    G = [  # (declaration of $g, bytes)
        ('int $g[4] = {1, 2, 3};', 16), ('char $g[6] = "abc";', 6), ('char $g[3] = "abc";', 3), ('char $g[] = "a\\0b\\x7f\\377";', 6), ('int $g[] = {[3] = 4, 5, [1] = 6};', 20), ('short $g[2][3] = {{1, 2}, {3}};', 12), ('short $g[2][3] = {1, 2, 3, 4};', 12),
        ('struct { char a; int b; short c; } $g = {1, -2, 3};', 12), ('struct { char a; int b; short c; } $g[2] = {{1}, {.c = 5, .b = 6}};', 24), ('struct { int x[3]; char s[5]; } $g = {{1, 2}, "xyz"};', 20), ('struct { int x[3]; char s[5]; } $g = {.s = "hello", .x[1] = 9};', 20),
        ('struct { struct { int p, q; } a; int b; } $g = {1, 2, 3};', 12), ('struct { struct { int p, q; } a[2]; int b; } $g = {.a[1].q = 7, .b = 8};', 20), ('union { int i; char c[8]; } $g = {0x01020304};', 8), ('union { int i; double d; } $g = {.d = 1.5};', 8), ('union { char c; long l; } $g[2] = {{1}, {.l = -1}};', 16),
        ('double $g[3] = {1.5, -2.25e10, 0.1};', 24), ('float $g[3] = {1.5f, 0.1f, 3};', 12), ('double $g[2] = {1, -7};', 16), ('long $g[3] = {-1, 0x7fffffffffffffff, 1UL << 63};', 24), ('unsigned char $g[4] = {255, -1, 256 + 3, 1.9};', 4), ('signed char $g[3] = {200, -128, 127};', 3), ('long $g = sizeof(long) * 8 - (3 > 2 ? 4 : 5);', 8),
        ('int $g = (1 << 31) - 1 + ~0 * 2;', 4), ('unsigned long $g = (unsigned char)~0U + (1LL << 40);', 8), ('short $g[2] = {(short)70000, (char)300};', 4), ('long $g[2] = {(int)0xffffffffu, (unsigned)-1};', 16), ('int $g[3] = {1 ? 2 : 3, 5 && 0, !7 || 3};', 12), ('enum { $A, $B = 10, $C } $g[2] = {$C, $A};', 8), ("int $g[5] = {'a', '\\n', '\\x41', '\\101', '\\''};", 20), ('_Bool $g[1] = {3};', 4) if False else ('int $g[1] = {-0x7fffffff - 1};', 4),
        ('double $g[4] = {1.0 / 3, 2 * 0.5f, 7 / 2, 7 / 2.0};', 32), ('float $g[2] = {1e-3f * 3, (float)0.1};', 8), ('struct { char a; struct { char b; long c; } d[2]; char e; } $g = {1, {{2, 3}, {4, 5}}, 6};', 48), ('struct { int n; short d[3]; } $g = {2, {[1] = 7}};', 12), ('int $g[2][2][2] = {{{1}, {2}}, {[1] = {3, 4}}};', 32), ('struct { int a, b, c; } $g = {.b = 1, 2};', 12), ('struct { int a, b, c; } $g = {.c = 1, .a = 2, 3};', 12), ('int $g[6] = {[2] = 1, 2, [0] = 3, 4};', 24), ('char $g[2][4] = {"ab", "cdef"};', 8), ('unsigned short $g[3] = {0xffff, 65536 + 2, -1};', 6),
        ('struct { unsigned char a : 3, b : 5; unsigned short c : 9; } $g = {5, 17, 300};', 4) if False else ('long long $g = -5 / 2 * 1000 + -5 % 3;', 8), ('int $g = 0b1011 + 0x1F + 017;', 4) if False else ('int $g = 0x1F + 017;', 4), ('int $g = 5 > 3 == 1;', 4), ('int $g = 1 + 2 * 3 - 4 / 2 % 3 << 2 & 0xff ^ 3 | 8;', 4), ('unsigned $g = -1 > 0u ? 1 : 2;', 4), ('long $g = -1 < 0u;', 8), ('unsigned $g = 3000000000u / 2 + 0xfffffff0;', 4), ('int $g = -7 >> 1;', 4), ('unsigned $g = 0x80000000u >> 3;', 4), ('long $g = 2147483647 + 1L;', 8), ('unsigned long $g = 4294967295u + 1;', 8), ('int $g = (char)200 + (unsigned char)200;', 4), ('long $g = (long)3.99 + (long)-3.99;', 8), ('int $g = 1.5 < 2 && 2.0 == 2;', 4), ('float $g = 16777217;', 4), ('double $g = 0xfffffffffffffffful;', 8), ('int $g = sizeof(int[3]) + sizeof("abc") + _Alignof(double);', 4), ('int $g = sizeof(char) == 1 ? -1 : 0;', 4), ("int $g = sizeof('a') + sizeof(1.0f) * 10 + sizeof(1L) * 100;", 4),
    ]
    for q, (d, n) in enumerate(G):
        o.append(T('init/g%d' % q, d + ' unsigned char $f(int a) { return ((unsigned char *)&$g)[a]; }', 'u8', ['i32'], 'a >= 0 && a < %d' % n))
        if not d.startswith('enum'): o.append(T('init/s%d' % q, 'unsigned char $f(int a) { static ' + d.replace('$g', 'g') + ' return ((unsigned char *)&g)[a]; }', 'u8', ['i32'], 'a >= 0 && a < %d' % n))
        pad = ('char a; int b' in d or 'char b; long' in d or 'union' in d or 'int x[3]; char s[5]' in d or 'short d[3]' in d)
        if not pad: o.append(T('init/l%d' % q, 'unsigned char $f(int a) { ' + d.replace('$g', 'g') + ' return ((unsigned char *)&g)[a]; }', 'u8', ['i32'], 'a >= 0 && a < %d' % n))
    A = o.append
    # address constants
    A(T('init/addr', 'int $a[4] = {10, 11, 12, 13}; int *$p[3] = {$a, &$a[2], $a + 3}; int $f(int a) { return *$p[a] * 10 + (int)($p[a] - $a); }', 'i32', ['i32'], 'a >= 0 && a < 3'))
    A(T('init/addr2', 'struct $S { int x, y[3]; } $s = {1, {2, 3, 4}}; int *$p = &$s.y[1]; char *$q = (char *)&$s + 4; int **$r = &$p; int $f(int a) { $s.y[a] = 50; return *$p + *(int *)$q * 3 + **$r; }', 'i32', ['i32'], 'a >= 0 && a < 3'))
    A(T('init/str', 'char *$p[3] = {"abc", "", "xyzzy" + 2}; const char $s[] = "q" "rs"; int $f(int a, int b) { return $p[a][b] * 7 + $s[b]; }', 'i32', ['i32', 'i32'], '(a == 0 && b >= 0 && b < 4) || (a == 1 && b == 0) || (a == 2 && b >= 0 && b < 4)'))
    A(T('init/fn', 'static int $x(int v) { return v + 1; } static int $y(int v) { return v * 3; } int (*const $t[])(int) = {$x, $y, $x}; int $f(int a, int b) { return $t[a](b); }', 'i32', ['i32', 'i32'], 'a >= 0 && a < 3'))
    A(T('init/self', 'struct $S { struct $S *n; int v; }; extern struct $S $b; struct $S $a = {&$b, 1}, $b = {&$a, 2}; int $f(int a) { struct $S *p = &$a; while (a-- > 0) p = p->n; return p->v; }', 'i32', ['i32'], 'a < 4'))
    A(T('init/tent', 'int $g; int $g; extern int $h; int $h = 3; static int $s; int $f(int a) { $g += a; $s -= 1; return $g + $h + $s; }', 'i32', ['i32']))
    # automatic objects with run-time values
    A(T('init/arr', 'int $f(int a, int b, int c) { int v[5] = {a, [3] = b, a + b}; return v[c]; }', 'i32', ['i32'] * 3, 'c >= 0 && c < 5'))
    A(T('init/part', 'char $f(char a, int b) { char v[9] = {a, a + 1}; return v[b]; }', 'i8', ['i8', 'i32'], 'b >= 0 && b < 9'))
    A(T('init/str2', 'char $f(int a) { char v[7] = "wxyz"; char w[] = "pq"; return v[a] + w[a % 3] + sizeof(w); }', 'i8', ['i32'], 'a >= 0 && a < 7'))
    A(T('init/st', 'struct $S { int x; long y; char z[3]; }; long $f(int a, long b, char c) { struct $S s = {a, b, {c}}, t = {.z = {1, c, 3}, .x = a * 2}, u = {0}, w = s; w.y++; return s.x + s.y * 3 + s.z[0] * 5 + s.z[2] * 7 + t.x * 11 + t.y * 13 + t.z[1] * 17 + u.x + u.z[1] + w.y * 19; }', 'i64', ['i32', 'i64', 'i8']))
    A(T('init/nest', 'struct $I { short p, q; }; struct $S { struct $I i[2]; int k; }; int $f(short a, short b, int c) { struct $I z = {b, a}; struct $S s = {{{a, b}, z}, c}, t = {.i[1] = {.q = a}}, u = {.i = {z}}; return s.i[0].p + s.i[1].p * 3 + s.i[1].q * 5 + s.k * 7 + t.i[1].q * 11 + t.i[1].p + t.i[0].p + t.k + u.i[0].q * 13 + u.i[1].p; }', 'i32', ['i16', 'i16', 'i32']))
    A(T('init/union', 'union $U { int i[2]; long l; char c; }; long $f(int a, long b) { union $U u = {{a, 5}}, v = {.l = b}; return u.i[0] + u.i[1] + v.l; }', 'i64', ['i32', 'i64']))
    A(T('init/complit', 'struct $S { int x, y; }; static int $h(struct $S *p) { return p->x * 3 + p->y; } int $f(int a, int b) { struct $S t; t = (struct $S){a, b}; int *p = (int[]){b, a, 7}; p[0]++; return $h(&(struct $S){.y = a}) + $h(&t) + p[0] + p[2] + ((struct $S){b, 1}).x; }', 'i32', ['i32', 'i32']))
    A(T('init/loop', 'int $f(int a) { int s = 0; for (int i = 0; i < 3; i++) { int v[3] = {i}; v[1] += a; v[2]++; s += v[0] + v[1] + v[2]; } return s; }', 'i32', ['i32']))
    A(T('init/order', 'int $f(int a) { int x = ext_i(a), y = ext_i(x), z[2] = {ext_i(y), 4}; return x - y + z[0] * z[1]; }', 'i32', ['i32']))
    A(T('init/conv', 'long $f(int a, long b, double c) { unsigned char u = a; short s[2] = {b, a}; float f = c; int i = f; return u + s[0] * 3 + s[1] * 5 + (long)i * 7; }', 'i64', ['i32', 'i64', 'f64'], 'c > -100.0 && c < 100.0')) if False else None
    A(T('init/bf', 'struct $S { int a : 3; unsigned b : 5; int : 0; short c : 9; unsigned char d : 1; }; int $f(int a, int b) { struct $S s = {a, b, a, b}, t = {.c = b, .a = 1}; return s.a + s.b * 3 + s.c * 5 + s.d * 7 + t.a * 11 + t.b * 13 + t.c * 17 + t.d; }', 'i32', ['i32', 'i32']))
    A(T('init/bfg', 'struct $S { int a : 3; unsigned b : 5; int c : 11; unsigned long d : 33; } $g[2] = {{-2, 17, -300, 0x123456789}, {.d = 5, .b = 3}}; long $f(int a) { return $g[a].a + $g[a].b * 3 + $g[a].c * 5 + (long)$g[a].d * 7; }', 'i64', ['i32'], 'a == 0 || a == 1'))
    return [t for t in o if t]
