"""Template families: function calls and the calling convention."""
from tv import T, KIND, INTS, CT
import random
SC = INTS + ['f32', 'f64']  # _Bool occupies an int in this implementation: not shared with other compilers
def _sto(ks, c='abcdefghijklmnopqrst'):
    """statements that record every parameter"""
    return ''.join('$%s[%d] = %s; ' % ('o' if k in ('f32', 'f64') else 'q', i, v) for i, (k, v) in enumerate(zip(ks, c)))
def scalars(seed=0, n=60):
    """callees called with the reference convention, and callers of reference callees"""
    o = []; rnd = random.Random(seed * 31 + 5)
    sigs = [['i32'] * m for m in (0, 1, 5, 6, 7, 8, 9)] + [['i64'] * 8, ['u8'] * 9, ['i16'] * 9, ['f64'] * 9, ['f32'] * 10, ['f64', 'i32'] * 7, ['i8', 'f32'] * 7, ['f64'] * 8 + ['i32', 'f64', 'i64'], ['i32'] * 6 + ['f64', 'i8', 'f32', 'u16'], ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64']]
    while len(sigs) < n: sigs.append([rnd.choice(SC) for _ in range(rnd.randint(1, 14))])
    for q, ks in enumerate(sigs):
        N = 'abcdefghijklmnopqrst'[:len(ks)]; P = ', '.join('%s %s' % (CT[k], v) for k, v in zip(ks, N)) or 'void'
        G = 'double $o[14]; long $q[14]; '; X = 'extern double $o[14]; extern long $q[14]; '; g = [('o', 112), ('q', 112)]
        o.append(T('abi/callee%d' % q, G + 'void $f(%s) { %s }' % (P, _sto(ks)), 'void', ks, globs=g))
        # caller: xcc code calls a gcc-compiled function, permuting the arguments
        perm = list(range(len(ks))); rnd.shuffle(perm); pk = [ks[i] for i in perm]; pn = [N[i] for i in perm]; PP = ', '.join('%s %s' % (CT[k], v) for k, v in zip(pk, pn)) or 'void'
        rk = rnd.choice(['i32', 'u64', 'i8', 'u16']) ; rt = CT[rk]
        ie = [v for k, v in zip(pk, pn) if k not in ('f32', 'f64')]; ie = ie[-1] if ie else '5'
        o.append(T('abi/caller%d' % q, G + 'extern %s $h(%s); long $f(%s) { return (long)$h(%s) + 1; }' % (rt, PP, P, ', '.join(pn)), 'i64', ks, globs=g, comp=X + '%s $h(%s) { %s return %s; }' % (rt, PP, _sto(pk, pn), ie)))
        if q % 3 == 0:  # conversions at the call
            to = [rnd.choice(['i32', 'u64', 'i8', 'u16', 'i64'] if k not in ('f32', 'f64') else ['f32', 'f64']) for k in ks]
            o.append(T('abi/conv%d' % q, G + 'extern void $h(%s); void $f(%s) { $h(%s); }' % (', '.join('%s %s' % (CT[k], v) for k, v in zip(to, N)) or 'void', P, ', '.join(N)), 'void', ks, globs=g,
                       comp=X + 'void $h(%s) { %s }' % (', '.join('%s %s' % (CT[k], v) for k, v in zip(to, N)) or 'void', _sto(to))))
    for k in SC:
        c = CT[k]
        o.append(T('abi/ret-' + k, '%s $f(%s *a, int b) { return a[b]; }' % (c, c), k, ['p32', 'i32'], 'b >= 0 && b < 4' + (' && ((unsigned char *)a)[0] < 2 && ((unsigned char *)a)[1] < 2 && ((unsigned char *)a)[2] < 2 && ((unsigned char *)a)[3] < 2' if k == 'bool' else '')))
        o.append(T('abi/retcall-' + k, 'extern %s $h(%s); %s $f(%s a) { %s r = $h(a); ext_v(); return r; }' % (c, c, c, c, c), k, [k], comp='%s $h(%s x) { return x; }' % (c, c)))
        o.append(T('abi/fptr-' + k, '%s $f(%s a, %s b, int c) { extern %s $x(int, %s), $y(int, %s); %s (*p)(int, %s) = c ? $x : $y; %s r = p(c, a); return c > 5 ? r : (*p)(c, b); }' % (c, c, c, c, c, c, c, c, c), k, [k, k, 'i32'], comp='%s $x(int q, %s v) { ext_i(q); return v; } %s $y(int q, %s v) { ext_i(q + 1); return v; }' % (c, c, c, c)))
    o.append(T('abi/retptr', 'char *$f(char *a, long b) { return &a[b]; }', 'p', ['p16', 'i64']))
    # values live across calls, with pressure, and alignment of the stack at calls
    for n in (1, 3, 6, 9, 14, 20):
        o.append(T('abi/live%d' % n, 'long $f(long *a) { %s ext_v(); %s return %s; }' % (''.join('long v%d = a[%d]; ' % (i, i % 8) for i in range(n)), 'long w = ext_i(%s); ' % 'v0', ' ^ '.join('v%d * %d' % (i, 2 * i + 1) for i in range(n)) + ' ^ w'), 'i64', ['p64']))
        o.append(T('abi/live2-%d' % n, 'long $f(int a, long b) { %s for (int i = 0; i < 2; i++) { %s = ext_l(%s, i); %s } return %s; }' % (''.join('long v%d = b * %d + a; ' % (i, i + 1) for i in range(n)), 'v%d' % (n // 2), 'v%d' % (n - 1), ''.join('v%d += v%d; ' % (i, (i + 1) % n) for i in range(n)), ' - '.join('v%d' % i for i in range(n))), 'i64', ['i32', 'i64']))
        o.append(T('abi/argn%d' % n, 'static long $h(%s) { return %s; } long $f(long *a) { return $h(%s) - $h(%s); }' % (', '.join('long v%d' % i for i in range(n)), ' ^ '.join('v%d * %d' % (i, 2 * i + 1) for i in range(n)), ', '.join('a[%d]' % (i % 8) for i in range(n)), ', '.join('a[%d] + 1' % ((i * 3 + 1) % 8) for i in range(n))), 'i64', ['p64']))
        o.append(T('abi/nest%d' % n, 'static long $h(%s) { ext_v(); return %s; } long $f(long a, long b) { return $h(%s); }' % (', '.join('long v%d' % i for i in range(n)), ' ^ '.join('v%d * %d' % (i, 2 * i + 1) for i in range(n)), ', '.join('ext_l(a, b)' if i == n - 1 else 'a + %d' % i for i in range(n))), 'i64', ['i64', 'i64']))
        o.append(T('abi/buf%d' % n, 'long $f(long a) { char buf[%d]; long s = a; for (int i = 0; i < %d; i++) buf[i] = a >> i; ext_v(); for (int i = 0; i < %d; i++) s = s * 3 + buf[i]; return s; }' % (n, n, n), 'i64', ['i64']))
    o.append(T('abi/swapargs', 'extern long $h(long, long, long, long, long, long); long $f(long a, long b, long c, long d, long e, long f) { return $h(f, e, d, c, b, a) + $h(b, c, d, e, f, a); }', 'i64', ['i64'] * 6, comp='long $h(long a, long b, long c, long d, long e, long f) { return (a ^ b << 1 ^ c << 2 ^ d << 3) + (e ^ f << 5); }'))
    o.append(T('abi/swapf', 'extern double $h(double, double, double, double); double $f(double a, double b, double c, double d) { return $h(d, a, b, c); }', 'f64', ['f64'] * 4, comp='double $h(double a, double b, double c, double d) { ext_d(a); ext_d(b); ext_d(c); return d; }'))
    o.append(T('abi/divargs', 'extern long $h(long, long, long, long); long $f(long a, long b, long c, long d) { return $h(a, b / c, d << (a & 7), c % 5); }', 'i64', ['i64'] * 4, 'c > 0', comp='long $h(long a, long b, long c, long d) { return (a ^ b << 1) + (c << 2 ^ d << 3); }'))
    return o
STRUCTS = ['char x;', 'short x; char y[2];', 'char x[3];', 'int x; char y[4];', 'int x, y;', 'char x[7];', 'long x;', 'double x;', 'float x, y;', 'char x[9];', 'int x, w; long y;', 'long x; char y[8];', 'char x[4]; int y; short z[2];', 'double x; int y, z;', 'int x[4];', 'float x; int y; double z;', 'long x, y;', 'char x[17];', 'long x, y, z;', 'int x[5]; char y[4];', 'double x, y, z; float w, v;', 'short x[13];', 'char x[40];', 'struct { char p[8]; long q; } x; short y[4];', 'union { int p[2]; double q; } x; char y[8];']  # no padding: its value is unspecified
def structs():
    o = []
    for i, s in enumerate(STRUCTS):
        D = 'struct $S { %s }; ' % s
        o.append(T('agg/pass%d' % i, D + 'static void $h(int q, struct $S v, struct $S *p) { *p = v; ext_i(q); } void $f(struct $S *a, struct $S *b, int c) { struct $S t = *a; $h(c, t, b); ((char *)&t)[0]++; $h(c + 1, *b, a); }', 'void', ['p64', 'p64', 'i32']))
        o.append(T('agg/ret%d' % i, D + 'static struct $S $h(struct $S *p, int q) { struct $S r = p[q & 1]; ext_v(); return r; } void $f(struct $S *a, struct $S *b, int c) { *b = $h(a, c); struct $S t; t = $h(b, 0); a[1] = t; }', 'void', ['p96', 'p96', 'i32']))
        o.append(T('agg/assign%d' % i, D + 'void $f(struct $S *a, struct $S *b, int c) { struct $S t[2]; t[0] = *a; t[1] = *b; struct $S u = t[c & 1], *p = &u; a[1] = *p; *b = c > 3 ? *a : t[0]; }', 'void', ['p96', 'p64', 'i32']))
        o.append(T('agg/glob%d' % i, D + 'struct $S $g; struct $S $k[2]; void $f(struct $S *a, int b) { $g = *a; $k[b & 1] = $g; *a = $k[0]; }', 'void', ['p64', 'i32'], globs=[('k', 16)] if i in (6, 7, 8) else ()))
        if i != 8: o.append(T('agg/chain%d' % i, D + 'static struct $S $h(struct $S v) { ((char *)&v)[0] ^= 1; return v; } char $f(struct $S *a) { struct $S x, y; x = y = $h($h(*a)); *a = y; struct $S *p = &x; struct $S z = *p; return ((char *)&z)[0] + *(char *)&x; }', 'i8', ['p64']))
        o.append(T('agg/many%d' % i, D + 'static long $h(int a, struct $S v, double d, struct $S w, long e) { char *p = (char *)&v, *q = (char *)&w; return p[0] + q[sizeof(w) - 1] * 3L + a * 5L + e; } long $f(struct $S *a, int b, long c) { return $h(b, *a, 1.0, a[1], c) - $h(b + 1, a[1], 2.0, *a, c); }', 'i64', ['p96', 'i32', 'i64']))
        o.append(T('agg/member%d' % i, D + 'static struct $S $h(struct $S *p) { return *p; } char $f(struct $S *a) { struct $S t = $h(a); return *(char *)&t; }', 'i8', ['p64']))
        if i >= 17 and i not in (23, 24):  # larger than two words: passed in memory by every compiler of this ABI
            o.append(T('agg/xcallee%d' % i, D + 'void $h(int q, struct $S v, struct $S *p, struct $S w) { p[0] = v; p[1] = w; ext_i(q); }', 'void', ['p96', 'p96', 'i32'], comp='extern void $h(int q, struct $S v, struct $S *p, struct $S w); void $f(struct $S *a, struct $S *b, int c) { $h(c, a[0], b, a[1]); }'))
            o.append(T('agg/xcaller%d' % i, D + 'extern void $h(int q, struct $S v, struct $S *p, struct $S w); void $f(struct $S *a, struct $S *b, int c) { $h(c, a[0], b, a[1]); }', 'void', ['p96', 'p96', 'i32'], comp='void $h(int q, struct $S v, struct $S *p, struct $S w) { p[0] = v; p[1] = w; ext_i(q); }'))
            o.append(T('agg/xret%d' % i, D + 'struct $S $h(struct $S *p, int q) { struct $S t = p[q]; ext_i(q); return t; }', 'void', ['p96', 'p96', 'i32'], 'c == 0 || c == 1', comp='extern struct $S $h(struct $S *p, int q); void $f(struct $S *a, struct $S *b, int c) { *b = $h(a, c); }'))
            o.append(T('agg/xretc%d' % i, D + 'extern struct $S $h(struct $S *p, int q); void $f(struct $S *a, struct $S *b, int c) { *b = $h(a, c); a[0] = $h(b, 0); }', 'void', ['p96', 'p96', 'i32'], 'c == 0 || c == 1', comp='struct $S $h(struct $S *p, int q) { ext_i(q); return p[q]; }'))
    return o
VA = ['int', 'long', 'unsigned', 'double', 'char *', 'unsigned long']
def varargs(seed=0, n=24):
    o = []; rnd = random.Random(seed * 17 + 3)
    sigs = [['int'] * k for k in (1, 5, 6, 9)] + [['double'] * k for k in (1, 8, 10)] + [['int', 'double'] * 7, ['long', 'int', 'double', 'unsigned'] * 3]
    while len(sigs) < n: sigs.append([rnd.choice(['int', 'long', 'unsigned', 'double', 'unsigned long']) for _ in range(rnd.randint(1, 12))])
    K = {'int': 'i32', 'long': 'i64', 'unsigned': 'u32', 'double': 'f64', 'unsigned long': 'u64'}
    for q, s in enumerate(sigs):
        for nfix in ((1, 3) if q % 2 else (1, 8)):
            fx = ', '.join('int p%d' % i for i in range(nfix)); fixargs = ', '.join('%d' % (i + 7) for i in range(nfix - 1))
            ks = [K[t] for t in s]; N = 'abcdefghijklmnopqrst'[:len(s)]
            P = ', '.join('%s %s' % (t, v) for t, v in zip(s, N))
            nd = max(1, s.count('double')); di = 0; body = ''
            for i, t in enumerate(s):
                if t == 'double': body += '$o[%d] = va_arg(ap, double); ' % di; di += 1
                else: body += '$q[%d] = va_arg(ap, %s); ' % (i, t)
            callee = 'double $o[%d]; long $q[16]; unsigned long $h(%s, ...) { unsigned long r = %s; va_list ap; va_start(ap, p%d); %s va_end(ap); return r; }' % (nd, fx, ' ^ '.join('p%d' % i for i in range(nfix)), nfix - 1, body)
            ext = 'extern unsigned long $h(%s, ...); ' % ', '.join(['int'] * nfix)
            caller = ext + 'unsigned long $f(%s) { return $h(%s, %s); }' % (P, ', '.join(str(i + 7) for i in range(nfix)), ', '.join(N))
            nm = '%d-%d' % (q, nfix)
            o.append(T('va/callee' + nm, callee, 'u64', ks, globs=[('o', 8 * nd), ('q', 128)], comp=caller, inc=('stdarg.h',)))
            o.append(T('va/caller' + nm, 'double $o[%d]; long $q[16]; ' % nd + caller, 'u64', ks, globs=[('o', 8 * nd), ('q', 128)], comp=callee.replace('double $o', 'extern double $o', 1).replace('long $q', 'extern long $q', 1), inc=('stdarg.h',)))
    A = o.append
    A(T('va/promo', 'extern void $h(int, ...); void $f(signed char a, unsigned short b, float c, short d) { $h(1, a, b, c, d); }', 'void', ['i8', 'u16', 'f32', 'i16'], comp='void $h(int n, ...) { va_list ap; va_start(ap, n); ext_i(va_arg(ap, int)); ext_i(va_arg(ap, int)); ext_d(va_arg(ap, double)); ext_i(va_arg(ap, int)); va_end(ap); }', inc=('stdarg.h',)))
    A(T('va/fwd', 'static long $v(int n, va_list ap) { long r = 0; for (int i = 0; i < 4; i++) r = r * 3 + va_arg(ap, int); return r; } static long $h(int n, ...) { va_list ap; va_start(ap, n); long r = $v(n, ap); va_end(ap); return r; } long $f(int a, int b, int c, int d) { return $h(a, b, c, d, a); }', 'i64', ['i32'] * 4, inc=('stdarg.h',)))
    A(T('va/copy', 'static long $h(int n, ...) { va_list ap, aq; va_start(ap, n); long r = va_arg(ap, int); va_copy(aq, ap); r += va_arg(ap, long) * 3; r += va_arg(aq, long) * 5; r += va_arg(aq, int); va_end(aq); va_end(ap); return r; } long $f(int a, long b, int c) { return $h(0, a, b, c); }', 'i64', ['i32', 'i64', 'i32'], inc=('stdarg.h',)))
    A(T('va/cond', 'static long $h(int n, ...) { va_list ap; va_start(ap, n); long r = 0; while (n-- > 0) { if (n & 1) r += va_arg(ap, long); else r -= va_arg(ap, int); } va_end(ap); return r; } long $f(int a, int b, long c, int d, long e) { return $h(a, e, b, c, d) + $h(a & 1, b, c); }', 'i64', ['i32', 'i32', 'i64', 'i32', 'i64'], 'a == 4 || a == 2'))
    o[-1].inc = ('stdarg.h',)
    return o
