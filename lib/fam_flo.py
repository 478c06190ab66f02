"""Template families: floating point."""
from tv import T, KIND, INTS, CT
FL = ['f32', 'f64']
OPS = ['+', '-', '*', '/']; CMP = ['==', '!=', '<', '<=', '>', '>=']
N = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
def frange(k, src='a'):  # C condition: the floating value fits integer kind k
    c, n, s = KIND[k]
    hi = {1: '128.0' if s else '256.0', 2: '32768.0' if s else '65536.0', 4: '2147483648.0' if s else '4294967296.0', 8: '9223372036854775808.0' if s else '18446744073709551616.0'}[n]
    if s: lo = {1: '%s > -129.0', 2: '%s > -32769.0', 4: '%s > -2147483649.0', 8: '%s >= -9223372036854775808.0'}[n] % src
    else: lo = '%s > -1.0' % src
    return '%s && %s < %s' % (lo, src, hi)
def arith():
    out = []
    for x in FL:
        for y in FL:
            for op in OPS:
                r = 'f64' if 'f64' in (x, y) else 'f32'
                out.append(T('fbin/%s%s%s' % (x, N[op], y), '%s $f(%s a, %s b) { return a %s b; }' % (CT[r], CT[x], CT[y], op), r, [x, y]))
                out.append(T('fcmpd/%s%s%s' % (x, N[op], y), '%s $f(%s a, %s b) { a %s= b; return a; }' % (CT[x], CT[x], CT[y], op), x, [x, y]))
        c = CT[x]
        for i in INTS + ['bool']:
            if i == 'u64': continue  # beyond the solver's reach in time
            out.append(T('fmix/%s+%s' % (x, i), '%s $f(%s a, %s b) { return a + b; }' % (c, c, CT[i]), x, [x, i]))
            out.append(T('fmix/%s-%s' % (i, x), '%s $f(%s a, %s b) { return b - a; }' % (c, c, CT[i]), x, [x, i]))
            if i != 'bool': out.append(T('fmix/i%s*=%s' % (i, x), 'long $f(%s a, %s b) { b += a; return b; }' % (c, CT[i]), 'i64', [x, i], pre='a > -2.0 && a < 2.0 && b >= 3 && b < 100'))
        for nm, e in (('neg', '-a'), ('negneg', '-(-a)'), ('pos', '+a'), ('sub0', '0 - a'), ('add0', 'a + 0'), ('mul1', 'a * 1'), ('div1', 'a / 1'), ('mulm1', 'a * -1'), ('half', 'a * 0.5f'), ('dbl', 'a + a'), ('sub0r', 'a - 0'), ('c0', '0.0f + a'), ('c1', '2.5f - a'), ('c2', 'a / 4.0f'), ('c3', '1.0f / a'), ('mul0', 'a * 0'), ('mul0f', '0.0f * a'), ('mul0r', 'a * 0.0f'), ('selfsub', 'a - a'), ('selfdiv', 'a / a'), ('chain', 'a * 2 + 1'), ('big', 'a * 1e30f'), ('inf', 'a + 1e38f * 10.0f'), ('small', 'a * 1e-40f'), ('dec1', 'a * 0.1f')):
            out.append(T('fun/%s%s' % (nm, x), '%s $f(%s a) { return %s; }' % (c, c, e), x, [x]))
            if 'f' in e and x == 'f64': out.append(T('fun/%sd' % nm, 'double $f(double a) { return %s; }' % e.replace('f', ''), x, [x]))
        for nm, e in (('inc', 'a++'), ('dec', 'a--'), ('pinc', '++a'), ('pdec', '--a')):
            out.append(T('fun/%s%s' % (nm, x), '%s $f(%s a) { %s r = %s; return r * 2 - a; }' % (c, c, c, e), x, [x]))
        for nm, e in (('e1', 'a + b * c'), ('e2', '(a - b) * (b - c)'), ('e3', 'a / b / c'), ('e4', 'a - b - c'), ('e5', 'a - (b - c)'), ('e6', '-a * b + -c'), ('e7', '(a = b + c, a * 2)'), ('e8', 'a < b ? a : c'), ('e9', '(a > b) + c'), ('e10', 'a * b + b * c + c * a - a / b')):
            out.append(T('fexpr/%s%s' % (nm, x), '%s $f(%s a, %s b, %s c) { return %s; }' % (c, c, c, c, e), x, [x, x, x]))
        out.append(T('fmem/%s' % x, 'void $f(%s *a, long b, %s c) { a[b] = a[b ^ 1] + c; a[1] = -a[0]; }' % (c, c), 'void', ['p32', 'i64', x], pre='b >= 0 && b < %d' % (32 // KIND[x][1])))
        out.append(T('fglob/%s' % x, '%s $g; %s $f(%s a) { $g *= a; $g -= 1; return -$g; }' % (c, c, c), x, [x], globs=[('g', KIND[x][1])]))
    return out
def compare():
    out = []
    for x in FL:
        for y in FL:
            for op in CMP:
                n = '%s%s%s' % (x, N[op], y); A = '%s a, %s b' % (CT[x], CT[y])
                out.append(T('fcmp/v ' + n, 'int $f(%s) { return a %s b; }' % (A, op), 'i32', [x, y]))
                if x != y: continue
                out.append(T('fcmp/n ' + n, 'int $f(%s) { return !(a %s b); }' % (A, op), 'i32', [x, y]))
                out.append(T('fcmp/if ' + n, 'int $f(%s) { if (a %s b) return 7; return 9; }' % (A, op), 'i32', [x, y]))
                out.append(T('fcmp/ifn ' + n, 'int $f(%s) { if (!(a %s b)) return 7; else return 9; }' % (A, op), 'i32', [x, y]))
                out.append(T('fcmp/t ' + n, '%s $f(%s) { return a %s b ? a : b; }' % (CT[x], A, op), x, [x, y]))
                out.append(T('fcmp/and ' + n, 'int $f(%s) { return a %s b && b %s 1; }' % (A, op, op), 'i32', [x, y]))
                out.append(T('fcmp/or ' + n, 'int $f(%s) { if (a %s b || a %s 2) return 1; return 0; }' % (A, op, op), 'i32', [x, y]))
                out.append(T('fcmp/nand ' + n, 'int $f(%s) { if (!(a %s b && b %s a)) return 1; return 0; }' % (A, op, op), 'i32', [x, y]))
                out.append(T('fcmp/c ' + n, 'int $f(%s a) { return (a %s 0) + (1.5f %s a) * 2 + (a %s -3) * 4; }' % (CT[x], op, op, op), 'i32', [x]))
                out.append(T('fcmp/self ' + n, 'int $f(%s a) { return a %s a; }' % (CT[x], op), 'i32', [x]))
                out.append(T('fcmp/wh ' + n, 'int $f(%s) { int n = 0; while (a %s b) { a = b; b = a + 1; if (++n > 3) break; } return n; }' % (A, op), 'i32', [x, y]))
                out.append(T('fcmp/i ' + n, 'int $f(%s a, int b) { return a %s b; }' % (CT[x], op), 'i32', [x, 'i32']))
                out.append(T('fcmp/eqeq ' + n, 'int $f(%s) { return (a %s b) == (b %s a); }' % (A, op, op), 'i32', [x, y]))
        for nm, e in (('b', '!a'), ('bb', '!!a'), ('and', 'a && b'), ('or', 'a || b'), ('tern', 'a ? 1 : b ? 2 : 3'), ('bool', '(_Bool)a + (_Bool)b * 2')):
            out.append(T('ftruth/%s%s' % (nm, x), 'int $f(%s a, %s b) { return %s; }' % (CT[x], CT[x], e), 'i32', [x, x]))
        out.append(T('ftruth/if%s' % x, 'int $f(%s a) { if (a) return 1; return 2; }' % CT[x], 'i32', [x]))
        out.append(T('ftruth/ifn%s' % x, 'int $f(%s a) { if (!a) return 1; return 2; }' % CT[x], 'i32', [x]))
        out.append(T('ftruth/for%s' % x, 'int $f(%s a) { int n = 0; for (; a; a = 0) n++; return n; }' % CT[x], 'i32', [x]))
        out.append(T('ftruth/ret%s' % x, '_Bool $f(%s a) { return a; }' % CT[x], 'bool', [x]))
    return out
def conv():
    out = []
    for x in FL:
        for k in INTS + ['bool']:
            pr = frange(k) if k != 'bool' else '1'
            out.append(T('f2i/%s>%s' % (x, k), '%s $f(%s a) { return a; }' % (CT[k], CT[x]), k, [x], pre=pr))
            out.append(T('f2i/c%s>%s' % (x, k), 'long $f(%s a) { return (%s)a + 1L; }' % (CT[x], CT[k]), 'i64', [x], pre=pr))
            out.append(T('f2i/e%s>%s' % (x, k), '%s $f(%s a) { return (%s)ext_d(a); }' % (CT[k], CT[x], CT[k]), k, [x], pre='1') if k == 'bool' else T('f2i/e%s>%s' % (x, k), '%s $f(%s a) { %s r = ext_d(a); if (%s) return (%s)r; return (%s)(a ? 5.0 : 3.0); }' % (CT[k], CT[x], CT[x], frange(k, 'r'), CT[k], CT[k]), k, [x]))
            out.append(T('f2i/g%s>%s' % (x, k), '%s $g; void $f(%s a) { $g = a; }' % (CT[k], CT[x]), 'void', [x], pre=pr, globs=[('g', KIND[k][1])]))
            out.append(T('i2f/%s>%s' % (k, x), '%s $f(%s a) { return a; }' % (CT[x], CT[k]), x, [k]))
            out.append(T('i2f/c%s>%s' % (k, x), '%s $f(%s a) { return (%s)a * 2; }' % (CT[x], CT[k], CT[x]), x, [k]))
            out.append(T('i2f/m%s>%s' % (k, x), '%s $f(%s *a, %s *b) { b[1] = a[1]; return b[1]; }' % (CT[x], CT[k], CT[x]), x, ['p16', 'p16']) if k != 'bool' else T('i2f/mb>%s' % x, '%s $f(_Bool a, _Bool b) { return a + b; }' % CT[x], x, ['bool', 'bool']))
        out.append(T('f2f/%s' % x, '%s $f(%s a) { return a; }' % (CT['f32' if x == 'f64' else 'f64'], CT[x]), 'f32' if x == 'f64' else 'f64', [x]))
        out.append(T('f2f/r%s' % x, 'double $f(%s a) { return (float)a; }' % CT[x], 'f64', [x]))
        out.append(T('f2f/t%s' % x, 'double $f(%s a, int b) { return b ? a : 1.5f; }' % CT[x], 'f64', [x, 'i32']))
        out.append(T('f2f/ti%s' % x, 'double $f(%s a, int b) { return b ? a : b - 1; }' % CT[x], 'f64', [x, 'i32']))
    out.append(T('f2f/tdf', 'double $f(int a, float b, double c) { return a ? b : c; }', 'f64', ['i32', 'f32', 'f64']))
    out.append(T('f2f/tfd', 'double $f(int a, double b, float c) { return a ? b : c; }', 'f64', ['i32', 'f64', 'f32']))
    out.append(T('f2f/tif', 'float $f(int a, unsigned b, float c) { return a ? b : c; }', 'f32', ['i32', 'u32', 'f32']))
    return out
FVALS = ['0.0', '-0.0', '0.5', '-0.5', '0.999999999999', '1.0', '1.5', '-1.0', '1e-30', '-1e-300', '0.25f', '1e-40f', '2.9', '-2.9', '100.7f', '127.5', '200.5', '-128.7', '300.9', '-40000.25', '65535.9', '70000.5f', '2147483647.5', '-2147483648.5', '4294967295.5', '3e9', '9e18', '1e19']
def flits():  # constant floating expressions converted at compile time
    out = []
    def fits(v, k):
        if k == 'bool': return True
        c, n, s = KIND[k]; t = int(float(v.rstrip('f'))); return -(1 << 8 * n - 1) <= t < 1 << 8 * n - 1 if s else 0 <= t < 1 << 8 * n and float(v.rstrip('f')) > -1
    for k in INTS + ['bool']:
        vs = [v for v in FVALS if fits(v, k)]; t = CT[k]; n = len(vs); I = ['i32']; pre = 'a >= 0 && a < %d' % n
        out.append(T('flit/static ' + k, 'long $f(int a) { static %s t[] = {%s}; return t[a]; }' % (t, ', '.join(vs)), 'i64', I, pre))
        out.append(T('flit/global ' + k, '%s $t[] = {%s}; long $f(int a) { return $t[a]; }' % (t, ', '.join(vs)), 'i64', I, pre))
        out.append(T('flit/auto ' + k, 'long $f(int a) { %s t[] = {%s}; return t[a]; }' % (t, ', '.join(vs)), 'i64', I, pre))
        for nm, e in (('cast', 'return (%s)%%s;' % t), ('asg', '{ %s t = %%s; return t; }' % t), ('castarith', 'return (%s)%%s + 1L;' % t), ('op', '{ %s t = a; t = %%s; return t; }' % t)):
            out.append(T('flit/%s %s' % (nm, k), 'long $f(int a) { switch (a) { %s } return 77; }' % ' '.join('case %d: %s' % (i, e % v) for i, v in enumerate(vs)), 'i64', I))
        if k != 'bool': out.append(T('flit/bitfield ' + k, 'long $f(int a) { struct { %s b: %d; } s = {a}; switch (a) { %s } return s.b; }' % (t, 5 if KIND[k][1] == 1 else 9 if KIND[k][1] == 2 else 20, ' '.join('case %d: s.b = %s; break;' % (i, v) for i, v in enumerate(x for x in vs if abs(float(x.rstrip('f'))) < 16))), 'i64', I, 'a >= 0 && a < 100') if KIND[k][1] < 8 and KIND[k][2] else T('flit/param ' + k, 'static long $h(%s v) { return v; } long $f(int a) { switch (a) { %s } return 1; }' % (t, ' '.join('case %d: return $h(%s);' % (i, v) for i, v in enumerate(vs))), 'i64', I))
    vs = FVALS; C = lambda e: ' '.join('case %d: %s' % (i, e.replace('@', v)) for i, v in enumerate(vs))
    for nm, e in (('if', 'if (@) return 1; return 2;'), ('ifn', 'if (!@) return 1; return 2;'), ('not', 'return !@;'), ('nn', 'return !!@;'), ('and', 'return @ && a;'), ('and2', 'return a && @;'), ('or', 'return @ || b;'), ('or2', 'return b || @;'), ('tern', 'return @ ? 3 : b;'), ('wh', 'while (@) return 5; return 6;'), ('do', '{ int n = 0; do { if (++n > 1) return 8; } while (@); return 9; }'), ('for', 'for (; @;) return 5; return 7;'), ('cmp', 'return @ > 0.5;'), ('cmpi', 'return (@ < 1) + (@ == 1) * 2 + (@ >= 2) * 4;'), ('bool', 'return (_Bool)@ + b;'), ('init', '{ _Bool t = @; return t * 2 + b; }')):
        out.append(T('flit/cond ' + nm, 'int $f(int a, _Bool b) { switch (a) { %s } return 77; }' % C(e), 'i32', ['i32', 'bool']))
    for x in FL:
        c = CT[x]
        out.append(T('flit/f static ' + x, '%s $f(int a) { static %s t[] = {%s, 7, -3L, 4000000000u, 18446744073709551615ul, \'a\'}; return t[a]; }' % (c, c, ', '.join(vs)), x, ['i32'], 'a >= 0 && a < %d' % (len(vs) + 5)))
        for nm, e in (('add', '@ + 1.1f'), ('mul', '@ * 3'), ('sub', '1 - @'), ('div', '@ / 3.0'), ('neg', '-(@)'), ('flt', '(float)@'), ('arith', '(@ + 0.1) * 10 - 7'), ('tern', '1 ? @ : 0'), ('i', '(int)(@ * 0) + @')):
            out.append(T('flit/fold %s%s' % (nm, x), '%s $f(int a) { switch (a) { %s } return 77; }' % (c, C('return %s;' % e)), x, ['i32']))
    return out
def calls():
    out = []
    for x in FL:
        c = CT[x]
        out.append(T('fcall/args%s' % x, '%s $f(%s) { return %s; }' % (c, ', '.join('%s %s' % (c, v) for v in 'abcdefghij'), ' - '.join('abcdefghij')), x, [x] * 10))
        out.append(T('fcall/mix%s' % x, '%s $f(int a, %s b, long c, %s d, char e, %s g) { return a - b + c - d + e - g; }'.replace('g)', 'f)').replace('- g', '- f') % (c, c, c, c), x, ['i32', x, 'i64', x, 'i8', x]))
        out.append(T('fcall/live%s' % x, '%s $f(%s a, %s b) { %s t = a * b; ext_v(); %s u = ext_d(t) + a; return u * t - b; }' % (c, c, c, c, c), x, [x, x]))
        out.append(T('fcall/ext%s' % x, '%s $f(%s a, %s b) { return ext_f(a, b) + ext_d(a - b) * ext_i(3); }' % (c, c, c), x, [x, x]))
        out.append(T('fcall/press%s' % x, '%s $f(%s *a, %s b) { %s return %s; }' % (c, c, c, ''.join('%s v%d = a[%d] + b; ' % (c, i, i % 8) for i in range(20)), ' - '.join('v%d * v%d' % (i, (i * 7 + 3) % 20) for i in range(20))), x, ['p64', x]))
        out.append(T('fcall/pressc%s' % x, '%s $f(%s *a, %s b) { %s ext_v(); %s = ext_d(b) + ext_i(1); return %s; }' % (c, c, c, ''.join('%s v%d = a[%d] + b; ' % (c, i, i % 8) for i in range(12)), c + ' w', ' - '.join('v%d * w' % i for i in range(12))), x, ['p64', x]))
        out.append(T('fcall/fp%s' % x, 'static %s $h(%s v, int k) { return v * k; } %s $f(%s a, int b) { %s (*p)(%s, int) = $h; return p(a, b) + $h(a, 2); }' % (c, c, c, c, c, c), x, [x, 'i32']))
    return out
