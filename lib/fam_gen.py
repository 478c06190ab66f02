"""Randomly generated whole functions (structure drawn from the seed; every input value symbolic)."""
from tv import T, KIND, INTS, CT
import random
class G:
    def __init__(s, rnd, mode):
        s.r = rnd; s.mode = mode; s.forks = 0; s.nloc = 0; s.maxforks = 5; s.vars = []; s.fl = []; s.depth = 0; s.labels = 0; s.ext = 0; s.loopdepth = 0; s.ro = set(); s.muls = 0
    def ival(s, d):
        r = s.r
        if d <= 0 or r.random() < .15:
            if r.random() < .22: return r.choice(['0', '1', '2', '-1', '7', '100', '255', '-128', '65535', '0x7fffffff', '3U', '12345L', '-3L', '0xffffffffU', '0x100000001L'])
            c = s.lv_read()
            return c
        k = r.random()
        if k < .5:
            op = r.choice(['+', '-', '+', '-', '&', '|', '^', '*'])
            if op == '*':
                if s.muls >= 2 or s.mode == 'press': op = '+'
                else: s.muls += 1; return '(%s * %s)' % (s.ival(d - 1), r.choice(['3', '-5', '10', '2', '8', '7U', '9L']))
            return '(%s %s %s)' % (s.ival(d - 1), op, s.ival(d - 1))
        if s.mode == 'press' and (k < .58 or k >= .90): return s.ival(d - 1)
        if k < .58: return '(%s %s (%s & 7))' % (s.ival(d - 1), r.choice(['<<', '>>']), s.ival(d - 2))
        if k < .66: return '(%s %s %d)' % (s.ival(d - 1), r.choice(['<<', '>>']), r.randint(0, 20))
        if k < .74: return '(%s %s %s)' % (s.ival(d - 1), r.choice(['<', '<=', '==', '!=', '>', '>=']), s.ival(d - 1))
        if k < .82: return '((%s)%s)' % (CT[r.choice(INTS)], s.ival(d - 1))
        if k < .90: return '(%s %s)' % (r.choice(['-', '~', '!', '- -', '+']), s.ival(d - 1))
        if k < .93: return '((unsigned)%s %s %d)' % (s.ival(d - 2), r.choice(['/', '%']), r.choice([2, 3, 4, 7, 16, 10]))
        if k < .95: return '((int)%s %s %d)' % (s.ival(d - 2), r.choice(['/', '%']), r.choice([2, 4, 8, 16, -4, 1, 5]))
        if k < .975 and s.forks < s.maxforks: s.forks += 1; return '(%s ? %s : %s)' % (s.ival(d - 2), s.ival(d - 1), s.ival(d - 1))
        return '(%s)' % s.ival(d - 1)
    def lv_read(s):
        v = s.r.choice(s.vars)
        if v[1] == 'arr': return '%s[%s & 3]' % (v[0], s.r.choice(['0', '1', '2', '3', s.small()]))
        if v[1] == 'st': return '%s.%s' % (v[0], s.r.choice(['m0', 'm1', 'm2', 'm3']))
        return v[0]
    def small(s):
        c = [v[0] for v in s.vars if v[1] in INTS]
        return s.r.choice(c) if c else '1'
    def lv_write(s):
        c = [v for v in s.vars if v[0] not in s.ro]; v = s.r.choice(c)
        if v[1] == 'arr': return '%s[%s & 3]' % (v[0], s.r.choice(['0', '1', '2', s.small()]))
        if v[1] == 'st': return '%s.%s' % (v[0], s.r.choice(['m0', 'm1', 'm2', 'm3']))
        return v[0]
    def cond(s):
        r = s.r; k = r.random()
        if k < .6: return '%s %s %s' % (s.ival(2), r.choice(['<', '<=', '==', '!=', '>', '>=']), s.ival(1))
        if k < .75 and s.forks < s.maxforks: s.forks += 1; return '%s %s %s' % (s.ival(1), r.choice(['&&', '||']), s.ival(1))
        if k < .85: return '!%s' % s.ival(1)
        return s.ival(2)
    def stmt(s, d):
        r = s.r; k = r.random()
        if k < .40 or d <= 0: return '%s = %s;' % (s.lv_write(), s.ival(r.randint(1, 3)))
        if k < .52: return '%s %s= %s;' % (s.lv_write(), r.choice(['+', '-', '^', '|', '&', '+', '-']), s.ival(2))
        if k < .58: return '%s%s;' % (s.lv_write(), r.choice(['++', '--']))
        if k < .66 and s.ext < 6:
            s.ext += 1
            return r.choice(['%s = ext_i(%s);', '%s = ext_l(%s, 1);', '%s += ext_c(%s, 3);']) % (s.lv_write(), s.ival(2))
        if k < .78 and s.forks < s.maxforks:
            s.forks += 1
            if r.random() < .5: return 'if (%s) { %s }' % (s.cond(), s.block(d - 1))
            return 'if (%s) { %s } else { %s }' % (s.cond(), s.block(d - 1), s.block(d - 1))
        if k < .88 and s.loopdepth < 2:
            s.loopdepth += 1; v = 'i%d' % s.nloc; s.nloc += 1; n = r.randint(1, 3); svars = list(s.vars); s.vars.append((v, 'i32')); s.ro.add(v); save = s.forks
            body = s.block(d - 1)
            extra = ''
            if s.forks < s.maxforks and r.random() < .4: s.forks += 2; extra = 'if (%s) %s; ' % (s.cond(), r.choice(['break', 'continue']))
            if s.forks > save: s.forks += (s.forks - save) * (n - 1)
            s.vars = svars; s.loopdepth -= 1
            w = r.randint(0, 2)
            if w == 0: return 'for (int %s = 0; %s < %d; %s++) { %s%s }' % (v, v, n, v, extra, body)
            if w == 1: return '{ int %s = %d; while (%s-- > 0) { %s%s } }' % (v, n, v, extra, body)
            return '{ int %s = 0; do { %s%s } while (++%s < %d); }' % (v, extra, body, v, n)
        if k < .93 and s.forks < s.maxforks - 1:
            s.forks += 2; vals = sorted(r.sample(range(-3, 12), 4)); o = 'switch (%s) { ' % (s.small() + r.choice(['', ' & 7', ' + 1']))
            for x in vals: o += 'case %d: %s %s' % (x, s.stmt(d - 1), r.choice(['break; ', '', 'break; ']))
            return o + (r.choice(['default: %s ' % s.stmt(d - 1), ''])) + '}'
        if k < .97:
            t = s.r.choice(INTS); v = 'b%d' % s.nloc; s.nloc += 1; e = s.ival(2); sv = list(s.vars); s.vars.append((v, t)); b = s.block(d - 1); s.vars = sv
            return '{ %s %s = %s; %s }' % (CT[t], v, e, b)
        return '%s = %s, %s = %s;' % (s.lv_write(), s.ival(1), s.lv_write(), s.ival(1))
    def block(s, d): return ' '.join(s.stmt(d) for _ in range(s.r.randint(1, 3)))
def one(seed, idx, mode):
    r = random.Random('%d/%d/%s' % (seed, idx, mode)); g = G(r, mode)
    np = r.randint(2, 5); ps = [r.choice(INTS + ['i32', 'i64']) for _ in range(np)]; decl = []
    for i, k in enumerate(ps): g.vars.append((chr(97 + i), k))
    nl = r.randint(2, 6) if mode == 'flow' else r.randint(9, 18)
    body = []
    for i in range(nl):
        k = r.choice(INTS + ['i32', 'i64', 'u32']); e = g.ival(2); v = 'v%d' % i
        body.append('%s %s = %s;' % (CT[k], v, e)); g.vars.append((v, k))
    pre = ''
    if r.random() < .4: body.append('%s r[4] = {%s};' % (CT[r.choice(INTS)], ', '.join(g.ival(1) for _ in range(4)))); g.vars.append(('r', 'arr'))
    if r.random() < .4:
        mk = [CT[r.choice(INTS)] for _ in range(4)]; pre = 'struct $S { %s m0; %s m1; %s m2 %s; %s m3; }; ' % (mk[0], mk[1], 'int', ': %d' % r.randint(1, 31), mk[3])
        body.append('struct $S q; q.m0 = %s; q.m1 = %s; q.m2 = %s; q.m3 = %s;' % (g.ival(1), g.ival(1), g.ival(1), g.ival(1))); g.vars.append(('q', 'st'))
    if r.random() < .35:   # some variable has its address taken
        v = r.choice([x for x in g.vars if x[1] in INTS]); body.append('%s *pp = &%s;' % (CT[v[1]], v[0])); g.vars.append(('(*pp)', v[1]))
    if mode == 'flow':
        for _ in range(r.randint(3, 7)): body.append(g.stmt(3))
    elif mode == 'press':  # many values alive at once across a deep expression and a call
        g.maxforks = 2
        for _ in range(r.randint(3, 6)): body.append(g.stmt(1))
        body.append('long big = %s;' % ' + '.join('(%s %s %s)' % (g.ival(2), r.choice('+-^'), g.ival(2)) for _ in range(r.randint(3, 6)))); g.vars.append(('big', 'i64'))
        if r.random() < .6: body.append('big += ext_l(%s, %s);' % (g.ival(2), g.ival(1)))
    if r.random() < .3 and mode == 'flow' and g.forks < 6: body.append('if (%s) goto done; %s done: ;' % (g.cond(), g.block(1)))
    outs = []
    for v in g.vars:
        if v[1] == 'arr': outs += ['r[%d]' % i for i in range(4)]
        elif v[1] == 'st': outs += ['q.m%d' % i for i in range(4)]
        else: outs.append(v[0])
    if len(outs) % 2: outs.append('0')
    body += ['ext_l(%s, %s);' % (outs[i], outs[i + 1]) for i in range(0, len(outs), 2)]
    return T('gen/%s-%d-%d' % (mode, seed, idx), pre + 'void $f(%s) { %s }' % (', '.join('%s %s' % (CT[k], chr(97 + i)) for i, k in enumerate(ps)), ' '.join(body)), 'void', ps)
def flow(seed=1, n=120): return [one(seed, i, 'flow') for i in range(n)]
def press(seed=1, n=80): return [one(seed, i, 'press') for i in range(n)]
def cprop(seed=1, n=3):
    """operands that are known constants only after propagation through variables"""
    import fam_int as F
    rnd = random.Random('cp%d' % seed); o = []
    VAL = {1: [0, 1, -1, 5, 127, -128, 100, 200], 2: [0, 1, -1, 255, 256, 32767, -32768, 40000, 12345], 4: [0, 1, -1, 2, 7, 31, 255, 65536, 0x7fffffff, -0x7fffffff, 0x80000000, 123456789, 0xffffffff], 8: [0, 1, -1, 3, 63, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, -0x80000001, 0x7fffffffffffffff, -0x7fffffffffffffff, 0x123456789abcdef]}
    def w(v, k): b = 8 * KIND[k][1]; v &= (1 << b) - 1; return v - (1 << b) if KIND[k][2] and v >> (b - 1) else v
    def pick(k): return w(rnd.choice(VAL[KIND[k][1]]), k)
    def l(v, k): return '(%s)%d%s' % (CT[k], v, 'UL' if v > 2**63 - 1 else 'L')
    for op in F.ARITH + F.CMP:
        for x in INTS:
            for y in INTS:
                for j in range(n if n >= 1 else (1 if rnd.random() < n else 0)):
                    u = F.usual(x, y); a, b = pick(x), pick(y); bits = 8 * KIND[F.promo(x)][1]
                    if op in ('<<', '>>'): b = rnd.randrange(0, min(bits, 127)); b = w(b, y)
                    if op in ('/', '%') and (w(b, u) == 0 or w(b, u) == -1): b = 3
                    k = rnd.randrange(4); e = 'x %s y' % op
                    body = ['%s x = %s; %s y = %s; return %s;' % (CT[x], l(a, x), CT[y], l(b, y), e), '%s x = %s; %s y = %s; if (a > 3) { y = %s; } long r = %s; return r + a;' % (CT[x], l(a, x), CT[y], l(b, y), l(b, y), e),
                            '%s x = %s, y0 = x; %s y = %s; ext_v(); { %s z = y; y = z; } return y0 %s y ? %s : ext_i(1);' % (CT[x], l(a, x), CT[y], l(b, y), CT[y], op, e), '%s x = %s; %s y = %s; for (int i = 0; i < 2; i++) { if (%s) a++; else a--; } return a;' % (CT[x], l(a, x), CT[y], l(b, y), e)][k]
                    o.append(T('cprop/%s %s%s%s-%d' % (('bin', 'if', 'cond', 'loop')[k], x, F.opname(op), y, j), 'long $f(long a) { %s }' % body, 'i64', ['i64']))
    for x in INTS:
        for y in INTS:
            a = pick(x); o.append(T('cprop/cast %s %s' % (x, y), 'long $f(long a) { %s x = %s; %s y = x; %s z = ~x; return y * 3 + z + (%s)-x + a; }' % (CT[x], l(a, x), CT[y], CT[y], CT[y]), 'i64', ['i64']))
        for f in ('f32', 'f64'):
            a = pick(x); b = rnd.choice(['0.5', '-2.25', '100.75', '1e9', '3.0', '0.0'])
            o.append(T('cprop/tof %s %s' % (x, f), '%s $f(%s a) { %s x = %s; %s y = x, z = %s; y = y * z + 1; return -y / 3 - a; }' % (CT[f], CT[f], CT[x], l(a, x), CT[f], b), f, [f]))
            o.append(T('cprop/fromf %s %s' % (x, f), 'long $f(long a) { %s z = %s; %s x = z / 4, y = z + 3.5; return x * 2 + y + a; }' % (CT[f], rnd.choice(['0.5', '2.25', '100.75', '77.0']), CT[x]), 'i64', ['i64']))
    for f in ('f32', 'f64'):
        for op in F.CMP:
            for j in range(3):
                a, b = rnd.choice(['0.0', '-0.0', '1.5', '-3.0', '1e30']), rnd.choice(['0.0', '1.5', '1e-30', '-3.0'])
                o.append(T('cprop/fcmp %s %s %d' % (f, F.opname(op), j), 'int $f(int a) { %s x = %s, y = %s; if (x %s y) a++; return a + (y %s x) * 2 + (x %s x ? 4 : 0); }' % (CT[f], a, b, op, op, op), 'i32', ['i32']))
    for k in ('i32', 'u32', 'i64', 'u64'):
        for j in range(14):
            cs = [pick(k) if rnd.random() < .5 else rnd.choice([0x7fffffff, -0x7fffffff, 0x40000000, 5, -9]) for _ in range(3)]
            ops = [rnd.choice('+-') for _ in range(3)]
            o.append(T('cprop/chain %s %d' % (k, j), '%s $f(%s a) { %s x = a %s %s; x = x %s %s; return x %s %s; }' % (CT[k], CT[k], CT[k], ops[0], l(cs[0], k), ops[1], l(cs[1], k), ops[2], l(cs[2], k)), k, [k]))
    for k, s in (('char', 1), ('int', 4), ('long', 8), ('double', 8)):
        for c1, c2 in ((1, 2), (3, -1), (-2, -2), (100, -100), (2, 268435455)):
            o.append(T('cprop/pchain %s %d %d' % (k, c1, c2), '%s *$f(char *a) { %s *p = (%s *)a + %d; p += %d; return p - %d; }' % (k, k, k, c1, c2, c1 - 1), 'p8', ['p8']))
    for i, (t, e) in enumerate([('double', 'float x = 16777217; double y = x; return y + a;'), ('double', 'float x = 0.1; double y = x; return y * a;'), ('double', 'float x = 0.1f, y = 3.0f; double z = x * y; return z + a;'), ('double', 'float x = 0.1f, y = 0.2f; if (x + y == 0.3f) a = 1; if ((double)x == 0.1) a += 2; return a;'), ('double', 'int n = 123456789; float x = n; float y = x + 1; return (int)y + a;'), ('double', 'long n = 9007199254740993; double x = n; return x - 9007199254740992.0 + a;'),
                                ('double', 'double x = -0.0; double y = 1 / x; return y < 0 ? a : 1;'), ('double', 'double x = 0.0; double y = -x; return 1 / y < 0 ? a : 1;'), ('double', 'float x = 1e30f; float y = x * x; return y > 3e38f ? a : 1;'), ('double', 'double x = 1e300; float y = x; return y > 3e38f ? a : 1;'), ('double', 'double x = 1e-50; float y = x; return y == 0 ? a : 1;'), ('double', 'unsigned long n = 18446744073709551615UL; double x = n; float y = n; return x + y + a;'), ('double', 'double x = 3.99; int i = x; char c = x * 20; unsigned u = x; return i + c + u + a;')]):
        o.append(T('cprop/frnd %d' % i, '%s $f(double a) { %s }' % (t, e), 'f64', ['f64']))
    o.append(T('cprop/bofs', 'int $f(int a) { int r[8]; int *p = r + 3; for (int i = 0; i < 8; i++) r[i] = i * a; p = p + 2; p -= 1; return p[0] + *(p - 3) * 7 + p[3]; }', 'i32', ['i32']))
    o.append(T('cprop/iofs', 'int $r[8]; int $f(int a) { int *p = $r + 3; for (int i = 0; i < 8; i++) $r[i] = i * a; p = p + 2; p -= 1; return p[0] + *(p - 3) * 7 + p[3] + *($r + 2 + 1) ; }', 'i32', ['i32']))
    return o
def phis():
    o = []; A = o.append
    A(T('phi/swap', 'int $f(int a, int b, int c) { for (int i = 0; i < (c & 3); i++) { int t = a; a = b; b = t; } return a * 3 + b; }', 'i32', ['i32'] * 3))
    A(T('phi/rot3', 'int $f(int a, int b, int c, int d) { for (int i = 0; i < (d & 3); i++) { int t = a; a = b; b = c; c = t; } ext_i(a); ext_i(b); ext_i(c); return 0; }', 'i32', ['i32'] * 4))
    A(T('phi/shift', 'int $f(int a, int b, int c, int d) { for (int i = 0; i < (d & 3); i++) { a = b; b = c; c = i; } ext_i(a); ext_i(b); ext_i(c); return 0; }', 'i32', ['i32'] * 4))
    A(T('phi/shiftr', 'int $f(int a, int b, int c, int d) { for (int i = 0; i < (d & 3); i++) { c = b; b = a; a = i; } ext_i(a); ext_i(b); ext_i(c); return 0; }', 'i32', ['i32'] * 4))
    A(T('phi/two', 'int $f(int a, int b, int c, int d, int e) { for (int i = 0; i < (e & 3); i++) { int t = a; a = b; b = t; t = c; c = d; d = t; } ext_l(a, b); ext_l(c, d); return 0; }', 'i32', ['i32'] * 5))
    A(T('phi/mix', 'int $f(int a, int b, int c, int d, int e) { for (int i = 0; i < (e & 3); i++) { int t = a; a = b; b = t; d = c; c = a; } ext_l(a, b); ext_l(c, d); return 0; }', 'i32', ['i32'] * 5))
    A(T('phi/fib', 'int $f(unsigned a) { int x = 0, y = 1; while (a-- > 0) { int t = x + y; x = y; y = t; } return x * 100 + y; }', 'i32', ['u32'], 'a < 6'))
    A(T('phi/fswap', 'double $f(double a, double b, int c) { for (int i = 0; i < (c & 3); i++) { double t = a; a = b; b = t; } return ext_d(a); }', 'f64', ['f64', 'f64', 'i32']))
    A(T('phi/float-lt', 'int $f(double a, double b, int c) { int r = c; if (a < b) r = 1; return r; }', 'i32', ['f64', 'f64', 'i32']))
    for n, cond in (('lt', 'a < b'), ('ge', 'a >= b'), ('nlt', '!(a < b)'), ('and', 'a < b && b < 3.0'), ('or', 'a < b || a > 3.0'), ('eq', 'a == b'), ('ne', 'a != b')):
        for k in ('f64', 'f32', 'i32', 'u64')[:3 if n in ('and', 'or') else 4]:
            A(T('phi/c-%s-%s' % (n, k), 'int $f(%s a, %s b, int c) { int r = c, s = 5; if (%s) r = 1; else s = r; while (%s) { s++; if (s > 7) break; } int t = %s ? s : r; return t + r * 2 + s * 4; }' % (CT[k], CT[k], cond, cond, cond), 'i32', [k, k, 'i32']))
    A(T('phi/switch', 'int $f(int a, int b) { int r = b, s = 0; switch (a) { case 0: r = 1; case 1: s = r; break; case 2: r = s; case 3: break; case 5: s = 4; default: r++; } return r * 10 + s; }', 'i32', ['i32'] * 2))
    A(T('phi/swloop', 'int $f(int a, int b) { int r = 0; for (int i = 0; i < 3; i++) { switch ((a >> i) & 3) { case 0: r += b; break; case 1: b = r; continue; case 2: { int t = r; r = b; b = t; } case 3: a++; } if (r == 9) goto out; } r++; out: return r * 10 + b; }', 'i32', ['i32'] * 2))
    A(T('phi/uninit', 'int $f(int a) { int x; if (a) x = 1; else x = 2; int y; do { y = x; x = a; } while (a-- > 0 && a < 3); return x * 4 + y; }', 'i32', ['i32'], 'a < 4'))
    A(T('phi/dowhile', 'int $f(int a, int b) { int p = a, q = b; do { int t = p; p = q; q = t + 1; } while (--b > 0); return p * 7 + q; }', 'i32', ['i32', 'i32'], 'b < 4 && b > -5'))
    A(T('phi/nest', 'int $f(int a, int b) { int x = 0, y = 1, z = 2; for (int i = 0; i < (a & 1) + 1; i++) { for (int j = 0; j < (b & 1) + 1; j++) { int t = x; x = y; y = z; z = t; } x += i; } return x * 100 + y * 10 + z; }', 'i32', ['i32', 'i32']))
    A(T('phi/goto', 'int $f(int a, int b) { int x = a, n = 0; if (b) goto in; loop: x = b; in: b = x; a = x + 1; if (++n < 3) goto loop; return a * 5 + b + x; }', 'i32', ['i32', 'i32']))
    A(T('phi/volat', 'int $f(int a, int b) { volatile int v = a; int x = v; v = b; x += v; if (x > 3) v = x; return v; }', 'i32', ['i32', 'i32']))
    A(T('phi/addr', 'static void $h(int *p) { *p += 2; } int $f(int a, int b) { int x = a; int y = x; $h(&x); if (b) x = y; else y = x; return x * 3 + y; }', 'i32', ['i32', 'i32']))
    A(T('phi/inl', 'static inline int $h(int p, int q) { if (p < q) return p; p = q + 1; return p; } int $f(int a, int b) { int x = $h(a, b); int y = $h(x, $h(b, a)); return x * 3 + y; }', 'i32', ['i32', 'i32']))
    A(T('phi/inlloop', 'static inline int $h(int p, int n) { int s = p; for (int i = 0; i < n; i++) { if (s > 20) return s; s += p; } return -s; } int $f(int a, int b) { int p = $h(a, b & 1); return $h(p, 2) + p * 9; }', 'i32', ['i32', 'i32']))
    A(T('phi/inlfl', 'static inline double $h(double p, double q) { return p < q ? p : q; } double $f(double a, double b) { return $h($h(a, b), $h(b, 1.0)); }', 'f64', ['f64', 'f64']))
    return o
