"""Template families: integer expressions and conversions."""
from tv import T, KIND, INTS, CT
import random
MINI = {4: '(-2147483647-1)', 8: '(-9223372036854775807L-1)'}
def rank(k): return KIND[k][1]
def promo(k):  # promoted kind
    if k == 'bool' or rank(k) < 4: return 'i32'
    return k
def usual(x, y):
    x, y = promo(x), promo(y)
    if rank(x) != rank(y): return x if rank(x) > rank(y) else y
    return x if KIND[x][2] == 0 else y
ARITH = ['+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>']
CMP = ['==', '!=', '<', '<=', '>', '>=']
def opname(op): return {'+': 'add', '-': 'sub', '*': 'mul', '&': 'and', '|': 'or', '^': 'xor', '/': 'div', '%': 'mod', '<<': 'shl', '>>': 'shr', '==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '&&': 'land', '||': 'lor', ',': 'comma'}[op]
def pre_of(op, x, y, a='a', b='b'):
    """defined-behaviour condition of `a op b`"""
    if op in ('/', '%'):
        u = usual(x, y); p = '%s != 0' % b
        if KIND[u][2] and rank(u) >= 4: p += ' && !((%s)%s == -1 && (%s)%s == %s)' % (CT[u], b, CT[u], a, MINI[rank(u)])
        return p
    if op in ('<<', '>>'): return '%s >= 0 && %s < %d' % (b, b, rank(promo(x)) * 8)
    return '1'
CONSTS = {1: [0, 1, 2, 3, 5, 7, 10, 64, 100, 127, -1, -2, -128, 128, 255, 200], 4: [0, 1, -1, 2, -2, 3, 4, 5, 8, 10, 16, 24, 31, 32, 63, 64, 100, 127, -127, 128, -128, -129, 255, 256, 1000, 4096, 32767, 32768, -32768, 65535, 65536, 0x12345678, 0x7fffffff, -0x7fffffff, 0x40000000],
          8: [0, 1, -1, 2, 7, 8, 10, 60, 127, 128, -128, -129, 255, 65535, 65536, 0x7fffffff, 0x80000000, -0x80000000, -0x80000001, 0xffffffff, 0x100000000, 0x123456789abcdef, 0x7fffffffffffffff, -0x7fffffffffffffff, 0x4000000000000000]}
def lit(v, k):
    if KIND[k][1] == 8: s = '%d%s' % (v, 'UL' if KIND[k][2] == 0 and v >= 0 else 'L')
    elif KIND[k][2] == 0 and rank(k) == 4 and v >= 0: s = '%dU' % v
    else: s = '%d' % v
    return '(%s)' % s if v < 0 else s
def const_pre(op, k, v, side):
    """None if the constant makes the operation undefined or uninteresting"""
    bits = rank(promo(k)) * 8
    if op in ('<<', '>>'):
        if side == 'r': return '1' if 0 <= v < bits else None
        return 'a >= 0 && a < %d' % (8 * (8 if KIND[k][1] == 8 else 4))
    if op in ('/', '%'):
        if side == 'r':
            if v == 0: return None
            if v == -1: return None if KIND[promo(k)][2] == 0 else 'a != %s' % MINI[rank(promo(k))]
            return '1'
        return 'a != 0' + (' && a != -1' if KIND[promo(k)][2] else '')
    return '1'
def binary(kx=INTS, ky=INTS, ops=ARITH + CMP):
    out = []
    for x in kx:
        for y in ky:
            for op in ops:
                out.append(T('bin/%s%s%s' % (x, opname(op), y), 'long $f(%s a, %s b) { return a %s b; }' % (CT[x], CT[y], op), 'i64', [x, y], pre_of(op, x, y)))
    return out
def consts(kinds=('i8', 'u8', 'u16', 'i32', 'u32', 'i64', 'u64'), ops=ARITH + CMP, thin=1, seed=0):
    out = []; n = seed
    for k in kinds:
        cs = list(CONSTS[{1: 1, 2: 4, 4: 4, 8: 8}[rank(k)]]); b = 8 * KIND[k][1]; rnd = random.Random('%s%d' % (k, seed))
        if not KIND[k][2]: cs += [(1 << b) - 1, (1 << b) - 2, 1 << (b - 1), (1 << (b - 1)) + 1, (1 << (b - 1)) - 1] + [1 << i for i in range(b) if i % 5 == seed % 5] + [(1 << b) - (1 << i) for i in range(1, b) if i % 7 == seed % 7]
        else: cs += [(1 << i) for i in range(b - 1) if i % 5 == seed % 5] + [-(1 << i) for i in range(b - 1) if i % 7 == seed % 7] + [(1 << i) - 1 for i in range(2, b) if i % 9 == seed % 9]
        cs += [rnd.getrandbits(rnd.randrange(2, b)) for _ in range(3)]; cs = list(dict.fromkeys(cs))
        for op in ops:
            for v in cs:
                for side in 'rl':
                    if KIND[k][2] == 0 and v < 0 and rank(k) >= 4: continue
                    n += 1
                    if thin > 1 and n % thin: continue
                    p = const_pre(op, k, v, side)
                    if p is None: continue
                    e = 'a %s %s' % (op, lit(v, k)) if side == 'r' else '%s %s a' % (lit(v, k), op)
                    out.append(T('const/%s%s%d%s' % (k, opname(op), v, side), '%s $f(%s a) { return %s; }' % ('long', CT[k], e), 'i64', [k], p))
    return out
def unary():
    out = []
    for k in INTS + ['bool']:
        c = CT[k]
        for nm, e in (('neg', '-a'), ('not', '~a'), ('lnot', '!a'), ('plus', '+a'), ('negneg', '-(-a)'), ('notneg', '~-a'), ('nn', '!!a'), ('notnot', '~~a'), ('mixneg', '-a + 1L'), ('notcmp', '!(a < 3)')):
            out.append(T('un/%s%s' % (nm, k), 'long $f(%s a) { return %s; }' % (c, e), 'i64', [k]))
        for nm, e in (('prei', '++a'), ('pred', '--a'), ('posti', 'a++'), ('postd', 'a--')):
            if k == 'bool': continue
            out.append(T('incdec/%s%s' % (nm, k), 'long $f(%s a) { long r = %s; return r * 3 + a; }' % (c, e), 'i64', [k]))
            out.append(T('incdec/g%s%s' % (nm, k), '%s $g; long $f(void) { return %s; }' % (c, e.replace('a', '$g')), 'i64', [], globs=[('g', KIND[k][1])]))
            out.append(T('incdec/p%s%s' % (nm, k), 'long $f(%s *a, long b) { long r = %s; return r; }' % (c, e.replace('a', 'a[b]')), 'i64', ['p32', 'i64'], pre='b >= 0 && b < %d' % (32 // KIND[k][1])))
            out.append(T('incdec/ptr%s%s' % (nm, k), 'void *$f(%s *a) { %s *q = %s; (void)q; return a; }' % (c, c, e), 'p', ['p32']))
            out.append(T('incdec/ptrv%s%s' % (nm, k), 'void *$f(%s *a) { %s *q = %s; return q; }' % (c, c, e), 'p', ['p32']))
    return out
def compound(kx=INTS, ky=('i8', 'u8', 'i32', 'u32', 'i64', 'u64')):
    out = []
    for x in kx:
        for y in ky:
            for op in ARITH:
                p = pre_of(op, x, y)
                out.append(T('cmpd/%s%s%s' % (x, opname(op), y), '%s $f(%s a, %s b) { a %s= b; return a; }' % (CT[x], CT[x], CT[y], op), x, [x, y], p))
        for op in ARITH:
            y = 'i32'
            out.append(T('cmpd/g%s%s' % (x, opname(op)), '%s $g; long $f(%s b) { return $g %s= b; }' % (CT[x], CT[y], op), 'i64', [y], globs=[('g', KIND[x][1])], pre='1' if op not in ('/', '%', '<<', '>>') else 'a > 0 && a < 8'))
            if op in ('/', '%', '<<', '>>'): out[-1].code = out[-1].code.replace('b', 'a', 1) if False else out[-1].code
            out.append(T('cmpd/c%s%s' % (x, opname(op)), '%s $f(%s a) { a %s= 5; return a; }' % (CT[x], CT[x], op), x, [x]))
            out.append(T('cmpd/cc%s%s' % (x, opname(op)), '%s $f(%s *a, int b) { a[b] %s= 3; a[b & 1] %s= 2; return a[1]; }' % (CT[x], CT[x], op, op), x, ['p32', 'i32'], pre='b >= 0 && b < %d' % (32 // KIND[x][1])))
    return out
def logic():
    out = []
    for x in ('i8', 'u16', 'i32', 'u32', 'i64', 'u64', 'bool'):
        for nm, e in (('and', 'a && b'), ('or', 'a || b'), ('andor', '(a && b) || !a'), ('nand', '!(a && b)'), ('tern', 'a ? b : 7'), ('tern2', '(a < b ? a : b) + (a == b ? 1 : 2)'), ('cmp2', '(a < b) == (b > a)'), ('cmpsum', '(a < b) + (a == b) * 2 + (a > b) * 4'), ('ternneg', '!a ? b : a'), ('ifchain', 'a ? (b ? 3 : 4) : (b ? 5 : 6)'), ('logbit', '(a && b) | (a || b) << 1'), ('cmptern', 'a > b ? a - b : b - a'), ('mixed', '(a & b) && (a | b)'), ('comma', '(a, b)'), ('valcmp', '(a != 0) & (b == 0)')):
            out.append(T('logic/%s%s' % (nm, x), 'long $f(%s a, %s b) { return %s; }' % (CT[x], CT[x], e), 'i64', [x, x]))
        for nm, e in (('sc1', 'a && ext_i(1)'), ('sc2', 'a || ext_i(2)'), ('sc3', '(a && ext_i(1)) || ext_i(2)'), ('sc4', '(a || ext_i(1)) && ext_i(2)'), ('sc5', 'a ? ext_i(1) : ext_i(2)'), ('sc6', '!(a && ext_i(1)) ? ext_i(3) : 9'), ('sc7', 'ext_i(a) && !ext_i(b) || ext_l(a, b)')):
            out.append(T('short/%s%s' % (nm, x), 'long $f(%s a, %s b) { return %s; }' % (CT[x], CT[x], e), 'i64', [x, x]))
    return out
def exprs():
    """multi-operator expressions, precedence and associativity"""
    out = []
    es = ['a + b * c', '(a + b) * c', 'a - b - c', 'a - (b - c)', 'a << 1 + 2', 'a & b == c', '(a & b) == c', 'a | b ^ c & 7', 'a ^ b | c', 'a + b < c', 'a == b != c', 'a < b == c', 'a ? b : c ? 1 : 2', '-a * b', '~a & b', '!a + b', 'a * b + c * a', '(a + 1) * (b - 1) - (c ^ a)', 'a << 3 >> 1', 'a >> 2 << 2', 'a & 0xff | b & 0xff00', '(a | b) - (a & b) - (a ^ b)', 'a * 2 + a', 'a * 10 - b * 3 + c', 'a - b + c - 1 + 2', '(a + 1) + 2', '(a - 1) - 2', '1 + (a + 2)', '2 * (a * 3)', '(a * 2) * 4', '(a << 2) << 3', '(a & 15) & 12', '3 - (a - 5)', '(3 - a) - 5', 'a + a', 'a - a', 'a ^ a', 'a * 0', 'a & 0', 'a | -1', '0 - a', 'a == a', 'a < a', '(a < 0) - (a > 0)', '(a = b, b = c, a - b)', 'a = b = c + 1', '(a += b) * (c -= 2)', 'a || b && c', '(unsigned char)a + (short)b - (_Bool)c', '(int)(a + b) >> 3', '(unsigned)a >> 3', 'sizeof(a) * b - sizeof(int)', 'a + (b ? 1 : c)', '(a > b ? a : b) > c ? (a > b ? a : b) : c', '(char)a * (char)b', '(a & 1) ? b << (c & 7) : b >> (c & 7)', '((a ^ b) & c) ^ b', 'a + b + c + a * b + b * c + (a & c)', '!(a < b) && !(b < c)', '!(a == b) || !(b != c)', '!(a <= b) == !(c >= a)',
          '(a >= 0) == !(a < 0)', 'a != 0 ? a : b', '(a != b) + (b != c)', '-(a - b)', '-(a + b)', '~(a ^ b)', 'a - -b', 'a + -b', '- -a', 'a + ~b + 1', '(a & 0x7fffffff) | (b & 1)', 'a % 16 + b % 10', 'a / 4 - b / 7', 'a / 8 * 8 + a % 8', '(a & 3) == 3 || (a & 12)', '(_Bool)a + (_Bool)(b & 2)', '(long)a * b', '(unsigned long)a + (unsigned)b', '(short)(a << 4) >> 4', '(signed char)(a * b)']
    for k in ('i32', 'u32', 'i64', 'u64', 'i16', 'u8'):
        for i, e in enumerate(es):
            out.append(T('expr/%s:%s' % (k, e), '%s $f(%s a, %s b, %s c) { return %s; }' % (CT[k], CT[k], CT[k], CT[k], e), k, [k, k, k]))
    return out
def conv():
    out = []
    for x in INTS + ['bool']:
        for y in INTS + ['bool']:
            out.append(T('conv/ret %s>%s' % (x, y), '%s $f(%s a) { return a; }' % (CT[y], CT[x]), y, [x]))
            out.append(T('conv/cast %s>%s' % (x, y), 'long $f(%s a) { return (%s)a; }' % (CT[x], CT[y]), 'i64', [x]))
            out.append(T('conv/asg %s>%s' % (x, y), 'long $f(%s a) { %s t; t = a; return t; }' % (CT[x], CT[y]), 'i64', [x]))
            out.append(T('conv/glob %s>%s' % (x, y), '%s $g; %s $h; long $f(void) { return $h = $g; }' % (CT[x], CT[y]), 'i64', [], globs=[('g', KIND[x][1]), ('h', KIND[y][1])], setup='' if x != 'bool' else '') if x != 'bool' else T('conv/globb >%s' % y, '%s $h; long $f(_Bool a) { return $h = a; }' % CT[y], 'i64', ['bool'], globs=[('h', KIND[y][1])]))
            if KIND[x][1] != KIND[y][1] and x != 'bool' and y != 'bool':
                out.append(T('conv/chain %s>%s' % (x, y), 'unsigned long $f(%s a) { return (%s)((%s)(a + 1) + 1); }' % (CT[x], CT[x], CT[y]), 'u64', [x]))
                out.append(T('conv/mem %s>%s' % (x, y), 'void $f(%s *a, %s *b) { b[1] = a[1]; a[0] = b[0]; }' % (CT[x], CT[y]), 'void', ['p16', 'p16']))
                out.append(T('conv/cmp %s,%s' % (x, y), 'int $f(%s a) { return (%s)a == a; }' % (CT[x], CT[y]), 'i32', [x]))
                out.append(T('conv/tern %s,%s' % (x, y), 'long $f(int c, %s a, %s b) { return c ? a : b; }' % (CT[x], CT[y]), 'i64', ['i32', x, y]))
                out.append(T('conv/arg %s>%s' % (x, y), 'static long $h(%s v, %s w) { return v * 3L + w; } long $f(%s a) { return $h(a, a); }' % (CT[y], CT[y], CT[x]), 'i64', [x]))
    for e in ('(enum $E)a', '(int)(enum $E)a', '$A + a', 'a == $B', 'a < $C'):
        out.append(T('conv/enum ' + e, 'enum $E { $A = -3, $B, $C = 100, $D }; long $f(int a) { enum $E e = a; return %s + e * 2; }' % e, 'i64', ['i32']))
    for k in INTS:
        out.append(T('conv/boolarith %s' % k, 'int $f(%s a) { _Bool b = a; b += 2; _Bool c = b - 1; return b * 2 + c; }' % CT[k], 'i32', [k]))
        out.append(T('conv/boolcmp %s' % k, '_Bool $f(%s a) { return a > 3; }' % CT[k], 'bool', [k]))
        out.append(T('conv/boolbit %s' % k, '_Bool $f(%s a) { return a & 0x40; }' % CT[k], 'bool', [k]))
        out.append(T('conv/ptrint %s' % k, 'long $f(%s a) { return (long)(char *)(long)a; }' % CT[k], 'i64', [k]))
        out.append(T('conv/ptradd %s' % k, 'long $f(%s *a, %s b) { return (long)((char *)(a + b) - (char *)a); }' % ('int', CT[k]), 'i64', ['p16', k], pre='b < 1000' + (' && b > -1000' if KIND[k][2] else '')))
    for p in ('char', 'short', 'int', 'long', 'double', 'struct { int x, y, z; }', 'struct { char c[7]; }', 'int (*)[5]'):
        q = '%s *' % p if '(*)' not in p else 'int (*'
        decl = (lambda n: '%s *%s' % (p, n)) if '(*)' not in p else (lambda n: 'int (*%s)[5]' % n)
        out.append(T('ptr/add ' + p, 'typedef %s; long $f(void *a, long b, long c) { $P *p = a; return (char *)(p + b - c) - (char *)p; }' % (p.replace('(*)', '$P') if '(*)' in p else '%s $P' % p), 'i64', ['p16', 'i64', 'i64'], pre='b > -1000000 && b < 1000000 && c > -1000000 && c < 1000000'))
        out.append(T('ptr/diff ' + p, 'typedef %s; long $f(void *a, long b) { $P *p = a, *q = p + b; return (q - p) * 2 + (q > p) + (p == q); }' % (p.replace('(*)', '$P') if '(*)' in p else '%s $P' % p), 'i64', ['p16', 'i64'], pre='b > -1000 && b < 1000'))
    return out
def bitfields():
    """layout-independent: what is stored in a field is read back, neighbours and the rest of the object are untouched"""
    out = []
    for base in ('int', 'unsigned', 'long', 'unsigned long', 'unsigned char', 'signed char', 'short', 'unsigned short'):
        w0 = {'int': 32, 'unsigned': 32, 'long': 64, 'unsigned long': 64, 'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16}[base]
        for lay in ([1, 2, 3], [3, 5], [7, 1, 8], [5, 11, 16], [31, 1], [1, 31], [13, 19], [4, 0, 4], [32, 1], [17, 33, 14], [1, 63], [40, 24], [16, 16], [9, 9, 9, 9], [30, 5, 20], [2], [64]):
            if max(lay) > w0: continue
            fs = ''.join('%s %s : %d; ' % (base, 'f%d' % i if w else '', w) for i, w in enumerate(lay)); idx = [i for i, w in enumerate(lay) if w]
            st = 'struct $S { char h; %s char t; };' % fs; tag = '%s:%s' % (base, ','.join(map(str, lay)))
            P = _c = ['b', 'c', 'd', 'e'][:len(idx)]
            sets = ''.join('s.f%d = %s; ' % (i, v) for i, v in zip(idx, P)); gets = ''.join('o[%d] = s.f%d; ' % (k, i) for k, i in enumerate(idx))
            args = ', '.join('long %s' % v for v in P); n = len(idx); pk = ['p48'] + ['i64'] * n
            out.append(T('bits/set ' + tag, st + ' void $f(long *o, %s) { struct $S s; s.h = 1; s.t = 2; %s%s o[4] = s.h; o[5] = s.t; }' % (args, sets, gets), 'void', pk))
            out.append(T('bits/gset ' + tag, st + ' struct $S $g; void $f(long *o, %s) { struct $S *p = &$g; p->h = b; p->t = b; %s%s o[4] = p->h; o[5] = p->t; }' % (args, sets.replace('s.', 'p->'), gets.replace('s.', 'p->')), 'void', pk))
            for k, i in enumerate(idx[:3]):
                out.append(T('bits/asgval%d ' % i + tag, st + ' void $f(long *o, %s) { struct $S s; %s o[4] = (s.f%d = %s + 3); %s }' % (args, sets, i, P[0], gets), 'void', pk))
                out.append(T('bits/inc%d ' % i + tag, st + ' void $f(long *o, %s) { struct $S s; %s o[4] = s.f%d++; %s }' % (args, sets, i, gets), 'void', pk))
                out.append(T('bits/dec%d ' % i + tag, st + ' void $f(long *o, %s) { struct $S s; %s o[4] = --s.f%d; %s }' % (args, sets, i, gets), 'void', pk))
                for op in ('+', '|', '<<', '*', '-', '>>'):
                    r = '2' if op in ('<<', '>>') else '(int)' + P[-1]
                    out.append(T('bits/cmpd%d%s ' % (i, opname(op)) + tag, st + ' void $f(long *o, %s) { struct $S s; %s o[4] = s.f%d %s= %s; %s }' % (args, sets, i, op, r, gets), 'void', pk, pre='1'))
            out.append(T('bits/init ' + tag, st + ' void $f(long *o, %s) { struct $S s = {3, %s, 4}; struct $S t = s; %s o[4] = t.h; o[5] = t.t; }' % (args, ', '.join(P), gets.replace('s.', 't.')), 'void', pk))
            out.append(T('bits/ginit ' + tag, st + ' struct $S $g = {1, %s, 2}; void $f(long *o, %s) { struct $S s = $g; %s o[4] = s.h; o[5] = s.t; }' % (', '.join(str((5 * k + 1) & ((1 << min(w, 60)) - 1)) if base[0] == 'u' else '-1' for k, w in enumerate(w for w in lay if w)), args, gets), 'void', pk))
            out.append(T('bits/cmp ' + tag, st + ' int $f(long a, long b) { struct $S s; s.f%d = a; s.f%d = b; return (s.f%d < (long)s.f%d) + (s.f%d == 1) * 2; }' % (idx[0], idx[-1], idx[0], idx[-1], idx[0]), 'i32', ['i64', 'i64']))
    out.append(T('bits/bool', 'struct $S { _Bool x : 1; int y : 3; _Bool z : 1; }; long $f(int b) { struct $S s; struct $S *a = &s; a->x = b; a->y = b; a->z = b & 4; return a->x + a->y * 2 + a->z * 100; }', 'i64', ['i32']))
    out.append(T('bits/mixed', 'struct $S { char c; int x : 5; unsigned y : 9; char d; long z : 37; int e; }; long $f(long b) { struct $S s, *a = &s; a->c = 1; a->d = 2; a->x = b; a->y = b >> 3; a->z = b * 3; a->e = b; return a->c + a->d + a->x * 2 + (long)a->y * 3 + a->z * 5; }', 'i64', ['i64']))
    out.append(T('bits/trunc', 'struct $S { unsigned a : 3, b : 5; int c : 7; }; int $f(int x, int y) { struct $S s = {x, y, x - y}; s.a ^= s.b; s.c -= s.a; return s.a * 10000 + s.b * 100 + s.c; }', 'i32', ['i32', 'i32']))
    return out
