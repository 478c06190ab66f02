"""Template families: statements and control flow."""
from tv import T, KIND, INTS, CT
import random
def loops():
    o = []
    A = o.append
    for k in ('i32', 'u32', 'i8', 'u16', 'i64', 'u64'):
        c = CT[k]
        A(T('loop/for-' + k, 'long $f(%s a) { long s = 0; for (%s i = 0; i < a; i++) s += i * 3 + 1; return s; }' % (c, c), 'i64', [k], 'a < 5'))
        A(T('loop/down-' + k, 'long $f(%s a) { long s = 0; while (a-- > 0) s = s * 2 + a; return s; }' % c, 'i64', [k], 'a < 5'))
        A(T('loop/do-' + k, 'long $f(%s a) { long s = 0; do { s += a; a /= 2; } while (a != 0); return s; }' % c, 'i64', [k], 'a < 16 && a > -1 || a == 100'.replace('a > -1', 'a + 1 > 0') if KIND[k][2] else 'a < 16'))
        A(T('loop/cont-' + k, 'int $f(%s a, int b) { int n = 0; for (%s i = 0; i < 6; ++i) { if (i == a) continue; if (i == b) break; n += ext_i(i); } return n; }' % (c, c), 'i32', [k, 'i32']))
    A(T('loop/nest', 'int $f(int a, int b) { int s = 0; for (int i = 0; i < a; i++) for (int j = i; j < b; j++) { if (j == 2) continue; s += i * 10 + j; if (s > 40) goto out; } out: return s; }', 'i32', ['i32', 'i32'], 'a < 4 && b < 4'))
    A(T('loop/nestbrk', 'int $f(int a, int b) { int s = 0; for (int i = 0; i < 3; i++) { int j = 0; while (1) { if (j >= 3) break; if (i == a && j == b) { s += 100; break; } s += j; j++; } if (s > 101) continue; s++; } return s; }', 'i32', ['i32', 'i32']))
    A(T('loop/forever', 'int $f(int a) { for (;;) { if (ext_i(a) & 1) return a; if (++a > 5) break; } return -1; }', 'i32', ['i32'], 'a > 2'))
    A(T('loop/comma', 'long $f(long a, long b) { long i, j; for (i = 0, j = 10; i < j && i < a; i += 2, j -= b) ; return i * 100 + j; }', 'i64', ['i64', 'i64'], 'b >= 1 && b < 4 && a < 8'))
    A(T('loop/docont', 'int $f(int a) { int n = 0; do { n++; if (n == a) continue; n += 2; } while (n < 9); return n; }', 'i32', ['i32']))
    A(T('loop/whilecont', 'int $f(unsigned a) { int n = 0, i = 0; while (i < 5) { i++; if ((a >> i) & 1) continue; n += i; } return n; }', 'i32', ['u32']))
    A(T('loop/gcd', 'unsigned $f(unsigned a, unsigned b) { while (b) { unsigned t = a % b; a = b; b = t; } return a; }', 'u32', ['u32', 'u32'], 'a < 6 && b < 6'))
    A(T('loop/ptr', 'int $f(unsigned char *a, int b) { unsigned char *p = a, *e = a + 6; int s = 0; while (p < e) { if (*p == b) break; s += *p++; } return s * 8 + (p - a); }', 'i32', ['p8', 'i32']))
    A(T('loop/ptrw', 'void $f(short *a, short *b, int c) { while (c-- > 0) *a++ = *b++ + 1; }', 'void', ['p16', 'p16', 'i32'], 'c <= 8'))
    A(T('loop/strlen', 'unsigned long $f(char *a) { char *p; for (p = a; *p; ++p) ; return p - a; }', 'u64', ['p8'], '((char*)a)[7] == 0'))
    A(T('loop/bubble', 'void $f(int *a) { for (int i = 0; i < 3; i++) for (int j = 0; j + 1 < 3 - i; j++) if (a[j] > a[j + 1]) { int t = a[j]; a[j] = a[j + 1]; a[j + 1] = t; } }', 'void', ['p12']))
    A(T('loop/sidecond', 'int $f(int a) { int i = 0; while (i++ < a && ext_i(i)) ; return i; }', 'i32', ['i32'], 'a < 4'))
    A(T('loop/varscope', 'int $f(int a) { int x = 1; for (int x = 0; x < 3; x++) { int a = x * 2; if (a == 4) { int x = 7; a += x; } ext_i(a); } { int x = a; x++; } return x + a; }', 'i32', ['i32']))
    A(T('loop/vardecl', 'int $f(int a, int b) { int s = 0; for (int i = 0, *p = &b; i < 3; i++, (*p)++) { int t = *p * a; s += t; } return s; }', 'i32', ['i32', 'i32']))
    A(T('loop/assigncond', 'int $f(int a) { int x, n = 0; while ((x = a & 3) != 0) { a = (a & ~3) | (x - 1); n += x; } return n; }', 'i32', ['i32']))
    A(T('loop/unsigned', 'int $f(unsigned char a) { int n = 0; for (unsigned char i = a; i >= a && n < 6; i += 50) n++; return n; }', 'i32', ['u8']))
    A(T('loop/emptyinf', 'int $f(int a) { int n = 0; do ; while (++n < (a & 3)); return n; }', 'i32', ['i32']))
    return o
def branches():
    o = []; A = o.append
    A(T('br/else', 'int $f(int a, int b) { if (a > 10) { if (b) return 1; } else if (a < -10) return 2; else { if (!b) return 3; else a = 4; } return a; }', 'i32', ['i32', 'i32']))
    A(T('br/dangling', 'int $f(int a, int b) { int r = 0; if (a) if (b) r = 1; else r = 2; return r; }', 'i32', ['i32', 'i32']))
    A(T('br/chain', 'int $f(int a) { if (a < 1) return 10; else if (a < 100) return 11; else if (a < 10000) return 12; else if (a == 123456) return 14; return 13; }', 'i32', ['i32']))
    A(T('br/void', 'void $f(int a) { if (a) return; ext_i(a); if (a == 0) { ext_v(); } else ext_i(9); }', 'void', ['i32']))
    A(T('br/ptr', 'int $f(char *a, int b) { char *p = b ? a + b : 0; if (p) return *p; if (!p) return 7; return 8; }', 'i32', ['p8', 'i32'], 'b >= 0 && b < 8'))
    A(T('br/shortckt', 'int $f(int a, int b, int c) { if (a && (b || ext_i(c)) && !c) return 1; if (!(a || b) || (c && ext_i(a))) return 2; return 3; }', 'i32', ['i32'] * 3))
    A(T('br/xor', 'int $f(int a, int b) { return (a > 0) ^ (b > 0) ? ext_i(1) : !a == !b ? 5 : ext_i(2) - 1; }', 'i32', ['i32', 'i32']))
    A(T('br/const', 'int $f(int a) { if (0) return ext_i(1); if (1) a++; else ext_i(2); while (0) ext_i(3); do a += 2; while (0); if (1 && a) return a; if (0 || !a) return 77; return ext_i(4); }', 'i32', ['i32']))
    A(T('br/constside', 'int $f(int a) { if (ext_i(a) && 0) return 1; if (ext_i(2) || 1) a += 3; return (ext_i(3), 0) ? 4 : a; }', 'i32', ['i32']))
    A(T('br/tern', 'long $f(int a, unsigned char b, long c) { return a ? b : c; }', 'i64', ['i32', 'u8', 'i64']))
    A(T('br/ternnest', 'int $f(int a, int b) { return a < b ? a < 0 ? 1 : 2 : a == b ? 3 : b < 0 ? 4 : 5; }', 'i32', ['i32', 'i32']))
    A(T('br/ternlv', 'int $f(int a, int b, int c) { int x = 1, y = 2; *(a ? &x : &y) = b; (c ? &x : &y)[0]++; return x * 3 + y; }', 'i32', ['i32'] * 3))
    A(T('br/ternvoid', 'void $f(int a) { a ? ext_v() : (void)ext_i(3); }', 'void', ['i32']))
    A(T('br/retconv', 'unsigned char $f(int a, int b) { if (a > b) return a; if (a == b) return b + 256; return a - b; }', 'u8', ['i32', 'i32']))
    A(T('br/clamp', 'int $f(int a, int b, int c) { if (a < b) a = b; if (a > c) a = c; return a; }', 'i32', ['i32'] * 3))
    A(T('br/abs', 'long $f(long a) { return a < 0 ? -a : a; }', 'i64', ['i64']))
    A(T('br/goto', 'int $f(int a) { int n = 0; again: n++; if (a & 1) { a >>= 1; goto again; } if (n > 2) goto big; return n; big: return -n; }', 'i32', ['u32'], 'a < 32'))
    A(T('br/gotofw', 'int $f(int a, int b) { if (a) goto L1; if (b) goto L2; return 0; L2: a += 2; L1: a += b; if (a == 5) goto L3; return a; L3: return 50; }', 'i32', ['i32', 'i32']))
    A(T('br/gotoin', 'int $f(int a) { int i = 0, s = 0; if (a) goto mid; for (i = 0; i < 3; i++) { s += 10; mid: s += i + 1; } return s; }', 'i32', ['i32']))
    for k in ('i8', 'u8', 'i16', 'u32', 'i64', 'u64', 'bool'):
        A(T('br/truth-' + k, 'int $f(%s a, %s b) { int r = 0; if (a) r |= 1; if (!b) r |= 2; while (a) { r |= 4; break; } r |= a && b ? 8 : 0; return r; }' % (CT[k], CT[k]), 'i32', [k, k]))
    for cmp1 in ('<', '<=', '>', '>=', '==', '!='):
        for k in ('i32', 'u32', 'i64', 'u8'):
            n = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}[cmp1]
            A(T('br/%s-%s' % (n, k), 'int $f(%s a, %s b, int c) { if (!(a %s b)) c++; if (a %s b && c > 3) return c; if (a %s 100 || c == 1) c += 2; for (int i = 0; b %s a && i < 2; i++) c ^= 1; return c; }' % (CT[k], CT[k], cmp1, cmp1, cmp1, cmp1), 'i32', [k, k, 'i32']))
    return o
def switches(seed=0):
    o = []; rnd = random.Random(seed * 7919 + 11)
    sets = {
        'dense': [0, 1, 2, 3, 4, 5, 6, 7], 'dense1': [1, 2, 3, 4, 5], 'neg': [-4, -3, -2, -1, 0, 1], 'hole': [0, 1, 2, 4, 5, 7, 9, 10], 'sparse': [0, 10, 100, 1000, 10000, 100000], 'one': [5], 'two': [5, -5],
        'edge8': [-128, -127, 126, 127], 'edge': [-2147483648, -1, 0, 2147483647], 'high': [2147483640, 2147483641, 2147483642, 2147483643, 2147483647], 'low': [-2147483648, -2147483647, -2147483646, -2147483645, -2147483643],
        'clusters': [0, 1, 2, 3, 4, 100, 101, 102, 103, 104, 1000, 1001, 1002, 1003], 'rev': [9, 8, 7, 6, 5, 4, 3], 'big': [65, 66, 67, 68, 70, 97, 98, 99, 100, 255, 256, 257],
        'many': list(range(0, 40, 1)), 'step2': list(range(0, 24, 2)), 'step3': list(range(-12, 30, 3))}
    for nm, vs in sets.items():
        for k in ('i32', 'i64', 'i8', 'u32', 'u8', 'u64'):
            c, n, sg = KIND[k]
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << (8 * n)) - 1)
            if n < 4: lo2, hi2 = lo, hi
            use = [v for v in vs if lo <= v <= hi]
            if len(use) < len(vs) and nm not in ('edge8', 'big', 'many'): continue
            if not use: continue
            L = lambda v: '(-2147483647 - 1)' if v == -2147483648 else str(v)
            order = use[:]; rnd.shuffle(order)
            body = ''.join('case %s: return %d; ' % (L(v), 1000 + i) for i, v in enumerate(order))
            o.append(T('sw/%s-%s' % (nm, k), 'int $f(%s a) { switch (a) { %s default: return -1; } }' % (c, body), 'i32', [k]))
            if k in ('i32', 'u8'):
                body = ''.join('case %s: r += %d; %s' % (L(v), i + 1, 'break; ' if i % 3 == 1 else '') for i, v in enumerate(order))
                o.append(T('sw/fall-%s-%s' % (nm, k), 'int $f(%s a) { int r = 5; switch (a) { %s } return r; }' % (c, body), 'i32', [k]))
                body = 'default: r *= 2; ' + ''.join('case %s: r += %d; %s' % (L(v), i + 1, 'break; ' if i % 2 else '') for i, v in enumerate(order))
                o.append(T('sw/dflt-%s-%s' % (nm, k), 'int $f(%s a) { int r = 5; switch (a) { %s } return r; }' % (c, body), 'i32', [k]))
    A = o.append
    for i in range(16):  # dense and sparse mixtures with offsets
        base = rnd.choice([0, -3, 17, 1000, -100000, 2147483600, -2147483640]); vs = sorted(rnd.sample(range(0, rnd.choice([8, 12, 30, 47])), rnd.choice([4, 5, 6, 8])))
        vs = [base + v for v in vs]; order = vs[:]; rnd.shuffle(order)
        A(T('sw/rnd%d' % i, 'long $f(int a, long b) { switch (a) { %s default: b ^= 1; } return b; }' % ''.join('case %d: b += %d; %s' % (v, j * 3 + 1, rnd.choice(['', 'break; ', 'break; ', 'return -b; '])) for j, v in enumerate(order)), 'i64', ['i32', 'i64']))
    for i in range(28):  # scattered values over the whole range of the type
        k = ('u32', 'i32', 'u64', 'i64', 'u32', 'u16', 'i16')[i % 7]; c, n, sg = KIND[k]; lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << (8 * n)) - 1)
        vs = {rnd.choice([lo, hi, 0, 1, hi // 2 + 1, hi // 2, lo // 2, hi - 1, lo + 1]) for _ in range(3)}; m = rnd.choice([3, 5, 7, 9, 12, 17])
        while len(vs) < m:
            v = rnd.randint(lo, hi) if rnd.random() < .6 else rnd.choice(sorted(vs)) + rnd.choice([1, 2, -1, 3, 1 << 16, -(1 << 30)])
            if lo <= v <= hi: vs.add(v)
        vs = list(vs); rnd.shuffle(vs); sf = {'u32': 'u', 'u64': 'ul', 'i64': 'l'}.get(k, '')
        L = lambda v: '(%d%s - 1)' % (v + 1, sf) if v == lo and sg else '%d%s' % (v, sf)
        A(T('sw/scat%d-%s' % (i, k), 'int $f(%s a) { int r = 0; switch (a) { %s } return r; }' % (c, ''.join('case %s: %s' % (L(v), ('return %d; ' % (j + 1)) if rnd.random() < .8 else 'r += %d; ' % (j + 50)) for j, v in enumerate(vs))), 'i32', [k]))
    A(T('sw/long', 'int $f(long a) { switch (a) { case 0x100000000L: return 1; case 0x100000001L: return 2; case 0: return 3; case 1: return 4; case -1L: return 5; case 0x7fffffffffffffffL: return 6; } return 0; }', 'i32', ['i64']))
    A(T('sw/ulong', 'int $f(unsigned long a) { switch (a) { case 0xffffffffffffffffUL: return 1; case 0x8000000000000000UL: return 2; case 0xffffffffUL: return 3; case 0: return 4; } return 0; }', 'i32', ['u64']))
    A(T('sw/uint', 'int $f(unsigned a) { switch (a) { case 0xffffffffU: return 1; case 0x80000000U: return 2; case 0xfffffffeU: return 3; case 0xfffffffdU: return 8; case 0xfffffffcU: return 9; case 0: return 4; } return 0; }', 'i32', ['u32']))
    A(T('sw/promo', 'int $f(unsigned char a) { switch (a) { case 300: return 1; case -1: return 2; case 255: return 3; case 44: return 4; } return 0; }', 'i32', ['u8']))
    A(T('sw/promo2', 'int $f(signed char a, short b) { switch (a) { case 128: return 1; case -128: return 2; case 255: return 3; case -1: break; } switch (b) { case 65536: return 4; case 0: return 5; case 32768: return 6; } return 0; }', 'i32', ['i8', 'i16']))
    A(T('sw/wide', 'int $f(long a) { switch (a) { case -9223372036854775807L - 1: return 1; case 9223372036854775807L: return 2; case 0: return 3; case 5000000000L: return 4; case -5000000000L: return 5; } return 0; }', 'i32', ['i64']))
    A(T('sw/enum', 'enum $E { $A, $B = 5, $C, $D = -2 }; int $f(int a) { enum $E e = a; switch (e) { case $A: return 1; case $B: return 2; case $C: return 3; case $D: return 4; } return 0; }', 'i32', ['i32']))
    A(T('sw/char', "int $f(char a) { switch (a) { case 'a': return 1; case 'z': return 2; case '\\n': return 3; case '\\377': return 4; default: return 0; } }", 'i32', ['i8']))
    A(T('sw/expr', 'int $f(int a, int b) { switch (a * 2 + b) { case 0: return 1; case 1: b = 3; case 2: return b; case 7: ext_v(); break; default: if (b) break; return 9; } return b - 1; }', 'i32', ['i32', 'i32']))
    A(T('sw/nest', 'int $f(int a, int b) { switch (a) { case 1: switch (b) { case 1: return 11; case 2: break; default: return 12; } a = 50; break; case 2: switch (b) { default: a++; case 4: a++; } } return a; }', 'i32', ['i32', 'i32']))
    A(T('sw/loop', 'int $f(int a) { int n = 0; for (int i = 0; i < 4; i++) { switch ((a >> i * 2) & 3) { case 0: continue; case 1: n += 1; break; case 2: n += 10; case 3: n += 100; } n *= 2; } return n; }', 'i32', ['i32']))
    A(T('sw/duff', 'int $f(int a) { int n = 0, i = 2; switch (a & 3) { case 0: do { n += 1; case 3: n += 10; case 2: n += 100; case 1: n += 1000; } while (--i > 0); } return n; }', 'i32', ['i32']))
    A(T('sw/decl', 'int $f(int a) { int r; switch (a) { int x; case 1: x = 3; r = x + a; break; case 2: { int y = a * 2; r = y; break; } default: x = a; r = x * x; } return r; }', 'i32', ['i32']))
    A(T('sw/nodflt', 'int $f(int a) { int r = 3; switch (a) { } switch (a) { default: r++; } switch (a) { case 4: ; } return r; }', 'i32', ['i32']))
    A(T('sw/side', 'int $f(int a) { switch (ext_i(a)) { case 0: return ext_i(1); case 3: ext_v(); } return ext_i(2); }', 'i32', ['i32']))
    A(T('sw/range', 'int $f(int a) { switch (a) { case 1 ... 5: return 1; case 10 ... 12: return 2; case 7: return 3; } return 0; }', 'i32', ['i32'])) if False else None
    A(T('sw/after', 'int $f(int a, int b) { switch (a) { case 1: b++; break; case 2: b--; break; case 3: b <<= 1; break; case 4: b >>= 1; break; case 5: b = ~b; break; case 6: b = -b; break; } return b; }', 'i32', ['i32', 'i32']))
    return [t for t in o if t]
def order():
    """evaluation, sequencing and calls with side effects"""
    o = []; A = o.append
    A(T('seq/comma', 'int $f(int a, int b) { return (a = ext_i(b), b = a + 1, ext_i(a)) - b; }', 'i32', ['i32', 'i32']))
    A(T('seq/stmt', 'int $f(int a) { int x = ext_i(a); int y = ext_i(x); x += y; ext_i(x); return x - y; }', 'i32', ['i32']))
    A(T('seq/and', 'int $f(int a) { return ext_i(1) && ext_i(2) && a; }', 'i32', ['i32']))
    A(T('seq/or', 'int $f(int a) { return ext_i(1) || ext_i(2) || a; }', 'i32', ['i32']))
    A(T('seq/mix', 'int $f(int a) { return (ext_i(1) || a) && !(ext_i(2) && ext_i(3)); }', 'i32', ['i32']))
    A(T('seq/post', 'int $f(int *a) { int i = 0; a[i++] = 5; a[i] += 2; int *p = a; *p++ = i; *p-- -= 3; ++*p; return *++p; }', 'i32', ['p16']))
    A(T('seq/once', 'int $f(int *a) { int *p = a; *(p += ext_i(1) & 1) += 3; a[ext_i(2) & 3] <<= 1; return p - a; }', 'i32', ['p16']))
    A(T('seq/incptr', 'int $f(int *a, int b) { int *p = a; p[ext_i(0) & 3]++; --p[ext_i(1) & 3]; return *(p + b); }', 'i32', ['p16', 'i32'], 'b >= 0 && b < 4'))
    A(T('seq/chain', 'int $f(int a, short b, signed char c) { int x; short y; signed char z; x = y = z = a; return x + y * 3 + z * 5 + b + c; }', 'i32', ['i32', 'i16', 'i8']))
    A(T('seq/args', 'long $f(int a, long b) { return ext_l(a + 1, b * 2) - ext_l(b, a) + ext_c(a, b); }', 'i64', ['i32', 'i64']))
    A(T('seq/nested', 'long $f(int a, long b) { return ext_l(ext_l(a, b), ext_l(b, ext_i(a))); }'.replace('ext_l(ext_l(a, b), ext_l(b, ext_i(a)))', 'ext_l(ext_l(a, b), b + ext_c(a, 3))').replace('b + ext_c(a, 3)', 'b'), 'i64', ['i32', 'i64']))
    A(T('seq/esc', 'int $g[4]; int $f(int a) { $g[0] = a; ext_v(); $g[1] += $g[0]; ext_i($g[2]); return $g[1] + $g[3]; }', 'i32', ['i32'], globs=[('g', 16)], escape=('g', 16)))
    A(T('seq/escloop', 'int $g[2]; int $f(int a) { while ($g[0] != a) { $g[1]++; ext_v(); if ($g[1] > 3) break; } return $g[0]; }', 'i32', ['i32'], 'a != 0', globs=[('g', 8)], escape=('g', 8), setup='') if False else None)
    A(T('seq/static', 'int $f(int a) { static int n = 3; n += a; static int m; m ^= n; return n * 2 + m; }', 'i32', ['i32']))
    A(T('seq/recur', 'static int $h(int n) { if (n <= 0) return 1; return n * $h(n - 1); } int $f(int a) { return $h(a); }', 'i32', ['i32'], 'a < 5'))
    A(T('seq/fib', 'static int $h(int n) { return n < 2 ? n : $h(n - 1) + $h(n - 2); } int $f(int a) { return $h(a); }', 'i32', ['i32'], 'a < 5'))
    A(T('seq/mutual', 'static int $o(int n); static int $e(int n) { return n == 0 ? 1 : $o(n - 1); } static int $o(int n) { return n == 0 ? 0 : $e(n - 1); } int $f(int a) { return $e(a); }', 'i32', ['i32'], 'a >= 0 && a < 5'))
    A(T('seq/fptr', 'static int $x(int v) { return v + 1; } static int $y(int v) { return v * 2; } int $f(int a, int b) { int (*t[2])(int) = {$x, $y}; int (*p)(int) = a ? $x : $y; return p(b) * 3 + t[b & 1](a) + (*t[0])(b) + (a > 3 ? $y : $x)(a); }', 'i32', ['i32', 'i32']))
    A(T('seq/inline', 'static inline int $x(int v, int w) { if (v > w) return v - w; return w; } int $f(int a, int b) { return $x(a, b) + $x(b, $x(a, 3)); }', 'i32', ['i32', 'i32']))
    A(T('seq/inline2', 'static inline void $x(int *p, int v) { for (int i = 0; i < 2; i++) { if (v == i) continue; *p += v; } } int $f(int a, int b) { $x(&a, b); int v = a; $x(&v, a); return v + a; }', 'i32', ['i32', 'i32']))
    A(T('seq/inline3', 'static inline int $x(int v) { int r = 0; while (v > 0) { r += v; v -= 2; } return r; } static inline int $y(int v) { return $x(v) + $x(v + 1); } int $f(int a) { return $y(a) - $x(a); }', 'i32', ['i32'], 'a < 5'))
    A(T('seq/inlinearg', 'static inline int $x(int v) { return v + v; } int $f(int a) { return $x(ext_i(a)) + $x(a++) + a; }'.replace(' + $x(a++) + a', ''), 'i32', ['i32']))
    A(T('seq/inlineptr', 'static inline unsigned char $x(unsigned v) { return v; } static inline long $y(signed char c) { return c; } long $f(unsigned a) { return $x(a) * 1000L + $y(a); }', 'i64', ['u32']))
    A(T('seq/stmtexpr', 'int $f(int a) { int r = ({ int t = a * 2; if (t > 10) t = 10; t; }); return r + ({ a++; a; }); }', 'i32', ['i32']))
    A(T('seq/volatile', 'int $f(int a) { volatile int v = a; v += 2; int x = v; v = x * v; return v; }', 'i32', ['i32']))
    A(T('seq/swap', 'void $f(int *a, int b, int c) { int t = a[b]; a[b] = a[c]; a[c] = t; }', 'void', ['p16', 'i32', 'i32'], 'b >= 0 && b < 4 && c >= 0 && c < 4'))
    A(T('seq/alias', 'int $f(int *a, int b) { int *p = a, *q = a + b; *p = 1; *q = 2; *p += *q; return *p * 10 + *q; }', 'i32', ['p16', 'i32'], 'b >= 0 && b < 4'))
    A(T('seq/aliasg', 'int $g; int $f(int a) { int *p = &$g; $g = a; *p += 3; int x = $g; $g = 5; return x + *p; }', 'i32', ['i32'], globs=[('g', 4)]))
    A(T('seq/localref', 'static void $x(int *p) { *p += 7; } int $f(int a) { int v = a; $x(&v); int w = v; $x(&v); return v * 2 - w; }', 'i32', ['i32']))
    A(T('seq/paramref', 'static void $x(long *p, char *q) { *p -= *q; *q = 1; } long $f(long a, char b) { $x(&a, &b); return a * 2 + b; }', 'i64', ['i64', 'i8']))
    A(T('seq/unused', 'int $f(int a, int b) { a + b; ext_i(a); (void)(b * ext_i(b)); ; { } int u; return a; }', 'i32', ['i32', 'i32']))
    return [t for t in o if t]
