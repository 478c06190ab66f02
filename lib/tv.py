"""Translation validation: functions compiled by the tree's own cc1+as are executed on symbolic
arguments (machine-code interpreter inside symx) and compared with a reference compilation."""
import os, re, json, time, shutil, hashlib
from vlib import *
KIND = {'i8': ('signed char', 1, 1), 'u8': ('unsigned char', 1, 0), 'i16': ('short', 2, 1), 'u16': ('unsigned short', 2, 0), 'i32': ('int', 4, 1), 'u32': ('unsigned int', 4, 0),
        'i64': ('long', 8, 1), 'u64': ('unsigned long', 8, 0), 'bool': ('_Bool', 1, 0), 'f32': ('float', 4, None), 'f64': ('double', 8, None)}
INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
CT = {k: v[0] for k, v in KIND.items()}
class T:
    """One template program. code uses $name for everything external; $f is the entry.
    params: kinds, named a,b,c...; 'pN' is a pointer to N symbolic bytes. globs: (name, size) compared (and symbolic on entry).
    pre: C condition on the arguments. ext: uses the external functions. mode 'wrap': called through a clang-compiled caller."""
    def __init__(s, name, code, ret, params, pre='1', globs=(), escape='', opts=(), wrap=False, setup='', group=None, outs=None, post='', comp='', opt=(), inc=()):
        s.name = name; s.code = code; s.ret = ret; s.params = list(params); s.pre = pre; s.globs = list(globs); s.escape = escape; s.wrap = wrap; s.setup = setup; s.group = group or name.split('/')[0]; s.post = post; s.comp = comp; s.opt = opt; s.inc = inc
EXTDECL = 'int ext_i(int); long ext_l(long, long); double ext_d(double); float ext_f(float, double); void ext_v(void); unsigned char ext_c(signed char, unsigned short); int ext_va(int, ...);\n'
CPPDEF = {a: ['-D__XCC', '-D__LP64__', '-D__linux__', '-D' + m, '-D__STDC__', '-D__STDC_VERSION__=201112L'] for a, m in (('x64', '__x86_64__'), ('riscv64', '__riscv'), ('aarch64', '__aarch64__'))}  # as the driver defines them
HEAD = '#include "tvrt.h"\n'
def _c_names(n): return [chr(97 + i) for i in range(n)]
def incs(ts, ids): return ''.join('#include <%s>\n' % h for h in sorted({h for i in ids for h in ts[i].inc}))
def gen_ref(ts, ids):
    out = [incs(ts, ids) + EXTDECL]
    for i in ids:
        t = ts[i]; out.append('#line 1 "t%d"\n' % i + (t.code + '\n' + t.comp).replace('$', 'R%d_' % i) + '\n')
    return ''.join(out)
def gen_sut(ts, ids):
    return incs(ts, ids) + EXTDECL + ''.join(ts[i].code.replace('$', 'S%d_' % i) + '\n' for i in ids)
def _decl(k):
    if k[0] == 'p': return 'void *'
    return CT[k]
def gen_harness(ts, ids, arch='x64'):
    o = [HEAD]; NI = 6 if arch == 'x64' else 8
    for i in ids:
        t = ts[i]
        P = _c_names(len(t.params))
        proto = '%s R%d_f(%s);' % ('void' if t.ret == 'void' else _decl(t.ret), i, ', '.join(_decl(k) for k in t.params) or 'void')
        o.append(proto)
        for g, n in t.globs: o.append('extern uint8_t R%d_%s[];' % (i, g))
        b = ['void T%d(void) { symx_label("%s");' % (i, t.name.replace('"', "'").replace('\\', '\\\\'))]
        b.append('Call K; memset(&K, 0, sizeof K);')
        for k, nm in zip(t.params, P):
            if k[0] == 'p':
                n = int(k[1:]); b.append('static uint8_t %sR[%d] __attribute__((aligned(16))), %sS[%d] __attribute__((aligned(16))); symbytes(%sR, %d, "%s"); for (int i = 0; i < %d; i++) %sS[i] = %sR[i];' % (nm, n, nm, n, nm, n, nm, n, nm, nm))
                b.append('void *%s = %sR;' % (nm, nm))
            elif k == 'bool': b.append('_Bool %s; { unsigned char z; SYM(&z, 1, "%s"); symx_assume(z < 2); %s = z; }' % (nm, nm, nm))
            else: b.append('%s %s; SYM(&%s, %d, "%s");' % (CT[k], nm, nm, KIND[k][1], nm))
        if t.pre != '1': b.append('symx_assume(%s);' % t.pre)
        if t.setup: b.append(t.setup.replace('$', 'R%d_' % i))
        for g, n in t.globs:
            b.append('{ uint8_t *gs = (uint8_t *)sut_sym("S%d_%s"); if (!gs) symx_fail("global missing"); symbytes(R%d_%s, %d, "%s"); for (int i = 0; i < %d; i++) gs[i] = R%d_%s[i]; }' % (i, g, i, g, n, g, n, i, g))
        if t.escape:
            g, n = t.escape; b.append('escR = R%d_%s; escS = (uint8_t *)sut_sym("S%d_%s"); escN = %d;' % (i, g, i, g, n))
        call = 'R%d_f(%s)' % (i, ', '.join(P))
        b.append('side = 0;'); b.append(call + ';' if t.ret == 'void' else '%s RV = %s;' % (_decl(t.ret), call))
        b.append('side = 1;')
        ni = nf = 0; ns = 0
        for k, nm in zip(t.params, P):
            if k in ('f32', 'f64'):
                v = '({ uint64_t q = 0; memcpy(&q, &%s, %d); %s q; })' % (nm, KIND[k][1], '' if k != 'f32' else 'q |= 0xffffffff00000000ull;' if arch == 'riscv64' else 'q = hi32(q, 4);')
                if nf < 8: b.append('K.freg[%d] = %s;' % (nf, v)); nf += 1
                else: b.append('K.stk[%d] = %s;' % (ns, v)); ns += 1
            else:
                if k[0] == 'p': v = '(uint64_t)%sS' % nm
                elif KIND[k][1] == 8: v = '(uint64_t)%s' % nm
                elif arch == 'riscv64': v = '(uint64_t)(int64_t)(int)%s' % nm
                else: v = 'hi32((uint64_t)(int64_t)%s, 4)' % nm
                if ni < NI: b.append('K.ireg[%d] = %s;' % (ni, v)); ni += 1
                else: b.append('K.stk[%d] = %s;' % (ns, v)); ns += 1
        b.append('K.ni = %d; K.nf = %d; K.ns = %d;' % (ni, nf, ns))
        b.append('if (sut_call("S%d_f", &K)) symx_fail(sut_err);' % i)
        if t.ret in ('f32', 'f64'):
            fb, conv = ('fbits', 'bf') if t.ret == 'f32' else ('dbits', 'bd')
            b.append('symx_assert(%s(RV) == %s(%s(K.xmm0)), "result differs");' % (fb, fb, conv))
        elif t.ret != 'void':
            n = 8 if t.ret[0] == 'p' else KIND[t.ret][1]
            ut = {1: 'uint8_t', 2: 'uint16_t', 4: 'uint32_t', 8: 'uint64_t'}[n]
            if t.ret[0] == 'p': b.append('symx_assert((uint64_t)RV - (uint64_t)aR == K.rax - (uint64_t)aS, "result pointer differs");')
            elif arch == 'riscv64' and n == 4: b.append('symx_assert((uint32_t)RV == (uint32_t)K.rax, "result differs"); symx_assert((uint64_t)(int64_t)(int)RV == K.rax, "result not sign-extended as the calling convention requires");')
            else: b.append('symx_assert((%s)RV == (%s)K.rax, "result differs");' % (ut, ut))
        for k, nm in zip(t.params, P):
            if k[0] == 'p': b.append('{ int ok = 1; for (int i = 0; i < %d; i++) ok &= %sR[i] == %sS[i]; symx_assert(ok, "memory contents differ"); }' % (int(k[1:]), nm, nm))
        for g, n in t.globs:
            b.append('{ uint8_t *gs = (uint8_t *)sut_sym("S%d_%s"); int ok = 1; for (int i = 0; i < %d; i++) ok &= gs[i] == R%d_%s[i]; symx_assert(ok, "global variable differs"); }' % (i, g, n, i, g))
        if t.post: b.append(t.post)
        b.append('cmpEv(); symx_cover("%s"); }' % t.name.replace('"', "'").replace('\\', '\\\\'))
        o.append('\n  '.join(b))
    return '\n'.join(o) + '\n'
def gen_main(n):
    return ''.join('void T%d(void);\n' % i for i in range(n)) + '#include "tvrt.h"\nstatic void (*const TT[])(void) = {%s};\nvoid harness(void) { sut_init(); TT[symx_choose(%d)](); }\n' % (', '.join('T%d' % i for i in range(n)), n)
REFOPT = ['-O1', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-builtin', '-fno-jump-tables', '-w', '-g0', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-fcommon', '-std=gnu11']
def ref_bitcode(src, out):
    """reference semantics: clang's front end, memory promoted to registers, no other optimisation"""
    must([CLANG] + REFOPT + ['-Xclang', '-disable-llvm-passes', '-I' + RT, '-I' + EMU, '-c', '-emit-llvm', '-o', out + '.0', src])
    must(['opt-18', '-passes=sroa', '-o', out, out + '.0'])
def compile_sut(ts, d, cc1opts=(), arch='x64', keep_s=False):
    """compile every template with the tree's compiler; returns (objects, {index: error})"""
    td = tools(arch); bad = {}; objs = []
    def one(ids, tag):
        c = os.path.join(d, 's%s.c' % tag); s = c[:-1] + 's'; ob = c[:-1] + 'o'
        open(c, 'w').write(gen_sut(ts, ids))
        try:
            src = c
            if any(ts[i].inc for i in ids):
                r = sh([os.path.join(td, 'cpp')] + CPPDEF[arch] + ['-I' + os.path.join(REPO, 'include'), c], timeout=60); src = c[:-1] + 'i'
                if r.returncode: return None, 'cpp exit %d: %s' % (r.returncode, (r.stderr.decode(errors='replace').strip().split('\n') or [''])[0])
                open(src, 'wb').write(r.stdout)
            r = sh([os.path.join(td, 'cc1')] + list(cc1opts) + [src], timeout=60)
            if r.returncode: return None, 'cc1 exit %d: %s' % (r.returncode, (r.stderr.decode(errors='replace').strip().split('\n') or [''])[0])
            open(s, 'wb').write(r.stdout)
            r = sh([os.path.join(td, 'as'), '-o', ob, s], timeout=60)
            if r.returncode or not os.path.exists(ob): return None, 'as exit %d: %s' % (r.returncode, (r.stderr.decode(errors='replace').strip().split('\n') or [''])[0])
        except subprocess.TimeoutExpired: return None, 'compiler did not finish in 60 s'
        return ob, None
    def rec(ids, tag):
        ob, e = one(ids, tag)
        if ob: return [ob], {}
        if len(ids) == 1: return [], {ids[0]: e}
        m = len(ids) // 2; a, ba = rec(ids[:m], tag + 'a'); b, bb = rec(ids[m:], tag + 'b'); ba.update(bb); return a + b, ba
    n = max(1, (len(ts) + 149) // 150); chunks = [list(range(k, len(ts), n)) for k in range(n)]
    for os_, b in pmap(lambda kc: rec(kc[1], str(kc[0])), list(enumerate(chunks))): objs += os_; bad.update(b)
    cs = [i for i, t in enumerate(ts) if t.comp and i not in bad]
    def comp(k):   # the other side of the call boundary, compiled by gcc
        c = os.path.join(d, 'comp%d.c' % k); ids = cs[k::8]
        if not ids: return []
        open(c, 'w').write(incs(ts, ids) + EXTDECL + ''.join((''.join(re.findall(r'struct \$S \{.*?\}; (?=static|struct|void|extern|long)', ts[i].code)[:1]) + ts[i].comp).replace('$', 'S%d_' % i) + '\n' for i in ids))
        must(['gcc', '-O1', '-fwrapv', '-fno-strict-aliasing', '-ffp-contract=off', '-fno-builtin', '-fno-stack-protector', '-fcf-protection=none', '-fno-tree-vectorize', '-fpie', '-fno-jump-tables', '-fno-asynchronous-unwind-tables', '-w', '-c', '-o', c[:-1] + 'o', c]); return [c[:-1] + 'o']
    for o in pmap(comp, range(8)): objs += o
    return objs, bad
def build_native(d, srcs, defs=()):
    exe = os.path.join(d, 'replay'); r = sh(['gcc', '-O1', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-ffp-contract=off', '-fno-builtin', '-fcommon', '-w', '-DNATIVE', '-I' + RT, '-I' + EMU] + list(defs) + ['-o', exe] + srcs)
    if r.returncode: raise RuntimeError('native replay build failed: ' + r.stderr.decode(errors='replace')[-2000:])
    return exe
class TVRun:
    """runs a list of templates; collects results and confirmed violations"""
    def __init__(s, tag, arch="x64"): s.arch = arch; s.tag = tag; s.res = Result(); s.viol = []; s.unconfirmed = []; s.n = 0; s.proved = set(); s.incon = {}; s.uncovered = []; s.names = []
    def run(s, ts, cc1opts=(), timeout=240, tag='', opts=()):
        if not ts: return s
        d = tempfile.mkdtemp(prefix='tv-', dir=scratch()); build_symx()
        if s.arch != 'x64': ts = [t for t in ts if not t.comp]
        objs, bad = compile_sut(ts, d, cc1opts, s.arch)
        for i, e in bad.items(): s.viol.append({'label': ts[i].name + tag, 'msg': 'valid program not compiled: ' + e, 'src': gen_sut(ts, [i]), 'opts': list(cc1opts), 'kind': 'reject'})
        nch = max(1, min(64, (len(ts) + 79) // 80)); jobs = []
        for k in range(nch):
            ids = list(range(k, len(ts), nch))
            for nm, txt in (('ref%d' % k, gen_ref(ts, ids)), ('h%d' % k, gen_harness(ts, ids, s.arch))):
                open(os.path.join(d, nm + '.c'), 'w').write(txt); jobs.append(nm)
        open(os.path.join(d, 'main.c'), 'w').write(gen_main(len(ts))); jobs.append('main')
        def cc(nm): ref_bitcode(os.path.join(d, nm + '.c'), os.path.join(d, nm + '.bc'))
        pmap(cc, jobs)
        sut, emu, defs = {'x64': ('sut_x64.c', 'x64emu.c', ()), 'riscv64': ('sut_rv64.c', 'rv64emu.c', ('-DRVABI',)), 'aarch64': ('sut_a64.c', 'a64emu.c', ('-DRVABI', '-DA64ABI'))}[s.arch]
        rts = [rt_bitcode(os.path.join(RT, 'tvrt.c'), defs), rt_bitcode(os.path.join(RT, sut)), rt_bitcode(os.path.join(RT, 'elfobj.c')), rt_bitcode(os.path.join(EMU, emu))]
        bc = link_bc(os.path.join(d, 'all.bc'), [os.path.join(d, j + '.bc') for j in jobs] + rts)
        R = run_symx(bc, args=objs, timeout=timeout, opts=opts)
        s.n += len(ts); s.names += [t.name + tag for t in ts]
        byname = {t.name: i for i, t in enumerate(ts)}
        cand = {}
        for r in R.records:
            if r['kind'] in ('violation', 'memerror', 'divzero'):
                cand.setdefault(r['label'], []).append(r)
            elif r['kind'] in ('inconclusive', 'limit', 'engine'):
                s.incon.setdefault(r.get('label', '') + tag, r.get('msg', ''))
        exe = None
        for lab, rs in sorted(cand.items()):
            if byname.get(lab) in bad: continue
            if exe is None:
                exe = build_native(d, [os.path.join(d, j + '.c') for j in jobs] + [os.path.join(RT, 'tvrt.c'), os.path.join(RT, 'native.c'), os.path.join(RT, sut), os.path.join(RT, 'elfobj.c'), os.path.join(RT, 'tramp_x64.S') if s.arch == 'x64' else os.path.join(EMU, emu)] + ([] if s.arch == 'x64' else ['-lm']), defs)
                clean = [k for k, t in enumerate(ts) if t.name in R.cover and t.name not in cand and t.pre == '1'][:3]
                for k in clean:  # the replay program itself must agree on templates the solver proved
                    m = os.path.join(d, 'sane.txt'); open(m, 'w').write('choice %d\n' % k)
                    if sh([exe, m] + objs, timeout=40).returncode == 1: raise RuntimeError('replay self-test failed on ' + ts[k].name)
            ok = None
            for r in rs[:4]:
                m = os.path.join(d, 'model-%s.txt' % hashlib.md5(lab.encode()).hexdigest()[:8]); write_model(r, m)
                try: p = sh([exe, m] + objs, timeout=40); txt = p.stdout.decode(errors='replace'); rc = p.returncode
                except subprocess.TimeoutExpired: txt = 'REPLAY violation: does not terminate'; rc = 1
                if rc == 1: ok = (r, txt.strip()); break
            i = byname.get(lab)
            if ok: s.viol.append({'label': lab + tag, 'msg': ok[0].get('msg', ''), 'native': ok[1], 'model': {k: v for k, v in (ok[0].get('model') or {}).items() if k[0] in 'abcdefgh' or k.startswith('extret')}, 'src': gen_sut(ts, [i]) if i is not None else '', 'opts': list(cc1opts), 'kind': 'miscompile'})
            else: s.unconfirmed.append({'label': lab + tag, 'msg': rs[0].get('msg', ''), 'model': rs[0].get('model')})
        for t in ts:
            st = R.labels.get(t.name, {})
            if t.name in R.cover and t.name not in cand and t.name + tag not in s.incon: s.proved.add(t.name + tag)
            elif t.name not in cand and byname[t.name] not in bad and t.name not in R.cover: s.uncovered.append(t.name + tag)
        s.res.merge(R); shutil.rmtree(d, ignore_errors=True) if not os.environ.get('XCCV_KEEP') else None
        return s
