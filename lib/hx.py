"""Harness checks: the tree's own source files, compiled to IR and executed symbolically by a harness."""
import os, re, shutil, tempfile, hashlib, time
from vlib import *
def libc_names():
    """global names the tree's C library defines (they are prefixed so that they do not meet the host's)"""
    out = set(['stdin', 'stdout', 'stderr', '__fileman', 'environ', 'read', 'write', 'open', 'close', 'lseek', 'fstat', 'brk', 'sbrk', 'free', 'srand48'])
    for d, _, fs in os.walk(os.path.join(REPO, 'libsrc')):
        if '/_wasm' in d or '/tests' in d or '/obj' in d: continue
        for f in fs:
            if f.endswith('.c'):
                for m in re.finditer(r'^(?!static|typedef|#|extern|//)[A-Za-z_][\w \t\*]*?\b(\w+)\s*\([^;{}()]*(?:\([^()]*\)[^;{}()]*)*\)\s*\{', open(os.path.join(d, f), errors='replace').read(), re.M): out.add(m.group(1))
    return sorted(out - {'if', 'while', 'for', 'switch', 'main', 'alloca'})
HFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffreestanding', '-fno-builtin', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-w', '-g0', '-fno-jump-tables', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-fsanitize=shift-exponent', '-fsanitize-trap=all']
class HX:
    """one harness: sources of the tree + harness files of /verif/rt"""
    def __init__(s, tag, srcs, harness, flags=(), arch='x64', rename_libc=False, native_flags=(), extra=(), rt=()):
        s.tag = tag; s.srcs = list(srcs); s.harness = harness if isinstance(harness, (list, tuple)) else [harness]; s.flags = list(flags); s.rename = rename_libc; s.native_flags = list(native_flags); s.extra = list(extra); s.rt = list(rt)
        s.res = Result(); s.viol = []; s.unconfirmed = []; s.incon = []; s.labels = {}; s.cases = 0; s.proved = 0; s.uncovered = []
    def common(s, d):
        fl = list(s.flags) + ['-I' + RT]
        if s.rename:
            h = os.path.join(d, 'xrename.h')
            open(h, 'w').write(''.join('#define %s xcc_%s\n' % (n, n) for n in libc_names()) + '#define strtof xcc_strtof\n#ifndef __ASSEMBLER__\nfloat strtof(const char *, char **);\n#endif\n'); fl = ['-I' + os.path.join(REPO, 'include'), '-include', h] + fl
        return fl
    def run(s, expect=None, args=(), timeout=240, opts=(), entry='harness'):
        """expect: labels that must be reached (coverage guard)"""
        d = tempfile.mkdtemp(prefix='hx-', dir=scratch()); build_symx(); fl = s.common(d)
        def path(x): return x if x.startswith('/') else os.path.join(REPO, x)
        srcs = [path(x) for x in s.srcs] + [path(os.path.join(RT, x)) for x in s.harness]
        def comp(a):
            i, f = a; o = os.path.join(d, '%d.bc' % i); r = sh([CLANG] + HFLAGS + fl + ['-c', '-emit-llvm', '-o', o, f])
            if r.returncode: raise BuildError(f + ': ' + r.stderr.decode(errors='replace')[-2000:])
            return o
        objs = pmap(comp, list(enumerate(srcs))) + list(s.extra) + [rt_bitcode(os.path.join(RT, x)) for x in s.rt]
        bc = link_bc(os.path.join(d, 'all.bc'), objs)
        R = run_symx(bc, entry=entry, args=args, timeout=timeout, opts=opts)
        s.take(R, d, srcs, fl, args, expect or [])
        if not os.environ.get('XCCV_KEEP'): shutil.rmtree(d, ignore_errors=True)
        return s
    def native(s, d, srcs, fl):
        exe = os.path.join(d, 'replay')
        def comp(a):
            i, f = a; o = os.path.join(d, 'n%d.o' % i)
            r = sh(['gcc', '-O1', '-g0', '-fno-strict-aliasing', '-fwrapv', '-ffreestanding', '-fno-builtin', '-w', '-fcommon', '-fsanitize=address,shift-exponent', '-fsanitize-undefined-trap-on-error', '-DNATIVE', '-fno-omit-frame-pointer', '-c'] + fl + s.native_flags + ['-o', o, f], cwd=d)
            if r.returncode: raise RuntimeError('native harness build failed: ' + r.stderr.decode(errors='replace')[-2000:])
            return o
        objs = pmap(comp, list(enumerate(srcs)))
        must(['gcc', '-O1', '-w', '-fsanitize=address', '-Wl,--unresolved-symbols=ignore-all', '-o', exe] + objs + [os.path.join(RT, 'native.c')] + [os.path.join(RT, x) for x in s.rt] + ['-I' + RT, '-lm'])
        return exe
    def replay(s, exe, m, args):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=1:handle_segv=0')
        try: p = sh([exe, m] + list(args), timeout=40, env=env); txt = p.stdout.decode(errors='replace') + ''.join(l + '\n' for l in p.stderr.decode(errors='replace').split('\n') if 'ERROR: AddressSanitizer' in l or ' #0 ' in l or ' #1 ' in l)[:600]; rc = p.returncode
        except subprocess.TimeoutExpired: txt = 'REPLAY violation: does not terminate'; rc = 1
        return rc, txt.strip()
    def take(s, R, d, srcs, fl, args, expect):
        cand = {}
        for r in R.of('violation', 'memerror', 'divzero'): cand.setdefault(r.get('label', ''), []).append(r)
        for r in R.of('limit', 'engine', 'inconclusive'): s.incon.append('%s: %s' % (r.get('label', ''), r.get('msg', '')))
        exe = None
        for lab, rs in sorted(cand.items()):
            if exe is None: exe = s.native(d, srcs, fl)
            ok = None
            for r in rs[:6]:
                m = os.path.join(d, 'model-%s.txt' % hashlib.md5(lab.encode()).hexdigest()[:8]); write_model(r, m); rc, txt = s.replay(exe, m, args)
                if rc == 1: ok = (r, txt); break
            if ok: s.viol.append({'label': s.tag + '/' + lab, 'msg': ok[0].get('msg', ''), 'native': ok[1], 'model': dict(ok[0].get('model') or {}, choices=ok[0].get('choices')), 'kind': 'counterexample'})
            else: s.unconfirmed.append({'label': s.tag + '/' + lab, 'msg': rs[0].get('msg', ''), 'model': rs[0].get('model')})
        s.labels = R.labels; s.cases = len([l for l in R.labels if l]); bad = set(cand) | {x.split(':')[0] for x in s.incon}; s.proved = len([l for l in R.labels if l and l not in bad and (not expect or l in R.cover)])
        s.uncovered = [l for l in expect if l not in R.cover and l not in bad]; s.res.merge(R)
