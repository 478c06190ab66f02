"""Shared machinery of the checks: building the tree under test, running symx, replay, evidence."""
import os, sys, subprocess, hashlib, json, time, tempfile, shutil, re, fcntl, atexit, shlex, concurrent.futures
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XCC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
SYMX = os.path.join(BUILD, 'symx', 'symx')
RT = os.path.join(VERIF, 'rt')
EMU = os.path.join(VERIF, 'emu')
NCPU = min(8, os.cpu_count() or 8)
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
LLVM_LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'

def sh(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE); kw.setdefault('stderr', subprocess.PIPE)
    return subprocess.run(cmd, shell=isinstance(cmd, str), **kw)
def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s\n%s' % (cmd, (r.stdout or b'').decode(errors='replace')[-2000:], (r.stderr or b'').decode(errors='replace')[-4000:]))
    return r
def pmap(f, xs, n=NCPU):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='xccv-')
        pid = os.getpid()
        if not os.environ.get('XCCV_KEEP'):
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
        else:
            sys.stderr.write('scratch: %s\n' % _scratch)
    return _scratch
class Lock:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def build_symx():
    with Lock('symx'):
        must(['make', '-j4', '-C', os.path.join(VERIF, 'symx'), 'BUILD=' + os.path.join(BUILD, 'symx')])

def repo_files():
    out = []
    for top in ('Makefile', 'src', 'libsrc', 'include'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p): out.append(top); continue
        for d, ds, fs in os.walk(p):
            rel = os.path.relpath(d, REPO)
            if rel.startswith('libsrc/obj') or rel.startswith('libsrc/tests'): ds[:] = []; continue
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.inc', '.S', '.s')) or f == 'Makefile': out.append(os.path.join(rel, f))
    return sorted(out)
_hash = None
def repo_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(f.encode() + b'\0'); h.update(open(os.path.join(REPO, f), 'rb').read()); h.update(b'\0')
        _hash = h.hexdigest()[:24]
    return _hash
def prune(dirname, keep):
    """keep the few most recent cache entries"""
    base = os.path.join(BUILD, dirname)
    if not os.path.isdir(base): return
    es = sorted((os.path.getmtime(os.path.join(base, e)), e) for e in os.listdir(base))
    for _, e in es[:-keep]:
        shutil.rmtree(os.path.join(base, e), ignore_errors=True)

def source_copy(key):
    d = os.path.join(BUILD, 'src', repo_hash() + '-' + key)
    return d
def _copy_tree(d):
    for f in repo_files():
        t = os.path.join(d, f); os.makedirs(os.path.dirname(t), exist_ok=True); shutil.copyfile(os.path.join(REPO, f), t)

ARCH_MAKE = {'x64': ['ARCHTYPE=x64'], 'riscv64': ['ARCHTYPE=riscv64', 'PLATFORM=posix'], 'aarch64': ['ARCHTYPE=aarch64', 'PLATFORM=posix']}
class BuildError(Exception): pass
def tools(arch='x64', libs=False, wcc=False):
    """Build the tree's own tools (out of tree) and return the directory they are in."""
    key = arch + ('-libs' if libs else '') + ('-wcc' if wcc else '')
    d = os.path.join(BUILD, 'tools', repo_hash() + '-' + key)
    with Lock('tools-' + key):
        if os.path.exists(os.path.join(d, '.ok')): os.utime(d); return d
        prune('tools', 6)
        shutil.rmtree(d, ignore_errors=True); _copy_tree(d)
        env = dict(os.environ); env['CC'] = 'gcc'; env['LANG'] = env['LC_ALL'] = 'C.UTF-8'
        def mk(*a):
            r = sh(['make', '-j%d' % NCPU, '-C', d, 'OPTIMIZE=-O2'] + ARCH_MAKE[arch] + list(a), env=env)
            if r.returncode: raise BuildError((r.stdout + r.stderr).decode(errors='replace')[-3000:])
        mk('exes')
        if libs: mk('libs')
        if wcc:
            r = sh(['make', '-j%d' % NCPU, '-C', d, 'OPTIMIZE=-O2', 'wcc'], env=env)
            if not os.path.exists(os.path.join(d, 'wcc')): raise BuildError((r.stdout + r.stderr).decode(errors='replace')[-3000:])
        open(os.path.join(d, '.ok'), 'w').close()
    return d

def _make_cmds(arch, target):
    """compile commands of a make target: list of (source, flags)"""
    d = os.path.join(BUILD, 'mk', repo_hash()); os.makedirs(d, exist_ok=True)
    r = sh(['make', '-n', '-B', '-C', REPO, 'CC=gcc'] + (ARCH_MAKE.get(arch, [])) + [target])
    out = []; txt = r.stdout.decode(errors='replace').replace('\\\n', ' ')
    for line in txt.split('\n'):
        if ' -c ' not in line or not line.strip().startswith('gcc'): continue
        w = shlex.split(line); flags = []; src = None; i = 1
        while i < len(w):
            if w[i] == '-o': i += 2; continue
            if w[i].startswith(('-D', '-I')): flags.append(w[i])
            elif w[i] == '-std=c11' : flags.append(w[i])
            elif w[i].endswith('.c'): src = w[i]
            i += 1
        if src: out.append((src, flags))
    if not out: raise BuildError('no compile commands from make -n ' + target + r.stderr.decode(errors='replace')[-500:])
    seen = set(); res = []
    for s, f in out:
        if s not in seen: seen.add(s); res.append((s, f))
    return res

BCFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-w', '-g0', '-fno-jump-tables', '-U_FORTIFY_SOURCE', '-fno-stack-protector']
def tool_bitcode(tool, arch='x64', extra_defs=(), main_name=None):
    """bitcode of one of the tree's programs (its main renamed)"""
    main_name = main_name or tool.replace('-', '_') + '_main'
    key = '%s-%s-%s' % (repo_hash(), tool, arch) + (hashlib.md5(' '.join(extra_defs).encode()).hexdigest()[:6] if extra_defs else '')
    d = os.path.join(BUILD, 'bc', key); out = os.path.join(d, 'all.bc')
    with Lock('bc-' + tool + arch):
        if os.path.exists(out): os.utime(d); return out
        prune('bc', 10); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        cmds = _make_cmds(arch, tool)
        def comp(a):
            i, (src, flags) = a; o = os.path.join(d, '%d.bc' % i)
            fl = [('-I' + os.path.join(REPO, f[2:])) if f.startswith('-I') and not f[2:].startswith('/') else f for f in flags]
            r = sh([CLANG] + BCFLAGS + fl + list(extra_defs) + ['-Dmain=' + main_name, '-I' + os.path.join(RT, 'inc'), '-c', '-emit-llvm', '-o', o, os.path.join(REPO, src)], cwd=d)
            if r.returncode: raise BuildError(src + ': ' + r.stderr.decode(errors='replace')[-2000:])
            return o
        objs = pmap(comp, list(enumerate(cmds)))
        must([LLVM_LINK, '-o', out + '.tmp'] + objs); os.rename(out + '.tmp', out)
    return out
def rt_bitcode(src, defs=(), target=None, opt='-O1'):
    """bitcode of a runtime/emulator/model source file of /verif"""
    h = hashlib.sha256()
    for f in [src] + [os.path.join(p, x) for p in (RT, EMU) for x in sorted(os.listdir(p)) if x.endswith('.h')]:
        h.update(open(f, 'rb').read())
    h.update(repr((defs, target, opt)).encode())
    d = os.path.join(BUILD, 'rtbc'); os.makedirs(d, exist_ok=True); out = os.path.join(d, os.path.basename(src) + '.' + h.hexdigest()[:16] + '.bc')
    if not os.path.exists(out):
        t = out + '.%d.tmp' % os.getpid()
        must([CLANG] + ([] if not target else ['-target', target]) + [opt] + BCFLAGS[1:] + list(defs) + ['-I' + RT, '-I' + EMU, '-c', '-emit-llvm', '-o', t, src]); os.rename(t, out)
    return out
def link_bc(out, ins):
    must([LLVM_LINK, '-o', out] + list(ins)); return out

class Result:
    def __init__(self): self.records = []; self.queries = self.sat = self.unsat = self.unknown = self.asserts = self.asolver = 0; self.stime = 0.0; self.paths = 0; self.steps = 0; self.cover = set(); self.status = {}; self.limits = 0; self.wall = 0.0; self.labels = {}
    def merge(self, o):
        self.records += o.records
        for k in ('queries', 'sat', 'unsat', 'unknown', 'asserts', 'asolver', 'stime', 'paths', 'steps', 'limits', 'wall'): setattr(self, k, getattr(self, k) + getattr(o, k))
        self.cover |= o.cover
        for k, v in o.status.items(): self.status[k] = self.status.get(k, 0) + v
        for k, v in o.labels.items():
            t = self.labels.setdefault(k, {})
            for a, b in v.items(): t[a] = t.get(a, 0) + b
        return self
    def of(self, *kinds): return [r for r in self.records if r['kind'] in kinds]
def run_symx(bc, entry='harness', args=(), timeout=300, jobs=NCPU, opts=(), out=None):
    out = out or tempfile.mktemp(prefix='symx-', suffix='.jsonl', dir=scratch()); t0 = time.time()
    cmd = [SYMX, bc, '--entry', entry, '--out', out, '--timeout', str(timeout), '--jobs', str(jobs)] + list(opts)
    for a in args: cmd += ['--arg', a]
    try: p = sh(cmd, timeout=timeout + 90)
    except subprocess.TimeoutExpired:
        p = None
    R = Result(); R.wall = time.time() - t0; R.summary = None
    if os.path.exists(out):
        for line in open(out, errors='replace'):
            try: r = json.loads(line)
            except ValueError: R.records.append({'kind': 'engine', 'label': '', 'msg': 'bad line'}); continue
            if r['kind'] == 'path':
                R.paths += 1; R.status[r['status']] = R.status.get(r['status'], 0) + 1
                l = R.labels.setdefault(r.get('label', ''), {}); l[r['status']] = l.get(r['status'], 0) + 1
                for k in ('queries', 'sat', 'unsat', 'unknown', 'asserts', 'asolver', 'stime', 'steps'): setattr(R, k, getattr(R, k) + r.get(k, 0))
                R.cover |= set(r.get('cover', []))
                if r['status'] in ('limit', 'error', 'inconclusive'): R.records.append({'kind': 'limit', 'label': r.get('label', ''), 'msg': r.get('msg', '')})
            elif r['kind'] == 'summary': R.summary = r; R.limits += r.get('limits', 0)
            else: R.records.append(r)
        os.unlink(out)
    if p is None or R.summary is None:
        R.records.append({'kind': 'engine', 'label': '', 'msg': 'symx did not finish: ' + ('timeout' if p is None else (p.stderr or b'').decode(errors='replace')[-400:])})
    R.stderr = b'' if p is None else p.stderr
    return R
def write_model(rec, path):
    with open(path, 'w') as f:
        for c in rec.get('choices', []): f.write('choice %d\n' % c)
        for k, v in (rec.get('model') or {}).items(): f.write('%s %s\n' % (k.replace(' ', '_'), v))
