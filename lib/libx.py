"""Checks of the tree's C library (libsrc): the functions themselves, executed symbolically."""
import os, glob
from vlib import *
def _src(*dirs, without=()):
    out = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(REPO, 'libsrc', d, '*.c'))):
            if os.path.basename(f) not in without: out.append(os.path.relpath(f, REPO))
    return out
ONLY = []  # development: a single case
def _names(h):
    import re; return re.findall(r'F\((\w+)\)', open(os.path.join(RT, h)).read().split('static const struct { const char *n;')[1])
MISC = ('longjmp.c', 'setjmp.c', 'errno.c')
HOST = ('exit.c', 'atexit.c', '__cxa_atexit.c', 'environ.c', 'getenv.c', 'getrandom.c', 'mkstemp.c', 'mkstemps.c', 'tmpfile.c')
def string(c, n=4):
    return c.hx('string', _src('string') + _src('misc', without=MISC), 'h_string.c', expect=_names('h_string.c'), rename_libc=True, flags=['-DN=%d' % n] + ONLY, timeout=400)
def numeric(c, n=3):
    return c.hx('numeric', _src('misc', without=MISC) + _src('string') + _src('stdlib', without=HOST), 'h_numeric.c', expect=_names('h_numeric.c'), rename_libc=True, flags=['-DN=%d' % n] + ONLY, timeout=400)
def printf(c):
    return c.hx('printf', _src('misc', without=MISC) + _src('string') + _src('math') + _src('stdio', without=HOST), 'h_printf.c', expect=_names('h_printf.c'), rename_libc=True, flags=ONLY, timeout=400)
def memory(c):
    return c.hx('memory', _src('string') + _src('stdlib', without=HOST) + _src('misc', without=MISC), 'h_memory.c', expect=_names('h_memory.c'), rename_libc=True, flags=ONLY, timeout=400)
def stdio(c, k=None):
    return c.hx('stdio', _src('misc', without=MISC) + _src('string') + _src('math') + _src('stdio', without=HOST), 'h_stdio.c', expect=_names('h_stdio.c'), rename_libc=True, flags=(['-DK=%d' % k] if k else []) + ONLY, timeout=400)
HLIB = [os.path.join(RT, 'model_table.c')]
def _host(strip=()): return _src('misc', without=MISC) + _src('string') + _src('math') + _src('stdlib', without=HOST + ('malloc.c', 'calloc.c', 'realloc.c') + tuple(strip)) + _src('stdio', without=HOST + ('assert.c',))
def _tool(*globs, without=()):
    out = []
    for g in globs: out += [os.path.relpath(f, REPO) for f in sorted(glob.glob(os.path.join(REPO, 'src', g))) if os.path.basename(f) not in without]
    return out
FE = ['cc/frontend/*.c']
INC = lambda *d: ['-I' + os.path.join(REPO, 'src', x) for x in d]
def lexer(c):
    return c.hx('literals', _tool(*FE) + _tool('util/util.c') + _host(('strtod.c', 'strtold.c', 'atof.c')), ['h_lex.c', 'model_table.c'], expect=_names('h_lex.c'), rename_libc=True, flags=INC('cc/frontend', 'util', 'cc/backend') + ONLY, timeout=400)
def cpp(c, **d):
    return c.hx('preprocessor', _tool('cpp/*.c', without=('cpp.c',)) + _tool('cc/frontend/*.c', 'util/util.c') + _host(('strtod.c', 'strtold.c', 'atof.c')), ['h_cpp.c', 'model_table.c'], expect=_names('h_cpp.c'), rename_libc=True, flags=INC('cpp', 'cc/frontend', 'util', 'cc/backend') + ['-D%s=%s' % x for x in d.items()] + ONLY, timeout=700)

def ld(c, arch='x64'):
    num = {'x64': 1, 'aarch64': 2, 'riscv64': 3}[arch]; own = {'x64': ['pc32'], 'riscv64': ['pcrel_pair', 'abs_pair', 'call', 'jal', 'branch', 'cbranch', 'cj'], 'aarch64': ['page', 'lo12', 'call26']}; names = [n for n in _names('h_ld.c') if not any(n in v for k, v in own.items() if k != arch)]
    return c.hx('linker-' + arch, ['src/ld/ld.c', 'src/ld/elfobj.c', 'src/util/archive.c', 'src/util/elfutil.c', 'src/util/util.c'] + [x for x in _host(('strtod.c', 'strtold.c', 'atof.c')) if not x.endswith('stdio/_file.c')], ['h_ld.c', 'model_table.c', 'unbuf.c'], expect=names, rename_libc=True, flags=INC('util') + ['-I' + os.path.join(REPO, 'libsrc')] + ['-Dmain=ld_main', '-DXCC_TARGET_ARCH=%d' % num] + ONLY, timeout=700)
def ldrv(c): return ld(c, 'riscv64')
def lda64(c): return ld(c, 'aarch64')
