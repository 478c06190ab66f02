"""Check driver: runs the pieces of a property, reports, writes evidence."""
import os, sys, json, time, traceback, hashlib, re
from vlib import *
import vlib
KNOWN = os.path.join(VERIF, 'known_findings.json')
class Piece:
    """outcome of one unit of work: names examined, proved, violations, ..."""
    def __init__(s, name): s.name = name; s.n = 0; s.proved = 0; s.viol = []; s.unconfirmed = []; s.incon = []; s.uncovered = []; s.res = Result(); s.samples = []; s.functions = []; s.wall = 0.0
class Ctx:
    def __init__(s, prop, tier):
        s.prop = prop; s.tier = tier; s.thorough = tier == 'thorough'; s.seed = SEED; s.pieces = []; s.bounds = []; s.assumptions = []; s.functions = []; s.t0 = time.time(); s.errors = []
    def budget(s): return (800 if not s.thorough else 6 * 3600) - (time.time() - s.t0)
    def bound(s, t):
        if t not in s.bounds: s.bounds.append(t)
    def assume(s, t):
        if t not in s.assumptions: s.assumptions.append(t)
    def fn(s, *f):
        for x in f:
            if x not in s.functions: s.functions.append(x)
    def tv(s, name, ts, cc1opts=(), timeout=None, tag='', arch='x64', opts=()):
        """translation validation of a family of templates"""
        from tv import TVRun
        p = Piece(name + tag); t = time.time()
        if s.late(): p.n = len(ts); p.incon = ['%s: skipped after a violation' % x.name for x in ts]; s.pieces.append(p); s.say(p); return p
        r = TVRun(name, arch=arch); r.run(ts, cc1opts=cc1opts, timeout=timeout or int(max(60, min(600, s.budget() - 60))), tag=tag, opts=opts)
        p.n = r.n; p.proved = len(r.proved); p.viol = r.viol; p.unconfirmed = r.unconfirmed; p.incon = ['%s: %s' % kv for kv in r.incon.items()]; p.uncovered = r.uncovered; p.res = r.res; p.wall = time.time() - t
        p.samples = [{'program': x.name + tag, 'code': x.code[:400], 'verdict': 'equal for all inputs' if x.name + tag in r.proved else 'see violations/inconclusive'} for x in ts[:: max(1, len(ts) // 3)][:3]]
        s.pieces.append(p); s.say(p); return p
    def hx(s, name, srcs, harness, expect=(), args=(), timeout=None, opts=(), **kw):
        """a harness over the tree's own functions"""
        from hx import HX
        p = Piece(name); t = time.time(); h = HX(name, srcs, harness, **kw)
        if s.late(): p.n = 1; p.incon = [name + ': skipped after a violation']; s.pieces.append(p); s.say(p); return p
        h.run(expect=list(expect), args=args, timeout=timeout or int(max(60, min(600, s.budget() - 60))), opts=opts)
        p.n = h.cases; p.proved = h.proved; p.viol = h.viol; p.unconfirmed = h.unconfirmed; p.incon = h.incon; p.uncovered = h.uncovered; p.res = h.res; p.labels = h.labels; p.wall = time.time() - t
        p.samples = [{'case': l, 'paths': v, 'verdict': 'holds on every path'} for l, v in sorted(h.labels.items())[:3]]
        s.pieces.append(p); s.say(p); return p
    def late(s): return time.time() - s.t0 > 150 and any(p.viol for p in s.pieces)
    def add(s, p): s.pieces.append(p); s.say(p); return p
    def say(s, p):
        print('  %-34s %5d cases %5d proved %d violations %d unconfirmed %d inconclusive %d not reached; %d queries %.1fs solver %.1fs' % (p.name[:34], p.n, p.proved, len(p.viol), len(p.unconfirmed), len(p.incon), len(p.uncovered), p.res.queries, p.res.stime, p.wall), flush=True)
def load_known():
    try: return json.load(open(KNOWN))
    except FileNotFoundError: return {'findings': [], 'fixed': []}
def is_known(known, prop, v):
    for f in known['findings']:
        if prop in ([f['property']] if isinstance(f['property'], str) else f['property']) and v['label'] == f['label'] and (not f.get('msg') or f['msg'] in v['msg']): return f
    return None
def run_check(prop, title, level, fn, tier):
    c = Ctx(prop, tier); known = load_known(); print('check %s (%s): %s' % (prop, tier, title), flush=True)
    try: fn(c)
    except BuildError as e:
        print('the tree does not build:\n' + str(e)); return 2
    viol, kn, seen = [], [], set()
    for p in c.pieces:
        for v in p.viol:
            f = is_known(known, prop, v)
            if f: kn.append((f, v))
            else: viol.append(v)
    for f, v in kn:
        k = (f['label'], f['what'])
        if k in seen: continue
        seen.add(k); print('KNOWN-FINDING: property=%s %s: %s' % (prop, f['label'], f['what']))
    d = os.path.join(VERIF, 'replays', prop); shutil.rmtree(d, ignore_errors=True)
    for v in viol[:20]:
        os.makedirs(d, exist_ok=True); path = os.path.join(d, hashlib.md5((v['label'] + v['msg']).encode()).hexdigest()[:12] + '.txt')
        with open(path, 'w') as fh:
            fh.write('property: %s\ncase: %s\nviolation: %s\n' % (prop, v['label'], v['msg']))
            for k in ('native', 'opts', 'model', 'src', 'detail'):
                if v.get(k): fh.write('%s:\n%s\n' % (k, v[k] if isinstance(v[k], str) else json.dumps(v[k], indent=1)))
        print('VIOLATION property=%s replay=%s' % (prop, path)); print('  %s: %s %s' % (v['label'], v['msg'], (v.get('native') or '')[:200].replace('\n', ' ')))
    if len(viol) > 20: print('  ... and %d more' % (len(viol) - 20))
    R = Result()
    for p in c.pieces: R.merge(p.res)
    n = sum(p.n for p in c.pieces); proved = sum(p.proved for p in c.pieces)
    cov = {'functions_encoded': c.functions, 'bounds': c.bounds, 'queries': R.queries, 'sat': R.sat, 'unsat': R.unsat, 'unknown': R.unknown, 'solver_time_s': round(R.stime, 2), 'paths': R.paths, 'instructions_executed': R.steps,
           'assertions': R.asserts, 'assertions_needing_the_solver': R.asolver, 'proved': proved, 'inconclusive': sum(len(p.incon) for p in c.pieces), 'unconfirmed': sum(len(p.unconfirmed) for p in c.pieces), 'not_reached': sum(len(p.uncovered) for p in c.pieces),
           'pieces': [{'name': p.name, 'cases': p.n, 'proved': p.proved, 'violations': len(p.viol), 'queries': p.res.queries, 'solver_s': round(p.res.stime, 2), 'wall_s': round(p.wall, 2)} for p in c.pieces],
           'inconclusive_cases': [x for p in c.pieces for x in p.incon][:40], 'unconfirmed_cases': [x['label'] + ': ' + x['msg'] for p in c.pieces for x in p.unconfirmed][:40], 'not_reached_cases': [x for p in c.pieces for x in p.uncovered][:40], 'known_findings': sorted({f['label'] for f, _ in kn}),
           'samples': [x for p in c.pieces for x in p.samples][:12]}
    if level == 'translation_validation': cov.update(programs=n, disagreements_checked=sum(len(p.viol) + len(p.unconfirmed) for p in c.pieces))
    elif level == 'model_checking': cov.update(states=R.paths, transitions=R.steps, traces_validated_against_impl=sum(len(p.viol) + len(p.unconfirmed) for p in c.pieces))
    else: cov['explanation'] = 'bounded symbolic execution of the real functions; every assertion is decided by an SMT solver for all values within the bounds'; cov['evaluations'] = n
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': c.assumptions, 'wall_s': round(time.time() - c.t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as fh: json.dump(ev, fh, indent=1)
    os.rename(path + '.tmp', path)
    print('%s: %d cases, %d proved, %d violations; %d queries, %.1f s solver, %.1f s' % (prop, n, proved, len(viol), R.queries, R.stime, time.time() - c.t0))
    return 1 if viol else 0
