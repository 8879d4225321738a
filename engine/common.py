"""Driver shared by all properties: compile the real sources to IR, run proof units, run the native oracle,
write evidence, print the verdict."""
import os, sys, json, time, subprocess, hashlib, traceback, threading, multiprocessing, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from ir import Module, Unsupported, Ty, PTR, I64, I32, I8
import sym
from sym import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TRIDENT_REPO', '/repo')
BUILD = os.path.join(os.environ.get('VERIF_BUILD', '/var/tmp'), 'trident-verif-%d' % os.getuid())
CXXFLAGS = ['-std=c++11', '-DNDEBUG', '-fsigned-char', '-include', 'cstdint', '-w']
INCS = lambda: ['-I' + REPO + '/include', '-I' + REPO + '/rdf3x/include', '-I' + REPO + '/rapidjson/include', '-I' + VERIF + '/shim', '-I' + REPO]
PASSES = 'sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg,loop-simplify,adce'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def workdir():
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix='w', dir=BUILD)


def compile_ir(src, wd, keep=None, extra=()):
    """src: path under /verif/harness or /repo. Returns Module parsed from -O1-style, un-inlined IR."""
    base = os.path.join(wd, os.path.basename(src).replace('.', '_'))
    cmd = ['clang++'] + CXXFLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-fno-strict-aliasing', '-S', '-emit-llvm'] + INCS() + list(extra) + [src, '-o', base + '.0.ll']
    p = run(cmd)
    if p.returncode:
        raise BuildError('clang failed on %s\n%s' % (src, p.stderr[-3000:]))
    passes = PASSES
    args = []
    if keep:
        passes = 'internalize,globaldce,' + passes
        args = ['-internalize-public-api-list=' + ','.join(keep)]
    p = run(['opt', '-S', '-passes=' + passes] + args + [base + '.0.ll', '-o', base + '.ll'])
    if p.returncode:
        raise BuildError('opt failed on %s\n%s' % (src, p.stderr[-3000:]))
    return Module(base + '.ll')


def compile_native(src, out, extra=(), opt='-O1', san=True, defs=()):
    fl = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,vptr,shift'] if san else []
    cmd = ['g++'] + CXXFLAGS + [opt, '-g', '-fno-access-control', '-fpermissive'] + fl + list(defs) + INCS() + ['-I' + VERIF + '/native', src] + list(extra) + ['-o', out, '-lpthread']
    p = run(cmd)
    if p.returncode:
        raise BuildError('native build failed for %s\n%s' % (src, p.stderr[-3000:]))
    return out


def big_stack(fn):
    res = {}

    def w():
        try:
            res['v'] = fn()
        except BaseException as e:
            res['e'] = e
            res['tb'] = traceback.format_exc()
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=w)
    t.start(); t.join()
    if 'e' in res:
        raise res['e']
    return res.get('v')


def _unit_entry(q, mod, name, fn, kw, budget):
    t0 = time.time()
    out = {'unit': name, 'obs': [], 'status': 'ok', 'error': None}
    E = None
    try:
        def body():
            nonlocal E
            E = Engine(mod, name, budget=budget)
            fn(E, **kw)
        big_stack(body)
    except Unsupported as e:
        out['status'] = 'unsupported'; out['error'] = str(e)[:500]
    except z3.Z3Exception as e:
        out['status'] = 'unsupported'; out['error'] = 'z3: ' + str(e)[:300] + traceback.format_exc()[-800:]
    except Exception as e:
        out['status'] = 'unsupported'; out['error'] = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
    if E is not None:
        out['obs'] = [dict(name=o.name, status=o.status, backend=o.backend, t=round(o.t, 3), kind=o.where, detail=o.detail) for o in E.obs]
        out['solver_s'] = round(E.t_solver, 2)
        out['queries'] = E.nq
        out['inlined'] = sorted(E.inlined)
        out['contracts_used'] = sorted(E.called_contracts)
        out['loops'] = E.loops_info
        out['assumptions'] = sorted(E.assumptions)
        out['paths'] = E.path_count
        out['slowest_query_s'] = round(E.slowest, 2)
        out['wall_hit'] = E.wall_hit
    out['wall_s'] = round(time.time() - t0, 2)
    q.put(out)


def run_units(units, jobs=8, budget=500):
    """units: list of (name, module, fn, kwargs). Forked processes, results in order."""
    ctx = multiprocessing.get_context('fork')
    results = [None] * len(units)
    pend = list(range(len(units)))
    live = {}
    while pend or live:
        while pend and len(live) < jobs:
            i = pend.pop(0)
            name, mod, fn, kw = units[i]
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_unit_entry, args=(q, mod, name, fn, kw, budget))
            p.start()
            live[i] = (p, q, time.time())
        for i in list(live):
            p, q, t0 = live[i]
            if not q.empty():
                results[i] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
            elif not p.is_alive():
                if not q.empty():
                    results[i] = q.get()
                else:
                    results[i] = {'unit': units[i][0], 'obs': [], 'status': 'unsupported', 'error': 'solver process died (exit %s)' % p.exitcode}
                del live[i]
            elif time.time() - t0 > budget + 60:
                p.kill()
                results[i] = {'unit': units[i][0], 'obs': [], 'status': 'unsupported', 'error': 'unit time limit'}
                del live[i]
        time.sleep(0.02)
    return results


# ------------------------------------------------------------------ helpers for proof units
def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v) if v.size() < w else v


def rd(E, st, p, ty=I64):
    E.mute += 1
    try:
        return E.load(st, p, ty)
    finally:
        E.mute -= 1


def show(results, verbose=False):
    for r in results:
        bad = [o for o in r['obs'] if o['status'] in ('refuted', 'unknown')]
        print('%-45s %-12s obs=%d bad=%d paths=%s solver=%ss wall=%ss %s' % (r['unit'], r['status'], len(r['obs']), len(bad), r.get('paths'), r.get('solver_s'), r.get('wall_s'), r['error'] or ''))
        for o in bad[:12]:
            print('     -', o['status'], o['name'], (o['detail'] or [])[:14] if verbose else '')
        if verbose:
            for l in r.get('loops', []):
                print('     loop', l['function'].split('(')[0], 'inv', l['invariants'], '/', l['candidates'], 'rounds', l['rounds'], l['kept'][-60:])
