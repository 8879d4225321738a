#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]  -- decide one property against /repo's current tree."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':      # identical queries in identical order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, importlib, threading, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'props')]
from common import *


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = importlib.import_module(pid)
    wd = workdir()
    try:
        rc = decide(pid, P, tier, seed, wd, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


class Native(threading.Thread):
    def __init__(self, P, wd, tier, seed):
        super().__init__()
        self.P, self.wd, self.tier, self.seed = P, wd, tier, seed
        self.res = []          # dicts: driver, ok, cases, out
        self.err = None

    def run(self):
        try:
            for d in self.P.NATIVE:
                src = os.path.join(VERIF, 'native', d['src'])
                exe = os.path.join(self.wd, d['src'].replace('.cpp', '') + '.exe')
                compile_native(src, exe, extra=[x.replace('$REPO', REPO) for x in d.get('extra', [])], defs=d.get('defs', ()), san=d.get('san', True), opt=d.get('opt', '-O1'))
                n = d.get('thorough' if self.tier == 'thorough' else 'quick', 2000)
                self.res.append(self.go(d, exe, self.seed, n))
        except BuildError as e:
            self.err = str(e)

    def go(self, d, exe, seed, n):
        t = time.time()
        lim = d.get('limit', 240 if self.tier == 'thorough' else 120)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
        cwd = tempfile.mkdtemp(dir=self.wd)
        try:
            p = subprocess.run([exe, str(seed), str(n)], capture_output=True, text=True, errors='replace', timeout=lim, env=env, cwd=cwd)
            out = p.stdout[-6000:] + p.stderr[-6000:]
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            out = ((e.stdout or b'').decode(errors='replace') + '\nHANG: the driver exceeded %d s' % lim)[-6000:]
            rc = 'timeout'
        r = {'driver': d['src'], 'rc': rc, 'secs': round(time.time() - t, 2), 'out': out, 'argv': [str(seed), str(n)], 'cases': 0, 'distinct': 0, 'known': []}
        for l in out.split('\n'):
            if l.startswith('CASES '):
                x = l.split()
                r['cases'] = int(x[1]); r['distinct'] = int(x[2]) if len(x) > 2 else int(x[1])
            if l.startswith('KNOWN '):
                r['known'].append(l[6:].strip())
        return r


def load_known(pid):
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def decide(pid, P, tier, seed, wd, t0):
    nat = Native(P, wd, tier, seed)
    nat.start()
    build_err = None
    units, results = [], []
    try:
        units = P.units(wd, tier)
    except (BuildError, Unsupported, KeyError) as e:
        build_err = str(e)
    if units:
        only = os.environ.get('UNIT')
        if only:
            units = [u for u in units if only in u[0]]
        results = run_units(units, jobs=7, budget=getattr(P, 'BUDGET', 420))
    nat.join()
    if os.environ.get('SHOW'):
        show(results, True)
        for r in nat.res:
            print('native', r['driver'], r['rc'], r['cases'], r['secs'], r['out'][-1500:])
    known = load_known(pid)
    # --- classify
    obs = [dict(o, unit=r['unit']) for r in results for o in r['obs'] if o['kind'] != 'cover']
    covers = [dict(o, unit=r['unit']) for r in results for o in r['obs'] if o['kind'] == 'cover']
    failed = [o for o in obs if o['status'] != 'proved']
    unsup = [r for r in results if r['status'] != 'ok']
    hit = {r['unit'] for r in results if r.get('wall_hit')}
    vacuous = []
    for r in results:
        if r['status'] == 'ok':
            if not [o for o in r['obs'] if o['kind'] not in ('cover', 'invariant')]:
                vacuous.append(r['unit'] + ': no obligations')
            cv = [o for o in r['obs'] if o['kind'] == 'cover']
            if not cv or all(o['status'] == 'refuted' for o in cv):
                vacuous.append(r['unit'] + ': precondition unreachable')
    natfail = [r for r in nat.res if r['rc'] != 0]
    kf = [k for r in nat.res for k in r['known']]
    for k in sorted(set(kf)):
        listed = [x for x in known if k.startswith(x.split(' :: ')[0])]
        if listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        else:
            natfail.append({'driver': 'known-finding probe', 'rc': 1, 'out': 'not listed: ' + k, 'argv': [], 'cases': 0})
    evid = evidence(pid, P, tier, seed, results, obs, failed, unsup, vacuous, nat, t0, units)
    replay = None
    rc = 0
    if natfail or (failed and not build_err):
        hard = [o for o in failed if o['unit'] not in hit]
        if natfail or hard:
            rc = 1
            replay = os.path.join(wd_replay(), '%s-%s-%d.txt' % (pid, tier, int(time.time())))
            with open(replay, 'w') as f:
                f.write('property %s\n' % pid)
                if natfail:
                    f.write('\n== failing input on the real code (native oracle) ==\n')
                    for r in natfail:
                        f.write('driver %s  arguments %s  exit %s\nreplay: python3-vt %s/replay.py %s %s %s\n%s\n' % (r['driver'], r['argv'], r['rc'], VERIF, pid, r['driver'], ' '.join(r['argv']), r['out']))
                f.write('\n== obligations the verifier no longer accepts ==\n')
                for o in failed:
                    f.write('%s / %s : %s (%s)\n' % (o['unit'], o['name'], o['status'], o['backend']))
                    for l in (o['detail'] or [])[:40]:
                        f.write('      %s\n' % l)
                for r in unsup:
                    f.write('undecided unit %s: %s\n' % (r['unit'], r['error']))
            evid['violations'] = 1
            for o in failed[:8]:
                print('obligation not discharged: %s / %s (%s)' % (o['unit'], o['name'], o['status']))
            for r in natfail[:3]:
                print('native: %s exit %s: %s' % (r['driver'], r['rc'], first_fail(r['out'])))
            print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if natfail else ' no-failing-input-found'))
    if rc == 0:
        if vacuous:
            print('error: vacuous proof: ' + '; '.join(vacuous))
            rc = 2
        elif nat.err:
            print('error: native oracle does not build: ' + nat.err[-1500:])
            rc = 2
        elif (build_err or unsup or failed):
            if not nat.res:
                print('error: nothing could be decided: %s' % (build_err or ''))
                rc = 2
            else:
                for r in unsup:
                    print('undecided by the verifier (bounded stand-in used): %s: %s' % (r['unit'], (r['error'] or '').split('\n')[0]))
                if build_err:
                    print('undecided by the verifier (bounded stand-in used): %s' % build_err[:600])
        print('%s %s: %d/%d obligations discharged in %d units, %d native cases, %.1fs' % (pid, 'held' if rc == 0 else 'ERROR', len(obs) - len(failed), len(obs), len(results), sum(r['cases'] for r in nat.res), time.time() - t0))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    return rc


def first_fail(out):
    for l in out.split('\n'):
        if l.startswith('FAIL') or 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'HANG' in l:
            return l[:300]
    return out[-200:].replace('\n', ' | ')


def wd_replay():
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    return d


def evidence(pid, P, tier, seed, results, obs, failed, unsup, vacuous, nat, t0, units):
    backends = {}
    for o in obs:
        if o['status'] == 'proved':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    inl = sorted({f for r in results for f in r.get('inlined', [])})
    contracts = sorted({f for r in results for f in r.get('contracts_used', [])})
    ass = sorted(set(getattr(P, 'ASSUMPTIONS', [])) | {a for r in results for a in r.get('assumptions', [])})
    undec = ['%s: %s' % (r['unit'], (r['error'] or '').split('\n')[0]) for r in unsup]
    return {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(obs), 'discharged': len(obs) - len(failed),
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
            'trusted_base': ['clang 18 front end and opt passes (%s)' % PASSES, 'the VC generator /verif/engine/{ir,sym}.py', 'z3 %s, cvc5 1.1.2' % z3.get_version_string(), 'contracts assumed, not proved: ' + ('; '.join(getattr(P, 'TRUSTED', [])) or 'none')],
            'units': [{'unit': r['unit'], 'status': r['status'], 'obligations': len([o for o in r['obs'] if o['kind'] != 'cover']), 'solver_s': r.get('solver_s'), 'queries': r.get('queries'), 'slowest_query_s': r.get('slowest_query_s'), 'paths': r.get('paths'),
                       'loops': [{k: v for k, v in l.items() if k != 'kept'} for l in r.get('loops', [])]} for r in results],
            'functions_under_contract': getattr(P, 'FUNCS', []),
            'functions_executed_symbolically': inl[:200],
            'callee_contracts_used': contracts,
            'backends': backends,
            'solver_seconds': round(sum(r.get('solver_s') or 0 for r in results), 1),
            'not_discharged': ['%s / %s' % (o['unit'], o['name']) for o in failed],
            'undecided_units': undec + vacuous,
            'bounded_not_proved': getattr(P, 'BOUNDED', []),
            'native_contract_validation': [{'driver': r['driver'], 'cases': r['cases'], 'distinct': r['distinct'], 'secs': r['secs'], 'exit': r['rc']} for r in nat.res],
            'sample_obligations': ['%s / %s' % (o['unit'], o['name']) for o in obs if o['kind'] == 'post'][:12],
        },
        'assumptions': ass, 'wall_s': round(time.time() - t0, 2), 'violations': 0,
    }


if __name__ == '__main__':
    main()
