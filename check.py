#!/usr/bin/env python3-vt
"""check.py Cxx [--thorough] [--only SPEC] [-v]: decides one property on /repo's current tree.

1. every spec of the property is executed symbolically over the real source (deductive part);
2. the run-time contracts of the property are exercised on the real code (bounded part, also the
   replayer of counterexamples);
3. evidence/<id>.json is written and the verdict printed.
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV_PY = '/opt/venv/bin/python'
MEM = 3 << 30


def child(mod, name, q, scale):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        sys.setrecursionlimit(20000)
        from engine import spec
        out = spec.execute(spec.SPECS[name], scale)
    except MemoryError:
        out = dict(spec=name, error='out of memory')
    except BaseException as e:
        import traceback
        out = dict(spec=name, error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
    q.put((name, out))
    q.close()
    q.join_thread()
    os._exit(0)


def run_specs(prop, only, thorough, deadline):
    try:
        importlib.import_module('specs.' + prop)
        from engine import spec
    except ModuleNotFoundError as e:
        if e.name == 'specs.' + prop:
            return {}, []
        return {}, ['specs could not be loaded: %s' % e]
    except BaseException as e:
        return {}, ['specs could not be loaded: %s: %s' % (type(e).__name__, e)]
    names = [n for n in spec.SPECS if not only or only in n]
    results, running, todo = {}, {}, list(names)
    ctx = mp.get_context('fork')
    scale = 4.0 if thorough else 1.0
    while todo or running:
        while todo and len(running) < 8:
            n = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=child, args=(prop, n, q, scale))
            p.start()
            running[n] = (p, q, time.time())
        time.sleep(0.02)
        for n, (p, q, t0) in list(running.items()):
            if not q.empty():
                results[n] = q.get()[1]
                p.join(5)
                del running[n]
            elif not p.is_alive():
                if q.empty():
                    results[n] = dict(spec=n, error='worker ended without a result (exit %s)' % p.exitcode)
                    del running[n]
            elif time.time() - t0 > spec.SPECS[n].seconds * scale + 45 or time.time() > deadline:
                p.kill()
                p.join()
                results[n] = dict(spec=n, error='time limit')
                del running[n]
    return results, []


def start_rtc(prop, args, out):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               ZOUNDS_REPO=os.environ.get('ZOUNDS_REPO', '/repo'))
    env.pop('PYTHONPATH', None)
    return subprocess.Popen([VENV_PY, '-W', 'ignore', os.path.join(HERE, 'rtc', 'main.py'), prop, out] + args, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=HERE, start_new_session=True)


def finish(p, out, limit):
    try:
        txt = p.communicate(timeout=limit)[0].decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        txt = p.communicate()[0].decode('utf8', 'replace') + '\n(time limit)'
    try:
        r = json.load(open(out))
        os.remove(out)
    except Exception:
        r = dict(crashed=True, output=txt[-4000:], failures=[], cases={})
    r['exit'] = p.returncode
    if r.get('partial'):            # stopped before its end: what it found until then counts
        r.update(crashed=True, output=txt[-4000:])
    if os.path.exists(out + '.new'):
        os.remove(out + '.new')
    if 'output' not in r:
        r['output'] = txt[-2000:]
    return r


def known(prop):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out[key[4:] if key.startswith('key=') else key] = what
    return out


def main():
    try:
        import z3
    except ImportError:
        print('no verifier: run this with python3-vt')
        return 2
    args = sys.argv[1:]
    prop = args[0]
    thorough = '--thorough' in args
    verbose = '-v' in args
    only = args[args.index('--only') + 1] if '--only' in args else None
    if thorough:
        os.environ['VERIF_THOROUGH'] = '1'
    t0 = time.time()
    limit = 800 if thorough else 500
    tmp = os.path.join('/tmp', 'verif-%s-%d' % (prop, os.getpid()))
    rtc = None
    has_rtc = os.path.exists(os.path.join(HERE, 'rtc', prop + '.py'))
    if has_rtc and '--no-rtc' not in args:
        rtc = start_rtc(prop, ['--thorough'] if thorough else [], tmp + '.json')
    results, problems = ({}, []) if '--no-specs' in args else run_specs(prop, only, thorough, t0 + limit - 60)
    rt = finish(rtc, tmp + '.json', max(5, limit - (time.time() - t0))) if rtc else None

    obs, functions, trusted, assumptions, undecided, loops = {}, set(), set(), set(), list(problems), set()
    queries = paths = 0
    und_specs = set(['(loading)'] if problems else [])
    stime = 0.0
    vac = []
    for n, r in results.items():
        if 'error' in r:
            undecided.append('%s: %s' % (n, r['error']))
            und_specs.add(n)
            if verbose:
                print(r.get('tb', r['error']))
            continue
        obs.update(r['obligations'])
        functions |= set(r['functions'])
        trusted |= set(r['trusted'])
        assumptions |= set(r['assumptions'])
        loops |= set(r['loops'])
        undecided += ['%s: %s' % tuple(u) for u in r['undecided']]
        if r['undecided']:
            und_specs.add(n)
        queries += r['queries']
        paths += r['paths']
        stime += r['solver_time']
        for c, hit in r['covers'].items():
            if not hit:
                vac.append(c)
        if not r['obligations'] and not r['undecided']:
            undecided.append('%s: no obligation generated' % n)
    refuted = {n: o for n, o in obs.items() if o['nrefuted']}
    unknown = {n: o for n, o in obs.items() if o['nunknown'] and not o['nrefuted']}
    proved = [n for n, o in obs.items() if not o['nrefuted'] and not o['nunknown']]
    backends = {}
    for o in obs.values():
        for b, k in o['backends'].items():
            backends[b] = backends.get(b, 0) + k

    kn = known(prop)
    violations, found = [], []
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)

    def emit(name, payload, suffix=''):
        safe = ''.join(ch if ch.isalnum() or ch in '-_' else '_' for ch in name)[:80]
        path = os.path.join(rdir, '%s-%s.json' % (prop, safe))
        json.dump(payload, open(path, 'w'), indent=1, default=str)
        violations.append('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))

    failures = list(rt['failures']) if rt else []
    seen = set()
    for f in failures:
        if f['key'] in kn:
            if f['key'] not in seen:
                found.append('KNOWN-FINDING: property=%s %s %s' % (prop, f['key'], kn[f['key']]))
            seen.add(f['key'])
            continue
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        emit(f['key'], dict(property=prop, kind='concrete failure on the real code', **f))
    new_ref = {n: o for n, o in refuted.items() if n not in kn}
    for n in refuted:
        if n in kn:
            found.append('KNOWN-FINDING: property=%s %s %s' % (prop, n, kn[n]))
    confirmed = False
    if new_ref and not violations and has_rtc and '--no-rtc' not in args:
        # replay the counterexamples on the real code, then search around them
        req = tmp + '.req'
        json.dump([dict(obligation=n, values=v, detail=d) for n, o in new_ref.items() for v, d in o['refuted']],
                  open(req, 'w'), default=str)
        p = start_rtc(prop, ['--replay', req], tmp + '.rep.json')
        rr = finish(p, tmp + '.rep.json', 90)
        os.remove(req)
        for f in rr['failures']:
            if f['key'] in kn:
                continue
            confirmed = True
            emit(f['key'], dict(property=prop, kind='counterexample replayed on the real code',
                                failed_obligations=sorted(new_ref), **f))
    if new_ref and not violations:
        for n, o in list(new_ref.items())[:8]:      # the rest are in the evidence
            emit(n, dict(property=prop, kind='failed obligation', obligation=n, verifier_output=o,
                         note='no failing input found on the real code by replay or bounded search'),
                 ' no-failing-input-found')
    elif new_ref:
        path = os.path.join(rdir, '%s-obligations.json' % prop)
        json.dump(new_ref, open(path, 'w'), indent=1, default=str)

    total = len(obs)
    bounded = sorted(und_specs)
    crashed = bool(rt and rt.get('crashed'))
    cov = dict(obligations=total, discharged=len(proved), refuted=sorted(refuted), unknown=sorted(unknown),
               undecided=undecided, checker_cmd='python3-vt check.py %s%s' % (prop, ' --thorough' if thorough else ''),
               trusted_base=sorted(trusted), functions_under_contract=sorted(functions), loops_with_invariants=sorted(loops),
               backends=backends, solver_queries=queries, symbolic_paths=paths, solver_seconds=round(stime, 2),
               vacuity=dict(unreached_covers=vac,
                            reached=sum(1 for r in results.values() if 'covers' in r for c in r['covers'].values() if c)),
               bounded=dict(note='run-time contracts exercised on the real code; bounded, never counted as proved',
                            cases=rt.get('cases') if rt else None, seconds=rt.get('seconds') if rt else None,
                            crashed=crashed, stands_in_for=bounded + sorted(unknown)),
               specs={n: (r.get('error') or dict(obligations=len(r['obligations']), paths=r['paths'], solver_seconds=r['solver_time']))
                      for n, r in results.items()},
               violation_lines=violations, known_findings=found)
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='proof', coverage=cov, assumptions=sorted(assumptions), wall_s=round(time.time() - t0, 1),
              violations=len(violations))
    write_evidence(prop, ev)
    for f in found:
        print(f)
    if verbose:
        for n, o in sorted(obs.items()):
            st = 'REFUTED' if o['nrefuted'] else 'unknown' if o['nunknown'] else 'ok'
            if st != 'ok' or '-vv' in args:
                print('  %-8s %s (%d paths, %.1fs)' % (st, n, o['paths'], o['time']))
                for v, d in o['refuted'][:2]:
                    print('      ', json.dumps(v, default=str)[:600], '\n       ', d[:600])
                for u in o['unknown'][:1]:
                    print('      ', u)
        for n, r in results.items():
            if 'error' not in r:
                print('  spec %s: %d paths %.1fs' % (n, r['paths'], r['solver_time']))
    for u in undecided:
        print('  undecided (bounded check stands in): %s' % u[:400])
    for n in unknown:
        print('  solver gave no answer (bounded check stands in): %s' % n)
    for v in vac:
        print('  warning: unreached cover %s' % v)
    if rt:
        print('  run-time contracts: %s%s' % (rt.get('cases'), ' CRASHED ' + rt.get('output', '') if crashed else ''))
    print('%s: %d obligations, %d discharged, %d refuted, %d unknown, %d undecided specs, %d paths, %.1fs solver, %.1fs wall'
          % (prop, total, len(proved), len(refuted), len(unknown), len(und_specs), paths, stime, time.time() - t0))
    for v in violations:
        print(v)
    if violations:
        sys.exit(1)
    if crashed and not len(proved):
        print('neither the verifier nor the bounded check could decide this property')
        sys.exit(2)
    sys.exit(0)


def write_evidence(prop, ev):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
