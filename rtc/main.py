"""Runs the run-time contracts of one property on the real code.

main.py Cxx OUT.json [--thorough] [--replay REQ.json]
"""
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ZOUNDS_REPO', '/repo')


def build_countbits(tmp):
    """a countbits extension built from the current countbits.pyx; the one in /repo if it is current"""
    import glob
    parts = b''
    for f in ('setup.py', 'zounds/__init__.py', 'zounds/nputil/countbits.pyx'):
        try:
            parts += open(os.path.join(REPO, f), 'rb').read()
        except IOError:
            pass
    stamp = os.path.join(REPO, 'build', '.countbits.sha256')
    want = hashlib.sha256(parts).hexdigest()
    if os.path.exists(stamp) and open(stamp).read().split()[:1] == [want] and glob.glob(os.path.join(REPO, 'countbits.cpython-312*.so')):
        return None
    d = os.path.join(tmp, 'ext')
    os.makedirs(os.path.join(d, 'zounds', 'nputil'))
    for f in ('setup.py', 'zounds/__init__.py', 'zounds/nputil/countbits.pyx', 'README.md'):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), os.path.join(d, f))
    env = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME=tmp)
    subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=d, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    built = glob.glob(os.path.join(d, 'countbits.cpython-312*.so'))
    if not built:
        raise RuntimeError('the countbits extension does not build')
    lib = os.path.join(tmp, 'lib')
    os.mkdir(lib)
    shutil.copy(built[0], lib)
    return lib


class T(object):
    """handed to each run-time contract"""

    def __init__(self, name, seed, thorough, out, budget):
        self.name = name
        self.rng = random.Random('%s/%s' % (seed, name))
        self.thorough = thorough
        self.out = out
        self.budget = budget
        self.deadline = time.time() + budget
        self.n = 0
        self.nfail = 0
        self.keys = {}
        self.held = []

    @property
    def np_rng(self):
        import numpy as np
        return np.random.RandomState(self.rng.randrange(2 ** 31))

    def times(self, quick, thorough=None):
        """yields up to `quick` (or `thorough`) times within the time budget"""
        most = thorough or quick * 8
        k = most * 8 if self.thorough else max(quick, min(most, quick * 4))
        for i in range(k):
            if i > 20 and time.time() > self.deadline:
                break
            if self.nfail > 12:
                break
            yield i

    def case(self):
        self.n += 1

    def expect(self, cond, key, case, msg=''):
        """records a failure (keyed by what is violated) unless cond"""
        self.n += 1
        if cond:
            return True
        self.fail(key, case, msg)
        return False

    def fail(self, key, case, msg=''):
        self.nfail += 1
        k = self.name + '/' + key
        self.keys[k] = self.keys.get(k, 0) + 1
        if self.keys[k] <= 2:
            self.out.append(dict(key=k, input=repr(case)[:3000], detail=str(msg)[:2000]))

    def equal(self, got, want, key, case):
        import numpy as np
        try:
            if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
                g, w = np.asarray(got), np.asarray(want)
                ok = g.shape == w.shape and np.array_equal(g, w)
            else:
                ok = bool(got == want)
        except Exception as e:
            return self.expect(False, key, case, 'comparison failed: %r' % e)
        return self.expect(ok, key, case, 'got %s, expected %s' % (repr(got)[:600], repr(want)[:600]))

    def hold(self, got, key, case):
        """the results of earlier calls do not change when others are made"""
        import numpy as np
        for g, c, k, was in self.held:
            a = np.asarray(g)
            same = a.shape == c.shape and a.dtype == c.dtype and np.array_equal(a, c, equal_nan=c.dtype.kind in 'fc')
            if not self.expect(same, k + ' (kept)', was, 'changed by a later call with %s' % repr(case)[:600]):
                self.held = []
                break
        self.held = [h for h in self.held if self.rng.random() < .7][-4:]
        self.held.append((got, np.array(got), key, case))

    def close(self, got, want, key, case, tol=1e-7):
        import numpy as np
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok and g.size:
            scale = max(1.0, float(np.max(np.abs(np.nan_to_num(w)))))
            ok = bool(np.all(np.isfinite(g)) and np.max(np.abs(g - w)) <= tol * scale)
        return self.expect(ok, key, case, 'got %s, expected %s' % (repr(got)[:600], repr(want)[:600]))

    def raises(self, types, f, key, case):
        try:
            r = f()
        except types:
            self.n += 1
            return True
        except Exception as e:
            return self.expect(False, key, case, 'raised %r, expected %r' % (e, types))
        return self.expect(False, key, case, 'returned %s, expected %r' % (repr(r)[:200], types))

    def attempt(self, f, key, case):
        """f() must not raise; returns (ok, value)"""
        try:
            return True, f()
        except Exception as e:
            self.expect(False, key, case, 'raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-900:]))
            return False, None


def main():
    prop, out = sys.argv[1], sys.argv[2]
    thorough = '--thorough' in sys.argv
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-rtc-')
    failures, cases, secs = [], {}, {}
    try:
        ext = build_countbits(tmp)
        sys.path[:0] = [p for p in (ext, REPO) if p]
        if HERE not in sys.path:
            sys.path.append(HERE)
        os.chdir(tmp)
        import warnings
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        import importlib.util
        spec = importlib.util.spec_from_file_location('rtc_' + prop, os.path.join(HERE, prop + '.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        seed = os.environ.get('VERIF_SEED', '1')
        if replay:
            reqs = json.load(open(replay))
            table = getattr(mod, 'REPLAY', {})
            for q in reqs:
                for prefix, fn in table.items():
                    if q['obligation'].startswith(prefix):
                        t = T('replay', seed, False, failures, 20)
                        guard(t, lambda: fn(t, q['values']), q)
            if not failures:
                seed = seed + '-deep'
        checks = [(k, v) for k, v in sorted(vars(mod).items()) if k.startswith('check_') and (not only or only in k)]
        per = (500.0 if thorough else 60.0) / max(1, len(checks))
        if not (replay and failures):
            for k, f in checks:
                s0 = time.time()
                t = T(k[6:], seed, thorough or bool(replay), failures, per if not replay else 50.0 / len(checks))
                np.random.seed(t.rng.randrange(2 ** 31))
                random.seed(t.rng.randrange(2 ** 31))
                stuck = guard(t, lambda: f(t), None, 150 + 2 * t.budget)
                cases[k[6:]] = t.n
                secs[k[6:]] = round(time.time() - s0, 1)
                write(out, dict(failures=failures, cases=cases, seconds=secs, wall=round(time.time() - t0, 1), partial=True))
                if stuck:
                    break
        write(out, dict(failures=failures, cases=cases, seconds=secs, wall=round(time.time() - t0, 1)))
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


def write(out, what):
    with open(out + '.new', 'w') as f:
        json.dump(what, f)
    os.rename(out + '.new', out)


class Stuck(BaseException):
    """the code under contract does not come to an end"""


def stuck(_signal, _frame):
    raise Stuck('no end after minutes of processor time')


def guard(t, f, case, seconds=None):
    """True if f took more than the given seconds of processor time (hundreds of times what it takes), which is a
    failure of its own"""
    signal.signal(signal.SIGPROF, stuck)
    signal.setitimer(signal.ITIMER_PROF, seconds or 150, 3)
    try:
        f()
    except Stuck as e:
        t.fail('does-not-end', getattr(t, 'current', case), traceback.format_exc()[-1500:])
        return True
    except (Exception, SystemExit) as e:
        t.fail('unexpected-exception', getattr(t, 'current', case), '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


if __name__ == '__main__':
    main()
