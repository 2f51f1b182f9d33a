"""plant(id, prop, needs, breaks, edits, demo): makes a seeded bug, and confirms it (development aid).

The change is applied to /repo, the suite and the demonstration run, and it is undone again."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    return not sh('git -C /repo status --porcelain').stdout.strip()


def plant(id, prop, needs, breaks, edits, demo, check=True):
    d = os.path.join(V, 'seeded', id)
    assert clean(), 'dirty /repo'
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd='/repo')
    try:
        for f, old, new in edits:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(old) >= 1, 'pattern not found: ' + old
            open(p, 'w').write(s.replace(old, new, 1))
        diff = sh('git -C /repo diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        pyx = any(f.endswith('.pyx') for f, _, _ in edits)
        if pyx:
            sh('bash /opt/vp/build.sh')
        b = sh('bash %s/demo.sh' % d, cwd='/repo')
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        o = json.load(open('/tmp/plant.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        missing = sorted(set(base) - set(o['passed']))
        c = sh('python3-vt check.py %s' % prop, cwd=V) if check else None
    finally:
        sh('git -C /repo checkout -- .')
        if pyx:
            sh('bash /opt/vp/build.sh')
    good = a.returncode == 0 and b.returncode != 0 and not missing
    print('%-28s demo %s/%s suite %s %s' % (id, a.returncode, b.returncode, 'ok' if not missing else 'FAILS %s' % missing[:3], '' if good else '  <== NOT VALID'))
    if a.returncode:
        print(a.stderr[-500:])
    elif b.returncode:
        print('    ', (b.stderr.strip().split('\n') or [''])[-1][:200])
    if c:
        v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        print('     check exit', c.returncode, *v[:2])
    assert clean()
    return good
