#!/usr/bin/env python3
"""trybug.py Cxx file 'old' 'new' [check args]: runs a check against a scratch copy with one edit (development aid)."""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut-')
try:
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'docs', 'examples'), symlinks=True)
    p = os.path.join(r, f)
    s = open(p).read()
    if s.count(old) < 1:
        sys.exit('pattern not found')
    open(p, 'w').write(s.replace(old, new, 1))
    env = dict(os.environ, ZOUNDS_REPO=r)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    x = subprocess.run(['python3-vt', 'check.py', prop] + sys.argv[5:], cwd=here, env=env)
    print('exit', x.returncode)
finally:
    shutil.rmtree(d)
