#!/usr/bin/env python3
"""Helper used while planting bugs (not used by any check): mk(id, property, [(file, old, new)...], demo, needs, breaks)
applies the edit in /repo, saves the diff with a demonstration under seeded/<id>, tries demo, stable tests and check, and undoes the edit."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$D/stubs:$PWD/py_gnome" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore TZ=UTC
exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    o = set(json.load(open('/tmp/seed_o.json'))['passed'])
    return [x for x in b if x not in o]


def mk(id, prop, edits, demo, needs, breaks, check=True, tests=True):
    d = os.path.join(V, 'seeded', id)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(SH)
    shutil.rmtree(d + '/stubs', ignore_errors=True)
    shutil.copytree(V + '/harness/stubs', d + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    native = any(not f.endswith('.py') for f, _, _ in edits)
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    try:
        for f, a, b in edits:
            s = open(os.path.join(R, f)).read()
            assert a in s, (f, a)
            open(os.path.join(R, f), 'w').write(s.replace(a, b, 1))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        rb = sh('bash /opt/vp/build.sh') if native else None
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        bad = stable() if tests else '-'
        out = ''
        if check:
            c = sh('python3 check.py %s' % prop, cwd=V)
            out = 'check rc=%d %s' % (c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:2])
    finally:
        sh('git -C %s checkout -- .' % R)
        if native:
            sh('bash /opt/vp/build.sh')
    print('%-28s demo clean=%d patched=%d %s broken-tests=%s %s' % (id, r0.returncode, r1.returncode, '' if rb is None else 'build=%d' % rb.returncode, bad, out))
    if r0.returncode:
        print(r0.stdout[-800:], r0.stderr[-1500:])
    if not r1.returncode:
        print(r1.stdout[-800:])
    sys.stdout.flush()
