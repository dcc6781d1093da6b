#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property on /repo's current tree."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    from pyvc import native
    pid = sys.argv[1]
    scratch = tempfile.mkdtemp(prefix='pyvc_')
    try:
        native.overlay(scratch)
        env = dict(os.environ)
        env['PYTHONPATH'] = ':'.join([os.path.join(HERE, 'harness', 'stubs'), scratch, HERE])
        env['PYVC_SCRATCH'] = scratch
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONHASHSEED'] = '0'
        env['PYTHONWARNINGS'] = 'ignore'
        env['PYVC_QUIET'] = '1'
        env['OMP_NUM_THREADS'] = '1'
        env.setdefault('VERIF_SEED', '1')
        env.setdefault('VERIF_TIER', 'quick')
        env['MPLCONFIGDIR'] = scratch
        env['TMPDIR'] = scratch
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pyvc.runner', pid] + sys.argv[2:], env=env, cwd=HERE)
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
