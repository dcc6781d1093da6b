"""Build the native parts of /repo out of tree and lay a runnable `gnome` package over them.

The C++ library and the Cython modules are compiled from /repo's current working tree on every run
(a cache keyed by the content of every native source avoids repeating an identical build); the Python
sources are copied from /repo on every run."""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.cache')
VENV = '/opt/venv/bin'
NATIVE_EXT = ('.pyx', '.pxd', '.pxi', '.cpp', '.c', '.h', '.hpp', '.txt', '.cmake', '.toml', '.in')


def native_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, 'py_gnome')
    for d, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x not in ('.git', 'tests', 'documentation', 'build', '_skbuild', '__pycache__'))
        for f in sorted(fn):
            if f.endswith(NATIVE_EXT):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


def build_native(log=None):
    hv = native_hash()
    out = os.path.join(CACHE, 'native', hv)
    if os.path.exists(os.path.join(out, 'DONE')):
        return out, hv
    tmp = out + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    env = dict(os.environ)
    env['PATH'] = VENV + ':' + env.get('PATH', '')
    env.pop('PYTHONPATH', None)
    bld, inst = tmp + '/b', tmp + '/i'
    cmds = [['cmake', '-S', REPO + '/py_gnome', '-B', bld, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release',
             '-DSKBUILD_PROJECT_NAME=gnome', '-DPython_EXECUTABLE=%s/python' % VENV,
             '-DCMAKE_INSTALL_PREFIX=' + inst],
            ['cmake', '--build', bld], ['cmake', '--install', bld]]
    for c in cmds:
        r = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-4000:])
            shutil.rmtree(tmp, ignore_errors=True)
            raise SystemExit('native build of /repo failed: %s' % ' '.join(c[:3]))
    shutil.rmtree(bld, ignore_errors=True)
    open(tmp + '/DONE', 'w').write(hv)
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(os.path.join(out, 'DONE')):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    root = os.path.join(CACHE, 'native')
    ents = sorted((os.path.getmtime(os.path.join(root, e)), e) for e in os.listdir(root) if '.tmp' not in e)
    for _, e in ents[:-4]:
        shutil.rmtree(os.path.join(root, e), ignore_errors=True)
    return out, hv


def overlay(dest):
    """copy the python package of /repo and the compiled modules into dest"""
    nat, hv = build_native()
    src = os.path.join(REPO, 'py_gnome', 'gnome')
    shutil.copytree(src, os.path.join(dest, 'gnome'), symlinks=True,
                    ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.cpp', '*.c'))
    subprocess.run(['cp', '-r', os.path.join(nat, 'i', 'gnome', '.'), os.path.join(dest, 'gnome')], check=True)
    # compiled artefacts are installed without python sources; make sure the sources are the current ones
    for d, dn, fn in os.walk(src):
        rel = os.path.relpath(d, src)
        for f in fn:
            if f.endswith('.py'):
                t = os.path.join(dest, 'gnome', rel, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(d, f), t)
    return hv
