"""Paths, building the extension of the code under test, integer encoding."""
import fcntl
import hashlib
import importlib.util
import math
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
WORK = os.path.join(VERIF, 'work')            # git-ignored
PY = '/opt/venv/bin/python'
INF = 2000000000
NAV = 2100000000
XS = 100000


# - - - the Cython extension of the code under test - - -
def ext_dir():
    """Build violations.* from the current sources; return its folder.

    The folder is keyed by the content of the sources, so a change is always
    rebuilt, and two checks never see a half-built module.
    """
    names = ('violations.pyx', 'violations.h', 'setup_violations.py')
    h = hashlib.sha256()
    for n in names:
        with open(os.path.join(REPO, n), 'rb') as f:
            h.update(f.read() + b'\0')
    d = os.path.join(WORK, 'ext-' + h.hexdigest()[:16])
    if os.path.isdir(d):
        return d
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'ext.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.isdir(d):
            return d
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for n in names:
            shutil.copy(os.path.join(REPO, n), tmp)
        r = subprocess.run(
            [PY, 'setup_violations.py', 'build_ext', '--inplace'],
            cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = [f for f in os.listdir(tmp) if f.endswith('.so')]
        if not so:
            sys.stdout.write(r.stdout.decode(errors='replace')[-3000:])
            raise RuntimeError('violations extension does not build')
        shutil.rmtree(os.path.join(tmp, 'build'), ignore_errors=True)
        os.rename(tmp, d)
    return d


def setup_path():
    """Make the code under test importable (call before importing it)."""
    d = ext_dir()
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, d)
    so = [f for f in os.listdir(d) if f.endswith('.so')][0]
    spec = importlib.util.spec_from_file_location(
        'violations', os.path.join(d, so))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules['violations'] = mod
    return d


# - - - encoding: integers only, see CCP.tla - - -
def num(v, scale=1000):
    """A real number as an integer in 1/scale; infinities and non-numbers
    are encoded by INF and NAV."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return NAV
    if math.isnan(v):
        return NAV
    w = v * scale
    if w >= INF:
        return INF
    if w <= -INF:
        return -INF
    return int(round(w))


def tenths(v):
    return num(v, 10)


def point(x, cont):
    """A solution vector: 0/1 (-1 if fractional) or fixed point."""
    if x is None:
        return []
    out = []
    try:
        for a in x:
            if cont:
                out.append(num(a, XS))
            else:
                a = float(a)
                r = int(round(a)) if math.isfinite(a) else -1
                out.append(r if abs(a - r) <= 1e-6 else -1)
    except (TypeError, ValueError):
        return []
    return out


def bits(z):
    """Indicator values: 0/1, or -1 when not integral."""
    if z is None:
        return []
    vals = [z[k] for k in sorted(z)] if isinstance(z, dict) else list(z)
    out = []
    for a in vals:
        r = int(round(float(a)))
        out.append(r if abs(float(a) - r) <= 1e-6 else -1)
    return out


def ids(seq):
    """Indices, 0-based in the code, 1-based in the specification."""
    return [int(s) + 1 for s in seq]


def partition(part):
    return [ids(b) for b in part]
