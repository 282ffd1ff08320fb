#!/usr/bin/env python3
"""Development tool for the planted bugs of seeded/ (no check uses it).

plant.py make ID     patch.diff from /tmp/plant/ID/edit.py: a list EDITS of
                     (file, old text, new text), against /repo's HEAD
plant.py test ID...  builds, tests and runs the demonstration with and
                     without the patch
plant.py check ID... runs the check of the property against the patch
                     (plant.py check ID=C02,C03 names the checks)

Everything happens in private mount namespaces where a scratch copy stands
for /repo, so /repo itself is never touched.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'


def copy_repo():
    d = tempfile.mkdtemp(prefix='wt-')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    return d


def inside(d, cmd, verif=None):
    """Runs cmd where d is /repo (and verif is /verif)."""
    mounts = 'mount --bind %s /repo && ' % d
    if verif:
        mounts += 'mount --bind %s /verif && ' % verif
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', mounts + cmd],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')


def make(i):
    g = {}
    exec(open('/tmp/plant/%s/edit.py' % i).read(), g)
    d = copy_repo()
    try:
        for f, old, new in g['EDITS']:
            p = os.path.join(d, f)
            with open(p) as h:
                s = h.read()
            assert s.count(old) == 1, (f, s.count(old), old)
            with open(p, 'w') as h:
                h.write(s.replace(old, new))
        out = subprocess.run(['git', '-C', d, 'diff'], check=True,
                             stdout=subprocess.PIPE).stdout
    finally:
        shutil.rmtree(d)
    to = os.path.join(SEEDED, i)
    os.makedirs(to, exist_ok=True)
    with open(to + '/patch.diff', 'wb') as h:
        h.write(out)
    with open(to + '/meta.json', 'w') as h:
        json.dump(g['META'], h, indent=1)
        h.write('\n')
    with open(to + '/demo.py', 'w') as h:
        h.write(g['DEMO'])
    with open(to + '/demo.sh', 'w') as h:
        h.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 '
                'OMP_NUM_THREADS=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(to + '/demo.sh', 0o755)
    if 'lib' in g['DEMO'].split('\n')[0]:
        shutil.copy('/verif/tools/demolib.py', to + '/demolib.py')


def test(i):
    s = os.path.join(SEEDED, i)
    d = copy_repo()
    msg = []
    try:
        rc, out = inside(d, 'cd /repo && bash /opt/vp/build.sh >/dev/null && '
                         'timeout 300 bash %s/demo.sh' % s)
        msg.append('demo clean rc=%d' % rc)
        ok = rc == 0
        if rc:
            msg.append(out[-1500:])
        subprocess.run(['git', '-C', d, 'apply', s + '/patch.diff'],
                       check=True)
        rc, out = inside(d, 'bash /opt/vp/build.sh')
        ok = ok and rc == 0
        if rc:
            msg.append('build: ' + out[-1000:])
        j = d + '-o.json'
        rc, out = inside(d, 'bash /opt/vp/test.sh ' + j)
        try:
            with open(j) as h:
                r = json.load(h)
            with open('/opt/vp/BASELINE.json') as h:
                base = json.load(h)
            got = set(r.get('passed', []))
            want = set(base if isinstance(base, list) else base.get(
                'passed', base.get('stable', [])))
            os.unlink(j)
            miss = want - got
            ok = ok and bool(want) and not miss
            msg.append('tests: %d of %d missing %s'
                       % (len(want & got), len(want), sorted(miss)[:6]))
        except Exception as e:
            ok = False
            msg.append('tests: %r %s' % (e, out[-800:]))
        rc, out = inside(d, 'cd /repo && timeout 300 bash %s/demo.sh' % s)
        msg.append('demo patched rc=%d %s' % (rc, out[-300:].strip()))
        ok = ok and rc not in (0, 124)
    finally:
        shutil.rmtree(d)
    return '%s %s\n   %s' % (i, 'OK' if ok else '***** BAD',
                             '\n   '.join(msg))


def check(arg, seed='1'):
    i, _, props = arg.partition('=')
    s = os.path.join(SEEDED, i)
    with open(s + '/meta.json') as h:
        props = props.split(',') if props else [json.load(h)['property']]
    d = copy_repo()
    v = tempfile.mkdtemp(prefix='vf-')
    res = []
    try:
        subprocess.run(['git', '-C', d, 'apply', s + '/patch.diff'],
                       check=True)
        subprocess.run('cp -a /verif/. %s && rm -rf %s/seeded' % (v, v),
                       shell=True, check=True)
        for p in props:
            rc, out = inside(d, 'cd /verif && VERIF_SEED=%s VERIF_TIER=quick '
                             'timeout 900 python3 check.py %s quick'
                             % (seed, p), verif=v)
            m = re.findall(r'(?m)^VIOLATION.*', out)
            res.append('%s rc=%d %s' % (p, rc, 'CAUGHT' if rc == 1 and any(
                'property=' + p in w for w in m) else 'missed'))
            res += ['      ' + w[:300] for w in out.strip().split('\n')[-6:]]
    finally:
        shutil.rmtree(d)
        shutil.rmtree(v)
    return '%s: %s' % (i, '\n   '.join(res))


if __name__ == '__main__':
    what, ids = sys.argv[1], sys.argv[2:]
    if ids == ['all']:
        ids = sorted(os.listdir(SEEDED))
    if what == 'make':
        for i in ids:
            make(i)
    elif what == 'test':
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(test, ids):
                print(r, flush=True)
    elif what == 'check':
        for i in ids:
            print(check(i), flush=True)
