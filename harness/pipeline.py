"""C27: the scripts around the program, and the files they hand over."""
import csv
import os
import random
import re
import shutil
import subprocess
import tempfile

import common as C
import drivers
import gen as G
import rec as R
from solver import FAULT_CODE

KNAP = os.path.join('data', 'cc-instances', 'knapsack')
TOP = ('main.py', 'export_results.py', 'run_all_experiments.sh',
       'violations.pyx', 'violations.h', 'setup_violations.py')

STUB = '''#!/bin/bash
for a in "$PWD" "$@"; do printf '%s\\t' "$a"; done >> "$STUB_LOG"
printf '\\n' >> "$STUB_LOG"
'''


def scratch(tmp):
    root = tempfile.mkdtemp(prefix='pipe-', dir=tmp)
    for f in TOP:
        shutil.copy(os.path.join(C.REPO, f), root)
    for d in ('src', 'data'):
        shutil.copytree(os.path.join(C.REPO, d), os.path.join(root, d),
                        ignore=shutil.ignore_patterns('__pycache__', '*.csv'))
    return root


def calls(root, script, folder):
    """The calls of python in a script, run where stand-ins for python and
    sleep only record what they were given."""
    bins = tempfile.mkdtemp(prefix='bin-', dir=root)
    for f in ('python', 'python3'):
        with open(os.path.join(bins, f), 'w') as h:
            h.write(STUB)
        os.chmod(os.path.join(bins, f), 0o755)
    with open(os.path.join(bins, 'sleep'), 'w') as h:
        h.write('#!/bin/bash\n')
    os.chmod(os.path.join(bins, 'sleep'), 0o755)
    log = os.path.join(bins, 'log')
    open(log, 'w').close()
    subprocess.run(['bash', script], cwd=folder, timeout=300,
                   env=dict(os.environ, STUB_LOG=log,
                            PATH=bins + ':' + os.environ['PATH']),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(log) as h:
        out = [w.rstrip('\n').split('\t')[:-1] for w in h]
    shutil.rmtree(bins)
    return out


WATCH = '''
import runpy, sys
prog, log = sys.argv[1:3]
out = open(log, 'w')
def hook(event, args):
    if event == 'open' and isinstance(args[0], str) \\
            and args[0].endswith('.csv') and 'r' in (args[1] or 'r'):
        out.write(args[0] + '\\n')
sys.addaudithook(hook)
sys.argv = [prog]
sys.path[0] = sys.argv[0].rpartition('/')[0]
runpy.run_path(prog, run_name='__main__')
'''


def export(root):
    """Runs the export; the result files it asked for."""
    log = os.path.join(root, 'opened')
    p = subprocess.run([C.PY, '-c', WATCH,
                        os.path.join(root, 'export_results.py'), log],
                       cwd=root, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    text = p.stdout.decode(errors='replace')
    with open(log) as f:
        asked = f.read().split('\n')[:-1]
    asked += re.findall(r'(?m)^.*not found\W*(\S.*\.csv)$', text)
    return p.returncode, sorted(set(asked))


def result_key(path):
    """Name of a result file as a tuple of the specification."""
    m = re.fullmatch(r'ccmknap-(\d+)-(\d+)-(\d+)-(\d+)-(\d+)-(\d+)-(\d+)'
                     r'\.csv', os.path.basename(path))
    return [int(a) for a in m.groups()] if m else [-1]


def result_name(q):
    return 'ccmknap-%d-%d-%d-%d-%d-%d-%d.csv' % tuple(q)


def run_key(args):
    """Arguments of main.py as the key of the result they stand for."""
    m = re.fullmatch(r'ccmknap-(\d+)-(\d+)-(\d+)-(\d+)\.csv',
                     os.path.basename(args[0]))
    if not m or len(args) != 5:
        return [-1]
    return [int(a) for a in m.groups()] + [
        int(round(float(args[2]) * 100)), int(args[1]), int(args[3])]


MEMO = {}


def stages(tmp):
    """What the three stages ask for (the same in every case)."""
    if MEMO:
        return MEMO
    root = scratch(tmp)
    folder = os.path.join(root, KNAP)
    gens, lost = [], 0
    for cwd, prog, *a in calls(root, 'generate-all-instances.sh', folder):
        src = os.path.join(cwd, a[0])
        if not os.path.exists(os.path.join(cwd, prog)) \
                or not os.path.exists(src) or len(a) != 3 \
                or not os.path.realpath(cwd).startswith(
                    os.path.realpath(folder)):
            lost += 1
            continue
        with open(src) as f:
            n, m = f.readline().split()[:2]
        gens.append([int(n), int(m), int(a[1]), int(a[2]), src, cwd])
    runs = calls(root, 'run_all_experiments.sh', root)
    place = os.path.realpath(os.path.join(root, 'results', 'tables'))
    os.makedirs(place)
    keys = [run_key(a) for _, _, *a in runs]
    for q in keys:
        if len(q) == 7:
            with open(os.path.join(place, result_name(q)), 'w') as f:
                csv.writer(f).writerow(
                    drivers.full_row((2000, 0, 3000), q[6], random.Random(1)))
    rc, asked = export(root)
    ok = rc == 0
    full = 0
    for f in os.listdir(os.path.join(root, 'results')):
        if f.endswith('.csv'):
            with open(os.path.join(root, 'results', f)) as h:
                full += 1
                for w in csv.reader(h):
                    if any(t.strip() in ('-', 'nan', 'inf') or '{-}' in t
                           for t in w):
                        ok = False
    ok = ok and full > 0
    for cwd, prog, *a in runs:
        ok = ok and os.path.realpath(os.path.join(cwd, prog)) == \
            os.path.realpath(os.path.join(root, 'main.py')) \
            and len(a) == 5 and a[4].endswith('/') \
            and os.path.realpath(os.path.join(cwd, a[4])) == place \
            and os.path.realpath(os.path.dirname(os.path.join(cwd, a[0]))) \
            == os.path.realpath(folder)
    ok = ok and all(os.path.realpath(os.path.dirname(f)) == place
                    for f in asked)
    MEMO.update(gens=[g[:4] for g in gens], lost=lost, places=int(ok),
                sources=[(os.path.relpath(g[4], root), g[:4]) for g in gens],
                args=[a for _, _, *a in runs],
                runs=keys,
                asked=[result_key(f) for f in asked])
    shutil.rmtree(root)
    return MEMO


def small(r):
    """An instance small enough for any method."""
    return r.choice([lambda: G.abs_style(r), lambda: G.any_inst(r, cont=.3)])()


def some_runs(r, rec, tmp, st):
    """Some of the runs of the script, then the export."""
    root = scratch(tmp)
    folder = os.path.join(root, KNAP)
    done = []
    want = r.sample(range(len(st['args'])), 3)
    if r.random() < .5:
        # the neighbours of a run: same instance, other options
        key = st['runs'][want[0]][:4]
        near = [k for k, q in enumerate(st['runs']) if q[:4] == key]
        want = r.sample(near, min(3, len(near)))
    if r.random() < .3:
        want.append(want[0])
    files = {}
    rcs = []
    for k in want:
        args = st['args'][k]
        path = os.path.normpath(os.path.join(root, args[0]))
        if path not in files:
            files[path] = small(r)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            files[path].write(path)
        prog = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                            'launch.py')
        env = dict(os.environ, VERIF_REPO=root)
        p = subprocess.run([C.PY, prog, './main.py', *args], cwd=root,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300, env=env)
        text = p.stdout.decode(errors='replace')
        if 'too large' in text or 'size-limited' in text \
                or p.returncode == FAULT_CODE:
            raise R.Skip('licence')
        rcs.append(p.returncode)
        done.append(st['runs'][k])
    rc, asked = export(root)
    found = [result_key(f) for f in asked if os.path.exists(f)]
    rec.emit('pexp', rc=rc, rcs=rcs, done=done, found=found)
    shutil.rmtree(root, ignore_errors=True)


def d_pipeline(r, rec, tmp, k):
    inst = G.Inst(1, 1, 1, [10], [[[10]]], [10], (0, 1), False)
    drivers.begin(rec, inst, table=0)

    def go():
        st = stages(tmp)
        rec.emit('pipe', gens=st['gens'], lost=st['lost'],
                 places=st['places'], runs=st['runs'], asked=st['asked'])
        if k % 3 == 0 and st['sources']:
            rel, (n, m, _, q) = r.choice(st['sources'])
            drivers.generate(r, rec, tmp, os.path.join(C.REPO, rel))
        else:
            some_runs(r, rec, tmp, st)
    R.guarded(rec, go)
