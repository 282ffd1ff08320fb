#!/usr/bin/env python3
"""Development tool: are recorded runs, literally, behaviours of Adaptive.tla?

refine.py COUNT [SEED]    records COUNT complete runs on tables enumerated by
                          the specification and has TLC replay them through
                          Refine.tla; lists the runs that are no behaviours

No check alarms on this: the properties leave the code more freedom.
"""
import json
import os
import random
import re
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'harness'))
CHILD = r'''
import os, sys, json, random, tempfile
sys.path.insert(0, HERE + '/harness')
import common as C
C.setup_path()
null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 1)
import drivers as D, rec as R, solver
solver.install()
tmp = tempfile.mkdtemp()
os.chdir(tmp)
with open(sys.argv[1], 'w') as f:
    for k in range(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[5])):
        r = random.Random('refine/%s/%d' % (sys.argv[4], k))
        D.seed_all(r)
        rec = R.Recorder()
        try:
            D.solve(r, rec, tmp, D.from_spec(r), D.config(r, None, gap=1))
        except R.Skip:
            continue
        except Exception as e:
            R.crash(rec, e)
        f.write(json.dumps(rec.ev) + '\n')
os.chdir('/')
import shutil; shutil.rmtree(tmp)
'''


def main():
    import subprocess
    import check
    import common as C
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 400
    seed = sys.argv[2] if len(sys.argv) > 2 else '1'
    check.ensure_tables()
    tmp = tempfile.mkdtemp(prefix='refine-')
    env = dict(os.environ)
    ps = []
    for j in range(8):
        ps.append(subprocess.Popen(
            ['/opt/venv/bin/python', '-c', CHILD.replace('HERE', repr(HERE)),
             '%s/r%d' % (tmp, j), str(j), str(count), seed, '8'], env=env))
    for p in ps:
        p.wait()
    groups = {}
    for j in range(8):
        for w in open('%s/r%d' % (tmp, j)):
            ev = json.loads(w)
            i, g = ev[0]['i'], ev[0]['g']
            if ev[-1]['e'] != 'end' or 'iter' not in [e['e'] for e in ev]:
                print('odd run', ev[-1])
                continue
            groups.setdefault((i['N'], i['en'] * i['N'] // i['ed'],
                               g['merge']), []).append(ev)

    def one(key):
        path = '%s/%d-%d-%d' % ((tmp,) + key)
        starts, n = [], 1
        with open(path, 'w') as f:
            for ev in groups[key]:
                starts.append(n)
                n += len(ev)
                f.writelines(json.dumps(e) + '\n' for e in ev)
        rc, out = check.tlc('Refine.tla', 'Refine.cfg', workers=1,
                            env={'TRACE': path}, extra=['-continue'])
        ok = {int(v) for v in re.findall(r'"RUN", (\d+), "OK"', out)}
        at = {}
        for a, b in re.findall(r'"AT", (\d+), (\d+)', out):
            at[int(a)] = max(at.get(int(a), 0), int(b))
        lines = open(path).read().split('\n')
        stuck = [(s, at.get(s, 0), lines[at.get(s, 1) - 1][:150])
                 for s in starts if s not in ok]
        why = '' if rc == 0 else ' '.join(
            w for w in out.split('\n') if 'Error' in w or 'rror' in w or 'Unknown' in w or 'Multiple' in w)[:600]
        return key, len(starts), stuck, rc, why
    total = bad = 0
    with ThreadPoolExecutor(4) as ex:
        for key, n, stuck, rc, why in ex.map(one, sorted(groups)):
            total += n
            bad += len(stuck)
            print('N=%d P=%d merge=%d: %d runs, %d no behaviours' % (
                key + (n, len(stuck))), rc, why)
            for s in stuck[:1]:
                print('   ', s)
    print('%d of %d runs are behaviours of Adaptive.tla' % (total - bad, total))
    import shutil
    shutil.rmtree(tmp)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
