"""One shard of a check: generates cases and records the code on them.

usage: worker.py PROP SHARD SHARDS SEED COUNT SECONDS OUT
Writes OUT.ndjson (the trace) and OUT.json (line -> case, statistics).
"""
import json
import os
import random
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C          # noqa: E402


def main():
    prop, shard, shards, seed, count, seconds, out = sys.argv[1:8]
    shard, shards, seed, count = map(int, (shard, shards, seed, count))
    seconds = float(seconds)
    only = sys.argv[8] if len(sys.argv) > 8 else None
    C.setup_path()
    # The program prints a lot, and so does the solver
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    import drivers as D
    import rec as R
    import solver
    solver.install()
    driver = D.DRIVERS[prop]
    if hasattr(driver, 'setup'):
        driver.setup()
    tmp = tempfile.mkdtemp(prefix='verif-')
    os.chdir(tmp)
    meta = {'cases': [], 'skips': 0, 'faults': 0, 'errors': [], 'nerr': 0, 'crashes': 0,
            'hung': 0}
    start = time.time()
    line = 0
    note = os.open(out + '.case', os.O_WRONLY | os.O_CREAT)
    try:
        with open(out + '.ndjson', 'w') as f:
            for k in range(shard, count, shards):
                if only is not None and k != int(only):
                    continue
                if time.time() - start > seconds:
                    break
                os.pwrite(note, b'%-12d' % k, 0)
                r = random.Random('%s/%d/%d' % (prop, seed, k))
                D.seed_all(r)
                rec = R.Recorder()
                try:
                    driver(r, rec, tmp, k)
                except R.Skip as e:
                    meta['faults' if 'fault' in str(e) else 'skips'] += 1
                    continue
                except Exception as e:
                    R.crash(rec, e)
                meta['nerr'] += rec.err
                meta['errors'] += rec.errs[:3]
                if not rec.ev:
                    continue
                for e in rec.ev:
                    f.write(json.dumps(e, separators=(',', ':')) + '\n')
                bad = [e for e in rec.ev if e['e'] == 'crash']
                meta['crashes'] += len(bad)
                meta['cases'].append([k, line + 1, line + len(rec.ev)])
                line += len(rec.ev)
                if any('Hang' in e['what'] for e in bad):
                    meta['hung'] = 1
                    break
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    meta['errors'] = meta['errors'][:20]
    meta['lines'] = line
    meta['seconds'] = time.time() - start
    with open(out + '.json', 'w') as f:
        json.dump(meta, f)


if __name__ == '__main__':
    main()
