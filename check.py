#!/usr/bin/env python3
"""Decides one property: python3 check.py C01 [--replay FILE]

1. TLC checks the design models of the property (spec/MC_*.cfg).
2. The real code runs on generated cases, in several processes; what it does
   is recorded as traces.
3. TLC checks every trace against spec/Trace.tla (clauses of the property).
Exit 0: no clause failed.  Exit 1 and a VIOLATION line otherwise.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import common as C              # noqa: E402
from plan import PLAN           # noqa: E402

SHARDS = 8
JAVA = ['java', '-XX:+UseSerialGC', '-Xmx2500m', '-Xss32m', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


def tlc(module, cfg, env=None, workers=1, timeout=800, extra=()):
    """Run TLC in spec/; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(
            JAVA[:1] + ['-Djava.io.tmpdir=' + meta] + JAVA[1:]
            + ['-noGenerateSpecTE', '-workers', str(workers), '-metadir',
               meta, '-config', cfg, *extra, module], cwd=C.SPEC, env=e,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states_of(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# - - - tables enumerated by the specification - - -
TABLE_CONFIGS = [(3, 1, 2, 2), (3, 1, 3, 2), (4, 1, 3, 2), (4, 2, 3, 2),
                 (5, 1, 3, 1), (5, 2, 3, 1)]


def ensure_tables():
    h = hashlib.sha256(repr(TABLE_CONFIGS).encode())
    for f in ('Gen.tla', 'CCP.tla'):
        with open(os.path.join(C.SPEC, f), 'rb') as g:
            h.update(g.read())
    key = h.hexdigest()
    path = os.path.join(C.WORK, 'tables.json')
    stamp = os.path.join(C.WORK, 'tables.key')
    if os.path.exists(path) and os.path.exists(stamp):
        with open(stamp) as f:
            if f.read() == key:
                return
    os.makedirs(C.WORK, exist_ok=True)

    def one(c):
        fd, cfg = tempfile.mkstemp(suffix='.cfg')
        with os.fdopen(fd, 'w') as f:
            f.write('SPECIFICATION Spec\nCONSTANTS N=%d P=%d K=%d O=%d\n'
                    'CHECK_DEADLOCK FALSE\n' % c)
        rc, out = tlc('Gen.tla', cfg)
        os.unlink(cfg)
        if rc:
            raise RuntimeError(out[-2000:])
        return [json.loads(json.loads(t)) for t in
                re.findall(r'<<"TABLE", ("(?:[^"\\]|\\.)*")>>', out)]
    with ThreadPoolExecutor(5) as ex:
        lists = list(ex.map(one, TABLE_CONFIGS))
    tables = sorted(t for q in lists for t in q)
    fd, tmp = tempfile.mkstemp(dir=C.WORK)
    with os.fdopen(fd, 'w') as f:
        json.dump(tables, f)
    os.replace(tmp, path)
    with open(stamp, 'w') as f:
        f.write(key)


# - - - traces - - -
def shard(prop, k, seed, count, seconds, folder, only=None):
    """Record one shard, then check it.  Returns a dict."""
    out = os.path.join(folder, 'shard%d' % k)
    cmd = [C.PY, os.path.join(HERE, 'harness', 'worker.py'), prop, str(k),
           str(SHARDS if only is None else 1), str(seed), str(count),
           str(seconds), out]
    if only is not None:
        cmd.append(str(only))
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, env=env)
    if p.returncode in DEATHS and os.path.exists(out + '.case'):
        died(out, -p.returncode)
    elif p.returncode or not os.path.exists(out + '.json'):
        raise RuntimeError('worker failed:\n'
                           + p.stderr.decode(errors='replace')[-3000:])
    with open(out + '.json') as f:
        meta = json.load(f)
    meta['trace'] = out + '.ndjson'
    meta.update(bad=[], cov={}, states=0, generated=0, tlc_s=0)
    if meta['lines'] == 0:
        return meta
    t = time.time()
    meta.update(judge(prop, meta['trace'], meta['lines']))
    meta['tlc_s'] = time.time() - t
    return meta


DEATHS = [-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE,
          -signal.SIGILL]


def died(out, sig):
    """The compiled part of the code under test brought the process down."""
    with open(out + '.case') as f:
        case = int(f.read())
    with open(out + '.ndjson', 'w') as f:
        f.write(json.dumps({'e': 'crash', 'at': 'process',
                            'what': 'killed by signal %d' % sig}) + '\n')
    with open(out + '.json', 'w') as f:
        json.dump({'cases': [[case, 1, 1]], 'skips': 0, 'faults': 0,
                   'errors': [], 'nerr': 0, 'crashes': 1, 'hung': 0,
                   'lines': 1, 'seconds': 0}, f)


def judge(prop, trace, lines, timeout=800):
    rc, out = tlc('Trace.tla', 'Trace.cfg', timeout=timeout,
                  env={'TRACE': trace, 'PROP': prop})
    bad = [(int(a), b) for a, b in
           re.findall(r'<<"BAD", (\d+), "([^"]*)">>', out)]
    m = re.search(r'<<"COV", ("(?:[^"\\]|\\.)*")>>', out)
    gen, dis = states_of(out)
    if rc == 0 and m:
        return {'bad': bad, 'cov': json.loads(json.loads(m.group(1))),
                'states': dis, 'generated': gen}
    if 'evaluat' in out or 'Attempted' in out or 'applied' in out:
        # The specification cannot make sense of an event: not a behaviour
        n = max([int(a) for a in re.findall(r'/\\ l = (\d+)', out)] or [1])
        why = out[-1500:]
        return {'bad': bad + [(n, prop + '.unexplained')], 'cov': {},
                'states': dis, 'generated': gen, 'tlc_error': why}
    raise RuntimeError('TLC failed:\n' + out[-3000:])


# - - - design models - - -
def design(prop, tier):
    runs = []
    for module, cfg in PLAN[prop].get('models', []):
        t = time.time()
        rc, out = tlc(module + '.tla', cfg + '.cfg', workers=2)
        gen, dis = states_of(out)
        if rc:
            raise RuntimeError('design model %s fails:\n%s'
                               % (cfg, out[-3000:]))
        runs.append({'model': cfg, 'states': dis, 'transitions': gen,
                     'seconds': round(time.time() - t, 1)})
    if tier == 'thorough':
        for module, cfg in PLAN[prop].get('models_thorough', []):
            t = time.time()
            rc, out = tlc(module + '.tla', cfg + '.cfg', workers=4,
                          timeout=3000)
            gen, dis = states_of(out)
            if rc:
                raise RuntimeError('design model %s fails:\n%s'
                                   % (cfg, out[-3000:]))
            runs.append({'model': cfg, 'states': dis, 'transitions': gen,
                         'seconds': round(time.time() - t, 1)})
    return runs


# - - - known findings - - -
def known(prop):
    """Clauses listed as known findings: lines
    'finding: property=<id> key=<key> <text>'."""
    out = {}
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for w in f:
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', w)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def case_of(meta, line):
    for k, a, b in meta['cases']:
        if a <= line <= b:
            return k, a, b
    return None, line, line


def lines_of(path, a, b):
    out = []
    with open(path) as f:
        for k, w in enumerate(f, 1):
            if a <= k <= b:
                out.append(json.loads(w))
    return out


def key_of(clause, events, at):
    """What identifies a failure: clause, instance and configuration."""
    head = next((e for e in events if e['e'] == 'inst'), {})
    return hashlib.sha256(json.dumps(
        [clause, head], sort_keys=True).encode()).hexdigest()[:16]


def main():
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and \
        sys.argv[2] == '--replay' else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    plan = PLAN[prop]
    start = time.time()
    C.ext_dir()
    ensure_tables()
    os.makedirs(os.path.join(C.WORK, 'replay'), exist_ok=True)
    folder = tempfile.mkdtemp(prefix='check-')
    try:
        if replay:
            with open(replay) as f:
                rp = json.load(f)
            metas = [shard(prop, 0, rp['seed'], rp['case'] + 1, 600, folder,
                           only=rp['case'])]
            runs = []
        else:
            count, seconds = plan[tier]
            with ThreadPoolExecutor(SHARDS + 1) as ex:
                fd = ex.submit(design, prop, tier)
                fs = [ex.submit(shard, prop, k, seed, count, seconds, folder)
                      for k in range(SHARDS)]
                metas = [f.result() for f in fs]
                runs = fd.result()
        return conclude(prop, seed, tier, metas, runs, start, replay)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def conclude(prop, seed, tier, metas, runs, start, replay):
    cov, samples, fresh = {}, [], []
    listed = known(prop)
    hit = set()
    for m in metas:
        for k, v in m['cov'].items():
            cov[k] = cov.get(k, 0) + v
        for line, clause in m['bad']:
            case, a, b = case_of(m, line)
            ev = lines_of(m['trace'], a, b)
            key = key_of(clause, ev, line - a)
            if key in listed:
                hit.add(key)
                continue
            fresh.append((case, line - a, clause, key, ev))
        if m['cases'] and len(samples) < 2:
            k, a, b = m['cases'][len(m['cases']) // 2]
            ev = lines_of(m['trace'], a, b)
            text = json.dumps(ev)
            samples.append({'case': k, 'events': [e['e'] for e in ev],
                            'trace': ev if len(text) < 3000
                            else text[:3000] + '...'})
    cases = sum(len(m['cases']) for m in metas)
    lines = sum(m['lines'] for m in metas)
    evid = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': sum(m['states'] for m in metas)
            + sum(q['states'] for q in runs),
            'transitions': sum(m['generated'] for m in metas)
            + sum(q['transitions'] for q in runs),
            'traces_validated_against_impl': cases,
            'trace_events': lines,
            'clauses_evaluated': cov,
            'design_models': runs,
            'skipped_cases_solver_licence': sum(m['skips'] for m in metas),
            'dropped_cases_solver_fault': sum(m['faults'] for m in metas),
            'unrecorded_events': sum(m['nerr'] for m in metas),
            'unrecorded_why': sorted({e for m in metas
                                      for e in m['errors']})[:10],
            'record_s': round(max(m['seconds'] for m in metas), 1),
            'tlc_s': round(max(m['tlc_s'] for m in metas), 1),
            'samples': samples},
        'assumptions': PLAN[prop].get('assumptions', []) + [
            'Gurobi solves each model to its own tolerances; instances fit '
            'its size-limited licence',
            'numbers are compared in exact integer arithmetic within 0.02 '
            'absolute and 1e-4 relative'],
        'wall_s': round(time.time() - start, 1),
        'violations': len(fresh)}
    if not replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', prop + '.json')
        with open(path + '.tmp%d' % os.getpid(), 'w') as f:
            json.dump(evid, f, indent=1)
        os.replace(path + '.tmp%d' % os.getpid(), path)
    for key in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, listed[key]))
    print('%s %s: %d cases, %d events, %d clause evaluations, '
          'record %.1f s, TLC %.1f s, wall %.1f s'
          % (prop, tier, cases, lines, sum(cov.values()),
             evid['coverage']['record_s'], evid['coverage']['tlc_s'],
             time.time() - start))
    if evid['coverage']['unrecorded_events']:
        print('  unrecorded events: %d %s'
              % (evid['coverage']['unrecorded_events'],
                 evid['coverage']['unrecorded_why'][:3]))
    if fresh:
        by = {}
        for q in fresh:
            by.setdefault(q[2], []).append(q)
        for clause, qs in sorted(by.items()):
            case, at, _, key, ev = min(qs, key=lambda q: len(q[4]))
            path = os.path.join(C.WORK, 'replay', '%s-%s-%s.json'
                                % (prop, clause.split('.')[1], key))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'clause': clause, 'seed': seed,
                           'case': case, 'event': at, 'key': key,
                           'trace': ev}, f)
            what = ''
            if clause.endswith('.crash'):
                what = ' (%s)' % ev[at].get('what')
            print('  %d x %s, e.g. case %s event %d%s'
                  % (len(qs), clause, case, at, what))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if sum(cov.values()) == 0:
        print('nothing could be judged')
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except (RuntimeError, subprocess.TimeoutExpired) as e:
        # The check itself failed: no answer
        print(e, file=sys.stderr)
        sys.exit(2)
