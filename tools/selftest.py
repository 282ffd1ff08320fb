#!/usr/bin/env python3
"""Development tool: is the specification able to say no?

selftest.py models        every FAULT of every design model must be rejected
selftest.py traces [ID..] records a few cases per property, changes one field
                          of one event at a time, and lists how often each
                          change is rejected by Trace.tla; the unchanged
                          traces must be accepted
"""
import copy
import json
import os
import random
import re
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'harness'))
import check                    # noqa: E402
import common as C              # noqa: E402
from plan import PLAN           # noqa: E402

FAULTS = {
    ('Adaptive', 'MC_plain'): ['pruneub', 'anyincumbent', 'onefewer'],
    ('Adaptive', 'MC_merge'): ['keepfewer', 'mergehit', 'stalecost'],
    ('Adaptive', 'MC_merge32'): ['anymerge', 'alwaysmerge'],
    ('AdaptiveHist', 'HI_merge'): ['alwaysmerge'],
    ('Run', 'RN_run'): ['nodisarm', 'takecut', 'anyub', 'latebegin',
                        'forgetx', 'anylb'],
    ('Tables', 'TB_two'): ['noeps', 'strict', 'time', 'gapbest'],
    ('Files', 'FL_two'): ['stride', 'caps'],
    ('Pipeline', 'PL_risk'): ['fewer', 'norisk', 'ask', 'clash']}


def models():
    def one(q):
        (module, cfg), fault = q
        with open(os.path.join(C.SPEC, cfg + '.cfg')) as f:
            text = f.read()
        assert '"none"' in text, cfg
        fd, path = tempfile.mkstemp(suffix='.cfg')
        with os.fdopen(fd, 'w') as f:
            f.write(text.replace('"none"', '"%s"' % fault))
        rc, out = check.tlc(module + '.tla', path, workers=2)
        os.unlink(path)
        m = re.findall(r'(?:Invariant|property|Property|Action property) '
                       r'?(\S+) (?:is|was|of)[^\n]*violated', out)
        return module, cfg, fault, rc, m
    todo = [(k, f) for k, fs in FAULTS.items() for f in fs]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for module, cfg, fault, rc, m in ex.map(one, todo):
            ok = rc in (12, 13)
            bad += not ok
            print('%-9s %-10s %-13s %s %s' % (
                module, cfg, fault, 'rejected' if ok else 'ACCEPTED', m))
    return bad


def changes(e, r):
    """(field, changed event) pairs."""
    for f, v in e.items():
        if f == 'e':
            continue
        for tag, w in variants(v, r):
            q = copy.deepcopy(e)
            q[f] = w
            yield f + tag, q


def variants(v, r):
    if isinstance(v, bool):
        return
    if isinstance(v, int):
        if abs(v) < 10 ** 9:
            yield '+1', v + 1
            yield '-1', v - 1
            if v > 900 or v < -900:
                yield '+1000', v + 1000
                yield '-1000', v - 1000
    elif isinstance(v, list) and v:
        i = r.randrange(len(v))
        yield '[drop]', v[:i] + v[i + 1:]
        if len(v) > 1:
            j = r.randrange(len(v))
            if v[i] != v[j]:
                w = list(v)
                w[i], w[j] = w[j], w[i]
                yield '[swap]', w
        for tag, w in variants(v[i], r):
            yield '[]' + tag, v[:i] + [w] + v[i + 1:]
    elif isinstance(v, dict) and v:
        f = r.choice(sorted(v))
        for tag, w in variants(v[f], r):
            yield '.' + f + tag, dict(v, **{f: w})


def traces(prop, each=6, cases=240):
    folder = tempfile.mkdtemp(prefix='self-')
    r = random.Random(5)
    try:
        m = check.shard(prop, 0, 7, cases, 60, folder)
        m.update(check.judge('ALL', m['trace'], m['lines']))
        if m['bad']:
            print(prop, 'unchanged trace rejected', m['bad'][:3])
            return 1
        todo = {}
        for k, a, b in m['cases']:
            ev = check.lines_of(m['trace'], a, b)
            for i, e in enumerate(ev):
                if e['e'] in ('inst',):
                    continue
                for tag, q in changes(e, r):
                    todo.setdefault((e['e'], tag), []).append((ev, i, q))
        path = os.path.join(folder, 'mutants.ndjson')
        spans = []
        n = 0
        with open(path, 'w') as f:
            for key in sorted(todo):
                for ev, i, q in r.sample(todo[key],
                                         min(each, len(todo[key]))):
                    for j, e in enumerate(ev):
                        f.write(json.dumps(q if j == i else e) + '\n')
                    spans.append((key, n + 1, n + len(ev)))
                    n += len(ev)
        # A rejected event may stop TLC; then judge span by span
        res = {}

        def tell(part):
            a0, b0 = part[0][1], part[-1][2]
            sub = os.path.join(folder, 'm%d.ndjson' % a0)
            with open(path) as f, open(sub, 'w') as g:
                for k, w in enumerate(f, 1):
                    if a0 <= k <= b0:
                        g.write(w)
            j = check.judge('ALL', sub, b0 - a0 + 1)
            if 'tlc_error' in j and len(part) > 1:
                h = len(part) // 2
                return tell(part[:h]) + tell(part[h:])
            return [(key, sorted({w for x, w in j['bad']
                                  if a <= x + a0 - 1 <= b}))
                    for key, a, b in part]
        size = -(-len(spans) // 8) or 1
        chunks = [spans[i:i + size] for i in range(0, len(spans), size)]
        with ThreadPoolExecutor(8) as ex:
            for got in ex.map(tell, chunks):
                for key, hit in got:
                    res.setdefault(key, []).append(hit)
        total = sum(map(len, res.values()))
        print('%s: %d changed traces, %d rejected'
              % (prop, total, sum(bool(h) for q in res.values() for h in q)))
        for (kind, tag), hits in sorted(res.items()):
            print('   %-8s %-24s %d/%d %s' % (
                kind, tag, sum(map(bool, hits)), len(hits),
                ' '.join(sorted({w for h in hits for w in h}))[:90]))
        return 0
    finally:
        shutil.rmtree(folder, ignore_errors=True)


if __name__ == '__main__':
    check.ensure_tables()
    C.ext_dir()
    if sys.argv[1] == 'models':
        sys.exit(min(models(), 1))
    sys.exit(max(traces(p) for p in (sys.argv[2:] or sorted(PLAN))))
