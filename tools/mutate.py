#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, no check uses it).

mutate.py list                the number of mutants per file
mutate.py run OUT SEED COUNT [SLOTS] [FILE...]
                              judges COUNT random mutants with all clauses of
                              all properties and appends the verdicts to OUT
mutate.py again OUT NEW [SECONDS] [SLOTS]
                              judges the survivors in OUT once more, longer

Every mutant lives in a scratch copy of /repo, named by VERIF_REPO.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = sorted(subprocess.run(
    "cd /repo && find main.py export_results.py src data violations.pyx "
    "violations.h -name '*.py' -o -name '*.pyx' -o -name '*.h' | "
    "grep -v test", shell=True, stdout=subprocess.PIPE).stdout.decode().split())

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '*'}


def mutants_py(src):
    """(start, end, new text) for every mutant."""
    lines = src.split('\n')
    off = [0]
    for w in lines:
        off.append(off[-1] + len(w) + 1)

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def put(n, new):
        a, b = span(n)
        out.append((a, b, new))
    docs = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            q = n.body[0]
            if isinstance(q, ast.Expr) and isinstance(q.value, ast.Constant):
                docs.add(q)
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = text(n.left), text(n.comparators[0])
            put(n, '%s %s %s' % (a, CMP[type(n.ops[0])], b))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = text(n.left), text(n.right)
            if not (isinstance(n.left, ast.Constant)
                    and isinstance(n.left.value, str)):
                put(n, '%s %s %s' % (a, BIN[type(n.op)], b))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join(text(v) for v in n.values) + ')')
            for k in range(len(n.values)):
                put(n, text(n.values[k]))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, 'not (%s)' % text(n.test))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v))
            elif isinstance(v, (int, float)):
                put(n, '(%r + 1)' % v)
                if v not in (0, 1):
                    put(n, '(%r * 0.5)' % v)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('min', 'max'):
                put(f, 'max' if f.id == 'min' else 'min')
            if len(n.args) >= 2:
                a, b = text(n.args[0]), text(n.args[1])
                s, e = span(n.args[0])[0], span(n.args[1])[1]
                out.append((s, e, '%s, %s' % (b, a)))
            if isinstance(f, ast.Attribute) and f.attr == 'copy':
                put(n, text(f.value))
            if isinstance(f, ast.Name) and f.id in ('sorted', 'deepcopy',
                                                    'copy', 'list', 'abs'):
                if n.args:
                    put(n, text(n.args[0]))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            pass
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                            ast.Delete, ast.Break, ast.Continue)):
            if not any(ast.dump(n) == ast.dump(d) and n.lineno == d.lineno
                       for d in docs):
                put(n, 'pass')
            if isinstance(n, ast.AugAssign):
                s, e = span(n)
                put(n, '%s = %s' % (text(n.target), text(n.value)))
        elif isinstance(n, ast.Return) and n.value is not None:
            if isinstance(n.value, ast.Tuple):
                e = n.value.elts
                put(n.value, ', '.join(text(v) for v in [e[1], e[0], *e[2:]]))
    return out


def mutants_c(src):
    out = []
    for m in re.finditer(r'<=|>=|==|(?<![<>=!])<(?![<=])|(?<![<>=-])>(?![>=])',
                         src):
        line = src[src.rfind('\n', 0, m.start()) + 1:m.start()]
        if line.lstrip().startswith(('//', '#', '*', 'vector', 'std')):
            continue
        new = {'<=': '<', '>=': '>', '==': '!=', '<': '<=', '>': '>='}
        out.append((m.start(), m.end(), new[m.group()]))
    for m in re.finditer(r'(?<=[\w\])] )[+*/-](?= [\w(])', src):
        new = {'+': '-', '-': '+', '*': '/', '/': '*'}
        out.append((m.start(), m.end(), new[m.group()]))
    for m in re.finditer(r'(?<![\w.])\d+(\.\d+)?(?![\w.])', src):
        out.append((m.start(), m.end(), '(%s+1)' % m.group()))
    for m in re.finditer(r'^[ \t]+[^\n{}#]*;[ \t]*$', src, re.M):
        if not re.match(r'\s*(double|int|vector|std|bool|//|return)', m.group()):
            out.append((m.start(), m.end(), ';'))
    return out


def all_mutants(files=FILES):
    out = []
    for f in files:
        with open('/repo/' + f) as h:
            src = h.read()
        ms = mutants_py(src) if f.endswith('.py') else mutants_c(src)
        for a, b, new in sorted(set(ms)):
            if src[a:b] == new:
                continue
            if f.endswith('.py'):
                try:
                    compile(src[:a] + new + src[b:], f, 'exec')
                except SyntaxError:
                    continue
            out.append((f, a, b, new, src.count('\n', 0, a) + 1, src[a:b]))
    return out


RUN = r'''
import os, sys, json, tempfile, random, glob
sys.path.insert(0, VERIF); sys.path.insert(0, VERIF + '/harness')
import check, common as C
props = sys.argv[1].split(',')
try:
    C.ext_dir()
except Exception as e:
    print('RESULT', json.dumps(['build'])); sys.exit()
folder = tempfile.mkdtemp(prefix='mu-')
check.SHARDS = 1
try:
    for p in props:
        try:
            real = check.judge
            check.judge = lambda prop, t, n: real('ALL', t, n)
            m = check.shard(p, 0, int(sys.argv[2]), 100000, float(sys.argv[3]), folder)
            check.judge = real
        except Exception as e:
            print('RESULT', json.dumps(['error in %s: %s' % (p, str(e)[-300:])])); sys.exit()
        if m['bad']:
            print('RESULT', json.dumps([p] + sorted({c for _, c in m['bad']}))); sys.exit()
    print('RESULT', json.dumps([]))
finally:
    import shutil; shutil.rmtree(folder)
'''.replace('VERIF', repr(VERIF))

METHOD = 'C05 C01 C03 C06 C23 C16 C20 C26 C02'
RELEVANT = {
    'BigM': 'C08 C15 C09 C20 C07 C15 C17 C25 C26', 'song': 'C08 C15 C09 C17 C20',
    'export_results': 'C24 C27', 'format': 'C24 C20 C27',
    'Merger': 'C05 C06 C01 C22 C23 C03 C26',
    'Refiner': 'C04 C18 C12 C11 C01 C03 C05 C23 C26 C06',
    'violations': 'C15 C08 C09 C25',
    'UpperB': 'C11 C02 C07 C22 C10 C13 C01 C03 C12',
    'Init': 'C21 C13 C02 C26 C01', 'Warm': 'C22 C05 C01',
    'Milp': 'C17 C09 C20 C16 C26', 'instance-gen': 'C19 C27',
    'PartitionCh': 'C14 C03 C07 C08 C05', 'ChanceInst': 'C14 C19 C10 C26 C01', 'ChanceKnap': 'C19 C14 C20 C27',
    'Deter': 'C25 C05 C13 C06',
    'Evaluator': 'C25 C10 C06 C05 C12', 'main.py': 'C20 C16 C27 C26',
    'TimeM': 'C16 C17 C20 C26', 'Informer': 'C17 C20 C16 C03',
    'AccObj': 'C18 C04 C01', 'LowerB': 'C12 C02 C10 C11 C01 C06 C03 C05',
    'CCLP': 'C07 C22 C03 C11 C09', 'Adaptive': METHOD + ' C17 C07 C22 C21',
    'OptiModel': 'C07 C25 C09 C18 C16 C17 C05 C01 C10',
    'BigMKnap': 'C08 C09 C07 C17 C16', 'Solver': METHOD + ' C17 C09'}


def one(m, seconds=3):
    f, a, b, new, line, old = m
    d = tempfile.mkdtemp(prefix='mt-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'],
                       check=True)
        with open(os.path.join(d, f)) as h:
            src = h.read()
        with open(os.path.join(d, f), 'w') as h:
            h.write(src[:a] + new + src[b:])
        order = next(v for k, v in RELEVANT.items() if k in f).split()
        env = dict(os.environ, VERIF_REPO=d, TMPDIR=d)
        try:
            p = subprocess.run([sys.executable, '-c', RUN, ','.join(order),
                                '7', str(seconds)], env=env, timeout=900,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
            r = re.findall(r'RESULT (.*)', p.stdout.decode())
            v = json.loads(r[0]) if r else \
                ['error ' + p.stderr.decode()[-300:]]
        except subprocess.TimeoutExpired:
            v = ['timeout']
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'file': f, 'line': line, 'old': old, 'new': new, 'verdict': v,
            'a': a, 'b': b}


def main():
    if sys.argv[1] == 'list':
        n = {}
        for m in all_mutants():
            n[m[0]] = n.get(m[0], 0) + 1
        for k in sorted(n):
            print('%5d %s' % (n[k], k))
        print(sum(n.values()))
        return
    if sys.argv[1] == 'again':
        out = sys.argv[3]
        seconds = float(sys.argv[4]) if len(sys.argv) > 4 else 8
        slots = int(sys.argv[5]) if len(sys.argv) > 5 else 7
        ms = []
        with open(sys.argv[2]) as h:
            for w in map(json.loads, h):
                if not w['verdict'] or w['verdict'][0].startswith('error'):
                    ms.append((w['file'], w['a'], w['b'], w['new'],
                               w['line'], w['old']))

        def redo(m):
            r = one(m, seconds)
            with open(out, 'a') as h:
                h.write(json.dumps(r) + '\n')
        with ThreadPoolExecutor(slots) as ex:
            list(ex.map(redo, ms))
        return
    out, seed, count = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    slots = int(sys.argv[5]) if len(sys.argv) > 5 else 7
    ms = all_mutants(sys.argv[6:] or FILES)
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for w in open(out):
            w = json.loads(w)
            done.add((w['file'], w['a'], w['b'], w['new']))
    ms = [m for m in ms if m[:4] not in done][:count]

    def go(m):
        r = one(m)
        with open(out, 'a') as h:
            h.write(json.dumps(r) + '\n')
    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(go, ms))


if __name__ == '__main__':
    main()
