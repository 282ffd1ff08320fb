"""One driver per property: each call makes one case (a list of events)."""
import copy
import csv
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

import common as C
import gen as G
import rec as R
from solver import FAULT_CODE


# - - - shared pieces - - -
def begin(rec, inst, g=None, table=1, cont=None, pts=()):
    rec.cont = bool(inst.cont if cont is None else cont)
    g = dict(g or {})
    for k, v in (('init', ''), ('proj', ''), ('merge', 0), ('split', ''),
                 ('gap', 1)):
        g.setdefault(k, v)
    rec.ev.append({'e': 'inst', 'i': inst.rec(cont), 'g': g, 'table': table,
                   'pts': [C.point(x, rec.cont) for x in pts]})


def config(r, inst, **force):
    split = r.choice(['cost', 'random'])
    g = {'drv': 'adaptive',
         'split': split,
         'acc': split == 'cost',
         'init': r.choice(['random', 'cost']),
         'proj': r.choice(['counter', 'rescaled_max_violation',
                           'rescaled_max_violation']),
         'bm': r.choice(['', 'naive', 'belotti', 'belotti', 'song']),
         'merge': r.choice([0, 1]),
         'lazy': r.choice([0, 1]),
         # requested gap, in 1/10000
         'gap': r.choice([1, 1, 1, 1, 1, 200, 1000, 4000])}
    g.update(force)
    g['acc'] = g['split'] == 'cost'
    return g


def construct(ci, g, **kw):
    from src.solver.AdaptivePartitioner import AdaptivePartitioner
    kw.setdefault('gap', g['gap'] / 10000)
    return AdaptivePartitioner(
        ci, split_method=g['split'], initial_partition_type=g['init'],
        projection_method=g['proj'], use_acc_obj=g['acc'], **kw)


def part0(rec, ap):
    scen = getattr(ap.initializer, 'scenario_costs', None)
    rec.log('part0', lambda: {
        'part': C.partition(ap.partition), 'ub': C.num(ap.vUB),
        'scen': [C.num(v) for v in scen] if scen is not None else []})


def finder(ap, g):
    from src.BigMFinder import BigMFinder
    return BigMFinder(ap.chance_instance_part) if g['bm'] else None


def run_solve(ap, g):
    ap.solve(finder(ap, g), use_big_M=bool(g['bm']),
             big_m_method=g['bm'] or 'naive', use_merger=bool(g['merge']),
             use_lazy=bool(g['lazy']))


def end(rec, ap, stop=0, cap=0):
    xl = getattr(ap, 'xLB', None)
    rec.log('end', lambda: {
        'ub': C.num(ap.vUB), 'lb': C.num(ap.vLB), 'stop': stop, 'cap': cap,
        'hasl': int(xl is not None), 'xlb': rec.pt(xl),
        'iters': int(getattr(ap, 'iteration', -1))})


def solve(r, rec, tmp, inst, g, table=1, pts=()):
    """A complete run of the adaptive method."""
    begin(rec, inst, g, table=table, pts=pts)
    rec.cap = 400 if g['merge'] else inst.N + 5
    box = {}

    def go():
        ci = inst.load(tmp)
        rec.main = ci
        box['ap'] = ap = construct(ci, g)
        part0(rec, ap)
        rec.ap = ap
        run_solve(ap, g)
        end(rec, ap)
    with rec:
        try:
            R.guarded(rec, go)
        except R.Cap:
            end(rec, box['ap'], stop=1, cap=1)
    rec.ap = None


def seed_all(r):
    k = r.randrange(2 ** 31)
    random.seed(k)
    np.random.seed(k)


# - - - instances enumerated by the specification (Gen.tla) - - -
_tables = None


def tables():
    """Tables enumerated by TLC: list of (N, p, [[o, [s, ..]], ..])."""
    global _tables
    if _tables is None:
        path = os.path.join(C.WORK, 'tables.json')
        with open(path) as f:
            _tables = json.load(f)
    return _tables


def realise(r, t):
    """A binary packing instance whose table is the given one: items are the
    points, and any two items together violate every scenario."""
    N, p, pts = t
    n = len(pts)
    pts = list(pts)
    r.shuffle(pts)
    order = list(range(N))
    r.shuffle(order)
    A = [[[20] * n] for _ in range(N)]
    for j, (o, v) in enumerate(pts):
        for s in v:
            A[order[s - 1]][0][j] = 40
    c = [10 * o for o, v in pts]
    return G.Inst(n, 1, N, c, A, [30], (p, N), False)


def from_spec(r):
    return realise(r, r.choice(tables()))


def mixed(r, cont=.2, spec=.35, small=False):
    if r.random() < spec:
        return from_spec(r)
    return G.any_inst(r, small=small, cont=cont)


# - - - instances without a table - - -
def few(k, one_in=250):
    """A few cases, spread over the shards."""
    return k // 8 % one_in == 3


def witnesses(inst, blocks=None, p=None, seconds=5):
    """Good points of an instance (of which all but p blocks of scenarios
    are enforced), found by other means.  The specification judges them by
    itself: they only have to be there."""
    import gurobipy as gp
    from gurobipy import GRB
    if blocks is None:
        blocks, p = [[s] for s in range(inst.N)], inst.p
    with gp.Env(params={'OutputFlag': 0}) as env, gp.Model(env=env) as m:
        m.setParam('Threads', 1)
        m.setParam('MIPGap', 0)
        m.setParam('IntFeasTol', 1e-9)
        m.setParam('FeasibilityTol', 1e-9)
        m.setParam('TimeLimit', seconds)
        kind = GRB.CONTINUOUS if inst.cont else GRB.BINARY
        x = m.addVars(inst.n, ub=1, vtype=kind)
        z = m.addVars(len(blocks), vtype=GRB.BINARY)
        for k, block in enumerate(blocks):
            for s in block:
                for i in range(inst.m):
                    big = max(sum(inst.A[s][i]) - inst.b[i], 0) if p else 0
                    m.addConstr(gp.quicksum(inst.A[s][i][j] * x[j]
                                            for j in range(inst.n))
                                <= inst.b[i] + big * z[k])
        m.addConstr(z.sum() <= p)
        m.setObjective(gp.quicksum(inst.c[j] * x[j] for j in range(inst.n)),
                       GRB.MAXIMIZE)
        m.optimize()
        out = []
        for k in range(min(m.SolCount, 3)):
            m.setParam('SolutionNumber', k)
            out.append([x[j].Xn for j in range(inst.n)])
    return out


class Lp:
    """The continuous problem that enforces some scenarios: its value, and
    as certificates a point just inside and multipliers of the rows (in
    thousandths), both judged by the specification."""

    def __init__(self, inst):
        import gurobipy as gp
        from gurobipy import GRB
        self.inst, self.done = inst, {}
        self.env = gp.Env(params={'OutputFlag': 0})
        self.m = m = gp.Model(env=self.env)
        m.setParam('Threads', 1)
        m.setParam('FeasibilityTol', 1e-9)
        m.setParam('OptimalityTol', 1e-9)
        I = inst
        self.x = x = m.addVars(I.n, ub=1)
        self.rows = [[m.addConstr(gp.quicksum(
            I.A[s][i][j] * x[j] for j in range(I.n)) <= I.b[i])
            for i in range(I.m)] for s in range(I.N)]
        m.setObjective(gp.quicksum(I.c[j] * x[j] for j in range(I.n)),
                       GRB.MAXIMIZE)

    def close(self):
        self.m.dispose()
        self.env.dispose()

    def __call__(self, S):
        S = tuple(sorted(S))
        if S not in self.done:
            self.done[S] = self.solve(S)
        return self.done[S]

    def solve(self, S):
        I = self.inst
        for s in range(I.N):
            for i in range(I.m):
                self.rows[s][i].RHS = I.b[i] if s in S \
                    else sum(I.A[s][i]) + 10
        self.m.optimize()
        y = [[max(0, int(round(1000 * q.Pi))) for q in self.rows[s]]
             for s in S]
        pt = [max(0, min(1, self.x[j].X)) * (1 - 5e-4) for j in range(I.n)]
        return self.m.ObjVal, C.point(pt, True), y


def certify(rec, inst, kinds, most=40):
    """Adds, before events that claim the optimum of a problem, a good point
    of this problem."""
    def zero(w):
        return [s - 1 for s in w]
    done, part, out = set(), None, []
    for e in rec.ev:
        jobs = []
        if e['e'] in ('iter', 'iter0'):
            part = e['part']
            if 'blocks' in kinds:
                jobs = [([zero(w)], 0) for w in part]
        elif e['e'] == 'ub' and 'ub' in kinds and part:
            jobs = [([zero(w) for w in part], inst.p)]
        elif e['e'] == 'lb' and 'lb' in kinds and e['S']:
            jobs = [([zero(e['S'])], 0)]
        elif e['e'] == 'det':
            jobs = [([zero(e['S'])], 0)]
        pts = []
        for blocks, p in jobs:
            key = (p, frozenset(frozenset(w) for w in blocks))
            if key in done or len(done) >= most:
                continue
            done.add(key)
            pts += witnesses(inst, blocks, p)
        if pts:
            out.append({'e': 'pts', 'pts': [C.point(x, rec.cont)
                                            for x in pts]})
        out.append(e)
    rec.ev[:] = out


def d_large(r, rec, tmp, k, kinds=('adaptive', 'adaptive', 'milp'),
            claims=(), **force):
    """Several ways to solve the same instance: all that they claim has to
    fit together, and with the points that are seen on the way."""
    inst = G.large(r)
    pts = witnesses(inst)
    rec.big = True
    for kind in kinds:
        if kind == 'milp':
            milp(r, rec, tmp, inst, table=2, pts=pts)
        else:
            solve(r, rec, tmp, inst, config(r, inst, **force), table=2,
                  pts=pts)
    certify(rec, inst, claims)


# - - - full runs - - -
def d_solve(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k)
    if r.random() < .12:
        inst = G.profits(r)
        gap = {'gap': r.choice([1, 2000, 3000])} if max(inst.c) < 10 \
            else {'gap': 1}
        return solve(r, rec, tmp, inst, config(r, inst, **gap))
    inst = mixed(r)
    solve(r, rec, tmp, inst, config(r, inst))


def d_solve_multi(r, rec, tmp, k):
    """Runs that need several iterations (many splits, ties)."""
    if few(k):
        return d_large(r, rec, tmp, k, ('adaptive', 'adaptive'))
    return solve_multi(r, rec, tmp)


def d_partition(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k, ('adaptive', 'adaptive'))
    rec.views = True
    if r.random() < .3:
        return any_history(r, rec, tmp)
    return solve_multi(r, rec, tmp)


def solve_multi(r, rec, tmp):
    q = r.random()
    if q < .3:
        inst = from_spec(r)
    elif q < .65:
        inst = G.abs_style(r, ties=r.random() < .5)
    elif q < .82:
        inst = G.spread(r)
    elif q < .91:
        inst = G.knap(r)
    else:
        inst = G.continuous(r)
    solve(r, rec, tmp, inst, config(r, inst))


def d_solve_merge(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k, ('adaptive',), ('blocks',),
                       merge=r.choice([0, 1]))
    q = r.random()
    if q < .3:
        inst = from_spec(r)
    elif q < .65:
        inst = G.abs_style(r, ties=r.random() < .4)
    elif q < .9:
        inst = G.spread(r)
    else:
        inst = G.any_inst(r)
    solve(r, rec, tmp, inst, config(r, inst, merge=1))


# - - - C04: refinement of arbitrary partitions - - -
def relaxed_point(r, inst, part, ci):
    """A point violating at most p blocks but more than p scenarios, or
    None.  Among random ones."""
    for _ in range(60):
        if inst.cont:
            x = np.array([r.choice([0, .25, .5, .75, 1, r.random()])
                          for _ in range(inst.n)])
        else:
            x = np.array([float(r.random() < .5) for _ in range(inst.n)])
        inf = [s for s in range(inst.N)
               if (ci.matrices_A[s] @ x > ci.vectors_b[s] + 1e-6).any()]
        hit = sum(any(s in inf for s in b) for b in part)
        if len(inf) > inst.p and hit <= inst.p:
            return x
    return None


def d_refine(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k, ('adaptive',))
    q = r.random()
    if q < .25:
        return d_solve_multi(r, rec, tmp, k)
    if q < .6:
        return any_history(r, rec, tmp)
    if few(k, 40):
        return wide_step(r, rec, tmp)
    from src.refiner.RandomRefiner import RandomRefiner
    from src.refiner.CostRefiner import CostRefiner
    for _ in range(50):
        inst = G.any_inst(r, cont=.15)
        if inst.p < 1 or inst.N < 3:
            continue
        ci = inst.load(tmp)
        nb = r.randint(inst.p + 1, max(inst.p + 1, inst.N - 1))
        part = G.random_partition(r, inst.N, nb)
        x = relaxed_point(r, inst, part, ci)
        if x is not None:
            break
    else:
        return
    begin(rec, inst)
    rec.main = ci
    acc = r.random() < .4

    def go():
        cls = CostRefiner if acc else RandomRefiner
        ref = cls(ci, acc)
        for _ in range(r.choice([1, 1, 3])):
            ci.check_feasibility(x)
            ref.vUB = r.choice([float('inf'), 1e6, 1.0])
            ev = __import__('src.Evaluator', fromlist=['Evaluator'])
            if acc:
                ref.subset_costs = ev.Evaluator(ci).partition_cost(part)[0]
            ref.refine(part, x)
    with rec:
        R.guarded(rec, go)


def wide_step(r, rec, tmp):
    """A refinement, and a merge, of a partition of many scenarios."""
    from src.Merger import Merger
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    from src.refiner.RandomRefiner import RandomRefiner
    inst, part, x = G.wide_relaxed(r)
    begin(rec, inst, table=0)
    x = np.array(x, dtype=float)
    ci = inst.load(tmp)
    rec.main = ci
    view = []

    def go():
        view.append(PartitionChanceKnapInstance(ci))
        ci.check_feasibility(x)
        ref = RandomRefiner(ci, False)
        ref.vUB = float('inf')
        n, new = ref.refine(part, x)
        view[0].load_partition(n, new)
        feas, mu = list(ref.feasible_subsets), ref.mu
        m = Merger(ci, view[0])
        if len(feas) >= mu + 1:
            m.merge_feasible(new, x, feas, mu)
        elif len(feas) == mu and mu >= 1:
            bad = [c for c in range(n) if c not in feas]
            m.merge_all(new, feas + [r.choice(bad)])
    with rec:
        R.guarded(rec, go)
        R.guarded(rec, lambda: join_pairs(r, rec, Merger, ci,
                                          (view or [None])[0], part))


def join_pairs(r, rec, Merger, ci, view, part):
    """Blocks that are merged two by two, and the choice of their partners."""
    part = [list(b) for b in part]
    if len(part) < 3 or not hasattr(Merger, 'merge'):
        return
    m = Merger(ci, view)
    order = r.sample(range(len(part)), len(part))
    h = r.randint(1, len(part) // 2)
    a, b = order[:h], order[h:2 * h]
    cost = [float(r.choice([1, 2, 2, 5, 7, 7, 11])) for _ in part]
    ub = r.choice([0.5, 2., 6., 7., 20.])
    cand = r.sample(range(len(part)), r.randint(0, len(part)))
    got = None
    if hasattr(m, 'find_inf_candidate'):
        got = m.find_inf_candidate(list(cand), list(cost), ub)
    new, n = m.merge([list(q) for q in part], a, b)
    d = {'old': C.partition(part), 'new': C.partition(new), 'n': int(n),
         'a': [q + 1 for q in a], 'b': [q + 1 for q in b]}
    if got is not None:
        d.update(costs=[C.num(v) for v in cost], ub=C.num(ub),
                 cand=C.ids(cand), got=[int(q) + 1 for q in got])
    rec.emit('pairs', **d)


def history(r, rec, tmp, inst, kind, lp=False, steps=None, merging=.5):
    """Several refinements (and merges) by the same components, coming back
    to partitions and points they have seen before."""
    from src.Evaluator import Evaluator
    from src.Merger import Merger
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    from src.refiner.CostRefiner import CostRefiner
    from src.refiner.RandomRefiner import RandomRefiner
    ci = inst.load(tmp)
    pool = []
    for _ in range(r.choice([1, 1, 2])):
        nb = r.randint(inst.p + 1, max(inst.p + 1, inst.N - 1)
                       if r.random() < .5 else inst.p + 2)
        part = G.random_partition(r, inst.N, nb)
        xs = [relaxed_point(r, inst, part, ci) for _ in range(4)]
        pool += [(part, x) for x in xs if x is not None]
    if not pool:
        return False
    begin(rec, inst, {'split': kind}, cont=True if lp else None)
    rec.main = ci

    def go():
        ref = CostRefiner(ci, True) if kind == 'cost' \
            else RandomRefiner(ci, False)
        view = PartitionChanceKnapInstance(ci)
        m = Merger(ci, view)
        for _ in range(steps or r.randint(2, 6)):
            part, x = r.choice(pool)
            part = copy.deepcopy(part)
            ci.check_feasibility(x)
            ref.vUB = r.choice([float('inf'), 1e6, 1.0,
                                r.uniform(0, float(sum(ci.vector_c)))])
            if kind == 'cost':
                ref.subset_costs = Evaluator(ci).partition_cost(part)[0]
            n, new = ref.refine(part, x)
            view.load_partition(n, new)
            feas, mu = list(ref.feasible_subsets), ref.mu
            if r.random() < merging:
                if len(feas) >= mu + 1:
                    new, n = m.merge_feasible(new, x, feas, mu)
                elif len(feas) == mu and mu >= 1:
                    bad = [c for c in range(n) if c not in feas]
                    new, n = m.merge_all(new, feas + [r.choice(bad)])
                view.load_partition(n, new)
            y = relaxed_point(r, inst, new, ci)
            if y is not None and r.random() < .3:
                pool.append((copy.deepcopy(new), y))
    with rec:
        R.guarded(rec, go)
    return True


def any_history(r, rec, tmp):
    for _ in range(20):
        inst = G.any_inst(r, cont=.2, small=r.random() < .5)
        if inst.p >= 1 and inst.N >= 4 and history(
                r, rec, tmp, inst, r.choice(['cost', 'random']),
                merging=r.choice([.3, .8])):
            return


# - - - C05: merges after arbitrary refinements - - -
def d_merge(r, rec, tmp, k):
    q = r.random()
    if q < .5:
        return d_solve_merge(r, rec, tmp, k)
    if q < .75:
        return any_history(r, rec, tmp)
    # Direct calls of the merging step on refined random partitions
    if few(k, 40):
        return wide_step(r, rec, tmp)
    from src.refiner.RandomRefiner import RandomRefiner
    from src.Merger import Merger
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    for _ in range(50):
        inst = G.any_inst(r, cont=.15)
        if inst.p < 1 or inst.N < 4:
            continue
        ci = inst.load(tmp)
        nb = r.randint(inst.p + 1, max(inst.p + 1, inst.N - 1))
        part = G.random_partition(r, inst.N, nb)
        x = relaxed_point(r, inst, part, ci)
        if x is not None:
            break
    else:
        return
    begin(rec, inst)
    rec.main = ci
    view = []

    def go():
        view.append(PartitionChanceKnapInstance(ci))
        ci.check_feasibility(x)
        ref = RandomRefiner(ci, False)
        ref.vUB = float('inf')
        n, new = ref.refine(part, x)
        view[0].load_partition(n, new)
        feas, mu = list(ref.feasible_subsets), ref.mu
        m = Merger(ci, view[0])
        if len(feas) >= mu + 1:
            m.merge_feasible(new, x, feas, mu)
        elif len(feas) == mu and mu >= 1:
            bad = [c for c in range(n) if c not in feas]
            m.merge_all(new, feas + [r.choice(bad)])
    with rec:
        R.guarded(rec, go)
        R.guarded(rec, lambda: join_pairs(r, rec, Merger, ci,
                                          (view or [None])[0], part))


def join_pairs(r, rec, Merger, ci, view, part):
    """Blocks that are merged two by two, and the choice of their partners."""
    part = [list(b) for b in part]
    if len(part) < 3 or not hasattr(Merger, 'merge'):
        return
    m = Merger(ci, view)
    order = r.sample(range(len(part)), len(part))
    h = r.randint(1, len(part) // 2)
    a, b = order[:h], order[h:2 * h]
    cost = [float(r.choice([1, 2, 2, 5, 7, 7, 11])) for _ in part]
    ub = r.choice([0.5, 2., 6., 7., 20.])
    cand = r.sample(range(len(part)), r.randint(0, len(part)))
    got = None
    if hasattr(m, 'find_inf_candidate'):
        got = m.find_inf_candidate(list(cand), list(cost), ub)
    new, n = m.merge([list(q) for q in part], a, b)
    d = {'old': C.partition(part), 'new': C.partition(new), 'n': int(n),
         'a': [q + 1 for q in a], 'b': [q + 1 for q in b]}
    if got is not None:
        d.update(costs=[C.num(v) for v in cost], ub=C.num(ub),
                 cand=C.ids(cand), got=[int(q) + 1 for q in got])
    rec.emit('pairs', **d)


# - - - C07: the relaxed problem on arbitrary partitions - - -
def d_relaxed(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k, ('adaptive', 'adaptive'), ('ub',))
    if r.random() < .4:
        return d_solve(r, rec, tmp, k)
    inst = mixed(r, cont=.3, spec=.2)
    nb = r.randint(min(inst.p + 2, inst.N), inst.N)
    part = G.random_partition(r, inst.N, nb)
    g = config(r, inst, init='random', split='random')
    begin(rec, inst, g)
    noise = r.random()
    rounds = r.choice([1, 1, 2, 3])
    loose = int(g['gap'] > 1)

    def go():
        from src.BigMFinder import BigMFinder
        from src.Evaluator import Evaluator
        ci = inst.load(tmp)
        rec.main = ci
        ap = construct(ci, g)
        view = ap.chance_instance_part
        view.load_partition(nb, part)
        ap.vUB = sum(ci.vector_c) + 1.0 if noise < .5 else float('inf')
        bmf = BigMFinder(view) if g['bm'] else None
        pt = part
        for _ in range(rounds):
            # The same components solve one partition after the other
            rec.ev.append({'e': 'iter0', 'part': C.partition(pt)})
            K = len(pt)
            view.load_partition(K, pt)
            costs, sols = Evaluator(ci).partition_cost(pt)
            # A valid lower bound: the best feasible solution found
            vLB = max([float(np.dot(ci.vector_c, s)) for s in sols
                       if ci.is_feasible(s)[0]] + [0.0])
            if g['bm']:
                # A bound for the big-M's that is valid for the partition
                top = sum(ci.vector_c) if noise < .5 else max(costs)
                bmf.update_big_M(K, top, method=g['bm'],
                                 chance_instance=ci, partition=pt)
            prune = [i for i in range(K) if costs[i] <= vLB - 1e-3] \
                if r.random() < .6 else []
            x, z, v, b = ap.solve_cclp_model(
                view, bmf, z_start={i: 1 for i in range(K)
                                    if r.random() < .5},
                prune_indices=prune, time_limit=1800,
                gap=1e-8 if g['gap'] <= 1 else g['gap'] / 10000,
                use_big_M=bool(g['bm']), use_lazy=bool(g['lazy']),
                verbose=False)
            rec.emit('ub', mode='model', loose=loose, x=rec.pt(x),
                     z=C.bits(z), obj=C.num(v), bnd=C.num(b))
            pt = similar(r, pt, inst.p)
    R.guarded(rec, go)


# - - - C08: big-M values - - -
def d_bigm(r, rec, tmp, k):
    inst = mixed(r, cont=.35, spec=.15, small=r.random() < .5)
    part = None
    if r.random() < .6:
        nb = r.randint(min(inst.p + 1, inst.N), inst.N)
        part = G.random_partition(r, inst.N, nb)
    meth = r.choice(['naive', 'belotti', 'belotti', 'song', 'song'])
    begin(rec, inst)
    q = r.random()

    def go():
        from src.BigMFinder import BigMFinder
        from src.instance.PartitionChanceKnapInstance import \
            PartitionChanceKnapInstance
        ci = inst.load(tmp)
        tot = float(sum(ci.vector_c))
        top = tot if q < .3 else round(q * tot, 1)
        # The bound improves from one round to the next, or goes up again
        # when another run uses the same finder
        tops = [top]
        while r.random() < .5 and len(tops) < 3:
            tops.append(round(r.choice([.3, .6, .8, .9, 1, 1, 1.2]) *
                              tops[-1], 1))
        if part is None:
            f = BigMFinder(ci)
            for top in tops:
                if meth == 'belotti':
                    f.run_belotti_et_al_big_M(top)
                elif meth == 'song':
                    f.run_song_et_al_big_m(ci)
                rec.emit('bigm', **R.bigm(f, meth, None, top))
        else:
            view = PartitionChanceKnapInstance(ci)
            view.load_partition(len(part), part)
            f = BigMFinder(view)
            pt = part
            for top in tops:
                view.load_partition(len(pt), pt)
                f.update_big_M(len(pt), top, method=meth,
                               chance_instance=ci, partition=pt)
                rec.emit('bigm', **R.bigm(f, meth, pt, top))
                # Another partition: stale data?
                h = r.random()
                if h < .4:
                    pt = G.random_partition(
                        r, inst.N, r.randint(min(inst.p + 1, inst.N),
                                             inst.N))
                elif h < .7:
                    pt = similar(r, pt, inst.p)
    R.guarded(rec, go)


# - - - C09: extended formulation - - -
def d_milp(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k, ('milp', 'milp'))
    milp(r, rec, tmp, mixed(r, cont=.25, spec=.15))


def milp(r, rec, tmp, inst, **kw):
    bm = r.choice(['', 'naive', 'belotti', 'song'])
    gap = r.choice([1, 1, 1, 200, 1000, 4000])
    begin(rec, inst, {'bm': bm, 'gap': gap}, **kw)

    def go():
        from src.solver.MilpSolver import MilpSolver
        ci = inst.load(tmp)
        s = MilpSolver(ci, gap=gap / 10000)
        s.solve(use_big_m=bool(bm), big_m_method=bm or 'naive')
        rec.emit('milp', ub=C.num(s.vUB), lb=C.num(s.vLB), x=rec.pt(s.xLB),
                 z=C.bits(s.zLB))
    R.guarded(rec, go)


# - - - C10: feasibility verdict - - -
def d_feas(r, rec, tmp, k):
    q = r.random()
    wide = few(k, 80)
    inst = G.wide(r, r.random() < .5) if wide else \
        G.hostile(r) if q < .3 else mixed(r, cont=.3, spec=.2)
    begin(rec, inst, table=0)

    def go():
        ci = inst.load(tmp)
        x = None
        for _ in range(4 if wide else 12):
            if x is not None and r.random() < .5:
                # Close to the last point, on the other side maybe
                x = x.copy()
                i = r.randrange(inst.n)
                if inst.cont and r.random() < .7:
                    # Right next to where a constraint starts to be violated
                    s, h = r.randrange(inst.N), r.randrange(inst.m)
                    a = [t / 10 for t in inst.A[s][h]]
                    if a[i] > 0:
                        rest = sum(v * t for j, (v, t) in
                                   enumerate(zip(a, x)) if j != i)
                        t = r.choice([-1, 1]) * r.choice(
                            [.004, .006, .01, .02, .05])
                        t = (inst.b[h] / 10 + t - rest) / a[i]
                        if 0 <= t <= 1:
                            x[i] = t
                elif inst.cont:
                    x[i] = min(1, max(0, x[i] + r.choice([-1, 1]) * r.choice(
                        [0, .002, .004, .007, .01, .02, .05])))
                elif r.random() < .6:
                    x[i] = 1 - round(x[i])
            elif inst.cont:
                x = np.array([r.randint(0, 16) / 16
                              for _ in range(inst.n)])
            else:
                x = np.array([float(r.random() < .5)
                              for _ in range(inst.n)])
                if r.random() < .3:     # as a solver returns it
                    x = np.abs(x - np.array([r.random() * 1e-11
                                             for _ in range(inst.n)]))
            if r.random() < .5:
                ok = ci.check_feasibility(x)
                rec.emit('feas', **R.verdict(rec, ci, x, ok))
            else:
                out = ci.is_feasible(x)
                flags = out[3]
                rec.emit('feas', x=rec.pt(x), ok=int(bool(out[0])),
                         inf=[s + 1 for s, v in enumerate(flags) if v],
                         nbi=int(out[1]))
    R.guarded(rec, go)


# - - - C11: histories of the projection - - -
def d_projection(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k, ('adaptive',), ('lb',))
    if r.random() < .2:
        return d_solve_multi(r, rec, tmp, k)
    inst = mixed(r, cont=.2, spec=.2)
    proj = r.choice(['counter', 'rescaled_max_violation',
                     'rescaled_max_violation'])
    begin(rec, inst, {'proj': proj})

    def go():
        from src.LowerBounder import LowerBounder
        ci = inst.load(tmp)
        rec.main = ci
        lbd = LowerBounder(ci, proj)
        vLB = -float('inf')
        for _ in range(r.randint(1, 6)):
            x = np.array([float(r.random() < .6) if not inst.cont else
                          r.choice([0, .25, .5, 1, r.randint(0, 16) / 16])
                          for _ in range(inst.n)])
            ci.check_feasibility(x)
            lbd.save_feasible_scenarios(ci.get_feasible_scenarios())
            lbd.vLB = vLB
            xl, v = lbd.deterministic_bound(x)
            if v > vLB:
                vLB = v
    with rec:
        R.guarded(rec, go)


# - - - C12: incumbent search - - -
def d_incumbent(r, rec, tmp, k):
    if r.random() < .2:
        return d_solve_multi(r, rec, tmp, k)
    inst = mixed(r, cont=.3, spec=.25)
    if not inst.cont:
        inst.c = [10 * (t // 10) for t in inst.c]
    begin(rec, inst, table=0)

    def close(x):
        """A candidate hardly better or worse than another."""
        x = x.copy()
        i = r.randrange(inst.n)
        if inst.cont:
            x[i] = min(1, max(0, x[i] + r.choice([-1, 1]) *
                              r.choice([.01, .02, .05])))
        else:
            x[i] = 1 - x[i]
        return x

    def go():
        from src.LowerBounder import LowerBounder
        ci = inst.load(tmp)
        lbd = LowerBounder(ci)
        for _ in range(8):
            dens = r.choice([.2, .5, .7])
            cands = [np.array([float(r.random() < dens) if not inst.cont else
                               r.randint(0, 16) / 16 * (r.random() < dens)
                               for _ in range(inst.n)])
                     for _ in range(r.choice([1, 2, 4, 8] * 6 + [40]))]
            if r.random() < .5:
                cands += [close(r.choice(cands)) for _ in range(2)]
                r.shuffle(cands)
            objs = [float(np.dot(ci.vector_c, x)) for x in cands]
            lo = r.choice([-float('inf'), 0.0, min(objs),
                           r.choice(objs), max(objs)])
            hi = r.choice([float('inf'), max(objs), r.choice(objs),
                           max(objs) + 1])
            out = lbd.incumbent_bound(cands, hi, lo, verbose=False)
            cs = [rec.pt(x) for x in cands]
            rec.emit('inc', **R.incumbent(rec, cs, hi, lo, out,
                                          int(not inst.cont)))
        if lbd.incumbent_bound([], 1.0, 0.0)[0]:
            rec.emit('inc', cands=[], ub=1000, lb=0, found=1, exact=1, x=[],
                     obj=C.NAV)
    R.guarded(rec, go)


# - - - C13: quantile bound - - -
def d_quantile(r, rec, tmp, k):
    from src.UpperBounder import UpperBounder
    if r.random() < .5:
        # Arbitrary costs and weights
        n = r.choice([1, 2, 3, 5, 10, 20, 50] * 4 + [200])
        costs = [float(r.randint(0, r.choice([3, 50]))) for _ in range(n)]
        t = r.random()
        if t < .4:
            w = [1] * n
        elif t < .7:
            w = [r.randint(1, 9) for _ in range(n)]
        else:               # very unequal weights
            w = [r.choice([1, 1, 2, 500, 1500, 3000]) for _ in range(n)]
            w = w[:12]
            costs = costs[:12]
        W = sum(w)
        e = r.randrange(3) if t < .7 else r.choice([0, 2, 3, 3, 3])
        if e == 0:
            en, ed = r.randint(0, W - 1), W
        elif e == 1:
            en, ed = r.randint(0, 99), 100
        elif e == 2:
            en, ed = 2 * r.randint(0, W - 1) + 1, 2 * W
        else:               # just next to what some scenarios weigh
            ws = [a for _, a in sorted(zip(costs, w))]
            en = sum(ws[r.randrange(len(ws)):]) + r.randint(-2, 1)
            en, ed = min(max(en, 0), W - 1), W
        inst = G.Inst(1, 1, 1, [10], [[[10]]], [10], (0, 1), False)
        begin(rec, inst, table=0)

        def go():
            b = UpperBounder(None, None, None).ahmed_et_al_bound(
                np.array(costs), np.array(w) / W, en / ed)
            rec.emit('quant', costs=[C.num(v) for v in costs], w=w, en=en,
                     ed=ed, bound=C.num(b), true=0)
        R.guarded(rec, go)
    else:
        # True scenario costs: validity against the optimum
        inst = mixed(r, cont=.2)
        g = config(r, inst, init='cost', split='random')
        begin(rec, inst, g)

        def go():
            from src.Evaluator import Evaluator
            ci = inst.load(tmp)
            rec.main = ci
            costs = Evaluator(ci).get_all_single_scenario_costs()
            b = UpperBounder(None, None, None).ahmed_et_al_bound(
                costs, ci.get_proba(), ci.get_epsilon())
            rec.emit('quant', costs=[C.num(v) for v in costs],
                     w=[1] * inst.N, en=inst.en, ed=inst.ed, bound=C.num(b),
                     true=1)
            part0(rec, construct(ci, g))
        R.guarded(rec, go)


# - - - C14: partitioned view - - -
def similar(r, part, p):
    """Almost the same partition: some scenarios exchanged or moved, blocks
    in another order, a block split or two joined."""
    part = [list(b) for b in part]
    if r.random() < .3:
        # The same places, lengths and sums of scenario numbers
        swaps = [(a, i, j, b, k, h)
                 for a, x in enumerate(part) for b, y in enumerate(part)
                 if a < b for i in range(len(x)) for j in range(i)
                 for k in range(len(y)) for h in range(k)
                 if x[i] + x[j] == y[k] + y[h]]
        inner = [w for w in swaps if all(
            0 < t < len(part[c]) - 1 for c, t in
            ((w[0], w[1]), (w[0], w[2]), (w[3], w[4]), (w[3], w[5])))]
        if swaps:
            a, i, j, b, k, h = r.choice(
                inner if inner and r.random() < .5 else swaps)
            x, y = part[a], part[b]
            x[i], x[j], y[k], y[h] = y[k], y[h], x[i], x[j]
            return part
    for _ in range(r.randint(1, 2)):
        q = r.randrange(5)
        a, b = r.randrange(len(part)), r.randrange(len(part))
        i, j = r.randrange(len(part[a])), r.randrange(len(part[b]))
        if q < 2:
            part[a][i], part[b][j] = part[b][j], part[a][i]
        elif q == 2 and a != b and len(part[a]) > 1:
            part[b].append(part[a].pop(i))
        elif q == 3 and a != b and len(part) > p + 1:
            part[min(a, b)] += part[max(a, b)]
            del part[max(a, b)]
        elif q == 4 and len(part[a]) > 1:
            part.append([part[a].pop(i)])
        else:
            r.shuffle(part)
    return part


def d_view(r, rec, tmp, k):
    q = r.random()
    wide = few(k, 80)
    inst = G.wide(r) if wide else G.hostile(r) if q < .15 else G.binary(r)
    begin(rec, inst, table=0)

    def go():
        from src.instance.PartitionChanceKnapInstance import \
            PartitionChanceKnapInstance
        ci = inst.load(tmp)
        view = PartitionChanceKnapInstance(ci)
        part = None
        for _ in range(r.randint(2, 3 if wide else 8)):
            nb = r.randint(inst.p + 1, inst.N)
            if part is None or r.random() < .4:
                part = G.random_partition(r, inst.N, nb)
            else:
                part = similar(r, part, inst.p)
            nb = len(part)
            view.load_partition(nb, part)
            K = view.get_nb_scenarios()
            rec.emit(
                'load', part=C.partition(part), nb=int(K),
                rows=[R.rows_of(view, c) for c in range(K)],
                nbc=[int(view.get_nb_constraints(c)) for c in range(K)],
                proba=[C.num(v, 10 ** 9) for v in view.get_proba()],
                eps=C.num(view.get_epsilon(), 10 ** 9),
                srcnb=int(ci.get_nb_scenarios()),
                srcrows=[w for s in range(inst.N) for w in R.rows_of(ci, s)])
    R.guarded(rec, go)


# - - - C15: pairwise violations - - -
def d_pairs(r, rec, tmp, k):
    n, m, N = r.randint(1, 6), r.randint(1, 3), r.randint(1, 5)
    hi = r.choice([3, 9, 60, 1000])
    if r.random() < .02:
        n, m, N = r.randint(20, 70), r.randint(1, 2), r.randint(2, 3)
        hi = r.choice([9, 60])
    zero = r.choice([0, .2, .5])

    def v():
        return 0 if r.random() < zero else r.randint(1, hi)
    A = [[[v() for _ in range(n)] for _ in range(m)] for _ in range(N)]
    b = [r.choice([0, r.randint(0, hi), r.randint(0, n * hi),
                   sum(A[0][0])]) for _ in range(m)]
    if r.random() < .2 and N > 1:
        A[1] = [list(w) for w in A[0]]
    inst = G.Inst(n, m, N, [10] * n, A, b, (0, 1), False)
    begin(rec, inst, table=0)

    def go():
        import violations
        import src.song_big_m as song
        ci = inst.load(tmp)
        fn = violations.compute_all_violations if r.random() < .75 \
            else song.compute_all_violations
        V = np.asarray(fn(ci.get_matrices_A(), ci.get_vectors_b()))
        rec.emit('viol', V=[[[C.num(a) for a in w] for w in t] for t in V])
    R.guarded(rec, go)


# - - - C18: cost-based splits - - -
def split_certified(r, rec, tmp):
    """Splits of a block of an instance without a table: other splits are
    shown with multipliers that prove what they cost at most."""
    inst = G.lp_block(r)
    begin(rec, inst, table=2)
    rec.cont = True
    lp = Lp(inst)
    S = r.sample(range(inst.N), r.randint(3, min(6, inst.N)))
    V = r.sample(S, r.randint(r.choice([2, max(2, len(S) - 2)]), len(S)))
    inst.cont = r.random() < .7

    def go():
        from src.refiner.CostRefiner import CostRefiner
        ci = inst.load(tmp)
        ref = CostRefiner(ci, True)
        cost, left, right = ref.accurate_obj_split(list(S), list(V))
        halves = []
        for q in range(1, 2 ** (len(S) - 1)):
            a = sorted(s for i, s in enumerate(S) if q >> i & 1)
            b = sorted(set(S) - set(a))
            if set(a) & set(V) and set(b) & set(V):
                halves.append((max(lp(a)[0], lp(b)[0]), a, b))
        halves.sort()
        lo, hi = sorted(map(int, left)), sorted(map(int, right))
        if max([q for h in halves[:2] for w in h[1:]
                for z in lp(w)[2] for q in z] + [0]) > 200000:
            raise R.Skip('multipliers')
        fine = bool(lo and hi and set(lo) | set(hi) <= set(range(inst.N)))
        rec.emit(
            'csplit', S=C.ids(S), inf=C.ids(V), left=C.ids(lo),
            right=C.ids(hi), cost=C.num(cost),
            alts=[{'L': C.ids(a), 'R': C.ids(b), 'yl': lp(a)[2],
                   'yr': lp(b)[2]} for _, a, b in halves[:2]],
            own=int(fine), xl=lp(lo)[1] if fine else [],
            xr=lp(hi)[1] if fine else [], yl=lp(lo)[2] if fine else [],
            yr=lp(hi)[2] if fine else [])
    try:
        R.guarded(rec, go)
    finally:
        lp.close()


def split_again(r, rec, tmp):
    """One refinement that takes several splits: the violated scenarios lie
    together in few blocks."""
    for _ in range(60):
        n = r.choice([2, 2, 3])
        N, m = r.choice([5, 6, 6, 7]), r.choice([1, 1, 2])
        p = r.choice([2, 2, 3])
        lim = 10 if n == 2 else 3
        inst = G.Inst(
            n, m, N, [10 * r.randint(1, 20) for _ in range(n)],
            [[[r.randint(0, 10 * lim) for _ in range(n)] for _ in range(m)]
             for _ in range(N)], [r.randint(5, 10 * lim) for _ in range(m)],
            (p, N), True)
        if inst.p != p:
            continue
        x = np.array([r.choice([.5, .75, 1, 1, r.random()])
                      for _ in range(n)])
        ci = inst.load(tmp)
        V = [s for s in range(N)
             if (ci.matrices_A[s] @ x > ci.vectors_b[s] + 1e-6).any()]
        rest = [s for s in range(N) if s not in V]
        least = max(1, p + 1 - len(rest))
        if least > p - 1 or len(V) <= p:
            continue
        hit = r.randint(least, p - 1)
        r.shuffle(V)
        part = [[s] for s in V[:hit]]
        for s in V[hit:]:
            part[r.randrange(hit)].append(s)
        r.shuffle(rest)
        part += [[s] for s in rest[:p + 1 - hit]]
        for s in rest[p + 1 - hit:]:
            r.choice(part).append(s)
        r.shuffle(part)
        break
    else:
        return
    begin(rec, inst, {'split': 'cost'}, cont=True)
    rec.main = ci

    def go():
        from src.Evaluator import Evaluator
        from src.refiner.CostRefiner import CostRefiner
        ref = CostRefiner(ci, True)
        ci.check_feasibility(x)
        ref.vUB = r.choice([float('inf'), 1.0,
                            r.uniform(0, float(sum(ci.vector_c)))])
        ref.subset_costs = Evaluator(ci).partition_cost(part)[0]
        ref.refine(part, x)
    with rec:
        R.guarded(rec, go)


def d_accsplit(r, rec, tmp, k):
    q = r.random()
    if q < .35:
        return split_certified(r, rec, tmp)
    if q < .55:
        return split_again(r, rec, tmp)
    inst = G.continuous(r, maxN=6)
    if inst.N < 3:
        inst = G.continuous(r, maxN=6)
    if inst.N < 2:
        return
    binary = r.random() < .3
    if r.random() < .6:
        for _ in range(20):
            inst = G.continuous(r, maxN=6)
            if inst.p < 1 or inst.N < 4:
                continue
            inst.cont = not binary
            if history(r, rec, tmp, inst, 'cost', lp=True,
                       steps=r.randint(2, 7), merging=.2):
                return
        return
    begin(rec, inst)
    inst.cont = not binary
    S = r.sample(range(inst.N), r.randint(2, min(5, inst.N)))
    V = r.sample(S, r.randint(2, len(S)))

    def go():
        from src.refiner.CostRefiner import CostRefiner
        ci = inst.load(tmp)
        ref = CostRefiner(ci, True)
        cost, left, right = ref.accurate_obj_split(S, V)
        rec.emit('accsplit', S=C.ids(S), inf=C.ids(V), left=C.ids(left),
                 right=C.ids(right), cost=C.num(cost))
    R.guarded(rec, go)


# - - - C21: initial partitions - - -
def d_initial(r, rec, tmp, k):
    q = r.random()
    wide = few(k, 80)
    inst = G.wide(r) if wide else \
        G.hostile(r) if q < .25 else mixed(r, cont=.2, spec=.2)
    g = config(r, inst, split='random')
    begin(rec, inst, g, table=2 if wide else 1,
          pts=witnesses(inst) if wide else ())

    def go():
        part0(rec, construct(inst.load(tmp), g))
    R.guarded(rec, go)


# - - - C22: warm start - - -
def d_warm(r, rec, tmp, k):
    if r.random() < .6:
        return d_solve_merge(r, rec, tmp, k)
    inst = G.Inst(1, 1, 1, [10], [[[10]]], [10], (0, 1), False)
    begin(rec, inst, table=0)

    def go():
        from src.Warmstarter import Warmstarter
        for _ in range(6):
            n = r.choice([r.randint(1, 9)] * 5 + [r.randint(10, 60)])
            z = [float(r.random() < .5) for _ in range(n)]
            dele = r.sample(range(n), r.randint(0, n))
            out = Warmstarter().get_z_start(np.array(z), dele)
            rec.emit('warm', z=[int(a) for a in z], **{'del': C.ids(dele)},
                     **R.hints(out))
    R.guarded(rec, go)


# - - - C23: progress - - -
def d_progress(r, rec, tmp, k):
    if few(k):
        return d_large(r, rec, tmp, k, ('adaptive',))
    q = r.random()
    if q < .4:
        inst = from_spec(r)
    elif q < .75:
        inst = G.abs_style(r, ties=r.random() < .8)
    elif q < .87:
        inst = G.spread(r)
    else:
        inst = G.any_inst(r)
    force = {'merge': 1} if r.random() < .5 else {}
    solve(r, rec, tmp, inst, config(r, inst, **force))


# - - - C16: stopped at any point - - -
class Clock:
    """Virtual time: it stands still until it is told to pass the limit."""
    NAMES = ('time', 'monotonic', 'perf_counter')

    def __init__(self, reads, limit):
        self.reads, self.limit = reads, limit
        self.n = 0
        self.expired = False

    def now(self):
        self.n += 1
        if self.n > self.reads:
            self.expired = True
        return 1e6 + self.n * 1e-6 + (2 * self.limit if self.expired else 0)

    def __enter__(self):
        import time
        self.saved = {k: getattr(time, k) for k in self.NAMES}
        for k in self.NAMES:
            setattr(time, k, self.now)
        return self

    def __exit__(self, *a):
        import time
        for k, v in self.saved.items():
            setattr(time, k, v)


class Truncate:
    """The solver of the chance-constrained model stops at its first
    solution, and the time has then run out (from the k-th solve on)."""
    def __init__(self, clock, skip):
        self.clock, self.skip = clock, skip

    def __enter__(self):
        from src.optim.CCLPModel import CCLPModel
        self.cls = next(k for k in CCLPModel.__mro__ if 'solve' in k.__dict__)
        self.orig = orig = self.cls.__dict__['solve']

        def solve(obj, *a, **kw):
            if not isinstance(obj, CCLPModel):
                return orig(obj, *a, **kw)
            self.skip -= 1
            if self.skip < 0:
                obj.grb_model.setParam('SolutionLimit', 1)
            r = orig(obj, *a, **kw)
            if self.skip < 0:
                self.clock.expired = True
                self.clock.reads = -1
            return r
        self.cls.solve = solve
        return self

    def __exit__(self, *a):
        self.cls.solve = self.orig


class Expire:
    """The time runs out while a model is being solved, at the k-th one."""
    def __init__(self, clock, k):
        self.clock, self.k = clock, k

    def __enter__(self):
        from src.optim.OptiModel import OptiModel
        self.cls = OptiModel
        self.orig = orig = OptiModel.solve

        def solve(obj, *a, **kw):
            self.k -= 1
            if self.k < 0:
                self.clock.expired = True
                self.clock.reads = -1
            return orig(obj, *a, **kw)
        OptiModel.solve = solve
        return self

    def __exit__(self, *a):
        self.cls.solve = self.orig


class Signal:
    """An interruption that reaches the solver itself, at its k-th use."""
    class Model:
        def __init__(self, model, wait):
            self.__dict__['model'] = model
            self.__dict__['wait'] = wait

        def __getattr__(self, name):
            return getattr(self.model, name)

        def __setattr__(self, name, value):
            setattr(self.model, name, value)

        def optimize(self, callback=None):
            import gurobipy as gp

            def stop(model, where):
                if callback is not None:
                    callback(model, where)
                if self.wait is None:
                    # as soon as there is a solution
                    if where == gp.GRB.Callback.MIP and \
                            model.cbGet(gp.GRB.Callback.MIP_SOLCNT):
                        model.terminate()
                    return
                left[0] -= 1
                if left[0] < 0:
                    model.terminate()
            left = [self.wait]
            self.model.optimize(stop)

    def __init__(self, k, wait=0, saving=False):
        self.k, self.n, self.wait, self.saving = k, 0, wait, saving

    def __enter__(self):
        from src.optim.OptiModel import OptiModel
        self.cls = OptiModel
        self.orig = orig = OptiModel.solve

        def solve(obj, *a, **kw):
            self.n += bool(not self.saving or kw.get('save_bounds', a[:1] and a[0]))
            if self.n != self.k:
                return orig(obj, *a, **kw)
            keep = obj.grb_model
            obj.grb_model = Signal.Model(keep, self.wait)
            try:
                return orig(obj, *a, **kw)
            finally:
                obj.grb_model = keep
        OptiModel.solve = solve
        return self

    def __exit__(self, *a):
        self.cls.solve = self.orig


class Interrupt:
    """Raises KeyboardInterrupt at the k-th line executed in the sources."""
    def __init__(self, k, only):
        self.k, self.only, self.n = k, only, 0
        self.src = os.path.join(C.REPO, 'src', '')

    def line(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.k:
                raise KeyboardInterrupt()
        return self.line

    def call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(self.src) and (not self.only or self.only in f):
            return self.line

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def report(obj, tmp):
    """Write the result files, and read the bounds back."""
    from src.TimeManager import TimeManager
    TimeManager.set_final_time()
    a, b = os.path.join(tmp, 'row.csv'), os.path.join(tmp, 'row-iter.csv')
    for q in (a, b):
        if os.path.exists(q):
            os.remove(q)
    obj.write_all_computation_details(a)
    if hasattr(obj, 'write_iteration_details'):
        obj.write_iteration_details(b)
    return csv_row(a)


@R.output
def csv_row(path):
    with open(path) as f:
        lines = list(csv.reader(f))
    if len(lines) != 1:
        raise ValueError('not one line')
    return lines[0]


def stop_event(rec, obj, tmp, mode, late):
    d = {'mode': mode, 'late': late, 'ub': C.num(obj.vUB),
         'lb': C.num(obj.vLB)}
    xl = getattr(obj, 'xLB', None)
    part = getattr(obj, 'partition', None)
    d.update(hasl=int(xl is not None), xlb=rec.pt(xl),
             part=C.partition(part) if part is not None else [],
             wrote=0, rlb=C.NAV, rub=C.NAV)
    try:
        row = report(obj, tmp)
        d.update(wrote=1, rlb=C.num(row[-3]), rub=C.num(row[-2]))
    except Exception as e:
        d['why'] = repr(e)[:200]
    rec.emit('stop', **d)


def hundredth(r, inst):
    """A risk level in hundredths, as the command line names files."""
    hund = [(a, 100) for a in range(100) if a * inst.N // 100 == inst.p]
    if hund:
        inst.en, inst.ed = r.choice(hund)
        inst.eps = inst.en / inst.ed


def launch(inst, root, path, out, m, env=None):
    """The command-line program on an instance file."""
    prog = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        'launch.py')
    p = subprocess.run(
        [C.PY, prog, os.path.join(C.REPO, 'main.py'), path,
         str(int(inst.cont)), repr(inst.eps), str(m), out],
        cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=300, env=dict(os.environ, **(env or {})))
    text = p.stdout.decode(errors='replace')
    if 'too large' in text or 'size-limited' in text:
        raise R.Skip('licence')
    if p.returncode == FAULT_CODE:
        raise R.Skip('solver fault')
    return p.returncode, text


def stop_alarm(r, rec, tmp, inst):
    """The alarm of the command-line program goes off at a given line of
    the run, from the start of the solution method to the end."""
    hundredth(r, inst)
    begin(rec, inst)
    root = tempfile.mkdtemp(prefix='cli-', dir=tmp)
    name = 'ccmknap-%d-%d-%d-1' % (inst.n, inst.m, inst.N)
    path = os.path.join(root, name + '.csv')
    inst.write(path)
    m = r.choice([3, 4])
    log = os.path.join(root, 'alarm')
    total = 0
    for at in (None, 'end', 'any'):
        out = os.path.join(root, 'out-%s' % at, '')
        if at is None:
            n = -1
        elif at == 'end':
            n = max(1, total - r.randint(0, 60))
        else:
            n = r.randint(1, max(1, total))
        rc, text = launch(inst, root, path, out, m,
                          {'VERIF_ALARM': str(n), 'VERIF_ALARM_LOG': log})
        with open(log) as f:
            lines, fired = map(int, f.read().split())
        if at is None:
            total = lines
            # what is executed after the alarm has been disarmed
            total += 40
        d = {'mode': 'alarm', 'late': 0, 'ub': C.NAV, 'lb': C.NAV, 'rc': rc,
             'hasl': 0, 'xlb': [], 'part': [], 'wrote': 0, 'rlb': C.NAV,
             'rub': C.NAV, 'fired': fired}
        f = '%s%s-%.0f-%d-%d' % (out, name, inst.eps * 100, int(inst.cont),
                                 m)
        if rc == 0 and os.path.exists(f + '.csv') \
                and os.path.exists(f + '-iter.csv'):
            w = parse_row(csv_row(f + '.csv'), 'adaptive')
            d.update(wrote=1, lb=w['lb'], ub=w['ub'], rlb=w['lb'],
                     rub=w['ub'])
            read_log(f + '-iter.csv')
        else:
            d['why'] = text.strip()[-200:]
        rec.emit('stop', **d)
    shutil.rmtree(root, ignore_errors=True)


def d_stop(r, rec, tmp, k):
    q = r.random()
    if q < .25:
        inst = from_spec(r)
    elif q < .85:
        inst = G.abs_style(r, N=r.randint(4, 12), ties=r.random() < .5)
    else:
        inst = G.any_inst(r, small=True)
    if k % 160 // 8 == 1:           # one in 20, in each shard
        return stop_alarm(r, rec, tmp, inst)
    mode = r.choice(['limit', 'limit', 'trunc', 'trunc', 'interrupt',
                     'interrupt', 'milp', 'during', 'during'])
    g = config(r, inst)
    begin(rec, inst, g)
    rec.cap = 60
    limit = r.choice([5.0, 1800.0])
    box = {}
    if mode == 'milp':
        def go():
            from src.solver.MilpSolver import MilpSolver
            ci = inst.load(tmp)
            n = r.choice([10 ** 6, r.randint(0, 30)])
            with Clock(n, limit) as ck, Truncate(ck, 0 if n > 99 else 9):
                s = MilpSolver(ci, time_limit=limit)
                s.solve(use_big_m=bool(g['bm']),
                        big_m_method=g['bm'] or 'naive')
                stop_event(rec, s, tmp, 'limit', 0)
        R.guarded(rec, go)
        return

    if mode == 'interrupt':
        only = r.choice(['AdaptivePartitioner', 'AdaptivePartitioner', ''])
        seed = r.randrange(2 ** 31)
        solver = r.random() < .3

        def strike(k):
            return Signal(k) if solver else Interrupt(k, only)
        dry = strike(-1)

        def once(trace, final):
            random.seed(seed)
            np.random.seed(seed % 2 ** 32)
            ci = inst.load(tmp)
            ap = construct(ci, g)
            rec.ap = ap
            try:
                with trace:
                    run_solve(ap, g)
                done = True
            except KeyboardInterrupt:
                done = False
            sys.settrace(None)
            if final:
                stop_event(rec, ap, tmp, 'interrupt', int(done))

        def go():
            once(dry, False)
            for _ in range(3):
                once(strike(r.randint(1, max(1, dry.n))), True)
        rec.keep = ('stop', 'inst')
        with rec:
            try:
                R.guarded(rec, go)
            except R.Cap:
                pass
            finally:
                sys.settrace(None)
        return

    late = [0]

    def go():
        from src.Informer import Informer
        orig = Informer.print_iter_info
        ci = inst.load(tmp)
        n = int(2 ** r.uniform(1, 7.5)) if mode == 'limit' else 10 ** 6
        with Clock(n, limit) as ck, \
                Expire(ck, int(2 ** r.uniform(0, 6)) if mode == 'during'
                       else 10 ** 6), \
                Truncate(ck, r.randint(0, 3) if mode == 'trunc' else 10 ** 6):
            def f(obj, *a, **kw):
                late[0] += ck.expired
                return orig(obj, *a, **kw)
            Informer.print_iter_info = f
            try:
                ap = construct(ci, g, time_limit=limit)
                if ck.expired and not hasattr(ap, 'vUB'):
                    return
                rec.ap = ap
                run_solve(ap, g)
                # An iteration may have been begun just before the time that
                # is read next, but not after a model was solved too late
                grace = int(mode == 'limit')
                stop_event(rec, ap, tmp, 'limit', max(0, late[0] - grace))
            finally:
                Informer.print_iter_info = orig
    rec.keep = ('stop', 'inst')
    with rec:
        try:
            R.guarded(rec, go)
        except R.Cap:
            rec.ev.append({'e': 'crash', 'what': 'runs past its time limit',
                           'at': ''})


# - - - C17: result rows - - -
class Progress:
    """What the solver reports to the callback it is given."""
    def __enter__(self):
        import gurobipy as gp
        self.seen, self.model = [], gp.Model
        self.orig = orig = gp.Model.optimize

        def optimize(model, callback=None):
            if callback is None:
                return orig(model)

            def both(m, where):
                if where == gp.GRB.Callback.MIP:
                    self.seen.append(
                        [m.cbGet(gp.GRB.Callback.MIP_OBJBST),
                         m.cbGet(gp.GRB.Callback.MIP_OBJBND)])
                return callback(m, where)
            return orig(model, both)
        gp.Model.optimize = optimize
        return self

    def __exit__(self, *a):
        self.model.optimize = self.orig


def changes(pairs):
    """Successive different pairs, in thousandths."""
    out = []
    for a, b in pairs:
        w = [C.num(a), C.num(b)]
        if not out or out[-1] != w:
            out.append(w)
    return out


NAMES = ['inst', 'ccmknap-4-1-10-1', 'ccmknap-10-10-500-3', 'a.b-2', 'x_y']


def d_row(r, rec, tmp, k):
    inst = mixed(r, cont=.25, spec=.25)
    name = r.choice(NAMES)
    limit = r.choice([1800.0, 3600.0, 77.5])
    tol = r.choice([1e-4, 1e-4, 1e-3, 1e-2, .1, 0.0])
    method = r.choice(['adaptive', 'adaptive', 'milp'])
    g = config(r, inst)
    cut, wait = r.random() < .25, r.choice([0, 1, 3, 10, None])
    begin(rec, inst, g)
    rec.cap = 400
    bounds = os.path.join(tmp, 'bounds.csv')
    if os.path.exists(bounds):
        os.remove(bounds)

    def go():
        t0 = time.time()
        ci = inst.load(tmp, name)
        if method == 'adaptive':
            obj = construct(ci, g, time_limit=limit, gap=tol)
            rec.ap = obj
            run_solve(obj, g)
        else:
            from src.solver.MilpSolver import MilpSolver
            obj = MilpSolver(ci, time_limit=limit, gap=tol)
            kw = {'save_bounds': True, 'path': bounds} \
                if g['lazy'] else {}
            try:
                with Progress() as seen, Signal(
                        1 if cut and kw else -1, wait, bool(kw)):
                    obj.solve(use_big_m=bool(g['bm']),
                              big_m_method=g['bm'] or 'naive', **kw)
            except KeyboardInterrupt:
                # The bounds known by then have been saved
                if kw:
                    rows = read_bounds(bounds)
                    rec.emit('bounds', rows=rows, seen=changes(seen.seen),
                             text=bounds_text(bounds),
                             wall=C.num(time.time() - t0),
                             lb=rows[-1][1] if rows else 0,
                             ub=rows[-1][2] if rows else 0)
                return
        try:
            row = report(obj, tmp)
        except Exception as e:
            R.crash(rec, e)
            return
        wall = time.time() - t0
        rec.log('row', lambda: row_event(
            row, obj, g, method, name, limit, tol, wall,
            os.path.join(tmp, 'row-iter.csv'), rec.iters))
        if method == 'milp' and g['lazy']:
            rec.emit('bounds', rows=read_bounds(bounds), wall=C.num(wall),
                     seen=changes(seen.seen), text=bounds_text(bounds),
                     lb=C.num(obj.vLB), ub=C.num(obj.vUB))
    rec.keep = ('row', 'bounds', 'inst')
    with rec:
        try:
            R.guarded(rec, go)
        except R.Cap:
            pass


def flag(t):
    return {'True': 1, 'False': 0}.get(t, C.num(t, 1))


@R.output
def parse_row(row, method):
    d = {'name': row[0], 'n': C.num(row[1], 1), 'm': C.num(row[2], 1),
         'N': C.num(row[3], 1), 'type': flag(row[4]), 'eps': C.num(row[5]),
         'limit': C.num(row[6]), 'tol': C.num(row[7]), 'bigm': flag(row[8]),
         'time': C.num(row[-4]), 'lb': C.num(row[-3]), 'ub': C.num(row[-2]),
         'gap': C.num(row[-1]), 'iter': 0, 'size': 0, 'bmtime': 0}
    if method == 'adaptive':
        d['codes'] = [C.num(t, 1) for t in row[9:12]]
        d['iter'], d['size'] = C.num(row[12], 1), C.num(row[13], 1)
    else:
        d['codes'] = [C.num(row[9], 1)]
        d['bmtime'] = C.num(row[10])
    return d


@R.output
def read_log(path):
    out = []
    with open(path) as f:
        for w in csv.reader(f):
            out.append([C.num(w[0], 1), C.num(w[1]), C.num(-float(w[2])),
                        C.num(-float(w[3])), C.num(w[4]), C.num(w[5], 1)])
    return out


@R.output
def read_bounds(path):
    """The bounds over time saved by the extended formulation."""
    with open(path) as f:
        return [[C.num(w[0]), C.num(-float(w[1])), C.num(-float(w[2]))]
                for w in csv.reader(f)]


@R.output
def bounds_text(path):
    with open(path) as f:
        return [w[1:] for w in csv.reader(f)]


def row_event(row, obj, g, method, name, limit, tol, wall, path, iters):
    want = 18 if method == 'adaptive' else 15
    if len(row) != want:
        row = (row + ['nan'] * want)[:want]
        width = 0
    else:
        width = want
    d = {'row': parse_row(row, method), 'width': width,
         'set': {'method': method, 'name': name, 'limit': C.num(limit),
                 'tol': C.num(tol * 100), 'bigm': int(bool(g['bm'])),
                 'meth': g['bm'] or 'naive', 'split': g['split'],
                 'init': g['init'], 'proj': g['proj'], 'full': 1},
         'res': {'lb': C.num(obj.vLB), 'ub': C.num(obj.vUB),
                 'iter': int(getattr(obj, 'iteration', 0)),
                 'size': int(len(obj.partition))
                 if method == 'adaptive' else 0,
                 'wall': C.num(wall)},
         'iters': iters,
         'log': read_log(path) if method == 'adaptive' else []}
    return d


# - - - C24: summary tables - - -
def fake_rows(r, n, m, style=None):
    """Result rows [time, gap, iterations] in thousandths."""
    style = style or r.choice(['solved', 'mixed', 'unsolved'])
    out = []
    for _ in range(n):
        if style == 'solved' or (style == 'mixed' and r.random() < .5):
            gap = r.choice([0, 0, 1, 9, 10])
        else:
            gap = r.choice([11, 12, 100, r.randint(11, 60000)])
        t = r.choice([r.randint(0, 5000), r.randint(0, 3600000)])
        out.append([t, gap, 1000 * r.randint(1, 60)])
    return out


def dec3(t):
    return '%d.%03d' % (t // 1000, t % 1000)


def full_row(w, m, r, bm=0):
    t, gap, it = w
    head = ['ccmknap', 10, 10, 500, 0, '0.100', '3600.000', '0.010', 1]
    tail = [dec3(t), '100.000', '101.000', dec3(gap)]
    if m in (1, 2):
        return head + [3, dec3(bm)] + tail
    return head + [2, 2, 5, it // 1000, r.randint(1, 99)] + tail


def as_float(row):
    return [row[0]] + [float(t) for t in row[1:]]


def cell(text):
    """A cell of a table -> value in hundredths, kind, number solved."""
    t = str(text)
    bold = t.startswith('\\textbf{') and t.endswith('}')
    if bold:
        t = t[8:-1]
    d = {'miss': 0, 'all': 0, 'value': C.NAV, 'shown': -1, 'iters': 0}
    if t in ('-', 'nan'):
        d['miss'] = 1
    elif t.endswith('s'):
        d.update(all=1, value=C.num(t[:-1], 100))
    elif '\\%(' in t and t.endswith(')'):
        v, n = t[:-1].split('\\%(')
        d.update(value=C.num(v, 100), shown=int(n))
    return d, bold


def d_export(r, rec, tmp, k):
    inst = G.Inst(1, 1, 1, [10], [[[10]]], [10], (0, 1), False)
    begin(rec, inst, table=0)
    if k % 24 == 5:
        return export_run(r, rec, tmp)

    def go():
        from src.export.format_results import format_method, \
            read_single_experiment
        for _ in range(6):
            n, m = r.randint(1, 6), r.randint(1, 4)
            rows = fake_rows(r, n, m)
            out = format_method(
                [as_float(full_row(w, m, r)) for w in rows], m,
                range(1, n + 1), 1e-4 * 100, [1, 2], [3, 4])
            c, _ = cell(out[3][0])
            rec.emit('fmt', rows=rows, req=10, part=int(m > 2),
                     nsolved=int(out[1]), time=C.num(out[0]),
                     gap=C.num(out[2]), all=c['all'], shown=c['shown'],
                     value=c['value'],
                     iters=C.num(out[3][1]) if m > 2 else 0)
        # A result file named as the command line names it
        for _ in range(4):
            m, cont = r.randint(1, 4), r.randint(0, 1)
            eps = r.randint(0, 99) / 100
            s, j = r.randint(1, 5000), r.randint(1, 9)
            base = r.choice(['ccmknap-10-10', 'ccmknap-40-30'])
            row = full_row(fake_rows(r, 1, m)[0], m, r, r.randint(0, 99999))
            name = '%s-%d-%d-%.0f-%d-%d.csv' % (base, s, j, eps * 100, cont,
                                                m)
            path = os.path.join(tmp, name)
            with open(path, 'w', newline='\n') as f:
                csv.writer(f).writerow(row)
            got = read_single_experiment(tmp + '/', base, s, j, eps, cont, m)
            os.remove(path)
            gone = read_single_experiment(tmp + '/', base, s, j, eps, cont,
                                          m)
            rec.emit('find', found=int(len(got) == len(row)
                                       and len(gone) == 0),
                     want=[C.num(t) for t in row[1:]],
                     got=[C.num(t) for t in got[1:]])
    R.guarded(rec, go)


INSTS = ['ccmknap-10-10', 'ccmknap-20-10', 'ccmknap-40-30']
SCEN, EPS = [500, 1000, 3000, 5000], [.1, .2]


def above(table, k, col):
    """The label of a row: its own, or else that of the rows above."""
    for row in table[k::-1]:
        if len(row) > col and row[col].strip():
            return row[col]
    return ''


def names(label, inst):
    return label.strip('}').endswith(inst.replace('ccmknap', ''))


def risk(label):
    try:
        return round(float(label) * 100)
    except ValueError:
        return -1


def export_run(r, rec, tmp):
    """The export program on a complete (or incomplete) set of results."""
    root = tempfile.mkdtemp(prefix='export-', dir=tmp)
    tabs = os.path.join(root, 'results', 'tables')
    os.makedirs(tabs)
    shutil.copy(os.path.join(C.REPO, 'export_results.py'), root)
    shutil.copytree(os.path.join(C.REPO, 'src'), os.path.join(root, 'src'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    data, big = {}, {}
    lost = r.choice([0, 0, .01, .1])
    for cont in (0, 1):
        for i in INSTS:
            for s in SCEN:
                for e in EPS:
                    gone = r.random() < lost
                    for m in (1, 2, 3, 4):
                        rows = fake_rows(r, 5, m)
                        if gone or r.random() < lost:
                            data[cont, i, s, e, m] = []
                            rows = rows[:r.randint(0, 4)]
                        else:
                            data[cont, i, s, e, m] = rows
                        for j, w in enumerate(rows):
                            bm = r.randint(0, 300000)
                            big[cont, i, s, e, m, j + 1] = bm
                            name = '%s-%d-%d-%.0f-%d-%d.csv' % (
                                i, s, j + 1, e * 100, cont, m)
                            with open(os.path.join(tabs, name), 'w') as f:
                                csv.writer(f).writerow(
                                    full_row(w, m, r, bm))
    p = subprocess.run([C.PY, os.path.join(root, 'export_results.py')],
                       cwd=root, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    for cont in (0, 1):
        for i in INSTS:
            path = os.path.join(root, 'results',
                                '%s-%d-result-table.csv' % (i, cont))
            table = []
            if os.path.exists(path):
                with open(path) as f:
                    table = list(csv.reader(f))
            k = 0
            for e in EPS:
                for s in SCEN:
                    ms = [data[cont, i, s, e, m] for m in (1, 2, 3, 4)]
                    d = {'methods': ms, 'req': 10, 'ok': 0, 'cells': [],
                         'bold': []}
                    if k < len(table) and len(table[k]) == 9 \
                            and table[k][2] == str(s) \
                            and p.returncode == 0 \
                            and names(above(table, k, 0), i) \
                            and risk(above(table, k, 1)) == round(e * 100):
                        d['ok'] = 1
                        for q, col in enumerate((3, 4, 5, 7)):
                            c, b = cell(table[k][col])
                            if col > 4:
                                c['iters'] = C.num(table[k][col + 1])
                            d['cells'].append(c)
                            if b:
                                d['bold'].append(q + 1)
                    rec.emit('xrow', **d)
                    k += 1
    for i in INSTS:
        path = os.path.join(root, 'results', i + '-big-m-times.csv')
        table = []
        if os.path.exists(path):
            with open(path) as f:
                table = list(csv.reader(f))
        for k, s in enumerate(SCEN):
            def group(conts, m):
                v = [big.get((c, i, s, e, m, j)) for c in conts
                     for e in EPS for j in range(1, 6)]
                return [] if None in v else v
            row = table[k] if k < len(table) else []
            ok = (len(row) == 5 and row[1] == str(s)
                  and names(above(table, k, 0), i))
            cells = [cell(t)[0] for t in row[2:5]] if ok else []
            rec.emit('xbig', ok=int(ok), groups=[group((0, 1), 1),
                                                 group((1,), 2),
                                                 group((0,), 2)],
                     cells=cells)
    shutil.rmtree(root, ignore_errors=True)


# - - - C19: reading and generating instances - - -
def dec4(t):
    s = '%d.%04d' % (t // 10000, t % 10000)
    return s.rstrip('0').rstrip('.')


def d_read(r, rec, tmp, k):
    inst = G.Inst(1, 1, 1, [10], [[[10]]], [10], (0, 1), False)
    begin(rec, inst, table=0)
    if k % 12 == 3:
        return generate(r, rec, tmp)
    n, m, N = r.randint(1, 5), r.randint(1, 4), r.randint(1, 6)
    if few(k, 80):
        n, m, N = r.randint(9, 30), r.randint(1, 12), r.randint(9, 60)
    hi = r.choice([5, 100, 9000])

    def v():
        s = r.randrange(3)
        t = 10000 * r.randint(0, hi) if s == 0 else \
            1000 * r.randint(0, 10 * hi) if s == 1 else \
            r.randint(0, 10000 * hi)
        return t + 1 if t % 1000 == 500 else t
    A = [[[v() for _ in range(n)] for _ in range(m)] for _ in range(N)]
    c, b = [v() for _ in range(n)], [v() for _ in range(m)]
    cont, name = r.randint(0, 1), r.choice(NAMES)
    en, ed = r.randint(0, 99), 100
    path = os.path.join(tmp, name + '.csv')
    fl = r.random() < .3        # numbers written as floats: 12.0

    def txt(t):
        s = dec4(t)
        return s + '.0' if fl and '.' not in s else s
    with open(path, 'w', newline='\n') as f:
        f.write('%d,%d,%d\n' % (n, m, N))
        for w in [c] + [q for s in A for q in s] + [b]:
            f.write(','.join(txt(t) for t in w) + '\n')

    def go():
        from src.instance.ChanceKnapInstance import ChanceKnapInstance
        ci = ChanceKnapInstance(path, bool(cont), en / ed)
        rec.emit('read', **read_event(
            ci, {'n': n, 'm': m, 'N': N, 'c': c, 'A': A, 'b': b, 'en': en,
                 'ed': ed, 'cont': cont, 'name': name}))
    R.guarded(rec, go)
    os.remove(path)


def whole(vals):
    return int(all(abs(float(a) * 10 - round(float(a) * 10)) < 1e-6
                   for a in vals))


def read_event(ci, raw):
    N = int(ci.get_nb_scenarios())
    Q = range(N)
    cs = list(ci.get_vector_c())
    bs = [list(ci.get_vector_b(s)) for s in Q]
    As = [[list(w) for w in ci.get_matrix_A(s)] for s in Q]
    flat = cs + [a for w in bs for a in w] + [a for s in As for w in s
                                              for a in w]
    return {'raw': raw, 'got': {
        'n': int(ci.get_nb_vars()), 'm': int(ci.get_nb_constraints(0)),
        'N': N, 'c': [C.tenths(a) for a in cs],
        'b': [[C.tenths(a) for a in w] for w in bs],
        'A': [[[C.tenths(a) for a in w] for w in s] for s in As],
        'tenths': whole(flat),
        'proba': [C.num(a, 10 ** 9) for a in ci.get_proba()],
        'eps': C.num(ci.get_epsilon(), 10 ** 9),
        'type': [int(bool(t)) for t in ci.get_var_type()],
        'nbc': [int(ci.get_nb_constraints(s)) for s in Q],
        'lb': [C.num(a, 1) for a in ci.get_var_lb()],
        'ub': [C.num(a, 1) for a in ci.get_var_ub()],
        'name': ci.get_file_name()}}


@R.output
def generated(path, m, N):
    with open(path) as f:
        rows = [[float(a) for a in w] for w in csv.reader(f)]
    body = rows[2:-1]
    return {'n': int(rows[0][0]), 'm': int(rows[0][1]),
            'N': int(rows[0][2]), 'lines': len(rows),
            'c': [C.tenths(a) for a in rows[1]],
            'b': [C.tenths(a) for a in rows[-1]],
            'A': [[[C.num(a, 10000) for a in w]
                   for w in body[s * m:(s + 1) * m]] for s in range(N)]}


def generate(r, rec, tmp, source=None):
    root = tempfile.mkdtemp(prefix='gen-', dir=tmp)
    n, m = r.randint(2, 6), r.randint(1, 4)
    N, q = r.choice([1, 5, 20]), r.randint(1, 3)
    src = source or os.path.join(root, 'det.txt')
    c = [r.randint(1, 999) for _ in range(n)]
    A = [[0 if r.random() < .1 else r.randint(1, 500) for _ in range(n)]
         for _ in range(m)]
    b = [r.randint(1, 2000) for _ in range(m)]
    if source:
        # a deterministic instance of the repository
        with open(src) as f:
            w = [[float(t) for t in line.split()] for line in f]
        n, m = int(w[0][0]), int(w[0][1])
        c, A, b = w[1], w[2:2 + m], w[2 + m]
        N = 1
    else:
        with open(src, 'w', newline='\n') as f:
            f.write('%d %d\n' % (n, m))
            for w in [c] + A + [b]:
                f.write(' '.join(map(str, w)) + '\n')
    prog = os.path.join(C.REPO, 'data', 'cc-instances', 'knapsack',
                        'instance-generator.py')
    if r.random() < .4:
        # an older file of this name
        with open(os.path.join(root, 'ccmknap-%d-%d-%d-1.csv' % (n, m, N)),
                  'w') as f:
            f.write('1,1,1\n' * r.randint(1, 60))
    subprocess.run([C.PY, prog, src, str(N), str(q)], cwd=root,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                   timeout=120)
    from src.instance.ChanceKnapInstance import ChanceKnapInstance
    for k in range(1, q + 1):
        path = os.path.join(root, 'ccmknap-%d-%d-%d-%d.csv' % (n, m, N, k))
        d = {'found': int(os.path.exists(path)), 'srcn': n, 'srcm': m,
             'srcN': N, 'srcc': [C.tenths(a) for a in c],
             'srcb': [C.tenths(a) for a in b], 'srcA': [
                 [C.num(a, 10000) for a in w] for w in A]}
        if d['found']:
            d.update(generated(path, m, N))
            try:
                keep = sys.stdout
                ci = ChanceKnapInstance(path, False, .1)
                d['loads'] = int(ci.get_nb_scenarios() == N
                                 and ci.get_nb_vars() == n)
            except Exception:
                d['loads'] = 0
            finally:
                sys.stdout = keep
        rec.emit('gen', **d)
    shutil.rmtree(root, ignore_errors=True)


# - - - C20: the command line - - -
def d_cli(r, rec, tmp, k):
    q = r.random()
    if q < .3:
        inst = from_spec(r)
    elif q < .5:
        inst = G.abs_style(r)
    elif q < .6:
        inst = G.hostile(r)
    else:
        inst = G.any_inst(r, cont=.35)
    hundredth(r, inst)
    begin(rec, inst)
    root = tempfile.mkdtemp(prefix='cli-', dir=tmp)
    s, j = inst.N, r.randint(1, 9)
    base = 'ccmknap-%d-%d' % (inst.n, inst.m)
    name = '%s-%d-%d' % (base, s, j)
    path = os.path.join(root, name + '.csv')
    inst.write(path)
    out = os.path.join(root, r.choice(['out', 'deep/er']), '')
    methods = [1, 2, 3, 4]
    r.shuffle(methods)
    from src.export.format_results import read_single_experiment
    for m in methods[:2]:
        rc, text = launch(inst, root, path, out, m)
        d = {'method': m, 'rc': rc, 'found': 0, 'log': [], 'logged': 0,
             'bounds': [], 'twin': [], 'twinned': 0}
        if rc:
            d['why'] = text.strip().splitlines()[-1][:200]
        row = read_single_experiment(out, base, s, j, inst.eps,
                                     int(inst.cont), m)
        if row:
            f = '%s%s-%.0f-%d-%d' % (out, name, inst.eps * 100,
                                     int(inst.cont), m)
            w = parse_row(csv_row(f + '.csv'), 'milp' if m < 3
                          else 'adaptive')
            d.update(found=1, lb=w['lb'], ub=w['ub'], name=w['name'],
                     want=name, n=w['n'], m=w['m'], N=w['N'],
                     type=w['type'], gap=w['gap'], eps=w['eps'],
                     iter=w['iter'], conf=[w['bigm']] + w['codes'])
            if os.path.exists(f + '-iter.csv'):
                d['logged'] = 1
                if m > 2:
                    d['log'] = read_log(f + '-iter.csv')
                else:
                    d['bounds'] = read_bounds(f + '-iter.csv')
                if m == 4:
                    d.update(twinned=1, twin=documented(inst, tmp))
                elif m == 3 and r.random() < .4:
                    again = os.path.join(root, 'again', '')
                    rc, text = launch(inst, root, path, again, m)
                    if rc == 0:
                        f = again + os.path.basename(f)
                        d.update(twinned=1, twin=read_log(f + '-iter.csv'))
        rec.emit('cli', **d)
    shutil.rmtree(root, ignore_errors=True)


def documented(inst, tmp):
    """The log of a run that has the parameters the command-line program
    promises for its fourth method, which leaves nothing to chance."""
    from src.BigMFinder import BigMFinder
    from src.solver.AdaptivePartitioner import AdaptivePartitioner
    ap = AdaptivePartitioner(
        inst.load(tmp), initial_partition_type='cost', split_method='cost',
        use_acc_obj=True, projection_method='rescaled_max_violation',
        time_limit=3600, gap=1e-4)
    ap.solve(BigMFinder(ap.chance_instance_part), use_merger=True,
             use_big_M=True, big_m_method='belotti', use_lazy=True)
    f = os.path.join(tmp, 'documented.csv')
    ap.write_iteration_details(f)
    log = read_log(f)
    os.remove(f)
    return log


# - - - C25: deterministic models - - -
def d_deter(r, rec, tmp, k):
    if few(k, 60):
        inst = G.large(r)
        deter(r, rec, tmp, inst, 2)
        certify(rec, inst, ())
    else:
        deter(r, rec, tmp, mixed(r, cont=.3, spec=.2, small=r.random() < .3))


def deter(r, rec, tmp, inst, table=1):
    begin(rec, inst, table=table)
    nb = r.randint(min(inst.p + 1, inst.N), inst.N)
    part = G.random_partition(r, inst.N, nb) if r.random() < .3 else None
    blocks = [[s] for s in range(inst.N)] if part is None else part

    def go():
        from src.Evaluator import Evaluator
        from src.instance.PartitionChanceKnapInstance import \
            PartitionChanceKnapInstance
        from src.optim.DeterModel import DeterModel
        ci = inst.load(tmp)
        if part is not None:
            src = PartitionChanceKnapInstance(ci)
            src.load_partition(nb, part)
        else:
            src = ci
        model = DeterModel(src)

        def some(q, least=0):
            q = sorted(q)
            r.shuffle(q)
            q = q[:r.randint(min(least, len(q)), len(q))]
            if len(q) == 1 and r.random() < .5:
                return q[0]             # a single one may be given as such
            return q

        def names(q):
            return set(q) if isinstance(q, list) else {q}

        def tell():
            model.solve()
            rec.emit('det', S=sorted(s + 1 for k in now for s in blocks[k]),
                     v=C.num(model.get_obj_val()),
                     x=rec.pt(model.get_var_x_val()))
        first = some(range(nb))
        model.build(first)
        now = names(first)
        for _ in range(r.randint(1, 5)):
            if r.random() < .7:
                tell()
            if r.random() < .6:
                q = some(now)
                model.remove(q)
                now = now - names(q)
            if r.random() < .6:
                q = some(set(range(nb)) - now)
                model.add(q)
                now = now | names(q)
        tell()
        # The evaluator, on lists in any order
        ev = Evaluator(src)

        def out(S, v, x=None):
            rec.emit('det', S=sorted(t + 1 for k in S for t in blocks[k]),
                     v=C.num(v), x=rec.pt(x))
        S = r.sample(range(nb), r.randint(1, nb))
        v, x = ev.subset_cost(S if r.random() < .7 else S[0])
        if r.random() < .5 or len(S) == 1:
            out(S, *ev.subset_cost(S))
        for t, v in zip(S, ev.scenario_costs(S)):
            out([t], v)
        if r.random() < .3:
            every = ev.get_all_single_scenario_costs()
            for t in range(nb):
                out([t], every[t])
        if r.random() < .5:
            sub = G.random_partition(r, nb, r.randint(1, nb))
            for q, v, x in zip(sub, *ev.partition_cost(sub)):
                out(q, v, x)
    R.guarded(rec, go)


# - - - C26: repeatable runs - - -
def story(rec, ap):
    """The whole run as the specification sees it, without its times."""
    drop = ('feas', 'save', 'bigm')
    ev = [q for q in rec.ev if q['e'] not in drop]
    return ev + [{'e': 'log', 'rows': [[str(a) for i, a in enumerate(w)
                                        if i != 1]
                                       for w in ap.informer.iteration_info]}]


class Pristine:
    """A process forked before the first case. It never runs the code
    itself: it forks one child for every job, which therefore starts from
    a process in which nothing has been solved."""

    def __init__(self):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(a)
            os.close(b)
            return
        os.close(self.w)
        os.close(self.r)
        src, dst = os.fdopen(a, 'rb'), os.fdopen(b, 'wb')
        try:
            while True:
                try:
                    job = pickle.load(src)
                except EOFError:
                    break
                if os.fork() == 0:
                    signal.alarm(100)
                    try:
                        out = pickle.dumps(job[0](*job[1:]))
                    except BaseException as e:
                        try:
                            out = pickle.dumps(e)
                        except Exception:
                            out = pickle.dumps(RuntimeError(repr(e)))
                    dst.write(out)
                    dst.flush()
                    os._exit(0)
                if os.wait()[1]:        # killed: say so
                    pickle.dump(RuntimeError('pristine child ended'), dst)
                    dst.flush()
        finally:
            os._exit(0)

    def run(self, *job):
        data = pickle.dumps(job)
        while data:
            data = data[os.write(self.w, data):]
        if not hasattr(self, 'src'):
            self.src = os.fdopen(self.r, 'rb')
        out = pickle.load(self.src)
        if isinstance(out, BaseException):
            raise out
        return out


pristine = None


def started(inst, g, seed, tmp, name):
    """One complete run of the adaptive method; its story."""
    sub = R.Recorder()
    sub.cont = inst.cont
    random.seed(seed)
    with sub:
        ci = inst.load(tmp, name)
        sub.main = ci
        ap = construct(ci, g)
        sub.ap = ap
        sub.cap = 60
        part0(sub, ap)
        run_solve(ap, g)
        end(sub, ap)
    return story(sub, ap)


def nearby(r, inst):
    """The same weights with slightly different profits, right-hand sides,
    risk or order of the scenarios."""
    i = copy.deepcopy(inst)
    q = r.randrange(4)
    if q == 0:
        i.c = [max(1, t + r.choice([-10, 0, 10])) for t in i.c]
    elif q == 1:
        for _ in range(r.randint(1, 3)):
            i.c[r.randrange(i.n)] += 10
    elif q == 2:
        i.b = [max(0, t - r.choice([0, 0, 10])) for t in i.b]
    else:
        r.shuffle(i.A)
    return i


def d_repeat(r, rec, tmp, k):
    if k % 160 // 8 == 2:
        return repeat_cli(r, rec, tmp)
    insts, gs = [], []
    for _ in range(2):
        q = r.random()
        insts.append(from_spec(r) if q < .3 else
                     G.abs_style(r, ties=r.random() < .7) if q < .8 else
                     G.any_inst(r, cont=.3))
        gs.append(config(r, insts[-1]))
    q = r.random()
    if q < .2:
        insts[1] = insts[0]
    elif q < .7:
        insts[1] = nearby(r, insts[0])
        gs[1] = gs[0] if r.random() < .5 else config(r, insts[1])
    begin(rec, insts[0], gs[0], table=0)
    seed = r.randrange(2 ** 31)

    def one(i):
        return started(insts[i], gs[i], seed, tmp, 'inst%d' % i)

    def go():
        before = r.randrange(4)
        if before >= 2:
            # Alone in a new process, then here, after all the other cases
            a = pristine.run(started, insts[0], gs[0], seed, tmp, 'inst0')
            if before == 3:
                one(1)
        else:
            a = one(0)
            if before:
                one(1)
        b = one(0)
        n = min(len(a), len(b))
        for q, w in zip(a, b):
            rec.emit('twin', kind=q['e'], a=q, b=w)
        rec.emit('twin', kind='length', a=len(a) - n, b=len(b) - n)
    try:
        R.guarded(rec, go)
    except R.Cap:
        pass


def fork_pristine():
    global pristine
    try:
        import src.solver.AdaptivePartitioner       # noqa: F401
    except Exception:
        pass                # reported by the cases
    pristine = Pristine()


d_repeat.setup = fork_pristine


@R.output
def untimed(path):
    with open(path) as f:
        return [w[:1] + w[2:] for w in csv.reader(f)]


def repeat_cli(r, rec, tmp):
    inst = mixed(r, cont=.35, spec=.3)
    hundredth(r, inst)
    begin(rec, inst, table=0)
    root = tempfile.mkdtemp(prefix='cli-', dir=tmp)
    name = 'ccmknap-%d-%d-%d-1' % (inst.n, inst.m, inst.N)
    path = os.path.join(root, name + '.csv')
    inst.write(path)
    m = r.randint(1, 4)
    got = []
    for h in ('1', '2'):
        out = os.path.join(root, 'out' + h, '')
        rc, text = launch(inst, root, path, out, m, {'PYTHONHASHSEED': h})
        f = '%s%s-%.0f-%d-%d' % (out, name, inst.eps * 100, int(inst.cont),
                                 m)
        row = csv_row(f + '.csv') if rc == 0 else []
        times = (-4,) if m > 2 else (-4, -5)
        row = [t for i, t in enumerate(row) if i - len(row) not in times]
        log = []
        if rc == 0 and m > 2:
            log = untimed(f + '-iter.csv')
        got.append({'rc': rc, 'row': row, 'log': log})
    rec.emit('twin', kind='cli', a=got[0], b=got[1])
    shutil.rmtree(root, ignore_errors=True)


import pipeline as P     # noqa: E402 (it uses the functions above)
DRIVERS = {
    'C27': P.d_pipeline,
    'C25': d_deter, 'C26': d_repeat,
    'C01': d_solve, 'C02': d_solve_multi, 'C03': d_partition,
    'C04': d_refine, 'C05': d_merge, 'C06': d_solve_merge,
    'C07': d_relaxed, 'C08': d_bigm, 'C09': d_milp, 'C10': d_feas,
    'C11': d_projection, 'C12': d_incumbent, 'C13': d_quantile,
    'C14': d_view, 'C15': d_pairs, 'C16': d_stop, 'C17': d_row,
    'C18': d_accsplit, 'C19': d_read, 'C20': d_cli, 'C21': d_initial,
    'C22': d_warm, 'C23': d_progress, 'C24': d_export}
