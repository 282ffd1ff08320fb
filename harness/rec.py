"""Records what the real code does, as events for Trace.tla.

Public methods of the components are wrapped for the time of a run; the code
itself is not touched.  An attribute that is not there is not logged, and the
specification then skips the clauses that need it.
"""
import copy
import functools
import io
import os
import signal
import sys
import traceback

import common as C
from solver import SolverFault


class Cap(BaseException):
    """Iteration cap reached."""


class Hang(BaseException):
    """Watchdog."""


class Unreadable(Exception):
    """What the program has written does not have the form of a result."""


def output(fn):
    """Decorates a reader of files that the program has written."""
    @functools.wraps(fn)
    def f(*a, **kw):
        try:
            return fn(*a, **kw)
        except (ValueError, LookupError, OSError, TypeError) as e:
            raise Unreadable('%s: %r' % (fn.__name__, e))
    return f


class Recorder:
    def __init__(self, keep=None):
        self.ev = []
        self.cont = False
        self.keep = keep          # kinds of events to keep (None: all)
        self.ap = None            # the adaptive solver under observation
        self.main = None          # the (unpartitioned) instance
        self.cap = 400
        self.depth = 0
        self.big = False          # may be slow without being stuck
        self.views = False        # log the rows of the partitioned view
        self.err = 0              # events that could not be recorded
        self.errs = []
        self.iters = []           # sizes and bounds at each iteration
        self._saved = []

    # - - - events - - -
    def emit(self, e, **kw):
        if self.keep is not None and e not in self.keep:
            return
        kw['e'] = e
        self.ev.append(kw)

    def log(self, e, fn):
        """Emit fn(); what cannot be observed (a renamed attribute, say) is
        left out, and counted."""
        if self.keep is not None and e not in self.keep:
            return
        try:
            kw = fn()
        except Unreadable as x:
            return crash(self, x)
        except Exception as x:
            self.err += 1
            self.errs.append('%s: %r' % (e, x))
            return
        kw['e'] = e
        self.ev.append(kw)

    def pt(self, x):
        return C.point(x, self.cont)

    # - - - wrapping - - -
    def _wrap(self, cls, name, make):
        for k in [cls] + all_subclasses(cls):
            if name in k.__dict__:
                orig = k.__dict__[name]
                if isinstance(orig, (staticmethod, classmethod)):
                    continue
                self._saved.append((k, name, orig))
                setattr(k, name, functools.wraps(orig)(make(orig)))

    def __enter__(self):
        from src.Informer import Informer
        from src.BigMFinder import BigMFinder
        from src.UpperBounder import UpperBounder
        from src.Warmstarter import Warmstarter
        from src.LowerBounder import LowerBounder
        from src.refiner.Refiner import Refiner
        from src.refiner import CostRefiner, RandomRefiner  # noqa: F401
        from src.Merger import Merger
        from src.instance.ChanceKnapInstance import ChanceKnapInstance
        w = self._wrap
        w(Informer, 'print_iter_info', self._iter)
        w(BigMFinder, 'update_big_M', self._bigm)
        w(UpperBounder, 'first_iteration_bound', self._ub('first'))
        w(UpperBounder, 'partition_bound', self._ub('model'))
        w(Warmstarter, 'get_z_start', self._hint)
        w(LowerBounder, 'save_feasible_scenarios', self._save)
        w(LowerBounder, 'deterministic_bound', self._lb)
        w(LowerBounder, 'incumbent_bound', self._inc)
        w(Refiner, 'refine', self._split)
        w(Merger, 'merge_all', self._merge)
        w(Merger, 'merge_feasible', self._merge)
        w(ChanceKnapInstance, 'check_feasibility', self._feas)
        return self

    def __exit__(self, *a):
        for k, name, orig in reversed(self._saved):
            setattr(k, name, orig)
        self._saved = []

    # - - - one wrapper per linearization point - - -
    def _iter(self, orig):
        def f(obj, *a, **kw):
            r = orig(obj, *a, **kw)
            ap = self.ap
            if ap is not None:
                self.iters.append([len(ap.partition), C.num(ap.vLB),
                                   C.num(ap.vUB)])
                self.log('iter', lambda: self.snapshot(ap))
                if ap.iteration > self.cap:
                    raise Cap()
            return r
        return f

    def snapshot(self, ap):
        d = {'k': int(ap.iteration), 'part': C.partition(ap.partition),
             'costs': [C.num(v) for v in ap.subset_costs],
             'sols': [self.pt(x) for x in ap.subset_sols],
             'ub': C.num(ap.vUB), 'lb': C.num(ap.vLB),
             'nbs': int(ap.nb_subsets),
             'hasx': int(getattr(ap, 'xLB', None) is not None),
             'xlb': self.pt(getattr(ap, 'xLB', None))}
        view = ap.chance_instance_part
        if self.views:
            try:
                d['vrows'] = [rows_of(view, c)
                              for c in range(view.get_nb_scenarios())]
            except (ValueError, IndexError):
                d['vrows'] = []     # the view contradicts itself
        return d

    def _bigm(self, orig):
        def f(obj, *a, **kw):
            r = orig(obj, *a, **kw)
            ap = self.ap
            if ap is not None:
                self.log('bigm', lambda: bigm(obj, ap.big_m_method,
                                              ap.partition, ap.vUB))
            return r
        return f

    def _ub(self, mode):
        def make(orig):
            def f(obj, *a, **kw):
                r = orig(obj, *a, **kw)
                if r is not None and r[0] is not None:
                    self.log('ub', lambda: {
                        'mode': mode, 'x': self.pt(r[0]), 'z': C.bits(r[1]),
                        'obj': C.num(r[2]), 'bnd': C.num(r[3])})
                return r
            return f
        return make

    def _hint(self, orig):
        def f(obj, *a, **kw):
            r = orig(obj, *a, **kw)
            self.log('hint', lambda: hints(r))
            return r
        return f

    def _save(self, orig):
        def f(obj, sat, *a, **kw):
            s = [k + 1 for k, v in enumerate(sat) if v]
            r = orig(obj, sat, *a, **kw)
            self.log('save', lambda: {'sat': s})
            return r
        return f

    def _lb(self, orig):
        def f(obj, x, *a, **kw):
            lb = C.num(getattr(obj, 'vLB', None))
            r = orig(obj, x, *a, **kw)
            S = getattr(obj, 'scenarios', None)
            self.log('lb', lambda: {
                'x': self.pt(x), 'lb': lb, 'v': C.num(r[1]),
                'S': C.ids(S) if S is not None else [],
                'hasx': int(r[0] is not None), 'xl': self.pt(r[0])})
            return r
        return f

    def _inc(self, orig):
        def f(obj, cands, vUB, vLB, *a, **kw):
            cs = [self.pt(x) for x in cands]
            r = orig(obj, cands, vUB, vLB, *a, **kw)
            self.log('inc', lambda: incumbent(self, cs, vUB, vLB, r, 0))
            return r
        return f

    def _split(self, orig):
        def f(obj, part, x, *a, **kw):
            old = copy.deepcopy(part)
            r = orig(obj, part, x, *a, **kw)

            def ev():
                d = {'old': C.partition(old), 'new': C.partition(r[1]),
                     'ub': C.num(getattr(obj, 'vUB', float('nan')))}
                for key, name in (('feas', 'feasible_subsets'),
                                  ('newidx', 'new_subsets')):
                    v = getattr(obj, name, None)
                    if v is not None:
                        d[key] = C.ids(v)
                return d
            self.log('split', ev)
            return r
        return f

    def _merge(self, orig):
        def f(obj, part, *a, **kw):
            self.depth += 1
            old = copy.deepcopy(part)
            try:
                r = orig(obj, part, *a, **kw)
            finally:
                self.depth -= 1
            if self.depth == 0:
                ub = self.ap.vUB if self.ap is not None else float('inf')
                self.log('merge', lambda: {
                    'old': C.partition(old), 'new': C.partition(r[0]),
                    'ub': C.num(ub)})
            return r
        return f

    def _feas(self, orig):
        def f(obj, x, *a, **kw):
            r = orig(obj, x, *a, **kw)
            if self.main is None or obj is self.main:
                self.log('feas', lambda: verdict(self, obj, x, r))
            return r
        return f


def all_subclasses(cls):
    out = []
    for k in cls.__subclasses__():
        out += [k] + all_subclasses(k)
    return out


def rows_of(ci, k):
    A, b = ci.get_matrix_A(k), ci.get_vector_b(k)
    return [[C.tenths(v) for v in A[i]] + [C.tenths(b[i])]
            for i in range(len(b))]


def incumbent(rec, cs, vUB, vLB, r, exact):
    found, x, obj = r
    return {'cands': cs, 'ub': C.num(vUB), 'lb': C.num(vLB),
            'found': int(bool(found)), 'exact': exact,
            'x': rec.pt(x) if found else [],
            'obj': C.num(obj) if found else C.NAV}


def verdict(rec, ci, x, ok):
    inf = C.ids(ci.infeasible_scenarios)
    sat = [k + 1 for k, v in enumerate(ci.get_feasible_scenarios()) if v]
    return {'x': rec.pt(x), 'ok': int(bool(ok)), 'inf': inf, 'sat': sat,
            'nbi': -1}


def hints(r):
    r = r or {}
    return {'hints': sorted(int(k) + 1 for k in r),
            'ones': int(all(v == 1 for v in r.values()))}


def bigm(finder, meth, part, vUB):
    """Big-M values with the rows they belong to."""
    ci = finder.chance_instance
    K = ci.get_nb_scenarios()
    M, rows = [], []
    for k in range(K):
        rows.append(rows_of(ci, k))
        M.append([C.num(v) for v in finder.get_vector_big_M(k)])
    return {'M': M, 'rows': rows, 'meth': meth,
            'part': C.partition(part) if part is not None else [],
            'ub': C.num(vUB)}


# - - - running one case - - -
class Skip(Exception):
    """The case cannot be run here (size-limited solver licence)."""


def guarded(rec, fn, seconds=120):
    """Run fn(); a failure of the code under test becomes a crash event.
    Returns True when it went through."""
    import gurobipy as gp

    def alarm(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    sys.stdout.flush()
    keep = sys.stdout
    sys.stdout = io.StringIO()
    try:
        fn()
        return True
    except (Skip, Cap):
        raise
    except SolverFault:
        raise Skip('solver fault')
    except gp.GurobiError as e:
        if 'too large' in str(e) or 'size-limited' in str(e):
            raise Skip(str(e))
        crash(rec, e)
        return False
    except Hang as e:
        if rec.big:
            raise Skip('slow')
        crash(rec, e)
        return False
    except (KeyboardInterrupt, SystemExit, MemoryError) as e:
        if isinstance(e, MemoryError):
            raise
        crash(rec, e)
        return False
    except Exception as e:
        crash(rec, e)
        return False
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = keep


def crash(rec, e):
    """The code under test raised: a crash event.  An exception that comes
    from the harness itself (an interface that changed) is only counted."""
    tb = traceback.extract_tb(e.__traceback__)
    src = os.path.join(C.REPO, '')
    own = os.path.join(C.VERIF, '')
    at = [f for f in tb if f.filename.startswith((src, own))]
    what = '%s: %s' % (type(e).__name__, str(e)[:200])
    where = '%s:%s' % (os.path.basename(at[-1].filename), at[-1].name) \
        if at else '?'
    if at and at[-1].filename.startswith(own) \
            and not isinstance(e, (Hang, Unreadable)):
        rec.err += 1
        rec.errs.append('%s at %s:%d' % (what, where, at[-1].lineno))
        return
    rec.ev.append({'e': 'crash', 'what': what, 'at': where})
