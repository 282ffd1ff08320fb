"""Helpers of a demonstration: instances, brute force, quiet runs."""
import atexit
import contextlib
import io
import itertools
import math
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
import numpy as np                                            # noqa: E402

SCRATCH = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, SCRATCH, True)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def write(c, A, b, name='inst'):
    """A: scenarios x rows x variables; b: one capacity per row."""
    path = os.path.join(SCRATCH, name + '.csv')
    with open(path, 'w') as f:
        f.write('%d,%d,%d\n' % (len(c), len(b), len(A)))
        f.write(','.join(map(str, c)) + '\n')
        for s in A:
            for row in s:
                f.write(','.join(map(str, row)) + '\n')
        f.write(','.join(map(str, b)) + '\n')
    return path


def instance(c, A, b, eps, continuous=False, name='inst'):
    from src.instance.ChanceKnapInstance import ChanceKnapInstance
    return quiet(ChanceKnapInstance, write(c, A, b, name), continuous, eps)


def draw(seed, n, m, S, zero=0.2):
    r = random.Random(seed)
    c = [r.randint(1, 20) for _ in range(n)]
    A = [[[0 if r.random() < zero else r.randint(1, 20) for _ in range(n)]
          for _ in range(m)] for _ in range(S)]
    b = [r.randint(8, 10 * n) for _ in range(m)]
    return c, A, b


def tolerated(S, eps):
    return int(math.floor(eps * S + 1e-7))


def violated(A, b, x):
    return [s for s in range(len(A))
            if any(sum(w * v for w, v in zip(row, x)) > cap + 1e-5
                   for row, cap in zip(A[s], b))]


def best(c, A, b, allowed):
    """Optimum over binary points that violate at most so many scenarios."""
    return max(sum(p * v for p, v in zip(c, x))
               for x in itertools.product((0, 1), repeat=len(c))
               if len(violated(A, b, x)) <= allowed)


def adaptive(inst, seed=0, big_m='belotti', use_big_M=True, merge=False,
             lazy=False, **k):
    from src.BigMFinder import BigMFinder
    from src.solver.AdaptivePartitioner import AdaptivePartitioner
    random.seed(seed)
    a = quiet(AdaptivePartitioner, inst, **k)
    f = quiet(BigMFinder, a.chance_instance_part)
    quiet(a.solve, f, use_big_M=use_big_M, big_m_method=big_m,
          use_merger=merge, use_lazy=lazy)
    return a
