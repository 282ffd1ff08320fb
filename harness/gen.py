"""Instances.  Data in tenths; epsilon as a pair (num, den)."""
import os


class Inst:
    def __init__(self, n, m, N, c, A, b, eps, cont, eps_float=None):
        self.n, self.m, self.N = n, m, N
        self.c, self.A, self.b = c, A, b
        self.en, self.ed = eps
        self.cont = cont
        # The float given to the program: en/ed unless it is written otherwise
        self.eps = eps_float if eps_float is not None else self.en / self.ed

    @property
    def p(self):
        return self.en * self.N // self.ed

    def rec(self, cont=None):
        return {'n': self.n, 'm': self.m, 'N': self.N, 'c': self.c,
                'A': self.A, 'b': self.b, 'en': self.en, 'ed': self.ed,
                'cont': int(self.cont if cont is None else cont)}

    def write(self, path):
        with open(path, 'w', newline='\n') as f:
            f.write('%d,%d,%d\n' % (self.n, self.m, self.N))
            f.write(','.join(dec(a) for a in self.c) + '\n')
            for s in range(self.N):
                for i in range(self.m):
                    f.write(','.join(dec(a) for a in self.A[s][i]) + '\n')
            f.write(','.join(dec(a) for a in self.b) + '\n')

    def load(self, folder, name='inst'):
        from src.instance.ChanceKnapInstance import ChanceKnapInstance
        path = os.path.join(folder, name + '.csv')
        self.write(path)
        return ChanceKnapInstance(path, self.cont, self.eps)


def dec(t):
    """A value in tenths, as a decimal string."""
    return '%d.%d' % (t // 10, t % 10) if t % 10 else '%d' % (t // 10)


# - - - epsilon - - -
HOSTILE = [(58, 100, 50), (29, 100, 100), (57, 100, 100), (7, 100, 100),
           (14, 100, 50), (28, 100, 25), (56, 100, 25), (55, 100, 20),
           (35, 100, 20), (15, 100, 20), (1, 49, 49), (15, 22, 22),
           (3, 10, 10), (7, 10, 10), (6, 10, 5), (1, 10, 30)]


def epsilon(r, N, p=None):
    """(num, den) with floor(eps*N) = p < N."""
    if p is None:
        p = r.choice([0, 1, 1, 2, 2, 3, max(1, N // 4), max(1, N // 3),
                      max(1, N // 2), N - 2, N - 1])
    p = max(0, min(p, N - 1))
    style = r.randrange(5)
    if style == 4:          # just next to where the number of scenarios jumps
        if r.random() < .6:
            k = ((p + 1) * 10000 - 1) // N
        else:
            k = -(-p * 10000 // N)
        if k * N // 10000 == p and k < 10000:
            return (k, 10000)
    if style == 0 and p + 1 <= N:
        return (2 * p + 1, 2 * N)
    if style == 1:
        for den in (10, 100, 1000):
            k = -(-p * den // N)
            if k * N // den == p and k < den:
                return (k, den)
    return (p, N)


# - - - binary families - - -
def abs_style(r, n=None, N=None, p=None, ties=True):
    """Item j violates about p .. p+3 scenarios; any two violate all."""
    n = n or r.randint(3, 8)
    N = N or r.randint(3, 14)
    p = p if p is not None else r.randint(1, max(1, N // 3))
    A = [[[20] * n] for _ in range(N)]
    for j in range(n):
        k = min(N, max(0, p + r.randint(0, 3)))
        for s in r.sample(range(N), k):
            A[s][0][j] = 40
    top = r.choice([1, 2, 4]) if ties else 40
    c = [10 * r.randint(1, top) for _ in range(n)]
    return Inst(n, 1, N, c, A, [30], epsilon(r, N, p), False)


def knap(r, n=None, m=None, N=None, p=None, whole=None, cont=False, big=False):
    n = n or r.randint(2, 8)
    m = m or r.randint(1, 4)
    N = N or r.randint(2, 14)
    unit = 10 if (whole if whole is not None else r.random() < .5) else 1
    hi = r.choice([6, 20, 40])
    if big:
        hi = 2000
    base = [[r.randint(1, hi) for _ in range(n)] for _ in range(m)]
    fail = r.choice([0, .1, .3])

    def val(t):
        if r.random() < fail:
            return 0
        d = max(1, t // 2)
        v = max(0, t + r.randint(-d, d)) * 10
        return v if unit == 10 else max(0, v + r.randint(-9, 9))
    A = [[[val(base[i][j]) for j in range(n)] for i in range(m)]
         for s in range(N)]
    b = []
    for i in range(m):
        v = 10 * (sum(base[i]) * r.choice([2, 4, 5, 6, 8]) // 10)
        b.append(v if unit == 10 else max(0, v + r.randint(-9, 9)))
    ctop = r.choice([3, 30, 300])
    c = [10 * r.randint(0 if r.random() < .2 else 1, ctop) for _ in range(n)]
    if unit == 1:
        c = [max(0, t + r.randint(-9, 9)) for t in c]
    inst = Inst(n, m, N, c, A, b, epsilon(r, N, p), cont)
    odd(r, inst)
    return inst


def odd(r, I):
    """Degenerate features, sometimes."""
    k = r.randrange(12)
    if k == 0:          # an item that no scenario uses
        j = r.randrange(I.n)
        for s in range(I.N):
            for i in range(I.m):
                I.A[s][i][j] = 0
    elif k == 1:        # a scenario without any load
        s = r.randrange(I.N)
        I.A[s] = [[0] * I.n for _ in range(I.m)]
    elif k == 2:        # identical scenarios
        for s in range(1, I.N):
            if r.random() < .6:
                I.A[s] = [list(w) for w in I.A[r.randrange(s)]]
    elif k == 3:        # a capacity of zero
        I.b[r.randrange(I.m)] = 0
    elif k == 4:        # no capacity binds
        I.b = [max(sum(I.A[s][i]) for s in range(I.N)) for i in range(I.m)]
    elif k == 5:        # nothing fits anywhere
        I.b = [0] * I.m
    elif k == 6:        # capacity met with equality by some point
        i = r.randrange(I.m)
        s = r.randrange(I.N)
        I.b[i] = sum(w for w in I.A[s][i] if r.random() < .6)


def hostile(r):
    """floor(eps*N) is hit by rounding in floating point."""
    num, den, N = r.choice(HOSTILE)
    p = num * N // den
    n = r.randint(3, 5)
    A = [[[20] * n] for _ in range(N)]
    for j in range(n):
        k = min(N, max(0, p + r.randint(-1, 2)))
        for s in r.sample(range(N), k):
            A[s][0][j] = 40
    c = [10 * r.randint(1, 40) for _ in range(n)]
    return Inst(n, 1, N, c, A, [30], (num, den), False)


# The first two deterministic instances of the repository
ORLIB = [
    ([100, 600, 1200, 2400, 500, 2000],
     [[8, 12, 13, 64, 22, 41], [8, 12, 13, 75, 22, 41], [3, 6, 4, 18, 6, 4],
      [5, 10, 8, 32, 6, 12], [5, 13, 8, 42, 6, 20], [5, 13, 8, 48, 6, 20],
      [0, 0, 0, 0, 8, 0], [3, 0, 4, 0, 8, 0], [3, 2, 4, 0, 8, 4],
      [3, 2, 4, 8, 8, 4]], [80, 96, 20, 36, 44, 48, 10, 18, 22, 24]),
    ([600.1, 310.5, 1800, 3850, 18.6, 198.7, 882, 4200, 402.5, 327],
     [[20, 5, 100, 200, 2, 4, 60, 150, 80, 40],
      [20, 7, 130, 280, 2, 8, 110, 210, 100, 40],
      [60, 3, 50, 100, 4, 2, 20, 40, 6, 12],
      [60, 8, 70, 200, 4, 6, 40, 70, 16, 20],
      [60, 13, 70, 250, 4, 10, 60, 90, 20, 24],
      [60, 13, 70, 280, 4, 10, 70, 105, 22, 28],
      [5, 2, 20, 100, 2, 5, 10, 60, 0, 0],
      [45, 14, 80, 180, 6, 10, 40, 100, 20, 0],
      [55, 14, 80, 200, 6, 10, 50, 140, 30, 40],
      [65, 14, 80, 220, 6, 10, 50, 180, 30, 50]],
     [450, 540, 200, 360, 440, 480, 200, 360, 440, 480])]


def orlib(r):
    """Scenarios as the generator makes them, rounded to tenths."""
    c, A, b = r.choice(ORLIB[:1] * 3 + ORLIB[1:])
    n = len(c)
    rows = sorted(r.sample(range(len(b)), len(b) if n < 8 else
                           r.randint(2, 4)))
    N = r.randint(3, 12)
    fail = [min(1, r.expovariate(10)) for _ in range(n)]
    S = []
    for s in range(N):
        up = [r.random() >= fail[j] for j in range(n)]
        S.append([[int(round(10 * max(0, r.gauss(A[i][j], .1 * A[i][j]))))
                   * up[j] for j in range(n)] for i in rows])
    return Inst(n, len(rows), N, [int(round(10 * t)) for t in c], S,
                [10 * b[i] for i in rows], epsilon(r, N), False)


def spread(r):
    """Many scenarios and a high risk level: refinements of several splits,
    merges of several blocks, and several relaxed solutions."""
    n, m, N = r.randint(5, 8), r.choice([1, 1, 2]), r.randint(12, 24)
    top = r.choice([9, 20])
    A = [[[0 if r.random() < .2 else 10 * r.randint(1, top)
           for _ in range(n)] for _ in range(m)] for _ in range(N)]
    b = [10 * r.randint(top // 2, top * n // 2) for _ in range(m)]
    c = [10 * r.randint(1, r.choice([6, 20])) for _ in range(n)]
    return Inst(n, m, N, c, A, b,
                epsilon(r, N, r.randint(2, max(2, N // 2))), False)


def binary(r, small=False):
    k = r.random()
    if small:
        if k < .4:
            return abs_style(r, n=r.randint(2, 5), N=r.randint(2, 8))
        return knap(r, n=r.randint(2, 5), m=r.randint(1, 2),
                    N=r.randint(2, 8))
    if k < .4:
        return abs_style(r, ties=r.random() < .6)
    if k < .85:
        return knap(r)
    if k < .91:
        return knap(r, big=True)
    if k < .94:
        return orlib(r)
    return hostile(r)


def continuous(r, maxN=6):
    n = r.choice([2, 2, 2, 3])
    if n == 2:
        N, m = r.randint(2, maxN), r.choice([1, 1, 2])
        lim = 10
    else:
        N, m = r.randint(2, min(5, maxN)), 1
        lim = 3
    unit = r.choice([10, 10, 5, 1])

    def v(hi):
        return unit * r.randint(0, hi * 10 // unit)
    A = [[[v(lim) for _ in range(n)] for _ in range(m)] for _ in range(N)]
    b = [v(lim) for _ in range(m)]
    c = [10 * r.randint(0 if r.random() < .1 else 1, 20) for _ in range(n)]
    inst = Inst(n, m, N, c, A, b, epsilon(r, N), True)
    if r.random() < .3:
        odd(r, inst)
        if max(inst.b) > 20 * lim:
            inst.b = [min(q, 20 * lim) for q in inst.b]
    return inst


def lp_block(r):
    """A continuous instance with more rows and items than have a table."""
    n, m, N = r.randint(3, 6), r.choice([1, 2, 3, 3]), r.randint(4, 7)
    top = r.choice([9, 20])
    zero = r.choice([0, .2, .4])
    A = [[[0 if r.random() < zero else r.choice([10, 10, 5]) *
           r.randint(1, top) for _ in range(n)] for _ in range(m)]
         for _ in range(N)]
    b = [10 * r.randint(top // 2, top * n // 2) for _ in range(m)]
    c = [10 * r.randint(1, 20) for _ in range(n)]
    return Inst(n, m, N, c, A, b, epsilon(r, N, r.randint(1, N - 2)), True)


def large(r):
    """Too many points for a table, and enough work for the solver."""
    if r.random() < .3:
        N = r.randint(15, 40)
        return abs_style(r, n=r.randint(10, 20), N=N,
                         p=r.randint(1, min(8, N // 3)), ties=False)
    cont = r.random() < .25
    N = r.choice([10, 12, 17, 20, 25, 30])
    m = r.choice([1, 2, 3, 5])
    n = r.randint(4, 8) if cont else r.randint(9, 18)
    hi = 8 if cont else r.choice([20, 40, 100])
    base = [[r.randint(1, hi) for _ in range(n)] for _ in range(m)]
    fail = r.choice([0, .1, .3])

    def val(t):
        if r.random() < fail:
            return 0
        v = 10 * t + r.randint(-5 * t, 5 * t)
        return v if r.random() < .5 else v // 10 * 10
    A = [[[val(base[i][j]) for j in range(n)] for i in range(m)]
         for s in range(N)]
    share = r.choice([2, 3, 4, 5, 6])
    b = [10 * (sum(base[i]) * share // 10) + r.choice([0, 0, 5])
         for i in range(m)]
    # Profits that go with the loads make the search longer
    c = [10 * (sum(base[i][j] for i in range(m)) // m + r.randint(1, hi))
         for j in range(n)]
    p = r.choice([0, 1, 2, 3, N // 10])
    if cont:
        p = r.choice([p, N // 5, N // 3])
    return Inst(n, m, N, c, A, b, epsilon(r, N, p), cont)


def wide(r, cont=False):
    """Many scenarios, items and rows: for components that solve nothing."""
    N, n, m = r.randint(15, 70), r.randint(6, 24), r.randint(1, 6)
    hi = r.choice([6, 20, 90])
    zero = r.choice([0, .2, .5])
    A = [[[0 if r.random() < zero else r.choice([10, 10, 1]) *
           r.randint(1, hi) for _ in range(n)] for _ in range(m)]
         for _ in range(N)]
    share = r.uniform(.25, .7)
    b = [10 * int(share * hi * n * (1 - zero) / 2) + r.choice([0, 0, 5])
         for _ in range(m)]
    c = [r.randint(0, 400) for _ in range(n)]
    return Inst(n, m, N, c, A, b, epsilon(r, N), cont)


def wide_relaxed(r):
    """A wide instance, a partition, and a point that violates at most the
    tolerated number of blocks but more scenarios than tolerated."""
    while True:
        I = wide(r)
        x = [int(r.random() < r.choice([.3, .5, .7])) for _ in range(I.n)]
        bad = [s for s in range(I.N)
               if any(sum(w * v for w, v in zip(I.A[s][i], x)) > I.b[i]
                      for i in range(I.m))]
        if len(bad) < 2 or len(bad) > I.N - 2:
            continue
        p = r.randint(1, min(len(bad) - 1, r.choice([4, 12, I.N])))
        h = r.choice([1, p, r.randint(1, p)])
        good = [s for s in range(I.N) if s not in bad]
        e = max(p + 1 - h, 1)
        if e > len(good):
            continue
        e = r.randint(e, min(len(good), e + 6))
        en, ed = epsilon(r, I.N, p)
        I = Inst(I.n, I.m, I.N, I.c, I.A, I.b, (en, ed), False)
        if I.p != p:
            continue
        r.shuffle(bad)
        r.shuffle(good)
        keep, rest = good[:e], good[e:]
        part = [[s] for s in bad[:h]]
        for s in bad[h:]:
            r.choice(part).append(s)
        sat = [[s] for s in keep]
        for s in rest:
            r.choice(part + sat).append(s)
        part += sat
        for q in part:
            r.shuffle(q)
        r.shuffle(part)
        return I, part, x


def any_inst(r, small=False, cont=.25):
    return continuous(r) if r.random() < cont else binary(r, small)


def random_partition(r, N, k):
    """Random partition of 0..N-1 into k non-empty blocks."""
    s = list(range(N))
    r.shuffle(s)
    out = [[q] for q in s[:k]]
    for q in s[k:]:
        out[r.randrange(k)].append(q)
    return out


def profits(r):
    """Binary instances with tiny profits, or with large ones that hardly
    differ: gaps have to be measured relative to the value itself."""
    I = any_inst(r)
    while I.cont or I.n < 3:
        I = any_inst(r)
    q = r.random()
    if q < .4:
        I.c = [r.randint(1, 4) for _ in range(I.n)]
    elif q < .7:
        I.c = [40000 + r.randint(0, 9) for _ in range(I.n)]
    else:
        I.c = [4000 + 3 * r.randint(0, 5) for _ in range(I.n)]
    return I
