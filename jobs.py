"""Which jobs decide which property: entry of the harness, parameters, options of the
executor.  Every job is one call of the symbolic executor; what it covers is stated by its
parameters (see harness/src) and is exhaustive within them."""
import random

NAMES = dict(n=0, cb=1, cube=2, perm=3, lay=4, rev=5, what=6, search=7, nt=8, tb=9, to=10, acc=11, k=12,
             seed=13, dag=14, graph=15, shape=16)
# the random numbers are any numbers; as well, the same for the same seed, which is any
RND, SEED = {21: 2}, {21: 1, 22: 1}
VALID, COSTS, NONDOM, FRONT, MINTIME, SOME, EMPTY, FAST, TOLD = 1, 2, 4, 8, 16, 32, 64, 128, 256


class Job:
    def __init__(self, entry, prof, params, opts, cap):
        self.entry, self.prof, self.params, self.opts, self.cap = entry, prof, params, opts, cap

    def text(self):
        return f"{self.entry} {self.prof} {','.join(map(str, self.params))} {' '.join(self.opts)}".strip()


def job(entry, prof="symd", pre=0, fire=True, first=False, cap=240, p=None, **kw):
    v = [0] * 24
    v[8] = 1
    for a, x in kw.items():
        v[NAMES[a]] = x
    for i, x in (p or {}).items():
        v[i] = x
    opts = ["--preempts", str(pre)]
    if not fire:
        opts += ["--fire", "0"]
    if first:
        opts += ["--spawn-first"]
    return Job(entry, prof, v, opts, cap)


class Gen:
    """The order in which forms and shapes are taken, chosen by the seed."""

    def __init__(self, prop, tier, seed):
        self.r = random.Random(f"{prop} {tier} {seed}")
        self.thorough = tier == "thorough"
        self.seed = seed

    def form(self, n):
        f = 1
        for i in range(2, n + 1):
            f *= i
        return dict(perm=self.r.randrange(f), lay=self.r.randrange(2), rev=self.r.randrange(8))

    def prof(self):
        return self.r.choice(["symd", "symr"])

    def shape(self):
        return self.r.randrange(1, 1 << 30)

    def cubes(self, bits, k):
        return self.r.sample(range(1 << bits), min(k, 1 << bits))

    def q(self, quick, thorough):
        return thorough if self.thorough else quick


def plain(g, what, search=1, five=False):
    """Single-threaded, not probabilistic: every problem of a size, then larger shapes."""
    js = []
    for prof in ("symd", "symr"):
        js.append(job("h_run", prof, n=1, search=search, what=what))
        js.append(job("h_run", prof, n=2, search=search, what=what, **g.form(2)))
        js.append(job("h_run", prof, n=3, search=search, what=what, **g.form(3)))
    # all problems with four nodes, written in different ways
    for i in range(g.q(6, 48)):
        js.append(job("h_run", ["symd", "symr"][i % 2], n=4, search=search, what=what, **g.form(4)))
    if search == 0:
        for i in range(g.q(2, 8)):
            js.append(job("h_run", ["symd", "symr"][i % 2], n=5, what=what, search=0, **g.form(5)))
        for c in g.cubes(6, g.q(24, 64) if not five else 64):
            js.append(job("h_run", g.prof(), n=6, what=what, search=0, cb=6, cube=c, cap=600, **g.form(6)))
        for d, n in ((1, 9), (3, 9), (4, 8), (5, 8), (6, 8), (7, 8), (9, 9), (10, 9), (11, 9)):
            for _ in range(g.q(1, 6)):
                js.append(job("h_run", g.prof(), n=n, what=what, search=0, dag=d, shape=g.shape(),
                              graph=g.r.choice([0, 9]), **g.form(n)))
    else:
        if g.thorough or five:
            # all problems with five nodes
            for i, c in enumerate(range(32)):
                js.append(job("h_run", ["symd", "symr"][i % 2], n=5, search=1, what=what, cb=5, cube=c, cap=1200,
                              **g.form(5)))
        else:
            for c in g.cubes(7, 8):
                js.append(job("h_run", g.prof(), n=5, search=1, what=what, cb=7, cube=c, **g.form(5)))
        # all graphs, for some dependency relations
        for d in (1, 2, 3, 4, 6, 7, 8):
            js.append(job("h_run", g.prof(), n=5, search=1, what=what, dag=d, **g.form(5)))
        for d in (1, 2, 3, 4, 8) + ((6,) if g.thorough else ()):
            js.append(job("h_run", g.prof(), n=6, search=1, what=what, dag=d, cap=600, **g.form(6)))
        js.append(job("h_run", g.prof(), n=7, search=1, what=what, dag=4, **g.form(7)))
        for i in range(g.q(4, 30)):
            js.append(job("h_run", g.prof(), n=6, search=1, what=what, dag=11, shape=g.shape(), cap=300, **g.form(6)))
            js.append(job("h_run", g.prof(), n=6, search=1, what=what, dag=9, shape=g.shape(), graph=g.q(7, 10), cap=g.q(60, 900), **g.form(6)))
        # larger ones, with some free edges
        for d, n, k in ((12, 7, 6), (3, 7, 5), (9, 7, 7), (9, 7, 7), (4, 8, 8), (10, 6, 6), (11, 8, 7), (6, 6, 5),
                        (13, 8, 15), (13, 10, 15), (14, 9, 12), (14, 12, 10), (11, 10, 20), (5, 7, 7), (5, 8, 5), (9, 8, 11),
                        (10, 8, 8), (4, 14, 12), (8, 9, 12), (13, 14, 15)):
            for _ in range(g.q(2, 8)):
                js.append(job("h_run", g.prof(), n=n, search=1, what=what, dag=d, graph=k + 1, shape=g.shape(),
                              **g.form(n)))
        # many of six to eight nodes, with few dependencies
        for n, k, times in ((6, 11, 24), (7, 8, 72), (8, 7, 24)) if five else ((6, 9, 8), (7, 7, 12)):
            for i in range(g.q(times, 8 * times)):
                js.append(job("h_run", g.prof(), n=n, search=1, what=what, dag=(9, 10, 15)[i % 3], graph=k + 1,
                              shape=g.shape(), **g.form(n)))
    return js


def large(g, what, search=0, times=1, **kw):
    js = []
    w = what & ~FRONT
    for d in (1, 2, 3, 4, 5, 6, 7):
        for n in g.q((17, 70), (11, 24, 40, 70, 100)):
            for _ in range(times):
                js.append(job("h_large", g.prof(), n=n, what=w, search=search, dag=d, shape=g.shape(),
                              p={3: g.shape(), 4: g.r.randrange(2), 15: 6}, **kw))
    # a node with many neighbours, one with many dependencies
    for d, n, odd in ((1, 300, 1), (5, 300, 2), (6, 140, 3), (2, 90, 3)):
        js.append(job("h_large", g.prof(), n=n, what=w, search=search, dag=d, shape=g.shape(),
                      p={3: g.shape(), 4: g.r.randrange(2), 15: 6, 17: odd}, **kw))
    return js


def chain(g, what, **kw):
    """Long chains have only one schedule: the whole search is in reach."""
    js = []
    for n in g.q((20, 66), (20, 40, 66, 130)):
        js.append(job("h_large", g.prof(), n=n, what=what & 7 | 8, search=1, dag=1, shape=g.shape(),
                      p={3: g.shape(), 4: g.r.randrange(2), 15: 8, 17: g.r.randrange(4)}, **kw))
    return js


def accepted(g, what):
    """Probabilistic, with free decisions: any accept function."""
    js = []
    for prof in ("symd", "symr"):
        js.append(job("h_run", prof, n=3, search=1, what=what, acc=1, k=g.q(6, 9), **g.form(3)))
        js.append(job("h_run", prof, n=3, search=1, what=what, acc=2, k=g.q(6, 9), **g.form(3)))
    for i in range(g.q(2, 8)):
        js.append(job("h_run", g.prof(), n=4, search=1, what=what, acc=1, k=3, cb=1, cube=i % 2, cap=400, **g.form(4)))
        js.append(job("h_run", g.prof(), n=4, search=1, what=what, acc=2, k=5, **g.form(4)))
        js.append(job("h_run", g.prof(), n=4, search=1, what=what, acc=7, k=4, cb=2, cube=i, **g.form(4)))
    # all random numbers
    for n in (3, 4):
        js.append(job("h_run", g.prof(), n=n, search=1, what=what, acc=5, p=RND, **g.form(n)))
        js.append(job("h_run", g.prof(), n=n, search=1, what=what, acc=11, k=g.q(3, 4), p=RND, **g.form(n)))
        js.append(job("h_run", g.prof(), n=n, search=1, what=what, acc=12, k=g.q(4, 5), p=RND, **g.form(n)))
    js.append(job("h_run", g.prof(), n=3, search=1, what=what, acc=8, p=RND, **g.form(3)))
    for _ in range(g.q(1, 8)):
        js.append(job("h_run", g.prof(), n=5, search=1, what=what, acc=5, dag=9, graph=6, shape=g.shape(), p=RND, **g.form(5)))
        js.append(job("h_run", g.prof(), n=5, search=1, what=what, acc=11, k=4, dag=11, graph=6, shape=g.shape(), p=RND, **g.form(5)))
    js.append(job("h_run", g.prof(), n=6, search=1, what=what, acc=5, dag=4, graph=7, shape=g.shape(), p=RND, **g.form(6)))
    # a chosen seed, with and without
    for _ in range(g.q(1, 8)):
        s = 1 + g.r.randrange(1 << 20)
        js.append(job("h_run", g.prof(), n=4, search=1, what=what, acc=5, seed=s, **g.form(4)))
        js.append(job("h_run", g.prof(), n=4, search=1, what=what, acc=8, seed=s, **g.form(4)))
        js.append(job("h_run", g.prof(), n=4, search=1, what=what, acc=8, seed=0, **g.form(4)))
    js.append(job("h_run", g.prof(), n=6, search=1, what=what, dag=4, graph=7, acc=1, k=6, shape=g.shape(), **g.form(6)))
    js.append(job("h_run", g.prof(), n=5, search=1, what=what, dag=9, acc=2, k=8, graph=4, shape=g.shape(), **g.form(5)))
    js.append(job("h_large", g.prof(), n=20, what=what & 7, search=1, dag=1, shape=3, acc=1, k=8,
                  p={3: g.shape(), 15: 6}))
    return js


def accepted_threads(g, what):
    js = []
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=2, acc=1, k=3, **g.form(3)))
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=2, acc=2, k=4, **g.form(3)))
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=3, acc=5, seed=1 + g.r.randrange(999), **g.form(3)))
    js.append(job("h_run", g.prof(), pre=0, n=4, search=1, what=what, nt=2, acc=8, seed=1 + g.r.randrange(999),
                  **g.form(4)))
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=2, acc=5, p=RND, **g.form(3)))
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=2, acc=11, k=2, p=RND, **g.form(3)))
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=3, acc=12, k=2, tb=2, p=RND, **g.form(3)))
    js.append(job("h_run", g.prof(), pre=0, n=4, search=1, what=what, nt=2, acc=5, p=RND, **g.form(4)))
    js.append(job("h_run", g.prof(), pre=0, n=4, search=1, what=what, nt=2, acc=2, k=4, tb=2, **g.form(4)))
    return js


def threads(g, what):
    js = []
    for i, tb in enumerate((0, 1, 2, 3)):
        js.append(job("h_run", ["symd", "symr"][i % 2], pre=1, n=3, search=1, what=what, nt=2, tb=tb, **g.form(3)))
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=3, tb=g.r.choice([0, 3, 4]), **g.form(3)))
    js.append(job("h_run", g.prof(), pre=1, n=2, search=1, what=what, nt=4, tb=0, **g.form(2)))
    js.append(job("h_run", g.prof(), pre=1, n=1, search=1, what=what, nt=2, tb=0))
    js.append(job("h_run", g.prof(), pre=2, n=3, search=1, what=what, nt=2, tb=2, cap=400, **g.form(3)))
    # numbers at the ends of their types
    for nt, tb in ((256, 0), (65535, 1 << 32), (512, 65537), (2, 1 << 31)):
        js.append(job("h_run", g.prof(), pre=0, n=2, search=1, what=what, nt=nt, tb=tb, **g.form(2)))
    for nt, tb in ((256, 3), (2, 1 << 31)):
        js.append(job("h_run", g.prof(), pre=0, n=3, search=1, what=what, nt=nt, tb=tb, graph=3, shape=g.shape(), **g.form(3)))
    for i, tb in enumerate(g.q((0, 3), (0, 1, 2, 3, 4, 6, 8))):
        js.append(job("h_run", ["symd", "symr"][i % 2], pre=0, n=4, search=1, what=what, nt=2, tb=tb, **g.form(4)))
    js.append(job("h_run", g.prof(), pre=0, n=4, search=1, what=what, nt=3, tb=0, cap=400, cb=2, cube=g.cubes(2, 1)[0], **g.form(4)))
    js.append(job("h_run", g.prof(), pre=0, n=5, search=1, what=what, nt=2, tb=0, dag=3, **g.form(5)))
    js.append(job("h_run", g.prof(), pre=0, n=5, search=1, what=what, nt=2, tb=0, dag=4, **g.form(5)))
    return js


def threads_deep(g, what):
    js = []
    f = g.form(4)
    for c in range(8):
        js.append(job("h_run", g.prof(), pre=1, n=4, search=1, what=what, nt=2, cb=3, cube=c, tb=g.r.choice([0, 2]),
                      cap=600, **(g.form(4) if g.thorough else f)))
    js.append(job("h_run", g.prof(), pre=1, n=5, search=1, what=what, nt=2, tb=0, dag=3, graph=3, shape=g.shape(), cap=300, **g.form(5)))
    js.append(job("h_run", g.prof(), pre=1, n=5, search=1, what=what, nt=2, tb=2, dag=9, graph=3, shape=g.shape(), cap=300, **g.form(5)))
    js.append(job("h_run", g.prof(), pre=1, n=6, search=1, what=what, nt=2, tb=0, dag=4, graph=3, shape=g.shape(), cap=300, **g.form(6)))
    if g.thorough:
        js.append(job("h_run", "symd", pre=2, n=3, search=1, what=what, nt=2, cap=1800, **g.form(3)))
        js.append(job("h_run", "symr", pre=2, n=3, search=1, what=what, nt=3, tb=3, cap=1800, **g.form(3)))
        js.append(job("h_run", "symr", pre=3, n=3, search=1, what=what, nt=2, tb=2, cap=1800, **g.form(3)))
        for c in range(8):
            js.append(job("h_run", g.prof(), pre=2, n=4, search=1, what=what, nt=2, tb=2, cb=6, cube=g.r.randrange(64),
                          graph=4, shape=g.shape(), cap=1800, **g.form(4)))
    return js


def timed(g, what):
    # (first: a new thread runs at once, so that the timer waits from the beginning, and
    # one preemption lets it fire at any moment)
    js = []
    t = 1001
    fire = dict(pre=1, first=True, search=1, what=what)
    js.append(job("h_run", "symd", **fire, n=3, to=t, **g.form(3)))
    js.append(job("h_run", "symr", pre=1, n=3, search=1, what=what, to=1, **g.form(3)))
    js.append(job("h_run", "symd", **fire, n=4, to=t, cb=1, cube=g.r.randrange(2), **g.form(4)))
    js.append(job("h_run", "symr", **fire, n=3, nt=2, to=t, **g.form(3)))
    js.append(job("h_run", "symd", **fire, n=3, nt=2, to=t, tb=2, **g.form(3)))
    js.append(job("h_run", "symd", pre=0, first=True, n=4, search=1, what=what, nt=2, to=1, **g.form(4)))
    js.append(job("h_run", "symd", **fire, n=3, to=t, acc=5, p=RND, **g.form(3)))
    js.append(job("h_run", "symr", **fire, n=3, to=t, acc=1, k=3, **g.form(3)))
    js.append(job("h_run", "symr", **fire, n=3, nt=2, to=t, acc=2, k=2, **g.form(3)))
    js.append(job("h_run", g.prof(), **fire, n=5, to=t, dag=4, graph=5, shape=g.shape(), **g.form(5)))
    js.append(job("h_run", g.prof(), **fire, n=5, to=t, dag=9, graph=3, shape=g.shape(), **g.form(5)))
    # the timer starts late
    js.append(job("h_run", g.prof(), pre=2, n=3, search=1, what=what, to=t, **g.form(3)))
    js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=what, nt=2, to=t, **g.form(3)))
    if g.thorough:
        js.append(job("h_run", "symd", pre=2, first=True, n=4, search=1, what=what, to=t, cap=1800, **g.form(4)))
        js.append(job("h_run", "symr", pre=2, n=3, search=1, what=what, nt=2, to=t, cap=1800, **g.form(3)))
        js.append(job("h_run", "symd", pre=2, n=3, search=1, what=what, nt=2, to=1, first=True, cap=1800, **g.form(3)))
        js.append(job("h_run", "symr", pre=2, n=3, search=1, what=what, nt=2, to=t, acc=1, first=True, cap=1800, **g.form(3)))
    return js


def everything(g, what):
    """One property in every mode of the search."""
    js = plain(g, what, 0) + plain(g, what, 1) + large(g, what) + chain(g, what)
    js += accepted(g, what) + accepted_threads(g, what) + threads(g, what) + timed(g, what)
    # time-optimal mode ignores the rest of the configuration
    js.append(job("h_run", g.prof(), n=4, search=0, what=what, nt=3, **g.form(4)))
    js.append(job("h_run", g.prof(), n=3, search=0, what=what, nt=2, acc=4, to=1, **g.form(3)))
    return js


def c01(g):
    return everything(g, VALID)


def c02(g):
    return everything(g, COSTS)


def c03(g):
    w = VALID | MINTIME
    js = plain(g, w, 0, True) + large(g, w, 0, times=g.q(2, 4))
    js += [job("h_large", g.prof(), n=n, what=w, dag=d, shape=g.shape(), p={3: g.shape(), 15: 6, 17: 1}) for d, n in ((1, 700), (4, 700), (7, 700))]
    for kw in (dict(nt=3), dict(nt=2, acc=4), dict(to=1), dict(acc=1, k=2, seed=5), dict(nt=2, tb=1)):
        js.append(job("h_run", g.prof(), n=3, search=0, what=w, **kw, **g.form(3)))
        js.append(job("h_run", g.prof(), n=4, search=0, what=w, cb=2, cube=g.cubes(2, 1)[0], **kw, **g.form(4)))
    return js


def c04(g):
    return plain(g, NONDOM | FRONT, 1, True) + chain(g, VALID | NONDOM)


def c05(g):
    return threads(g, NONDOM | FRONT) + threads_deep(g, NONDOM | FRONT)


def c06(g):
    js = accepted(g, VALID | COSTS | NONDOM | TOLD) + accepted_threads(g, VALID | COSTS | NONDOM | TOLD)
    for acc, k in ((3, 0), (10, 0)):
        for n in (3, 4):
            js.append(job("h_run", g.prof(), n=n, search=1, what=NONDOM | FRONT, acc=acc, k=k, **g.form(n)))
        js.append(job("h_run", g.prof(), pre=1, n=3, search=1, what=NONDOM | FRONT, acc=acc, k=k, nt=2, p=RND, **g.form(3)))
        js.append(job("h_run", g.prof(), n=4, search=1, what=NONDOM | FRONT, acc=acc, k=k, p=RND, **g.form(4)))
        js.append(job("h_run", g.prof(), n=5, search=1, what=NONDOM | FRONT, acc=acc, k=k, dag=9, shape=g.shape(), **g.form(5)))
        js.append(job("h_run", g.prof(), n=6, search=1, what=NONDOM | FRONT, acc=acc, k=k, dag=4, **g.form(6)))
    for acc in (4, 9):
        for n in (2, 3, 4):
            js.append(job("h_run", g.prof(), n=n, search=1, what=EMPTY, acc=acc, seed=g.r.randrange(9), **g.form(n)))
            js.append(job("h_run", g.prof(), n=n, search=1, what=EMPTY, acc=acc, p=RND, **g.form(n)))
    js.append(job("h_run", g.prof(), n=3, search=1, what=NONDOM | VALID | COSTS, acc=10, k=5, **g.form(3)))
    return js


def c07(g):
    js = []
    # every seed, whatever the generator makes of it
    for prof in ("symd", "symr"):
        for acc, k in ((5, 0), (6, 0), (11, 3), (12, 4)):
            for n in (2, 3, 4):
                js.append(job("h_twice", prof, n=n, search=1, acc=acc, k=k, p=SEED, **g.form(n)))
        for _ in range(g.q(1, 6)):
            js.append(job("h_twice", prof, n=5, search=1, acc=5, dag=9, graph=5, shape=g.shape(), p=SEED, **g.form(5)))
            js.append(job("h_twice", prof, n=5, search=1, acc=11, k=4, dag=11, graph=5, shape=g.shape(), p=SEED, **g.form(5)))
            js.append(job("h_twice", prof, n=6, search=1, acc=5, dag=4, graph=6, shape=g.shape(), p=SEED, **g.form(6)))
    js.append(job("h_twice", g.prof(), n=3, search=1, acc=8, p=SEED, cap=400, **g.form(3)))
    # with the numbers it gives: 0 (the parameter is one more) and other special ones, and chosen ones
    special = [1, 2, 1 << 32, 1 << 63, (1 << 64) - 1, 3, 1 << 31, (1 << 32) + 1, 5]
    for i in range(g.q(3, 24)):
        s = special[i] if i < len(special) and (i < 3 or g.thorough) else 1 + g.r.randrange(1 << 64 if i % 2 else 1 << 20)
        js.append(job("h_twice", g.prof(), n=3, search=1, acc=5, seed=s, **g.form(3)))
        js.append(job("h_twice", g.prof(), n=3, search=1, acc=8, seed=s, **g.form(3)))
        js.append(job("h_twice", g.prof(), n=4, search=1, acc=8, seed=s, cb=2, cube=g.cubes(2, 1)[0], **g.form(4)))
        js.append(job("h_twice", g.prof(), n=4, search=1, acc=5, seed=s, cb=2, cube=g.cubes(2, 1)[0], **g.form(4)))
        js.append(job("h_twice", g.prof(), n=4, search=1, acc=6, seed=s, cb=3, cube=g.cubes(3, 1)[0], **g.form(4)))
        js.append(job("h_twice", g.prof(), n=5, search=1, acc=8, seed=s, dag=4, graph=5, shape=g.shape(), **g.form(5)))
        js.append(job("h_twice", g.prof(), n=5, search=1, acc=8, seed=s, dag=9, graph=4, shape=g.shape(), **g.form(5)))
    js.append(job("h_twice", "symr", n=4, search=1, acc=0, cb=2, cube=1, **g.form(4)))
    js.append(job("h_twice", "symd", n=4, search=0, **g.form(4)))
    return js


def c08(g):
    w = VALID | COSTS | NONDOM | TOLD
    js = timed(g, w)
    # (always accepted; the accept function is told what has been found)
    fire = dict(pre=1, first=True, search=1, what=w, to=1001, acc=1)
    js.append(job("h_run", "symr", **fire, n=3, **g.form(3)))
    js.append(job("h_run", "symr", **fire, n=3, nt=2, **g.form(3)))
    js.append(job("h_run", "symd", **fire, n=4, cb=2, cube=g.r.randrange(4), graph=3, shape=g.shape(), **g.form(4)))
    js.append(job("h_run", "symd", **fire, n=4, nt=2, cb=2, cube=g.r.randrange(4), graph=3, shape=g.shape(), **g.form(4)))
    return js


def c09(g):
    js = []
    big = (1 << 64) - 1
    for prof in ("symd", "symr"):
        for mode in range(5):
            for ms in (0, 1, 20, 1000, 86400000, 1000 * (1 << 32)):
                pre = g.q(3, 5) if mode != 3 else g.q(2, 3)
                js.append(job("h_timer", prof, pre=pre, p={0: mode, 1: ms, 2: 3, 8: 0}))
                js.append(job("h_timer", prof, pre=2, first=True, p={0: mode, 1: ms, 2: 2, 8: 0}))
            # not only whole milliseconds
            for ms, ns in ((0, 1), (1, 1), (0, 999999), (1, 500000), (1499, 999999), (g.r.randrange(1 << 30), g.r.randrange(1000000)),
                           (g.r.randrange(1 << 36), g.r.randrange(1000000))):
                js.append(job("h_timer", prof, pre=2, p={0: mode, 1: ms, 2: 2, 4: ns, 8: 0}))
        # dropping it takes no time
        for ms in (1, 1000, big):
            for mode in (0, 2):
                js.append(job("h_timer", prof, pre=g.q(3, 6), fire=False, p={0: mode, 1: ms, 2: 3, 3: 1, 8: 0}))
                js.append(job("h_timer", prof, pre=2, fire=False, first=True, p={0: mode, 1: ms, 2: 3, 3: 1, 8: 0}))
    return js


def c10(g):
    js = []
    for prof in ("symd", "symr"):
        js.append(job("h_sweep", prof, n=3, p={17: 3, 18: 0}, **g.form(3)))
        js.append(job("h_sweep", prof, n=3, p={17: 4, 18: 1}, **g.form(3)))
        js.append(job("h_sweep", prof, n=4, p={17: 0, 18: 1}, **g.form(4)))
        js.append(job("h_sweep", prof, n=4, p={17: 1, 18: 1}, **g.form(4)))
    for _ in range(g.q(4, 16)):
        js.append(job("h_sweep", g.prof(), n=4, cb=2, cube=g.r.randrange(4), p={17: 2, 18: 1}, **g.form(4)))
        js.append(job("h_sweep", g.prof(), n=4, cb=2, cube=g.r.randrange(4), p={17: 1, 18: 0}, **g.form(4)))
        js.append(job("h_sweep", g.prof(), n=5, dag=9, shape=g.shape(), graph=3, p={17: 2, 18: 0}, **g.form(5)))
        js.append(job("h_sweep", g.prof(), n=6, dag=4, shape=g.shape(), graph=3, p={17: 2, 18: 0}, **g.form(6)))
        js.append(job("h_sweep", g.prof(), n=5, dag=5, graph=1, p={17: 1, 18: 1}, **g.form(5)))
        js.append(job("h_sweep", g.prof(), n=5, dag=11, graph=4, shape=g.shape(), p={17: 3, 18: 0}, **g.form(5)))
    # many measurable nodes
    js.append(job("h_sweep", g.prof(), n=5, dag=5, graph=3, shape=g.shape(), p={17: 0, 18: 0}, **g.form(5)))
    js.append(job("h_sweep", g.prof(), n=6, dag=5, graph=1, shape=g.shape(), p={17: 0, 18: 1}, **g.form(6)))
    js.append(job("h_sweep", g.prof(), n=6, dag=6, graph=1, shape=g.shape(), p={17: 0, 18: 0}, **g.form(6)))
    js.append(job("h_sweep", g.prof(), n=7, dag=7, graph=1, shape=g.shape(), p={17: 0, 18: 1, 19: 2}, **g.form(7)))
    js.append(job("h_sweep", g.prof(), n=g.q(9, 11), dag=5, graph=1, shape=g.shape(), p={17: 0, 18: 0, 19: 1}, **g.form(6)))
    js.append(job("h_sweep", g.prof(), n=g.q(9, 11), dag=7, graph=1, shape=g.shape(), p={17: 0, 18: 1, 19: 1}, **g.form(6)))
    return js


def c11(g):
    js = []
    for prof in ("symd", "symr"):
        js.append(job("h_focus", prof, n=3, p={17: 2, 18: 2, 19: 2}, **g.form(3)))
        js.append(job("h_focus", prof, n=2, p={17: 3, 18: 2, 19: 2}, **g.form(2)))
        js.append(job("h_focus", prof, n=2, p={17: 2, 18: 3, 19: 1}, **g.form(2)))
        js.append(job("h_focus", prof, n=4, dag=9, shape=g.shape(), graph=3, p={17: 2, 18: 2, 19: 3}, **g.form(4)))
        js.append(job("h_focus", prof, n=4, dag=4, graph=3, shape=g.shape(), p={17: 2, 18: 2, 19: 2}, **g.form(4)))
        js.append(job("h_focus", prof, n=3, dag=1, graph=3, shape=g.shape(), p={17: 4, 18: 1, 19: 2}, **g.form(3)))
    if g.thorough:
        js.append(job("h_focus", "symd", n=3, cap=1800, p={17: 3, 18: 2, 19: 2}, **g.form(3)))
        js.append(job("h_focus", "symr", n=4, cap=1800, cb=3, cube=g.r.randrange(8), p={17: 2, 18: 2, 19: 2}, **g.form(4)))
        js.append(job("h_focus", "symr", n=3, cap=1800, p={17: 2, 18: 3, 19: 2}, **g.form(3)))
    return js


def c12(g):
    js = []

    def graph(n, k, s, rest, **kw):
        js.append(job("h_graph", kw.pop("prof", None) or g.prof(), n=n, graph=k and k + 1, shape=g.shape(), dag=5,
                      rev=g.r.choice([0, 4]), p={17: s, 18: g.r.randrange(2) + rest}, **kw))

    for prof in ("symd", "symr"):
        for n, s in ((1, 3), (2, 4), (3, 4), (4, 3)):
            graph(n, 0, s, 0, prof=prof)
        graph(4, 0, 4, 2, prof=prof)
        graph(5, 0, 2, 0, prof=prof)
        graph(5, 0, 3, 2, prof=prof)
        for _ in range(2):
            graph(6, 5, 2, 0, prof=prof)
    return js


def c13(g):
    js = []
    for prof in ("symd", "symr"):
        for n in (1, 2, 3, 4):
            for m in range(5):
                js.append(job("h_buffer", prof, n=n, p={17: g.q(3, 4) if n < 4 else 3, 18: m, 19: 0}))
                js.append(job("h_buffer", prof, n=n, p={17: 2, 18: m, 19: 1}))
        js.append(job("h_buffer", prof, n=5, p={17: 3, 18: g.r.randrange(5), 19: 0}))
        js.append(job("h_buffer", prof, n=4, p={17: g.q(3, 5), 18: g.r.randrange(2), 19: 0}, cap=400))
        for n in (5, 6, 7, 8):
            for _ in range(g.q(3, 9)):
                js.append(job("h_buffer", prof, n=n, shape=g.shape(), p={17: g.q(1, 2), 18: g.r.randrange(5), 19: 0, 20: 2 * n}))
            js.append(job("h_buffer", prof, n=n, shape=g.shape(), p={17: 1, 18: g.r.randrange(5), 19: 1, 20: n}))
        # nodes with many neighbours
        for n in (12, 16):
            for m in range(5):
                js.append(job("h_buffer", prof, n=n, shape=g.shape(), p={17: 1, 18: m, 19: 0, 20: 5 * n}))
    return js


def c14(g):
    js = []
    for prof in ("symd", "symr"):
        for n in (2, 3, 4):
            for part in (0, 1, 2):
                js.append(job("h_deps", prof, n=n, p={17: g.r.randrange(24), 18: part}, **g.form(n)))
    for _ in range(g.q(4, 20)):
        js.append(job("h_deps", g.prof(), n=4, p={17: g.r.randrange(24), 18: g.r.randrange(2)}, **g.form(4)))
        js.append(job("h_deps", g.prof(), n=5, dag=9, shape=g.shape(), p={17: g.r.randrange(120), 18: g.r.randrange(2)}, **g.form(5)))
        js.append(job("h_deps", g.prof(), n=6, dag=11, shape=g.shape(), p={17: g.r.randrange(720), 18: g.r.randrange(3)}, **g.form(6)))
    for part in (0, 1, 2):
        js.append(job("h_deps", g.prof(), n=5, p={17: g.r.randrange(120), 18: part}, **g.form(5)))
    # many layers
    for n in (9, 10, 11):
        for part in (0, 1, 2):
            js.append(job("h_deps", g.prof(), n=n, dag=11, shape=g.shape(), p={17: g.r.randrange(1 << 20), 18: part}, **dict(g.form(n), lay=1)))
            js.append(job("h_deps", g.prof(), n=n, dag=1, shape=g.shape(), p={17: g.r.randrange(1 << 20), 18: part}, **g.form(n)))
    return js


def c15(g):
    js = []
    for prof in ("symd", "symr"):
        for f in range(8):
            js.append(job("h_serial", prof, n=2, search=1, p={17: f & 1, 18: f >> 1 & 1, 19: f >> 2, 20: 0}, **g.form(2)))
        for f in (0, 7):
            js.append(job("h_serial", prof, n=3, search=f & 1, p={17: f & 1, 18: f >> 1 & 1, 19: f >> 2, 20: 1}, **g.form(3)))
        js.append(job("h_serial", prof, n=3, search=1, acc=3, p={17: 1, 18: 1, 19: 1, 20: 1}, **g.form(3)))
        js.append(job("h_serial", prof, n=3, search=1, nt=2, p={17: 0, 18: 0, 19: 0, 20: 0}, **g.form(3)))
        js.append(job("h_serial", prof, n=2, search=1, nt=2, tb=1, acc=3, p={17: 0, 18: 1, 19: 0, 20: 0}, **g.form(2)))
        js.append(job("h_serial", prof, n=2, search=1, to=100001, p={17: 0, 18: 0, 19: 1, 20: 0}, fire=False, **g.form(2)))
        # without a search, the other options mean nothing
        js.append(job("h_serial", prof, n=3, search=0, acc=3, p={17: 1, 18: 0, 19: 0, 20: 0}, **g.form(3)))
        js.append(job("h_serial", prof, n=3, search=0, nt=2, tb=1, to=1001, p={17: 1, 18: 0, 19: 0, 20: 0}, fire=False, **g.form(3)))
        for i in (17, 18, 19):
            for bad in (2, 3, 4, 5):
                p = {17: g.r.randrange(2), 18: g.r.randrange(2), 19: g.r.randrange(2), 20: 0}
                p[i] = bad
                js.append(job("h_serial", prof, n=2, search=0, p=p))
        for f in (0, 1):
            for what in (2, 3):
                js.append(job("h_serial", prof, n=2, search=1, p={17: f, 18: f, 19: f, 20: what}))
        js.append(job("h_serial", prof, n=4, search=1, dag=9, graph=4, shape=g.shape(), p={17: 1, 18: 0, 19: 0, 20: 0}, **g.form(4)))
    return js


def c16(g):
    js = []
    for prof in ("symd", "symr"):
        for kind in range(4):
            for nothing in (0, 1):
                js.append(job("h_formula", prof, p={1: nothing, 2: 0, 17: kind, 18: g.r.randrange(1 << 20), 19: 5}))
                js.append(job("h_formula", prof, p={1: nothing, 2: 1, 17: kind, 18: g.r.randrange(1 << 20), 19: 4}))
        for _ in range(g.q(2, 12)):
            js.append(job("h_formula", prof, p={1: g.r.randrange(2), 2: 1, 17: 2, 18: g.r.randrange(1 << 20), 19: 5}))
    return js


def c17(g):
    js = []
    how = lambda: g.r.randrange(5 ** 5)
    place = lambda: g.r.randrange(7 ** 5)
    for prof in ("clid", "clir"):
        # what is given is free, and the numbers, with the stated number of digits
        for d in ((1, 0, 0), (0, 2, 0), (0, 0, 2), (3, 1, 1), (0, 4, 0), (4, 0, 3), (5, 0, 0), (0, 0, 5)):
            for _ in range(g.q(2, 10)):
                js.append(job("h_args", prof, p={1: d[0], 2: d[1], 3: d[2], 4: 31, 17: how(), 18: place()}))
        # about the largest ones
        for d, b in (((0, 2, 0), 655), ((2, 0, 0), 42949672), ((0, 0, 2), 42949672), ((3, 0, 0), 9007199), ((0, 0, 3), 6555)):
            js.append(job("h_args", prof, p={1: d[0], 2: d[1], 3: d[2], 4: 3, 5: b, 17: how(), 18: place()}))
        # from file to file
        for f in range(8):
            js.append(job("h_cli", prof, n=2, graph=1, what=7, p={19: f, 17: how(), 18: place()}, fire=False, **g.form(2)))
        for f in range(g.q(2, 8)):
            js.append(job("h_cli", prof, n=3, dag=9, graph=1, shape=g.shape(), what=7, fire=False,
                          p={19: g.r.randrange(8), 17: how(), 18: place()}, **g.form(3)))
    return js


def c18(g):
    js = []
    for prof in ("symd", "symr"):
        js.append(job("h_asked", prof, n=2, search=1, k=3, **g.form(2)))
        js.append(job("h_asked", prof, n=3, search=1, k=3, **g.form(3)))
        js.append(job("h_asked", prof, n=4, search=1, k=2, cb=2, cube=g.r.randrange(4), **g.form(4)))
        for _ in range(g.q(2, 8)):
            js.append(job("h_asked", prof, n=5, search=1, k=2, dag=9, graph=4, shape=g.shape(), **g.form(5)))
            js.append(job("h_asked", prof, n=6, search=1, k=2, dag=11, graph=4, shape=g.shape(), **g.form(6)))
        js.append(job("h_asked", prof, pre=1, n=2, search=1, k=2, nt=2, **g.form(2)))
        js.append(job("h_asked", prof, n=3, search=1, k=2, nt=2, tb=g.r.randrange(4), **g.form(3)))
        for n in (4, 5, 6, 7):
            js.append(job("h_asked", prof, n=n, search=1, k=4, dag=2, graph=7, shape=g.shape(), p={17: 1}, **g.form(n)))
    return js


def c19(g):
    js = []
    for acc in (5, 6):
        for n in (1, 2, 3, 4):
            for prof in ("symd", "symr"):
                js.append(job("h_run", prof, n=n, search=1, what=FAST | SOME, acc=acc, p=RND, **g.form(n)))
        for d, n, k in ((4, 6, 7), (9, 6, 6), (3, 6, 5), (11, 6, 6), (6, 5, 4), (5, 5, 4), (11, 7, 7), (4, 8, 4)):
            for _ in range(g.q(1, 6)):
                js.append(job("h_run", g.prof(), n=n, search=1, what=FAST | SOME, acc=acc, dag=d, graph=k + 1,
                              shape=g.shape(), p=RND, **g.form(n)))
        for n in (1, 2, 3, 4):
            for _ in range(g.q(1, 6)):
                js.append(job("h_run", g.prof(), n=n, search=1, what=FAST | SOME, acc=acc,
                              seed=g.r.randrange(1 << 20), **g.form(n)))
    for d, n, k in ((4, 6, 7), (9, 6, 6), (3, 6, 5), (11, 6, 6), (6, 5, 4)):
        js.append(job("h_run", g.prof(), n=n, search=1, what=FAST | SOME, acc=5, seed=1 + g.r.randrange(1 << 20), dag=d,
                      graph=k + 1, shape=g.shape(), **g.form(n)))
    for n in g.q((20,), (20, 66)):
        js.append(job("h_large", g.prof(), n=n, what=SOME | 8, search=1, dag=1, shape=g.shape(), acc=5,
                      seed=1 + g.r.randrange(999), p={3: g.shape(), 15: 5}))
    return js


def c20(g):
    js = []
    w = NONDOM | FRONT
    # the timeout does not fire: the whole front, without waiting
    for prof in ("symd", "symr"):
        js.append(job("h_prompt", prof, pre=0, n=4, search=1, what=w, to=100001, **g.form(4)))
        js.append(job("h_prompt", prof, pre=1, fire=False, n=3, search=1, what=w, to=100001, **g.form(3)))
        js.append(job("h_prompt", prof, pre=1, fire=False, n=3, search=1, what=w, nt=2, to=1001, **g.form(3)))
        js.append(job("h_prompt", prof, pre=0, n=3, search=1, what=w, nt=3, to=1001, tb=3, **g.form(3)))
        js.append(job("h_prompt", prof, pre=0, n=4, search=1, what=w, nt=2, to=1001, **g.form(4)))
        js.append(job("h_prompt", prof, pre=0, n=4, search=1, what=w, acc=3, to=1001, cb=2, cube=1, **g.form(4)))
        # it fires: the search stops
        for n in (3, 4):
            js.append(job("h_stop", prof, pre=1, first=True, n=n, search=1, what=0, to=1001, p={17: 2}, **g.form(n)))
        js.append(job("h_stop", prof, pre=2, n=3, search=1, what=0, to=21, p={17: 2}, **g.form(3)))
        js.append(job("h_stop", prof, pre=0, first=True, n=4, search=1, what=0, to=1, p={17: 2}, **g.form(4)))
        js.append(job("h_stop", prof, pre=1, first=True, n=5, search=1, what=0, to=1001, dag=9, graph=4, shape=g.shape(), p={17: 2}, **g.form(5)))
        for n, d in ((6, 9), (6, 15), (7, 9), (7, 4), (8, 13), (9, 14)):
            js.append(job("h_stop", prof, pre=1, first=True, n=n, search=1, what=0, to=1001, dag=d, graph=g.r.randrange(1, 4), shape=g.shape(), p={17: 2}, **g.form(n)))
        for n, d in ((3, 0), (4, 5), (5, 9), (5, 15), (6, 4), (6, 11), (7, 1), (8, 13)):
            js.append(job("h_stop", prof, pre=1, first=True, n=n, search=1, what=0, to=1001, dag=d, graph=1, shape=g.shape(), p={17: 2, 18: 2}, **g.form(n)))
        for to in (31, 501, 1501, 1000001):
            js.append(job("h_stop", prof, pre=1, first=True, n=4, search=1, what=0, to=to, dag=5, graph=1, p={17: 2, 18: 2}, **g.form(4)))
        # and not before
        for to in (2, 301, 1501, 1000001):
            js.append(job("h_early", prof, pre=1, first=True, n=3, search=1, what=w, to=to, acc=g.r.choice((0, 3)), **g.form(3)))
            js.append(job("h_early", prof, pre=1, first=True, n=3, search=1, what=w, to=to, nt=2, graph=3, shape=g.shape(), **g.form(3)))
        # so do the tasks of several threads
        for no in (0, 1):
            js.append(job("h_stop", prof, pre=0, first=True, n=4, search=1, nt=2, tb=2, what=0, to=1, p={17: 10, 18: no}, **g.form(4)))
            js.append(job("h_stop", prof, pre=0, first=True, n=5, search=1, nt=2, tb=2, what=0, to=1, dag=5, graph=1, p={17: 10, 18: no}, **g.form(5)))
            js.append(job("h_stop", prof, pre=0, first=True, n=4, search=1, nt=3, tb=3, what=0, to=1, p={17: 15, 18: no}, **g.form(4)))
        js.append(job("h_stop", prof, pre=1, first=True, n=4, search=1, nt=2, tb=2, what=0, to=1001, p={17: 10, 18: 1}, **g.form(4)))
        # at once
        js.append(job("h_run", prof, pre=0, first=True, n=3, search=1, what=EMPTY, to=1, **g.form(3)))
        js.append(job("h_run", prof, pre=0, first=True, n=4, search=1, what=EMPTY, to=1, acc=3, **g.form(4)))
    return js


def c21(g):
    js = []
    for prof in ("pyd", "pyr"):
        for origin in range(6):
            for acc in range(5):
                for more in range(2):
                    js.append(job("h_wrapper", prof, p={2: 125, 4: acc, 5: more, 6: origin}))
        js.append(job("h_wrapper", prof, p={0: 1, 2: 125}))
        js.append(job("h_wrapper", prof, p={0: 2}))
        js.append(job("h_wrapper", prof, p={0: 3}))
    return js


def c22(g):
    js = []
    profs = ("resd", "resr")
    for prof in profs:
        J = lambda *a: js.append(job("h_bench", prof, p=dict(a)))
        # graphs: any numbers; numbers about the density
        for n in (0, 1, 2, 3, 4):
            for kind in (0, 1, 2) if n > 1 else (0,):
                for f in {0, 64, 1 + g.r.randrange(62)}:
                    J((1, n), (2, kind), (3, f), (4, 0))
                for k in (1, 2, 3):
                    J((1, n), (2, kind), (3, 2 + g.r.randrange(60)), (4, k))
        for n in g.q((5,), (5, 6)):
            J((1, n), (2, g.r.randrange(3)), (3, 2 + g.r.randrange(60)), (4, 1))
        for n in g.q((7, 12), (7, 12, 20)):
            for k in (2, 3):
                J((1, n), (2, g.r.randrange(3)), (3, 2 + g.r.randrange(60)), (4, k))
        for n in (2, 3, 4, 5):
            for kind in (0, 1, 2):
                J((0, 4), (1, n), (2, kind), (3, 2 + g.r.randrange(60)), (4, min(n * (n - 1) // 2 + 1, g.q(6, 11))))
        J((0, 4), (1, 8), (2, g.r.randrange(3)), (3, 2 + g.r.randrange(60)), (4, g.q(2, 4)))
        # orders
        for n in (0, 1, 2, 3):
            for kind in (0, 1, 2) if n > 1 else (0,):
                for f in {0, 64, 2 + g.r.randrange(60)}:
                    J((1, n), (2, kind), (3, f), (4, 0), (5, 1), (9, n * (n + 1) // 2 + 1))
                for k in (1, 2, 3):
                    J((1, n), (2, kind), (3, 2 + g.r.randrange(60)), (4, k), (5, 1), (9, n * (n + 1) // 2 + 1))
        J((1, 4), (2, g.r.randrange(3)), (3, 2 + g.r.randrange(60)), (4, 1), (5, 1), (9, 11))
        if g.thorough:
            for k in (2, 3):
                J((1, 4), (2, g.r.randrange(3)), (3, 2 + g.r.randrange(60)), (4, k), (5, 1), (9, 11))
            J((1, 5), (2, g.r.randrange(3)), (3, 2 + g.r.randrange(60)), (4, 1), (5, 1), (9, 16))
        J((0, 1), (1, g.q(40, 100)))
        # one point
        for n in (2, 3, 5):
            J((0, 2), (1, n), (6, 0), (7, 63))
        J((0, 2), (1, 4), (6, 1), (7, 63))
        for n in (2, 3):
            J((0, 2), (1, n), (6, 1), (7, g.r.randrange(64)))
        # the program
        for e, c in ((0, 0), (1, 1), (2, 2), (g.r.randrange(3), g.r.randrange(3))):
            J((0, 3), (1, 0), (3, g.r.randrange(5)), (4, e), (5, g.r.randrange(5)), (6, c))
        J((0, 3), (1, 0), (3, 2), (4, 0), (5, 4), (6, 0))
        J((0, 3), (1, 0), (3, 4), (4, 1), (5, 2), (6, 0))
        for d in range(8):
            J((0, 3), (1, 1), (2, 2 + g.r.randrange(6)), (3, d))
        for k in range(1, g.q(3, 41)):
            J((0, 3), (1, 0), (3, g.r.randrange(5)), (4, 0), (5, g.r.randrange(5)), (6, 0), (7, k if g.thorough else g.r.randrange(40) + 1))
        for k in g.r.sample(range(1, 16), g.q(2, 15)):
            J((0, 3), (1, 1), (2, 3), (3, 5), (7, k))
        J((0, 3), (1, 1), (2, g.q(15, 30)), (3, 5))
    return js


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11,
              C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22)


def jobs(prop, tier, seed):
    js = CHECKS[prop](Gen(prop, tier, seed))
    seen, out = set(), []
    for j in js:
        if j.text() not in seen:
            seen.add(j.text())
            out.append(j)
    return out
