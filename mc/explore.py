"""Exhaustive explorers.

* ``bfs``       explicit-state search; a state is the operation history which
                reaches it, replayed on a fresh real object.
* ``all_paths`` every operation sequence up to a depth (no dedup).
* ``Chooser`` / ``explore_choices``  stateless search over every outcome of
                the nondeterminism (random draws, environment answers) a run
                asks for.
* ``own_random`` routes ``random`` and ``numpy.random`` to a Chooser.
"""
import collections
import contextlib
import itertools
import random

import numpy as np


def bfs(ctx, build, ops, apply, canon, check, depth, scope='bfs'):
    """``build()`` -> fresh object; ``ops(obj)`` -> enabled ops;
    ``apply(obj, op)``; ``canon(obj)`` -> hashable; ``check(obj, hist)``."""
    obj = build()
    check(obj, ())
    seen = {canon(obj)}
    ctx.state(canon(obj))
    frontier = collections.deque([()])
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= depth:
            continue
        base = build()
        for op in hist:
            apply(base, op)
        menu = list(ops(base))
        for op in menu:
            obj = build()
            for h in hist:
                apply(obj, h)
            apply(obj, op)
            ctx.step()
            nh = hist + (op, )
            check(obj, nh)
            c = canon(obj)
            if c not in seen:
                seen.add(c)
                ctx.state(c)
                frontier.append(nh)
    return seen


def sequences(alphabet, depth, exact=False):
    alphabet = list(alphabet)
    for n in range(depth if exact else 0, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


class TooManyChoices(Exception):
    pass


class Chooser:
    """Replays ``prefix`` and then answers 0 at every later choice point."""

    def __init__(self, prefix=(), limit=10**6):
        self.prefix = list(prefix)
        self.points = []
        self.choices = []
        self.limit = limit

    def __call__(self, n, label=''):
        n = int(n)
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError(
                f'replay divergence at point {i} ({label}): {c} of {n}')
        if i >= self.limit:
            raise TooManyChoices(f'{i} choice points')
        self.points.append(n)
        self.choices.append(c)
        return c


def explore_choices(run, deviations=None, max_runs=None):
    """Yield (choices, result) for every outcome of the choices ``run(ch)``
    asks for; with ``deviations`` only runs with at most that many non-zero
    answers."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        n += 1
        yield tuple(ch.choices), res
        if max_runs is not None and n >= max_runs:
            if stack:
                yield None, 'capped'
            return
        used = sum(1 for c in ch.choices[:len(prefix)] if c)
        if deviations is not None and used >= deviations:
            continue
        for i in range(len(ch.choices) - 1, len(prefix) - 1, -1):
            for alt in range(1, ch.points[i]):
                stack.append(tuple(ch.choices[:i]) + (alt, ))


FLOATS = (0.0, 0.5, 0.999)


@contextlib.contextmanager
def own_random(ch, floats=FLOATS, perm=True):
    """All of ``random`` and the global ``numpy.random`` answer from ``ch``.

    Continuous draws in [0, 1) are taken from ``floats``.
    """

    def unit():
        return floats[ch(len(floats), 'unit')]

    def pick_index(n):
        return ch(n, 'index')

    def r_choice(seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[pick_index(len(seq))]

    def r_sample(pop, k, **kw):
        pool = list(pop)
        if k > len(pool):
            raise ValueError('Sample larger than population')
        return [pool.pop(pick_index(len(pool))) for _ in range(k)]

    def r_choices(pop, weights=None, *, cum_weights=None, k=1):
        w = weights
        if w is None and cum_weights is not None:
            w = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        idx = [i for i in range(len(pop)) if w is None or w[i] > 0]
        return [pop[idx[pick_index(len(idx))]] for _ in range(k)]

    def r_shuffle(x):
        pool = list(x)
        for i in range(len(x)):
            x[i] = pool.pop(pick_index(len(pool)) if perm else 0)

    def r_randint(a, b):
        return a + pick_index(b - a + 1)

    def r_randrange(a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[pick_index(len(r))]

    def r_uniform(a, b):
        return a + (b - a) * unit()

    def shape_fill(size, one):
        if size is None:
            return one()
        shape = (size, ) if isinstance(size, (int, np.integer)) else \
            tuple(size)
        n = int(np.prod(shape)) if shape else 1
        return np.array([one() for _ in range(n)]).reshape(shape)

    def np_choice(a, size=None, replace=True, p=None):
        pool = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        idx = list(range(len(pool)))
        if p is not None:
            p = list(p)
            if abs(sum(p) - 1) > 1e-6:
                raise ValueError('probabilities do not sum to 1')
            idx = [i for i in idx if p[i] > 0]

        def one():
            j = idx[pick_index(len(idx))]
            if not replace:
                idx.remove(j)
            return pool[j]

        if size is None:
            return one()
        n = int(np.prod(size))
        if not replace and n > len(idx):
            raise ValueError('Cannot take a larger sample than population')
        vals = [one() for _ in range(n)]
        out = np.asarray(vals)
        return out.reshape(size)

    def np_randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return shape_fill(size, lambda: low + pick_index(high - low))

    def np_rand(*shape):
        return shape_fill(shape or None, unit)

    def np_random(size=None):
        return shape_fill(size, unit)

    def np_uniform(low=0.0, high=1.0, size=None):
        return shape_fill(size, lambda: low + (high - low) * unit())

    def np_perm(x):
        pool = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        r_shuffle(pool)
        return np.asarray(pool)

    rnd = dict(choice=r_choice, sample=r_sample, choices=r_choices,
               shuffle=r_shuffle, randint=r_randint, randrange=r_randrange,
               uniform=r_uniform, random=unit)
    npr = dict(choice=np_choice, randint=np_randint, rand=np_rand,
               random=np_random, random_sample=np_random,
               uniform=np_uniform, permutation=np_perm, shuffle=r_shuffle)
    old_r = {k: getattr(random, k) for k in rnd}
    old_n = {k: getattr(np.random, k) for k in npr}
    try:
        for k, v in rnd.items():
            setattr(random, k, v)
        for k, v in npr.items():
            setattr(np.random, k, v)
        yield ch
    finally:
        for k, v in old_r.items():
            setattr(random, k, v)
        for k, v in old_n.items():
            setattr(np.random, k, v)
