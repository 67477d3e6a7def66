"""Candidate pools: contents, indicators and order under every history."""
import copy
import itertools
import pickle

from mc.core import Violation, expect
from mc.explore import bfs, sequences

RULE = ('explicit-state search over every history of the pool operations '
        '(append, extend, insert, pop, delete, set, update, sort, slice, '
        'concatenate, reverse, copy, pickle) with every form of input, to a '
        'bounded depth and size; after every step the pool is compared with '
        'a plain list of (subnet, indicators); refused operations leave it '
        'as it was; non-trivial: pools of two or more')
ASSUMPTIONS = ['flat candidates (choices by name or group); whether two '
               'pools share the same entry is not examined']

KEYS = ('score', 'flops', 'params', 'latency')
# subnets as the mutators produce them: names, widths, group ids, lists
NETS = [
    {'op1': 'k3', 'op2': 'k"5'},
    {0: 16, 1: 0.5},
    {'w': [1, 2, (3, 4)], "it's": True, 'none': None},
]


class Ref:

    def __init__(self):
        self.items = []

    def raw(self, n):
        return (copy.deepcopy(NETS[n]), {k: -1 for k in KEYS})

    def full(self, n, given):
        ind = {k: 0. for k in KEYS}
        ind.update(given)
        return (copy.deepcopy(NETS[n]), ind)


def given(n, ind):
    return {str(NETS[n]): dict(ind)}


INDS = [dict(score=1.5), dict(score=2.25, flops=3., params=1., latency=9.)]


def inputs(C, ref, thorough):
    """(name, build the argument, the entries it stands for)"""
    out = [('raw0', lambda: copy.deepcopy(NETS[0]), lambda: [ref.raw(0)]),
           ('raw1', lambda: copy.deepcopy(NETS[1]), lambda: [ref.raw(1)]),
           ('full0', lambda: given(0, INDS[0]), lambda: [ref.full(0, INDS[0])]),
           ('full2', lambda: given(2, INDS[1]), lambda: [ref.full(2, INDS[1])]),
           ('raws', lambda: [copy.deepcopy(NETS[2]), copy.deepcopy(NETS[0])],
            lambda: [ref.raw(2), ref.raw(0)]),
           ('mixed', lambda: [given(1, INDS[1]), copy.deepcopy(NETS[2])],
            lambda: [ref.full(1, INDS[1]), ref.raw(2)]),
           ('pool', lambda: C([given(1, INDS[0]), copy.deepcopy(NETS[0])]),
            lambda: [ref.full(1, INDS[0]), ref.raw(0)]),
           ('none', lambda: [], lambda: []),
           ]
    return out


class World:

    def __init__(self, C):
        self.C = C
        self.c = C()
        self.ref = Ref()
        self.refused = False

    # -- operations -------------------------------------------------------
    def do(self, op):
        kind, *a = op
        items = self.ref.items
        table = {n: (b, e) for n, b, e in inputs(self.C, self.ref, True)}
        self.refused = False
        if kind == 'append':
            b, e = table[a[0]]
            self.c.append(b())
            items += e()
        elif kind == 'extend':
            b, e = table[a[0]]
            self.c.extend(b())
            items += e()
        elif kind == 'init':
            b, e = table[a[0]]
            self.c = self.C(b())
            items[:] = e()
        elif kind == 'add':
            b, e = table[a[0]]
            other = b()
            self.c = self.c + other
            items += e()
        elif kind == 'insert':
            i, n = a
            b, e = table[n]
            self.c.insert(i, b())
            items.insert(i, e()[0])
        elif kind == 'pop':
            got = self.c.pop(*a)
            want = items.pop(*a)
            expect(list(got) == [str(want[0])], f'pop{tuple(a)} gave {got}, '
                   f'expected {want}')
        elif kind == 'del':
            del self.c[a[0]]
            del items[a[0]]
        elif kind == 'score':
            self.c.set_score(a[0], a[1])
            items[a[0]][1]['score'] = a[1]
        elif kind == 'res':
            self.c.set_resource(a[0], a[1], a[2])
            items[a[0]][1][a[2]] = a[1]
        elif kind == 'res0':
            self.c.set_resource(a[0], a[1])
            items[a[0]][1]['flops'] = a[1]
        elif kind == 'badkey':
            self.refuse(lambda: self.c.set_resource(0, 1., 'memory'))
        elif kind == 'badres':
            self.refuse(lambda: self.c.resources('score_'))
        elif kind == 'update':
            start, n = a
            vals = [dict(flops=float(10 * j + start), params=float(n))
                    for j in range(n)]
            if start + n > len(items):
                self.refuse(lambda: self.c.update_resources(
                    copy.deepcopy(vals), start=start))
            else:
                self.c.update_resources(copy.deepcopy(vals), start=start)
                for j in range(n):
                    items[start + j][1].update(vals[j])
        elif kind == 'sort':
            key, rev = a
            self.c.sort_by(key_indicator=key, reverse=rev)
            # stable in both directions, as list.sort
            order = sorted(range(len(items)), key=lambda i: items[i][1][key])
            if rev:
                order = []
                for v in sorted({it[1][key] for it in items}, reverse=True):
                    order += [i for i, it in enumerate(items)
                              if it[1][key] == v]
            items[:] = [items[i] for i in order]
        elif kind == 'sort0':
            self.c.sort_by()
            order = []
            for v in sorted({it[1]['score'] for it in items}, reverse=True):
                order += [i for i, it in enumerate(items)
                          if it[1]['score'] == v]
            items[:] = [items[i] for i in order]
        elif kind == 'slice':
            self.c = self.c[slice(*a)]
            items[:] = items[slice(*a)]
        elif kind == 'rebuild':
            self.c = self.C(self.c.data[:a[0]])
            items[:] = items[:a[0]]
        elif kind == 'reverse':
            self.c.reverse()
            items.reverse()
        elif kind == 'copy':
            self.c = copy.deepcopy(self.c)
        elif kind == 'pickle':
            self.c = pickle.loads(pickle.dumps(self.c))
        elif kind == 'clear':
            self.c.clear()
            items.clear()
        else:
            raise KeyError(kind)

    def refuse(self, fn):
        try:
            fn()
        except Exception:  # noqa
            self.refused = True
            return
        raise Violation('an operation that must be refused was accepted')

    # -- observation ------------------------------------------------------
    def canon(self):
        return repr([(str(n), sorted(d.items())) for n, d in self.ref.items])

    def check(self, hist):
        items = self.ref.items
        c = self.c
        tag = lambda: f'after {list(hist)}'  # noqa
        expect(isinstance(c, self.C), lambda: f'{tag()}: no longer a pool')
        expect(len(c) == len(items),
               lambda: f'{tag()}: {len(c)} entries, expected {len(items)}')
        if items:
            expect(c.subnets == [n for n, _ in items],
                   lambda: f'{tag()}: subnets {c.subnets}, expected '
                   f'{[n for n, _ in items]}')
            got = c.subnets
            expect(all(type(k) is type(k2) for g, (w, _) in zip(got, items)
                       for k, k2 in zip(g, w)),
                   lambda: f'{tag()}: key types changed')
        want = [round(d['score'], 2) for _, d in items]
        expect(c.scores == want,
               lambda: f'{tag()}: scores {c.scores}, expected {want}')
        for k in KEYS[1:]:
            want = [d[k] for _, d in items]
            expect(c.resources(k) == want,
                   lambda: f'{tag()}: {k} {c.resources(k)}, expected {want}')
        expect(c.resources() == c.resources('flops'),
               lambda: f'{tag()}: the default resource is not FLOPs')
        # reading has no effect
        expect(len(c) == len(items), 'reading changed the pool')


def menu(w, wide, cap):
    n = len(w.ref.items)
    ops = []
    table = inputs(w.C, w.ref, wide)
    names = [t[0] for t in table]
    if n < cap:
        ops += [('append', k) for k in names]
        ops += [('extend', k) for k in names]
        ops += [('insert', i, k) for i in (0, n, -1) for k in
                (('raw1', 'full2') if wide else ('full2', ))]
        ops += [('add', k) for k in (('pool', 'raws', 'mixed', 'none')
                                     if wide else ('pool', 'mixed'))]
    ops += [('init', 'full2'), ('init', 'raw0'), ('init', 'mixed'),
            ('init', 'pool')]
    if n:
        ops += [('pop', ), ('pop', 0), ('del', n - 1), ('badkey', )]
        ops += [('score', n - 1, 71.239), ('score', 0, -0.004),
                ('res', 0, 7., 'latency'), ('res', n - 1, 2., 'params'),
                ('res0', n - 1, 5.)]
        ops += [('score', -1, 1.5)]
    ops += [('update', s, k) for s in (0, 1) for k in (0, 1, 2)]
    ops += [('sort', k, r) for k in KEYS for r in (True, False)]
    ops += [('sort0', ), ('slice', None, 2), ('slice', 1, None),
            ('slice', None, None, -1), ('rebuild', 1), ('reverse', ),
            ('copy', ), ('pickle', ), ('clear', ), ('badres', )]
    return ops


def scope_bfs(ctx, C, first, depth, cap):
    def build():
        w = World(C)
        w.do(first)
        return w

    def apply(w, op):
        w.do(op)

    def check(w, hist):
        w.check((first, ) + tuple(hist))

    seen = bfs(ctx, build, lambda w: menu(w, ctx.thorough, cap), apply,
               lambda w: w.canon(), check, depth)
    return seen


def scope_rank(ctx, C, desc):
    """Top-k by any indicator, from any order of any scores."""
    n, vals = desc['n'], desc['vals']
    nets = [{'i': i} for i in range(n)]
    c = C()
    for net in nets:
        c.append(net)
    for i, v in enumerate(vals):
        c.set_score(i, v)
        c.set_resource(i, float(i % 2), 'flops')
    c.sort_by()
    ctx.step()
    expect([d['i'] for d in c.subnets] ==
           sorted(range(n), key=lambda i: (-vals[i], i)),
           f'sorting {vals} gave {c.subnets}')
    for k in range(n + 1):
        top = C(c.data[:k])
        ctx.step()
        expect(len(top) == k, 'wrong length')
        if k:
            expect(sorted(s['i'] for s in top.subnets) ==
                   sorted(sorted(range(n), key=lambda i: (-vals[i], i))[:k]),
                   f'the best {k} of {vals} are wrong')
            expect(top.resources('flops') ==
                   [float(s['i'] % 2) for s in top.subnets],
                   'resources did not move with their subnet')


def run(ctx):
    from mmrazor.structures import Candidates as C
    t = ctx.thorough
    firsts = [('append', 'raw0'), ('append', 'full0'), ('append', 'raws'),
              ('append', 'mixed'), ('append', 'pool'), ('init', 'full2'),
              ('init', 'raw0'), ('init', 'none'), ('extend', 'raw1'),
              ('extend', 'mixed'), ('extend', 'full2'), ('append', 'none'),
              ('add', 'pool'), ('add', 'mixed'), ('init', 'mixed'),
              ('extend', 'pool')]
    ctx.parallel('history', firsts,
                 lambda f: scope_bfs(ctx, C, tuple(f), 4 if t else 3,
                                     4 if t else 3))
    ranks = [dict(n=n, vals=list(v)) for n in range(1, 5 if t else 4)
             for v in itertools.product((0., 1.5, 70.001, 70.004), repeat=n)]
    ctx.parallel('rank', ranks, lambda d: scope_rank(ctx, C, d))
