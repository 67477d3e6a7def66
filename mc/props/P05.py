"""One-shot candidate ops: only the selected candidate runs, forever."""
import itertools

import torch
from torch import nn

from mc.core import Violation, expect
from mc.explore import bfs, explore_choices, own_random

RULE = ('every history of selections, samples, forwards, fixes (legal, '
        'repeated, unknown) over candidate sets of 1..N ops, against a '
        'reference automaton with per-candidate call counters; every outcome '
        'of every random draw for samplers, every probability vector on a '
        'grid; non-trivial: a selection happened before the forward')
ASSUMPTIONS = ['candidates are independent modules of matching shapes']


class Probe(nn.Module):

    def __init__(self, k):
        super().__init__()
        self.w = nn.Parameter(torch.tensor(float(k)))
        self.calls = 0

    def forward(self, x):
        self.calls += 1
        return x * self.w


# declared in an order that is not alphabetical
FACTOR = dict(c=2., b=3., d=5., a=7.)


def register():
    from mmrazor.registry import MODELS
    if MODELS.get('McProbe') is None:
        MODELS.register_module(name='McProbe', module=Probe)


def build(kind, n, probs=None, via='moduledict'):
    import mmrazor.models  # noqa
    from mmrazor.registry import MODELS
    OneShotMutableOP = MODELS.get('OneShotMutableOP')
    OneShotProbMutableOP = MODELS.get('OneShotProbMutableOP')
    names = list(FACTOR)[:n]
    if via == 'cfg':
        register()
        cand = {k: dict(type='McProbe', k=FACTOR[k]) for k in names}
    else:
        cand = nn.ModuleDict({k: Probe(FACTOR[k]) for k in names})
    if kind == 'prob':
        return OneShotProbMutableOP(candidates=cand, choice_probs=probs)
    return OneShotMutableOP(candidates=cand)


def run_history(ctx, spec):
    n, via = spec
    names = list(FACTOR)[:n]
    ops = [('set', c) for c in names] + [('unset', )] + \
        [('fix', c) for c in names] + [('fix-unknown', ), ('fwd', ),
                                       ('fwd-unknown', ), ('dump', )]

    class World:

        def __init__(self):
            self.m = build('plain', n, via=via)
            self.probes = dict(self.m._candidates.items())
            self.cur, self.fixed = None, None
            self.hist = ()

    def forward(w, when):
        before = {k: p.calls for k, p in w.probes.items()}
        y = float(w.m(torch.ones(1)))
        ran = {k for k in names if w.probes[k].calls != before[k]}
        if w.fixed is not None:
            want = {w.fixed}
        elif w.cur is None:
            want = set(names)
        else:
            want = {w.cur}
        expect(ran == want, f'{n} candidates, {w.hist}: ran {sorted(ran)}, '
               f'expected {sorted(want)}')
        expect(y == sum(FACTOR[k] for k in want), f'{w.hist}: output {y}')
        expect(all(w.probes[k].calls - before[k] in (0, 1) for k in names),
               f'{w.hist}: a candidate ran twice')

    def apply(w, op):
        w.hist += (op, )
        if op[0] == 'set':
            if w.fixed is None:
                w.m.current_choice = op[1]
                w.cur = op[1]
        elif op[0] == 'unset':
            if w.fixed is None:
                w.m.current_choice = None
                w.cur = None
        elif op[0] in ('fix', 'fix-unknown'):
            target = op[1] if op[0] == 'fix' else 'zz'
            legal = w.fixed is None and target in names
            try:
                w.m.fix_chosen(target)
                took = True
            except Exception:
                took = False
            expect(took == legal, f'{w.hist}: fixing to {target} '
                   f'{"worked" if took else "was refused"}')
            if took:
                w.fixed = target
        elif op[0] == 'fwd':
            forward(w, 'fwd')
        elif op[0] == 'fwd-unknown':
            if w.fixed is None:
                w.m.current_choice = 'zz'
                try:
                    w.m(torch.ones(1))
                except Exception:
                    w.m.current_choice = w.cur
                    return
                raise Violation(f'{w.hist}: forward of an unknown choice')
        elif op[0] == 'dump':
            if w.cur is not None:
                d = w.m.dump_chosen()
                expect(d.chosen == w.cur, f'{w.hist}: dumps {d.chosen}')
                if w.fixed is None:
                    expect(list(d.meta['all_choices']) == names,
                           f'{w.hist}: meta {d.meta}')
                    twin = build('plain', n)
                    twin.fix_chosen(d.chosen)
                    y = float(twin(torch.ones(1)))
                    expect(y == FACTOR[w.cur], f'{w.hist}: twin gives {y}')
            elif w.fixed is None:
                try:
                    w.m.dump_chosen()
                except Exception:
                    return
                raise Violation(f'{w.hist}: dumped without a choice')

    def check(w, hist):
        expect(w.m.is_fixed == (w.fixed is not None), f'{w.hist}: is_fixed')
        left = [w.fixed] if w.fixed is not None else names
        expect(w.m.choices == left and w.m.num_choices == len(left),
               f'{w.hist}: choices {w.m.choices}, expected {left}')
        if w.fixed is None:
            expect(w.m.current_choice == w.cur, f'{w.hist}: current choice')
        forward(w, 'check')
        kept = {id(p) for p in w.m.parameters()}
        expect(kept == {id(w.probes[k].w) for k in left},
               f'{w.hist}: parameters kept')

    def canon(w):
        return (w.cur, w.fixed)

    bfs(ctx, World, lambda w: ops, apply, canon, check, 4 if ctx.thorough
        else 3)


def samplers(ctx, spec):
    kind, n, probs = spec
    m = build(kind, n, probs and list(probs))
    names = list(FACTOR)[:n]
    seen = set()

    def one(ch):
        with own_random(ch):
            return m.sample_choice()

    for ch, s in explore_choices(one):
        ctx.step()
        expect(isinstance(s, str) and s in names, f'sampled {s!r}')
        expect(m.current_choice is None, 'sampling selected something')
        m.current_choice = s
        expect(float(m(torch.ones(1))) == FACTOR[s], f'{s} runs another op')
        m.current_choice = None
        seen.add(s)
        ctx.state((spec, s))
    want = {k for i, k in enumerate(names) if not probs or probs[i] > 0}
    expect(seen == want, f'{spec}: sampling reaches {sorted(seen)}, '
           f'expected {sorted(want)}')


def prob_sum(ctx, spec):
    """Probabilities that do not sum to one are refused."""
    ctx.step()
    legal = abs(sum(spec) - 1) < 1e-6
    try:
        build('prob', len(spec), list(spec))
        took = True
    except Exception:
        took = False
    ctx.state((spec, took))
    expect(took == legal, f'probabilities {spec} (sum {sum(spec)}) '
           f'{"accepted" if took else "refused"}')


def weights(ctx, spec):
    """Drawing with weights asks the generator for exactly these weights."""
    import random
    n, probs = spec
    m = build('prob', n, list(probs))
    asked = []
    old = random.choices

    def spy(pop, weights=None, **kw):
        asked.append((list(pop), list(weights)))
        return [pop[-1]]

    random.choices = spy
    try:
        m.sample_choice()
    finally:
        random.choices = old
    ctx.step()
    for pop, w in asked:
        expect(dict(zip(pop, w)) == dict(zip(list(FACTOR), probs)),
               f'{probs}: drew from {pop} with {w}')


def run(ctx):
    top = 4 if ctx.thorough else 3
    ctx.parallel('histories', [(n, via) for n in range(1, top + 1)
                               for via in ('moduledict', 'cfg')],
                 lambda s: run_history(ctx, s), workers=8)
    grid = (0.0, 0.1, 0.2, 0.25, 0.3, 0.5, 0.7, 0.75, 1.0)
    vecs = [p for n in range(1, 4) for p in itertools.product(grid, repeat=n)]
    ctx.cases('probability-vectors', vecs, lambda s: prob_sum(ctx, s))
    legal = [p for p in vecs if abs(sum(p) - 1) < 1e-6]
    ctx.cases('samplers', [('plain', n, None) for n in range(1, 5)] +
              [('prob', len(p), p) for p in legal], lambda s: samplers(ctx, s))
    ctx.cases('weights', [(len(p), p) for p in legal],
              lambda s: weights(ctx, s))
