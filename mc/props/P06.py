"""Differentiable candidates: mixture before the fix, one path after."""
import contextlib
import itertools
import math

import torch
from torch import nn

from mc.core import Violation, expect
from mc.explore import explore_choices

RULE = ('every architecture-parameter vector on a grid (including ties, '
        '-inf-like and one-hot extremes) x every candidate count x every '
        'outcome of the categorical / Gumbel draw, for candidate ops and '
        'route choices, through histories of forward / derive / fix; '
        'compared with the closed-form mixture; non-trivial: two candidates '
        'or more')
ASSUMPTIONS = ['tolerance 1e-5 on mixtures; candidates are scalar maps']

NAMES = 'abcd'
FACTOR = dict(a=2., b=3., c=5., d=7.)


class Probe(nn.Module):

    def __init__(self, k):
        super().__init__()
        self.k, self.calls = k, 0

    def forward(self, x):
        self.calls += 1
        return x * self.k


def register():
    import mmrazor.models  # noqa
    from mmrazor.registry import MODELS
    if MODELS.get('McDiffProbe') is None:
        MODELS.register_module(name='McDiffProbe', module=Probe)
    return MODELS


def softmax(v):
    m = max(v)
    e = [math.exp(x - m) for x in v]
    return [x / sum(e) for x in e]


def mk_op(kind, n, **kw):
    M = register()
    return M.get(kind)(
        candidates={k: dict(type='McDiffProbe', k=FACTOR[k])
                    for k in NAMES[:n]}, **kw)


def mk_route(kind, n, **kw):
    M = register()
    return M.get(kind)(
        edges=nn.ModuleDict({k: Probe(FACTOR[k]) for k in NAMES[:n]}), **kw)


@contextlib.contextmanager
def own_draws(ch, noises=(1.0, 0.05)):
    """torch.multinomial and the exponential noise of Gumbel draws."""
    om, oe = torch.multinomial, torch.Tensor.exponential_

    def multinomial(probs, num, replacement=False, **kw):
        p2 = probs if probs.dim() == 2 else probs[None]
        rows = []
        for r in p2:
            idx = [i for i, p in enumerate(r.tolist()) if p > 0]
            rows.append([idx[ch(len(idx), 'cat')] for _ in range(num)])
        out = torch.tensor(rows)
        return out if probs.dim() == 2 else out[0]

    def exponential_(self, *a, **kw):
        flat = [noises[ch(len(noises), 'exp')] for _ in range(self.numel())]
        with torch.no_grad():
            self.copy_(torch.tensor(flat).view_as(self))
        return self

    torch.multinomial, torch.Tensor.exponential_ = multinomial, exponential_
    try:
        yield
    finally:
        torch.multinomial, torch.Tensor.exponential_ = om, oe


GRID = (-1.0, 0.0, 0.5, 2.0)


def close(a, b):
    return abs(a - b) <= 1e-5 * max(1, abs(b))


def mixture(ctx, v):
    """DiffMutableOP: expectation, derivation, fix."""
    n = len(v)
    ctx.step()
    p = softmax(v)
    arch = nn.Parameter(torch.tensor(v))
    m = mk_op('DiffMutableOP', n)
    x = torch.tensor([1.5])
    expect(close(float(m(x)), 1.5 * sum(FACTOR[k] for k in NAMES[:n])),
           f'{v}: without parameters all candidates are summed')
    y = m(x, arch_param=arch)
    want = 1.5 * sum(a * FACTOR[k] for a, k in zip(p, NAMES))
    expect(close(float(y), want), f'{v}: mixture {float(y)}, expected {want}')
    y.sum().backward()
    e = sum(a * FACTOR[k] for a, k in zip(p, NAMES))
    for i, k in enumerate(NAMES[:n]):
        g = 1.5 * p[i] * (FACTOR[k] - e)
        expect(abs(float(arch.grad[i]) - g) < 1e-4,
               f'{v}: gradient {arch.grad.tolist()}')
    m.set_forward_args(arch_param=arch)
    expect(close(float(m(x)), want), f'{v}: forward with bound parameters')
    c = m.sample_choice(arch)
    expect(v[NAMES.index(c)] == max(v), f'{v}: derives {c}')
    m.current_choice = c
    d = m.dump_chosen()
    expect(d.chosen == c, f'{v}: dumps {d.chosen}')
    for bad in ('zz', ):
        try:
            m.fix_chosen(bad)
        except Exception:
            continue
        raise Violation(f'{v}: fixed to {bad}')
    m.fix_chosen(c)
    expect(m.is_fixed and m.choices == [c], f'{v}: {m.choices}')
    expect(close(float(m(x)), 1.5 * FACTOR[c]), f'{v}: fixed forward')
    try:
        m.fix_chosen(c)
    except Exception:
        ctx.state((v, c))
        return
    raise Violation('fixed twice')


def multi_fix(ctx, spec):
    n, chosen = spec
    ctx.step()
    m = mk_op('DiffMutableOP', n)
    m.fix_chosen(list(chosen))
    expect(set(m.choices) == set(chosen), f'{spec}: {m.choices}')
    expect(close(float(m(torch.ones(1))), sum(FACTOR[k] for k in chosen)),
           f'{spec}')
    ctx.state(spec)


def onehot(ctx, spec):
    v, thr = spec
    n = len(v)
    p = softmax(v)
    order = sorted(p, reverse=True)
    gap = order[0] - order[1]
    if abs(gap - thr) < 1e-6:
        return
    x = torch.tensor([1.5])

    def one(ch):
        arch = nn.Parameter(torch.tensor(v))
        m = mk_op('OneHotMutableOP', n, fix_threshold=thr)
        probes = dict(m._candidates.items())
        outs = []
        with own_draws(ch):
            for _ in range(2):
                b = {k: q.calls for k, q in probes.items()}
                y = m(x, arch_param=arch)
                ran = [k for k in NAMES[:n] if probes[k].calls != b[k]]
                outs.append((float(y), tuple(ran), m.is_fixed,
                             tuple(m.choices)))
        return outs

    first = set()
    for ch, outs in explore_choices(one):
        for y, ran, fixed, choices in outs:
            ctx.step()
            expect(len(ran) == 1 and close(y, 1.5 * FACTOR[ran[0]]),
                   f'{spec}: draw {ch}: ran {ran}, output {y}')
            expect(fixed == (gap >= thr), f'{spec}: gap {gap} fixed={fixed}')
            if fixed:
                best = [NAMES[i] for i in range(n) if v[i] == max(v)]
                expect(list(choices) == list(ran) and ran[0] in best,
                       f'{spec}: fixed to {choices} and ran {ran}, the most '
                       f'likely is {best}', 'onehot-argmax')
            else:
                expect(choices == tuple(NAMES[:n]), f'{spec}: {choices}')
        first.add(outs[0][1][0])
        ctx.state((spec, tuple(outs)))
    if gap < thr:
        expect(first == set(NAMES[:n]), f'{spec}: draws reach {first}')


def route(ctx, spec):
    v, k, with_arch = spec
    n = len(v)
    ctx.step()
    p = softmax(v)
    arch = torch.tensor(v)
    m = mk_route('DiffChoiceRoute', n, num_chosen=k, with_arch_param=with_arch)
    xs = [torch.tensor([float(10**i)]) for i in range(n)]
    w = p if with_arch else [1.] * n
    want = sum(w[i] * FACTOR[NAMES[i]] * 10**i for i in range(n))
    got = float(m(xs, arch_param=arch))
    expect(abs(got - want) <= 1e-4 * want, f'{spec}: {got}, expected {want}')
    want_all = sum(FACTOR[NAMES[i]] * 10**i for i in range(n))
    expect(close(float(m(xs)), want_all), f'{spec}: all edges')
    try:
        m(xs[:-1])
    except Exception:
        pass
    else:
        raise Violation(f'{spec}: {n - 1} inputs for {n} edges')
    c = m.sample_choice(arch)
    expect(len(c) == len(set(c)) == min(k, n), f'{spec}: derives {c}')
    worst = min(v[NAMES.index(q)] for q in c)
    for i in range(n):
        if NAMES[i] not in c:
            expect(v[i] <= worst, f'{spec}: {NAMES[i]} beats one of {c}')
    m.current_choice = c
    expect(m.dump_chosen().chosen == c, f'{spec}: dump')
    try:
        m.fix_chosen(['zz'])
    except Exception:
        pass
    else:
        raise Violation(f'{spec}: fixed to an unknown edge')
    m.fix_chosen(c)
    fixed = sum(FACTOR[q] * 10**NAMES.index(q) for q in c)
    for when in ('fixed', 'after a refused second fix'):
        got = float(m(xs, arch_param=arch))
        expect(close(got, fixed), f'{spec}: {when}: {got}, edges {c} give '
               f'{fixed}', 'route-fixed-inputs')
        try:
            m.fix_chosen(c[:1])
        except Exception:
            continue
        raise Violation('fixed twice')
    ctx.state((spec, tuple(c)))


def gumbel(ctx, spec):
    v, hard, tau = spec
    n = len(v)
    noises = (1.0, 0.05)

    def one(ch):
        m = mk_route('GumbelChoiceRoute', n, tau=1.0, hard=hard,
                     with_arch_param=True)
        m.set_temperature(tau)
        xs = [torch.tensor([1.]) for i in range(n)]
        with own_draws(ch, noises):
            return float(m(xs, arch_param=torch.tensor(v)))

    for ch, y in explore_choices(one):
        ctx.step()
        s = [(v[i] - math.log(noises[ch[i]])) / tau for i in range(n)]
        if hard:
            best = [FACTOR[NAMES[i]] for i in range(n)
                    if abs(s[i] - max(s)) < 1e-6]
            expect(any(close(y, b) for b in best),
                   f'{spec} noise {ch}: {y}, expected one of {best}')
        else:
            want = sum(a * FACTOR[k] for a, k in zip(softmax(s), NAMES))
            expect(close(y, want), f'{spec} noise {ch}: {y} vs {want}')
        ctx.state((spec, ch))


def shared(ctx, spec):
    """A search group has one parameter vector and derives one choice."""
    aliases, v = spec
    from mmrazor.models.mutators import NasMutator
    net = nn.Module()
    ops = []
    for i, a in enumerate(aliases):
        m = mk_op('DiffMutableOP', 2, alias=a)
        ops.append(m)
        setattr(net, f'o{i}', m)
    mut = NasMutator()
    mut.prepare_from_supernet(net)
    mut.prepare_arch_params()
    groups = mut.search_groups
    expect(set(mut.arch_params) == set(groups), f'{spec}: parameters '
           f'{sorted(mut.arch_params)}')
    for i, g in enumerate(groups):
        ctx.step()
        expect(tuple(mut.arch_params[g].shape) == (2, ), f'{spec} shape')
        mut.arch_params[g].data.copy_(torch.tensor(v[i % len(v)]))
    for i, g in enumerate(groups):
        p = softmax(v[i % len(v)])
        for m in groups[g]:
            y = float(m(torch.ones(1)))
            expect(close(y, p[0] * 2 + p[1] * 3),
                   f'{spec}: member of {g} computes {y}')
    c = mut.sample_choices()
    mut.set_choices(c)
    expect(mut.current_choices == c, f'{spec}: {c}')
    for i, g in enumerate(groups):
        want = 'a' if v[i % len(v)][0] > v[i % len(v)][1] else 'b'
        expect(c[g] == want and
               all(m.current_choice == want for m in groups[g]),
               f'{spec}: {g} derives {c[g]}')
    ctx.state(spec)


def run(ctx):
    top = 4 if ctx.thorough else 3
    vs = [v for n in range(1, top + 1)
          for v in itertools.product(GRID, repeat=n)]
    ctx.parallel('mixture', vs, lambda v: mixture(ctx, v))
    ctx.cases('multi-fix', [(n, c) for n in range(1, 5) for r in range(
        1, n + 1) for c in itertools.combinations(NAMES[:n], r)],
              lambda s: multi_fix(ctx, s))
    ctx.parallel('one-hot', [(v, t) for v in vs if len(v) > 1
                             for t in (0.0, 0.1, 0.3, 0.6, 1.0)],
                 lambda s: onehot(ctx, s))
    ctx.parallel('route', [(v, k, w) for v in vs for k in (1, 2, 3)
                           for w in (False, True)], lambda s: route(ctx, s))
    ctx.parallel('gumbel', [(v, h, t) for v in vs if len(v) > 1
                            for h in (False, True) for t in (0.5, 1.0, 2.0)],
                 lambda s: gumbel(ctx, s))
    al = [a for n in (1, 2, 3) for a in itertools.product((None, 'x', 'y'),
                                                          repeat=n)]
    vv = [(( 1., 0.), (0., 1.)), ((0., 1.), (1., 0.)), ((0., 1.), (0., 2.))]
    ctx.cases('shared', [(a, v) for a in al for v in vv],
              lambda s: shared(ctx, s))
