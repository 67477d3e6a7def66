"""Channel mutables: one subset, whatever view and whatever history."""
import itertools

import torch
from torch import nn

from mc.core import Violation, expect
from mc.explore import bfs

RULE = ('every operation history (set each legal choice / fix / fix on a twin '
        'from the dumped choice / refused second fix / refused foreign '
        'choice) up to the depth bound, on every channel-mutable kind and '
        'width in the bound, each step compared with a reference subset; '
        'non-trivial: the history contains at least one choice change')
ASSUMPTIONS = [
    'requested choices are legal ones (1..n, k/n or a declared candidate); '
    'the base mutables do not promise to refuse other numbers',
]


def mods():
    from mmrazor.models.mutables import (OneShotMutableChannel,
                                         SimpleMutableChannel,
                                         SquentialMutableChannel)
    return SimpleMutableChannel, SquentialMutableChannel, OneShotMutableChannel


def prefix(n, k):
    return tuple([True] * k + [False] * (n - k))


def mask_of(m):
    mask = m.current_mask
    expect(mask.dtype == torch.bool, f'mask dtype {mask.dtype}')
    expect(mask.dim() == 1, f'mask shape {tuple(mask.shape)}')
    return tuple(bool(b) for b in mask.tolist())


class Ref:
    """Reference: the subset of channels and whether it is frozen."""

    def __init__(self, n):
        self.subset = (True, ) * n
        self.fixed = False


def kinds(ctx):
    big = 6 if ctx.thorough else 5
    for n in range(1, (5 if ctx.thorough else 4)):
        yield ('simple', n, None)
    for n in range(1, big + 3):
        yield ('seq-number', n, None)
        yield ('seq-ratio', n, None)
    for n in range(1, big + 1):
        for r in range(1, 3):
            for cand in itertools.combinations(range(1, n + 1), r):
                yield ('oneshot-number', n, list(cand))
                yield ('oneshot-ratio', n, list(cand))
        # unsorted declaration order
        if n >= 2:
            yield ('oneshot-number', n, [n, 1])
            yield ('oneshot-ratio', n, [n, 1])


def build(kind, n, cand):
    Simple, Seq, One = mods()
    if kind == 'simple':
        return Simple(n)
    if kind == 'seq-number':
        return Seq(n, choice_mode='number')
    if kind == 'seq-ratio':
        return Seq(n, choice_mode='ratio')
    if kind == 'oneshot-number':
        return One(n, candidate_choices=list(cand), choice_mode='number')
    return One(n, candidate_choices=[c / n for c in cand], choice_mode='ratio')


def menu(kind, n, cand):
    """[(label, request value, resulting subset, reported choice)]"""
    out = []
    if kind == 'simple':
        for bits in itertools.product([False, True], repeat=n):
            if any(bits):
                out.append((bits, torch.tensor(bits), bits, bits))
        return out
    ks = range(1, n + 1) if cand is None else sorted(cand)
    for k in ks:
        if kind.endswith('number'):
            out.append((k, k, prefix(n, k), k))
        else:
            out.append((k, k / n, prefix(n, k), k / n))
    return out


def same_choice(got, want):
    if isinstance(want, tuple):
        return torch.is_tensor(got) and tuple(
            bool(b) for b in got.tolist()) == want
    if isinstance(want, float):
        return isinstance(got, (int, float)) and abs(got - want) < 1e-9
    return got == want


def check_views(m, ref, n, kind, hist):
    got = mask_of(m)
    expect(got == ref.subset,
           lambda: f'{kind}({n}) after {hist}: mask {got}, expected '
           f'{ref.subset}')
    expect(m.activated_channels == sum(ref.subset),
           lambda: f'{kind}({n}) after {hist}: activated_channels='
           f'{m.activated_channels}, subset has {sum(ref.subset)}')
    ch = m.current_choice
    if kind == 'simple':
        want = ref.subset
    elif kind.endswith('number'):
        want = sum(ref.subset)
    else:
        want = sum(ref.subset) / n
    expect(same_choice(ch, want),
           lambda: f'{kind}({n}) after {hist}: reports choice {ch}, subset '
           f'says {want}')
    expect(m.is_fixed == ref.fixed,
           lambda: f'{kind}({n}) after {hist}: is_fixed={m.is_fixed}')
    expect(m.num_channels == n, 'num_channels changed')


def run_kind(ctx, spec):
    kind, n, cand = spec
    acts = menu(kind, n, cand)
    ops = [('set', i) for i in range(len(acts))] + [('fix', ), ('twin', ),
                                                    ('foreign', )]
    depth = 3 if len(acts) <= 8 else 2
    if ctx.thorough:
        depth += 1

    class World:

        def __init__(self):
            self.m = build(kind, n, cand)
            self.other = build(kind, n, cand)
            self.ref = Ref(n)
            self.hist = ()

    def apply(w, op):
        w.hist += (op, )
        if op[0] == 'set':
            label, req, subset, _ = acts[op[1]]
            if w.ref.fixed:
                return
            w.m.current_choice = req
            w.ref.subset = tuple(subset)
            # what is reported can be requested again, to no effect
            rep = w.m.current_choice
            w.m.current_choice = rep.clone() if torch.is_tensor(rep) else rep
        elif op[0] == 'fix':
            if w.ref.fixed:
                try:
                    w.m.fix_chosen()
                except Exception:
                    return
                raise Violation(f'{kind}({n}): a fixed mutable was fixed '
                                f'again without complaint, {w.hist}')
            if cand is not None and sum(w.ref.subset) not in cand:
                return  # still at full width, which is not a candidate
            w.m.fix_chosen()
            w.ref.fixed = True
        elif op[0] == 'twin':
            twin = build(kind, n, cand)
            dumped = w.m.dump_chosen().chosen
            expect(dumped == sum(w.ref.subset),
                   f'{kind}({n}) dumps {dumped} for {w.ref.subset}')
            if kind != 'simple' and (cand is None or dumped in cand):
                twin.fix_chosen(dumped)
                t = Ref(n)
                t.subset, t.fixed = w.ref.subset, True
                check_views(twin, t, n, kind, ('twin', ) + w.hist)
        elif op[0] == 'foreign':
            # a candidate list is binding
            if cand is None or w.ref.fixed:
                return
            for k in range(1, n + 1):
                if k in cand:
                    continue
                req = k if kind.endswith('number') else k / n
                try:
                    w.m.current_choice = req
                except Exception:
                    continue
                raise Violation(f'{kind}({n}) accepted {req}, not one of its '
                                f'candidates {cand}')

    def check(w, hist):
        check_views(w.m, w.ref, n, kind, hist)
        r = Ref(n)
        check_views(w.other, r, n, kind, ('bystander', ) + tuple(hist))

    def canon(w):
        return (w.ref.subset, w.ref.fixed)

    bfs(ctx, World, lambda w: ops, apply, canon, check, depth)


def sharing(ctx, spec):
    """Creation histories: instances never share their choices."""
    Simple, Seq, One = mods()
    order, explicit = spec
    made = []
    decl = [1, 3] if explicit else None
    keep = list(decl) if decl else None
    for n in order:
        ctx.step()
        if explicit:
            made.append((n, One(n, candidate_choices=decl)))
        else:
            made.append((n, One(n)))
        ctx.state((spec, tuple(tuple(m.candidate_choices) for _, m in made)))
    if explicit:
        expect(decl == keep, f'declared list changed to {decl}')
    for i, (n, m) in enumerate(made):
        if not explicit:
            expect(list(m.candidate_choices) == [n],
                   f'{order}: instance {i} of width {n} got candidates '
                   f'{m.candidate_choices}', 'oneshot-default-shared')
            m.current_choice = n
            expect(mask_of(m) == prefix(n, n), 'full width')
        m.current_choice = m.candidate_choices[0]
        for j, (n2, m2) in enumerate(made):
            if j > i:
                expect(mask_of(m2) == prefix(n2, n2),
                       f'setting {i} moved {j} in {order}')


def ratio_roundtrip(ctx, n):
    """Every width k of n channels survives report -> request (ratio mode)."""
    Simple, Seq, One = mods()
    from mmrazor.models.mutables import (OneShotMutableChannelUnit,
                                         SequentialMutableChannelUnit)
    m = Seq(n, choice_mode='ratio')
    u = SequentialMutableChannelUnit(n, choice_mode='ratio')
    for k in range(1, n + 1):
        ctx.step(2)
        ctx.state((n, k))
        m.current_choice = k
        m.current_choice = m.current_choice
        expect(m.activated_channels == k,
               f'a {n}-channel mutable at {k} channels reports '
               f'{k / n!r}; requesting that gives {m.activated_channels}',
               'ratio-roundtrip')
        u.current_choice = k / n
        expect(u.current_choice == k / n and
               u.mutable_channel.activated_channels == k,
               f'unit of {n} channels asked for {k}/{n} gives '
               f'{u.mutable_channel.activated_channels}', 'ratio-roundtrip')
        o = OneShotMutableChannelUnit(n, [k / n, 1.0], choice_mode='ratio')
        for c, want in ((k / n, k), (1.0, n)):
            o.current_choice = c
            expect(o.mutable_channel.activated_channels == want,
                   f'one-shot unit of {n} channels at {c}',
                   'ratio-roundtrip')


def divisible(ctx, spec):
    """Rounding widths: divisible, not below the floor, never a big drop."""
    from mmrazor.models.utils import make_divisible
    d, lo = spec
    for v in range(1, 130 if ctx.thorough else 70):
        for ratio in (0.9, 0.75):
            ctx.step()
            r = make_divisible(v, d, lo, ratio)
            ctx.state((d, lo, v, ratio, r))
            floor = max(lo or d, d)
            expect(r >= floor, f'make_divisible({v},{d},{lo})={r} < {floor}')
            if r > floor or floor % d == 0:
                expect(r % d == 0, f'make_divisible({v},{d},{lo})={r}')
            expect(r >= ratio * v, f'make_divisible({v},{d},{lo},{ratio})={r}')
            expect(r - max(v, floor) < d,
                   f'make_divisible({v},{d},{lo},{ratio})={r} overshoots')
            # nearest multiple unless the floor or the drop rule applies
            near = (2 * v + d) // (2 * d) * d
            if near >= floor and near >= ratio * v:
                expect(r == near, f'make_divisible({v},{d},{lo},{ratio})={r},'
                       f' nearest multiple is {near}')


def unit_divisor(ctx, spec):
    """Channel units round every requested width to a legal one and report
    what is really active; what is sampled is what gets active."""
    from mc.explore import explore_choices, own_random
    from mmrazor.models.mutables import SequentialMutableChannelUnit
    n, d, mode = spec
    for k in range(1, n + 1):
        for req in ([k] if mode == 'number' else [k / n]):
            ctx.step()
            u = SequentialMutableChannelUnit(
                n, choice_mode=mode, divisor=d, min_value=d)
            u.current_choice = req
            act = u.mutable_channel.activated_channels
            ctx.state((spec, k, act))
            expect(act % d == 0 and 0 < act <= n,
                   f'unit(n={n}, divisor={d}) at {req} has {act} channels')
            want = act if mode == 'number' else act / n
            expect(abs(u.current_choice - want) < 1e-9,
                   f'reports {u.current_choice}, active {act}')
            expect(abs(act - k) < d, f'{req} became {act}')

    def one(ch):
        u = SequentialMutableChannelUnit(
            n, choice_mode=mode, divisor=d, min_value=d)
        with own_random(ch):
            s = u.sample_choice()
        u.current_choice = s
        expect(abs(u.current_choice - s) < 1e-9,
               f'unit(n={n}, divisor={d}, {mode}) sampled {s}, set, reports '
               f'{u.current_choice}')
        expect(u.mutable_channel.activated_channels % d == 0, 'not divisible')
        return u.mutable_channel.activated_channels

    seen = set()
    for ch, act in explore_choices(one):
        ctx.step()
        seen.add(act)
        ctx.state((spec, 'sampled', act))
    expect(seen == set(range(d, n + 1, d)),
           f'sampling unit(n={n}, divisor={d}) can reach {sorted(seen)}')


class Split(nn.Module):
    """Units over whole layers, layer ranges and several layers."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        lin = kind == 'linear'
        mk = (lambda i, o: nn.Linear(i, o)) if lin else \
            (lambda i, o: nn.Conv2d(i, o, 1))
        n = 4
        if kind == 'ranges':
            self.a, self.b, self.c = mk(3, 2), mk(3, 2), mk(3, 4)
        elif kind == 'sum':
            self.a, self.b = mk(3, n), mk(3, n)
        else:
            self.a = mk(3, n)
        self.head = mk(n, 2)

    def forward(self, x):
        if self.kind == 'ranges':
            return self.head(torch.cat([self.a(x), self.b(x)], 1) + self.c(x))
        if self.kind == 'sum':
            return self.head(self.a(x) + self.b(x))
        return self.head(self.a(x))


def magnitude(ctx, spec):
    """Magnitude units keep the largest channels, and exactly as many as
    asked, for every magnitude pattern (ties included)."""
    from mmrazor.models.mutators import ChannelMutator
    kind, mode, pats = spec
    net = Split(kind)
    mut = ChannelMutator(
        channel_unit_cfg=dict(type='L1MutableChannelUnit',
                              default_args=dict(choice_mode=mode)),
        parse_cfg=dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                       demo_input=(1, 3) if kind == 'linear' else
                       (1, 3, 2, 2)))
    mut.prepare_from_supernet(net)
    outs = [m for m in (net.a, getattr(net, 'b', None),
                        getattr(net, 'c', None)) if m is not None]
    for pat in pats:
        it = iter(pat)
        with torch.no_grad():
            for m in outs:
                for i in range(m.weight.size(0)):
                    m.weight[i] = next(it, 1.) * (-1.)**i
        for unit in mut.mutable_units:
            norm = 0.
            rel = [c for c in unit.output_related
                   if isinstance(c.module, (nn.Conv2d, nn.Linear))]
            for c in rel:
                norm = norm + c.module.weight.detach().flatten(1).abs().mean(
                    1)[c.start:c.end]
            n = unit.num_channels
            for other in mut.mutable_units:
                other.current_choice = other.num_channels if \
                    mode == 'number' else 1.0
            for k in list(range(n, 0, -1)) + [n]:
                ctx.step()
                unit.current_choice = k if mode == 'number' else k / n
                mask = unit.mutable_channel.current_mask.bool()
                expect(int(mask.sum()) == k and abs(
                    unit.current_choice -
                    (k if mode == 'number' else k / n)) < 1e-9,
                       f'{kind}: magnitudes {pat}: asked for {k} channels, '
                       f'got {mask.tolist()}, reports {unit.current_choice}',
                       'magnitude-width')
                keep, drop = norm[mask], norm[~mask]
                expect(len(drop) == 0 or
                       float(keep.min()) >= float(drop.max()) - 1e-6,
                       f'{kind}: norms {norm.tolist()}: kept {mask.tolist()}',
                       'magnitude-order')
                for other in mut.mutable_units:
                    if other is not unit:
                        expect(bool(other.mutable_channel.current_mask.all()),
                               f'{kind}: choosing {unit.name} moved '
                               f'{other.name}', 'magnitude-bystander')
                ctx.state((kind, mode, pat, unit.name, k))


def magnitudes(ctx):
    for kind, n in (('conv', 4), ('linear', 4), ('sum', 8), ('ranges', 8)):
        vals = (0., 1., 2.) if n == 4 else (0., 1.)
        pats = list(itertools.product(vals, repeat=n))
        for mode in ('number', 'ratio'):
            for i in range(4):
                yield kind, mode, tuple(pats[i::4])


def run(ctx):
    ctx.parallel('magnitude', magnitudes(ctx), lambda s: magnitude(ctx, s))
    ctx.parallel('histories', list(kinds(ctx)), lambda s: run_kind(ctx, s))
    orders = [o for r in (1, 2, 3) for o in itertools.product(
        (2, 3, 4), repeat=r)]
    ctx.cases('instances', [(o, False) for o in orders] +
              [(o, True) for o in orders if min(o) >= 3],
              lambda s: sharing(ctx, s))
    top = 640 if ctx.thorough else 200
    ctx.parallel('ratio-roundtrip', range(1, top + 1),
                 lambda n: ratio_roundtrip(ctx, n))
    ctx.cases('divisible', [(d, lo) for d in (1, 2, 3, 4, 8, 16)
                            for lo in (None, d, 2 * d)],
              lambda s: divisible(ctx, s))
    ctx.parallel('unit-rounding', [
        (n, d, mode) for d in (1, 2, 4) for n in range(d, 17, d)
        for mode in ('number', 'ratio')
    ], lambda s: unit_divisor(ctx, s))
