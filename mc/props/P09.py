"""Channel analysis: what must be cut together is cut together."""
import copy
import itertools

import torch

from mc import archs
from mc.core import expect

RULE = ('every small network in the program grammar (plain, grouped and '
        'depthwise convolutions, batch and group norm, residual, gated, '
        'concatenated and shared branches; six heads) up to the depth bound, '
        'traced by both tracers; the tied channels are compared with a '
        'union-find over the meaning of the steps, then every width '
        'assignment in the bound is run and compared with the unpruned '
        'network with the dropped channels zeroed; non-trivial: at least one '
        'width below the maximum')
ASSUMPTIONS = [
    'widths are assigned from {1, middle, full}; for more than 81 '
    'assignments at most two units deviate from full',
    'evaluation mode; equality within 1e-4',
    'the analysis may leave channels unsearchable (keep them) when a sum is '
    'an operand of a concatenation and the backward tracer is used',
]


def mutator(tracer, unit='SequentialMutableChannelUnit', **kw):
    from mmrazor.models.mutators import ChannelMutator
    return ChannelMutator(
        dict(type=unit, **kw),
        parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 3, 3),
                       tracer_type=tracer))


def masks(net):
    """{(module, side): mask} of every searchable layer."""
    from mmrazor.models.architectures.dynamic_ops import DynamicChannelMixin
    out = {}
    for name, m in net.named_modules():
        if isinstance(m, DynamicChannelMixin):
            for side in ('in', 'out'):
                mu = m.get_mutable_attr(side + '_channels')
                if mu is not None:
                    out[name, side] = mu.current_mask.bool().tolist()
    return out


def full(mut):
    for u in mut.mutable_units:
        u.current_choice = u.num_channels


def observe(net, mut):
    """{(module, side, i): (unit, position)} from how the masks react."""
    full(mut)
    for k, m in masks(net).items():
        expect(all(m), f'{k} has dropped channels at full width: {m}')
    where = {}
    for ui, u in enumerate(mut.mutable_units):
        seen = {}
        for c in range(u.num_channels, 0, -1):
            u.current_choice = c
            for (name, side), m in masks(net).items():
                for i, b in enumerate(m):
                    if not b and (name, side, i) not in seen:
                        seen[name, side, i] = c
        for s, c in seen.items():
            expect(s not in where, f'{s} reacts to two units')
            where[s] = (ui, c)
        u.current_choice = u.num_channels
    return where


def assignments(units):
    per = [sorted({1, (u.num_channels + 1) // 2, u.num_channels})
           for u in units]
    n = 1
    for p in per:
        n *= len(p)
    if n <= 81:
        yield from itertools.product(*per)
        return
    top = [u.num_channels for u in units]
    yield tuple(top)
    yield tuple(p[0] for p in per)
    for r in (1, 2):
        for idx in itertools.combinations(range(len(units)), r):
            for vals in itertools.product(*[per[i][:-1] for i in idx]):
                a = list(top)
                for i, v in zip(idx, vals):
                    a[i] = v
                yield tuple(a)


def check_classes(net, cls, where, msg):
    """Same classes; positions 0 always stay (never dropped)."""
    groups_ref, groups_obs = {}, {}
    for s, c in cls.items():
        groups_ref.setdefault(c, set()).add(s)
    for s, w in where.items():
        expect(s in cls, f'{msg}: {s} is not a layer channel')
        groups_obs.setdefault(w, set()).add(s)
    for w, ss in groups_obs.items():
        c = {cls[s] for s in ss}
        expect(c != {None} and None not in c,
               lambda: f'{msg}: {sorted(s for s in ss if cls[s] is None)[:3]} '
               'must stay but can be dropped')
        expect(len(c) == 1, lambda: f'{msg}: {sorted(ss)} are dropped '
               'together although independent')
        r = groups_ref[c.pop()]
        expect(ss == r, lambda: f'{msg}: {sorted(r - ss)} must be dropped '
               f'together with {sorted(ss)[:2]}')


def expected_units(cls):
    """Number of independently searchable classes (first of a unit stays)."""
    return {c for c in cls.values() if c is not None}


def complete(spec):
    """Whether every independent channel must be found."""
    prog, head, tracer = spec
    if 'cat' in prog and 'gw' in prog[prog.index('cat'):]:
        return False     # may tie everything into one (frozen) channel
    added = False
    for op in prog + (head, ):
        if op == 'cat' and added and tracer == 'BackwardTracer':
            return False
        if op in ('res', 'res2', 'gate', 'share', 'catres'):
            added = True
        elif op in ('conv', 'cbr', 'gw', 'cat', 'cat2'):
            added = False
    return True


def run_one(ctx, spec):
    prog, head, tracer = spec
    net = archs.Net(prog, head).eval()
    ref = copy.deepcopy(net)
    cls = archs.classes(ref)
    mut = mutator(tracer)
    state = {k: v.clone() for k, v in ref.state_dict().items()}
    mut.prepare_from_supernet(net)
    # layers were replaced by searchable twins: hand the weights back
    miss = net.load_state_dict(state, strict=False)
    expect(not [k for k in miss.unexpected_keys],
           f'{spec}: lost parameters {miss.unexpected_keys}')
    net.eval()
    units = list(mut.mutable_units)
    where = observe(net, mut)
    ctx.step()
    check_classes(net, cls, where, f'{spec}')
    # completeness: the prunable classes are exactly the reference ones.
    # position 0 of each unit is never dropped; recover it per unit.
    want = len(expected_units(cls))
    have = sum(u.num_channels for u in units)
    expect(have <= want and (have == want or not complete(spec)),
           f'{spec}: {have} searchable channel positions, {want} expected')
    x = torch.randn(2, 3, 3, 3, generator=torch.Generator().manual_seed(5))
    with torch.no_grad():
        y0 = archs.flat(ref(x))
        y1 = archs.flat(net(x))
    for a, b in zip(y0, y1):
        expect(torch.allclose(a, b, atol=1e-4), f'{spec}: full width differs')
    for a in assignments(units):
        ctx.step()
        for u, c in zip(units, a):
            u.current_choice = c
        dropped = {s for s, (ui, pos) in where.items() if pos >= a[ui]}
        for (name, side), m in masks(net).items():
            exp = [(name, side, i) not in dropped for i in range(len(m))]
            expect(m == exp, lambda: f'{spec} widths {a}: {name}.{side} mask '
                   f'{m}, expected {exp}')
        for u, c in zip(units, a):
            expect(u.current_choice == c, f'{spec}: unit {u.name} reports '
                   f'{u.current_choice} instead of {c}')

        def keep(name):
            m = masks(net).get((name, 'out'))
            return m

        want_y = archs.flat(archs.masked(ref, keep, x))
        with torch.no_grad():
            got = archs.flat(net(x))
        for p, q in zip(got, want_y):
            expect(p.shape == q.shape and torch.allclose(p, q, atol=1e-4),
                   lambda: f'{spec} widths {a}: the pruned network computes '
                   'something else than the masked one')
        ctx.state((spec, a))
    # going back restores the original function
    full(mut)
    with torch.no_grad():
        for p, q in zip(archs.flat(net(x)), y0):
            expect(torch.allclose(p, q, atol=1e-4),
                   f'{spec}: not restored at full width')


def specs(ctx):
    for tracer in ('BackwardTracer', 'FxTracer'):
        for prog in archs.programs(2):
            if len(prog) < 2 or ctx.thorough:
                heads = archs.HEADS
            else:
                heads = (archs.HEADS[hash_(prog) % len(archs.HEADS)], )
            for h in heads:
                yield prog, h, tracer
        for i, prog in enumerate(archs.programs(2, archs.MORE)):
            if prog and prog[-1] in archs.STEPS and prog[0] in archs.STEPS:
                continue
            # a layer feeding itself cannot be seen from the gradients
            if 'twice' in prog and tracer == 'BackwardTracer':
                continue
            if ctx.thorough or len(prog) < 2 or prog[1:] == ('trio', ) and \
                    i % 3 == 0:
                yield prog, archs.HEADS[hash_(prog) % len(archs.HEADS)], tracer
        if ctx.thorough:
            for prog in archs.programs(3, exact=True):
                yield prog, archs.HEADS[hash_(prog) % len(archs.HEADS)], tracer


def hash_(prog):
    return sum((i + 1) * archs.MORE.index(o) for i, o in enumerate(prog))


def run(ctx):
    ctx.parallel('analysis', list(specs(ctx)), lambda s: run_one(ctx, s))
