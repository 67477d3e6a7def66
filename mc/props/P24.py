"""Widening a network keeps what it computes."""
import copy
import itertools

import torch
from torch import nn

from mc import archs
from mc.core import expect
from mc.props import P09

RULE = ('every net of the grammar x growth pattern or divisor; every layer '
        'x pair of masks; non-trivial: a widened network or layer')
ASSUMPTIONS = ['outputs are compared with a tolerance of 1e-4']


def gen(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed))


def close(got, want, what):
    expect(len(got) == len(want), f'{what}: {len(got)} outputs')
    for a, b in zip(got, want):
        expect(a.shape == b.shape and
               torch.allclose(a, b, rtol=1e-4, atol=1e-4),
               lambda: f'{what}: computes something else '
               f'(by {(a - b).abs().max():.3g})')


def outs(net, x, training):
    net = copy.deepcopy(net).train(training)
    with torch.no_grad():
        torch.manual_seed(3)
        return archs.flat(net(x))


def widths(net):
    return {(n, s): v for n, m in net.named_modules()
            if isinstance(m, (nn.Conv2d, nn.Linear, nn.BatchNorm2d))
            for s, v in zip(('out', 'in'), dims(m))}


def dims(m):
    if isinstance(m, nn.BatchNorm2d):
        return m.num_features, m.num_features
    if isinstance(m, nn.Linear):
        return m.out_features, m.in_features
    return m.out_channels, m.in_channels


def network(prog, head):
    """The network; norms after the first have no parameters."""
    net = archs.Net(prog, head)
    seen = 0
    for k, m in list(net.mods.items()):
        if isinstance(m, nn.BatchNorm2d):
            if seen:
                new = nn.BatchNorm2d(m.num_features, affine=False)
                new.running_mean.copy_(m.running_mean)
                new.running_var.copy_(m.running_var)
                net.mods[k] = new
            seen += 1
    return net


def units_of(net):
    """name -> {(module, side): how many of its channels}"""
    from mmrazor.models.mutators import ChannelMutator
    from mmrazor.models.utils.expandable_utils.unit import ExpandableUnit
    mut = ChannelMutator(
        channel_unit_cfg=ExpandableUnit,
        parse_cfg=dict(_scope_='mmrazor', type='ChannelAnalyzer',
                       demo_input=(1, 3, 3, 3), tracer_type='FxTracer'))
    net = copy.deepcopy(net)
    mut.prepare_from_supernet(net)
    out = {}
    for u in mut.mutable_units:
        u.mutable_channel.mask.zero_()
        out[u.name] = u.num_channels, {
            k: m.count(False) for k, m in P09.masks(net).items()
            if not all(m)}
        u.mutable_channel.mask.fill_(1)
    return out


def same_flags(a, b, what):
    for (n, p), (_, q) in zip(a.named_parameters(), b.named_parameters()):
        expect(p.requires_grad == q.requires_grad, f'{what}: {n} is '
               f'{"" if p.requires_grad else "no longer "}trained')


def scope_static(ctx, case):
    """expand_static_model on every network and growth."""
    from mmrazor.models.utils.expandable_utils import expand_static_model
    (prog, head), pattern = case
    src = network(prog, head)
    units = units_of(src)
    names = sorted(units)
    grow = {n: pattern[i % len(pattern)] for i, n in enumerate(names)}
    x = gen(2, 3, 3, 3, seed=1)
    net = copy.deepcopy(src)
    ret = expand_static_model(
        net, {n: units[n][0] + g for n, g in grow.items() if g},
        zero_weight=True)
    ctx.step()
    what = f'{case}, growing {grow}'
    expect(ret is net, f'{what}: another model is returned')
    check_plain(net, what)
    check_widths(src, net, units, grow, what)
    for training in (False, True):
        close(outs(net, x, training), outs(src, x, training),
              f'{what}, training {training}')
    ctx.state((case, tuple(sorted(widths(net).items()))))


def check_plain(net, what):
    from mmrazor.models.architectures.dynamic_ops import DynamicMixin
    for n, m in net.named_modules():
        expect(not isinstance(m, DynamicMixin), f'{what}: {n} is searchable')
    for n, m in net.named_modules():
        if isinstance(m, nn.Conv2d):
            expect(m.weight.shape[:2] == (m.out_channels,
                                          m.in_channels // m.groups),
                   f'{what}: weight of {n} {tuple(m.weight.shape)}')


def check_widths(src, net, units, grow, what):
    want = widths(src)
    for n, (c, where) in units.items():
        for k, v in where.items():
            want[k] += grow[n] * v // c
    got = widths(net)
    for k, v in want.items():
        expect(got[k] == v, f'{what}: {k} has {got[k]} channels, expected '
               f'{v}')


def scope_divisible(ctx, case):
    from mmrazor.models.utils.expandable_utils import make_channel_divisible
    (prog, head), divisor, zero = case
    src = network(prog, head)
    units = units_of(src)
    x = gen(2, 3, 3, 3, seed=1)
    net = copy.deepcopy(src)
    torch.manual_seed(9)
    got = make_channel_divisible(net, divisor, zero_weight=zero)
    ctx.step()
    what = f'{case}'
    grow = {n: -c % divisor for n, (c, _) in units.items()}
    check_plain(net, what)
    check_widths(src, net, units, grow, what)
    want = {n: c + grow[n] for n, (c, _) in units.items()}
    expect(sorted(got.values()) == sorted(want.values()),
           f'{what}: reports {got}, expected {want}')
    if zero:
        for training in (False, True):
            close(outs(net, x, training), outs(src, x, training),
                  f'{what}, training {training}')
    old = dict(src.named_parameters())
    for n, p in net.named_parameters():
        # the trained weights are all still there
        a = sorted(old[n].flatten().tolist())
        b = p.flatten().tolist()
        expect(set(a) <= set(b), f'{what}: {n} lost trained weights')
    ctx.state(case)


def scope_op(ctx, case):
    """One layer, any masks."""
    from mmrazor.models.architectures.dynamic_ops import DynamicLinear  # noqa
    from mmrazor.models.mutables import SimpleMutableChannel
    from mmrazor.models.utils.expandable_utils.ops import (
        ExpandableBatchNorm2d, ExpandableConv2d, ExpandLinear)
    kind, mi, mo, flag, zero = case
    ci, co = sum(mi), sum(mo)
    torch.manual_seed(1)
    if kind == 'linear':
        src = nn.Linear(ci, co, bias=flag)
        cls = ExpandLinear
    elif kind == 'bn':
        src = nn.BatchNorm2d(ci, affine=flag, eps=.1, momentum=.3)
        cls = ExpandableBatchNorm2d
        src.running_mean.normal_()
        src.running_var.uniform_(.5, 2)
        if flag:
            src.weight.data.normal_()
            src.bias.data.normal_()
    elif kind == 'dw':
        src = nn.Conv2d(ci, ci, 3, padding=2, stride=2, dilation=2,
                        groups=ci, bias=flag)
        cls = ExpandableConv2d
    else:
        src = nn.Conv2d(ci, co, (3, 1), padding=(2, 1), stride=(1, 2),
                        dilation=(2, 1), bias=flag)
        cls = ExpandableConv2d
    op = cls.convert_from(src)
    op.load_state_dict(src.state_dict(), strict=False)
    for side, m in (('in_channels', mi), ('out_channels', mo)):
        mu = SimpleMutableChannel(sum(m))
        op.register_mutable_attr(side, mu)
        mu.mask = torch.tensor(m).float()
    ctx.step()
    new = op.expand(zero=zero)
    expect(type(new) is type(src), f'{case}: {type(new)}')
    shape = (2, ci) if kind == 'linear' else (2, ci, 4, 4)
    x = gen(*shape, seed=2)
    big = gen(2, len(mi), *shape[2:], seed=3)
    bi, bo = torch.tensor(mi).bool(), torch.tensor(mo).bool()
    big[:, bi] = x
    if not zero:       # new inputs carry nothing
        big[:, ~bi] = 0
    for training in (False, True):
        with torch.no_grad():
            want = src.train(training)(x)
            got = new.train(training)(big)
        close((got[:, bo], ), (want, ), f'{case}, training {training}')
        if zero and (kind != 'bn' or flag):
            expect(not got[:, ~bo].any(), f'{case}: new channels carry '
                   'something')
    ctx.state(case)


STEPS = tuple(s for s in archs.MORE if s != 'drop')


def run(ctx):
    nets = [(p, h) for p in archs.programs(1, STEPS)
            for h in archs.HEADS if h != 'flat']
    for i, p in enumerate(archs.programs(2, STEPS, exact=True)):
        hs = [h for h in archs.HEADS if h != 'flat']
        nets += [(p, h) for h in (hs if ctx.thorough else [hs[i % 5]])]
    nets = [n for n in nets if 'gw' not in n[0]]
    cases = [(n, g) for i, n in enumerate(nets) for j, g in enumerate(
        ((1, ), (2, 0), (0, 1), (3, 1, 2), (0, 0, 1)))
        if ctx.thorough or (i + j) % (2 if len(n[0]) < 2 else 8) == 0]
    ctx.parallel('static', cases, lambda c: scope_static(ctx, c))
    cases = [(n, d, z) for i, n in enumerate(nets) for d in (1, 2, 3, 5, 8)
             for z in (True, False)
             if ctx.thorough or (i + d + z) % (5 if len(n[0]) < 2 else 11) == 0]
    ctx.parallel('divisible', cases, lambda c: scope_divisible(ctx, c))
    ms = [m for n in range(1, 6 if ctx.thorough else 4)
          for m in itertools.product((0, 1), repeat=n) if any(m)]
    ops = []
    for f, z in itertools.product((True, False), repeat=2):
        ops += [(k, m, m, f, z) for k in ('bn', 'dw') for m in ms]
        ops += [(k, a, b, f, z) for k in ('conv', 'linear')
                for a in ms for b in ms]
    ctx.parallel('op', ops, lambda c: scope_op(ctx, c))
