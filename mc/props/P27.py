"""DCFF: filters fused into fewer ones."""
import copy
import itertools
import math

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import expect

RULE = ('every sequence, up to a depth, of pruning + fusing, changing '
        'weights, saving and loading, copying and exporting, over every '
        'network; every layer shape x temperature x width for the filters '
        'that are fused; non-trivial: a fused layer')
ASSUMPTIONS = ['which filters are kept is compared where their scores '
               'differ clearly; the scores may pool the divergence of two '
               'filters over either of them']


def gen(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed))


class Net(nn.Module):
    """conv1 [dw] conv2 [+ residual conv] conv3, a head."""

    def __init__(self, kinds, k1, k2, bias):
        super().__init__()
        torch.manual_seed(5)
        self.kinds = kinds
        pad = lambda k: tuple(v // 2 for v in k)  # noqa
        self.c1 = nn.Conv2d(3, 6, k1, padding=pad(k1), bias=bias)
        self.b1 = nn.BatchNorm2d(6)
        if 'dw' in kinds:
            self.dw = nn.Conv2d(6, 6, k2, padding=pad(k2), groups=6,
                                bias=bias)
        self.c2 = nn.Conv2d(6, 5, k2, padding=pad(k2), bias=bias)
        self.b2 = nn.BatchNorm2d(5)
        if 'res' in kinds:
            self.r = nn.Conv2d(5, 5, 1, bias=bias)
        self.head = nn.Conv2d(5, 4, 1) if 'conv' in kinds else nn.Linear(5, 4)
        for m in self.modules():
            if isinstance(m, nn.BatchNorm2d):
                m.running_mean.uniform_(-.2, .2)
                m.running_var.uniform_(.5, 2)
                nn.init.uniform_(m.weight, .5, 2)
                nn.init.uniform_(m.bias, -.5, .5)
        self.eval()

    def forward(self, x):
        x = F.relu(self.b1(self.c1(x)))
        if 'dw' in self.kinds:
            x = F.relu(self.dw(x))
        x = F.relu(self.b2(self.c2(x)))
        if 'res' in self.kinds:
            x = x + self.r(x)
        if 'conv' in self.kinds:
            return self.head(x)
        return self.head(x.mean((2, 3)))


# layer -> (who decides its inputs, who decides its outputs)
UNITS = dict(c1=(None, 0), dw=(0, 0), c2=(0, 1), r=(1, 1), head=(1, None))
NETS = {}


def prepared(spec):
    from mmrazor.models.mutators import DCFFChannelMutator
    if spec not in NETS:
        net = Net(*spec)
        mutator = DCFFChannelMutator(
            channel_unit_cfg=dict(type='DCFFChannelUnit',
                                  default_args=dict(choice_mode='number')),
            parse_cfg=dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                           demo_input=(1, 3, 4, 4)))
        mutator.prepare_from_supernet(net)
        net.eval()
        NETS[spec] = net, mutator
    return copy.deepcopy(NETS[spec])


# ---- what is fused ---------------------------------------------------------
def proxies(w, tau):
    w = w.flatten(1).double()
    d = (w[:, None] - w[None]).pow(2).sum(-1).sqrt()
    return torch.softmax(-d / tau, 1)


def kept(p, n, ctx=None):
    """Sets of filters that may be kept (None: not clear)."""
    eps = 1e-7
    log = (p + eps).log()
    out = set()
    for dim in (0, 1):
        # p_ik (log p_ik - mean over the other filter)
        s = (p * (log - log.mean(dim))).mean(1)
        v, i = s.sort(descending=True)
        if n < len(v) and v[n - 1] - v[n] <= 1e-4 * v[n - 1].abs() + 1e-9:
            return None
        out.add(frozenset(i[:n].tolist()))
    return out


def check_choice(choice, w, tau, n, what):
    p = proxies(w, tau)
    expect(choice.shape == (n, len(p)), f'{what}: fuses into {choice.shape}')
    rows = []
    for r in choice.double():
        near = (p - r).abs().max(1)[0]
        twins = [i for i in range(len(p)) if near[i] < 1e-5]
        free = [i for i in twins if i not in rows]
        i = (free or twins or [int(near.argmin())])[0]
        expect(near[i] < 1e-3, f'{what}: {r.tolist()} is no mixture')
        rows.append(i)
    expect(len(set(rows)) == n, f'{what}: uses {rows}')
    ok = kept(p, n)
    expect(ok is None or frozenset(rows) in ok,
           f'{what}: keeps {sorted(rows)}, expected {ok}')


def mixture(m, nin):
    """How the layer mixes its filters, read off unit filters."""
    x = torch.zeros(1, nin, 9, 9)
    x[..., 4, 4] = 1
    m = copy.deepcopy(m)
    cols = []
    with torch.no_grad():
        if m.bias is not None:
            m.bias.zero_()
        for f in range(m.weight.shape[0]):
            m.weight.zero_()
            m.weight[f, 0, 0, 0] = 1
            cols.append(m(x)[0].sum((1, 2)))
    return torch.stack(cols, 1)


def fused(m, choice, nin, nout):
    """Weight and bias of a layer of these widths."""
    w, b = m.weight.detach().double(), m.bias
    b = None if b is None else b.detach().double()
    dw = getattr(m, 'groups', 1) > 1
    full = w.shape[0] if dw else w.shape[1]
    if nin == full and nout == w.shape[0]:
        return w, b
    if not dw:
        w = w[:, :nin]
    if choice is None:
        return w[:nout], None if b is None else b[:nout]
    c = choice.double()
    return torch.einsum('of,f...->o...', c, w), None if b is None else c @ b


def expected(net, widths, choices, x):
    """The pruned network, on its own."""
    def bn(m, x):
        n = x.shape[1]
        return F.batch_norm(
            x, *(t.detach().double()[:n] for t in (
                m.running_mean, m.running_var, m.weight, m.bias)), False)

    def layer(name, x):
        m = getattr(net, name)
        i, o = (None if u is None else widths[u] for u in UNITS[name])
        i = 3 if i is None else i
        o = m.weight.shape[0] if o is None else o
        expect(x.shape[1] == i, 'widths do not fit')
        w, b = fused(m, choices.get(name), i, o)
        if isinstance(m, nn.Linear):
            return F.linear(x, w, b)
        return F.conv2d(x, w, b, padding=m.padding,
                        groups=o if m.groups > 1 else 1)
    x = x.double()
    x = F.relu(bn(net.b1, layer('c1', x)))
    if 'dw' in net.kinds:
        x = F.relu(layer('dw', x))
    x = F.relu(bn(net.b2, layer('c2', x)))
    if 'res' in net.kinds:
        x = x + layer('r', x)
    return layer('head', x if 'conv' in net.kinds else x.mean((2, 3)))


def names(net):
    return [n for n in ('c1', 'dw', 'c2', 'r') if hasattr(net, n)]


def scope_walk(ctx, case):
    spec, ops = case
    net, mutator = prepared(spec)
    expect(len(mutator.mutable_units) == 2, f'{spec}: prunes '
           f'{[u.name for u in mutator.mutable_units]}')
    by = {}
    for u in mutator.mutable_units:
        by[[i for i, n in ((0, 6), (1, 5)) if n == u.num_channels][0]] = u.name
    widths, choices = [6, 5], {}
    x = gen(2, 3, 4, 4)

    def compare(model, what, like=None):
        with torch.no_grad():
            y = model.eval()(x)
        want = expected(like or net, widths, choices, x)
        expect(y.shape == want.shape and torch.allclose(
            y.double(), want, atol=1e-4, rtol=1e-4), lambda:
            f'{case}: {what}: is off by {(y - want).abs().max():.3g}')

    for k, op in enumerate(ops):
        ctx.step()
        what = f'after {ops[:k + 1]}'
        if op[0] == 'prune':
            mutator.set_choices({by[0]: op[1], by[1]: op[2]})
            before = {n: p.clone() for n, p in net.state_dict().items()
                      if 'fuse' not in n}
            mutator.calc_information(op[3])
            widths = [op[1], op[2]]
            for n in names(net):
                m = getattr(net, n)
                i, o = (None if u is None else widths[u] for u in UNITS[n])
                c = mixture(m, i or 3)
                if (i or 3, o) == (m.in_channels, m.out_channels):
                    continue       # nothing is fused
                check_choice(c, m.weight.detach(), op[3], o,
                             f'{case}: {what}: {n}')
                choices[n] = c
            after = net.state_dict()
            expect(all(torch.equal(v, after[n]) for n, v in before.items()),
                   f'{case}: {what}: changed the filters')
        elif op[0] == 'train':
            with torch.no_grad():
                for i, p in enumerate(net.parameters()):
                    p.add_(.1 * gen(*p.shape, seed=i + 31 * k))
        elif op[0] == 'load':
            whole = nn.ModuleList((net, mutator))
            state = copy.deepcopy(whole.state_dict())
            keys = set(state)
            net, mutator = prepared(spec)
            whole = nn.ModuleList((net, mutator))
            if op[1] == 'strict':
                whole.load_state_dict(state)
            else:
                from mmengine.runner.checkpoint import load_state_dict
                load_state_dict(whole, state, strict=False)
            expect(set(state) == keys, f'{case}: {what}: takes entries away')
        elif op[0] == 'copy':
            net, mutator = copy.deepcopy((net, mutator))
        elif op[0] == 'grad':
            # the filters learn through the fused ones
            net.zero_grad()
            net(x).sum().backward()
            m = net.c1
            base = m.weight.detach().clone()
            g, e = m.weight.grad.clone(), 1e-2
            for idx in ((0, 0, 0, 0), (4, 2, 0, 0)):
                s = []
                for sign in (1, -1):
                    with torch.no_grad():
                        m.weight.copy_(base)
                        m.weight[idx] += sign * e
                        s.append(expected(net, widths, choices, x).sum())
                        m.weight.copy_(base)
                num = (s[0] - s[1]) / (2 * e)
                expect(abs(num - g[idx]) < .05 * (1 + abs(num)),
                       f'{case}: {what}: gradient {g[idx]}, expected {num}')
            net.zero_grad()
        compare(net, what)
    export(ctx, case, net, widths, compare)
    ctx.state((spec, ops))


def export(ctx, case, net, widths, compare):
    from mmrazor.structures.subnet import export_fix_subnet, load_fix_subnet
    fixed, static = export_fix_subnet(net, slice_weight=True)
    compare(static, 'exported')
    again = copy.deepcopy(net)
    load_fix_subnet(again, fixed)
    compare(again, 'fixed', net)
    for model in (static, again):
        for n in names(net):
            m = getattr(model, n)
            expect(type(m) is nn.Conv2d and m.out_channels ==
                   widths[UNITS[n][1]] == m.weight.shape[0],
                   f'{case}: {n} is exported as {m}')
    compare(net, 'after the export')
    ctx.step()


def scope_choice(ctx, case):
    """Which filters, mixed how; other orders give the same."""
    cout, shape, tau, n, seed, kind = case
    from mmrazor.models.architectures.dynamic_ops import FuseConv2d
    from mmrazor.models.mutables.mutable_channel.sequential_mutable_channel \
        import SquentialMutableChannel
    conv = FuseConv2d(shape[0], cout, shape[1:])
    mutable = SquentialMutableChannel(cout)
    conv.register_mutable_attr('out_channels', mutable)
    w = gen(cout, *shape, seed=seed) * torch.linspace(.2, 1, cout)[
        torch.randperm(cout, generator=torch.Generator().manual_seed(seed))][
            :, None, None, None]
    if kind == 'equal':
        w[1] = w[0]
    elif kind == 'zero':
        w[0] = 0
    conv.weight.data.copy_(w)
    mutable.current_choice = n
    ctx.step()
    c = conv.get_pooled_channel(tau)
    expect(torch.equal(conv.weight, w), f'{case}: changed the filters')
    expect(not c.requires_grad, f'{case}: the mixture would be trained')
    check_choice(c, w, tau, n, f'{case}')
    expect(((c.sum(1) - 1).abs() < 1e-4).all(), f'{case}: not a mixture')
    if tau <= 1e-3 and kind == 'plain':
        expect(((c - 1).abs() < 1e-3).any(1).all(),
               f'{case}: cold, it still mixes')
    ctx.state(case)


def run(ctx):
    specs = [(kinds, k1, k2, bias)
             for kinds in ((), ('dw', ), ('res', ), ('conv', ),
                           ('dw', 'res'), ('dw', 'res', 'conv'))
             for k1, k2, bias in (((3, 3), (3, 3), True),
                                  ((1, 1), (3, 3), False),
                                  ((1, 3), (3, 1), True))]
    prunes = [('prune', a, b, tau) for a, b in (
        (6, 5), (4, 3), (6, 2), (1, 5)) for tau in (1., .05)]
    steps = [prunes[2], prunes[7], ('train', ), ('load', 'strict'),
             ('load', 'lax'), ('copy', )]
    jobs = []
    for spec in specs:
        jobs += [(spec, (p, )) for p in prunes]
        jobs += [(spec, (p, ('grad', ))) for p in prunes]
        for d in range(1, 4 if ctx.thorough else 3):
            jobs += [(spec, s) for s in itertools.product(steps, repeat=d)]
        jobs += [(spec, (p, s, t)) for p in prunes
                 for s in steps[3:] for t in (('train', ), ('grad', ))]
    for spec in specs:
        prepared(spec)
    ctx.parallel('walk', jobs, lambda c: scope_walk(ctx, c))
    cases = [(cout, shape, tau, n, seed, kind)
             for cout in (2, 3, 5, 8)
             for shape in ((1, 1, 1), (2, 3, 3), (3, 1, 3))
             for tau in (1., .3, .03, 1e-3, 1e-4)
             for n in range(1, cout + 1)
             for seed in range(6 if ctx.thorough else 2)
             for kind in ('plain', 'equal', 'zero')]
    ctx.parallel('choice', cases, lambda c: scope_choice(ctx, c))
