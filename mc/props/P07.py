"""A dynamic layer behaves as the layer cut down to its kept channels."""
import copy
import itertools

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import Violation, expect

RULE = ('every layer configuration (dense / grouped / depthwise, bias, '
        'stride, padding, dilation, kernel candidates; affine / tracking / '
        'momentum; linear; layer norm) x every pair of kept-channel subsets '
        'of its small dimensions x every kernel candidate, forward and '
        'static export against a hand-cut plain layer; for batch norm every '
        'sequence of (subset, train/eval) steps up to the depth bound; '
        'non-trivial: at least one subset is proper')
ASSUMPTIONS = [
    'grouped convolutions keep the same number of channels per group',
    'inputs are fixed pseudo-random tensors; equality within 1e-5',
]

GEN = torch.Generator().manual_seed(7)


def rand(*shape):
    return torch.randn(*shape, generator=GEN)


def subsets(n, proper=False):
    for b in itertools.product((True, False), repeat=n):
        if any(b):
            yield b


def mutable(bits, seq=False):
    """A mutable whose mask is ``bits``."""
    from mmrazor.models.mutables import (MutableChannelContainer,
                                         SimpleMutableChannel)
    n = len(bits)
    m = SimpleMutableChannel(n)
    m.current_choice = torch.tensor(bits)
    if seq:
        c = MutableChannelContainer(n)
        c.register_mutable(m, 0, n)
        return c, m
    return m, m


def same(a, b, msg):
    expect(a.shape == b.shape and torch.allclose(a, b, atol=1e-5, rtol=1e-4),
           lambda: f'{msg}: shapes {tuple(a.shape)} / {tuple(b.shape)}'
           + (f', max difference {(a - b).abs().max():.4g}'
              if a.shape == b.shape else ''))


def frozen(layer):
    return {k: v.clone() for k, v in layer.state_dict().items()}


def unchanged(layer, before, msg):
    for k, v in layer.state_dict().items():
        if k in before and not k.startswith('mutable_attrs.'):
            expect(torch.equal(v, before[k]), f'{msg}: {k} changed')


def export(layer, fixes, msg):
    """Exporting needs fixed mutables; afterwards gives a plain layer."""
    if fixes:
        try:
            layer.to_static_op()
        except Exception:
            pass
        else:
            raise Violation(f'{msg}: exported although nothing is fixed')
    for m in fixes:
        if hasattr(m, 'num_channels'):
            m.fix_chosen()
        else:
            m.fix_chosen(m.current_choice)
    return layer.to_static_op()


def ops():
    from mmrazor.models.architectures import dynamic_ops
    return dynamic_ops


# ---- convolutions ----------------------------------------------------
def conv(ctx, spec):
    kind, groups, cin, cout, k, stride, pad, dil, bias = spec[:9]
    in_bits, out_bits, wrapped = spec[9:]
    D = getattr(ops(), kind)
    src = nn.Conv2d(cin, cout, k, stride=stride, padding=pad, dilation=dil,
                    groups=groups, bias=bias)
    layer = D.convert_from(src)
    layer.load_state_dict(src.state_dict(), strict=False)
    ctx.step()
    x_full = rand(2, cin, 6, 5)
    same(layer(x_full), src(x_full), f'{spec}: nothing mutable')
    fixes = []
    if in_bits is not None:
        mi, si = mutable(in_bits, wrapped)
        layer.register_mutable_attr('in_channels', mi)
        fixes.append(si)
        expect(layer.get_mutable_attr('in_channels') is mi, 'lookup')
    if out_bits is not None:
        if groups == cin == cout and in_bits is not None and groups > 1:
            mo = mi
        else:
            mo, so = mutable(out_bits, wrapped)
            fixes.append(so)
        layer.register_mutable_attr('out_channels', mo)
    ib = torch.tensor(in_bits if in_bits is not None else (True, ) * cin)
    ob = torch.tensor(out_bits if out_bits is not None else (True, ) * cout)
    before = frozen(layer)
    x = x_full[:, ib]
    w, b = src.weight.detach(), src.bias.detach() if bias else None
    # reference: dense weight of the group structure, cut by hand
    if groups == 1:
        wr, g = w[ob][:, ib], 1
    elif groups == cin == cout:
        wr, g = w[ob], int(ib.sum())
    else:
        rows = []
        ipg = cin // groups
        opg = cout // groups
        for o in range(cout):
            if not ob[o]:
                continue
            gi = o // opg
            keep = ib[gi * ipg:(gi + 1) * ipg]
            rows.append(w[o][keep])
        wr, g = torch.stack(rows), groups
    br = b[ob] if bias else None
    y_ref = F.conv2d(x, wr, br, (stride, stride), (pad, pad), (dil, dil), g)
    y = layer(x)
    same(y.detach(), y_ref, f'{spec}: dynamic forward')
    unchanged(layer, before, f'{spec}: forward')
    wrapped_fix = [] if wrapped else fixes
    static = export(layer, wrapped_fix, f'{spec}')
    expect(type(static) is nn.Conv2d, f'{spec}: exported {type(static)}')
    same(static(x).detach(), y_ref, f'{spec}: static export')
    expect((static.in_channels, static.out_channels) ==
           (int(ib.sum()), int(ob.sum())), f'{spec}: exported '
           f'{static.in_channels}->{static.out_channels}')
    # gradients reach the kept weights only
    layer.zero_grad()
    layer(x).sum().backward()
    got = layer.weight.grad.abs().flatten(1).sum(1) > 0
    expect(not bool((got & ~ob).any()), f'{spec}: gradient in dropped rows')
    ctx.state(spec)


def conv_specs(ctx):
    kinds = ['DynamicConv2d', 'BigNasConv2d', 'OFAConv2d']
    geos = [(3, 1, 1, 1), (1, 1, 0, 1), (3, 2, 0, 1), (3, 1, 2, 2)]
    for kind in kinds:
        gs = geos if kind == 'DynamicConv2d' or ctx.thorough else geos[:2]
        for (k, s, p, d) in gs:
            for bias in (False, True):
                # dense
                cin, cout = 2, 3
                for ib in [None] + list(subsets(cin)):
                    for ob in [None] + list(subsets(cout)):
                        yield (kind, 1, cin, cout, k, s, p, d, bias, ib, ob,
                               bias)
                # depthwise
                for b in [None] + list(subsets(3)):
                    yield (kind, 3, 3, 3, k, s, p, d, bias, b, b, not bias)
                # grouped, balanced
                for ib in [None] + list(subsets(2)):
                    for ob in [None] + list(subsets(2)):
                        rep = (lambda t: None if t is None else t + t)
                        yield (kind, 2, 4, 4, k, s, p, d, bias, rep(ib),
                               rep(ob), bias)
                for a, b in itertools.product(
                        [(True, False), (False, True)], repeat=2):
                    yield (kind, 2, 4, 4, k, s, p, d, bias, a + b, b + a,
                           not bias)
                # channel multiplier
                for ob in subsets(2):
                    yield (kind, 2, 2, 4, k, s, p, d, bias, None, ob + ob,
                           bias)


def unbalanced(ctx, spec):
    """Groups that would end up with different widths are refused."""
    ib, ob = spec
    layer = ops().DynamicConv2d(4, 4, 1, groups=2)
    mi, _ = mutable(ib)
    mo, _ = mutable(ob)
    layer.register_mutable_attr('in_channels', mi)
    layer.register_mutable_attr('out_channels', mo)
    ctx.step()
    bal = (sum(ib[:2]) == sum(ib[2:])) and (sum(ob[:2]) == sum(ob[2:])) and \
        sum(ib[:2]) > 0 and sum(ob[:2]) > 0
    x = rand(1, sum(ib), 3, 3)
    try:
        y = layer(x)
        took = True
    except Exception:
        took = False
    expect(took == bal, f'groups=2, in {ib} out {ob}: '
           f'{"accepted" if took else "refused"}')
    if took:
        expect(y.shape[1] == sum(ob), f'{spec}: {y.shape}')
    ctx.state(spec)


def kernel(ctx, spec):
    """Kernel-size candidates: centre crop (and its learned transform)."""
    from mmrazor.models.mutables import OneShotMutableValue
    kind, sizes, size, stride, depthwise, ib, ob, trans = spec
    D = getattr(ops(), kind)
    c = 2
    if depthwise == 'grouped':
        return kernel_grouped(ctx, spec)
    k = max(sizes)
    layer = D(c, c, k, stride=stride, padding=k // 2,
              groups=c if depthwise else 1, bias=True)
    mk = OneShotMutableValue(list(sizes))
    fixes = [mk]
    layer.register_mutable_attr('kernel_size', mk)
    if kind == 'OFAConv2d' and trans:
        for n, p in layer.named_parameters():
            if n.startswith('trans_matrix'):
                p.data.copy_(rand(*p.shape))
    mi, si = mutable(ib)
    fixes.append(si)
    layer.register_mutable_attr('in_channels', mi)
    if depthwise:
        mo, ob = mi, ib
    else:
        mo, so = mutable(ob)
        fixes.append(so)
    layer.register_mutable_attr('out_channels', mo)
    ctx.step()
    w = layer.weight.detach()
    order = sorted(sizes)
    cur = k
    for i in range(len(order) - 1, 0, -1):
        if order[i] <= size:
            break
        t = order[i - 1]
        lo = cur // 2 - t // 2
        w = w[:, :, lo:lo + t, lo:lo + t]
        if kind == 'OFAConv2d':
            M = getattr(layer, f'trans_matrix_{cur}to{t}').detach()
            w = (w.reshape(-1, t * t) @ M.T).reshape(*w.shape[:2], t, t)
        cur = t
    it, ot = torch.tensor(ib), torch.tensor(ob)
    wr = w[ot] if depthwise else w[ot][:, it]
    mk.current_choice = size
    x = rand(2, sum(ib), 7, 6)
    y_ref = F.conv2d(x, wr, layer.bias.detach()[ot], (stride, stride),
                     (size // 2, size // 2), 1,
                     sum(ib) if depthwise else 1)
    before = frozen(layer)
    same(layer(x).detach(), y_ref, f'{spec}: dynamic')
    # moving away and back changes nothing
    for other in sizes:
        mk.current_choice = other
        layer(x)
    mk.current_choice = size
    same(layer(x).detach(), y_ref, f'{spec}: after visiting other sizes')
    unchanged(layer, before, f'{spec}')
    static = export(layer, fixes, f'{spec}')
    same(static(x).detach(), y_ref, f'{spec}: static')
    expect(static.kernel_size == (size, size), f'{spec}: {static}')
    ctx.state(spec)


def kernel_grouped(ctx, spec):
    from mmrazor.models.mutables import OneShotMutableValue
    kind, sizes, size, stride, _, ib, ob, _ = spec
    k = max(sizes)
    layer = getattr(ops(), kind)(4, 4, k, stride=stride, padding=k // 2,
                                 groups=2)
    mk = OneShotMutableValue(list(sizes))
    layer.register_mutable_attr('kernel_size', mk)
    ib, ob = ib + ib, ob + ob
    mi, si = mutable(ib)
    mo, so = mutable(ob)
    layer.register_mutable_attr('in_channels', mi)
    layer.register_mutable_attr('out_channels', mo)
    ctx.step()
    mk.current_choice = size
    lo = k // 2 - size // 2
    w = layer.weight.detach()[:, :, lo:lo + size, lo:lo + size]
    if kind == 'OFAConv2d':     # identity transforms after initialisation
        for n, p in layer.named_parameters():
            if n.startswith('trans_matrix'):
                p.data.copy_(torch.eye(p.shape[0]))
    it, ot = torch.tensor(ib), torch.tensor(ob)
    wr = w[ot][:, torch.tensor(ib[:2])]
    x = rand(2, sum(ib), 7, 6)
    ref = F.conv2d(x, wr, layer.bias.detach()[ot], (stride, stride),
                   (size // 2, size // 2), 1, 2)
    same(layer(x).detach(), ref, f'{spec}: dynamic')
    st = export(layer, [mk, si, so], f'{spec}')
    same(st(x).detach(), ref, f'{spec}: static')
    ctx.state(spec)


def adaptive(ctx, spec):
    from mmcv.cnn.bricks import Conv2dAdaptivePadding
    from mmrazor.models.architectures.dynamic_ops import \
        DynamicConv2dAdaptivePadding as D
    k, s, d, h, w, ib, ob = spec
    src = Conv2dAdaptivePadding(2, 2, k, stride=s, dilation=d)
    layer = D.convert_from(src)
    layer.load_state_dict(src.state_dict())
    x = rand(1, 2, h, w)
    ctx.step()
    same(layer(x).detach(), src(x).detach(), f'{spec}: full width')
    mi, si = mutable(ib)
    mo, so = mutable(ob)
    layer.register_mutable_attr('in_channels', mi)
    layer.register_mutable_attr('out_channels', mo)
    it, ot = torch.tensor(ib), torch.tensor(ob)
    ref = Conv2dAdaptivePadding(sum(ib), sum(ob), k, stride=s, dilation=d)
    ref.weight.data = src.weight.data[ot][:, it]
    ref.bias.data = src.bias.data[ot]
    y = ref(x[:, it]).detach()
    same(layer(x[:, it]).detach(), y, f'{spec}: dynamic')
    st = export(layer, [si, so], f'{spec}')
    same(st(x[:, it]).detach(), y, f'{spec}: static')
    ctx.state(spec)


# ---- linear / layer norm ---------------------------------------------
def linear(ctx, spec):
    ib, ob, bias = spec
    ni, no = 3, 3
    src = nn.Linear(ni, no, bias=bias)
    layer = ops().DynamicLinear.convert_from(src)
    layer.load_state_dict(src.state_dict())
    ctx.step()
    x = rand(4, ni)
    same(layer(x).detach(), src(x).detach(), f'{spec}: nothing mutable')
    fixes = []
    for bits, attr in ((ib, 'in_channels'), (ob, 'out_channels')):
        if bits is not None:
            m, s = mutable(bits)
            layer.register_mutable_attr(attr, m)
            fixes.append(s)
            expect(layer.get_mutable_attr(attr) is m, 'lookup')
    it = torch.tensor(ib if ib else (True, ) * ni)
    ot = torch.tensor(ob if ob else (True, ) * no)
    ref = F.linear(x[:, it], src.weight[ot][:, it],
                   src.bias[ot] if bias else None).detach()
    before = frozen(layer)
    same(layer(x[:, it]).detach(), ref, f'{spec}: dynamic')
    unchanged(layer, before, f'{spec}')
    st = export(layer, fixes, f'{spec}')
    expect(type(st) is nn.Linear and (st.in_features, st.out_features) ==
           (int(it.sum()), int(ot.sum())), f'{spec}: {st}')
    same(st(x[:, it]).detach(), ref, f'{spec}: static')
    ctx.state(spec)


def layernorm(ctx, spec):
    seq, eps, lead = spec
    n = 4
    src = nn.LayerNorm(n, eps=eps)
    src.weight.data, src.bias.data = rand(n), rand(n)
    layer = ops().DynamicLayerNorm.convert_from(src)
    layer.load_state_dict(src.state_dict())
    x = rand(*lead, n)
    # before anything is searchable
    same(layer(x).detach(), src(x).detach(), f'{spec}: without a mutable')
    m, s = mutable(seq[0])
    layer.register_mutable_attr('num_features', m)
    before = frozen(layer)
    for bits in seq:
        ctx.step()
        s.current_choice = torch.tensor(bits)
        t = torch.tensor(bits)
        ref = F.layer_norm(x[..., t], (sum(bits), ), src.weight[t],
                           src.bias[t], eps).detach()
        same(layer(x[..., t]).detach(), ref, f'{spec} at {bits}')
    unchanged(layer, before, f'{spec}')
    st = export(layer, [s], f'{spec}')
    same(st(x[..., t]).detach(), ref, f'{spec}: static')
    ctx.state(spec)


# ---- batch norm -------------------------------------------------------
def batchnorm(ctx, spec):
    """A history of steps; dropped channels keep their statistics."""
    dim, affine, track, momentum, seq = spec
    n = 3
    D = getattr(ops(), f'DynamicBatchNorm{dim}d')
    S = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}[dim]
    src = S(n, eps=1e-3, momentum=momentum, affine=affine,
            track_running_stats=track)
    if affine:
        src.weight.data, src.bias.data = rand(n), rand(n)
    if track:
        src.running_mean.copy_(rand(n))
        src.running_var.copy_(rand(n).abs() + .5)
    layer = D.convert_from(src)
    layer.load_state_dict(src.state_dict())
    m, s = mutable((True, ) * n)
    layer.register_mutable_attr('num_features', m)
    expect(layer.get_mutable_attr('out_channels') is m and
           layer.get_mutable_attr('in_channels') is m, 'lookup')
    mean = src.running_mean.clone() if track else None
    var = src.running_var.clone() if track else None
    count = 0
    for bits, train in seq:
        ctx.step()
        layer.train(train)
        s.current_choice = torch.tensor(bits)
        t = torch.tensor(bits)
        x = rand(4, sum(bits), *([2] * (dim if dim > 1 else 0)))
        f = momentum
        if train and track:
            count += 1
            f = momentum if momentum is not None else 1. / count
        rm = mean[t] if track else None
        rv = var[t] if track else None
        ref = F.batch_norm(
            x, rm, rv, layer.weight.detach()[t] if affine else None,
            layer.bias.detach()[t] if affine else None,
            train or not track, f if f is not None else 0., 1e-3)
        if train and track:
            mean[t], var[t] = rm, rv
        same(layer(x).detach(), ref, f'{spec} at {bits} train={train}')
        if track:
            same(layer.running_mean, mean, f'{spec}: running mean')
            same(layer.running_var, var, f'{spec}: running var')
            expect(int(layer.num_batches_tracked) == count,
                   f'{spec}: {int(layer.num_batches_tracked)} batches')
        ctx.state((spec[:4], bits, train,
                   tuple(b for b, _ in seq)))
    layer.eval()
    st = export(layer, [s], f'{spec}')
    st.eval()
    x = rand(4, sum(bits), *([2] * (dim if dim > 1 else 0)))
    ref = F.batch_norm(
        x, mean[t] if track else None, var[t] if track else None,
        layer.weight.detach()[t] if affine else None,
        layer.bias.detach()[t] if affine else None, not track, 0., 1e-3)
    same(st(x).detach(), ref, f'{spec}: static export')
    expect(st.num_features == sum(bits), f'{spec}: {st}')


def switchable(ctx, spec):
    """Every width owns its statistics; the full width owns the base ones."""
    cands, seq = spec
    from mmrazor.models.architectures.dynamic_ops import SwitchableBatchNorm2d
    from mmrazor.models.mutables import SquentialMutableChannel
    n = 4
    layer = SwitchableBatchNorm2d(n)
    layer.init_candidates(list(cands))
    m = SquentialMutableChannel(n)
    layer.register_mutable_attr('num_features', m)
    refs = {k: nn.BatchNorm2d(k) for k in list(cands) + [n]}
    for i, k in enumerate(seq):
        ctx.step()
        m.current_choice = k
        x = rand(3, k, 2, 2)
        if k not in refs:
            try:
                layer(x)
            except Exception:
                continue
            raise Violation(f'{spec}: width {k} has no statistics')
        same(layer(x).detach(), refs[k](x).detach(), f'{spec} step {i}')
    k = seq[-1]
    if k in refs:
        m.fix_chosen()
        layer.eval()
        st = layer.to_static_op().eval()
        refs[k].eval()
        x = rand(3, k, 2, 2)
        same(st(x).detach(), refs[k](x).detach(), f'{spec}: export')
        same(layer(x).detach(), refs[k](x).detach(), f'{spec}: eval')
    ctx.state(spec)


PLAIN = {
    'conv': (lambda: nn.Conv2d(4, 6, 3, padding=1, groups=2),
             'DynamicConv2d', [(2, 4, 5, 6)]),
    'dw': (lambda: nn.Conv2d(4, 4, 3, groups=4, bias=False),
           'DynamicConv2d', [(2, 4, 5, 6)]),
    'bignas': (lambda: nn.Conv2d(4, 6, 5, padding=2), 'BigNasConv2d',
               [(2, 4, 5, 6)]),
    'ofa': (lambda: nn.Conv2d(4, 6, 5, padding=2), 'OFAConv2d',
            [(2, 4, 5, 6)]),
    'same': (lambda: bricks().Conv2dAdaptivePadding(4, 6, 3, stride=2),
             'DynamicConv2dAdaptivePadding', [(2, 4, 5, 6)]),
    'linear': (lambda: nn.Linear(4, 3), 'DynamicLinear',
               [(2, 4), (4, ), (2, 3, 4)]),
    'linear-nobias': (lambda: nn.Linear(4, 3, bias=False), 'DynamicLinear',
                      [(2, 4)]),
    'bn1': (lambda: nn.BatchNorm1d(4), 'DynamicBatchNorm1d',
            [(3, 4), (3, 4, 2)]),
    'bn2': (lambda: nn.BatchNorm2d(4, eps=.1, momentum=.3),
            'DynamicBatchNorm2d', [(3, 4, 2, 5)]),
    'bn2-cumulative': (lambda: nn.BatchNorm2d(4, momentum=None),
                       'DynamicBatchNorm2d', [(3, 4, 2, 5)]),
    'bn2-plain': (lambda: nn.BatchNorm2d(4, affine=False),
                  'DynamicBatchNorm2d', [(3, 4, 2, 5)]),
    'bn2-batch': (lambda: nn.BatchNorm2d(4, track_running_stats=False),
                  'DynamicBatchNorm2d', [(3, 4, 2, 5)]),
    'bn2-bare': (lambda: nn.BatchNorm2d(4, track_running_stats=False,
                                        affine=False),
                 'DynamicBatchNorm2d', [(3, 4, 2, 5)]),
    'bn3': (lambda: nn.BatchNorm3d(4), 'DynamicBatchNorm3d',
            [(3, 4, 2, 1, 2)]),
    'ln': (lambda: nn.LayerNorm(4, eps=.1), 'DynamicLayerNorm',
           [(4, ), (2, 4), (2, 3, 4), (2, 1, 3, 4)]),
    'ln-plain': (lambda: nn.LayerNorm(4, elementwise_affine=False),
                 'DynamicLayerNorm', [(2, 4), (2, 3, 4)]),
    'ln-2': (lambda: nn.LayerNorm((3, 4)), 'DynamicLayerNorm',
             [(2, 3, 4), (2, 2, 3, 4)]),
}


def bricks():
    from mmcv.cnn.bricks import conv2d_adaptive_padding
    return conv2d_adaptive_padding


def unsearched(ctx, spec):
    """A converted layer with nothing searchable is the layer itself."""
    kind, train = spec
    make, cls, shapes = PLAIN[kind]
    src = make().train()
    for p in list(src.parameters()):
        p.data = rand(*p.shape)
    layer = getattr(ops(), cls).convert_from(src)
    layer.load_state_dict(src.state_dict())
    for i, (mode, shape) in enumerate(
            zip(train, itertools.cycle(shapes))):
        ctx.step()
        x = rand(*shape)
        layer.train(mode)
        src.train(mode)
        same(layer(x).detach(), src(x).detach(), f'{spec}: forward {i}')
        for (k, a), (k2, b) in zip(layer.state_dict().items(),
                                   src.state_dict().items()):
            expect(k == k2, f'{spec}: state {k} for {k2}')
            same(a.float(), b.float(), f'{spec}: {k} after forward {i}')
    st = layer.to_static_op()
    expect(not hasattr(st, 'mutable_attrs'), f'{spec}: {st} is not static')
    st.eval()
    src.eval()
    for shape in shapes:
        x = rand(*shape)
        same(st(x).detach(), src(x).detach(), f'{spec}: export at {shape}')
    ctx.state(spec)


def wrong_size(ctx, spec):
    kind, attr, n, bad = spec
    o = ops()
    layer = dict(conv=lambda: o.DynamicConv2d(n, n, 1),
                 linear=lambda: o.DynamicLinear(n, n),
                 bn=lambda: o.DynamicBatchNorm2d(n),
                 ln=lambda: o.DynamicLayerNorm(n))[kind]()
    m, _ = mutable((True, ) * bad)
    ctx.step()
    try:
        layer.register_mutable_attr(attr, m)
        took = True
    except Exception:
        took = False
    expect(took == (n == bad), f'{kind}({n}).{attr} given a {bad}-wide mutable:'
           f' {"accepted" if took else "refused"}')
    ctx.state(spec)


def run(ctx):
    ctx.parallel('conv', list(conv_specs(ctx)), lambda s: conv(ctx, s))
    ctx.cases('unbalanced', list(itertools.product(
        list(subsets(4)), repeat=2)), lambda s: unbalanced(ctx, s))
    ks = []
    for kind in ('BigNasConv2d', 'OFAConv2d'):
        for sizes in ((3, 5), (1, 3), (3, 5, 7), (7, 3, 5), (1, 7), (5, )):
            for size in sizes:
                for stride in (1, 2):
                    for dw in (False, True, 'grouped'):
                        for ib in subsets(2):
                            for ob in (subsets(2) if dw is not True
                                       else [ib]):
                                for tr in ((False, True) if kind[0] == 'O'
                                           else (False, )):
                                    ks.append((kind, sizes, size, stride, dw,
                                               ib, ob, tr))
    ctx.parallel('kernel', ks, lambda s: kernel(ctx, s))
    ad = [(k, s, d, h, w, ib, ob) for k in (1, 3, 5) for s in (1, 2, 3)
          for d in (1, 2) for h in (4, 5) for w in (5, 7)
          for ib in subsets(2) for ob in subsets(2)]
    ctx.parallel('adaptive', ad if ctx.thorough else ad[::3],
                 lambda s: adaptive(ctx, s))
    ctx.parallel('linear', [(i, o, b) for i in [None] + list(subsets(3))
                            for o in [None] + list(subsets(3))
                            for b in (False, True)],
                 lambda s: linear(ctx, s))
    ctx.parallel('unsearched', [
        (k, t) for k in PLAIN for r in (1, 2, 3)
        for t in itertools.product((False, True), repeat=r)],
                 lambda s: unsearched(ctx, s))
    ctx.parallel('layernorm', [(q, e, (2, 3)) for r in (1, 2) for q in
                               itertools.product(list(subsets(4)), repeat=r)
                               for e in (1e-5, 1e-2)] +
                 [(q, 1e-5, lead) for q in
                  itertools.product(list(subsets(4)), repeat=2)
                  for lead in ((), (3, ), (2, 2, 3))],
                 lambda s: layernorm(ctx, s))
    steps = [(b, t) for b in subsets(3) for t in (False, True)]
    bn = []
    for dim in (1, 2, 3):
        for affine, track in ((True, True), (True, False), (False, True)):
            for mom in ((0.1, 0.5, None) if dim == 2 else (0.1, )):
                depth = 3 if ctx.thorough and dim == 2 else 2
                for r in range(1, depth + 1):
                    for q in itertools.product(steps, repeat=r):
                        bn.append((dim, affine, track, mom, q))
    ctx.parallel('batchnorm', bn, lambda s: batchnorm(ctx, s))
    sw = [(c, q) for c in ((1, 2), (2, ), (1, 2, 4), (3, 1))
          for r in (1, 2, 3) for q in itertools.product((1, 2, 3, 4),
                                                        repeat=r)]
    ctx.parallel('switchable', sw, lambda s: switchable(ctx, s))
    ctx.cases('wrong-size', [(k, a, n, b) for k, a in (
        ('conv', 'in_channels'), ('conv', 'out_channels'),
        ('linear', 'in_features'), ('linear', 'out_features'),
        ('bn', 'num_features'), ('ln', 'num_features'))
        for n in (2, 3) for b in (1, 2, 3, 4)], lambda s: wrong_size(ctx, s))
