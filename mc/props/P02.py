"""Composed channel dimensions: an exact, ordered, non-overlapping cover."""
import itertools

import torch
from torch import nn

from mc.core import Violation, expect

RULE = ('every sequence of up to R range registrations (all ranges of a '
        'W-wide dimension, in every order, valid or clashing) followed by '
        'every assignment of widths to the registered parts; the composed '
        'mask is compared with a bitmap model; non-trivial: at least one '
        'registration')
ASSUMPTIONS = ['ranges are pairs of integers inside the dimension']


def api():
    from mmrazor.models.mutables import (MutableChannelContainer,
                                         SimpleMutableChannel,
                                         SquentialMutableChannel)
    return MutableChannelContainer, SimpleMutableChannel, \
        SquentialMutableChannel


def ranges(w):
    return [(s, e) for s in range(w) for e in range(s + 1, w + 1)]


def bits(t):
    return tuple(bool(b) for b in t.tolist())


def history(ctx, spec):
    """Register ``regs`` in this order, reading in between or only at the
    end; then drive every registered part."""
    w, regs, read_between = spec
    Container, Simple, Seq = api()
    c = Container(w)
    owner = [None] * w  # reference: who owns each index
    parts = {}
    for i, (s, e) in enumerate(regs):
        ctx.step()
        # (reading fills the holes with always-on parts)
        clash = any(owner[j] is not None for j in range(s, e))
        m = Seq(e - s)
        try:
            c.register_mutable(m, s, e)
            took = True
        except Exception:
            took = False
        expect(took != clash,
               lambda: f'width {w}, {regs[:i + 1]}: registering [{s},{e}) '
               f'{"accepted although it overlaps" if took else "refused"}; '
               f'occupied: {[o is not None for o in owner]}')
        if took:
            parts[(s, e)] = m
            for j in range(s, e):
                owner[j] = (s, e)
        if read_between:
            mask = bits(c.current_mask)
            expect(mask == (True, ) * w, f'{regs[:i + 1]}: {mask}')
            for j in range(w):
                if owner[j] is None:
                    owner[j] = 'filled'
    ctx.state((w, tuple(map(str, owner))))
    keys = sorted(parts)
    for ks in itertools.product(*[range(1, e - s + 1) for s, e in keys]):
        ctx.step()
        want = [True] * w
        for (s, e), k in zip(keys, ks):
            parts[(s, e)].current_choice = k
            for j in range(s, e):
                want[j] = (j - s) < k
        got = bits(c.current_mask)
        expect(got == tuple(want),
               lambda: f'width {w} parts {keys} at {ks}: mask {got}, '
               f'expected {tuple(want)}')
        expect(bits(c.current_choice) == tuple(want), 'choice differs')
        expect(c.activated_channels == sum(want),
               f'activated {c.activated_channels}, expected {sum(want)}')
        ctx.state((w, tuple(keys), ks))


def index_map(ctx, spec):
    """The range map on its own: order, lookup, membership, refusal."""
    from mmrazor.utils import IndexDict
    w, regs = spec
    d = IndexDict()
    occ, stored = set(), {}
    for i, (s, e) in enumerate(regs):
        ctx.step()
        clash = any(j in occ for j in range(s, e))
        expect(((s, e) in d) == clash,
               lambda: f'after {sorted(stored)}: "[{s},{e}) overlaps" is '
               f'{(s, e) in d}')
        try:
            d[(s, e)] = i
            took = True
        except Exception:
            took = False
        expect(took != clash, lambda: f'after {sorted(stored)}: inserting '
               f'[{s},{e}) {"accepted" if took else "refused"}')
        if took:
            stored[(s, e)] = i
            occ |= set(range(s, e))
        expect(list(d.keys()) == sorted(stored),
               f'{regs[:i + 1]}: keys {list(d.keys())}')
        expect(dict(d) == stored, f'{regs[:i + 1]}: {dict(d)}')
    ctx.state((w, tuple(sorted(stored.items()))))


def layer(ctx, spec):
    """A layer dimension wired range by range to several sources shows every
    source at its own place; sizes that do not match are refused."""
    from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
    Container, Simple, Seq = api()
    widths, side, ks = spec
    w = sum(widths)
    conv = DynamicConv2d(w, w, 1, bias=True)
    conv.register_mutable_attr('in_channels', Container(w))
    conv.register_mutable_attr('out_channels', Container(w))
    srcs = [Seq(x) for x in widths]
    pos = 0
    for m in srcs:
        ctx.step()
        Container.register_mutable_channel_to_module(
            conv, m, side == 'out', start=pos)
        pos += m.num_channels
    want = []
    for m, k in zip(srcs, ks):
        m.current_choice = k
        want += [i < k for i in range(m.num_channels)]
    full = [True] * w
    i, o = (full, want) if side == 'out' else (want, full)
    expect(bits(conv.get_mutable_attr('in_channels').current_mask) == tuple(i)
           and bits(conv.get_mutable_attr('out_channels').current_mask)
           == tuple(o), f'{spec}')
    x = torch.randn(2, sum(i), 3, 3)
    with torch.no_grad():
        y = conv(x)
        ref = nn.functional.conv2d(
            x, conv.weight[torch.tensor(o)][:, torch.tensor(i)],
            conv.bias[torch.tensor(o)])
    expect(y.shape == ref.shape and torch.equal(y, ref), f'{spec} forward')
    ctx.state(spec)
    for bad in (w - 1, w + 1):
        if bad < 1:
            continue
        c2 = DynamicConv2d(w, w, 1)
        for attr in ('in_channels', 'out_channels'):
            try:
                c2.register_mutable_attr(attr, Container(bad))
            except Exception:
                continue
            raise Violation(f'{w}-wide {attr} took a {bad}-wide container')


def run(ctx):
    w = 5 if ctx.thorough else 4
    hist = []
    for ww in range(1, w + 1):
        rs = ranges(ww)
        for n in range(0, 4 if ww <= 4 else 3):
            for regs in itertools.product(rs, repeat=n):
                for between in (False, True):
                    hist.append((ww, regs, between))
    ctx.parallel('registration', hist, lambda s: history(ctx, s))
    maps = [(ww, regs) for ww in range(1, w + 1)
            for n in range(1, 4) for regs in itertools.product(
                ranges(ww), repeat=n)]
    ctx.parallel('range-map', maps, lambda s: index_map(ctx, s))
    lay = []
    for n in (1, 2, 3):
        for widths in itertools.product((1, 2, 3), repeat=n):
            for side in ('in', 'out'):
                for ks in itertools.product(*[range(1, x + 1)
                                              for x in widths]):
                    lay.append((widths, side, ks))
    ctx.parallel('layer', lay, lambda s: layer(ctx, s))
