"""Composite dynamic modules: static before, cut while running, and exported."""
import itertools

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import Violation, expect

RULE = ('every configuration in the bound of the searchable sequential '
        '(depth), input resizer (shape), relative position table (head '
        'width), patch embedding (width) and attention block (heads, widths) '
        'x every sequence of choices up to the depth bound, before any '
        'searchable part is attached, while it runs, and after export; '
        'compared with independent reference formulas; non-trivial: a choice '
        'below the maximum')
ASSUMPTIONS = ['widths of these modules are searched as prefixes',
               'equality within 1e-4; dropout compared under equal torch seeds']

GEN = torch.Generator().manual_seed(11)


def rand(*shape):
    return torch.randn(*shape, generator=GEN)


def same(a, b, msg):
    expect(a.shape == b.shape and torch.allclose(a, b, atol=1e-4, rtol=1e-4),
           lambda: f'{msg}: shapes {tuple(a.shape)} / {tuple(b.shape)}'
           + (f', max difference {(a - b).abs().max():.4g}'
              if a.shape == b.shape else ''))


def dops():
    from mmrazor.models.architectures import dynamic_ops
    return dynamic_ops


def value(cands, default=None):
    from mmrazor.models.mutables import OneShotMutableValue
    return OneShotMutableValue(list(cands), default_value=default)


def channel(n):
    from mmrazor.models.mutables import OneShotMutableChannel
    return OneShotMutableChannel(n, candidate_choices=list(range(1, n + 1)))


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def fix(m):
    m.fix_chosen(m.dump_chosen().chosen)


# ---- depth ------------------------------------------------------------
class Tag(nn.Module):

    def __init__(self, k):
        super().__init__()
        self.k, self.calls = k, 0

    def forward(self, x):
        self.calls += 1
        return x * 10 + self.k


def depth(ctx, spec):
    n, cands, seq, how = spec
    tags = [Tag(k + 1) for k in range(n)]
    if how == 'shared':
        # the first layer is used again at every other position
        tags = [tags[0] if k % 2 == 0 else t for k, t in enumerate(tags)]

    def run_tags(upto):
        v = torch.zeros(1)
        for t in tags[:upto]:
            v = v * 10 + t.k
        return v

    D = dops().DynamicSequential
    if how == 'convert':
        from mmengine.model import Sequential
        m = D.convert_from(Sequential(*tags))
    else:
        m = D(*tags)
    x = torch.zeros(1)
    ctx.step()
    same(m(x), run_tags(n), f'{spec}: nothing searchable')
    same(m.to_static_op()(x), run_tags(n), f'{spec}: plain export')
    too_deep = value([n + 1])
    expect(refused(lambda: m.register_mutable_attr('depth', too_deep)),
           f'{spec}: depth {n + 1} accepted for {n} layers')
    same(m(x), run_tags(n), f'{spec}: after a refused depth')
    d = value(cands)
    m.register_mutable_attr('depth', d)
    expect(m.get_mutable_attr('depth') is d and m.mutable_depth is d,
           'lookup')
    for c in seq:
        ctx.step()
        d.current_choice = c
        before = [t.calls for t in tags]
        same(m(x), run_tags(c), f'{spec} at depth {c}')
        ran = [t.calls - b for t, b in zip(tags, before)]
        expect(ran == [sum(u is t for u in tags[:c]) for t in tags],
               f'{spec} at {c}: ran {ran}')
        expect(m.pure_module_nums == n, f'{spec}: {m.pure_module_nums}')
    expect(refused(m.to_static_op), f'{spec}: exported an open depth')
    d.current_choice = seq[-1]
    fix(d)
    same(m(x), run_tags(seq[-1]), f'{spec}: fixed')
    st = m.to_static_op()
    expect(len(st) == seq[-1], f'{spec}: exported {len(st)} layers')
    same(st(x), run_tags(seq[-1]), f'{spec}: exported')
    ctx.state(spec)


# ---- resizer ----------------------------------------------------------
def resize(ctx, spec):
    mode, align, cands, seq, how = spec
    from mmrazor.models.architectures.ops import InputResizer
    D = dops().DynamicInputResizer
    kw = dict(interpolation_type=mode, align_corners=align)
    r = D.convert_from(InputResizer(**kw)) if how == 'convert' else D(**kw)
    x = rand(1, 2, 6, 6)

    def ref(size):
        return F.interpolate(x, size=size, mode=mode, align_corners=align)

    ctx.step()
    for s in ((3, 4), (6, 6), (8, 5)):
        same(r(x, s), ref(s), f'{spec}: explicit size {s}')
    v = value([list(c) if isinstance(c, tuple) else c for c in cands])
    r.register_mutable_attr('shape', v)
    for c in seq:
        ctx.step()
        c = list(c) if isinstance(c, tuple) else c
        v.current_choice = c
        same(r(x), ref(c), f'{spec}: searched size {c}')
        same(r(x, (2, 2)), ref(c), f'{spec}: searched size {c} wins')
    expect(refused(r.to_static_op), f'{spec}: exported an open shape')
    fix(v)
    st = r.to_static_op()
    same(st(x), ref(c), f'{spec}: exported')
    expect(type(st) is InputResizer, f'{type(st)}')
    ctx.state(spec)


# ---- relative position ---------------------------------------------------
def rp_table(tv, th, lq, lk, maxp):
    """The documented table, one cell at a time."""
    out = torch.zeros(lq, lk, tv.shape[1])
    s = int((lq - 1)**0.5)
    for i in range(lq):
        for j in range(lk):
            if i == 0 or j == 0:
                a = b = 0
            else:
                q, k = i - 1, j - 1
                dv = max(-maxp, min(maxp, k // s - q // s))
                dh = max(-maxp, min(maxp, k % s - q % s))
                a, b = dv + maxp + 1, dh + maxp + 1
            out[i, j] = tv[a] + th[b]
    return out


def relpos(ctx, spec):
    heads, maxp, lens, seq, how = spec
    from mmrazor.models.architectures.ops import RelativePosition2D
    D = dops().DynamicRelativePosition2D
    src = RelativePosition2D(heads, maxp)
    m = D.convert_from(src) if how else D(heads, maxp)
    m.load_state_dict(src.state_dict())
    tv, th = src.embeddings_table_v.detach(), src.embeddings_table_h.detach()
    ctx.step()
    full = rp_table(tv, th, lens, lens, maxp)
    same(src(lens, lens).detach(), full, f'{spec}: static')
    same(m(lens, lens).detach(), full, f'{spec}: nothing searchable')
    same(m.to_static_op()(lens, lens).detach(), full, f'{spec}: plain export')
    c = channel(heads)
    m.register_mutable_attr('head_dims', c)
    for k in seq:
        ctx.step()
        c.current_choice = k
        ref = rp_table(tv[:, :k], th[:, :k], lens, lens, maxp)
        same(m(lens, lens).detach(), ref, f'{spec} at width {k}')
    expect(refused(m.to_static_op), f'{spec}: exported an open width')
    fix(c)
    st = m.to_static_op()
    same(st(lens, lens).detach(), ref, f'{spec}: exported')
    ctx.state(spec)


# ---- patch embedding -----------------------------------------------------
def patch(ctx, spec):
    cin, geo, bias, norm, bits, how = spec
    from mmcls.models.utils import PatchEmbed
    k, s, p = geo
    img, dims = 8, len(bits)
    cfg = dict(img_size=img, in_channels=cin, embed_dims=dims,
               norm_cfg=dict(type='LN') if norm else None,
               conv_cfg=dict(kernel_size=k, stride=s, padding=p, bias=bias))
    src = PatchEmbed(**cfg)
    if norm:
        src.norm.weight.data, src.norm.bias.data = rand(dims), rand(dims)
    D = dops().DynamicPatchEmbed
    if how:
        m = D.convert_from(src)
    else:
        m = D(**cfg)
        m.load_state_dict(src.state_dict())
    x = rand(2, cin, img, img)
    w = src.projection.weight.detach().clone()
    b = src.projection.bias.detach().clone() if bias else None

    def ref(t):
        y = F.conv2d(x, w[t], b[t] if bias else None, (s, s), (p, p))
        y = y.flatten(2).transpose(1, 2)
        if norm:
            y = F.layer_norm(y, (dims, ), src.norm.weight, src.norm.bias)
        return y.detach()

    ctx.step()
    all_ = torch.ones(dims).bool()
    same(src(x).detach(), ref(all_), 'reference')
    same(m(x).detach(), ref(all_), f'{spec}: nothing searchable')
    same(m.to_static_op()(x).detach(), ref(all_), f'{spec}: plain export')
    from mmrazor.models.mutables import SimpleMutableChannel
    c = SimpleMutableChannel(dims)
    bad = SimpleMutableChannel(dims + 1)
    expect(refused(lambda: m.register_mutable_attr('embed_dims', bad)),
           f'{spec}: a {dims + 1}-wide dimension accepted')
    m.register_mutable_attr('embed_dims', c)
    t = torch.tensor(bits)
    c.current_choice = t
    ctx.step()
    same(m(x).detach(), ref(t), f'{spec}: running')
    expect(refused(m.to_static_op), f'{spec}: exported an open width')
    c.fix_chosen()
    st = m.to_static_op()
    expect(type(st) is PatchEmbed, f'{type(st)}')
    same(st(x).detach(), ref(t), f'{spec}: exported')
    ctx.state(spec)


# ---- attention -------------------------------------------------------------
def attend(x, W, heads, scale, rel, maxp, vshort):
    B, N, _ = x.shape
    q, k, v = (F.linear(x, W[n][0], W[n][1]) for n in 'qkv')
    d = q.shape[-1] // heads
    q, k, v = (t.reshape(B, N, heads, d) for t in (q, k, v))
    a = torch.einsum('bnhd,bmhd->bhnm', q, k)
    if rel:
        rk = rp_table(W['rk'][0][:, :d], W['rk'][1][:, :d], N, N, maxp)
        a = a + torch.einsum('bnhd,nmd->bhnm', q, rk)
    a = (a * scale).softmax(-1)
    y = torch.einsum('bhnm,bmhd->bnhd', a, v)
    if rel:
        rv = rp_table(W['rv'][0][:, :d], W['rv'][1][:, :d], N, N, maxp)
        y = y + torch.einsum('bhnm,nmd->bnhd', a, rv)
    y = F.linear(y.reshape(B, N, -1), W['o'][0], W['o'][1])
    if vshort:
        y = v.transpose(1, 2).squeeze(1) + y
    return y


def weights(m):
    W = {}
    for n, l in (('q', m.w_qs), ('k', m.w_ks), ('v', m.w_vs), ('o', m.proj)):
        W[n] = (l.weight.detach(),
                l.bias.detach() if l.bias is not None else None)
    if m.relative_position:
        for n, l in (('rk', m.rel_pos_embed_k), ('rv', m.rel_pos_embed_v)):
            W[n] = (l.embeddings_table_v.detach(),
                    l.embeddings_table_h.detach())
    return W


def cut(W, emb, q):
    out = dict(W)
    for n in 'qkv':
        out[n] = (W[n][0][:q, :emb], None if W[n][1] is None else W[n][1][:q])
    out['o'] = (W['o'][0][:emb, :q],
                None if W['o'][1] is None else W['o'][1][:emb])
    return out


def attention(ctx, spec):
    emb, heads, rel, qkvb, scale, projb, vshort, which, hseq, edim, base, \
        how = spec
    from mmrazor.models.architectures.ops import MultiheadAttention
    D = dops().DynamicMultiheadAttention
    kw = dict(embed_dims=emb, num_heads=heads, relative_position=rel,
              max_relative_position=2, qkv_bias=qkvb, qk_scale=scale,
              proj_bias=projb, v_shortcut=vshort, attn_drop_rate=.2,
              proj_drop_rate=.1, out_drop_rate=.3)
    src = MultiheadAttention(**kw)
    m = D.convert_from(src) if how else D(**kw)
    m.load_state_dict(src.state_dict())
    W = weights(src)
    sc = scale or 64**-.5
    x = rand(2, 5, emb)
    ctx.step()

    def drop(a, b, x, msg):
        """Same function in training as well (dropout under one seed)."""
        for t in (a, b):
            t.train()
        torch.manual_seed(3)
        ya = a(x).detach()
        torch.manual_seed(3)
        yb = b(x).detach()
        for t in (a, b):
            t.eval()
        same(ya, yb, msg)

    for t in (src, m):
        t.eval()
    ref = attend(x, W, heads, sc, rel, 2, vshort)
    same(src(x).detach(), ref, f'{spec}: static')
    same(m(x).detach(), ref, f'{spec}: nothing searchable')
    drop(m, src, x, f'{spec}: training, nothing searchable')
    same(m.to_static_op().eval()(x).detach(), ref, f'{spec}: plain export')
    fixes = []
    ce = None
    if 'e' in which:
        ce = channel(emb)
        m.register_mutable_attr('embed_dims', ce)
        fixes.append(ce)
    vh = None
    if 'h' in which:
        vh = value(range(1, heads + 1), heads)
        cb = channel(64)
        m.register_mutable_attr('num_heads', vh)
        from mmrazor.models.mutables import MutableChannelContainer
        box = MutableChannelContainer(heads * 64)
        box.register_mutable(vh * cb, 0, heads * 64)
        m.register_mutable_attr('q_embed_dims', box)
        if rel:
            m.rel_pos_embed_k.register_mutable_attr('head_dims', cb)
            m.rel_pos_embed_v.register_mutable_attr('head_dims', cb)
        fixes += [vh, cb]
        cb.current_choice = base
    e = emb
    if ce is not None:
        ce.current_choice = e = edim
    for h in (hseq if vh is not None else (heads, )):
        ctx.step()
        d = 64
        if vh is not None:
            vh.current_choice = h
            d = base
        xi = x[..., :e]
        Wc = cut(W, e, h * d)
        ref = attend(xi, Wc, h, sc, rel, 2, vshort)
        same(m(xi).detach(), ref, f'{spec}: running with {h} heads')
    if fixes:
        expect(refused(m.to_static_op), f'{spec}: exported open choices')
    for f in fixes:
        fix(f)
    st = m.to_static_op().eval()
    expect(type(st) is MultiheadAttention, f'{type(st)}')
    same(st(xi).detach(), ref, f'{spec}: exported')
    drop(m, st, xi, f'{spec}: training, exported')
    ctx.state(spec)


def specs(ctx):
    T = ctx.thorough
    for n in (1, 2, 3, 4):
        cs = [c for r in (1, 2, n) for c in itertools.combinations(
            range(1, n + 1), r)]
        for c in dict.fromkeys(cs):
            for r in (1, 2, 3) if T else (1, 2):
                for q in itertools.product(c, repeat=r):
                    for how in ('init', 'convert', 'shared'):
                        yield 'depth', (n, c, q, how)
    for mode, align in (('bicubic', False), ('bilinear', True),
                        ('bilinear', False), ('nearest', None),
                        ('area', None)):
        for cands in ((2, 4, 9), ((3, 5), (6, 6), (7, 2))):
            for r in (1, 2):
                for q in itertools.product(cands, repeat=r):
                    for how in ('init', 'convert'):
                        yield 'resize', (mode, align, cands, q, how)
    for heads in (1, 2, 3):
        for maxp in (1, 2, 3):
            for lens in (2, 3, 5, 7, 10) + ((17, 20) if T else ()):
                for q in itertools.product(range(1, heads + 1),
                                           repeat=2 if T else 1):
                    for how in (False, True):
                        yield 'relpos', (heads, maxp, lens, q, how)
    for cin in (1, 3):
        for geo in ((2, 2, 0), (4, 4, 0), (4, 2, 1)):
            for bias in (True, False):
                for norm in (False, True):
                    for bits in itertools.product((True, False), repeat=3):
                        if not any(bits) or (norm and not all(bits)):
                            continue
                        for how in (False, True):
                            yield 'patch', (cin, geo, bias, norm, bits, how)
    for heads in (1, 2, 3):
        for rel in (True, False):
            for qkvb, projb in itertools.product((True, False), repeat=2):
                for scale in (None, .5):
                    for which in ('', 'e', 'h', 'eh'):
                        hs = [(h, ) for h in range(1, heads + 1)]
                        if T:
                            hs += list(itertools.product(
                                range(1, heads + 1), repeat=2))
                        for hseq in (hs if 'h' in which else [()]):
                            for edim in ((1, 2, 3) if 'e' in which else (3,)):
                                for base in ((64, 8) if 'h' in which
                                             else (64, )):
                                    yield 'attention', (
                                        3, heads, rel, qkvb, scale, projb,
                                        False, which, hseq, edim, base,
                                        edim != 2)
    for rel in (True, False):   # value shortcut: one head as wide as the block
        yield 'attention', (64, 1, rel, True, None, True, True, '', (), 64,
                            64, True)
        yield 'attention', (64, 1, rel, True, None, True, True, 'h', (1, ),
                            64, 64, False)


FN = dict(depth=depth, resize=resize, relpos=relpos, patch=patch,
          attention=attention)


def run(ctx):
    by = {}
    for scope, s in specs(ctx):
        by.setdefault(scope, []).append(s)
    for scope, ss in by.items():
        ctx.parallel(scope, ss, lambda s: FN[scope](ctx, s))
