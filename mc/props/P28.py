"""Distillation losses against formulas written out separately."""
import itertools
import math

import torch
import torch.nn.functional as F

from mc.core import expect

RULE = ('every loss x setting x every student tensor over a menu of values '
        'against a set of teacher tensors, and larger tensors with '
        'gradients; non-trivial: a finite loss')
ASSUMPTIONS = ['inputs for which a loss is undefined or within rounding of a '
               'kink (equal embeddings, constant rows, ties of an argmax) '
               'are not compared',
               'the loss that is taken from MMClassification is not '
               'available here']

MENU = (-1.5, 0., .25, 2.)


class Skip(Exception):
    pass


def soft(x):
    e = (x - x.max(-1, keepdim=True)[0]).exp()
    return e / e.sum(-1, keepdim=True)


def kl(p, q):
    """Of the first distribution to the second, by element."""
    return p * (p.log() - q.log())


def reduce(x, how):
    return dict(none=x, sum=x.sum(), mean=x.mean(),
                batchmean=x.sum() / x.shape[0])[how]


def unit(x):
    n = x.norm(dim=-1, keepdim=True)
    return x / n.clamp(min=1e-12)


def ref_kl(s, t, tau=1., reduction='batchmean', loss_weight=1., **kw):
    return loss_weight * tau**2 * reduce(
        kl(soft(t / tau), soft(s / tau)), reduction)


def ref_dkd(s, t, y, tau=1., alpha=1., beta=1., reduction='batchmean',
            loss_weight=1.):
    a, b = [], []
    for i, k in enumerate(y.tolist()):
        ps, pt = soft(s[i] / tau), soft(t[i] / tau)
        rest = [j for j in range(s.shape[1]) if j != k]
        bins = [torch.stack([p[k], p[rest].sum()]) for p in (pt, ps)]
        a.append(kl(*bins))
        n = torch.zeros_like(ps)
        n[rest] = kl(soft(t[i][rest] / tau), soft(s[i][rest] / tau))
        b.append(n)
    a, b = torch.stack(a), torch.stack(b)
    if reduction == 'none':
        a, b = a.sum(1), b.sum(1)
    return loss_weight * tau**2 * (alpha * reduce(a, reduction) +
                                   beta * reduce(b, reduction))


def ref_cwd(s, t, tau=1., loss_weight=1.):
    n, c = s.shape[:2]
    return loss_weight * tau**2 / (n * c) * sum(
        kl(soft(t[i, j].flatten() / tau), soft(s[i, j].flatten() / tau)).sum()
        for i in range(n) for j in range(c))


def huber(x):
    x = x.abs()
    return torch.where(x < 1, x**2 / 2, x - .5).mean()


def embed(x, norm):
    x = x.flatten(1)
    return unit(x) if norm else x


def ref_distance(s, t, loss_weight=25., with_l2_norm=True):
    out = []
    for x in (embed(s, with_l2_norm), embed(t, with_l2_norm)):
        n = len(x)
        d = torch.zeros(n, n).double()
        for i, j in itertools.product(range(n), repeat=2):
            if i != j:
                d[i, j] = (x[i] - x[j]).norm()
                if d[i, j] < 1e-2:
                    raise Skip
        out.append(d * n * (n - 1) / d.sum())
    return loss_weight * huber(out[0] - out[1])


def ref_angle(s, t, loss_weight=50., with_l2_norm=True):
    out = []
    for x in (embed(s, with_l2_norm), embed(t, with_l2_norm)):
        n = len(x)
        v = {(i, j): unit(x[j] - x[i]) for i in range(n) for j in range(n)}
        if any(0 < (x[i] - x[j]).norm() < 1e-2 for i, j in v):
            raise Skip
        out.append(torch.stack([v[i, j] @ v[i, k] for i, j, k in
                                itertools.product(range(n), repeat=3)]))
    return loss_weight * huber(out[0] - out[1])


def ref_wsld(s, t, y, tau=1., loss_weight=1., num_classes=3):
    out = []
    for i, k in enumerate(y.tolist()):
        hard = [-soft(x[i].detach())[k].log() for x in (s, t)]
        weight = 1 - torch.exp(-(hard[0] / (hard[1] + 1e-7)))
        out.append(-weight * (soft(t[i] / tau) * soft(s[i] / tau).log()).sum())
    return loss_weight * tau**2 * sum(out) / len(out)


def ref_l2(s, t, loss_weight=1., normalize=True, mult=1., div_element=False,
           dist=False):
    if normalize:
        s, t = s.flatten(1), t.flatten(1)
        if min(x.norm(dim=1).min() for x in (s, t)) < 1e-3:
            raise Skip
        s, t = unit(s) * mult, unit(t) * mult
    d = (s - t).flatten() @ (s - t).flatten()
    return loss_weight * (d.sqrt() if dist else
                          d / (s.numel() if div_element else len(s)))


def ref_l1(s, t, loss_weight=1., reduction='mean'):
    return loss_weight * reduce((s - t).abs(), reduction)


def ref_ab(s, t, loss_weight=1., margin=1.):
    d = torch.where(t > 0, (margin - s).clamp(min=0),
                    (s + margin).clamp(min=0))
    return loss_weight * 3 / 1000 * (d**2).sum() / len(s)


def ref_at(s, t, loss_weight=1.):
    a, b = (unit((x**2).mean(1).flatten(1)) for x in (s, t))
    return loss_weight * ((a - b)**2).mean()


def ref_ft(s, t, loss_weight=1.):
    return loss_weight * (unit(s.flatten(1)) - unit(t.flatten(1))
                          ).abs().mean()


def ref_ofd(s, t, loss_weight=1., mul_factor=1000.):
    skip = (s <= t) & (t <= 0)
    return loss_weight * ((s - t)**2)[~skip].sum() / len(s) / mul_factor


def ref_pkd(s, t, loss_weight=1., resize_stu=True):
    if torch.is_tensor(s):
        s, t = (s, ), (t, )
    out = 0
    for a, b in zip(s, t):
        if a.shape[2:] != b.shape[2:]:
            if resize_stu:
                a = F.interpolate(a, b.shape[2:], mode='bilinear')
            else:
                b = F.interpolate(b, a.shape[2:], mode='bilinear')
        n = []
        for x in (a, b):
            cols = [x[:, c].flatten() for c in range(x.shape[1])]
            if any(c.std() < 1e-2 for c in cols):
                raise Skip
            n.append(torch.stack([(c - c.mean()) / (c.std() + 1e-6)
                                  for c in cols]))
        out = out + ((n[0] - n[1])**2).mean() / 2
    return loss_weight * out


def ref_mgd(s, t, alpha_mgd=2e-5):
    return alpha_mgd * ((s - t)**2).sum() / len(t)


def best(x):
    v = x.detach().sort(1)[0]
    if (v[:, -1] - v[:, -2]).min() < 1e-3:
        raise Skip
    return x.argmax(1)


def ref_ce(s, t, loss_weight=1.):
    p = soft(s)
    return -loss_weight * sum(p[i, k].log() for i, k in
                              enumerate(best(t).tolist())) / len(s)


def ref_onehot(t, loss_weight=1.):
    return ref_ce(t, t, loss_weight)


def ref_entropy(t, loss_weight=1., gather=True):
    p = soft(t).mean(0)
    return loss_weight * (p * p.log()).sum() / math.log(10)


def ref_activation(t, loss_weight=1., norm_type='abs'):
    return -loss_weight * (t.abs().mean() if norm_type == 'abs' else
                           (t**2).sum().sqrt())


def ref_dist(s, t, inter_loss_weight=1., intra_loss_weight=1., tau=1.,
             loss_weight=1., teacher_detach=True):
    a, b = soft(s / tau), soft(t / tau)

    def relation(a, b):
        out = []
        for x, y in zip(a, b):
            x, y = x - x.mean(), y - y.mean()
            if min(x.norm(), y.norm()) < 1e-2:
                raise Skip
            out.append(1 - (x @ y) / (x.norm() * y.norm()))
        return sum(out) / len(out)
    return loss_weight * tau**2 * (inter_loss_weight * relation(a, b) +
                                   intra_loss_weight * relation(a.T, b.T))


def grid(**kw):
    return [dict(zip(kw, v)) for v in itertools.product(*kw.values())]


W = (1., .3)
RED = ('none', 'batchmean', 'sum', 'mean')
LOGITS = ('logits', )
FEATS = ('map', 'map4')
# name: reference, settings, shapes, what it takes
LOSSES = {
    'KLDivergence': (ref_kl, grid(tau=(1., 3.), reduction=RED, loss_weight=W,
                                  teacher_detach=(True, False)), LOGITS,
                     'st'),
    'DKDLoss': (ref_dkd, grid(tau=(1., 3.), reduction=RED, loss_weight=W,
                              alpha=(1., .5), beta=(1., 2.)), LOGITS, 'sty'),
    'ChannelWiseDivergence': (ref_cwd, grid(tau=(1., 3.), loss_weight=W),
                              FEATS, 'st'),
    'DistanceWiseRKD': (ref_distance, grid(loss_weight=W, with_l2_norm=(
        True, False)), LOGITS + FEATS, 'st'),
    'AngleWiseRKD': (ref_angle, grid(loss_weight=W, with_l2_norm=(
        True, False)), LOGITS + FEATS, 'st'),
    'WSLD': (ref_wsld, grid(tau=(1., 3.), loss_weight=W), LOGITS, 'sty'),
    'L2Loss': (ref_l2, grid(loss_weight=W, normalize=(True, False),
                            mult=(1., 3.), div_element=(True, False),
                            dist=(True, False)), LOGITS + FEATS, 'st'),
    'L1Loss': (ref_l1, grid(loss_weight=W, reduction=(
        'none', 'sum', 'mean')), LOGITS + FEATS, 'st'),
    'ABLoss': (ref_ab, grid(loss_weight=W, margin=(1., .5)), LOGITS + FEATS,
               'st'),
    'ATLoss': (ref_at, grid(loss_weight=W), FEATS, 'st'),
    'FTLoss': (ref_ft, grid(loss_weight=W), LOGITS + FEATS, 'st'),
    'OFDLoss': (ref_ofd, grid(loss_weight=W, mul_factor=(1000., 2.)),
                LOGITS + FEATS, 'st'),
    'PKDLoss': (ref_pkd, grid(loss_weight=W, resize_stu=(True, False)),
                FEATS, 'st'),
    'MGDLoss': (ref_mgd, grid(alpha_mgd=(2e-5, 1.)), FEATS, 'st'),
    'mmrazor.CrossEntropyLoss': (ref_ce, grid(loss_weight=W), LOGITS, 'st'),
    'OnehotLikeLoss': (ref_onehot, grid(loss_weight=W), LOGITS, 't'),
    'InformationEntropyLoss': (ref_entropy, grid(loss_weight=W, gather=(
        True, False)), LOGITS, 't'),
    'ActivationLoss': (ref_activation, grid(loss_weight=W, norm_type=(
        'abs', 'norm')), LOGITS + FEATS, 't'),
    'DISTLoss': (ref_dist, grid(inter_loss_weight=(1., .5),
                                intra_loss_weight=(1., 2.), tau=(1., 3.),
                                loss_weight=W, teacher_detach=(True, False)),
                 LOGITS, 'st'),
}
SHAPES = dict(logits=((2, 2), (1, 3)), map=((1, 2, 1, 2), (2, 1, 2, 1)),
              map4=((2, 1, 1, 2), ))
BIG = dict(logits=((4, 5), (3, 2)), map=((3, 2, 3, 2), ),
           map4=((2, 3, 1, 4), ))


def build(name, kw):
    import mmrazor.models  # noqa
    from mmrazor.registry import MODELS
    kw = dict(kw)
    if name == 'WSLD':
        kw.setdefault('num_classes', 3)
    return MODELS.build(dict(type=name, **kw))


def labels(shape):
    return torch.arange(shape[0]) % shape[1]


def evaluate(name, loss, kw, s, t, y, takes, grad, what):
    args = [dict(s=s, t=t, y=y)[k] for k in takes]
    ref = LOSSES[name][0]
    both = []
    for fn, cast, kws in ((loss, torch.Tensor.float, {}),
                          (ref, torch.Tensor.double, kw)):
        a = [x if x.dtype is torch.long else
             cast(x.detach()).requires_grad_() for x in args]
        before = [x.detach().clone() for x in a]
        out = fn(*a, **kws)
        expect(all(torch.equal(x, b) for x, b in zip(a, before)),
               f'{what}: changes its arguments')
        both.append((a, out))
    (a, got), (b, want) = both
    if not torch.isfinite(want).all():
        raise Skip
    expect(torch.is_tensor(got) and got.shape == want.shape,
           f'{what}: gives {got}, expected {want}')
    # a correlation of nearly constant rows cancels digits
    atol = 2e-4 if name == 'DISTLoss' else 1e-5
    expect(torch.allclose(got.double(), want, rtol=1e-3, atol=atol), lambda:
           f'{what}: {got.tolist()}, expected {want.tolist()}')
    if grad and 's' in takes:
        g, = torch.autograd.grad(got.sum(), a[0], retain_graph=True)
        h, = torch.autograd.grad(want.sum(), b[0])
        expect(torch.allclose(g.double(), h, rtol=1e-3, atol=1e-5), lambda:
               f'{what}: gradient {g.tolist()}, expected {h.tolist()}')
        if 'teacher_detach' in kw:
            gt, = torch.autograd.grad(got.sum(), a[1], allow_unused=True)
            expect((gt is None or not gt.any()) == kw['teacher_detach'],
                   f'{what}: teacher gradient {gt}')
    return want


def scope_menu(ctx, case):
    """Every student tensor over the menu, against some teachers."""
    name, kw, shape, step = case
    ref, _, _, takes = LOSSES[name]
    if name == 'WSLD':
        kw = dict(kw, num_classes=shape[1])
    loss = build(name, kw)
    n = math.prod(shape)
    ts = [torch.tensor(v) for v in ([.5, -1., 1.5, .1], [-.2, 2., 0., .7],
                                    [1., -2., -.3, 0.])]
    for i, v in enumerate(itertools.product(MENU, repeat=n)):
        if i % step:
            continue
        s = torch.tensor(v).reshape(shape)
        for t in (ts if takes != 't' else (s.flatten(), )):
            t = t[:n].reshape(shape)
            ctx.step()
            try:
                want = evaluate(name, loss, kw, s, t, labels(shape), takes,
                                False, f'{case}: {v}, {t.tolist()}')
            except Skip:
                continue
            ctx.state((name, shape, v, round(float(want.sum()), 6)))


def scope_big(ctx, case):
    """Larger tensors, with gradients; a loss keeps no memory."""
    name, kw, shape, seed = case
    takes = LOSSES[name][3]
    if name == 'WSLD':
        kw = dict(kw, num_classes=shape[1])
    loss = build(name, kw)
    g = torch.Generator().manual_seed(seed)
    for k in range(2):
        s, t = (torch.randn(*shape, generator=g) for _ in range(2))
        y = torch.randint(0, shape[1], (shape[0], ), generator=g)
        for d in range(2):
            ctx.step()
            try:
                evaluate(name, loss, kw, s, t, y, takes, True,
                         f'{case}: {k}')
            except Skip:
                break
    ctx.state((name, tuple(kw.items()), shape))


def scope_resize(ctx, case):
    """Maps of two sizes, one or several levels."""
    kw, a, b, levels = case
    loss = build('PKDLoss', kw)
    g = torch.Generator().manual_seed(levels)
    s = tuple(torch.randn(2, 2, *a, generator=g) for _ in range(levels))
    t = tuple(torch.randn(2, 2, *b, generator=g) for _ in range(levels))
    ctx.step()
    got = loss(s, t) if levels > 1 else loss(s[0], t[0])
    want = ref_pkd([x.double() for x in s], [x.double() for x in t], **kw)
    expect(torch.allclose(got.double(), want, rtol=1e-3), lambda:
           f'{case}: {got}, expected {want}')
    ctx.state(case)


def scope_fbkd(ctx, case):
    kw, shape, seed = case
    n, c, h, w = shape
    g = torch.Generator().manual_seed(seed)
    rand = lambda *s: torch.randn(*s, generator=g)  # noqa
    sm, tm = rand(n, 1, h, w).abs(), rand(n, 1, h, w).abs()
    sc, tc = rand(n, c, 1, 1).abs(), rand(n, c, 1, 1).abs()
    t_feat, s_feat = rand(*shape), rand(*shape)
    s_pool, t_pool, s_chan = rand(n, 1, h, w), rand(n, 1, h, w), rand(n, c)
    s_rel, t_rel = rand(*shape), rand(*shape)
    ctx.step()
    got = build('FBKDLoss', kw)(
        (sm, sc, s_chan, s_pool, s_rel, s_feat),
        (tm, tc, t_pool, t_rel, t_feat))
    d = lambda x: (x.double()**2).sum().sqrt()  # noqa
    m = (sm + tm) / 2
    want = kw.get('loss_weight', 1.) * (
        kw['mask_l2_weight'] * d((t_feat - s_feat) * m.sqrt()) +
        kw['channel_weight'] * d(t_feat.mean((2, 3)) - s_chan) +
        kw['spatial_weight'] * d(t_pool - s_pool) +
        kw['nonloacl_weight'] * d(t_rel - s_rel))
    expect(torch.allclose(got.double(), want, rtol=1e-4),
           f'{case}: {got}, expected {want}')
    ctx.state(case)


def run(ctx):
    menus, bigs = [], []
    for name, (_, kws, kinds, takes) in LOSSES.items():
        shapes = [s for k in kinds for s in SHAPES[k]]
        many = len(kws) * len(shapes) > 16 and not ctx.thorough
        for kw, shape in itertools.product(kws, shapes):
            menus.append((name, kw, shape, 5 if many else
                          1 if ctx.thorough else 2))
        for kw, k in itertools.product(kws, kinds):
            bigs += [(name, kw, s, seed) for s in BIG[k]
                     for seed in range(6 if ctx.thorough else 2)]
    ctx.parallel('menu', menus, lambda c: scope_menu(ctx, c))
    ctx.parallel('big', bigs, lambda c: scope_big(ctx, c))
    sizes = ((2, 2), (4, 2), (2, 4), (4, 4), (3, 5), (1, 2))
    ctx.parallel('resize', [
        (dict(resize_stu=r), a, b, n) for r in (True, False)
        for a in sizes for b in sizes for n in (1, 2)],
        lambda c: scope_resize(ctx, c))
    ctx.parallel('fbkd', [
        (kw, s, seed) for kw in grid(
            mask_l2_weight=(1., .1), channel_weight=(1., .2),
            spatial_weight=(1., .3), nonloacl_weight=(1., .4),
            loss_weight=W)
        for s in ((2, 3, 2, 2), (1, 2, 3, 1)) for seed in range(2)],
        lambda c: scope_fbkd(ctx, c))
