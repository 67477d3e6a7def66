"""Contrastive distillation: its samples, memory and loss."""
import contextlib
import copy
import io
import itertools
import math
from unittest import mock

import numpy as np
import torch

from mc.core import expect
from mc.explore import explore_choices, own_random

RULE = ('every labelling, setting and outcome of the draws of the data set; '
        'every sequence of batches of the loss; every table of the sampler; '
        'non-trivial: a contrast or loss that was computed')
ASSUMPTIONS = ['a labelling has at least two classes',
               'no sample is twice in a batch']


def dataset(labels, test_mode=False, bad=(), serialize=False):
    from mmengine.dataset import BaseDataset

    class Data(BaseDataset):

        def load_data_list(self):
            return [dict(gt_label=y, no=i) for i, y in enumerate(labels)]

        def get_gt_labels(self):
            return [self.get_data_info(i)['gt_label']
                    for i in range(len(self))]

        def _rand_another(self):
            return next(i for i in range(len(self)) if i not in bad)

    return Data(test_mode=test_mode, lazy_init=True, serialize_data=serialize,
                pipeline=[
        lambda d: None if d['no'] in bad else d])


def check_item(what, labels, allowed, mode, neg, idx, item):
    expect(item['sample_idx'] == idx and item['no'] == idx and
           item['gt_label'] == labels[idx], f'{what}: item {item}')
    got = [int(v) for v in item['contrast_sample_idxs']]
    expect(len(got) == neg + 1, f'{what}: contrast {got}')
    pos, rest = got[0], got[1:]
    expect(pos == idx if mode == 'exact' else labels[pos] == labels[idx],
           f'{what}: positive {pos} of {idx}')
    pool = allowed[labels[idx]]
    expect(set(rest) <= set(pool), f'{what}: negatives {rest} of {pool}')
    if neg <= len(pool):
        expect(len(set(rest)) == neg, f'{what}: negatives {rest} repeat')
    return got


def scope_draws(ctx, case):
    """All contrasts every sample can get are valid, and no valid one is
    out of reach."""
    labels, mode, neg, classes, lazy = case
    import mmrazor.datasets  # noqa
    from mmrazor.registry import DATASETS
    data = DATASETS.build(dict(
        type='CRDDataset', dataset=dataset(labels), neg_num=neg, percent=1.,
        sample_mode=mode, num_classes=classes, lazy_init=lazy))
    if lazy:
        data.full_init()
    expect(len(data) == len(labels), f'{case}: length')
    pools = {y: [i for i, z in enumerate(labels) if z != y] for y in labels}
    for idx, y in enumerate(labels):
        seen = set()

        def once(ch):
            with own_random(ch):
                return data[idx]
        for _, item in explore_choices(once):
            ctx.step()
            seen.add(tuple(check_item(f'{case}', labels, pools, mode, neg,
                                      idx, item)))
        same = [idx] if mode == 'exact' else \
            [i for i, z in enumerate(labels) if z == y]
        n = len(pools[y])
        want = len(same) * (math.perm(n, neg) if neg <= n else n**neg)
        expect(len(seen) == want, f'{case}: sample {idx} can have '
               f'{len(seen)} contrasts, not {want}')
        ctx.state((labels, mode, neg, idx, len(seen)))


def scope_percent(ctx, case):
    """A part of the negatives of every class."""
    labels, percent, neg = case
    from mmrazor.datasets import CRDDataset
    base = {y: [i for i, z in enumerate(labels) if z != y] for y in labels}
    pools = set()

    def once(ch):
        with own_random(ch):
            data = CRDDataset(dataset(labels), neg, percent)
        out = {y: set() for y in base}
        for idx, y in enumerate(labels):
            if not int(percent * len(base[y])):
                continue

            def draw(c):
                with own_random(c):
                    return data[idx]
            for _, item in explore_choices(draw):
                ctx.step()
                got = [int(v) for v in item['contrast_sample_idxs']]
                expect(got[0] == idx and len(got) == neg + 1,
                       f'{case}: contrast {got} of {idx}')
                out[y] |= set(got[1:])
        return out
    for _, out in explore_choices(once):
        for y, pool in out.items():
            n = int(percent * len(base[y]))
            expect(pool <= set(base[y]) and len(pool) == n,
                   f'{case}: class {y} uses {sorted(pool)}, '
                   f'{n} of {base[y]} expected')
            pools.add((y, tuple(sorted(pool))))
    for y in base:
        n = len(base[y])
        k = int(percent * n)
        expect(sum(1 for z, _ in pools if z == y) == math.comb(n, k),
               f'{case}: class {y} can only get {pools}')
    ctx.state((labels, percent, len(pools)))


def scope_life(ctx, case):
    """Initialization, testing, refetching and copies."""
    labels, test_mode, lazy, bad = case
    from mmrazor.datasets import CRDDataset
    data = CRDDataset(dataset(labels, test_mode, bad, lazy), 1, 1.,
                      lazy_init=lazy)
    pools = {y: [i for i, z in enumerate(labels) if z != y] for y in labels}
    for idx in range(len(labels)):
        ctx.step()
        if test_mode:
            if idx in bad:
                try:
                    data[idx]
                except Exception:  # noqa
                    continue
                expect(False, f'{case}: a broken test sample is given')
            item = data[idx]
            expect('contrast_sample_idxs' not in item and item['no'] == idx,
                   f'{case}: {item}')
            continue
        real = idx
        if idx in bad:
            real = next(i for i in range(len(labels)) if i not in bad)
        check_item(f'{case}', labels, pools, 'exact', 1, real, data[idx])
        info = data.get_data_info(idx)
        info['no'] = 'changed'
        expect(data.get_data_info(idx)['no'] == idx, f'{case}: not a copy')
    data.metainfo['a'] = 1
    expect('a' not in data.metainfo, f'{case}: metainfo is not a copy')
    expect(len(data) == len(labels), f'{case}: length')
    ctx.state(case)


class Model:
    """The memory and the loss, in double precision."""

    def __init__(self, loss, n, neg, kw):
        c = loss.contrast
        self.mem = [m.double().clone() for m in (c.memory_v1, c.memory_v2)]
        self.z = [None, None]
        self.n, self.neg, self.kw = n, neg, kw

    def step(self, s, t, idx, contrast):
        tau, eps = self.kw['temperature'], self.kw.get('eps', 1e-7)
        mom, noise = self.kw['momentum'], self.neg / self.n
        total = 0
        new = [m.clone() for m in self.mem]
        for k, (feat, own) in enumerate(((s, 1), (t, 0))):
            # the student is compared with the teacher's memory
            mem = self.mem[own]
            out = torch.stack([torch.stack([
                (mem[j] @ feat[b] / tau).exp() for j in row])
                for b, row in enumerate(contrast)])
            if self.z[k] is None:
                self.z[k] = (out.mean() * self.n).detach()
            out = out / self.z[k]
            loss = 0
            for row in out:
                loss = loss - (row[0] / (row[0] + noise + eps)).log()
                for v in row[1:]:
                    loss = loss - (noise / (v + noise + eps)).log()
            total = total + loss / len(idx)
            for b, i in enumerate(idx):
                v = mom * self.mem[k][i] + (1 - mom) * feat[b].detach()
                new[k][i] = v / v.norm()
        self.mem = new
        return self.kw.get('loss_weight', 1.) * total


BATCHES = (
    ((0, 1), ((0, 2), (1, 3))),
    ((2, 0), ((2, 1), (0, 0))),
    ((3, ), ((3, 2), )),
    ((1, 3), None),
)
DIM, N = 2, 4


def samples(idx, contrast):
    from mmengine.structures import BaseDataElement
    out = []
    for b, i in enumerate(idx):
        kw = dict(sample_idx=torch.tensor(i))
        if contrast is not None:
            kw['contrast_sample_idxs'] = torch.tensor(contrast[b])
        out.append(BaseDataElement(metainfo={}, **kw))
    return out


def scope_loss(ctx, case):
    """Sequences of batches, with saving and loading between them."""
    kw, seq, save = case
    import mmrazor.models  # noqa
    from mmrazor.models.losses.crd_loss import AliasMethod
    from mmrazor.registry import MODELS
    g = torch.Generator().manual_seed(len(seq))

    def make(seed):
        torch.manual_seed(seed)
        return MODELS.build(dict(type='CRDLoss', neg_num=1, sample_n=N,
                                 dim_out=DIM, **kw))
    loss = make(0)
    bound = 1 / math.sqrt(DIM / 3)
    for m in (loss.contrast.memory_v1, loss.contrast.memory_v2):
        expect(m.shape == (N, DIM) and m.abs().max() <= bound + 1e-6,
               f'{case}: memory {m}')
    model = Model(loss, N, 1, kw)
    for pos, k in enumerate(seq):
        idx, contrast = BATCHES[k]
        s, t = (torch.nn.functional.normalize(torch.randn(
            len(idx), DIM, generator=g), dim=1) for _ in range(2))
        s.requires_grad_(), t.requires_grad_()
        drawn = []
        draw = AliasMethod.draw

        def spy(self, n):
            drawn.append(draw(self, n).clone())
            return drawn[-1].clone()
        ctx.step()
        with mock.patch.object(AliasMethod, 'draw', spy), \
                contextlib.redirect_stdout(io.StringIO()):
            got = loss(s, t, samples(idx, contrast))
        if contrast is None:
            if not drawn:
                return
            rows = drawn[-1].view(len(idx), 2)
            expect(bool(((rows >= 0) & (rows < N)).all()),
                   f'{case}: draws {rows}')
            contrast = [[i, int(r[1])] for i, r in zip(idx, rows)]
        sd, td = (x.detach().double().requires_grad_() for x in (s, t))
        want = model.step(sd, td, idx, contrast)
        what = f'{case}: batch {pos}'
        expect(got.numel() == 1 and abs(float(got) - float(want)) <=
               1e-3 * (1 + abs(float(want))),
               f'{what}: loss {got.tolist()}, expected {float(want)}')
        for a, b in zip(torch.autograd.grad(got.sum(), (s, t)),
                        torch.autograd.grad(want, (sd, td))):
            expect(torch.allclose(a.double(), b, rtol=1e-2, atol=1e-3),
                   lambda: f'{what}: gradient {a}, expected {b}')
        for m, w in zip((loss.contrast.memory_v1, loss.contrast.memory_v2),
                        model.mem):
            expect(torch.allclose(m.double(), w, atol=1e-5),
                   lambda: f'{what}: memory {m}, expected {w}')
            expect(not m.requires_grad, f'{what}: memory is trained')
        if save == pos:
            state = copy.deepcopy(loss.state_dict())
            loss = make(1)
            loss.load_state_dict(state)
        ctx.state((tuple(sorted(kw.items())), seq[:pos + 1],
                   round(float(want), 5)))


def scope_alias(ctx, case):
    """The sampler follows its probabilities exactly."""
    weights = case
    from mmrazor.models.losses.crd_loss import AliasMethod
    w = torch.tensor(weights)
    table = AliasMethod(w.clone())
    n, grid = len(weights), 240
    used = []

    def random_(self, low, high):
        used.append(1)
        expect((low, high) == (0, n), f'{case}: draws {low}..{high}')
        return self.copy_(torch.arange(n * grid) // grid)

    def bernoulli(p, *a, **k):
        used.append(2)
        return ((torch.arange(n * grid) % grid + .5) / grid < p).to(p)
    ctx.step()
    with mock.patch.object(torch.Tensor, 'random_', random_), \
            mock.patch.object(torch, 'bernoulli', bernoulli):
        got = table.draw(n * grid)
    if sorted(used) != [1, 2]:
        expect(bool(((got >= 0) & (got < n)).all()), f'{case}: {got}')
        return
    count = np.bincount(got.numpy(), minlength=n)
    want = (w / w.sum()).numpy() * n * grid
    expect(len(count) == n and (abs(count - want) <= n).all(),
           f'{case}: drawn {count}, expected {want}')
    ctx.state((weights, tuple(count)))


def run(ctx):
    n = 5 if ctx.thorough else 4
    draws, percents, lives = [], [], []
    for k in range(2, n + 1):
        for labels in itertools.product(range(3), repeat=k):
            if len(set(labels)) < 2:
                continue
            for mode, neg in itertools.product(('exact', 'random'),
                                               (1, 2, 3)):
                draws.append((labels, mode, neg, None, neg == 2))
                if neg == 1:
                    draws.append((labels, mode, neg, 4, False))
            for percent in (.34, .5, .99):
                percents.append((labels, percent, 1))
            for bad in ((), (0, ), (k - 1, )):
                lives += [(labels, t, lazy, bad) for t in (False, True)
                          for lazy in (False, True)]
    ctx.parallel('draws', draws, lambda c: scope_draws(ctx, c))
    ctx.parallel('percent', percents, lambda c: scope_percent(ctx, c))
    ctx.parallel('life', lives, lambda c: scope_life(ctx, c))
    kws = [dict(temperature=t, momentum=m, **w) for t, m, w in
           itertools.product((.07, .5), (.5, .9),
                             ({}, dict(loss_weight=.8)))] + [
        dict(temperature=.5, momentum=.5, eps=.1)]
    depth = 4 if ctx.thorough else 3
    seqs = [s for k in range(1, depth + 1)
            for s in itertools.product(range(4), repeat=k)]
    ctx.parallel('loss', [(kw, s, save) for kw in kws for s in seqs
                          for save in (None, 0)], lambda c: scope_loss(ctx, c))
    tables = [w for k in range(1, 6 if ctx.thorough else 5)
              for w in itertools.product((0., 1., 2., 5.), repeat=k)
              if sum(w) >= 1] + [(1., ) * k for k in range(1, 60)]
    ctx.parallel('alias', tables, lambda c: scope_alias(ctx, c))
