"""Training steps: which subnets run, what they learn from, when weights move."""
import contextlib
import copy
import itertools
import os
import tempfile

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import expect
from mc.explore import explore_choices, own_random

RULE = ('every algorithm x accumulation count x start iteration x horizon x '
        'outcome of the subnet draws x number of steps on a small supernet; '
        'after every step the weights, the subnets run and the reported '
        'losses are compared with a plain PyTorch re-statement of the '
        'protocol; non-trivial: the step runs two subnets or two optimizers')
ASSUMPTIONS = ['SGD; losses are compared at 1e-5; the subnet forward itself '
               'is the subject of P02 and P07']


def build_all():
    import mmrazor.models  # noqa
    from mmengine.model import BaseModel
    from mmrazor.registry import MODELS

    class Net(BaseModel):
        """conv - bn - conv - bn - pool - linear, MSE loss."""

        def __init__(self, bn=True, log=None):
            super().__init__()
            torch.manual_seed(3)
            self.c1 = nn.Conv2d(3, 4, 1)
            self.b1 = nn.BatchNorm2d(4) if bn else nn.Identity()
            self.c2 = nn.Conv2d(4, 4, 1)
            self.b2 = nn.BatchNorm2d(4) if bn else nn.Identity()
            self.head = nn.Linear(4, 2)

        def net(self, x):
            x = F.relu(self.b1(self.c1(x)))
            x = F.relu(self.b2(self.c2(x)))
            return self.head(F.adaptive_avg_pool2d(x, 1).flatten(1))

        def forward(self, inputs, data_samples=None, mode='tensor'):
            y = self.net(inputs)
            if mode == 'loss':
                return dict(loss=F.mse_loss(y, data_samples),
                            acc=y.detach().mean())
            return y

    return Net, MODELS


def batch(i):
    g = torch.Generator().manual_seed(100 + i)
    return dict(inputs=torch.randn(4, 3, 3, 3, generator=g),
                data_samples=torch.randn(4, 2, generator=g))


class Hub:
    """What the optimizer wrapper and the loops read from the runner."""

    def __init__(self, it=0, max_iters=10, epoch=0):
        self.runtime_info = {'iter': it, 'max_iters': max_iters,
                             'epoch': epoch}

    def get_info(self, k, default=None):
        return self.runtime_info.get(k, default)


def wrapper(params, accum, hub, lr=.1, **kw):
    from mmengine.optim import OptimWrapper
    w = OptimWrapper(torch.optim.SGD(params, lr=lr, **kw),
                     accumulative_counts=accum)
    w.message_hub = hub
    return w


class RefOptim:
    """mmengine's documented accumulation: a step after every ``accum``
    losses and at the very last one; each loss divided by the number of
    losses of its group."""

    def __init__(self, params, accum, init, max_counts, lr=.1, **kw):
        self.opt = torch.optim.SGD(params, lr=lr, **kw)
        self.accum, self.n, self.max = accum, init, max_counts
        self.steps = 0

    def update(self, loss):
        f = self.accum
        if self.max >= 0 and self.n >= self.max - self.max % self.accum:
            f = self.max % self.accum or self.accum
        if self.accum == 1:
            f = 1
        (loss / f).backward()
        self.n += 1
        if self.n % self.accum == 0 or self.n == self.max:
            self.opt.step()
            self.opt.zero_grad()
            self.steps += 1


def same_state(a, b, what, tol=1e-5):
    sa, sb = a.state_dict(), b.state_dict()
    expect(sa.keys() == sb.keys(), f'{what}: state {set(sa) ^ set(sb)}')
    for k in sa:
        expect(torch.allclose(sa[k].double(), sb[k].double(), atol=tol,
                              rtol=1e-4),
               lambda: f'{what}: {k} is off by '
               f'{(sa[k].double() - sb[k].double()).abs().max():.3g}')


def unit_choices(mutator):
    return tuple(u.current_choice for u in mutator.mutable_units)


@contextlib.contextmanager
def runs(algo, log, probe):
    """Log (mode, subnet) of every architecture forward."""
    h = algo.architecture.register_forward_pre_hook(
        lambda m, a, kw: log.append((kw.get('mode', a[2] if len(a) > 2 else
                                            'tensor'), probe(),
                                     algo.architecture.training)),
        with_kwargs=True)
    try:
        yield
    finally:
        h.remove()


def total(losses):
    return sum(v.mean() for k, v in losses.items() if 'loss' in k)


def ddp(kind, algo, use):
    if not use:
        return algo
    import mmrazor.models.algorithms as A
    init_dist()
    return getattr(A, kind + 'DDP')(module=algo, find_unused_parameters=True)


def init_dist():
    import torch.distributed as dist
    if not dist.is_initialized():
        f = tempfile.mktemp()
        dist.init_process_group('gloo', init_method=f'file://{f}', rank=0,
                                world_size=1)
        if os.path.exists(f):
            os.unlink(f)


PARSE = dict(type='ChannelAnalyzer', demo_input=(1, 3, 3, 3),
             tracer_type='BackwardTracer')


# ---- slimmable ---------------------------------------------------------
def slim_units(Net, MODELS, table):
    """Unit config with the declared choices, in tracing order."""
    m = MODELS.build(dict(type='SlimmableChannelMutator', parse_cfg=PARSE))
    m.prepare_from_supernet(Net())
    tpl = m.config_template(with_channels=False, with_unit_init_args=True)
    units = tpl['channel_unit_cfg']['units']
    names = list(units)
    for name, row in zip(names, zip(*table)):
        units[name]['init_args']['candidate_choices'] = list(row)
        units[name]['init_args']['choice_mode'] = 'number'
    return {n: units[n] for n in names[:len(table[0])]}, names


def slim_algo(table, **kw):
    Net, MODELS = build_all()
    units, names = slim_units(Net, MODELS, table)
    return MODELS.build(dict(
        type='SlimmableNetwork', architecture=Net(),
        mutator=dict(type='SlimmableChannelMutator', parse_cfg=PARSE,
                     channel_unit_cfg=dict(type='SlimmableChannelUnit',
                                           units=units)), **kw)), names


def slimmable(ctx, spec):
    table, accum, start, horizon, steps, use_ddp = spec
    algo, names = slim_algo(table)
    ref = copy.deepcopy(algo)
    n = len(table)
    expect(algo.num_subnet == n, f'{algo.num_subnet} subnets')
    hub = Hub(start, horizon)
    ow = wrapper(algo.parameters(), accum, hub)
    rw = RefOptim(ref.parameters(), accum, start * n, horizon * n)
    model = ddp('SlimmableNetwork', algo, use_ddp)
    model.train()
    ref.train()
    for s in range(steps):
        ctx.step()
        log = []
        d = batch(s)
        with runs(algo, log, lambda: unit_choices(algo.mutator)):
            got = model.train_step(d, ow)
        hub.runtime_info['iter'] += 1
        want_log = [tuple(r) for r in table]
        expect([c for m, c, t in log] == want_log
               and all(m == 'loss' for m, c, t in log),
               f'step {s}: ran {log}, declared {want_log}')
        want = {}
        for i, row in enumerate(table):
            ref.mutator.set_choices(dict(zip(names, row)))
            out = ref(d['inputs'], d['data_samples'], mode='loss')
            want[f'subnet_{i}.loss'] = out['loss'].item()
            want[f'subnet_{i}.acc'] = out['acc'].item()
            rw.update(total(out))
        got = {k: v.item() for k, v in got.items()}
        expect(got.keys() == want.keys() and all(
            abs(got[k] - want[k]) < 1e-4 for k in want),
            f'step {s}: reports {got}, expected {want}')
        same_state(algo, ref, f'step {s}')
        ctx.state((spec, s, round(sum(want.values()), 4)))


def deploy(ctx, spec):
    table, i = spec
    from mmengine.model import BaseModel  # noqa
    ctx.step()
    algo, names = slim_algo(table)
    x = batch(0)['inputs']
    algo.mutator.set_choices(dict(zip(names, table[i])))
    algo.eval()
    want = algo(x, mode='tensor')
    dep, _ = slim_algo(table, deploy_index=i)
    expect(dep.is_deployed, 'not deployed')
    dep.eval()
    got = dep(x, mode='tensor')
    expect(torch.allclose(got, want, atol=1e-5),
           f'the deployed network is not subnet {i}')
    widths = (dep.architecture.c1.weight.shape[0],
              dep.architecture.c2.weight.shape[0])
    expect(widths == tuple(table[i]), f'deployed widths {widths}')
    dep.train()
    ref = copy.deepcopy(dep)
    ow = wrapper(dep.parameters(), 1, Hub())
    out = dep.train_step(batch(1), ow)
    opt = RefOptim(ref.parameters(), 1, 0, -1)
    d = batch(1)
    o = ref(d['inputs'], d['data_samples'], mode='loss')
    opt.update(total(o))
    expect(set(out) == {'loss', 'acc'}, f'deployed step reports {set(out)}')
    same_state(dep, ref, 'deployed step')
    ctx.state(spec)


# ---- AutoSlim / BigNAS ---------------------------------------------------
DISTILLER = dict(
    type='ConfigurableDistiller',
    teacher_recorders=dict(fc=dict(type='ModuleOutputs', source='head')),
    student_recorders=dict(fc=dict(type='ModuleOutputs', source='head')),
    distill_losses=dict(loss_kl=dict(type='KLDivergence', tau=2,
                                     loss_weight=.5)),
    loss_forward_mappings=dict(loss_kl=dict(
        preds_S=dict(recorder='fc', from_student=True),
        preds_T=dict(recorder='fc', from_student=False))))


def kd(s, t):
    """0.5 * tau^2 * KL(softmax(t/2) || softmax(s/2)), mean over the batch."""
    p = torch.softmax(t / 2, 1)
    return .5 * 4 * (p * (p.log() - torch.log_softmax(s / 2, 1))).sum() / \
        s.shape[0]


def autoslim_algo(cands, nrand):
    Net, MODELS = build_all()
    m = MODELS.build(dict(type='OneShotChannelMutator', parse_cfg=PARSE,
                          channel_unit_cfg=dict(
                              type='OneShotMutableChannelUnit',
                              default_args=dict(candidate_choices=list(cands),
                                                choice_mode='number'))))
    return MODELS.build(dict(
        type='AutoSlim', architecture=Net(), mutator=m,
        distiller=copy.deepcopy(DISTILLER), num_random_samples=nrand))


def bignas_algo(cands, nrand):
    Net, MODELS = build_all()
    from mmrazor.models.architectures.dynamic_ops import (
        DynamicBatchNorm2d, DynamicConv2d, DynamicLinear, DynamicSequential)
    from mmrazor.models.architectures.ops import MBBlock
    from mmrazor.models.mutables import (MutableChannelContainer,
                                         OneShotMutableChannel,
                                         OneShotMutableChannelUnit)

    class Backbone(nn.Module):

        def __init__(self):
            super().__init__()
            self.c1 = DynamicConv2d(3, 4, 1)
            self.b1 = DynamicBatchNorm2d(4)
            self.layers = nn.ModuleList([
                DynamicSequential(MBBlock(3, 1, in_channels=2,
                                          out_channels=2, stride=1)),
                DynamicSequential(MBBlock(3, 1, in_channels=2,
                                          out_channels=2, stride=1),
                                  MBBlock(3, 1, in_channels=2,
                                          out_channels=2, stride=1)),
                DynamicSequential()])

    class BNet(Net):

        def __init__(self):
            super().__init__()
            torch.manual_seed(4)
            del self.c1, self.b1, self.c2, self.b2, self.head
            self.chan = OneShotMutableChannel(4, candidate_choices=list(cands))
            self.chan.current_choice = 4
            self.backbone = Backbone()
            self.head = DynamicLinear(4, 2)

            OneShotMutableChannelUnit._register_channel_container(
                self, MutableChannelContainer)
            reg = MutableChannelContainer.register_mutable_channel_to_module
            reg(self.backbone.c1, self.chan, True)
            reg(self.backbone.b1, self.chan, True)
            reg(self.head, self.chan, False)

        def net(self, x):
            x = F.relu(self.backbone.b1(self.backbone.c1(x)))
            return self.head(F.adaptive_avg_pool2d(x, 1).flatten(1))

    return MODELS.build(dict(
        type='BigNAS', architecture=BNet(), mutator=dict(type='NasMutator'),
        distiller=copy.deepcopy(DISTILLER), num_random_samples=nrand,
        drop_path_rate=.6, backbone_dropout_stages=[2]))


def probe_of(kind, algo):
    if kind == 'AutoSlim':
        return lambda: unit_choices(algo.mutator)

    def probe():
        rates = tuple(round(b.drop_path_rate, 6)
                      for l in algo.architecture.backbone.layers for b in l
                      if hasattr(b, 'drop_path_rate'))
        return (algo.architecture.chan.current_choice, ), rates
    return probe


def sandwich(ctx, spec):
    kind, cands, nrand, accum, start, horizon, steps, use_ddp = spec
    mk = autoslim_algo if kind == 'AutoSlim' else bignas_algo
    first = mk(cands, nrand)
    n = 2 + nrand
    seen = set()

    def one(ch):
        algo = copy.deepcopy(first)
        ref = copy.deepcopy(first)
        # recorders hook by name, so the copies need their own hooks
        for a in (algo, ref):
            a.distiller = type(a)._build_distiller(a, copy.deepcopy(DISTILLER))
            a.distiller.prepare_from_teacher(a.architecture)
            a.distiller.prepare_from_student(a.architecture)
        hub = Hub(start, horizon)
        ow = wrapper(algo.parameters(), accum, hub)
        rw = RefOptim(ref.parameters(), accum, start * n, horizon * n)
        model = ddp(kind, algo, use_ddp)
        model.train()
        ref.train()
        probe = probe_of(kind, algo)
        width = len(probe()) if kind == 'AutoSlim' else 1
        for s in range(steps):
            ctx.step()
            log = []
            d = batch(s)
            with runs(algo, log, probe), own_random(ch):
                got = model.train_step(d, ow)
            hub.runtime_info['iter'] += 1
            subs = [c for m, c, t in log]
            rates = None
            if kind == 'BigNAS':
                rates = [c[1] for c in subs]
                subs = [c[0] for c in subs]
                drop = (0., round(.6 * 1 / 3, 6), round(.6 * 2 / 3, 6))
                expect(rates == [drop] + [(0., 0., 0.)] * (n - 1),
                       f'{spec} step {s}: drop path rates {rates}')
            expect(len(subs) == n and all(m == 'loss' for m, c, t in log),
                   f'{spec} step {s}: ran {log}')
            expect(subs[0] == (max(cands), ) * width
                   and subs[1] == (min(cands), ) * width,
                   f'{spec} step {s}: not max then min: {subs}')
            expect(all(v in cands for c in subs[2:] for v in c),
                   f'{spec} step {s}: {subs}')
            seen.update(subs[2:])
            want = {}
            teacher = None
            names = ['max_subnet', 'min_subnet'] + [
                f'random{i}_subnet' for i in range(nrand)]
            for name, sub in zip(names, subs):
                if kind == 'AutoSlim':
                    for u, c in zip(ref.mutator.mutable_units, sub):
                        u.current_choice = c
                else:
                    ref.architecture.chan.current_choice = sub[0]
                y = ref.architecture.net(d['inputs'])
                hard = F.mse_loss(y, d['data_samples'])
                acc = y.detach().mean()
                out = {}
                if teacher is None:
                    teacher = y.detach()
                    loss = hard
                else:
                    loss = kd(y, teacher)
                    out['loss_kl'] = loss.item()
                    if kind == 'AutoSlim':
                        loss = loss + hard
                if kind == 'AutoSlim' or name == 'max_subnet':
                    out.update(loss=hard.item(), acc=acc.item())
                want.update({f'{name}.{k}': v for k, v in out.items()})
                rw.update(loss)
            got = {k: v.item() for k, v in got.items()}
            expect(got.keys() == want.keys() and all(
                abs(got[k] - want[k]) < 1e-4 for k in want),
                f'{spec} step {s}: reports {got}, expected {want}')
            same_state(algo.architecture, ref.architecture,
                       f'{spec} step {s} {subs}')
        return tuple(subs)

    for ch, res in explore_choices(one):
        ctx.state((spec, ch, res))
    if nrand:
        width = len(next(iter(seen)))
        expect(seen == set(itertools.product(cands, repeat=width)),
               f'{spec}: the draws only reach {seen}')


# ---- single path one-shot ------------------------------------------------
def one_shot_algo(kind):
    Net, MODELS = build_all()
    if MODELS.get('McScale') is None:

        class McScale(nn.Module):

            def __init__(self, k):
                super().__init__()
                self.w = nn.Parameter(torch.tensor(float(k)))

            def forward(self, x):
                return x * self.w
        MODELS.register_module(name='McScale', module=McScale)

    class SNet(Net):

        def __init__(self):
            super().__init__()
            mk = lambda: MODELS.build(dict(  # noqa
                type='OneShotMutableOP', candidates={
                    'a': dict(type='McScale', k=1.),
                    'b': dict(type='McScale', k=-2.)}))
            self.m1, self.m2 = mk(), mk()

        def net(self, x):
            x = F.relu(self.b1(self.m1(self.c1(x))))
            x = F.relu(self.b2(self.m2(self.c2(x))))
            return self.head(F.adaptive_avg_pool2d(x, 1).flatten(1))

    return MODELS.build(dict(type=kind, architecture=SNet(),
                             mutator=dict(type='NasMutator')))


def one_shot(ctx, spec):
    kind, accum, ops = spec
    first = one_shot_algo(kind)
    seen = set()

    def one(ch):
        algo, ref = copy.deepcopy(first), copy.deepcopy(first)
        ow = wrapper(algo.parameters(), accum, Hub())
        opt = RefOptim(ref.parameters(), accum, 0, -1)
        A = algo.architecture

        def cur():
            return (A.m1.current_choice, A.m2.current_choice)
        last = None
        for s, op in enumerate(ops):
            ctx.step()
            log = []
            d = batch(s)
            algo.train()
            ref.train()
            with runs(algo, log, cur), own_random(ch):
                if op == 'train':
                    algo.train_step(d, ow)
                elif op == 'loss':
                    algo(d['inputs'], d['data_samples'], mode='loss')
                else:
                    algo.eval()
                    algo.mutator.set_choices(
                        {k: 'b' for k in algo.mutator.search_groups})
                    if op == 'val':
                        algo.val_step(d)
                    elif op == 'test':
                        algo.test_step(d)
                    else:
                        algo(d['inputs'], mode=op)
                    expect(cur() == ('b', 'b') and log[0][1] == ('b', 'b'),
                           f'{spec} {ch}: {op} changed the subnet to {cur()}')
                    continue
            expect(len(log) == 1 and log[0][0] == 'loss',
                   f'{spec}: {op} ran {log}')
            sub = log[0][1]
            seen.add(sub)
            ref.architecture.m1.current_choice = sub[0]
            ref.architecture.m2.current_choice = sub[1]
            out = ref.architecture(d['inputs'], d['data_samples'],
                                   mode='loss')
            if op == 'train':
                opt.update(total(out))
            last = sub
            same_state(algo, ref, f'{spec} {ch} {op} {s}')
        return last

    for ch, res in explore_choices(one):
        ctx.state((spec, ch, res))
    if any(o in ('train', 'loss') for o in ops):
        expect(seen == set(itertools.product('ab', repeat=2)),
               f'{spec}: the draws only reach {seen}')


# ---- Darts -----------------------------------------------------------------
def darts_algo(unroll, bn=False):
    one_shot_algo('SPOS')
    Net, MODELS = build_all()

    class DNet(Net):

        def __init__(self):
            super().__init__(bn=bn)
            mk = lambda: MODELS.build(dict(  # noqa
                type='DiffMutableOP', candidates={
                    'a': dict(type='McScale', k=1.),
                    'b': dict(type='McScale', k=-2.)}))
            self.m1, self.m2 = mk(), mk()

        def net(self, x):
            x = torch.tanh(self.b1(self.m1(self.c1(x))))
            x = torch.tanh(self.b2(self.m2(self.c2(x))))
            return self.head(F.adaptive_avg_pool2d(x, 1).flatten(1))

    a = MODELS.build(dict(type='Darts', architecture=DNet(), unroll=unroll,
                          mutator=dict(type='NasMutator'))).double()
    with torch.no_grad():
        for i, p in enumerate(a.mutator.parameters()):
            p.copy_(torch.linspace(-.3, .4 + i, p.numel()))
    return a


def dbl(d):
    return {k: v.double() for k, v in d.items()}


def darts(ctx, spec):
    from mmengine.optim import OptimWrapperDict
    unroll, accum, mom, wd, steps, use_ddp = spec
    algo = darts_algo(unroll)
    ref = copy.deepcopy(algo)
    lr, alr = .2, .3
    ow = OptimWrapperDict(
        architecture=wrapper(algo.architecture.parameters(), accum, Hub(),
                             lr, momentum=mom, weight_decay=wd),
        mutator=wrapper(algo.mutator.parameters(), accum, Hub(), alr))
    model = ddp('Darts', algo, use_ddp)
    model.train()
    ref.train()
    W = list(ref.architecture.parameters())
    A = list(ref.mutator.parameters())
    expect(len(A) == 2 and all(p.numel() == 2 for p in A), 'no alphas')
    buf = [torch.zeros_like(w) for w in W]

    def L(d):
        return ref.architecture(d['inputs'], d['data_samples'],
                                mode='loss')['loss']

    acc = [[torch.zeros_like(p) for p in W], [torch.zeros_like(p) for p in A]]
    for s in range(steps):
        ctx.step()
        tr, va = dbl(batch(2 * s)), dbl(batch(2 * s + 1))
        model.train_step([tr, va], ow)
        # the re-statement
        if unroll:
            keep = [w.detach().clone() for w in W]
            g = torch.autograd.grad(L(tr), W)
            with torch.no_grad():
                for w, gi, b in zip(W, g, buf):
                    w -= lr * (mom * b + gi + wd * w)
            gs = torch.autograd.grad(L(va), W + A)
            dw, da = gs[:len(W)], gs[len(W):]
            eps = .01 / torch.cat([x.flatten() for x in dw]).norm()
            side = []
            for sign in (1, -1):
                with torch.no_grad():
                    for w, k, d in zip(W, keep, dw):
                        w.copy_(k + sign * eps * d)
                side.append(torch.autograd.grad(L(tr), A))
            with torch.no_grad():
                for w, k in zip(W, keep):
                    w.copy_(k)
            ga = [x - lr * (p - m) / (2 * eps)
                  for x, p, m in zip(da, *side)]
        else:
            ga = torch.autograd.grad(L(va) / accum, A)
        for t, x in zip(acc[1], ga):
            t += x
        if (s + 1) % accum == 0:
            with torch.no_grad():
                for p, t in zip(A, acc[1]):
                    p -= alr * t
                    t.zero_()
        gw = torch.autograd.grad(L(tr) / accum, W)
        for t, x in zip(acc[0], gw):
            t += x
        if (s + 1) % accum == 0:
            with torch.no_grad():
                for p, t, b in zip(W, acc[0], buf):
                    b.mul_(mom).add_(t + wd * p)
                    p -= lr * b
                    t.zero_()
        same_state(algo.mutator, ref.mutator, f'{spec} step {s}: alpha',
                   1e-6)
        same_state(algo.architecture, ref.architecture,
                   f'{spec} step {s}: weights', 1e-6)
        ctx.state((spec, s, [round(x, 6) for p in A for x in p.tolist()]))


def darts_single(ctx, spec):
    """Without a pair of optimizers the step is plain training."""
    unroll, steps = spec
    algo = darts_algo(unroll)
    ref = copy.deepcopy(algo)
    ow = wrapper(algo.parameters(), 1, Hub())
    opt = RefOptim(ref.parameters(), 1, 0, -1)
    for s in range(steps):
        ctx.step()
        d = dbl(batch(s))
        algo.train_step(d, ow)
        opt.update(ref.architecture(d['inputs'], d['data_samples'],
                                    mode='loss')['loss'])
        same_state(algo, ref, f'{spec} step {s}')
    ctx.state(spec)


# ---- DSNAS -----------------------------------------------------------------
def dsnas_algo(pretrain, finetune, limit):
    Net, MODELS = build_all()
    if MODELS.get('McConv') is None:

        class McConv(nn.Conv2d):

            def __init__(self, in_channels, out_channels, stride, k):
                super().__init__(in_channels, out_channels, k, stride,
                                 k // 2)
        MODELS.register_module(name='McConv', module=McConv)

    class ONet(Net):

        def __init__(self):
            super().__init__(bn=False)
            conv = lambda k: dict(type='McConv', k=k)  # noqa
            mk = lambda ci: MODELS.build(dict(  # noqa
                type='OneHotMutableOP', candidates={'a': conv(1),
                                                    'b': conv(3)},
                module_kwargs=dict(in_channels=ci, out_channels=4,
                                   stride=1)))
            del self.c1, self.c2
            self.m1, self.m2 = mk(3), mk(4)

        def net(self, x):
            x = torch.tanh(self.m2(torch.tanh(self.m1(x))))
            return self.head(F.adaptive_avg_pool2d(x, 1).flatten(1))

    a = MODELS.build(dict(
        type='DSNAS', architecture=ONet(), mutator=dict(type='NasMutator'),
        pretrain_epochs=pretrain, finetune_epochs=finetune,
        flops_constraints=limit,
        estimator_cfg=dict(type='mmrazor.ResourceEstimator',
                           input_shape=(1, 3, 3, 3))))
    with torch.no_grad():
        for i, p in enumerate(a.mutator.parameters()):
            p.copy_(torch.tensor([.2, -.1 + .2 * i]))
    return a


# flops (in M) of the candidates on a 3x3 map: (k*k*cin + bias) * 4 * 9
FLOPS = {('m1', k): (s * s * 3 + 1) * 36e-6 for k, s in (('a', 1), ('b', 3))}
FLOPS.update({('m2', k): (s * s * 4 + 1) * 36e-6
              for k, s in (('a', 1), ('b', 3))})


def dsnas(ctx, spec):
    from mmengine.optim import OptimWrapperDict
    from unittest.mock import patch
    from mc.props.P06 import own_draws, softmax
    pretrain, finetune, limit, epochs, use_ddp = spec
    first = dsnas_algo(pretrain, finetune, limit)
    lr, alr = .2, .3

    def one(ch):
        algo = copy.deepcopy(first)
        algo.mutator.prepare_from_supernet(algo.architecture)
        old = {k: v.detach().clone()
               for k, v in first.mutator.arch_params.items()}
        algo.mutator.prepare_arch_params()
        for k, v in old.items():
            algo.mutator.arch_params[k].data.copy_(v)
        ow = OptimWrapperDict(
            architecture=wrapper(algo.architecture.parameters(), 1, Hub(),
                                 lr),
            mutator=wrapper(algo.mutator.parameters(), 1, Hub(), alr))
        keys = list(algo.mutator.arch_params)
        A = algo.architecture
        ref = copy.deepcopy(A.state_dict())
        alpha = [old[k].double() for k in keys]
        model = ddp('DSNAS', algo, use_ddp)
        model.train()
        trail = []
        fixed = None
        from mmengine.logging import MessageHub
        hub = MessageHub.get_current_instance()
        for s, e in enumerate(epochs):
            ctx.step()
            hub.update_info('epoch', e)
            d = batch(s)
            before = {k: v.clone() for k, v in A.state_dict().items()}
            grads = {}

            def grab(name):
                def hook(mod, a, out):
                    if mod is not getattr(A, name):
                        return      # a copy made to count FLOPs
                    grads[name] = mod.arch_weights if not mod.is_fixed else \
                        None
                return hook
            hs = [A.m1.register_forward_hook(grab('m1')),
                  A.m2.register_forward_hook(grab('m2'))]
            with own_draws(ch):
                out = model.train_step(d, ow)
            for h in hs:
                h.remove()
            if e >= finetune and fixed is None:
                fixed = [int(a.argmax()) for a in alpha]
            now = [None if grads[n] is None else
                   int(grads[n].detach().argmax()) for n in ('m1', 'm2')]
            if fixed is not None:
                expect(now == [None, None] and A.m1.is_fixed
                       and A.m2.is_fixed and
                       [A.m1.choices, A.m2.choices] ==
                       [['ab'[i]] for i in fixed],
                       f'{spec} {ch}: epoch {e}: {A.m1.choices} '
                       f'{A.m2.choices}, derived {fixed}')
                draw = fixed
            else:
                draw = now
            # restate: gradient of the one-hot path
            P = {k: v.double().requires_grad_() for k, v in before.items()}
            z = [torch.zeros(2, dtype=torch.double) for _ in range(2)]
            x = d['inputs'].double()
            for i, n in enumerate(('m1', 'm2')):
                z[i][draw[i]] = 1
                z[i].requires_grad_()
                k = 'ab'[draw[i]]
                w = P[f'{n}._candidates.{k}.weight'] if \
                    f'{n}._candidates.{k}.weight' in P else None
                if w is None:
                    nm = [q for q in P if q.startswith(f'{n}._candidates.{k}')]
                    w, b = [P[q] for q in sorted(nm, reverse=True)]
                else:
                    b = P[f'{n}._candidates.{k}.bias']
                x = torch.tanh(z[i][draw[i]] *
                               F.conv2d(x, w, b, padding=w.shape[-1] // 2))
            y = F.linear(x.mean((2, 3)), P['head.weight'], P['head.bias'])
            loss = F.mse_loss(y, d['data_samples'].double())
            g = torch.autograd.grad(loss, list(P.values()) + z,
                                    allow_unused=True)
            gz = g[len(P):]
            after = A.state_dict()
            for (k, v), gi in zip(P.items(), g):
                want = v if gi is None else v - lr * gi
                if k not in after:
                    continue
                expect(torch.allclose(after[k].double(), want, atol=1e-5),
                       f'{spec} {ch}: epoch {e}: weight {k} is wrong')
            search = pretrain <= e < finetune
            if search:
                expect(any(k.startswith('mutator.') for k in out),
                       f'{spec}: epoch {e} reports {set(out)}')
                # the network that counts for the constraint is the derived
                # one
                der = [int(a.argmax()) for a in alpha]
                fl = sum(FLOPS[(n, 'ab'[i])] for n, i in
                         zip(('m1', 'm2'), der)) + 10e-6
                for i, n in enumerate(('m1', 'm2')):
                    a = alpha[i].clone().requires_grad_()
                    p = torch.softmax(a, -1)
                    la = torch.log(p[draw[i]])
                    if limit == 0:
                        la = la + .01 * p[draw[i]] * FLOPS[
                            (n, 'ab'[draw[i]])]
                    ga, = torch.autograd.grad(la, a)
                    alpha[i] = alpha[i] - alr * ga * gz[i].sum()
                del fl
            else:
                expect(not any(k.startswith('mutator.') for k in out),
                       f'{spec}: epoch {e} updated the mutator')
            for k, a in zip(keys, alpha):
                cur = algo.mutator.arch_params[k].detach().double()
                expect(torch.allclose(cur, a, atol=1e-5),
                       f'{spec} {ch}: epoch {e}: alpha {cur.tolist()}, '
                       f'expected {a.tolist()} for draw {draw}',
                       'dsnas-alpha')
            trail.append(tuple(draw))
        del ref
        return tuple(trail)

    for ch, res in explore_choices(one):
        ctx.state((spec, ch, res))


# ---- the run ---------------------------------------------------------------
TABLES = [((4, 4), (2, 2)), ((2, 3), (4, 1), (4, 4))]


def slim_specs(full):
    for t in TABLES:
        n = len(t)
        for accum in sorted({1, n, 2 * n} | ({2, 3} if full else set())):
            for start in (0, 1, 3) if full else (0, 1):
                for horizon in (start + 1, start + 2, 10):
                    steps = min(4 if full else 3, horizon - start)
                    yield (t, accum, start, horizon, steps, False)
        yield (t, n, 0, 10, 2, True)


def sandwich_specs(full):
    for kind, cands in (('AutoSlim', (2, 4)), ('BigNAS', (1, 2, 4))):
        for nrand in (0, 1, 2):
            n = 2 + nrand
            for accum in sorted({1, n, 2 * n}):
                for start, horizon in ((0, 10), (1, 2), (1, 10)):
                    steps = min(2 if nrand == 0 or full and nrand == 1
                                else 1, horizon - start)
                    yield (kind, cands, nrand, accum, start, horizon, steps,
                           False)
        yield (kind, cands, 1, 3, 0, 10, 2, True)


def one_shot_specs(full):
    ops = ('train', 'loss', 'predict', 'tensor', 'val', 'test')
    for kind in ('SPOS', 'Autoformer'):
        for accum in (1, 2):
            for seq in itertools.product(ops, repeat=2):
                yield kind, accum, seq
            if full:
                for seq in itertools.product(ops[:3], repeat=3):
                    yield kind, accum, seq
            yield kind, accum, ('train', ) * 3


def darts_specs(full):
    for unroll in (False, True):
        for accum in (1, ) if unroll else (1, 2, 3):
            for mom, wd in ((0., 0.), (.9, 0.), (0., .1), (.9, .1)):
                for ddp_ in (False, True) if mom else (False, ):
                    yield (unroll, accum, mom, wd, 6 if full else 4, ddp_)


def dsnas_specs(full):
    seqs = [(0, 1), (0, 1, 2), (1, 2), (2, 2), (0, 0, 2)]
    if full:
        seqs += [(0, 1, 1, 2), (0, 0, 1, 2)]
    for pre, fin in ((0, 2), (1, 2), (0, 3), (0, 1)):
        for limit in (0, 1e9):
            for s in seqs:
                # an epoch later than the last: training was resumed
                yield (pre, fin, limit, s, False)
    yield (0, 2, 0, (0, 2), True)
    yield (0, 1, 0, (0, 2), True)


def dsnas_resume(ctx, spec):
    """Stopped and resumed, the search goes on as if it had not stopped."""
    from mmengine.logging import MessageHub
    from mmengine.optim import OptimWrapperDict
    pretrain, finetune, epochs, at, use_ddp = spec
    hub = MessageHub.get_current_instance()

    def start():
        a = dsnas_algo(pretrain, finetune, 1e9)
        return a, OptimWrapperDict(
            architecture=wrapper(a.architecture.parameters(), 1, Hub(), .2),
            mutator=wrapper(a.mutator.parameters(), 1, Hub(), .3))

    def steps(a, ow, lo, hi):
        model = ddp('DSNAS', a, use_ddp)
        model.train()
        for s in range(lo, hi):
            ctx.step()
            torch.manual_seed(s)
            hub.update_info('epoch', epochs[s])
            model.train_step(batch(s), ow)

    first, ow = start()
    steps(first, ow, 0, at)
    state = copy.deepcopy(first.state_dict())
    second, ow2 = start()
    second.load_state_dict(state, strict=False)
    steps(first, ow, at, len(epochs))
    steps(second, ow2, at, len(epochs))
    a, b = first.state_dict(), second.state_dict()
    expect(a.keys() == b.keys() and all(
        torch.allclose(a[k], b[k], atol=1e-6) for k in a), lambda:
        f'{spec}: resumed, it ends with {sorted(b)} instead of {sorted(a)}')
    ctx.state((spec, tuple(a)))


def dsnas_resume_specs(full):
    for pre, fin in ((0, 1), (0, 2), (1, 2)):
        for n in range(1, 4 if full else 3):
            for epochs in itertools.combinations_with_replacement(
                    range(4), n + 1):
                if epochs[-1] < fin:
                    continue
                for at in range(1, n + 1):
                    yield pre, fin, epochs, at, n == 2 and at == 1


def dmcp_algo(strategy, arch_start, freq, kd_from, target, loss_type):
    Net, MODELS = build_all()

    class Backbone(nn.Module):

        def __init__(self, net):
            super().__init__()
            self.c1, self.b1, self.c2, self.b2 = net.c1, net.b1, net.c2, \
                net.b2

        def forward(self, x):
            x = F.relu(self.b1(self.c1(x)))
            return F.relu(self.b2(self.c2(x)))

    class BackNet(Net):

        def __init__(self):
            super().__init__()
            self.backbone = Backbone(self)
            del self.c1, self.b1, self.c2, self.b2

        def net(self, x):
            x = self.backbone(x)
            return self.head(F.adaptive_avg_pool2d(x, 1).flatten(1))

    return MODELS.build(dict(
        type='DMCP', architecture=BackNet(),
        distiller=copy.deepcopy(DISTILLER), strategy=list(strategy),
        arch_start_train=arch_start, arch_train_freq=freq,
        distillation_times=kd_from, target_flops=target,
        flops_loss_type=loss_type, flop_loss_weight=1.,
        mutator_cfg=dict(type='DMCPChannelMutator',
                         channel_unit_cfg=dict(type='DMCPChannelUnit'),
                         pruning_cfg=(.25, 1, .25), parse_cfg=PARSE)))


def dmcp(ctx, spec):
    """The protocol of one DMCP step and who may move which parameters."""
    from mmengine.logging import MessageHub
    from mmengine.optim import OptimWrapperDict
    strategy, arch_start, freq, kd_from, target, loss_type, iters = spec
    first = dmcp_algo(strategy, arch_start, freq, kd_from, target, loss_type)
    lr, alr = .1, .2

    def fresh():
        a = copy.deepcopy(first)
        a.distiller = a._build_distiller(copy.deepcopy(DISTILLER))
        a.distiller.prepare_from_teacher(a.architecture)
        a.distiller.prepare_from_student(a.architecture)
        with torch.no_grad():
            for i, p in enumerate(a.mutator.parameters()):
                p.copy_(torch.tensor([.4, .7, .2]) + .1 * i)
        return a

    def one(ch):
        algo, ref = fresh(), fresh()
        ow = OptimWrapperDict(
            architecture=wrapper(algo.architecture.parameters(), 1, Hub(),
                                 lr),
            mutator=wrapper(algo.mutator.parameters(), 1, Hub(), alr))
        ro = torch.optim.SGD(ref.architecture.parameters(), lr=lr)
        hub = MessageHub.get_current_instance()
        algo.train()
        ref.train()
        trail = []
        arch_on = False
        for s, it in enumerate(iters):
            ctx.step()
            hub.update_info('iter', it)
            d = batch(s)
            calls, log = [], []
            orig = algo.mutator.sample_subnet

            def spy(mode, arch_train):
                orig(mode, arch_train)
                calls.append((mode, bool(arch_train),
                              tuple(float(u.mutable_channel.
                                          activated_tensor_channels)
                                    for u in algo.mutator.units)))
            algo.mutator.sample_subnet = spy
            alpha0 = [p.detach().clone() for p in algo.mutator.parameters()]
            with runs(algo, log, lambda: len(calls) - 1), own_random(ch):
                out = algo.train_step(d, ow)
            del algo.mutator.sample_subnet
            arch_on = arch_on or it > arch_start
            upd = arch_on and it % freq == 0
            want = []
            for k in strategy:
                want.append(k if k in ('max', 'min') else
                            'direct' if arch_on else 'random')
            kinds = [c[0] for c in calls]
            tail = ['max', 'expected'] if upd else []
            if 'scheduled_random' in strategy and arch_on:
                i = strategy.index('scheduled_random')
                expect(kinds[i] in ('direct', 'random'), f'{spec}: {kinds}')
                want[i] = kinds[i]
            expect(kinds == want + tail, f'{spec} iter {it}: {kinds}, '
                   f'expected {want + tail}')
            expect([c[1] for c in calls[:len(want)]] == [arch_on] * len(want),
                   f'{spec} iter {it}: {calls}')
            expect(all(m == 'loss' for m, c, t in log) and
                   len(log) == len(want) + bool(upd), f'{spec}: {log}')
            # re-statement for the weights
            teacher, num, keys = None, {}, {}
            hub.update_info('iter', it)
            for (mode, arch, chans), k in zip(calls, want):
                for u, c in zip(ref.mutator.units, chans):
                    expect(c in (1, 2, 3, 4), f'{spec}: {chans}')
                    u.current_choice = int(c)
                    u.mutable_channel.activated_tensor_channels = int(c)
                ref.mutator.modify_supernet_forward(arch)
                y = ref.architecture.net(d['inputs'])
                loss = F.mse_loss(y, d['data_samples'])
                num[k] = num.get(k, 0) + 1
                keys[f'{k}_subnet{num[k]}.loss'] = loss.item()
                if k == 'max':
                    teacher = y.detach()
                elif it > kd_from:
                    soft = kd(y, teacher)
                    keys[f'{k}_subnet{num[k]}.loss_kl'] = soft.item()
                    loss = loss + soft
                ro.zero_grad()
                loss.backward()
                ro.step()
                ro.zero_grad()
            got = {k: v.item() for k, v in out.items()
                   if 'loss' in k and not k.startswith(('arch', 'flops'))}
            expect(got.keys() == keys.keys() and all(
                abs(got[k] - keys[k]) < 1e-4 for k in keys),
                f'{spec} {ch} iter {it}: reports {got}, expected {keys}')
            same_state(algo.architecture, ref.architecture,
                       f'{spec} {ch} iter {it} weights')
            moved = any(not torch.equal(a, b) for a, b in zip(
                alpha0, algo.mutator.parameters()))
            expect(moved == upd, f'{spec} iter {it}: the architecture '
                   f'parameters {"moved" if moved else "did not move"}')
            expect(any(k.startswith('arch') for k in out) == bool(upd) ==
                   any(k.startswith('flops') for k in out),
                   f'{spec} iter {it}: reports {set(out)}')
            if upd:
                for p, q in zip(ref.mutator.parameters(),
                                algo.mutator.parameters()):
                    p.data.copy_(q.data)
                # the expected widths of the parameters at that point
                e = [c for c in calls if c[0] == 'expected'][0][2]
                expect(all(1 < x <= 4 for x in e), f'{spec}: expected {e}')
            expect(algo.training, f'{spec}: left in eval mode')
            trail.append(tuple(kinds))
        return tuple(trail)

    for ch, res in explore_choices(one, 2 if ctx.thorough else 1):
        ctx.state((spec, ch, res))


def dmcp_specs(full):
    for strategy in (('max', 'min', 'arch_random'),
                     ('max', 'min', 'scheduled_random')):
        for start, freq, kd_from, iters in (
                (100, 1, 100, (0, 1)), (0, 2, 0, (1, 2, 3)),
                (1, 1, 1, (1, 2)), (0, 1, 3, (2, 3, 4)))[
                    :4 if full else 3]:
            yield (strategy, start, freq, kd_from, 1e-3, 'log_l1', iters)
            if full:
                yield (strategy, start, freq, kd_from, 1e-3, 'l1', iters)


def flops_loss(ctx, spec):
    """The FLOPs loss pulls the expected FLOPs towards the target."""
    import types
    from mmrazor.models.algorithms import DMCP
    kind, target, weight, ratio = spec
    ctx.step()
    me = types.SimpleNamespace(target_flops=target, flops_loss_type=kind,
                               flop_loss_weight=weight)
    T = target * 1e6
    f = torch.tensor(ratio * T, dtype=torch.double, requires_grad=True)
    loss = DMCP._compute_flops_loss(me, f)
    g, = torch.autograd.grad(loss, f, allow_unused=True)
    g = 0. if g is None else float(g)
    if kind == 'log_l1' and .95 <= ratio < 1:
        expect(abs(g) < 1e-12 and abs(float(loss)) < 1e-9,
               f'{spec}: no pull is needed, loss {float(loss)}')
    elif ratio > 1:
        expect(g * weight > 0, f'{spec}: too many FLOPs, gradient {g}',
               'dmcp-flops-target')
    elif ratio < .95 and kind != 'inverted_log_l1':
        expect(g * weight < 0, f'{spec}: below the target, gradient {g}',
               'dmcp-flops-target')
    ctx.state(spec)


def flops_specs(full):
    for kind in ('l2', 'l1', 'log_l1', 'inverted_log_l1'):
        for target in (1, 150, 2000):
            for w in (.1, 1.):
                for r in (.1, .5, .9, .94, .96, .99, 1.01, 1.2, 2., 10.):
                    yield kind, target, w, r


def run(ctx):
    full = ctx.thorough
    ctx.parallel('slimmable', slim_specs(full), lambda s: slimmable(ctx, s))
    ctx.cases('deploy', [(t, i) for t in TABLES for i in range(len(t))],
              lambda s: deploy(ctx, s))
    ctx.parallel('sandwich', sandwich_specs(full),
                 lambda s: sandwich(ctx, s))
    ctx.parallel('one-shot', one_shot_specs(full),
                 lambda s: one_shot(ctx, s))
    ctx.parallel('darts', darts_specs(full), lambda s: darts(ctx, s))
    ctx.cases('darts-single', [(u, 2) for u in (False, True)],
              lambda s: darts_single(ctx, s))
    ctx.parallel('dsnas', dsnas_specs(full), lambda s: dsnas(ctx, s))
    ctx.parallel('dsnas-resume', list(dsnas_resume_specs(full)),
                 lambda s: dsnas_resume(ctx, s))
    ctx.parallel('dmcp', dmcp_specs(full), lambda s: dmcp(ctx, s),
                 workers=3)
    ctx.cases('dmcp-flops', flops_specs(full), lambda s: flops_loss(ctx, s))
