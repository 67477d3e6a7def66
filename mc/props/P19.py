"""Evaluation loops, batch norm calibration and paired data loaders."""
import contextlib
import copy
import io
import itertools
import json
import os
import tempfile
import types

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import Violation, expect
from mc.explore import own_random
from mc.props import P12

RULE = ('every kind of evaluation loop x subnets x loader shapes: hooks, '
        'evaluated subnets, metric names and values, files; calibration: '
        'every subset of the channels (or chosen branch) x batch sizes x '
        'number of samples x batch form, against statistics computed by '
        'hand; every pair (triple) of loader lengths x every number of '
        'steps; non-trivial: two or more batches')
ASSUMPTIONS = ['single process, float32; the forward of a subnet is the '
               'subject of P02 and P07']


def setup():
    import mmrazor.engine  # noqa
    import mmrazor.models  # noqa
    from mmrazor.registry import TASK_UTILS
    import mmengine.runner.loops as loops
    loops.time = types.SimpleNamespace(sleep=lambda s: None)
    if TASK_UTILS.get('McWidth') is None:

        class McWidth:
            """Cost of a subnet: the sum of its widths."""

            def __init__(self, **k):
                pass

            def estimate(self, model):
                return dict(width=sum(u.current_choice for u in
                                      model.mutator.mutable_units))
        TASK_UTILS.register_module(name='McWidth', module=McWidth)


class Runner:

    def __init__(self, model, tmp='', train=None):
        self.model = model
        self.work_dir = tmp
        self.distributed = False
        self.seed = 0
        self.log = []
        self.metrics = []
        self.train_dataloader = train
        self.visualizer = types.SimpleNamespace(dataset_meta=None)
        self.message_hub = types.SimpleNamespace(
            update_info=lambda k, v: None)
        quiet = lambda *a, **k: None  # noqa
        self.logger = types.SimpleNamespace(info=quiet, debug=quiet,
                                            warning=quiet)
        self.val_loop = None
        self.optim_wrapper = 'optim'
        self.probe = lambda: None

    def call_hook(self, name, *a, **k):
        what = self.model.training if isinstance(self.model, nn.Module) \
            else None
        self.log.append((name, k.get('batch_idx'), what))
        if name == 'after_val_epoch':
            self.metrics.append(dict(k['metrics']))
        if name == 'after_val_iter':
            self.probe()


def data(n, seed=0):
    g = torch.Generator().manual_seed(31 + seed)
    return torch.randn(n, 3, 2, 2, generator=g) * 2 + .7


class Items(torch.utils.data.Dataset):
    metainfo = dict(a=1)

    def __init__(self, xs):
        self.xs = xs

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i], i


def collate(form):
    def f(b):
        xs = torch.stack([x for x, _ in b])
        ids = torch.tensor([i for _, i in b])
        if form == 'tensor':
            return xs
        if form == 'list':
            return dict(inputs=[x for x in xs], data_samples=list(ids))
        if form == 'extra':
            return dict(data_samples=list(ids), meta=list(ids),
                        inputs=xs, other=list(ids))
        return dict(inputs=xs, data_samples=ids)
    return f


class Sizes:
    """A batch sampler with the given batch sizes."""

    def __init__(self, sizes):
        self.sizes = sizes

    def __iter__(self):
        i = 0
        for s in self.sizes:
            yield list(range(i, i + s))
            i += s

    def __len__(self):
        return len(self.sizes)


def loader(sizes, form='dict', seed=0):
    return torch.utils.data.DataLoader(
        Items(data(sum(sizes), seed)), batch_sampler=Sizes(sizes),
        collate_fn=collate(form))


def trimmed(sizes, n, seed=0):
    """The first ``n`` samples in their batches."""
    xs = data(sum(sizes), seed)
    out, i = [], 0
    for s in sizes:
        if n <= 0:
            break
        out.append(xs[i:i + s][:n])
        i += s
        n -= s
    return out


# ------------------------------------------------------- calibration
@contextlib.contextmanager
def inputs_of(layers, log):
    hs = [m.register_forward_hook(
        lambda m, a, o, n=n: log.setdefault(n, []).append(
            a[0].detach().clone())) for n, m in layers.items()]
    try:
        yield
    finally:
        for h in hs:
            h.remove()


def moments(xs):
    """Sample-weighted average of the per-batch mean and variance."""
    n = sum(len(x) for x in xs)
    dims = [d for d in range(xs[0].dim()) if d != 1]
    mean = sum(x.double().mean(dims) * len(x) for x in xs) / n
    var = sum(x.double().var(dims, unbiased=True) * len(x) for x in xs) / n
    return mean.float(), var.float()


class Calib:

    def __init__(self, runner):
        from mmrazor.engine.runner.utils import CalibrateBNMixin

        class C(CalibrateBNMixin):
            pass
        self.c = C()
        self.c.runner = runner

    def __call__(self, dl, n):
        self.c.calibrate_bn_statistics(dl, n)


def norms(model):
    return {n: m for n, m in model.named_modules()
            if isinstance(m, nn.modules.batchnorm._BatchNorm)}


class Plain(nn.Module):
    """Layers for the calibration, with a forward of its own."""

    def __init__(self, kind, arg):
        super().__init__()
        from mmrazor.models.architectures import dynamic_ops as D
        from mmrazor.models.mutables import (OneShotMutableOP,
                                             SimpleMutableChannel)
        torch.manual_seed(4)
        self.kind, self.arg = kind, arg
        self.c1 = nn.Conv2d(3, 4, 1)
        dim = dict(bn1=1, bn3=3).get(kind, 2)
        self.b1 = getattr(nn, f'BatchNorm{dim}d')(4)
        self.c2 = nn.Conv2d(4, 4, 1)
        self.b2 = nn.BatchNorm2d(4)
        if kind == 'mask':
            self.c1 = D.DynamicConv2d.convert_from(self.c1)
            self.b1 = D.DynamicBatchNorm2d.convert_from(self.b1)
            self.c2 = D.DynamicConv2d.convert_from(self.c2)
            m = SimpleMutableChannel(4)
            m.current_choice = torch.tensor(arg)
            self.c1.register_mutable_attr('out_channels', m)
            self.b1.register_mutable_attr('num_features', m)
            self.c2.register_mutable_attr('in_channels', m)
        elif kind == 'switch':
            self.c1 = D.DynamicConv2d.convert_from(self.c1)
            self.b1 = D.SwitchableBatchNorm2d.convert_from(self.b1)
            self.b1.init_candidates([1, 2, 3])
            self.c2 = D.DynamicConv2d.convert_from(self.c2)
            m = SimpleMutableChannel(4)
            m.current_choice = torch.tensor([i < arg for i in range(4)])
            self.c1.register_mutable_attr('out_channels', m)
            self.b1.register_mutable_attr('num_features', m)
            self.c2.register_mutable_attr('in_channels', m)
        elif kind == 'branch':
            self.op = OneShotMutableOP(dict(
                a=dict(type='McBranch', k=1), b=dict(type='McBranch', k=3)),
                module_kwargs=dict(c=4))
            self.op.current_choice = arg
        for m in self.modules():
            if isinstance(m, nn.modules.batchnorm._BatchNorm):
                m.running_mean.normal_()
                m.running_var.uniform_(.5, 2)
                m.weight.data.uniform_(.5, 1.5)
                m.bias.data.normal_()
            if isinstance(m, nn.BatchNorm2d) and kind == 'momentum':
                m.momentum = arg

    def forward(self, x):
        x = self.c1(x)
        if self.kind == 'bn1':
            x = self.b1(x.flatten(2)).unflatten(2, (2, 2))
        elif self.kind == 'bn3':
            x = self.b1(x.unsqueeze(2)).squeeze(2)
        else:
            x = self.b1(x)
        x = self.c2(F.relu(x))
        if self.kind == 'branch':
            x = self.op(x)
        x = self.b2(x)
        if self.kind == 'twice':
            x = self.b2(x * 3 + 1)
        if self.kind == 'skip' and self.arg:
            x = self.b1(x)
        return x

    def test_step(self, batch):
        if isinstance(batch, dict):
            batch = batch['inputs']
        if isinstance(batch, list):
            batch = torch.stack(batch)
        return self(batch)


def branch():
    from mmrazor.registry import MODELS
    if MODELS.get('McBranch') is None:

        class McBranch(nn.Module):

            def __init__(self, c, k):
                super().__init__()
                self.c = nn.Conv2d(c, c, k, padding=k // 2)
                self.b = nn.BatchNorm2d(c)

            def forward(self, x):
                return self.b(self.c(x))
        MODELS.register_module(name='McBranch', module=McBranch)


def kept(m, name, model):
    """Mask of the channels a layer normalises."""
    if model.kind == 'mask' and name == 'b1':
        return torch.tensor(model.arg)
    return torch.ones(m.num_features, dtype=torch.bool)


def scope_calib(ctx, spec):
    kind, arg, form = spec
    setup()
    branch()
    for sizes in SIZES:
        total = sum(sizes)
        for n in sorted({1, 2, 3, sizes[0], total - 1, total, total + 2}):
            if n < 1:
                continue
            ctx.step()
            model = Plain(kind, arg)
            before = {k: v.clone() for k, v in model.state_dict().items()}
            hand = copy.deepcopy(model).train()
            log = {}
            with torch.no_grad(), inputs_of(norms(hand), log):
                for x in trimmed(sizes, n):
                    hand(x)
            grads = {k: p.requires_grad
                     for k, p in model.named_parameters()}
            Calib(Runner(model))(loader(sizes, form), n)
            msg = f'{spec} batches {sizes}, {n} samples'
            ctx.state((spec, sizes, n))
            calls = model.forward
            for name, m in norms(model).items():
                xs = log.get(name)
                was = {q: before[f'{name}.{q}']
                       for q in ('running_mean', 'running_var')}
                if xs and not (kind == 'switch' and name == 'b1'
                               and arg < 4):
                    mask = kept(m, name, model)
                    mean, var = moments(xs)
                    want = {}
                    for q, v in (('running_mean', mean),
                                 ('running_var', var)):
                        want[q] = was[q].clone()
                        want[q][mask] = v
                else:
                    want = was
                for q in want:
                    got = getattr(m, q)
                    expect(torch.allclose(got, want[q], atol=1e-5,
                                          equal_nan=True),
                           f'{msg}: {name}.{q} is {got.tolist()}, expected '
                           f'{want[q].tolist()}')
                expect(not m._forward_hooks, f'{msg}: hooks left on {name}')
            for k, v in model.state_dict().items():
                if 'running' in k or 'num_batches' in k:
                    continue
                expect(torch.equal(v, before[k]), f'{msg}: {k} changed')
            for k, p in model.named_parameters():
                expect(p.requires_grad == grads[k] and p.grad is None,
                       f'{msg}: gradients of {k}')
            assert calls == model.forward
            # calibrating again gives the same
            if n == total and kind != 'twice':
                again = {k: v.clone() for k, v in model.state_dict().items()}
                Calib(Runner(model))(loader(sizes, form), n)
                for k, v in model.state_dict().items():
                    if 'num_batches' not in k:
                        expect(torch.allclose(v, again[k], atol=1e-5,
                                              equal_nan=True),
                               f'{msg}: {k} depends on earlier statistics')


SIZES = [(2, 2), (1, 3), (4, ), (3, 1, 2), (2, 2, 1), (1, 1, 1, 1)]


# ------------------------------------------------------- evaluation loops
def evaluator():
    from mmengine.evaluator import BaseMetric, Evaluator

    class Mean(BaseMetric):
        default_prefix = None

        def process(self, data_batch, data_samples):
            for y, i in zip(data_samples, data_batch['data_samples']):
                self.results.append((int(i), y.detach().double().clone()))

        def compute_metrics(self, results):
            s = torch.stack([y for _, y in results])
            return dict(mean=float(s.mean()), n=len(results),
                        first=float(s[0].sum()),
                        ids=[i for i, _ in results])
    return Evaluator([Mean()])


def expected(net, sizes):
    """The metrics of one evaluation in plain code."""
    was = net.training
    net.eval()
    with torch.no_grad():
        ys = torch.cat([net(x) for x in
                        data(sum(sizes)).split(list(sizes))]).double()
    net.train(was)
    return dict(mean=float(ys.mean()), n=len(ys), first=float(ys[0].sum()),
                ids=list(range(len(ys))))


def same_metrics(got, want, msg):
    expect(list(got) == list(want) or set(got) == set(want),
           f'{msg}: metrics {list(got)}, expected {list(want)}')
    for k, v in want.items():
        ok = abs(got[k] - v) < 1e-4 if isinstance(v, float) else got[k] == v
        expect(ok, f'{msg}: {k} is {got[k]}, expected {v}')


def val_hooks(runner, epochs, sizes, msg):
    """Balanced hooks; every batch of every subnet, in eval mode."""
    names = [n for n, _, _ in runner.log]
    expect(names[0] == 'before_val' and names[-1] == 'after_val'
           and names.count('before_val') == names.count('after_val') == 1,
           f'{msg}: hooks {names}')
    expect(names[-2] == 'after_val_epoch'
           and names.count('after_val_epoch') == 1, f'{msg}: {names}')
    its = [(n, i) for n, i, _ in runner.log if n.endswith('val_iter')]
    want = [(n, i) for _ in range(epochs) for i in range(len(sizes))
            for n in ('before_val_iter', 'after_val_iter')]
    expect(its == want, f'{msg}: iterations {its}')
    expect(not any(t for n, _, t in runner.log if n.endswith('val_iter')),
           f'{msg}: evaluated in training mode')


def randomise(algo):
    g = torch.Generator().manual_seed(17)
    for m in algo.modules():
        if isinstance(m, nn.modules.batchnorm._BatchNorm):
            m.running_mean.copy_(torch.randn(m.num_features, generator=g))
            m.running_var.copy_(torch.rand(m.num_features, generator=g) + .5)


def build_loop(kind, runner, sizes, **k):
    from mmrazor.registry import LOOPS
    return LOOPS.build(dict(type=kind, runner=runner,
                            dataloader=loader(sizes), evaluator=evaluator(),
                            **k))


def prefixed(m, name):
    return {f'{name}.{k}': v for k, v in m.items()}


def scope_slimmable(ctx, spec):
    table, sizes = spec
    setup()
    algo, names = P12.slim_algo(table)
    randomise(algo)
    before = {k: v.clone() for k, v in algo.state_dict().items()}
    want = {}
    for i, s in enumerate(table):
        t = copy.deepcopy(algo)
        t.mutator.set_choices(dict(zip(names, s)))
        expect([u.current_choice for u in t.mutator.mutable_units]
               == list(s), f'{spec}: choices')
        want.update(prefixed(expected(t.architecture, sizes), f'subnet_{i}'))
    runner = Runner(algo.train())
    loop = build_loop('SlimmableValLoop', runner, sizes)
    for turn in range(2):
        runner.log, runner.metrics = [], []
        algo.train()
        loop.run()
        ctx.step(len(table))
        ctx.state((spec, turn))
        msg = f'slimmable {spec} run {turn}'
        same_metrics(runner.metrics[0], want, msg)
        val_hooks(runner, len(table), sizes, msg)
    for k, v in algo.state_dict().items():
        if k.endswith('mask'):
            continue
        expect(torch.equal(v, before[k]), f'{spec}: {k} changed')


def hand_calibrated(algo, genes, train, n):
    """A copy of ``algo`` at ``genes``, calibrated by hand."""
    t = copy.deepcopy(algo)
    if genes is not None:
        t.mutator.set_choices(genes)
    net = t.architecture.train()
    log = {}
    ns = norms(net)
    with torch.no_grad(), inputs_of(ns, log):
        for x in trimmed(train, n, 1):
            net(x)
    for k, m in ns.items():
        mean, var = moments(log[k])
        c = len(mean)       # one-shot widths are prefixes
        m.running_mean[:c] = mean
        m.running_var[:c] = var
    return t


def scope_subnet(ctx, spec):
    kind, kinds, fixed, sizes, train, n, rot = spec
    setup()
    from mc.props.P17 import Rot
    algo = P12.autoslim_algo((1, 2, 4), 2)
    algo.sample_kinds = list(kinds)
    randomise(algo)
    if fixed:
        algo.mutator.set_choices({u.name: c for u, c in zip(
            algo.mutator.mutable_units, fixed)})
    before = {k: v.clone() for k, v in algo.state_dict().items()}
    runner = Runner(algo, train=loader(train, seed=1))
    loop = build_loop('SubnetValLoop', runner, sizes,
                      evaluate_fixed_subnet=bool(fixed),
                      calibrate_sample_num=n,
                      estimator_cfg=dict(type='McWidth'))
    drawn = []
    old = algo.mutator.sample_choices

    def draw(*a, **k):
        drawn.append(old(*a, **k))
        return drawn[-1]
    algo.mutator.sample_choices = draw
    seen = []
    runner.probe = lambda: seen.append(P12.unit_choices(algo.mutator))
    with own_random(Rot(lambda n, label='': 0, rot)):
        loop.run()
    ctx.step(len(kinds))
    ctx.state(spec)
    msg = f'subnets {spec}'
    clean = P12.autoslim_algo((1, 2, 4), 2)
    clean.load_state_dict(before)
    genes = []
    if fixed:
        plan = [('fix_subnet', {u.name: c for u, c in zip(
            clean.mutator.mutable_units, fixed)})]
    else:
        rand = iter(drawn)
        plan = []
        for k in kinds:
            if k == 'max':
                g = {u.name: 4 for u in clean.mutator.mutable_units}
            elif k == 'min':
                g = {u.name: 1 for u in clean.mutator.mutable_units}
            else:
                g = next(rand)
            plan.append((f'{k}_subnet', g))
        expect(next(rand, None) is None, f'{msg}: drew {drawn}')
    want = {}
    for name, g in plan:
        t = hand_calibrated(clean, g, train, n)
        m = expected(t.architecture, sizes)
        m['width'] = sum(P12.unit_choices(t.mutator))
        genes.append(P12.unit_choices(t.mutator))
        want.update(prefixed(m, name))
    same_metrics(runner.metrics[0], want, msg)
    expect(seen == [g for g in genes for _ in sizes],
           f'{msg}: evaluated {seen}, expected {genes}')
    val_hooks(runner, len(plan), sizes, msg)
    for k, v in algo.state_dict().items():
        if 'running' in k or 'num_batches' in k or 'mask' in k:
            continue
        expect(torch.equal(v, before[k]), f'{msg}: {k} changed')


def student():
    Net, MODELS = P12.build_all()
    return Net


def scope_distill(ctx, spec):
    kind, sizes, own = spec
    setup()
    Net, MODELS = P12.build_all()
    from mmengine.model import BaseDataPreprocessor

    class Shift(BaseDataPreprocessor):

        def __init__(self, by):
            super().__init__()
            self.by = by

        def forward(self, d, training=False):
            d = super().forward(d, training)
            return dict(d, inputs=d['inputs'] + self.by)

    torch.manual_seed(0)
    net, teacher = Net(), Net()
    for p in teacher.parameters():
        p.data.mul_(-1.3)
    randomise(net)
    randomise(teacher)
    teacher.b1.running_mean += 1
    if own:
        net.data_preprocessor = Shift(.5)
    if kind == 'SelfDistill':
        algo = MODELS.build(dict(
            type='SelfDistill', architecture=net,
            distiller=copy.deepcopy(P12.DISTILLER),
            **(dict(data_preprocessor=Shift(.5)) if own else {})))
    else:
        algo = MODELS.build(dict(
            type='SingleTeacherDistill', architecture=net, teacher=teacher,
            distiller=copy.deepcopy(P12.DISTILLER),
            **(dict(data_preprocessor=Shift(.5)) if own else {})))
    algo.train()
    before = {k: v.clone() for k, v in algo.state_dict().items()}
    runner = Runner(algo)
    loop = build_loop(kind + 'ValLoop', runner, sizes)

    def met(n):
        n = copy.deepcopy(n)
        f = n.forward
        n.forward = lambda x: f(x + .5) if own else f(x)
        return expected(n, sizes)
    for turn in range(2):
        runner.log, runner.metrics = [], []
        algo.train()
        loop.run()
        ctx.step(2)
        ctx.state((spec, turn))
        msg = f'{spec} run {turn}'
        if kind == 'SelfDistill':
            want = prefixed(met(net), 'student')
        else:
            want = met(net)
            want.update(prefixed(met(teacher), 'teacher'))
        same_metrics(runner.metrics[0], want, msg)
        val_hooks(runner, 1 if kind == 'SelfDistill' else 2, sizes, msg)
        expect(not any(m.training for m in algo.modules()),
               f'{msg}: left in training mode')
    for k, v in before.items():
        expect(torch.equal(algo.state_dict()[k], v), f'{spec}: {k} changed')


def scope_iteprune(ctx, spec):
    widths, sizes = spec
    setup()
    from mmrazor.models.algorithms import ItePruneAlgorithm
    from mmrazor.structures import load_fix_subnet
    Net, MODELS = P12.build_all()
    algo = ItePruneAlgorithm(Net(), dict(
        type='ChannelMutator', parse_cfg=P12.PARSE,
        channel_unit_cfg=dict(type='L1MutableChannelUnit',
                              default_args=dict(choice_mode='number'))),
        target_pruning_ratio={}, step_freq=1, prune_times=1)
    randomise(algo)
    runner = Runner(algo)
    with tempfile.TemporaryDirectory() as tmp:
        runner.work_dir = tmp
        loop = build_loop('ItePruneValLoop', runner, sizes)
        for turn, ws in enumerate(widths):
            runner.log, runner.metrics = [], []
            algo.mutator.set_choices({u.name: w for u, w in zip(
                algo.mutator.mutable_units, ws)})
            algo.train()
            before = {k: v.clone() for k, v in algo.state_dict().items()}
            got = loop.run()
            ctx.step()
            ctx.state((spec, turn))
            msg = f'iterative pruning {spec} run {turn}'
            want = expected(copy.deepcopy(algo).architecture, sizes)
            same_metrics(runner.metrics[0], want, msg)
            same_metrics(got, want, msg)
            val_hooks(runner, 1, sizes, msg)
            for k, v in algo.state_dict().items():
                expect(torch.equal(v, before[k]), f'{msg}: {k} changed')
            expect(P12.unit_choices(algo.mutator) == tuple(ws),
                   f'{msg}: the choice changed')
            # the files on their own are the subnet
            net = nn.Module()
            net.architecture = Net()
            net = net.architecture
            with open(os.path.join(tmp, 'fix_subnet.json')) as f:
                fix = json.load(f)
            load_fix_subnet(net, fix, load_subnet_mode='mutator')
            sd = torch.load(os.path.join(tmp, 'fix_subnet_weight.pth'))
            sd = {k[len('architecture.'):]: v
                  for k, v in sd['state_dict'].items()
                  if k.startswith('architecture.')}
            net.load_state_dict(sd)
            expect(net.c1.out_channels == ws[0]
                   and net.c2.out_channels == ws[1], f'{msg}: widths {net}')
            same_metrics(expected(net, sizes), want, f'{msg} reloaded')


# ------------------------------------------------------- paired loaders
class Counted(torch.utils.data.Dataset):
    metainfo = dict(a=1)

    def __init__(self, tag, n):
        self.tag, self.n = tag, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return f'{self.tag}{i}'


class Shuffle:
    """Its order is a function of the epoch it was told."""

    def __init__(self, n):
        self.n, self.epoch, self.told = n, 0, []

    def order(self, e):
        return [(i + e) % self.n for i in range(self.n)]

    def __iter__(self):
        return iter(self.order(self.epoch))

    def __len__(self):
        return self.n

    def set_epoch(self, e):
        self.epoch = e
        self.told.append(e)


def counted(tag, n, shuffle):
    d = Counted(tag, n)
    return torch.utils.data.DataLoader(
        d, collate_fn=lambda b: b[0], sampler=Shuffle(n) if shuffle else
        torch.utils.data.SequentialSampler(d))


def order(tag, n, shuffle, epoch):
    s = Shuffle(n)
    return [f'{tag}{i}' for i in (s.order(epoch) if shuffle else range(n))]


def zipped(lens, shuffle, epoch):
    return list(zip(*[order('abc'[j], n, shuffle, epoch)
                      for j, n in enumerate(lens)]))


def scope_loaders(ctx, spec):
    lens, shuffle = spec
    from mmrazor.engine.runner.darts_loop import (EpochMultiLoader,
                                                  IterMultiLoader)
    dls = [counted('abc'[j], n, shuffle) for j, n in enumerate(lens)]
    m = min(lens)
    for turn in range(2):
        e = EpochMultiLoader(dls)
        expect(len(e) == m and e.num_loaders == len(lens), f'{spec}: size')
        got = list(e)
        ctx.step(len(got))
        expect(got == zipped(lens, shuffle, 0), f'epoch {spec}: {got}')
    it = IterMultiLoader(dls if len(lens) > 1 else dls[0])
    expect(len(it) == m and it.num_loaders == len(lens), f'{spec}: size')
    for i in range(3 * m + 1):
        ctx.step()
        ctx.state((spec, i))
        got = next(it)
        want = zipped(lens, shuffle, i // m)[i % m]
        expect(got == want, f'iter {spec} step {i}: {got}, expected {want}')
        expect(it.epoch == i // m, f'iter {spec} step {i}: epoch {it.epoch}')


class Train(nn.Module):

    def __init__(self):
        super().__init__()
        self.log = []

    def train_step(self, data, optim_wrapper=None):
        self.log.append((data, self.training))
        return dict(loss=torch.tensor(0.))


def scope_darts(ctx, spec):
    by, lens, shuffle, total, begin, every = spec
    setup()
    from mmengine.hooks import DistSamplerSeedHook

    from mmrazor.registry import LOOPS
    model = Train()
    runner = Runner(model)
    a, b = (counted('ab'[j], n, shuffle) for j, n in enumerate(lens))
    vals = []

    class Val:

        def run(self):
            vals.append((loop._epoch, loop._iter))
            model.eval()
    if every:
        runner.val_loop = Val()
    val = dict(val_begin=begin, val_interval=every or 1000)
    m = min(lens)
    seed = DistSamplerSeedHook()
    if by == 'epoch':
        loop = LOOPS.build(dict(
            type='DartsEpochBasedTrainLoop', runner=runner, dataloader=a,
            mutator_dataloader=b, max_epochs=total, **val))
        old = runner.call_hook

        def call(name, *x, **k):
            old(name, *x, **k)
            if name == 'before_train_epoch':
                seed.before_train_epoch(runner)
        runner.call_hook = call
        runner.train_loop = loop
        type(runner).epoch = property(lambda s: s.train_loop._epoch)
    else:
        loop = LOOPS.build(dict(
            type='DartsIterBasedTrainLoop', runner=runner, dataloader=a,
            mutator_dataloader=b, max_iters=total, **val))
    loop.run()
    iters = total * m if by == 'epoch' else total
    ctx.step(iters)
    ctx.state(spec)
    want = [zipped(lens, shuffle, i // m)[i % m] for i in range(iters)]
    got = [d for d, _ in model.log]
    expect(got == want, f'{spec}: trained {got}, expected {want}')
    expect(all(t for _, t in model.log), f'{spec}: trained in evaluation '
           'mode')
    expect(loop._iter == iters, f'{spec}: counted {loop._iter}')
    names = [n for n, _, _ in runner.log]
    for when in ('before', 'after'):
        ep = total if by == 'epoch' else 1
        for n, c in (('train', 1), ('train_epoch', ep),
                     ('train_iter', iters)):
            expect(names.count(f'{when}_{n}') == c,
                   f'{spec}: {when}_{n} x{names.count(f"{when}_{n}")}')
    expect([i for n, i, _ in runner.log if n == 'before_train_iter'] ==
           ([i % m for i in range(iters)] if by == 'epoch'
            else list(range(iters))), f'{spec}: batch indices')
    if not every:
        expect(not vals, f'{spec}: {vals}')
    elif by == 'epoch':
        expect(loop._epoch == total, f'{spec}: epoch {loop._epoch}')
        v = [e for e in range(1, total + 1) if e >= begin
             and (e % every == 0 or e == total)]
        due = [e for e in range(1, total + 1)
               if e >= begin and e % every == 0]
        expect([e for e, _ in vals] in (v, due),
               f'{spec}: validated after {vals}')
    else:
        due = [i for i in range(1, total + 1)
               if i >= begin and i % every == 0]
        last = sorted(set(due) | ({total} if total >= begin else set()))
        expect([i for _, i in vals] in (due, last),
               f'{spec}: validated after {vals}')


def run(ctx):
    setup()
    branch()
    t = ctx.thorough
    masks = [b for b in itertools.product((True, False), repeat=4) if any(b)]
    base = [('mask', b) for b in masks] + \
        [('switch', k) for k in (1, 2, 3, 4)] + \
        [('branch', k) for k in 'ab'] + \
        [('plain', None), ('twice', None), ('skip', True), ('skip', False),
         ('momentum', None), ('momentum', .9), ('bn1', None), ('bn3', None)]
    forms = ('dict', 'list', 'extra', 'tensor')
    ctx.parallel('calibration',
                 [k + (f, ) for i, k in enumerate(base)
                  for j, f in enumerate(forms)
                  if t or k[0] != 'mask' or j == i % 4],
                 lambda s: scope_calib(ctx, s))
    sizes = [(2, 1), (3, ), (1, 1, 1)]
    tables = [[(4, 4)], [(1, 2), (4, 4)], [(1, 1), (2, 2), (4, 3)],
              [(3, 1), (1, 3), (2, 2), (4, 4)], [(4, 4), (1, 1)]]
    ctx.parallel('slimmable', [(tb, s) for tb in tables for s in sizes],
                 lambda s: scope_slimmable(ctx, s))
    kinds = [('max', ), ('min', ), ('random0', ), ('max', 'min'),
             ('min', 'max'), ('max', 'min', 'random0', 'random1'),
             ('random0', 'max', 'random1'), ()]
    cal = [((2, 2), 4), ((3, 1), 3), ((1, 3), 2), ((2, 2), 9)]
    sub = [('kinds', k, None, s, tr, n, r) for k in kinds
           for i, s in enumerate(sizes) for tr, n in cal
           for r in ((1, 2, 3) if any('random' in x for x in k) else (1, ))
           if t or i == 0 or n == 3]
    sub += [('fixed', ('max', 'min'), f, s, tr, n, 1)
            for f in itertools.product((1, 2, 4), repeat=2)
            for s in sizes for tr, n in cal]
    if not t:
        sub = [s for i, s in enumerate(sub) if i % 2 == 0]
    ctx.parallel('subnets', sub, lambda s: scope_subnet(ctx, s))
    ctx.parallel('distill', [(k, s, o) for k in ('SelfDistill',
                                                 'SingleTeacherDistill')
                             for s in sizes for o in (False, True)],
                 lambda s: scope_distill(ctx, s))
    ws = list(itertools.product((1, 2, 3, 4), repeat=2))
    ctx.parallel('pruning', [((w, ws[(i * 7 + 3) % 16]), s)
                             for i, w in enumerate(ws) for s in sizes[:2]],
                 lambda s: scope_iteprune(ctx, s))
    top = 5 if t else 4
    lens = [ls for k in (1, 2, 3)
            for ls in itertools.product(range(1, top + 1), repeat=k)]
    ctx.parallel('loaders', [(ls, s) for ls in lens for s in (False, True)],
                 lambda s: scope_loaders(ctx, s))
    pairs = list(itertools.product((1, 2, 4), repeat=2))
    ctx.parallel('training', [
        (by, ls, s, n, b, e) for by in ('epoch', 'iter') for ls in pairs
        for s in (False, True) for n in (1, 3, 5) for b, e in
        ((1, 0), (1, 1), (1, 2), (2, 2), (3, 1))],
        lambda s: scope_darts(ctx, s))
