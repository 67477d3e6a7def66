"""DMCP: widths drawn from the architecture parameters, and their export."""
import contextlib
import copy
import itertools
import json
import math
import os
import random
import shutil
import tempfile
from fractions import Fraction

import torch
import torch.nn.functional as F
from mmengine.model import BaseModel
from torch import nn

from mc.core import expect
from mc.explore import explore_choices

RULE = ('every number of channels x rates x draw; every outcome of all draws '
        'of every parameter vector, weighed by its probability; every '
        'sequence of modes; every outcome of the first draws of the hook; '
        'non-trivial: a sampled network')
ASSUMPTIONS = ['draws are uniform on the interval they ask for']


def gen(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed))


class Back(nn.Module):
    """conv-bn-relu chain, optionally residual or depthwise."""

    def __init__(self, kind, chans):
        super().__init__()
        self.kind = kind
        c = 3
        self.convs, self.bns = nn.ModuleList(), nn.ModuleList()
        for n in chans:
            self.convs.append(nn.Conv2d(c, n, 1, bias=kind == 'bias'))
            self.bns.append(nn.BatchNorm2d(n))
            c = n
        if kind == 'res':
            self.rc, self.rb = nn.Conv2d(c, c, 1), nn.BatchNorm2d(c)
        if kind == 'dw':
            self.rc = nn.Conv2d(c, c, 3, padding=1, groups=c)
            self.rb = nn.BatchNorm2d(c)
        for m in self.modules():
            if isinstance(m, nn.BatchNorm2d):
                m.weight.data.uniform_(.5, 1.5)
                m.bias.data.normal_()
                m.running_mean.normal_()
                m.running_var.uniform_(.5, 1.5)

    def forward(self, x):
        for c, b in zip(self.convs, self.bns):
            x = F.relu(b(c(x)))
        if self.kind == 'res':
            x = x + self.rb(self.rc(x))
        if self.kind == 'dw':
            x = self.rb(self.rc(x))
        return x


class Arch(BaseModel):

    def __init__(self, kind, chans):
        super().__init__()
        torch.manual_seed(1)
        self.backbone = Back(kind, chans)
        self.head = nn.Linear(chans[-1], 2)

    def forward(self, inputs=None, data_samples=None, mode='tensor'):
        y = self.head(F.adaptive_avg_pool2d(
            self.backbone(inputs), 1).flatten(1))
        return dict(loss=(y * y).sum()) if mode == 'loss' else y


PARSE = dict(type='ChannelAnalyzer', demo_input=(1, 3, 3, 3),
             tracer_type='BackwardTracer')
MUTATOR = dict(type='DMCPChannelMutator',
               channel_unit_cfg=dict(type='DMCPChannelUnit',
                                     default_args=dict(choice_mode='number')),
               parse_cfg=PARSE)


def mutated(kind, chans, rates):
    from mmrazor.registry import MODELS
    arch = Arch(kind, chans)
    state = copy.deepcopy(arch.state_dict())
    mut = MODELS.build(dict(_scope_='mmrazor', pruning_cfg=rates, **MUTATOR))
    mut.prepare_from_supernet(arch)
    arch.load_state_dict(state, strict=False)
    return arch, mut


def grid(c, rates):
    """(smallest width, step, number of steps), or None if impossible."""
    lo, hi, off = (Fraction(str(r)) for r in rates)
    n = int((hi - lo) / off)
    step = int(off * c / hi)
    return (c - n * step, step, n) if c - n * step > 0 else None


def live(arch, mut):
    """Widths as the layers see them, per searchable unit."""
    out = []
    for u in mut.units:
        seen = set()
        for ch in u.output_related:
            m = ch.module
            if isinstance(m, nn.Conv2d) and hasattr(m, 'get_mutable_attr'):
                mu = m.get_mutable_attr('out_channels')
                if mu is not None:
                    mask = mu.current_mask.tolist()
                    n = sum(mask)
                    expect(mask == [i < n for i in range(len(mask))],
                           f'{ch.name} keeps {mask}')
                    seen.add(n)
        out.append(seen)
    return out


def set_alpha(mut, rows):
    """Architecture parameters per unit, by number of steps."""
    with torch.no_grad():
        for p, r in zip(mut.arch_params.values(), rows):
            p.copy_(torch.tensor(r).float()[:len(p)] if len(p) else p)


@contextlib.contextmanager
def draws(rand_int, uniform):
    """The random draws of the mutator."""
    old = random.randint, random.uniform, random.random
    random.randint = rand_int
    random.uniform = lambda a, b: a + (b - a) * uniform()
    random.random = uniform
    try:
        yield
    finally:
        random.randint, random.uniform, random.random = old


def tensor_widths(mut):
    return [float(u.mutable_channel.activated_tensor_channels)
            for u in mut.units]


def units_channels(kind, chans):
    return list(chans)


def scope_grid(ctx, case):
    """Which widths there are, for every number of channels and rates."""
    kind, chans, rates = case
    grids = [grid(c, rates) for c in chans]
    try:
        arch, mut = mutated(kind, chans, rates)
    except AssertionError:
        expect(None in grids, f'{case}: refused')
        return
    expect(None not in grids, f'{case}: widths {grids} are accepted')
    by = {u.num_channels: i for i, u in enumerate(mut.units)}
    for c, g in zip(chans, grids):
        lo, step, n = g
        i = by[c]
        got = set()
        top = []

        def randint(a, b):
            top.append((a, b))
            return a + pick % (b - a + 1)
        for pick in range(n + 1):
            ctx.step()
            with draws(randint, lambda: .5):
                mut.sample_subnet('random', False)
            w = live(arch, mut)[i]
            expect(len(w) == 1, f'{case}: layers of one unit have {w}')
            got |= w
        for mode, want in (('max', c), ('min', lo)):
            mut.sample_subnet(mode, False)
            expect(live(arch, mut)[i] == {want},
                   f'{case}: {mode} has {live(arch, mut)[i]}, expected '
                   f'{want}')
        expect(got == {lo + k * step for k in range(n + 1)},
               f'{case}: random widths {sorted(got)}, expected from {lo} by '
               f'{step}')
        ctx.state((c, rates, tuple(sorted(got))))


def scope_sample(ctx, case):
    """All random draws of 'direct'; 'expected' is their mean."""
    kind, chans, rates, alphas = case
    arch, mut = mutated(kind, chans, rates)
    set_alpha(mut, alphas)
    cs = [u.num_channels for u in mut.units]
    gs = [grid(c, rates) for c in cs]
    conds = [[math.exp(-max(a, 0)) for a in r[:g[2]]]
             for r, g in zip(alphas, gs)]
    mean = [0.] * len(cs)
    # the units draw one after the other
    for ch, res in explore_choices(
            lambda ch: direct(ctx, case, arch, mut, gs, conds, ch)):
        p, ws = res
        for i, w in enumerate(ws):
            mean[i] += p * w
        ctx.state((case, ws))
    for arch_train in (False, True):
        mut.sample_subnet('expected', arch_train)
        t = tensor_widths(mut)
        for i, c in enumerate(cs):
            expect(abs(t[i] - mean[i]) < 1e-3,
                   f'{case}: expected width {t[i]}, the mean is {mean[i]}')
            w = live(arch, mut)[i]
            expect(all(abs(v - mean[i]) < 1 + 1e-3 for v in w) and
                   len(w) == 1, f'{case}: the network of the expected widths '
                   f'has {w} channels, the mean is {mean[i]:.4g}')
    ctx.step()


def direct(ctx, case, arch, mut, gs, conds, ch):
    unit, step = [0], [0]
    prob = [1.]
    log = [0] * len(gs)

    def uniform():
        while unit[0] < len(gs) and step[0] >= gs[unit[0]][2]:
            unit[0] += 1
            step[0] = 0
        expect(unit[0] < len(gs), f'{case}: too many draws')
        c = conds[unit[0]][step[0]]
        if c >= 1:
            log[unit[0]] += 1
            step[0] += 1
            return 1.
        if ch(2):
            log[unit[0]] += 1
            step[0] += 1
            prob[0] *= c
            return c * .999
        unit[0] += 1
        step[0] = 0
        prob[0] *= 1 - c
        return min(c * 1.001, 1 - (1 - c) / 2)
    ctx.step()
    with draws(lambda a, b: a, uniform):
        mut.sample_subnet('direct', False)
    ws = []
    for i, (lo, st, n) in enumerate(gs):
        w = live(arch, mut)[i]
        want = lo + st * log[i]
        expect(w == {want}, f'{case}: widths {w} after {log}, expected {want}')
        ws.append(min(w))
        expect(tensor_widths(mut)[i] == min(w),
               f'{case}: counted as {tensor_widths(mut)[i]} channels')
    return prob[0], tuple(ws)


def scope_forward(ctx, case):
    """What the network computes with and without architecture training."""
    kind, chans, rates, alphas, hist = case
    arch, mut = mutated(kind, chans, rates)
    ref = Arch(kind, chans)
    set_alpha(mut, alphas)
    cs = [u.num_channels for u in mut.units]
    gs = [grid(c, rates) for c in cs]
    x = gen(2, 3, 3, 3, seed=2)
    unit_of = {}
    for i, u in enumerate(mut.units):
        for c in u.output_related:
            unit_of[c.name] = i
    for mode, arch_train, training in hist:
        ctx.step()
        arch.train(training)
        ref.train(training)
        ref.load_state_dict({k: v.clone() for k, v in
                             arch.state_dict().items()
                             if k in ref.state_dict()}, strict=False)
        pos = iter([.3, .9, .2, .8, .1, .95] * 9)
        with draws(lambda a, b: b // 2, lambda: next(pos)):
            mut.sample_subnet(mode, arch_train)
        if mode == 'expected':
            continue
        widths = [min(w) for w in live(arch, mut)]
        alpha = [p.detach().clone().requires_grad_()
                 for p in mut.arch_params.values()]
        hooks = []
        for n, m in ref.named_modules():
            if not isinstance(m, (nn.Conv2d, nn.BatchNorm2d)):
                continue
            i = unit_of[n]
            hooks.append(m.register_forward_hook(
                scaled(widths[i], gs[i], alpha[i] if arch_train and
                       isinstance(m, nn.BatchNorm2d) else None)))
        want = ref(x)
        got = arch(x)
        for h in hooks:
            h.remove()
        expect(torch.allclose(got, want, atol=1e-4, rtol=1e-4),
               lambda: f'{case}: {mode} {arch_train} computes something else '
               f'(by {(got - want).abs().max():.3g})')
        a = torch.autograd.grad((want ** 2).sum(), alpha, allow_unused=True)
        b = torch.autograd.grad((got ** 2).sum(),
                                list(mut.arch_params.values()),
                                allow_unused=True)
        for p, q, g in zip(a, b, gs):
            z = torch.zeros(g[2])
            p, q = (z if t is None else t for t in (p, q))
            expect(torch.allclose(p, q, atol=1e-3, rtol=1e-3),
                   lambda: f'{case}: {mode} {arch_train}: gradient {q} of '
                   f'the architecture, expected {p}')
        for n, m in arch.named_modules():
            if isinstance(m, nn.BatchNorm2d):
                r = ref.get_submodule(n)
                w = widths[unit_of[n]]
                expect(torch.allclose(m.running_mean[:w],
                                      r.running_mean[:w], atol=1e-4),
                       f'{case}: statistics of {n}')
    ctx.state(case)


def scaled(width, g, alpha):
    lo, step, n = g

    def hook(mod, args, y):
        k = torch.zeros(y.shape[1])
        k[:width] = 1
        if alpha is not None and n and width != lo:
            p = torch.cumprod(torch.exp(-alpha.clamp(min=0)), 0)
            s = torch.cat([torch.ones(lo), p.repeat_interleave(step)])
            k = k * s
        return y * k.view(1, -1, 1, 1)
    return hook


def algorithm(kind, chans, rates, target):
    from mmrazor.registry import MODELS
    out = dict(fc=dict(type='ModuleOutputs', source='head'))
    return MODELS.build(dict(
        _scope_='mmrazor', type='DMCP', architecture=Arch(kind, chans),
        distiller=dict(
            type='ConfigurableDistiller', teacher_recorders=out,
            student_recorders=copy.deepcopy(out),
            distill_losses=dict(kl=dict(type='KLDivergence')),
            loss_forward_mappings=dict(kl=dict(
                preds_S=dict(recorder='fc', from_student=True),
                preds_T=dict(recorder='fc', from_student=False)))),
        mutator_cfg=dict(pruning_cfg=rates, **MUTATOR),
        target_flops=target))


def flops(kind, chans, widths, px=224):
    """Of the backbone."""
    total, c = 0, 3
    for w in widths:
        total += px * px * w * (c + (kind == 'bias')) + 2 * px * px * w
        c = w
    if kind == 'res':
        total += px * px * c * (c + 1) + 2 * px * px * c
    if kind == 'dw':
        total += px * px * c * 10 + 2 * px * px * c
    return total


def scope_export(ctx, case):
    """The hook saves subnets near the target, and the expected one."""
    from mmengine.logging import MMLogger
    from mmrazor.registry import HOOKS
    from mmrazor.structures import load_fix_subnet
    kind, chans, rates, alphas, goal, num = case
    gs = [grid(c, rates) for c in chans]
    goal = [reach(k, r[:g[2]]) for k, r, g in zip(goal, alphas, gs)]
    goal = [g[0] + g[1] * k for g, k in zip(gs, goal)]
    target = flops(kind, chans, goal) / 1e6
    fits = {ws for ws in itertools.product(
        *[[g[0] + k * g[1] for k in range(g[2] + 1)] for g in gs])
        if .95 * target <= flops(kind, chans, ws) / 1e6 <= 1.05 * target}
    for ch, saved in explore_choices(
            lambda ch: export(ctx, case, target, num, goal, gs, ch)):
        for ws in saved[:-1]:
            expect(ws in fits, f'{case} {ch}: saved {ws} with '
                   f'{flops(kind, chans, ws) / 1e6} MFLOPs, target {target}')
        mean = [g[0] + g[1] * sum(itertools.accumulate(
            (math.exp(-max(a, 0)) for a in r[:g[2]]), lambda p, q: p * q))
            for g, r in zip(gs, alphas)]
        expect(all(abs(a - b) < 1 + 1e-3
                   for a, b in zip(saved[-1], mean)),
               f'{case} {ch}: saved {saved[-1]} as the expected subnet, the '
               f'mean is {mean}')
        ctx.state((case, saved))


def reach(k, alphas):
    """The first number of steps >= k that draws can give."""
    while k < len(alphas) and alphas[k] <= 0:
        k += 1
    return min(k, len(alphas))


def export(ctx, case, target, num, goal, gs, ch):
    from mmrazor.registry import HOOKS
    from mmrazor.structures import load_fix_subnet
    kind, chans, rates, alphas, _, _ = case
    algo = algorithm(kind, chans, rates, target)
    rows = alphas
    set_alpha(algo.mutator, rows)
    order = [u.num_channels for u in algo.mutator.units]
    expect(order == list(chans), f'{case}: units {order}')
    n = [0]
    state = dict(unit=0, step=0, free=None)
    paths = [(w - g[0]) // g[1] if g[1] else 0 for w, g in zip(goal, gs)]

    def uniform():
        while state['step'] >= gs[state['unit'] % len(gs)][2]:
            state['unit'] += 1
            state['step'] = 0
        i = state['unit'] % len(gs)
        c = math.exp(-max(rows[i][state['step']], 0))
        n[0] += 1
        expect(n[0] < 3000, f'{case}: never ends')
        go = c >= 1 or (ch(2) if n[0] <= 4 else state['step'] < paths[i])
        if go:
            state['step'] += 1
            return c * .999
        state['unit'] += 1
        state['step'] = 0
        return min(c * 1.001, 1 - (1 - c) / 2)
    tmp = tempfile.mkdtemp(prefix='vp-p25-')
    try:
        import logging
        runner = type('R', (), dict(
            model=algo, work_dir=tmp, logger=logging.getLogger('vp')))()
        hook = HOOKS.build(dict(type='DMCPSubnetHook',
                                subnet_sample_num=num))
        ctx.step()
        with draws(lambda a, b: a, uniform):
            hook.after_run(runner)
        root = os.path.join(tmp, 'model_sample')
        want = {f'subnet_{i + 1}.json' for i in range(num)}
        files = set(os.listdir(root))
        expect(files == want | {'excepted_ch.json'}, f'{case}: saved {files}')
        out = []
        for f in sorted(want) + ['excepted_ch.json']:
            net = Arch(kind, chans)
            load_fix_subnet(net, json.load(open(os.path.join(root, f))),
                            load_subnet_mode='mutator')
            out.append(tuple(c.out_channels for c in net.backbone.convs))
            net.eval()
            net(gen(2, 3, 3, 3))
        return tuple(out)
    finally:
        shutil.rmtree(tmp)


def run(ctx):
    rates = [(.1, 1., .05), (.25, 1., .25), (.5, 1., .25), (.2, 1., .2),
             (.1, 1., .3), (.5, 1., .5), (.3, 1., .1), (.3, .9, .1),
             (1., 1., .1)]
    kinds = ('plain', 'res', 'dw', 'bias')
    cases = []
    for r in rates:
        for i, c in enumerate(range(1, 41 if ctx.thorough else 25)):
            cases.append((kinds[i % 4], (c, c + 1), r))
    ctx.parallel('grid', cases, lambda c: scope_grid(ctx, c))
    alphas = [(.0, .7, .2, .4), (1., -1., .5, 2.), (-1., -1., 0., -.5),
              (.3, .3, .3, .3)]
    cases = []
    for k in kinds:
        for r, ch in (((.25, 1., .25), (4, 8)), ((.5, 1., .25), (5, 6)),
                      ((.2, 1., .2), (5, 10)), ((1., 1., .1), (3, 4)),
                      ((.5, 1., .5), (6, 7))):
            for a, b in itertools.product(alphas, repeat=2):
                cases.append((k, ch, r, (a, b)))
    ctx.parallel('sample', cases, lambda c: scope_sample(ctx, c))
    steps = [(m, a, t) for m in ('max', 'min', 'random', 'direct')
             for a in (True, False) for t in (True, False)]
    steps.append(('expected', False, True))
    fw = []
    for i, h in enumerate(itertools.product(
            steps, repeat=3 if ctx.thorough else 2)):
        c = cases[i * 7 % len(cases)]
        fw.append(c + (h, ))
    for i, c in enumerate(cases):
        fw.append(c + (tuple(steps[(i + j * 5) % 17] for j in range(4)), ))
    ctx.parallel('forward', fw, lambda c: scope_forward(ctx, c))
    ex = []
    for k in kinds:
        for i, goal in enumerate(((0, 0), (1, 1), (2, 1), (3, 3), (0, 2))):
            for num in (1, 2):
                ex.append((k, (4, 8), (.25, 1., .25),
                           (alphas[i % 4], alphas[(i + num) % 4]), goal, num))
    ctx.parallel('export', ex, lambda c: scope_export(ctx, c))
