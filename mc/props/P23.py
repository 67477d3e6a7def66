"""Fisher pruning: exact importances, one least channel at a time."""
import copy
import itertools
import math
import os
import shutil
import tempfile

import torch
from mmengine import MessageHub
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper
from torch import nn

from mc import archs
from mc.core import expect
from mc.props import P09

RULE = ('every net of the grammar x normalization x interval x schedule of '
        'steps (training on different batches, evaluation, invalid values, '
        'save and load); every threshold list and history of removals; every '
        'pruning pattern through the sub-models; non-trivial: a training '
        'step, checked iteration or cut network')
ASSUMPTIONS = ['importances within 0.1% of the least may be removed instead',
               'the positions of a unit cost the same']


def gen(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed))


class Arch(BaseModel):

    def __init__(self, prog, head):
        super().__init__()
        self.net = archs.Net(prog, head)

    def forward(self, inputs=None, data_samples=None, mode='tensor'):
        y = self.net(inputs)
        if mode == 'loss':
            return dict(loss=sum((t * t).sum() * (i + 1) + t.sum()
                                 for i, t in enumerate(archs.flat(y))))
        return y


def algorithm(spec, norm, interval, linear):
    from mmrazor.registry import MODELS
    prog, head, tracer = spec
    arch = Arch(prog, head)
    state = copy.deepcopy(arch.state_dict())
    algo = MODELS.build(dict(
        type='mmrazor.GroupFisherAlgorithm', architecture=arch,
        interval=interval, mutator=dict(
            type='GroupFisherChannelMutator',
            parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 3, 3),
                           tracer_type=tracer),
            channel_unit_cfg=dict(
                type='GroupFisherChannelUnit', default_args=dict(
                    normalization_type=norm, mutate_linear=linear)))))
    algo.architecture.load_state_dict(state, strict=False)
    return algo


def set_iter(i):
    h = MessageHub.get_current_instance()
    h.update_info('iter', i)
    h.update_info('epoch', 0)


def is_lin(m):
    return isinstance(m, nn.Linear)


class Reference:
    """The unpruned network with its dropped channels zeroed."""

    def __init__(self, spec, algo, norm):
        self.net = archs.Net(spec[0], spec[1])
        self.norm, self.algo = norm, algo
        units = [u for u in algo.mutator.units]
        # (module, side, i) -> (unit, position), from the masks alone
        self.where = {}
        net = algo.architecture.net
        self.units = algo.mutator.mutable_units
        masks = [u.mutable_channel.mask.clone() for u in self.units]
        for ui, u in enumerate(self.units):
            for p in range(u.num_channels):
                u.mutable_channel.mask.fill_(1)
                u.mutable_channel.mask[p] = 0
                for (name, side), m in P09.masks(net).items():
                    for i, b in enumerate(m):
                        if not b:
                            self.where[name, side, i] = ui, p
                u.mutable_channel.mask.fill_(1)
        for u, m in zip(self.units, masks):
            u.mutable_channel.mask.copy_(m)

    def keep(self, name):
        m = P09.masks(self.algo.architecture.net).get((name, 'out'))
        return m

    def step(self, x, lr):
        """One training step; the gradient times input of every channel."""
        net = self.net
        state = self.algo.architecture.net.state_dict()
        net.load_state_dict({k: v for k, v in state.items()
                             if k in net.state_dict()})
        net.train()
        rec, hooks = [], []
        for name, m in net.named_modules():
            if isinstance(m, (nn.Conv2d, nn.Linear)):

                def pre(mod, args, name=name):
                    x = args[0]
                    if x.requires_grad:
                        x = x + 0
                        x.retain_grad()
                        rec.append((name, x))
                    return (x, )

                hooks.append(m.register_forward_pre_hook(pre))
            if isinstance(m, (nn.Conv2d, nn.Linear, nn.BatchNorm2d)):

                def post(mod, args, y, name=name):
                    k = self.keep(name)
                    shapes.setdefault(name, []).append(y.shape)
                    if k is not None:
                        k = torch.tensor(k).float()
                        y = y * (k.view(1, -1, 1, 1) if y.dim() == 4 else k)
                    return y

                hooks.append(m.register_forward_hook(post))
        shapes = {}
        y = net(x)
        loss = sum((t * t).sum() * (i + 1) + t.sum()
                   for i, t in enumerate(archs.flat(y)))
        net.zero_grad()
        loss.backward()
        for h in hooks:
            h.remove()
        with torch.no_grad():
            for p in net.parameters():
                if p.grad is not None:
                    p -= lr * p.grad
        per = [torch.zeros(len(x), u.num_channels).double()
               for u in self.units]
        for name, t in rec:
            f = (t.detach() * t.grad).double()
            if f.dim() == 4:
                f = f.sum((2, 3))
            for i in range(f.shape[1]):
                if (name, 'in', i) in self.where:
                    ui, p = self.where[name, 'in', i]
                    per[ui][:, p] += f[:, i]
        return loss, [(f**2).sum(0) / self.cost(ui, shapes)
                      for ui, f in enumerate(per)]

    def cost(self, ui, shapes):
        if self.norm == 'none':
            return 1
        masks = P09.masks(self.algo.architecture.net)
        total = 0
        # one position stands for all of a unit
        seen = [k for k, v in self.where.items() if v == (ui, 0)]
        for name, side, _ in seen:
            m = self.net.get_submodule(name)
            if not isinstance(m, (nn.Conv2d, nn.Linear)):
                continue
            for s in shapes[name]:
                pixels = s[2] * s[3] if len(s) == 4 else 1
                if self.norm == 'act':
                    total += pixels if side == 'out' else 0
                    continue
                k = m.weight[0, 0].numel()
                if getattr(m, 'groups', 1) > 1:
                    other = 1
                else:
                    key = (name, 'in' if side == 'out' else 'out')
                    if key in masks:
                        other = sum(masks[key])
                    else:
                        other = m.weight.shape[1 if side == 'out' else 0]
                total += pixels * k * other
        return total / (1e9 if self.norm == 'flops' else 1e6)


def close(a, b, tol=1e-3):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12


def snapshot(units):
    return [u.mutable_channel.mask.bool().tolist() for u in units]


def scope_train(ctx, case):
    spec, norm, interval, linear, ops = case
    algo = algorithm(spec, norm, interval, linear)
    algo.train()
    opt = OptimWrapper(torch.optim.SGD(
        algo.architecture.parameters(), lr=LR))
    ref = Reference(spec, algo, norm)
    units = algo.mutator.mutable_units
    acc = [torch.zeros(u.num_channels).double() for u in units]
    it, broken = 0, False
    for i, op in enumerate(ops):
        what = f'{case}, after {i}'
        ctx.step()
        before = snapshot(units)
        if op == 'eval':
            algo.eval()
            with torch.no_grad():
                algo.forward(gen(2, 3, 3, 3, seed=50 + i))
            algo.train()
        elif op == 'nan':
            for u, b in zip(units, before):
                if sum(b) > 1:
                    u.normalized_fisher_info[b.index(True)] = math.nan
                    broken = True
            continue
        elif op == 'load':
            state = copy.deepcopy(algo.state_dict())
            algo = algorithm(spec, norm, interval, linear)
            algo.load_state_dict(state)
            algo.train()
            ref.algo, ref.units = algo, algo.mutator.mutable_units
            units = ref.units
            opt = OptimWrapper(torch.optim.SGD(
                algo.architecture.parameters(), lr=LR))
        else:
            x = gen(op, 3, 3, 3, seed=i)
            set_iter(it)
            loss, inc = ref.step(x, LR)
            out = algo.train_step(dict(inputs=x, data_samples=None), opt)
            expect(close(out['loss'].item(), loss.item()),
                   f'{what}: loss {out["loss"]}, expected {loss}')
            acc = [a + b for a, b in zip(acc, inc)]
            it += 1
            have = algo.architecture.net.state_dict()
            for k, v in ref.net.state_dict().items():
                g = have[k]
                expect(kept(ref, k, g - v).abs().max() <=
                       1e-3 * (1 + v.abs().max()) if v.dim() else True,
                       f'{what}: {k} trained differently')
            if (it - 1) % interval == 0:
                least = min([a[p].item() for a, b in zip(acc, before)
                             if sum(b) > 1 for p in range(len(b)) if b[p]],
                            default=None)
                now = snapshot(units)
                diff = [(u, p) for u, b in enumerate(before)
                        for p in range(len(b)) if b[p] != now[u][p]]
                if least is None or broken:
                    expect(not diff, f'{what}: pruned {diff} of {before}')
                else:
                    expect(len(diff) == 1 and before[diff[0][0]][diff[0][1]],
                           f'{what}: changed {diff} of {before}')
                    u, p = diff[0]
                    expect(sum(before[u]) > 1, f'{what}: unit {u} is empty')
                    expect(close(acc[u][p].item(), least), lambda:
                           f'{what}: pruned channel {p} of unit {u} with '
                           f'importance {acc[u][p]:.6g}, the least is '
                           f'{least:.6g}')
                before, broken = now, False
                acc = [torch.zeros_like(a) for a in acc]
        expect(snapshot(units) == before, f'{what}: {op} changed the widths')
        if not broken:
            check_state(algo, units, acc, before, what)
        ctx.state((spec, norm, tuple(map(tuple, before)), it % interval))


def kept(ref, key, diff):
    """The part of a difference that lies in kept channels."""
    name, _, _ = key.rpartition('.')
    masks = P09.masks(ref.algo.architecture.net)
    o, i = masks.get((name, 'out')), masks.get((name, 'in'))
    if o is not None and diff.dim():
        diff = diff[torch.tensor(o)]
    if i is not None and diff.dim() > 1 and diff.shape[1] == len(i):
        diff = diff[:, torch.tensor(i)]
    return diff


def check_state(algo, units, acc, masks, what):
    for m in algo.architecture.modules():
        for k in ('recorded_input', 'recorded_grad', 'recorded_out_shape',
                  'handlers'):
            expect(not getattr(m, k, None), f'{what}: {k} is left')
        if hasattr(m, 'recorded_input'):
            expect(not m._forward_hooks and not m._backward_hooks,
                   f'{what}: hooks are left')
    for ui, u in enumerate(units):
        got = u.normalized_fisher_info
        top = acc[ui].abs().max().item()
        expect(got.shape == acc[ui].shape, f'{what}: shape {got.shape}')
        for p, k in enumerate(masks[ui]):
            want = acc[ui][p].item() if k else 0
            if k:
                expect(abs(got[p].item() - want) <= 1e-3 * want + 1e-5 * top,
                       lambda: f'{what}: importance of channel {p} of unit '
                       f'{ui} is {got[p].item():.6g}, expected {want:.6g}')


LR = 1e-4
PX = 32


def prune(algo, mode):
    """Drop channels by hand: how many of each unit depends on the mode."""
    for i, u in enumerate(algo.mutator.mutable_units):
        n = u.num_channels
        k = {0: 0, 1: 1, 2: n - 1, 3: i % n, 4: n // 2}[mode]
        k = min(k, n - 1)      # of other places than the last
        for p in range(k):
            u.mutable_channel.mask[(i + 2 * p) % n if n % 2 else
                                   (i + p) % n] = 0


def scope_hook(ctx, case):
    """Checkpoints on the way down, each once, then the end."""
    spec, kind, thr, interval, early, history = case
    from mmrazor.registry import HOOKS
    algo = algorithm(spec, 'act', 1, False)
    algo.train()
    tmp = tempfile.mkdtemp(prefix='vp-p23-')
    try:
        hook = HOOKS.build(dict(
            type='mmrazor.ResourceInfoHook', interval=interval,
            demo_input=dict(type='mmrazor.DefaultDemoInput',
                            input_shape=[1, 3, PX, PX]),
            resource_type=kind, save_ckpt_thr=list(thr), early_stop=early))
        runner = type('Runner', (), dict(model=algo, work_dir=tmp))()
        flags = [m.training for m in algo.modules()]
        hook.before_run(runner)
        full = size(algo, kind)
        left = sorted(thr, reverse=True)
        units = algo.mutator.mutable_units
        order = [(u, p) for p in range(max(u.num_channels for u in units))
                 for u in units if p + 1 < u.num_channels]
        for i, n in enumerate(history):
            ctx.step()
            for u, p in order[:n]:
                u.mutable_channel.mask[p] = 0
            del order[:n]
            state = copy.deepcopy(algo.state_dict())
            before = set(os.listdir(tmp))
            set_iter(i)
            ended = False
            try:
                hook.after_train_iter(runner, i, None, None)
            except SystemExit:
                ended = True
            hook.after_train_epoch(runner)
            new = set(os.listdir(tmp)) - before
            what = f'{case}, iteration {i}, at {size(algo, kind)} of {full}'
            want = set()
            if i % interval == 0 and left and \
                    size(algo, kind) / full < left[0]:
                want = {f'{kind}_{left.pop(0):.2f}.pth'}
            expect(new == want, f'{what}: saved {new}, expected {want}')
            expect(ended == (early and not left), f'{what}: ended {ended}')
            now = algo.state_dict()
            for f in new:
                saved = torch.load(os.path.join(tmp, f))['state_dict']
                expect(same_state(saved, now), f'{what}: {f} differs')
            expect(same_state(state, now), f'{what}: changed the model')
            expect([m.training for m in algo.modules()] == flags,
                   f'{what}: changed the mode')
            ctx.state((spec, kind, tuple(left), size(algo, kind)))
            if ended:
                return
    finally:
        shutil.rmtree(tmp)


def same_state(a, b):
    return a.keys() == b.keys() and all(
        torch.equal(a[k], b[k]) for k in a)


def size(algo, kind):
    """Parameters or multiply-adds of the convolutions, norms and linears."""
    net = algo.architecture.net
    masks = P09.masks(net)
    total = 0
    for name, m in net.named_modules():
        if not isinstance(m, (nn.Conv2d, nn.Linear, nn.BatchNorm2d)):
            continue
        n = {s: sum(masks[name, s]) for s in ('in', 'out')
             if (name, s) in masks}
        if isinstance(m, nn.BatchNorm2d):
            c = n.get('out', m.num_features)
            total += c * 2 * (PX**2 if kind == 'flops' else 1)
            continue
        out = n.get('out', m.weight.shape[0])
        per = m.weight[0, 0].numel() * (
            1 if getattr(m, 'groups', 1) > 1 else
            n.get('in', m.weight.shape[1]))
        pixels = 1 if isinstance(m, nn.Linear) or kind == 'params' else PX**2
        total += out * pixels * (per + (m.bias is not None))
    return total / 1e6


def static_widths(net):
    return {n: tuple(m.weight.shape[:2]) for n, m in net.named_modules()
            if isinstance(m, (nn.Conv2d, nn.Linear))}


def scope_sub(ctx, case):
    """Pruned, saved, cut, finetuned, rebuilt, rounded for deployment."""
    spec, mode, divisor, as_file = case
    from mmrazor.registry import MODELS
    algo = algorithm(spec, 'act', 1, False)
    prune(algo, mode)
    kept_c = {u.name: int(u.mutable_channel.mask.sum())
              for u in algo.mutator.mutable_units}
    algo.eval()
    x = gen(2, 3, 3, 3, seed=8)
    with torch.no_grad():
        want = archs.flat(algo.forward(x))
    tmp = tempfile.mkdtemp(prefix='vp-p23-')
    try:
        ckpt = os.path.join(tmp, 'pruned.pth')
        torch.save(dict(state_dict=algo.state_dict()), ckpt)
        fresh = algorithm(spec, 'act', 1, False)
        for p in fresh.parameters():
            p.data.add_(1)
        fresh.init_cfg = dict(type='Pretrained', checkpoint=ckpt)
        h = MessageHub.get_current_instance()
        h.update_info('cfg', f'work_dir = {tmp!r}')
        sub = MODELS.build(dict(type='mmrazor.GroupFisherSubModel',
                                algorithm=fresh, divisor=1))
        ctx.step()
        expect(sub is fresh.architecture, f'{case}: another model')
        sub.eval()
        with torch.no_grad():
            got = archs.flat(sub(x))
        same(got, want, f'{case}: the sub-model')
        cut = static_widths(sub.net)
        masks = P09.masks(algo.architecture.net)
        for n, (o, i) in cut.items():
            expect((n, 'out') not in masks or sum(masks[n, 'out']) == o,
                   f'{case}: {n} has width {o}')
        state = copy.deepcopy(sub.state_dict())
        sub.init_weights()
        expect(same_state(state, sub.state_dict()),
               f'{case}: init_weights changed the weights')
        path = os.path.join(tmp, 'fix_subnet.json')
        expect(os.path.exists(path), f'{case}: no structure is saved')
        import json
        fix = json.load(open(path))
        expect({k: fix[k] for k in kept_c if k in fix} == kept_c,
               f'{case}: structure {fix}, expected {kept_c}')
        # rebuilt from the structure alone
        dep = MODELS.build(dict(
            type='mmrazor.GroupFisherDeploySubModel',
            architecture=Arch(*spec[:2]),
            fix_subnet=path if as_file else fix, divisor=divisor,
            parse_cfg=dict(_scope_='mmrazor', type='ChannelAnalyzer',
                           demo_input=(1, 3, 3, 3), tracer_type=spec[2])))
        ctx.step()
        r = dep.load_state_dict(state)
        expect(not r.missing_keys and not r.unexpected_keys, f'{case}: {r}')
        dep.eval()
        with torch.no_grad():
            same(archs.flat(dep(x)), want, f'{case}: rebuilt')
        expect(hasattr(dep, 'post_process_for_mmdeploy') == (divisor != 1),
               f'{case}: rounding is registered wrongly')
        ctx.state((spec, mode, divisor))
    finally:
        shutil.rmtree(tmp)


def same(got, want, what):
    expect(len(got) == len(want), f'{what}: {len(got)} outputs')
    for a, b in zip(got, want):
        expect(a.shape == b.shape and
               torch.allclose(a, b, rtol=1e-4, atol=1e-4),
               lambda: f'{what} computes something else '
               f'(by {(a - b).abs().max():.3g})')


STEPS = tuple(s for s in archs.MORE if s != 'drop')


def run(ctx):
    nets = []
    for prog in archs.programs(1, STEPS):
        for h in archs.HEADS:
            for t in ('BackwardTracer', 'FxTracer'):
                nets.append((prog, h, t))
    for i, prog in enumerate(archs.programs(2, STEPS, exact=True)):
        nets.append((prog, archs.HEADS[i % 6],
                     ('BackwardTracer', 'FxTracer')[i % 2]))
    # the backward tracer does not support cycles
    nets = [n if 'twice' not in n[0] else n[:2] + ('FxTracer', )
            for i, n in enumerate(nets)]
    cases = []
    long = (1, 2, 'eval', 2, 'nan', 1, 'load', 3, 1)
    for i, n in enumerate(nets):
        for j, norm in enumerate(('flops', 'act', 'none')):
            if norm == 'flops' and 'gw' in n[0]:
                continue
            if ctx.thorough:
                for linear in (False, True):
                    cases += [(n, norm, k, linear, ops) for k in (1, 2, 3)
                              for ops in ((2, 1, 3, 1, 2), long)]
            elif len(n[0]) < 2 and (i + j) % 3 or (i + j) % 3 == 2:
                if (i + j) % 2:
                    cases.append((n, norm, 1, i % 4 == 1, (2, 1, 3)))
                else:
                    cases.append((n, norm, 2 + i % 2, i % 4 == 2, long))
    ctx.parallel('train', cases, lambda c: scope_train(ctx, c))
    hooks = []
    for n in ((('conv', ), 'conv', 'FxTracer'),
              (('cat', ), 'two', 'BackwardTracer'),
              (('res', 'conv'), 'linear', 'FxTracer')):
        for kind, thr, interval, early, hist in itertools.product(
                ('flops', ),
                ((.5, ), (.4, .8), (.9, .7, .5), (.75, .7)), (1, 3),
                (True, False), ((1, ) * 6, (2, 0, 3, 1, 1, 1), (0, 6, 0, 0),
                                (0, 0, 0, 5, 1, 0, 0))):
            hooks.append((n, kind, thr, interval, early, hist))
    ctx.parallel('hook', hooks, lambda c: scope_hook(ctx, c))
    subs = []
    for i, n in enumerate(nets):
        for mode in range(5):
            if ctx.thorough or mode == i % 5 or not n[0]:
                subs.append((n, mode, 1 + mode % 2, bool(mode % 3)))
    ctx.parallel('sub', subs, lambda c: scope_sub(ctx, c))
