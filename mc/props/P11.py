"""Iterative pruning follows its schedule."""
import copy
import fractions
import itertools
import math

import torch
from mmengine import MessageHub
from mmengine.model import BaseModel
from torch import nn

from mc.core import Violation, expect

RULE = ('every schedule in the bound (unit kind x targets x step x times x '
        'linear or not x epochs x iterations), run iteration by iteration '
        'over the whole training; at every iteration every interleaving of '
        '{evaluation pass, training pass, repeated training pass}; and every '
        'iteration as interruption point, resumed from the saved state in a '
        'fresh process image; non-trivial: >= 2 prune times')
ASSUMPTIONS = [
    'targets are given in the unit of the searchable dimension (a count for '
    'count units, a fraction for ratio units)',
    'an interrupted linear schedule continues from the widths it was saved '
    'with: it stays monotone and still ends on the target',
]

N = (8, 6)


class Net(BaseModel):

    def __init__(self):
        super().__init__()
        self.a = nn.Conv2d(3, N[0], 1)
        self.b = nn.Conv2d(N[0], N[1], 1)
        self.c = nn.Conv2d(N[1], 2, 1)

    def forward(self, inputs=None, data_samples=None, mode='tensor'):
        x = self.c(self.b(self.a(inputs)))
        return dict(loss=x.sum()) if mode == 'loss' else x


PARSE = dict(type='ChannelAnalyzer', tracer_type='FxTracer',
             demo_input=(1, 3, 2, 2))


def mutator_cfg(kind, mode):
    return dict(
        type='DCFFChannelMutator' if kind == 'DCFF' else 'ChannelMutator',
        channel_unit_cfg=dict(type=f'{kind}ChannelUnit' if kind == 'DCFF' else
                              f'{kind}MutableChannelUnit',
                              default_args=dict(choice_mode=mode)),
        parse_cfg=PARSE)


def hub(i, per_epoch, epochs):
    h = MessageHub.get_current_instance()
    h.update_info('iter', i)
    h.update_info('epoch', i // per_epoch)
    h.update_info('max_epochs', epochs)
    h.update_info('max_iters', per_epoch * epochs)


X = torch.ones(1, 3, 2, 2)


PREPARED = {}


def parts(kind, mode):
    """(network, mutator) before any search dimension was attached; tracing
    is the expensive part and is reused."""
    from mmrazor.registry import MODELS
    if (kind, mode) not in PREPARED:
        torch.manual_seed(0)
        net = Net()
        mut = MODELS.build(mutator_cfg(kind, mode))
        mut.prepare_from_supernet(net)
        PREPARED[kind, mode] = [u.name for u in mut.mutable_units], \
            mut.config_template(with_unit_init_args=True, with_channels=True)
    names, template = PREPARED[kind, mode]
    template = copy.deepcopy(template)
    template['parse_cfg'] = dict(type='Config')
    return Net(), template, names


def make(kind, mode, targets, step, times, linear):
    from mmrazor.models.algorithms import ItePruneAlgorithm
    net, cfg, names = parts(kind, mode)
    alg = ItePruneAlgorithm(
        net, cfg, step_freq=step, prune_times=times, linear_schedule=linear,
        target_pruning_ratio=dict(
            {n: t for n, t in zip(names, targets) if t is not None},
            nowhere=1))
    expect([u.name for u in alg.mutator.mutable_units] == names, 'names')
    return alg


def widths(alg):
    out = []
    for u in alg.mutator.mutable_units:
        w = int(u.mutable_channel.current_mask.sum())
        c = u.current_choice
        if isinstance(c, float):
            expect(abs(c * u.num_channels - w) < 1e-6, 'choice vs mask')
        else:
            expect(c == w, 'choice vs mask')
        out.append(w)
    # and it is what the network runs with
    y = alg.architecture
    expect(y.a(X).size(1) == out[0], 'the layer runs another width')
    expect(y.b(y.a(X)).size(1) == out[1], 'the layer runs another width')
    return tuple(out)


def allowed(n, start, target, k, times, linear):
    """Set of widths the schedule may have after its k-th prune time."""
    F = fractions.Fraction
    ratio_mode = isinstance(target, float)
    s, t = F(start), F(target)
    v = t if not linear else s + (t - s) * F(k, times)
    if ratio_mode:
        v = v * n
        return {max(1, math.floor(v + F(1, 10**9))),
                max(1, math.floor(v + F(1, 10**5)))}
    return {math.floor(v - F(1, 10**9)), math.floor(v + F(1, 10**9))}


def train_once(alg, i, per_epoch, epochs, style):
    """What one iteration may look like; only training passes prune."""
    hub(i, per_epoch, epochs)
    for s in style:
        if s == 'e':
            alg.eval()
            before = widths(alg)
            alg(X, mode='tensor')
            expect(widths(alg) == before, 'an evaluation pass pruned')
        else:
            alg.train()
            alg(X, mode='loss')
    return widths(alg)


STYLES = ('t', 'tt', 'et', 'te', 'ete')


def schedule(ctx, spec):
    (kind, mode, targets, step, times, linear, per_epoch, epochs, style,
     resume) = spec
    alg = make(kind, mode, targets, step, times, linear)
    full = 1.0 if mode == 'ratio' else None
    starts = [full or n for n in N]
    eff = step * per_epoch if epochs != 1 else step
    total = per_epoch * epochs
    seen = [N]
    done = 0
    expect(widths(alg) == N, 'pruned before training')
    for i in range(total):
        if i == resume:
            state = alg.state_dict()
            before = widths(alg)
            alg = make(kind, mode, targets, step, times, linear)
            alg.load_state_dict(state)
            expect(widths(alg) == before,
                   f'{spec}: resuming at {i}: {before} became {widths(alg)}',
                   'resume-widths')
        w = train_once(alg, i, per_epoch, epochs, style)
        ctx.step()
        due = i % eff == 0 and i // eff < times
        if due:
            done = i // eff + 1
        ctx.state((spec[:8], i, w))
        if resume is None or i < resume:
            for j, n in enumerate(N):
                t = targets[j]
                if t is None or done == 0:
                    ok = {n}
                else:
                    ok = allowed(n, starts[j], t, done, times, linear)
                expect(w[j] in ok,
                       f'{spec}: at iteration {i} ({done} of {times} prunes '
                       f'done) dimension {j} of {n} has {w[j]} channels, the '
                       f'schedule gives {sorted(ok)}', 'schedule')
        expect(due or w == seen[-1],
               f'{spec}: {seen[-1]} became {w} at iteration {i}, which is no '
               'prune time', 'unscheduled')
        expect(all(a <= b for a, b in zip(w, seen[-1])),
               f'{spec}: {seen[-1]} grew to {w} at {i}', 'monotone')
        seen.append(w)
    if done == times or (resume is not None and
                         resume <= (times - 1) * eff < total):
        final = tuple(
            n if t is None else (t if not isinstance(t, float) else
                                 max(1, int(n * t + 1e-6)))
            for n, t in zip(N, targets))
        expect(seen[-1] == final, f'{spec}: ends on {seen[-1]}, the target is '
               f'{final}', 'final')


def schedules(ctx):
    tg = {
        'number': [(4, 3), (1, None), (8, 5), (3, 1), (None, 2)],
        'ratio': [(0.5, 0.5), (0.3, None), (0.125, 0.01), (1.0, 0.4)],
    }
    kinds = [('Sequential', 'number'), ('Sequential', 'ratio'),
             ('L1', 'number'), ('L1', 'ratio')]
    shapes = [(6, 1), (2, 3), (1, 4), (3, 2)]
    if ctx.thorough:
        shapes += [(12, 1), (5, 2), (4, 3), (1, 10)]
    top = 6 if ctx.thorough else 4
    for (kind, mode), lin, (pe, ep) in itertools.product(
            kinds, (True, False), shapes):
        for ti, targets in enumerate(tg[mode]):
            for step, times in itertools.product(
                    range(1, 4), range(1, top + 1)):
                if kind == 'L1' and ti > 1 and not ctx.thorough:
                    continue
                base = (kind, mode, targets, step, times, lin, pe, ep)
                for st in STYLES if ti == 0 else ('t', ):
                    yield base + (st, None)
                if ti in (0, 1):
                    for r in range(1, pe * ep):
                        yield base + ('t', r)


# ---- DCFF: the schedule is given by a step or by a number of times ---------


def dcff(ctx, spec):
    from mmrazor.models.algorithms import DCFF
    step, times, per_epoch, epochs, linear, target, style = spec
    net, cfg, names = parts('DCFF', 'ratio')
    alg = DCFF(net, cfg, step_freq=step, prune_times=times,
               linear_schedule=linear,
               target_pruning_ratio={names[0]: target})
    temps = []
    orig = alg.mutator.calc_information

    def spy(t):
        temps.append(t)
        return orig(t)

    alg.mutator.calc_information = spy
    total = per_epoch * epochs
    eff = step * per_epoch if epochs != 1 else step
    ok_s, ok_t = 0 < eff < total, 0 < times < total
    if ok_s == ok_t:
        try:
            train_once(alg, 0, per_epoch, epochs, 't')
        except RuntimeError:
            ctx.state((spec, 'refused'))
            return
        raise Violation(f'{spec}: accepted although '
                        f'{"both" if ok_s else "none"} of the step and the '
                        'number of times is usable', 'dcff-ambiguous')
    if ok_s:
        n_times, n_step = total // eff, eff
    else:
        n_times, n_step = times, total // times
    last, done = N, 0
    for i in range(total):
        before = len(temps)
        w = train_once(alg, i, per_epoch, epochs, style)
        ctx.step()
        due = i % n_step == 0 and i // n_step < n_times
        passes = style.count('t')
        expect(len(temps) - before == (passes if due else 0),
               f'{spec}: at iteration {i} the fusion was recomputed '
               f'{len(temps) - before} times (prune time: {due})',
               'dcff-times')
        if due:
            done += 1
            ok = allowed(N[0], 1.0, target, done, n_times, linear)
            expect(w[0] in ok and w[1] == N[1],
                   f'{spec}: {w} after prune {done} of {n_times}, expected '
                   f'{sorted(ok)}', 'dcff-widths')
            t = temps[-1]
            if i == 0:
                expect(abs(t - 1) < 1e-9, f'temperature starts at {t}')
            expect(t > 0 and all(t <= x + 1e-12 for x in temps),
                   f'{spec}: temperatures {temps}', 'dcff-temperature')
            # the schedule is anchored at 1 and 1e-4
            m = 9999 * 2 * (1 + math.exp(-total)) / (1 - math.exp(-total))
            want = 1 / (m / (1 + math.exp(-i)) + 1 - m / 2)
            expect(abs(t - want) < 1e-6 * want + 1e-12,
                   f'{spec}: temperature {t} at {i}/{total}, expected {want}',
                   'dcff-temperature')
        else:
            expect(w == last, f'{spec}: {last} became {w} at {i}')
        last = w
        ctx.state((spec, i, w))
    expect(done == n_times, f'{spec}: {done} of {n_times} prunes happened')


def dcffs(ctx):
    for step, times in itertools.product((-1, 0, 1, 2, 3, 6, 12),
                                         (-1, 0, 1, 2, 4, 5, 20)):
        for pe, ep in ((6, 1), (2, 3), (1, 4)):
            for linear, target in ((False, 0.5), (True, 0.25)):
                for style in ('t', 'ett'):
                    yield step, times, pe, ep, linear, target, style


def run(ctx):
    ctx.parallel('schedule', schedules(ctx), lambda s: schedule(ctx, s))
    ctx.parallel('dcff', dcffs(ctx), lambda s: dcff(ctx, s))
