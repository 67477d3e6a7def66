"""Knowledge distillation: the losses, gradients and side effects of a step."""
import contextlib
import copy
import itertools
import math
import os
import sys
import tempfile
import types

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import Violation, expect

RULE = ('every combination of the flags of each distillation algorithm x '
        'every way to wire a loss from a menu (record and data indices, '
        'connectors, connector outputs, two losses in both orders, '
        'deliveries) x consecutive training steps; weights, running '
        'statistics and reported losses are compared with the same step '
        'written in plain PyTorch; every broken wiring from a menu is '
        'refused; every start epoch x stop epoch of the stop hook; '
        'non-trivial: a distillation loss with gradient')
ASSUMPTIONS = ['SGD, float32, compared at 1e-5; the formulas of the ready '
               'made losses are not examined']

HELP = '''
import torch
def mix(x):
    return x * torch.rand(x.shape[0], 1, 1, 1)
'''


def helper():
    mod = types.ModuleType('mc_distill_target')
    exec(HELP, mod.__dict__)
    sys.modules['mc_distill_target'] = mod
    return mod


_BUILT = None


def build():
    global _BUILT
    if _BUILT is not None:
        return _BUILT
    import mmrazor.models  # noqa
    from mmcv.cnn import ConvModule
    from mmengine.model import BaseModel
    from mmrazor.registry import MODELS

    @MODELS.register_module(force=True)
    class McNet(BaseModel):

        def __init__(self, seed=0, head=True):
            super().__init__()
            torch.manual_seed(seed)
            self.block = ConvModule(
                3, 4, 1, norm_cfg=dict(type='BN'), act_cfg=dict(type='ReLU'),
                bias=True)
            self.conv2 = nn.Conv2d(4, 4, 1)
            self.relu = nn.ReLU(inplace=True)
            self.head = nn.Linear(4, 2)
            self.calls = []

        def feats(self, inputs):
            x = sys.modules['mc_distill_target'].mix(inputs)
            f = self.block(x)
            g = self.relu(self.conv2(f))
            return self.relu(self.conv2(g))

        def extract_feat(self, inputs):
            self.calls.append('feat')
            return self.feats(inputs)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            self.calls.append(mode)
            h = self.feats(inputs)
            y = self.head(F.adaptive_avg_pool2d(h, 1).flatten(1))
            if mode == 'loss':
                return dict(loss=F.mse_loss(y, data_samples),
                            acc=y.detach().mean())
            return y

    @MODELS.register_module(force=True)
    class McPair(nn.Module):

        def __init__(self, w=1.):
            super().__init__()
            self.w = w

        def forward(self, s, t, extra=None):
            out = self.w * ((s - 2 * t)**2).mean()
            return out if extra is None else out + extra.mean()

    @MODELS.register_module(force=True)
    class McSplit(nn.Module):

        def __init__(self, seed=0):
            super().__init__()
            torch.manual_seed(seed)
            self.lin = nn.Conv2d(4, 4, 1)

        def forward(self, x):
            return x + 1, self.lin(x)

    @MODELS.register_module(force=True)
    class McScale(nn.Module):

        def __init__(self, v=2.):
            super().__init__()
            self.v = nn.Parameter(torch.tensor(v))

        def forward(self, x):
            return x * self.v

    @MODELS.register_module(force=True)
    class McGen(BaseModel):

        def __init__(self):
            super().__init__()
            torch.manual_seed(9)
            self.lin = nn.Linear(3, 3 * 4)
            self.module = types.SimpleNamespace(latent_dim=3)

        def forward(self, data=None, batch_size=1):
            return torch.tanh(self.lin(data)).view(batch_size, 3, 2, 2)

    _BUILT = McNet, MODELS
    return _BUILT


# ---- the same networks, spelled out -------------------------------------
def parts(net, x, head=True):
    """All intermediate results of a network, without in-place operations."""
    pre = net.block.conv(x)
    bn = net.block.norm(pre)
    f = F.relu(bn)
    c1 = net.conv2(f)
    g = F.relu(c1)
    c2 = net.conv2(g)
    h = F.relu(c2)
    out = {'mix': [x], 'conv': [pre], 'bn': [bn], 'block': [f],
           'conv2': [c1, c2], 'in2': [(f, ), (g, )],
           'hw': [net.head.weight]}
    if head:
        y = net.head(F.adaptive_avg_pool2d(h, 1).flatten(1))
        out['head'] = [y]
    return out


REC = {
    'mix': dict(type='FunctionOutputs', source='mc_distill_target.mix'),
    'conv': dict(type='ModuleOutputs', source='block.conv'),
    'bn': dict(type='ModuleOutputs', source='block.bn'),
    'block': dict(type='ModuleOutputs', source='block'),
    'conv2': dict(type='ModuleOutputs', source='conv2'),
    'in2': dict(type='ModuleInputs', source='conv2'),
    'head': dict(type='ModuleOutputs', source='head'),
    'hw': dict(type='Parameter', source='head.weight'),
}


def rec(name, student, **kw):
    return dict(recorder=name, from_student=student, **kw)


S, TT = True, False
WIRE = {
    'head': dict(loss_kd=dict(s=rec('head', S), t=rec('head', TT))),
    'idx': dict(loss_kd=dict(s=rec('conv2', S, record_idx=1),
                             t=rec('conv2', TT, record_idx=0))),
    'pre': dict(loss_kd=dict(s=rec('conv', S), t=rec('conv', TT)),
                loss_b=dict(s=rec('bn', S), t=rec('bn', TT))),
    'swap': dict(loss_b=dict(s=rec('bn', S), t=rec('bn', TT)),
                 loss_kd=dict(s=rec('conv', S), t=rec('conv', TT))),
    'inputs': dict(loss_kd=dict(s=rec('in2', S, record_idx=1, data_idx=0),
                                t=rec('in2', TT, data_idx=0))),
    'conn': dict(loss_kd=dict(s=rec('conv2', S, connector='scale'),
                              t=rec('block', TT))),
    'seq': dict(loss_kd=dict(s=rec('conv2', S, connector='seq'),
                             t=rec('block', TT, connector='scale'))),
    'pick': dict(loss_kd=dict(
        s=rec('conv2', S, connector='split', connector_idx=1),
        t=rec('bn', TT, connector='split', connector_idx=0))),
    'slice': dict(loss_kd=dict(s=rec('head', S, connector_idx=1),
                               t=rec('head', TT, connector_idx=0))),
    'param': dict(loss_kd=dict(s=rec('hw', S), t=rec('hw', TT))),
    'stat': dict(loss_kd=dict(s=rec('head', S), t=rec('head', TT)),
                 stat_x=dict(s=rec('block', S), t=rec('block', TT))),
    'extra': dict(loss_kd=dict(t=rec('head', TT), s=rec('head', S),
                               extra=rec('mix', S))),
    'mixed': dict(loss_kd=dict(s=rec('mix', S), t=rec('mix', TT)),
                  loss_b=dict(s=rec('head', S), t=rec('mix', TT,
                                                      connector_idx=0,
                                                      data_idx=None,
                                                      connector='pool'))),
}
WEIGHT = {'loss_kd': 1., 'loss_b': .5, 'stat_x': 1.}
# mapping order never matters for the sum; the report is by name


def connectors():
    return dict(
        scale=dict(type='McScale', v=1.5), split=dict(type='McSplit', seed=4),
        seq=[dict(type='McScale', v=.5), dict(type='McSplit', seed=5),
             dict(type='McPick')],
        pool=dict(type='McPool'))


def register_more():
    from mmrazor.registry import MODELS

    @MODELS.register_module(force=True)
    class McPick(nn.Module):

        def forward(self, x):
            return x[1] + x[0]

    @MODELS.register_module(force=True)
    class McPool(nn.Module):

        def forward(self, x):
            return x.mean(dim=(2, 3))[:, :2].unsqueeze(0)


def distiller_cfg(wire, kind='ConfigurableDistiller', deliver=False,
                  teacher_prefix=''):
    used = [r for w in wire.values() for r in w.values()]
    srec = {r['recorder']: dict(REC[r['recorder']]) for r in used
            if r['from_student']}
    trec = {r['recorder']: dict(REC[r['recorder']]) for r in used
            if not r['from_student']}
    if teacher_prefix:
        for c in trec.values():
            if c['type'].startswith(('Module', 'Param')):
                c['source'] = f"{teacher_prefix}.{c['source']}"
    names = {r['connector'] for r in used if r.get('connector')}
    cfg = dict(
        type=kind, student_recorders=srec, teacher_recorders=trec,
        distill_losses={k: dict(type='McPair', w=WEIGHT[k]) for k in wire},
        connectors={k: v for k, v in connectors().items() if k in names},
        loss_forward_mappings=copy.deepcopy(wire))
    if deliver:
        cfg['distill_deliveries'] = dict(mix=dict(
            type='FunctionOutputs', func_path='mc_distill_target.mix',
            max_keep_data=1))
    return cfg


def ref_losses(wire, conns, sp, tp, detach=False):
    out = {}
    for name, m in wire.items():
        kw = {}
        for key, r in m.items():
            v = (sp if r['from_student'] else tp)[r['recorder']][
                r.get('record_idx', 0)]
            if r.get('data_idx') is not None:
                v = v[r['data_idx']]
            if r.get('connector'):
                c = conns[r['connector']]
                v = c(v)
            if r.get('connector_idx') is not None:
                v = v[r['connector_idx']]
            if detach and not r['from_student']:
                v = v.detach()
            kw[key] = v
        o = WEIGHT[name] * ((kw['s'] - 2 * kw['t'])**2).mean()
        out[name] = o if 'extra' not in kw else o + kw['extra'].mean()
    return out


def batch(i, hw=2):
    g = torch.Generator().manual_seed(50 + i)
    return dict(inputs=torch.randn(4, 3, hw, hw, generator=g),
                data_samples=torch.randn(4, 2, generator=g))


def same(got, want, what, key=None):
    got, want = got.state_dict(), want.state_dict()
    expect(got.keys() == want.keys(), f'{what}: {set(got) ^ set(want)}', key)
    for k in got:
        expect(torch.allclose(got[k].float(), want[k].float(), rtol=1e-5,
                              atol=1e-6),
               lambda: f'{what}: {k} is {got[k].flatten()[:4].tolist()}, '
               f'expected {want[k].flatten()[:4].tolist()}', key)


def same_log(got, want, what):
    expect(set(got) == set(want), f'{what}: reports {sorted(got)}, expected '
           f'{sorted(want)}', 'log')
    for k in want:
        expect(abs(float(got[k]) - float(want[k])) <=
               1e-5 * max(1, abs(float(want[k]))),
               f'{what}: {k} is {float(got[k])}, expected {float(want[k])}',
               'log')


def sgd(params, lr=.1):
    from mmengine.optim import OptimWrapper
    return OptimWrapper(torch.optim.SGD(
        [p for p in params if p.requires_grad], lr=lr))


def ref_update(params, total, lr=.1):
    params = [p for p in params if p.requires_grad]
    grads = torch.autograd.grad(total, params, allow_unused=True)
    with torch.no_grad():
        for p, g in zip(params, grads):
            if g is not None:
                p -= lr * g


def drop_calls(*nets):
    for n in nets:
        n.calls.clear()


# ---- one teacher ---------------------------------------------------------
def single(ctx, spec):
    kind, wname, ttrain, tnorm, strain, calc, stopped, deliver = spec
    mod = helper()
    McNet, MODELS = build()
    register_more()
    wire = WIRE[wname]
    alg = MODELS.build(dict(
        type=kind, architecture=dict(type='McNet', seed=1),
        teacher=dict(type='McNet', seed=2),
        distiller=distiller_cfg(wire, deliver=deliver),
        teacher_trainable=ttrain, teacher_norm_eval=tnorm,
        student_trainable=strain, calculate_student_loss=calc))
    stu, tea = McNet(1), McNet(2)
    same(alg.student, stu, f'{spec}: student as built')
    same(alg.teacher, tea, f'{spec}: teacher as built')
    for p in tea.parameters():
        p.requires_grad_(ttrain)
    conns = {k: copy.deepcopy(v)
             for k, v in alg.distiller.connectors.items()}
    if stopped:
        alg.distillation_stopped = True
    fpn = kind == 'FpnTeacherDistill'
    owned = list(alg.parameters())
    opt = sgd(owned)
    for i in range(2):
        ctx.step()
        what = f'{spec} step {i}'
        alg.train()
        stu.train(), tea.train()
        if tnorm:
            for m in tea.modules():
                if isinstance(m, nn.BatchNorm2d):
                    m.eval()
        data = batch(i)
        # reference
        torch.manual_seed(70 + i)
        with contextlib.ExitStack() as st:
            if not ttrain:
                st.enter_context(torch.no_grad())
            xt = mod.mix(data['inputs'])
            tp = parts(tea, xt, not fpn)
        sgrad = strain or (calc or fpn)
        with contextlib.ExitStack() as st:
            if not sgrad:
                st.enter_context(torch.no_grad())
            xs = xt if deliver else mod.mix(data['inputs'])
            sp = parts(stu, xs)
        want, total = {}, 0.
        if ttrain and not fpn:
            ll = F.mse_loss(tp['head'][0], data['data_samples'])
            want['teacher.loss'] = ll
            want['teacher.acc'] = tp['head'][0].mean()
            total = total + ll
        if calc or fpn:
            ll = F.mse_loss(sp['head'][0], data['data_samples'])
            want['student.loss'] = ll
            want['student.acc'] = sp['head'][0].mean()
            total = total + ll
        if not stopped:
            for k, v in ref_losses(wire, conns, sp, tp).items():
                want[f'distill.{k}'] = v
                if 'loss' in k:
                    total = total + v
        if not isinstance(total, torch.Tensor) or not total.requires_grad:
            return              # nothing to learn: no statement
        want['loss'] = total
        ref = [*stu.parameters(), *tea.parameters()]
        for c in conns.values():
            ref += list(c.parameters())
        ref_update(ref, total)
        # the step
        drop_calls(alg.student, alg.teacher)
        torch.manual_seed(70 + i)
        log = alg.train_step(data, opt)
        same_log(log, want, what)
        same(alg.student, stu, f'{what}: student', 'student')
        same(alg.teacher, tea, f'{what}: teacher', 'teacher')
        for k in conns:
            same(alg.distiller.connectors[k], conns[k], f'{what}: {k}',
                 'connector')
        expect(alg.student.calls == ['loss'] and
               alg.teacher.calls == (['feat'] if fpn else ['loss']),
               f'{what}: ran {alg.student.calls} {alg.teacher.calls}')
        # evaluation only uses the student
        alg.eval()
        expect(not any(m.training for m in alg.modules()), f'{what}: eval')
        drop_calls(alg.student, alg.teacher)
        stu.eval()
        for mode in ('tensor', 'predict'):
            torch.manual_seed(5)
            with torch.no_grad():
                got = alg(data['inputs'], data['data_samples'], mode=mode)
            torch.manual_seed(5)
            with torch.no_grad():
                exp = stu(data['inputs'], None, mode=mode)
            expect(torch.allclose(got, exp, atol=1e-5), f'{what}: {mode}')
        expect(not alg.teacher.calls, f'{what}: the teacher ran in eval')
        ctx.state((spec, i, stopped))


def single_specs(full):
    for w in WIRE:
        for flags in itertools.product((False, True), repeat=5):
            for deliver in (False, True):
                if not full and w not in ('head', 'idx', 'conn', 'mixed') \
                        and (flags[4] or deliver):
                    continue
                if deliver and w in ('extra', 'mixed'):
                    continue    # a replaced call is nothing to record
                yield ('SingleTeacherDistill', w, *flags, deliver)
    for w in ('idx', 'pre', 'inputs', 'conn', 'pick', 'mixed'):
        for tt, tn, stop, deliver in itertools.product((False, True),
                                                       repeat=4):
            if deliver and w == 'mixed':
                continue
            yield ('FpnTeacherDistill', w, tt, tn, True, True, stop, deliver)


# ---- the student is its own teacher --------------------------------------
def self_distill(ctx, spec):
    kind, wname, strain, calc = spec
    mod = helper()
    McNet, MODELS = build()
    register_more()
    wire = WIRE[wname]
    alg = MODELS.build(dict(
        type='SelfDistill', architecture=dict(type='McNet', seed=1),
        distiller=distiller_cfg(wire, kind), student_trainable=strain,
        calculate_student_loss=calc))
    stu = McNet(1)
    conns = {k: copy.deepcopy(v)
             for k, v in alg.distiller.connectors.items()}
    opt = sgd(alg.parameters())
    for i in range(2):
        ctx.step()
        what = f'{spec} step {i}'
        alg.train()
        stu.train()
        data = batch(i)
        torch.manual_seed(70 + i)
        with contextlib.ExitStack() as st:
            if not (calc or strain):
                st.enter_context(torch.no_grad())
            sp = parts(stu, mod.mix(data['inputs']))
        want, total = {}, 0.
        if calc:
            total = F.mse_loss(sp['head'][0], data['data_samples'])
            want['student.loss'] = total
            want['student.acc'] = sp['head'][0].mean()
        for k, v in ref_losses(wire, conns, sp, sp,
                               kind == 'BYOTDistiller').items():
            want[f'distill.{k}'] = v
            total = total + v if 'loss' in k else total
        if not isinstance(total, torch.Tensor) or not total.requires_grad:
            return
        want['loss'] = total
        ref = list(stu.parameters())
        for c in conns.values():
            ref += list(c.parameters())
        ref_update(ref, total)
        drop_calls(alg.student)
        torch.manual_seed(70 + i)
        log = alg.train_step(data, opt)
        same_log(log, want, what)
        same(alg.student, stu, f'{what}: student', 'student')
        for k in conns:
            same(alg.distiller.connectors[k], conns[k], f'{what}: {k}',
                 'connector')
        expect(alg.student.calls == ['loss'], f'{what}: {alg.student.calls}')
        ctx.state((spec, i))


def self_specs(full):
    for kind in ('ConfigurableDistiller', 'BYOTDistiller'):
        for w in WIRE:
            for strain, calc in itertools.product((False, True), repeat=2):
                yield kind, w, strain, calc


# ---- data free -----------------------------------------------------------
def data_free(ctx, spec):
    kind, iters, first, gen_student, gen_wire, steps = spec
    mod = helper()
    McNet, MODELS = build()
    register_more()
    mod.mix = lambda x: x
    dwire, gwire = WIRE['idx'], WIRE[gen_wire]
    if not gen_student:             # a loss on the teacher alone
        gwire = {'loss_kd': dict(s=rec('conv2', TT),
                                 t=rec('conv2', TT, record_idx=1))}
    alg = MODELS.build(dict(
        type=kind, architecture=dict(type='McNet', seed=1),
        teachers=dict(t1=dict(build_cfg=dict(type='McNet', seed=2)),
                      t2=dict(build_cfg=dict(type='McNet', seed=3))),
        generator=dict(type='McGen'), student_iter=iters,
        student_train_first=first,
        distiller=distiller_cfg(dwire, teacher_prefix='t1'),
        generator_distiller=distiller_cfg(gwire, teacher_prefix='t2')))
    stu, tea = McNet(1), {'t1': McNet(2), 't2': McNet(3)}
    gen = MODELS.build(dict(type='McGen'))
    for t in tea.values():
        t.eval()
        for p in t.parameters():
            p.requires_grad_(False)
    from mmengine.optim import OptimWrapperDict
    opt = OptimWrapperDict(architecture=sgd(alg.student.parameters(), .1),
                           generator=sgd(alg.generator.parameters(), .2))
    conns = {}
    log = {}

    def student(x):
        sp = parts(stu, x)
        with torch.no_grad():
            tp = parts(tea['t1'], x)
        return ref_losses(dwire, conns, sp, tp)

    def generator(x):
        sp = parts(stu, x)
        tp = parts(tea['t2'], x)
        return ref_losses(gwire, conns, sp, tp)

    def note(pre, ls):
        tot = sum(v for k, v in ls.items() if 'loss' in k)
        for k, v in ls.items():
            log[f'{pre}.{k}'] = v
        log[f'{pre}.loss'] = tot
        return tot

    for i in range(steps):
        ctx.step()
        what = f'{spec} step {i}'
        alg.train()
        stu.train()
        data = batch(i)
        n = len(data['inputs'])
        log.clear()
        torch.manual_seed(30 + i)

        def learn():
            for _ in range(iters):
                x = gen(torch.randn(n, 3), n).detach()
                ref_update(stu.parameters(), note('distill', student(x)), .1)

        def imagine():
            x = gen(torch.randn(n, 3), n)
            ref_update(gen.parameters(), note('generator', generator(x)), .2)

        if kind == 'DAFLDataFreeDistillation':
            x = gen(torch.randn(n, 3), n)
            lg = note('generator', generator(x))
            ls = note('distill', student(x.detach()))
            ref_update(gen.parameters(), lg, .2)
            ref_update(stu.parameters(), ls, .1)
        elif first:
            learn(), imagine()
        else:
            imagine(), learn()
        torch.manual_seed(30 + i)
        got = alg.train_step(data, opt)
        same_log(got, log, what)
        same(alg.student, stu, f'{what}: student', 'student')
        same(alg.generator, gen, f'{what}: generator', 'generator')
        for k, t in tea.items():
            same(alg.teachers[k], t, f'{what}: {k}', 'teacher')
            expect(not alg.teachers[k].training, f'{what}: {k} mode')
        ctx.state((spec, i))


def free_specs(full):
    for kind in ('DataFreeDistillation', 'DAFLDataFreeDistillation'):
        for iters in (1, 2, 3) if kind[0:4] == 'Data' else (1, ):
            for first in (False, True) if kind[0:4] == 'Data' else (False, ):
                for gs, gw in ((True, 'head'), (True, 'idx'), (True, 'pre'),
                               (False, 'idx')):
                    yield kind, iters, first, gs, gw, 5 if full else 3


# ---- the teacher handed over ---------------------------------------------
def teacher(ctx, spec):
    kind, how, ckpt, ttrain = spec
    helper()
    McNet, MODELS = build()
    register_more()
    with tempfile.TemporaryDirectory() as d:
        path = None
        if ckpt:
            path = os.path.join(d, 't.pth')
            sd = McNet(7).state_dict()
            torch.save(dict(state_dict=sd) if ckpt == 'wrapped' else sd, path)
        t = dict(type='McNet', seed=2) if how == 'dict' else McNet(2)
        cfg = dict(type=kind, architecture=dict(type='McNet', seed=1),
                   teacher=t, teacher_ckpt=path, teacher_trainable=ttrain,
                   distiller=distiller_cfg(WIRE['head']))
        ctx.step()
        alg = MODELS.build(cfg)
    same(alg.teacher, McNet(7 if ckpt else 2), f'{spec}: teacher')
    same(alg.student, McNet(1), f'{spec}: student')
    expect(how == 'dict' or alg.teacher is t, f'{spec}: another teacher')
    for p in alg.teacher.parameters():
        expect(p.requires_grad == ttrain, f'{spec}: requires_grad')
    for p in alg.student.parameters():
        expect(p.requires_grad, f'{spec}: the student is frozen')
    if ckpt:
        alg.init_weights()
        same(alg.teacher, McNet(7), f'{spec}: init_weights lost the '
             'checkpoint of the teacher')
    try:
        MODELS.build(dict(cfg, teacher=nn.Conv2d(1, 1, 1), teacher_ckpt=None))
    except TypeError:
        pass
    else:
        raise Violation(f'{spec}: a teacher which is no BaseModel')
    ctx.state(spec)


# ---- wiring that makes no sense ------------------------------------------
def broken():
    g = WIRE['head']['loss_kd']
    yield 'not a dict', [('loss_kd', g)]
    yield 'unknown loss', dict(loss_zz=g)
    yield 'mapping no dict', dict(loss_kd=[g])
    yield 'unknown argument', dict(loss_kd=dict(g, zz=g['s']))
    for side in 's', 't':
        for drop in ('recorder', 'from_student'):
            yield f'{side} without {drop}', dict(loss_kd=dict(
                g, **{side: {k: v for k, v in g[side].items() if k != drop}}))
        for bad in (1, 'True', None):
            yield f'{side} from_student {bad!r}', dict(loss_kd=dict(
                g, **{side: dict(g[side], from_student=bad)}))
        yield f'{side} unknown recorder', dict(loss_kd=dict(
            g, **{side: dict(g[side], recorder='nope')}))
        yield f'{side} recorder of the other side', dict(loss_kd=dict(
            g, **{side: dict(recorder='only_' + 'ts'[side == 't'],
                             from_student=side == 's')}))
        yield f'{side} unknown connector', dict(loss_kd=dict(
            g, **{side: dict(g[side], connector='nope')}))


def wiring(ctx, name):
    helper()
    McNet, MODELS = build()
    register_more()
    cfg = distiller_cfg(WIRE['head'])
    cfg['student_recorders']['only_s'] = dict(REC['bn'])
    cfg['teacher_recorders']['only_t'] = dict(REC['bn'])
    MODELS.build(copy.deepcopy(cfg))
    cfg['loss_forward_mappings'] = dict(broken())[name]
    ctx.step()
    try:
        MODELS.build(cfg)
    except Exception:
        pass
    else:
        raise Violation(f'accepted: {name}')
    ctx.state(name)


def config_kept(ctx, wname):
    """Building does not change the configuration; two distillers of one
    configuration share nothing."""
    helper()
    McNet, MODELS = build()
    register_more()
    cfg = distiller_cfg(WIRE[wname], deliver=True)
    keep = copy.deepcopy(cfg)
    ctx.step()
    a = MODELS.build(copy.copy(cfg))
    b = MODELS.build(copy.copy(cfg))
    expect(cfg == keep, f'{wname}: the configuration changed')
    ids = {id(p) for p in a.parameters()}
    expect(not any(id(p) in ids for p in b.parameters()),
           f'{wname}: two distillers share parameters')
    na, nb = McNet(1), McNet(2)
    for d, n in ((a, na), (b, nb)):
        d.prepare_from_student(n)
        d.prepare_from_teacher(n)
    x = batch(0)['inputs']
    with torch.no_grad(), a.student_recorders, a.teacher_recorders:
        na(x)
    for m in (b.student_recorders, b.teacher_recorders):
        for r in m.recorders.values():
            expect(not r.data_buffer or wname == 'param',
                   f'{wname}: recorded by the other')
    ctx.state(wname)


# ---- stopping ------------------------------------------------------------
def stop(ctx, spec):
    at, start, end, wrapped = spec
    from mmengine.logging import MMLogger
    from mmrazor.engine.hooks import StopDistillHook
    helper()
    McNet, MODELS = build()
    register_more()
    alg = MODELS.build(dict(
        type='SingleTeacherDistill', architecture=dict(type='McNet', seed=1),
        teacher=dict(type='McNet', seed=2),
        distiller=distiller_cfg(WIRE['head'])))
    model = alg
    if wrapped:
        from mmengine.registry import MODEL_WRAPPERS

        @MODEL_WRAPPERS.register_module(force=True)
        class McWrap(nn.Module):

            def __init__(self, module):
                super().__init__()
                self.module = module
        model = McWrap(alg)
    hook = StopDistillHook(stop_epoch=at)
    runner = types.SimpleNamespace(
        epoch=start, model=model,
        logger=MMLogger.get_instance('mc-stop', log_level='ERROR'))
    for e in range(start, end):
        ctx.step()
        runner.epoch = e
        hook.before_train_epoch(runner)
        data = batch(e)
        got = alg.loss(data['inputs'], data['data_samples'])
        has = any(k.startswith('distill.') for k in got)
        expect(has == (e < at), f'{spec}: epoch {e} '
               f'{"with" if has else "without"} distillation')
        expect('student.loss' in got, f'{spec}: epoch {e}')
        ctx.state((spec, e))


# ---- overhaul margins ----------------------------------------------------
def ofd(ctx, spec):
    helper()
    McNet, MODELS = build()
    ws, bs = spec
    wire = dict(loss_ofd=dict(
        s_feature=rec('bn', S),
        t_feature=rec('bn', TT, connector='teacher')))
    t = McNet(2)
    with torch.no_grad():
        t.block.bn.weight.copy_(torch.tensor(ws))
        t.block.bn.bias.copy_(torch.tensor(bs))
    alg = MODELS.build(dict(
        type='OverhaulFeatureDistillation',
        architecture=dict(type='McNet', seed=1), teacher=t,
        distiller=dict(
            type='OFDDistiller', student_recorders=dict(bn=dict(REC['bn'])),
            teacher_recorders=dict(bn=dict(REC['bn'])),
            distill_losses=dict(loss_ofd=dict(type='OFDLoss')),
            connectors=dict(teacher=dict(type='OFDTeacherConnector')),
            loss_forward_mappings=wire)))
    ctx.step()
    got = alg.distiller.connectors['teacher'].margin.flatten().tolist()
    for g, w, b in zip(got, ws, bs):
        s = abs(w)
        n, lo = 20000, b - 12 * s
        if b + 3.0902 * s > 0 and .5 * math.erfc(b / s / math.sqrt(2)) <= .001:
            want = -3 * s
        else:       # mean of the negative part of N(b, s)
            hi = min(0., b + 12 * s)
            num = den = 0.
            for j in range(n):
                x = lo + (j + .5) * (hi - lo) / n
                p = math.exp(-.5 * ((x - b) / s)**2)
                num += x * p
                den += p
            want = num / den
        expect(abs(g - want) < 2e-3 * max(1, abs(want)),
               f'w={w} b={b}: margin {g}, expected {want}', 'margin')
    x = torch.linspace(-3, 3, 32).view(1, 4, 2, 4)
    y = alg.distiller.connectors['teacher'](x)
    m = torch.tensor(got).view(1, 4, 1, 1)
    expect(torch.equal(y, torch.maximum(x, m)), f'{spec}: feature')
    ctx.state(spec)


def ofd_specs(full):
    ws = (-1.5, -.3, .2, 1.)
    bs = (-2., -.5, 0., .7, 4., -.1) if full else (-2., -.5, 0., 4.)
    for b in itertools.permutations(bs, 4):
        yield ws, b


def run(ctx):
    full = ctx.thorough
    build()
    register_more()
    ctx.parallel('single', single_specs(full), lambda s: single(ctx, s))
    ctx.parallel('self', self_specs(full), lambda s: self_distill(ctx, s))
    ctx.parallel('data-free', free_specs(full), lambda s: data_free(ctx, s))
    ctx.parallel('teacher', itertools.product(
        ('SingleTeacherDistill', 'FpnTeacherDistill'), ('dict', 'object'),
        ('', 'plain', 'wrapped'), (False, True)), lambda s: teacher(ctx, s))
    ctx.cases('wiring', [n for n, _ in broken()], lambda s: wiring(ctx, s))
    ctx.cases('config', list(WIRE), lambda s: config_kept(ctx, s))
    ctx.parallel('stop', [(a, s, 5, w) for a in range(7) for s in range(5)
                          for w in (False, True)], lambda s: stop(ctx, s))
    ctx.parallel('ofd', ofd_specs(full), lambda s: ofd(ctx, s))
