"""Export a subnet, load it elsewhere: the same network."""
import copy
import io
import itertools
import json
import os
import tempfile

import torch
from torch import nn

from mc import archs
from mc.core import Violation, expect
from mc.props.P09 import assignments, full, hash_, masks

RULE = ('every supernet of the grammar x every choice (candidates, values, '
        'widths, depths; widths {1, middle, full}) x every export mode and '
        'serialisation; the loaded network is compared with the supernet at '
        'that choice, and the supernet with its copy before the export; '
        'non-trivial: at least one choice differs from the default')
ASSUMPTIONS = [
    'weights are transferred by the state dict of the sliced export (loading '
    'by mutator re-creates the layers)', 'evaluation mode; 1e-4',
]
X = None


def x0():
    return torch.randn(2, 3, 3, 3, generator=torch.Generator().manual_seed(5))


def same(a, b, msg):
    a, b = archs.flat(a), archs.flat(b)
    expect(len(a) == len(b), msg)
    for p, q in zip(a, b):
        expect(p.shape == q.shape and torch.allclose(p, q, atol=1e-4), msg)


def out(net):
    with torch.no_grad():
        return net(x0())


def no_search(net, msg):
    from mmrazor.models.architectures.dynamic_ops import DynamicMixin
    for n, m in net.named_modules():
        expect(not isinstance(m, DynamicMixin),
               f'{msg}: {n} is still searchable ({type(m).__name__})')


def state(net):
    return {k: v.clone() for k, v in net.state_dict().items()}


def same_state(net, st, msg):
    now = net.state_dict()
    expect(list(now) == list(st), f'{msg}: other parameters')
    for k, v in st.items():
        expect(torch.equal(now[k], v), f'{msg}: {k} changed')


# ------------------------------------------------------------- channels
class Algo(nn.Module):

    def __init__(self, net, mutator):
        super().__init__()
        self.architecture = net
        self.mutator = mutator

    def forward(self, x):
        return self.architecture(x)


UNITS = {
    'seq': ('ChannelMutator', dict(type='SequentialMutableChannelUnit'), {}),
    'ratio': ('ChannelMutator', dict(type='SequentialMutableChannelUnit'),
              dict(choice_mode='ratio')),
    'div2': ('ChannelMutator', dict(type='SequentialMutableChannelUnit'),
             dict(divisor=2)),
    'l1': ('ChannelMutator', dict(type='L1MutableChannelUnit'), {}),
    'l1ratio': ('ChannelMutator', dict(type='L1MutableChannelUnit'),
                dict(choice_mode='ratio')),
    'oneshot': ('OneShotChannelMutator', dict(
        type='OneShotMutableChannelUnit'),
        dict(candidate_choices=[0.5, 1.0], choice_mode='ratio')),
    'slim': ('SlimmableChannelMutator', dict(type='SlimmableChannelUnit'),
             None),
}


def parse_cfg(tracer='FxTracer'):
    return dict(type='ChannelAnalyzer', demo_input=(1, 3, 3, 3),
                tracer_type=tracer)


def make_algo(prog, head, kind, seed=0):
    from mmrazor.registry import MODELS
    mut_type, unit, args = UNITS[kind]
    net = archs.Net(prog, head, seed).eval()
    st = state(net)
    unit = dict(unit)
    if args is None:      # per-unit candidates: all widths 1..n
        from mmrazor.models.mutators import ChannelMutator
        probe = ChannelMutator(dict(type='SequentialMutableChannelUnit'),
                               parse_cfg=parse_cfg())
        probe.prepare_from_supernet(copy.deepcopy(net))
        unit['units'] = {
            u.name: dict(init_args=dict(candidate_choices=sorted(
                {1, (u.num_channels + 1) // 2, u.num_channels})))
            if u.is_mutable else
            dict(init_args=dict(candidate_choices=[u.num_channels]))
            for u in probe.units}
        n = {len(v['init_args']['candidate_choices'])
             for v in unit['units'].values()}
        for v in unit['units'].values():
            c = v['init_args']['candidate_choices']
            c.extend([c[-1]] * (max(n) - len(c)))
    elif args:
        unit['default_args'] = copy.deepcopy(args)
    mutator = MODELS.build(dict(type=mut_type, channel_unit_cfg=unit,
                                parse_cfg=parse_cfg()))
    mutator.prepare_from_supernet(net)
    if kind == 'slim':    # every switchable norm starts from the plain one
        for n, m in net.named_modules():
            for bn in getattr(m, 'candidate_bn', {}).values():
                ref = [v for v in bn.state_dict()]
                for k in ref:
                    src = st[f'{n}.{k}']
                    bn.state_dict()[k].copy_(
                        src[:bn.num_features] if src.dim() else src)
    miss = net.load_state_dict(st, strict=False)
    net.eval()
    return Algo(net, mutator).eval()


def options(kind, u):
    n = u.num_channels
    if kind in ('ratio', 'l1ratio'):
        return sorted({1 / n, ((n + 1) // 2) / n, 1.0})
    if kind in ('oneshot', 'slim'):
        return list(dict.fromkeys(u.candidate_choices))
    if kind == 'div2':
        return sorted({2, n}) if n >= 2 else [n]
    return sorted({1, (n + 1) // 2, n})


def choices(kind, units):
    per = [options(kind, u) for u in units]
    size = 1
    for p in per:
        size *= len(p)
    if size <= 9:
        yield from itertools.product(*per)
        return
    yield tuple(p[0] for p in per)
    yield tuple(p[-1] for p in per)
    for i, p in enumerate(per):
        for v in p[:-1]:
            yield tuple(q[-1] if j != i else v for j, q in enumerate(per))


def serialise(how, obj, tmp):
    """What the user keeps: the object, or a json / yaml file (path)."""
    from mmengine import fileio
    if how == 'object':
        return obj
    path = os.path.join(tmp, f'subnet.{how}')
    fileio.dump(obj, path)
    return path


def fresh(prog, head, seed=3):
    return archs.Net(prog, head, seed).eval()


def run_channels(ctx, spec):
    from mmengine import fileio
    from mmrazor.registry import MODELS
    from mmrazor.structures import export_fix_subnet, load_fix_subnet
    prog, head, kind = spec
    algo = make_algo(prog, head, kind)
    units = list(algo.mutator.mutable_units)
    records = []
    with tempfile.TemporaryDirectory() as tmp:
        for ci, a in enumerate(choices(kind, units)):
            msg = f'{spec} {a}'
            cho = {u.name: c for u, c in zip(units, a)}
            algo.mutator.set_choices(cho)
            ctx.step()
            ctx.state((spec, a))
            expect(algo.mutator.current_choices == cho,
                   lambda: f'{msg}: choices read back as '
                   f'{algo.mutator.current_choices}')
            y = out(algo)
            st, mk = state(algo), masks(algo.architecture)
            # sliced export: a plain network
            cfgs = {}
            for mode, chan in (('mutable', False), ('mutator', False),
                               ('mutator', True)):
                cfg, static = export_fix_subnet(
                    algo, export_subnet_mode=mode, slice_weight=True,
                    export_channel=chan)
                cfgs[mode, chan] = cfg
                static.eval()     # new layers start in training mode
                same(out(static), y, f'{msg}: the sliced network exported '
                     f'in {mode} mode differs from the subnet')
                no_search(static.architecture, f'{msg}: sliced export')
            # the supernet is untouched
            same_state(algo, st, f'{msg}: export')
            expect(masks(algo.architecture) == mk, f'{msg}: export changed '
                   'the masks')
            same(out(algo), y, f'{msg}: export changed the supernet')
            records.append((a, cfgs, repr(cfgs)))
            sst = static.architecture.state_dict()
            # recorded structure, loaded into a fresh network
            for (mode, chan), cfg in cfgs.items():
                if mode == 'mutable':
                    continue
                expect(cfg['channel_unit_cfg']['units'].keys() ==
                       {u.name for u in algo.mutator.units},
                       f'{msg}: recorded units differ')
                for how in ('object', 'json', 'yaml')[:3 if ci < 2 else 1]:
                    c = copy.deepcopy(cfg)
                    c = serialise(how, c, tmp)
                    for again in (1, 2):
                        net = fresh(prog, head)
                        load_fix_subnet(net, c, load_subnet_mode='mutator')
                        ctx.step()
                        m = (f'{msg}: loaded ({how}, channels={chan}, load '
                             f'{again})')
                        no_search(net, m)
                        now = net.state_dict()
                        for k in sst:
                            expect(k in now and now[k].shape == sst[k].shape,
                                   lambda: f'{m}: {k} has shape '
                                   f'{tuple(now[k].shape) if k in now else 0}'
                                   f', exported {tuple(sst[k].shape)}')
                        net.load_state_dict(sst)
                        net.eval()
                        same(out(net), y, f'{m}: another network')
            # deploying the architecture in place (tools/pruning)
            arch = copy.deepcopy(algo).architecture
            fix = export_fix_subnet(arch)[0]
            load_fix_subnet(arch, fix)
            arch.eval()
            no_search(arch, f'{msg}: deployed')
            same(out(arch), y, f'{msg}: deployed network differs')
        for a, cfgs, r in records:
            expect(repr(cfgs) == r, f'{spec}: the record of {a} changed '
                   'afterwards')
        # still searchable afterwards
        full_ = {u.name: options(kind, u)[-1] for u in units}
        algo.mutator.set_choices(full_)
        expect(algo.mutator.current_choices == full_,
               f'{spec}: cannot go back to full width')


def channel_specs(ctx):
    depth = 2 if ctx.thorough else 1
    for kind in UNITS:
        if kind == 'slim':
            ops = [o for o in archs.STEPS if o not in ('gn', )]
        else:
            ops = archs.STEPS
        for prog in archs.programs(depth, ops):
            heads = archs.HEADS
            if not ctx.thorough:
                heads = heads if kind == 'seq' else \
                    (heads[(hash_(prog) + len(kind)) % len(heads)], )
            elif len(prog) == 2:
                heads = (heads[(hash_(prog) + len(kind)) % len(heads)], )
            for h in heads:
                yield prog, h, kind


# ------------------------------------------------------------- supernets
# module names are chosen to be confusable with the wrapper's prefix
NAMES = ('cell', 'architecture', 'tree', 'u')
PREFIX = 'architecture.'
C = 4


def conv(k=1, ci=C, co=C):
    return nn.Conv2d(ci, co, k, padding=k // 2)


def cands():
    return nn.ModuleDict(dict(a=conv(), b=conv(3), c=nn.Identity()))


class Cand(nn.Module):

    def __init__(self, k=0, module_kwargs=None, **kw):
        super().__init__()
        self.f = conv(k) if k else nn.Identity()

    def forward(self, x):
        return self.f(x)


def cand_cfgs():
    from mmrazor.registry import MODELS
    if MODELS.get('McCand') is None:
        MODELS.register_module(name='McCand', module=Cand)
    return {n: dict(type='McCand', k=k) for n, k in
            (('a', 1), ('b', 3), ('c', 0))}


class Cell(nn.Module):
    """One searchable step; ``slots`` = [(label, legal choices, setter)]."""

    def __init__(self, kind):
        super().__init__()
        from mmrazor.models import mutables as M
        from mmrazor.models.architectures import dynamic_ops as D
        from mmrazor.registry import MODELS
        self.kind = kind
        self.slots = []

        def add(label, m, legal):
            self.slots.append((label, m, legal))

        if kind in ('op', 'swap', 'alias', 'diff', 'onehot', 'prob'):
            kw = {}
            if kind == 'prob':
                kw = dict(choice_probs=[0.5, 0.25, 0.25])
            cls = dict(op=M.OneShotMutableOP, swap=M.OneShotMutableOP,
                       alias=M.OneShotMutableOP,
                       diff=M.DiffMutableOP, onehot=M.OneHotMutableOP,
                       prob=MODELS.get('OneShotProbMutableOP'))[kind]
            if kind == 'swap':
                # the same names, other costs
                self.p = cls(candidates=nn.ModuleDict(
                    dict(a=conv(3), b=conv(), c=nn.Identity())))
                add('p', (self.p, ), ['a', 'b', 'c'])
            elif kind == 'alias':
                self.p = cls(candidates=cands(), alias='both')
                self.q = cls(candidates=cands(), alias='both')
                add('p', (self.p, self.q), ['a', 'b', 'c'])
            else:
                self.p = cls(candidates=cand_cfgs() if kind in (
                    'diff', 'onehot') else cands(), **kw)
                add('p', (self.p, ), ['a', 'b', 'c'])
        elif kind == 'nested':
            inner = M.OneShotMutableOP(candidates=cands())
            c = cands()
            c['b'] = nn.Sequential(conv(), inner)
            self.p = M.OneShotMutableOP(candidates=c)
            add('p', (self.p, ), ['a', 'b'])
            add('in', (inner, ), ['a', 'b', 'c'])
        elif kind == 'route':
            self.p = M.DiffChoiceRoute(
                edges=nn.ModuleDict(dict(e1=conv(), e2=conv(3))),
                num_chosen=1)
            add('p', (self.p, ), [['e1'], ['e2'], ['e1', 'e2']])
        elif kind == 'kernel':
            self.p = D.BigNasConv2d(C, C, 5, padding=2)
            self.v = M.OneShotMutableValue(value_list=[1, 3, 5],
                                           default_value=5)
            self.p.register_mutable_attr('kernel_size', self.v)
            add('v', (self.v, ), [1, 3, 5])
        elif kind == 'depth':
            self.p = D.DynamicSequential(conv(), conv(), conv())
            self.v = M.OneShotMutableValue(value_list=[1, 2, 3],
                                           default_value=3)
            self.p.register_mutable_attr('depth', self.v)
            add('v', (self.v, ), [1, 2, 3])
        elif kind in ('width', 'only'):
            # in 'only' the source is reachable through the derived alone
            self.a = D.DynamicConv2d(C, 6, 1)
            self.n = D.DynamicBatchNorm2d(6)
            self.b = D.DynamicConv2d(6, C, 1)
            M.OneShotMutableChannelUnit._register_channel_container(
                self, M.MutableChannelContainer)
            reg = M.MutableChannelContainer.register_mutable_channel_to_module
            if kind == 'width':
                ch = M.OneShotMutableChannel(6, candidate_choices=[2, 3, 6],
                                             choice_mode='number')
                self.m = ch
                use, legal = ch, [2, 3, 6]
            else:
                ch = M.OneShotMutableChannel(3, candidate_choices=[1, 2, 3],
                                             choice_mode='number')
                use, legal = ch.expand_mutable_channel(2), [1, 2, 3]
                self.d = use
            reg(self.a, use, True, 0, 6)
            reg(self.n, use, True, 0, 6)
            reg(self.b, use, False, 0, 6)
            add('m', (ch, ), legal)
        elif kind == 'product':
            # width = value * base width, as in searchable transformers
            self.a = D.DynamicLinear(C, 6)
            self.b = D.DynamicLinear(6, C)
            M.OneShotMutableChannelUnit._register_channel_container(
                self, M.MutableChannelContainer)
            reg = M.MutableChannelContainer.register_mutable_channel_to_module
            self.v = M.OneShotMutableValue(value_list=[1, 2],
                                           default_value=2)
            self.m = M.OneShotMutableChannel(3, candidate_choices=[1, 3],
                                             choice_mode='number')
            self.w = self.v * self.m
            reg(self.a, self.w, True, 0, 6)
            reg(self.b, self.w, False, 0, 6)
            add('v', (self.v, ), [1, 2])
            add('m', (self.m, ), [1, 3])

    def forward(self, x):
        k = self.kind
        if k == 'route':
            return self.p([x, x * 2])
        if k == 'alias':
            return self.q(self.p(x))
        if k in ('width', 'only'):
            return self.b(torch.relu(self.n(self.a(x))))
        if k == 'product':
            y = torch.relu(self.a(x.permute(0, 2, 3, 1)))
            return self.b(y).permute(0, 3, 1, 2)
        return self.p(x)


class Super(nn.Module):

    def __init__(self, kinds, seed=0):
        super().__init__()
        torch.manual_seed(seed)
        self.stem = nn.Conv2d(3, C, 1)
        self.kinds = kinds
        for n, k in zip(NAMES, kinds):
            self.add_module(n, Cell(k))
        for m in self.modules():
            if isinstance(m, nn.BatchNorm2d):
                m.weight.data = torch.rand_like(m.weight) + .5
                m.running_mean.normal_()
                m.running_var.uniform_(.5, 1.5)

    def cells(self):
        return [getattr(self, n) for n, _ in zip(NAMES, self.kinds)]

    def forward(self, x):
        x = self.stem(x)
        for c in self.cells():
            x = c(x)
        return x


class Wrap(nn.Module):

    def __init__(self, net):
        super().__init__()
        self.architecture = net

    def forward(self, x):
        return self.architecture(x)


def super_choices(net, thorough):
    per = [leg for c in net.cells() for _, _, leg in c.slots]
    size = 1
    for p in per:
        size *= len(p)
    if size <= (81 if thorough else 9):
        yield from itertools.product(*per)
        return
    base = [p[0] for p in per]
    yield tuple(base)
    for i, p in enumerate(per):
        for v in p[1:]:
            yield tuple(base[:i] + [v] + base[i + 1:])
    yield tuple(p[-1] for p in per)


def choose(net, a):
    slots = [s for c in net.cells() for s in c.slots]
    for (_, ms, _), v in zip(slots, a):
        for m in ms:
            m.current_choice = v


def expected(net, a, x):
    """The subnet, from the candidates themselves."""
    it = iter(a)
    x = net.stem(x)
    for c in net.cells():
        k = c.kind
        v = [next(it) for _ in c.slots]
        if k in ('op', 'swap', 'prob', 'diff', 'onehot'):
            x = c.p._candidates[v[0]](x)
        elif k == 'alias':
            x = c.q._candidates[v[0]](c.p._candidates[v[0]](x))
        elif k == 'nested':
            if v[0] == 'b':
                s = c.p._candidates['b']
                x = s[1]._candidates[v[1]](s[0](x))
            else:
                x = c.p._candidates['a'](x)
        elif k == 'route':
            ins = dict(e1=x, e2=x * 2)
            x = sum(c.p._candidates[e](ins[e]) for e in v[0])
        else:
            x = c(x)
    return x


def run_super(ctx, spec):
    from mmengine import fileio
    from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                    load_fix_subnet)
    kinds = spec
    root = Super(kinds).eval()
    records = []
    with tempfile.TemporaryDirectory() as tmp:
        for ci, a in enumerate(super_choices(root, ctx.thorough)):
            msg = f'{kinds} {a}'
            ctx.step()
            ctx.state((spec, str(a)))
            net = root
            choose(net, a)
            with torch.no_grad():
                want = expected(net, a, x0())
            st = state(net)
            fix, none = export_fix_subnet(net)
            expect(none is None, f'{msg}: unasked sliced network')
            records.append((a, fix, repr(fix)))
            fix2, static = export_fix_subnet(net, slice_weight=True)
            expect(repr(fix2) == repr(fix), f'{msg}: two exports differ')
            static.eval()
            same(out(static), want, f'{msg}: the sliced network is another')
            no_search(static, f'{msg}: sliced')
            same_state(net, st, f'{msg}: export')
            wrapped = export_fix_subnet(Wrap(net))[0]
            plain = convert_fix_subnet(fix)
            expect(set(plain) == set(fix), f'{msg}: conversion lost entries')
            forms = [('object', fix), ('dict', plain)]
            for ext in ('json', 'yaml'):
                path = os.path.join(tmp, f's.{ext}')
                fileio.dump(plain, path)
                forms.append((ext, path))

            def check(model, m, **kw):
                model.eval()
                no_search(model, m)
                same(out(model), want, f'{m}: another network')
                unfixed = [n for n, u in model.named_modules()
                           if hasattr(u, 'is_fixed') and not u.is_fixed]
                expect(not unfixed, f'{m}: {unfixed} are not fixed')

            for how, f in forms if ci < 3 else forms[1:2]:
                before = repr(f)
                n2 = Super(kinds).eval()
                n2.load_state_dict(st)
                load_fix_subnet(n2, f)
                ctx.step()
                check(n2, f'{msg}: loaded from {how}')
                expect(repr(f) == before, f'{msg}: loading changed the '
                       'record')
            # wrapped on either side
            n2 = Wrap(Super(kinds)).eval()
            n2.architecture.load_state_dict(st)
            load_fix_subnet(n2, plain, prefix=PREFIX)
            check(n2, f'{msg}: loaded with prefix')
            n2 = Super(kinds).eval()
            n2.load_state_dict(st)
            load_fix_subnet(n2, convert_fix_subnet(wrapped),
                            extra_prefix=PREFIX)
            check(n2, f'{msg}: loaded with extra_prefix')
            # a record of another network is refused
            for drop in plain:
                part = {k: v for k, v in plain.items() if k != drop}
                n2 = Super(kinds)
                try:
                    load_fix_subnet(n2, part)
                except (RuntimeError, AssertionError, TypeError, KeyError):
                    continue
                # entries below an unused candidate are not needed
                expect('nested' in kinds and drop.count('.') > 2,
                       f'{msg}: loaded although {drop} is missing')
        for a, fix, r in records:
            expect(repr(fix) == r, f'{kinds}: the record of {a} changed '
                   'afterwards')
    for bad in (dict(load_subnet_mode='x'), dict(prefix='a', extra_prefix='b')):
        try:
            load_fix_subnet(Super(kinds), plain, **bad)
        except (ValueError, RuntimeError):
            continue
        raise Violation(f'{kinds}: {bad} accepted')


KINDS = ('op', 'alias', 'prob', 'diff', 'onehot', 'nested', 'route', 'kernel',
         'depth', 'width', 'only', 'product')


def super_specs(ctx):
    for k in KINDS:
        yield (k, )
    for a in itertools.product(KINDS, repeat=2):
        if a.count('alias') < 2:
            yield a
    if ctx.thorough:
        for a in itertools.combinations(KINDS, 3):
            yield a


# ------------------------------------------------------------- sub models
def run_submodel(ctx, spec):
    """The one-line config a downstream repository uses."""
    from mmengine import fileio
    from mmrazor.registry import MODELS
    from mmrazor.structures import convert_fix_subnet, export_fix_subnet
    kinds, a, how, early = spec
    registered()
    net = Super(kinds).eval()
    choose(net, a)
    with torch.no_grad():
        want = expected(net, a, x0())
    fix = convert_fix_subnet(export_fix_subnet(net)[0])
    with tempfile.TemporaryDirectory() as tmp:
        big = os.path.join(tmp, 'big.pth')
        torch.save(dict(state_dict=net.state_dict()), big)
        small = os.path.join(tmp, 'small.pth')
        torch.save(dict(state_dict=export_fix_subnet(
            net, slice_weight=True)[1].state_dict()), small)
        if how != 'dict':
            path = os.path.join(tmp, f's.{how}')
            fileio.dump(fix, path)
            fix = path
        m = MODELS.build(dict(
            type='mmrazor.sub_model', cfg=dict(type='McSuper', kinds=kinds),
            fix_subnet=fix, init_weight_from_supernet=early,
            init_cfg=dict(type='Pretrained',
                          checkpoint=big if early else small)))
        m.eval()
        ctx.step()
        ctx.state(spec)
        msg = f'{spec}: sub_model'
        no_search(m, msg)
        same(out(m), want, f'{msg} is another network')


def registered():
    from mmengine.model import BaseModule
    from mmrazor.registry import MODELS
    if MODELS.get('McSuper') is None:

        class McSuper(BaseModule):

            def __init__(self, kinds, init_cfg=None):
                super().__init__(init_cfg)
                s = Super(kinds, seed=9)
                for n, c in s.named_children():
                    self.add_module(n, c)
                self.kinds = kinds

            cells = Super.cells
            forward = Super.forward

        MODELS.register_module(module=McSuper)


def sub_specs(ctx):
    for k in KINDS:
        net = Super((k, ))
        for a in super_choices(net, False):
            for how in ('dict', 'yaml', 'json') if ctx.thorough else ('yaml', ):
                for early in (False, True):
                    yield (k, ), a, how, early


def run(ctx):
    ctx.parallel('channels', list(channel_specs(ctx)),
                 lambda s: run_channels(ctx, s))
    ctx.parallel('supernets', list(super_specs(ctx)),
                 lambda s: run_super(ctx, s))
    ctx.parallel('sub models', list(sub_specs(ctx)),
                 lambda s: run_submodel(ctx, s))
