"""Fake quantization does what its mode says, up to the deployed model."""
import copy
import itertools
import math
import types

import torch
from mmengine.model import BaseModel
from torch import nn

from mc.core import Violation, expect
from mc.props import P19

RULE = ('every sequence of mode switches, forwards, updates, save/loads and '
        'copies of a learnable fake quantizer up to a depth; every sequence '
        'of inputs of an observer; every quantization scheme; every graph up '
        'to a size x every deletion of fake quantizers; every net of a '
        'grammar x quantizer x scheme, prepared and deployed; every '
        'sequence of training, calibration and synchronization; every '
        'schedule of the loops, resumed at every epoch; non-trivial: '
        'something is quantized')
ASSUMPTIONS = ['graph capture, fusion and placement of fake quantizers are '
               'those of PyTorch, with its default backend configuration '
               '(those of mmrazor need PyTorch 1.13)',
               'rounding ties may go either way; single process, CPU']


def setup():
    import mmrazor.engine  # noqa
    import mmrazor.models  # noqa
    from mmrazor.registry import MODELS  # noqa


def gen(*shape, seed=0, scale=1., shift=0.):
    g = torch.Generator().manual_seed(seed)
    return torch.randn(*shape, generator=g) * scale + shift


# ---------------------------------------------------------------- schemes
SCHEMES = list(itertools.product(('quint8', 'qint8'), (8, 4, 2),
                                 (True, False), (True, False),
                                 (True, False)))


def bounds(qdtype, bit, narrow):
    if qdtype == 'quint8':
        return 0, 2 ** bit - 1
    return -2 ** (bit - 1) + (1 if narrow else 0), 2 ** (bit - 1) - 1


def minmax(lo, hi, qmin, qmax, sym, unsigned):
    """Scale and zero point which cover [lo, hi]."""
    lo, hi = min(lo, 0.), max(hi, 0.)
    eps = torch.finfo(torch.float32).eps
    if sym:
        s = max(max(-lo, hi) / ((qmax - qmin) / 2), eps)
        return s, ((qmin + qmax) // 2 if unsigned else 0)
    s = max((hi - lo) / (qmax - qmin), eps)
    return s, max(qmin, min(qmax, qmin - round(lo / s)))


def scope_scheme(ctx, spec):
    setup()
    from mmrazor.structures.quantization.qconfig import (QConfigHandler,
                                                         QSchemeHandler)
    qdtype, bit, sym, channels, narrow = spec
    lo, hi = bounds(qdtype, bit, narrow)
    extra = dict(averaging_constant=0.3)
    want = dict(
        dtype=getattr(torch, qdtype), quant_min=lo, quant_max=hi,
        qscheme=getattr(torch, ('per_channel_' if channels else 'per_tensor_')
                        + ('symmetric' if sym else 'affine')),
        reduce_range=False)
    if channels:
        want['ch_axis'] = 0
    kw = dict(qdtype=qdtype, bit=bit, is_symmetry=sym)
    if narrow:
        kw['is_symmetric_range'] = True
    h = QSchemeHandler(is_per_channel=channels, **kw, **extra)
    for _ in range(2):
        got = h.to_observer_params()
        ctx.step()
        expect(got == dict(want, **extra), f'{spec}: {got}')
    name = 'PerChannelMinMaxObserver' if channels else 'MinMaxObserver'
    other = dict(qdtype='quint8', bit=8, is_symmetry=False)
    for i in (0, 1):
        cfg = dict(w_observer=dict(type='mmrazor.MinMaxObserver'),
                   a_observer=dict(type='mmrazor.MinMaxObserver'),
                   w_fake_quant=dict(type='mmrazor.FakeQuantize'),
                   a_fake_quant=dict(type='mmrazor.FakeQuantize'),
                   w_qscheme=dict(other), a_qscheme=dict(other))
        cfg['wa'[i] + '_qscheme'] = dict(kw)
        cfg['wa'[i] + '_observer'] = dict(type='mmrazor.' + name)
        before = copy.deepcopy(cfg)
        q = QConfigHandler(cfg)
        expect(cfg == before, f'{spec}: the configuration was changed')
        made = q.convert()
        fq = (made.weight, made.activation)[i]()
        rest = (made.weight, made.activation)[1 - i]()
        expect((rest.quant_min, rest.quant_max, rest.qscheme, rest.dtype) ==
               (0, 255, torch.per_tensor_affine, torch.quint8),
               f'{spec}: the other one changed to {rest}')
        x = gen(3, 4, seed=bit, scale=2)
        expect((fq.quant_min, fq.quant_max, fq.qscheme, fq.dtype) ==
               (lo, hi, want['qscheme'], want['dtype']), f'{spec}: {fq}')
        fq(x)
        rows = list(x) if channels else [x]
        for j, r in enumerate(rows):
            s, z = minmax(r.min().item(), r.max().item(), lo, hi, sym,
                          qdtype == 'quint8')
            expect(math.isclose(fq.scale[j].item(), s, rel_tol=1e-5)
                   and fq.zero_point[j].item() == z,
                   f'{spec}: scale {fq.scale[j]}, zero point '
                   f'{fq.zero_point[j]}, expected {s}, {z}')
        for miss in before:
            bad = {k: v for k, v in before.items() if k != miss}
            try:
                QConfigHandler(bad)
            except ValueError:
                continue
            raise Violation(f'accepted a configuration without {miss}')
        # the plain equivalent quantizes alike
        for org in (fq, learnable(want)):
            org(x)
            if org is not fq:
                org.enable_val()
                org.scale.data.mul_(1.25)
            else:
                org.observer_enabled[0] = 0
            state = {k: v.clone() for k, v in org.state_dict().items()}
            new = QConfigHandler.replace_fakequant(org, h, True)
            expect(type(new).__name__ == 'FakeQuantize', f'{type(new)}')
            new.observer_enabled[0] = 0
            for t in (x, x * 3, gen(3, 4, seed=9)):
                close(new(t), org(t), org.scale, f'{spec}: replaced')
            same_state(org, state, f'{spec}: replacing')
            wrap = QConfigHandler.replace_fakequant(org, h, False)
            one, two = wrap(), wrap()
            expect(one is not two and one.scale.data_ptr() !=
                   new.scale.data_ptr(), f'{spec}: shared')
            expect((one.quant_min, one.quant_max, one.qscheme, one.dtype) ==
                   (lo, hi, want['qscheme'], want['dtype']),
                   f'{spec}: wrapper {one}')
    ctx.state(spec)


def learnable(want, **k):
    from mmrazor.models.fake_quants import LearnableFakeQuantize
    from mmrazor.models.observers import LSQObserver, LSQPerChannelObserver
    per = 'channel' in str(want['qscheme'])
    return LearnableFakeQuantize(
        LSQPerChannelObserver if per else LSQObserver,
        **{**{a: b for a, b in want.items()}, **k})


def same_state(m, state, what):
    now = m.state_dict()
    expect(list(now) == list(state), f'{what} changed the state: {list(now)}')
    for k, v in state.items():
        expect(torch.equal(now[k], v), f'{what} changed {k}')


def close(got, want, scale, what):
    """Equal but for values next to a rounding tie."""
    expect(got.shape == want.shape, f'{what}: shape {tuple(got.shape)}')
    d = (got - want).abs()
    off = d > 1e-5 * (1 + want.abs())
    n = int(off.sum())
    expect(n <= max(scale.numel(), want.numel() // 40) and
           (n == 0 or d.max() <= scale.max() * 1.01),
           lambda: f'{what}: {got.flatten()[:6].tolist()}, expected '
           f'{want.flatten()[:6].tolist()}')


# ------------------------------------------------- the learnable quantizer
FQS = [dict(sym=s, unsigned=u, ch=c, obs=o, train_zp=z, grad=g)
       for s, u, c, o, z, g in (
           (True, False, None, 'lsq', False, True),
           (False, True, None, 'lsq', False, True),
           (True, False, 0, 'lsq', False, True),
           (True, False, 1, 'lsq', False, False),
           (False, True, 0, 'lsq', False, True),
           (False, True, None, 'mm', True, True),
           (True, True, None, 'mm', False, False),
           (True, False, 1, 'mm', True, True))]
OPS = ('learn', 'static', 'val', 'observe', 'obs0', 'obs1', 'fq0', 'fq1',
       'f0', 'f1', 'f2', 'step', 'load', 'copy')
XS = [lambda: gen(3, 3, 2, seed=1, scale=2), lambda: gen(3, 3, 4, seed=2),
      lambda: gen(3, 3, seed=3, scale=.3, shift=.5) *
      torch.tensor([[1.], [0.], [2.]])]


def make_fq(c, bits=(-127, 127)):
    from mmrazor.models.fake_quants import LearnableFakeQuantize
    from mmrazor.models import observers as o
    from torch.ao.quantization import observer as to
    per = c['ch'] is not None
    cls = (o.LSQPerChannelObserver if per else o.LSQObserver) \
        if c['obs'] == 'lsq' else \
        (to.PerChannelMinMaxObserver if per else to.MinMaxObserver)
    lo, hi = (0, 255) if c['unsigned'] else bits
    k = dict(quant_min=lo, quant_max=hi,
             dtype=torch.quint8 if c['unsigned'] else torch.qint8,
             qscheme=getattr(torch, ('per_channel_' if per else 'per_tensor_')
                             + ('symmetric' if c['sym'] else 'affine')))
    if per:
        k['ch_axis'] = c['ch']
    return LearnableFakeQuantize(
        cls, use_grad_scaling=c['grad'], zero_point_trainable=c['train_zp'],
        **k)


class RefFQ:
    """What a learnable fake quantizer should hold."""

    def __init__(self, c):
        self.c = c
        self.lo, self.hi = (0, 255) if c['unsigned'] else (-127, 127)
        self.fq, self.static, self.learn = 1, 1, 0
        self.grad = None
        self.scale, self.zp = [1.], [0.]
        self.mins = self.maxs = None

    def mode(self, op):
        if op in ('learn', 'static', 'val', 'observe'):
            self.learn = int(op == 'learn')
            self.grad = op == 'learn'
            self.fq = int(op != 'observe')
            self.static = int(op in ('static', 'observe'))
        elif op[:3] == 'obs':
            self.static = int(op[3])
        else:
            self.fq = int(op[2])

    def rows(self, x):
        if self.c['ch'] is None:
            return [x.flatten()]
        return [r.flatten() for r in x.unbind(self.c['ch'])]

    def observe(self, x):
        rows = self.rows(x)
        lo = [r.min().item() for r in rows]
        hi = [r.max().item() for r in rows]
        if self.mins is not None:
            lo = [min(a, b) for a, b in zip(lo, self.mins)]
            hi = [max(a, b) for a, b in zip(hi, self.maxs)]
        self.mins, self.maxs = lo, hi
        self.scale, self.zp = [], []
        for r, a, b in zip(rows, lo, hi):
            s, z = minmax(a, b, self.lo, self.hi, self.c['sym'],
                          self.c['unsigned'])
            if self.c['obs'] == 'lsq':
                s = 2 * r.abs().mean().item() / math.sqrt(self.hi)
            self.scale.append(s)
            self.zp.append(float(z))

    def forward(self, x):
        if self.static:
            self.observe(x)
        else:
            eps = torch.finfo(torch.float32).eps
            self.scale = [max(s, eps) for s in self.scale]
        if not self.fq:
            return x, None
        rows = self.rows(x)
        if len(self.scale) == 1 and len(rows) > 1:
            return None, None
        out, grads = [], []
        n = x.numel()
        f = 1. / math.sqrt(n * self.hi) if self.c['grad'] else 1.
        for r, s, z in zip(rows, self.scale, self.zp):
            z = max(self.lo, min(self.hi, round(z)))
            q = torch.round(r / s + z) if s > 0 else torch.zeros_like(r) + z
            c = q.clamp(self.lo, self.hi)
            out.append((c - z) * s)
            inside = q == c
            gs = torch.where(inside, (c - z) - r / s if s > 0 else c * 0,
                             c - z)
            grads.append((gs, inside, f, s))
        return self.stack(out, x), grads

    def stack(self, rows, x):
        if self.c['ch'] is None:
            return rows[0].reshape(x.shape)
        rest = [d for i, d in enumerate(x.shape) if i != self.c['ch']]
        return torch.stack([r.reshape(rest) for r in rows], self.c['ch'])


def scope_fq(ctx, spec):
    setup()
    i, ops = spec
    c = FQS[i]
    fq, ref = make_fq(c), RefFQ(c)
    for n, op in enumerate(ops):
        ctx.step()
        what = f'{c} {ops[:n + 1]}'
        if op in ('f0', 'f1', 'f2', 'step'):
            x = XS[int(op[1]) if op[0] == 'f' else 0]()
            x = x.clone().requires_grad_(True)
            keep = x.detach().clone()
            want, grads = ref.forward(keep)
            if want is None:
                return      # never estimated: no scale per channel yet
            fq.scale.grad = None
            y = fq(x)
            expect(torch.equal(x.detach(), keep), f'{what}: changed input')
            close(y.detach(), want, torch.tensor(ref.scale), what)
            if op == 'step':
                w = gen(*y.shape, seed=7)
                if y.requires_grad:
                    (y * w).sum().backward()
                check_grads(fq, ref, x, w, grads, what)
                if ref.learn and grads is not None:
                    # an update which makes a scale negative
                    d = torch.linspace(.7, 1.3, len(ref.scale))
                    d[0] = 1.5
                    with torch.no_grad():
                        fq.scale.sub_(fq.scale.detach() * d - .01)
                    ref.scale = [s - (s * e - .01) for s, e in
                                 zip(ref.scale, d.tolist())]
                    if c['train_zp']:
                        with torch.no_grad():
                            fq.zero_point.add_(.37)
                        ref.zp = [z + .37 for z in ref.zp]
        elif op == 'load':
            new = make_fq(c)
            new.load_state_dict(copy.deepcopy(fq.state_dict()))
            fq, ref.grad = new, None
        elif op == 'copy':
            old = fq
            fq = copy.deepcopy(fq)
            old.scale.data.fill_(77.)
            old.toggle_fake_quant(not ref.fq)
        else:
            ref.mode(op)
            dict(learn=fq.enable_param_learning, val=fq.enable_val,
                 static=fq.enable_static_estimate,
                 observe=fq.enable_static_observation,
                 obs0=fq.disable_observer, obs1=fq.enable_observer,
                 fq0=fq.disable_fake_quant, fq1=fq.enable_fake_quant)[op]()
        flags = tuple(int(f[0]) for f in (fq.fake_quant_enabled,
                                          fq.static_enabled,
                                          fq.learning_enabled))
        expect(flags == (ref.fq, ref.static, ref.learn),
               f'{what}: flags {flags}')
        if ref.grad is not None:
            expect(fq.scale.requires_grad == ref.grad and (
                not c['train_zp'] or fq.zero_point.requires_grad == ref.grad),
                f'{what}: learns scale {fq.scale.requires_grad}')
        s = fq.scale.detach().flatten().tolist()
        z = fq.zero_point.detach().flatten().tolist()
        near = lambda a, b: len(a) == len(b) and all(  # noqa
            math.isclose(p, q, rel_tol=1e-4, abs_tol=1e-6)
            for p, q in zip(a, b))
        expect(near(s, ref.scale), f'{what}: scale {s}, not {ref.scale}')
        expect(near(z, ref.zp), f'{what}: zero point {z}, not {ref.zp}')
        ctx.state((i, flags, tuple(round(a, 5) for a in s)))
    got_s, got_z = fq.calculate_qparams()
    eps = torch.finfo(torch.float32).eps
    for a, b, s, z in zip(got_s.tolist(), got_z.tolist(), ref.scale, ref.zp):
        z = max(ref.lo, min(ref.hi, round(z)))
        expect(math.isclose(a, max(s, eps), rel_tol=1e-4, abs_tol=1e-6)
               and b == z, f'{c} {ops}: qparams {a}, {b}, not {s}, {z}')


def check_grads(fq, ref, x, w, grads, what):
    if grads is None:
        want = w
    else:
        want = ref.stack([r * g[1] for r, g in zip(ref.rows(w), grads)], w)
    if x.grad is not None:
        expect(int(((x.grad - want).abs() > 1e-5).sum()) <= 1,
               f'{what}: gradient of the input')
    if grads is None or not fq.scale.requires_grad:
        expect(fq.scale.grad is None, f'{what}: the scale has a gradient')
        return
    sums = [((r * g[0]).sum().item() * g[2], r.abs().max().item() * g[2])
            for r, g in zip(ref.rows(w), grads)]
    for a, (b, tie), g in zip(fq.scale.grad.tolist(), sums, grads):
        if g[3] <= 2e-7:    # everything is far outside: rounding dominates
            continue
        expect(math.isclose(a, b, rel_tol=2e-3, abs_tol=1e-5)
               or abs(abs(a - b) - tie) < .1 * tie,
               f'{what}: gradient of the scale {a}, expected {b}')


# --------------------------------------------------------------- observers
def scope_observer(ctx, spec):
    setup()
    from mmrazor.models.observers import LSQObserver, LSQPerChannelObserver
    ch, sym, unsigned, seq = spec
    lo, hi = (0, 255) if unsigned else (-8, 7)
    k = dict(quant_min=lo, quant_max=hi,
             dtype=torch.quint8 if unsigned else torch.qint8,
             qscheme=getattr(torch, ('per_tensor_' if ch is None else
                                     'per_channel_')
                             + ('symmetric' if sym else 'affine')))
    o = LSQObserver(**k) if ch is None else LSQPerChannelObserver(
        ch_axis=ch, **k)
    menu = dict(a=gen(2, 3, 4, seed=1), b=gen(2, 3, 4, seed=2, scale=5),
                z=torch.zeros(2, 3, 4), p=gen(2, 3, 4, seed=3).abs() + 1,
                e=torch.zeros(0, 3, 4))
    mins = maxs = norm = None
    for op in seq:
        ctx.step()
        if op == 'r':
            o.reset_min_max_vals()
            mins = maxs = None
            continue
        x = menu[op]
        expect(o(x) is x, f'{spec}: the input is not passed on')
        if not x.numel():
            continue
        rows = [x.flatten()] if ch is None else [
            r.flatten() for r in x.unbind(ch)]
        norm = [r.abs().mean().item() for r in rows]
        a, b = [r.min().item() for r in rows], [r.max().item() for r in rows]
        mins = a if mins is None else [min(p) for p in zip(mins, a)]
        maxs = b if maxs is None else [max(p) for p in zip(maxs, b)]
        s, z = o.calculate_qparams()
        again = o.calculate_qparams()
        expect(torch.equal(s, again[0]) and torch.equal(z, again[1]),
               f'{spec}: asking twice')
        for i, n in enumerate(norm):
            _, zero = minmax(mins[i], maxs[i], lo, hi, sym, unsigned)
            want = 2 * n / math.sqrt(hi)
            expect(math.isclose(s.flatten()[i].item(), want, rel_tol=1e-5,
                                abs_tol=1e-8)
                   and z.flatten()[i].item() == zero,
                   f'{spec}: scale {s}, zero point {z}, expected {want}, '
                   f'{zero} at {i}')
        ctx.state((ch, sym, unsigned, tuple(mins), tuple(maxs), tuple(norm)))


# ------------------------------------------------------------------ graphs
KINDS1, KINDS2 = ('q', 'f', 'm'), ('a', 'c')


def dags(n):
    """Node lists [(kind, inputs)]; node 0 is the input of the graph."""
    def rec(nodes):
        if len(nodes) == n + 1:
            yield tuple(nodes[1:])
            return
        srcs = range(len(nodes))
        for kind in KINDS1:
            for s in srcs:
                if kind == 'q' and nodes[s][0] == 'q':
                    continue
                yield from rec(nodes + [(kind, (s, ))])
        for kind in KINDS2:
            for a, b in itertools.combinations_with_replacement(srcs, 2):
                yield from rec(nodes + [(kind, (a, b))])
    yield from rec([('x', ())])


def build(nodes, out):
    from torch.ao.quantization import FakeQuantize
    from torch.fx import Graph, GraphModule
    g, root, made = Graph(), nn.Module(), []
    made.append(g.placeholder('x'))
    for i, (kind, args) in enumerate(nodes):
        a = [made[j] for j in args]
        if kind == 'q':
            setattr(root, f'q{i}', FakeQuantize())
            made.append(g.call_module(f'q{i}', tuple(a)))
        elif kind == 'm':
            setattr(root, f'm{i}', nn.ReLU6())
            made.append(g.call_module(f'm{i}', tuple(a)))
        elif kind == 'f':
            made.append(g.call_method('flatten', (a[0], 1)))
        elif kind == 'a':
            made.append(g.call_function(torch.add, (a[0], ),
                                        dict(other=a[1])))
        else:
            made.append(g.call_function(torch.cat, (list(a), 1)))
    o = [made[j] for j in out]
    g.output(o[0] if len(o) == 1 else dict(y=(o[0], o[1])))
    return GraphModule(root, g)


def digest(gm):
    """[(op, target, inputs)] with numbered nodes."""
    ids, out = {}, []
    for n in gm.graph.nodes:
        ids[n] = len(ids)
        out.append((n.op, n.target if isinstance(n.target, str) else
                    n.target.__name__,
                    str(torch.fx.node.map_arg(
                        (n.args, n.kwargs), lambda a: f'#{ids[a]}'))))
    return out


def ahead(nodes, i):
    """Fake quantizers met first on the ways back from node ``i``."""
    if i == 0:
        return set()
    kind, args = nodes[i - 1]
    if kind == 'q':
        return {i}
    return set().union(*(ahead(nodes, a) for a in args))


def drop(nodes, out, gone):
    """The graph without the nodes ``gone``, as a digest."""
    new = {0: '#0'}
    res = [('placeholder', 'x', str(((), {})))]
    for i, (kind, args) in enumerate(nodes, 1):
        if i in gone:
            new[i] = new[args[0]]
            continue
        a = [new[j] for j in args]
        new[i] = f'#{len(res)}'
        res.append({
            'q': lambda: ('call_module', f'q{i - 1}', str(((a[0], ), {}))),
            'm': lambda: ('call_module', f'm{i - 1}', str(((a[0], ), {}))),
            'f': lambda: ('call_method', 'flatten', str(((a[0], 1), {}))),
            'a': lambda: ('call_function', 'add',
                          str(((a[0], ), dict(other=a[1])))),
            'c': lambda: ('call_function', 'cat', str(((a, 1), {})))}[kind]())
    o = [new[j] for j in out]
    o = o[0] if len(o) == 1 else dict(y=(o[0], o[1]))
    res.append(('output', 'output', str(((o, ), {}))))
    return res


DELETE = (('before_op', ('output', )), ('before_op', ('call_method', )),
          ('before_op', ('call_function', 'output')),
          ('after_op', ('placeholder', )), ('after_op', ('call_method', )),
          ('after_op', ('call_function', 'placeholder')),
          ('before_method', ('flatten', )), ('after_method', ('flatten', )),
          ('before_method', ('view', )),
          ('before_function', (torch.add, )),
          ('before_function', (torch.cat, torch.add)),
          ('after_function', (torch.cat, )),
          ('after_function', (torch.cat, torch.add)),
          ('before_module', (nn.ReLU6, )), ('after_module', (nn.ReLU6, )),
          ('before_module', (nn.ReLU, )), ('after_module', (nn.MaxPool2d, )))
OP = dict(f='call_method', a='call_function', c='call_function', x='placeholder')
HAS = dict(f=('flatten', ), a=(torch.add, ), c=(torch.cat, ),
           m=(nn.ReLU6, ))


def deleted(nodes, out, fn, patterns):
    """Numbers of the nodes which have to go."""
    where, what = fn.split('_')

    def hit(i):
        kind = 'x' if i == 0 else nodes[i - 1][0]
        if what == 'op':
            return OP.get(kind) in patterns
        named = dict(method='f', function='ac', module='m')[what]
        return kind in named and any(p in patterns for p in HAS[kind])
    qs = {i for i, (k, _) in enumerate(nodes, 1) if k == 'q'}
    if where == 'after':
        return {i for i in qs if hit(nodes[i - 1][1][0])}
    targets = [i for i in range(len(nodes) + 1) if hit(i)]
    if what == 'module':
        return {a for i in targets for a in nodes[i - 1][1] if a in qs}
    gone = set().union(*(ahead(nodes, i) for i in targets)) if targets \
        else set()
    if what == 'op' and 'output' in patterns:
        for j in out:
            gone |= ahead(nodes, j)
    return gone


def scope_graph(ctx, spec):
    from mmrazor.models.task_modules.tracer import fx
    nodes, out = spec
    gm = build(nodes, out)
    before, mods = digest(gm), sorted(gm._modules)
    for fn, patterns in DELETE:
        gone = deleted(nodes, out, fn, patterns)
        want = drop(nodes, out, gone)
        keep = [m for m in mods if not (m[0] == 'q' and
                                        int(m[1:]) + 1 in gone)]
        f = getattr(fx, f'del_fakequant_{fn}')
        ctx.step()
        res = f(gm, patterns, inplace=False)
        what = f'{nodes} -> {out}: {fn} {patterns}'
        expect(digest(res) == want,
               lambda: f'{what}: {digest(res)}, expected {want}')
        expect(sorted(res._modules) == keep,
               f'{what}: modules {sorted(res._modules)}, expected {keep}')
        expect(digest(gm) == before and sorted(gm._modules) == mods,
               f'{what}: changed the original')
        if gone:
            ctx.state((nodes, out, fn, patterns))
    res = f(gm, patterns, inplace=True)
    expect(res is gm and digest(gm) == want, f'{nodes}: in place')


# -------------------------------------------------------- prepared networks
class Net(nn.Module):

    def __init__(self, spec, tail):
        super().__init__()
        self.spec, self.tail = spec, tail
        torch.manual_seed(len(spec) * 7 + 1)
        self.blocks = nn.ModuleList()
        for kind in spec:
            d = nn.ModuleDict()
            if kind in ('cbr', 'cb', 'cbr6', 'res', 'cr'):
                d['conv'] = nn.Conv2d(3, 3, 3, padding=1,
                                      bias=kind in ('cb', 'cr'))
            if kind in ('cbr', 'cb', 'cbr6', 'res'):
                d['bn'] = nn.BatchNorm2d(3)
            if kind in ('cbr', 'cr', 'res'):
                d['act'] = nn.ReLU(inplace=kind == 'cbr')
            if kind == 'cbr6':
                d['act'] = nn.ReLU6()
            if kind == 'pool':
                d['pool'] = nn.MaxPool2d(2, 1, 1)
            if kind == 'id':
                d['id'] = nn.Identity()
            if kind == 'cat':
                d['conv'] = nn.Conv2d(3, 3, 1)
                d['conv2'] = nn.Conv2d(6, 3, 1, bias=False)
            if kind == 'dw':
                d['conv'] = nn.Conv2d(3, 3, 3, groups=3)
            self.blocks.append(d)
        if tail == 'fc':
            self.gap = nn.AdaptiveAvgPool2d(2)
            self.fc = nn.Linear(12, 2)
        if tail == 'own':
            self.own = Own()
        if tail == 'conv':
            self.last = nn.Conv2d(3, 2, 1)
        g = torch.Generator().manual_seed(5)
        for m in self.modules():
            if isinstance(m, nn.BatchNorm2d):
                for p in (m.weight.data, m.running_var):
                    p.copy_(torch.rand(3, generator=g) + .5)
                for p in (m.bias.data, m.running_mean):
                    p.copy_(torch.randn(3, generator=g) * .3)

    def forward(self, x):
        for kind, d in zip(self.spec, self.blocks):
            if kind == 'pool':
                x = d['pool'](x)
            elif kind == 'id':
                x = d['id'](x)
            elif kind == 'cat':
                x = d['conv2'](torch.cat([x, d['conv'](x)], 1))
            elif kind == 'sig':
                x = torch.sigmoid(x)
            else:
                y = d['conv'](x)
                if 'bn' in d:
                    y = d['bn'](y)
                if 'act' in d:
                    y = d['act'](y)
                x = x + y if kind == 'res' else y
        if self.tail == 'fc':
            return self.fc(self.gap(x).flatten(1))
        if self.tail == 'own':
            return self.own(x)
        if self.tail == 'conv':
            return self.last(x)
        return x


CELLS = ('cbr', 'cb', 'cbr6', 'res', 'cr', 'pool', 'id', 'cat', 'dw', 'sig')


def qcfg(kind):
    w = dict(qdtype='qint8', bit=8, is_symmetry=True, is_symmetric_range=True)
    a = dict(qdtype='quint8', bit=8, is_symmetry=True)
    obs = dict(minmax=('PerChannelMinMaxObserver',
                       'MovingAverageMinMaxObserver'),
               tensor=('MinMaxObserver', 'MinMaxObserver'),
               lsq=('LSQPerChannelObserver', 'LSQObserver'),
               full=('PerChannelMinMaxObserver', 'MinMaxObserver'))[kind]
    fq = 'LearnableFakeQuantize' if kind == 'lsq' else 'FakeQuantize'
    if kind == 'minmax':
        a['averaging_constant'] = 0.1
    if kind in ('tensor', 'full'):
        w.pop('is_symmetric_range')
        a['is_symmetry'] = False
    return dict(w_observer=dict(type='mmrazor.' + obs[0]),
                a_observer=dict(type='mmrazor.' + obs[1]),
                w_fake_quant=dict(type='mmrazor.' + fq),
                a_fake_quant=dict(type='mmrazor.' + fq),
                w_qscheme=w, a_qscheme=a)


def quantizer(name, kind, **k):
    from mmrazor.registry import MODELS
    return MODELS.build(dict(type='mmrazor.' + name,
                             global_qconfig=qcfg(kind), **k))


def is_fq(m):
    from torch.ao.quantization import FakeQuantizeBase
    return isinstance(m, FakeQuantizeBase)


def off(m):
    from torch.ao.quantization import disable_fake_quant, disable_observer
    m.apply(disable_fake_quant)
    m.apply(disable_observer)


def evaluate(m):
    """Evaluation as after training: quantize, neither observe nor learn."""
    from torch.ao.quantization import disable_observer, enable_fake_quant
    from mmrazor.models.fake_quants import enable_val
    m.eval()
    m.apply(enable_fake_quant)
    m.apply(disable_observer)
    m.apply(enable_val)
    return m


def alike(got, want, what, tol=1e-3):
    expect(got.shape == want.shape, f'{what}: shape {tuple(got.shape)}')
    d, ref = (got - want).abs().mean().item(), want.abs().mean().item()
    expect(d <= tol * ref + 1e-6,
           lambda: f'{what}: off by {d:.3g} of {ref:.3g}')


def near(got, want, what):
    expect(got.shape == want.shape and
           torch.allclose(got, want, rtol=1e-3, atol=1e-4),
           lambda: f'{what}: off by {(got - want).abs().max():.3g}')


def graph_of(gm):
    """Graph as the lists of ``deleted``: (nodes, inputs of the output)."""
    ids, nodes = {}, []
    for n in gm.graph.nodes:
        ins = tuple(ids[a] for a in n.all_input_nodes)
        ids[n] = len(ids)
        if n.op == 'output':
            return nodes, ins
        t = gm.get_submodule(n.target) if n.op == 'call_module' else n.target
        nodes.append((n.name, 'q' if is_fq(t) else t, ins))


QUIET = (nn.ReLU6, nn.Identity)


def redundant(gm):
    """Names of the fake quantizers OpenVINO and TensorRT do not want."""
    nodes, out = graph_of(gm)
    gone = set()

    def src(i):
        i = nodes[i][2][0] if len(nodes[i][2]) else None
        while i in gone:
            i = nodes[i][2][0]
        return i

    def back(i):
        if i in gone:
            return back(nodes[i][2][0])
        if nodes[i][1] == 'q':
            return {i}
        return set().union(set(), *(back(j) for j in nodes[i][2]))
    n = range(len(nodes))
    gone |= {src(i) for i in n if isinstance(nodes[i][1], QUIET)
             and nodes[src(i)][1] == 'q'}
    gone |= {i for i in n if nodes[i][1] == 'q' and i not in gone
             and isinstance(nodes[src(i)][1], nn.MaxPool2d)}
    gone |= {i for i in n if nodes[i][1] == 'q' and i not in gone
             and nodes[src(i)][1] == 'flatten'}
    gone |= set().union(set(), *(back(j) for j in out))
    return {nodes[i][0] for i in gone}


def scope_prepare(ctx, spec):
    cells, tail, kind = spec
    setup()
    x = gen(2, 3, 8, 8, seed=4)
    src = Net(cells, tail)
    ref = copy.deepcopy(src)
    plain = None
    for name in ('TorchNativeQuantizer', 'OpenVINOQuantizer',
                 'TensorRTQuantizer'):
        ctx.step()
        what = f'{spec} {name}'
        q = quantizer(name, kind)
        p = q.prepare(copy.deepcopy(src))
        names = [n.name for n in p.graph.nodes
                 if n.op == 'call_module' and is_fq(p.get_submodule(n.target))]
        if plain is None:
            plain, found = set(names), redundant(p)
            expect(names, f'{what}: nothing is quantized')
        else:
            expect(set(names) == plain - found,
                   f'{what}: quantizes at {sorted(names)}, expected '
                   f'{sorted(plain - found)}')
            have = [k for k, m in p._modules.items() if is_fq(m)]
            expect(set(have) == set(names),
                   f'{what}: modules {have} for {names}')
        # without quantization: the network it comes from
        off(p)
        for training in (False, True):
            r = copy.deepcopy(ref).train(training)
            t = copy.deepcopy(p).train(training)
            near(t(x.clone()), r(x.clone()),
                 f'{what}: unquantized, training {training}')
        ctx.state((spec, name))
        if name == 'TensorRTQuantizer':
            continue
        deploy(ctx, q, p, x, kind, what)
    academic(ctx, spec, src, ref, x, plain)


def academic(ctx, spec, src, ref, x, plain):
    """Every module and type gets its own scheme."""
    from mmrazor.registry import MODELS
    low = qcfg('tensor')
    low['w_qscheme']['bit'] = 4
    mid = qcfg('tensor')
    mid['w_qscheme']['bit'] = 6
    convs = [n for n, m in src.named_modules() if isinstance(m, nn.Conv2d)]
    lins = [n for n, m in src.named_modules() if isinstance(m, nn.Linear)]
    base = qcfg(spec[2])
    std = -127 if base['w_qscheme'].get('is_symmetric_range') else -128
    mixes = dict(minmax=(1, 1), tensor=(0, 0), lsq=(0, 1), full=(1, 0))
    for by_type, by_name in itertools.product((0, 1), repeat=2):
        if not ctx.thorough and mixes[spec[2]] != (by_type, by_name):
            continue
        cfg = dict(_global_=base)
        want = {n: std for n in convs + lins}
        if by_type:
            cfg['object_type'] = [('torch.nn.Linear', low)]
            want.update({n: -8 for n in lins})
        if by_name and convs:
            cfg['module_name'] = [(convs[0], mid)]
            want[convs[0]] = -32
        q = MODELS.build(dict(
            type='mmrazor.AcademicQuantizer', qconfig_mapping=cfg,
            prepare_custom_config=dict(
                preserved_attributes=['spec', 'tail'])))
        p = q.prepare(copy.deepcopy(src))
        what = f'{spec} academic, {by_type}, {by_name}'
        ctx.step()
        expect(p.spec == src.spec and p.tail == src.tail, f'{what}: lost')
        names = [n.name for n in p.graph.nodes
                 if n.op == 'call_module' and is_fq(p.get_submodule(n.target))]
        # a scheme of its own may take quantizers of its own, and it knows
        # no operators of fixed range
        expect(set(names) == plain or by_type or by_name or
               'sig' in spec[0],
               f'{what}: quantizes at {names}, expected {sorted(plain)}')
        got = {n: p.get_submodule(n).weight_fake_quant.quant_min
               for n in want}
        expect(got == want, f'{what}: {got}, expected {want}')
        off(p)
        for training in (False, True):
            near(copy.deepcopy(p).train(training)(x.clone()),
                 copy.deepcopy(ref).train(training)(x.clone()),
                 f'{what}: unquantized')


def trained(p, kind, x):
    """Observe, let the weights shrink, learn; ready to be evaluated."""
    from torch.ao.quantization import enable_fake_quant, enable_observer
    p.train()
    p.apply(enable_fake_quant)
    p.apply(enable_observer)
    for i in range(2):
        p((x * (1 + i)).clone())
        with torch.no_grad():
            for n, v in p.named_parameters():
                if n.endswith('weight') and v.dim() > 1:
                    v.mul_(.83)
    if kind == 'lsq':
        for n, v in p.named_parameters():
            if n.endswith('.scale'):
                v.data.mul_(1.1)
    return evaluate(p)


def deploy(ctx, q, p, x, kind, what):
    p = trained(p, kind, x)
    want = p(x.clone()).detach()
    raw = copy.deepcopy(p)
    for m in raw.modules():
        if hasattr(m, 'weight_fake_quant'):
            m.weight_fake_quant.disable_fake_quant()
    raw = raw(x.clone()).detach()
    for update, keep in itertools.product((True, False), repeat=2):
        ctx.step()
        d = copy.deepcopy(p)
        q2 = copy.deepcopy(q)
        q2.post_process_for_deploy(d, keep_w_fake_quant=keep,
                                   update_weight_with_fakequant=update)
        d.eval()
        case = f'{what}: deployed, update {update}, keep {keep}'
        alike(d(x.clone()).detach(), want if update or keep else raw, case)
        expect(not any(isinstance(m, nn.modules.batchnorm._BatchNorm)
                       for m in d.modules()), f'{case}: left a norm')
        held = [n for n, m in d.named_modules() if n.endswith(
            'weight_fake_quant')]
        had = [n for n, m in p.named_modules() if n.endswith(
            'weight_fake_quant')]
        expect(held == (had if keep else []),
               f'{case}: weight quantizers {held} of {had}')
        for n in held:
            a, b = p.get_submodule(n), d.get_submodule(n)
            expect(torch.allclose(a.scale.detach(), b.scale) and
                   torch.equal(a.zero_point.long(), b.zero_point.long()),
                   f'{case}: scale of {n} {b.scale}, trained {a.scale}')



# ------------------------------------------------------------ architecture
class Own(nn.Module):
    """Not traced into."""

    def __init__(self):
        super().__init__()
        self.register_module('norm', None)
        self.conv = nn.Conv2d(3, 3, 1)

    def forward(self, x):
        return self.conv(x) if self.norm is None else x


class Head(nn.Module):

    def get_loss(self, y):
        return dict(loss=y.mean())

    def get_predictions(self, y):
        return y * 2


class ArchNet(BaseModel):

    def __init__(self, cells, tail):
        super().__init__()
        self.net = Net(cells, tail)
        self.head = Head()

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.net(inputs)
        if mode == 'loss':
            return self.head.get_loss(y)
        if mode == 'predict':
            return self.head.get_predictions(y)
        return y


ARCH_OPS = ('train', 'sync', 'calib', 'reset', 'eval', 'save')


def make_arch(cells, tail, kind, name, norm=None):
    from mmrazor.models.algorithms import MMArchitectureQuant
    net = ArchNet(cells, tail)
    return MMArchitectureQuant(
        architecture=net, quantizer=dict(
            type='mmrazor.' + name, global_qconfig=qcfg(kind),
            tracer=dict(type='mmrazor.CustomTracer',
                        skipped_module_classes=[Own], skipped_methods=[
                f'{__name__}.Head.get_loss',
                f'{__name__}.Head.get_predictions'])),
        input_shapes=(1, 3, 8, 8)), net


def fqs(m):
    return {n: f for n, f in m.named_modules() if is_fq(f)}


def fq_state(m):
    return {n: {k: v.detach().clone() for k, v in f.state_dict().items()}
            for n, f in fqs(m).items()}


def same_fqs(a, b):
    return a.keys() == b.keys() and all(
        a[n].keys() == b[n].keys() and all(
            torch.equal(v, b[n][k]) for k, v in a[n].items()) for n in a)


def scope_arch(ctx, spec):
    cells, tail, kind, ops = spec
    setup()
    from torch.ao.quantization import (disable_observer, enable_fake_quant,
                                       enable_observer)
    from mmrazor.models.fake_quants import (enable_param_learning,
                                            enable_static_estimate)
    algo, net = make_arch(cells, tail, kind, 'OpenVINOQuantizer')
    expect(set(algo.qmodels) == {'tensor', 'predict', 'loss'}, 'modes')
    for mode, qm in algo.qmodels.items():
        for n, f in fqs(qm).items():
            expect(bool((f.scale == 1).all() and (f.zero_point == 0).all()),
                   f'{spec}: initial qparams of {mode}.{n}')
            o = f.activation_post_process
            expect(o.min_val.numel() == 0 or bool(
                (o.min_val == math.inf).all()), f'{spec}: has observed')
    synced = True
    for i, op in enumerate(ops):
        ctx.step()
        what = f'{spec[:3]} {ops[:i + 1]}'
        x = gen(2, 3, 8, 8, seed=10 + i)
        others = {m: fq_state(algo.qmodels[m]) for m in algo.qmodels}
        if op == 'train':
            algo.train()
            algo.apply(enable_fake_quant)
            algo.apply(enable_observer)
            if kind == 'lsq':
                algo.apply(enable_static_estimate if i == 0 else
                           enable_param_learning)
            algo.zero_grad()
            algo(x, None, 'loss')['loss'].backward()
            with torch.no_grad():
                for p in algo.parameters():
                    if p.grad is not None:
                        p.sub_(p.grad * .3)
            synced = False
        elif op == 'calib':
            algo.eval()
            algo.apply(enable_fake_quant)
            algo.apply(enable_observer)
            with torch.no_grad():
                algo.calibrate_step(dict(inputs=x, data_samples=None))
            synced = False
        elif op == 'sync':
            algo.sync_qparams('loss')
            synced = True
        elif op == 'reset':
            algo.reset_observer_and_fakequant_statistics(algo)
            synced = True
        elif op == 'eval':
            evaluate(algo)
            with torch.no_grad():
                algo(x, None, 'predict')
        else:
            state = copy.deepcopy(algo.state_dict())
            train = algo.training
            algo, net = make_arch(cells, tail, kind, 'OpenVINOQuantizer')
            algo.load_state_dict(state)
            algo.train(train)
        now = {m: fq_state(algo.qmodels[m]) for m in algo.qmodels}
        touched = dict(train='loss', calib='predict')
        if op in touched:
            for m in now:
                if m != touched[op]:
                    expect(same_fqs(no_flags(now[m]), no_flags(others[m])),
                           f'{what}: observed in {m}')
        if op == 'eval':
            for m in now:
                expect(same_fqs(no_flags(now[m]), no_flags(others[m])),
                       f'{what}: evaluation observed in {m}')
        if op == 'save':
            for m in now:
                expect(same_fqs(now[m], others[m]), f'{what}: loaded {m}')
        if op == 'reset':
            for m in now:
                for n, s in now[m].items():
                    expect(bool((s['scale'] == 1).all()
                                and (s['zero_point'] == 0).all()),
                           f'{what}: {m}.{n} is not reset')
        if op == 'sync':
            for m in now:
                expect(same_fqs(now[m], others['loss']),
                       f'{what}: {m} differs from the trained one')
        ctx.state((spec[:3], ops[:i + 1]))
    # one network behind all modes, and behind the deployed model
    x = gen(2, 3, 8, 8, seed=3)
    plain = copy.deepcopy(algo)
    off(plain)
    plain.eval()
    with torch.no_grad():
        want = plain.architecture(x.clone(), None, 'tensor')
        near(plain(x.clone(), None, 'tensor'), want, f'{spec}: tensor')
        near(plain(x.clone(), None, 'predict'), want * 2, f'{spec}: predict')
        near(plain(x.clone(), None, 'loss')['loss'], want.mean(),
             f'{spec}: loss')
    if not synced or not any(o in ('train', 'calib') for o in ops) \
            or 'reset' in ops:
        return
    evaluate(algo)
    with torch.no_grad():
        y = algo(x.clone(), None, 'tensor')
        p = algo(x.clone(), None, 'predict')
        alike(p, y * 2, f'{spec}: the modes disagree')
        loss = algo(x.clone(), None, 'loss')['loss']
        expect(abs(loss - y.mean()) <= 1e-3 * y.abs().mean() + 1e-6,
               f'{spec}: loss {loss} of {y.mean()}')
        if ops[-1] == 'save':
            return
        before = copy.deepcopy(algo.state_dict())
        d = deployed(algo).eval()
        alike(d(x.clone()), y * 2, f'{spec}: the deployed model')
        ctx.step()
        for k, v in algo.qmodels.state_dict().items():
            # modules which are not traced into are shared with the result
            expect('.own.' in k or torch.equal(v, before['qmodels.' + k]),
                   f'{spec}: deploying changed {k}')


def deployed(algo):
    """The deployed model; MMDeploy rewrites the forward when it exports."""
    forward = ArchNet.forward
    ArchNet.forward = lambda self, inputs: self.head.get_predictions(
        self.net(inputs))
    try:
        return algo.get_deploy_model()
    finally:
        ArchNet.forward = forward


def no_flags(s):
    # modules which are not traced into are one and the same in all modes
    return {n: {k: v for k, v in d.items() if not k.endswith('_enabled')}
            for n, d in s.items() if not n.startswith('net.own.')}


# ------------------------------------------------------------------- norms
def scope_norm(ctx, spec):
    setup()
    from mmengine.model.utils import _BatchNormXd
    from mmrazor.models.quantizers.base import BaseQuantizer
    kinds, train, affine, track = spec
    mods = []
    for i, k in enumerate(kinds):
        cls = dict(s=nn.SyncBatchNorm, x=_BatchNormXd, b=nn.BatchNorm2d,
                   g=lambda c, **kw: nn.GroupNorm(1, c))[k]
        m = cls(4) if k == 'g' else cls(
            4, eps=1e-3 * (i + 1), momentum=.1 * (i + 1), affine=affine,
            track_running_stats=track)
        for j, (n, t) in enumerate(sorted(m.state_dict().items())):
            t.copy_(torch.rand(t.shape) * 2 + .3 if t.is_floating_point()
                    else torch.tensor(5 + i))
        mods.append(m)
    net = nn.Sequential(mods[0], nn.Sequential(
        nn.Conv2d(4, 4, 1), *mods[1:2]), nn.ModuleDict(
            {str(i): m for i, m in enumerate(mods[2:])}))
    net.train(train)
    ref = copy.deepcopy(net)
    BaseQuantizer.convert_batchnorm2d(net)
    ctx.step()
    ctx.state(spec)
    x = gen(2, 4, 3, 3, seed=1)
    a, b = dict(ref.named_modules()), dict(net.named_modules())
    expect(list(a) == list(b), f'{spec}: modules {list(b)}')
    for n, m in a.items():
        if type(m).__name__ in ('SyncBatchNorm', '_BatchNormXd'):
            expect(type(b[n]) is nn.BatchNorm2d, f'{spec}: {n} is {b[n]}')
            for attr in ('eps', 'momentum', 'affine', 'track_running_stats',
                         'num_features', 'training'):
                expect(getattr(m, attr) == getattr(b[n], attr),
                       f'{spec}: {attr} of {n}')
            got = b[n](x)
            m.eval()
            if track and not train:
                near(got, m(x), f'{spec}: {n}')
        else:
            expect(type(m) is type(b[n]), f'{spec}: {n} became {b[n]}')
    keep = ref.state_dict()
    for k, v in copy.deepcopy(net).eval().state_dict().items():
        if train and ('running' in k or 'tracked' in k):
            continue
        expect(torch.equal(v, keep[k]), f'{spec}: {k} changed')


# ------------------------------------------------------------------- loops
class QNet(nn.Module):
    """Records the state of its quantizers at every step."""

    def __init__(self, kind):
        super().__init__()
        from torch.ao.nn.intrinsic import ConvBn2d
        from torch.ao.nn.intrinsic.qat import ConvBn2d as Qat
        from torch.ao.quantization import FakeQuantize, get_default_qat_qconfig
        self.kind = kind
        self.fq = make_fq(FQS[1]) if kind == 'lsq' else FakeQuantize()
        m = ConvBn2d(nn.Conv2d(3, 3, 1), nn.BatchNorm2d(3)).train()
        m.qconfig = get_default_qat_qconfig()
        self.conv = Qat.from_float(m)
        self.architecture = Plain()
        self.data_preprocessor = nn.Identity()
        self.log = []

    def flags(self):
        f = self.fq
        if self.kind == 'lsq':
            return tuple(int(t[0]) for t in (
                f.fake_quant_enabled, f.static_enabled, f.learning_enabled))
        return int(f.fake_quant_enabled[0]), int(f.observer_enabled[0])

    def note(self, what, *a):
        self.log.append((what, *a, self.flags(), self.conv.freeze_bn,
                         self.training))

    def train_step(self, data, optim_wrapper=None):
        self.note('train', float(data['data_samples'][0]))
        self.fq(data['inputs'])
        return dict(loss=torch.tensor(0.))

    def val_step(self, data):
        self.note('val', float(data['data_samples'][0]))
        return [float(i) for i in data['data_samples']]

    def calibrate_step(self, data):
        expect(not torch.is_grad_enabled(), 'calibration with gradients')
        self.note('calib', float(data['data_samples'][0]))
        self.fq(data['inputs'])

    def sync_qparams(self, src_mode):
        self.note('sync', src_mode)


class Plain(nn.Module):

    def val_step(self, data):
        self.seen = getattr(self, 'seen', 0) + 1
        expect(not self.training, 'the float model is not in evaluation mode')
        return [100. + float(i) for i in data['data_samples']]


def due(schedule, begin, epoch, start):
    """Whether the epoch is validated, with dynamic intervals."""
    interval = start
    for at, n in schedule or ():
        if epoch + 1 >= at:
            interval = n
    return epoch >= begin and epoch % interval == 0


def scope_train(ctx, spec):
    kind, epochs, batches, observe, freeze, begin, every, dynamic, resume = \
        spec
    setup()
    from mmrazor.registry import LOOPS
    model = QNet(kind)
    want = []
    for leg in ((0, resume), (resume, epochs)) if resume else ((0, epochs), ):
        if leg[0]:
            state = copy.deepcopy(model.state_dict())
            log = model.log
            model = QNet(kind)
            model.load_state_dict(state)
            model.log = log
        runner = P19.Runner(model)
        runner.val_loop = types.SimpleNamespace(
            run=lambda: (model.eval(), model.note('valloop')))
        k = dict(type='LSQEpochBasedLoop') if kind == 'lsq' else dict(
            type='QATEpochBasedLoop', disable_observer_begin=observe)
        loop = LOOPS.build(dict(
            k, runner=runner, dataloader=P19.loader((2, ) * batches),
            max_epochs=leg[1], val_begin=begin, val_interval=every,
            freeze_bn_begin=freeze, dynamic_intervals=dynamic))
        loop._epoch, loop._iter = leg[0], leg[0] * batches
        loop.run()
        expect(loop._epoch == leg[1] and loop._iter == leg[1] * batches,
               f'{spec}: counts {loop._epoch}, {loop._iter}')
        names = [n for n, _, _ in runner.log]
        for n, c in (('train', 1), ('train_epoch', leg[1] - leg[0]),
                     ('train_iter', (leg[1] - leg[0]) * batches)):
            for when in ('before', 'after'):
                expect(names.count(f'{when}_{n}') == c,
                       f'{spec}: {when}_{n} x{names.count(f"{when}_{n}")}')
    for e in range(1, epochs + 1):
        cold = freeze > 0 and e >= freeze
        for b in range(batches):
            ctx.step()
            if kind == 'lsq':
                first = e == 1 and b == 0
                flags = (1, 1, 0) if first else (1, 0, 1)
            else:
                flags = (1, int(not (observe > 0 and e >= observe)))
            want.append(('train', 2. * b, flags, cold, True))
        want.append(('sync', 'loss', flags if (kind != 'lsq' or batches > 1
                                               or e > 1) else (1, 0, 1),
                     cold, True))
        if due(dynamic, begin, e, every):
            want.append(('valloop', (1, 0, 0) if kind == 'lsq' else (1, 0),
                         cold, False))
    got = model.log
    expect(len(got) == len(want) and all(a == b for a, b in zip(got, want)),
           lambda: f'{spec}: ' + next(
               (f'step {i}: {a}, expected {b}' for i, (a, b) in enumerate(
                   itertools.zip_longest(got, want)) if a != b), ''))
    ctx.state(spec)


def metric():
    from mmengine.evaluator import BaseMetric, Evaluator

    class Sum(BaseMetric):

        def process(self, data_batch, data_samples):
            self.results.extend(data_samples)

        def compute_metrics(self, results):
            return dict(sum=sum(results), n=len(results))
    return Evaluator(Sum())


def scope_val(ctx, spec):
    kind, sizes, form = spec
    setup()
    from mmrazor.registry import LOOPS
    model = QNet(kind)
    runner = P19.Runner(model)
    hub = {f'val/{a}.sum': 1 for a in ('qat', 'original')}
    runner.message_hub = types.SimpleNamespace(log_scalars=hub)
    loop = LOOPS.build(dict(
        type='QATValLoop', runner=runner, dataloader=P19.loader(sizes),
        evaluator=metric()))
    n = sum(sizes)
    q = {'qat.sum': float(sum(range(n))), 'qat.n': n}
    o = {'original.sum': float(sum(range(n)) + 100 * n), 'original.n': n}
    for turn in range(2):
        ctx.step()
        model.train()
        model.log.clear()
        runner.metrics.clear()
        runner.log.clear()
        res = loop.run()
        expect(res == {**q, **o}, f'{spec}: {res}')
        expect(runner.metrics == [q, o], f'{spec}: {runner.metrics}')
        expect([a[:2] for a in model.log] ==
               [('val', float(sum(sizes[:i]))) for i in range(len(sizes))]
               and all(not a[-1] for a in model.log), f'{spec}: {model.log}')
        expect(model.architecture.seen == len(sizes) * (turn + 1),
               f'{spec}: float model evaluated {model.architecture.seen}')
        ones = ['before_val', 'before_val_epoch'] + [
            'before_val_iter', 'after_val_iter'] * len(sizes) + [
            'after_val_epoch']
        expect([a for a, _, _ in runner.log] == ones + ones[1:] +
               ['after_val'], f'{spec}: hooks {runner.log}')
        expect(model.architecture.data_preprocessor is
               model.data_preprocessor, f'{spec}: preprocessor')
    ctx.state(spec)


def scope_ptq(ctx, spec):
    sizes, steps, only, start = spec
    setup()
    from mmrazor.registry import LOOPS
    from torch.ao.quantization import disable_fake_quant, disable_observer
    model = QNet('qat')
    if start & 1:
        model.apply(disable_fake_quant)
    if start & 2:
        model.apply(disable_observer)
    fresh = copy.deepcopy(model.fq)
    runner = P19.Runner(model, tmp='w')
    runner.timestamp = 't'
    saved = []
    runner.save_checkpoint = lambda d, f, **k: saved.append(
        (d, f, model.flags(), copy.deepcopy(model.fq.state_dict()),
         k.get('save_optimizer'), k.get('save_param_scheduler')))
    res = dict(a=1.)
    runner.val_loop = types.SimpleNamespace(
        run=lambda: (model.eval(), model.note('valloop'), res)[2])
    loop = LOOPS.build(dict(
        type='PTQLoop', runner=runner, dataloader=P19.loader((1, )),
        evaluator=metric(), calibrate_dataloader=P19.loader(sizes),
        calibrate_steps=steps, only_val=only))
    got = loop.run()
    ctx.step()
    expect(got == res, f'{spec}: {got}')
    n = 0 if only else min(steps, len(sizes))
    want = [('calib', float(sum(sizes[:i])), (1, 1), False, False)
            for i in range(n)] + [('valloop', (1, 0), False, False)]
    expect(model.log == want, f'{spec}: {model.log}, expected {want}')
    fresh.enable_observer()
    x = P19.data(sum(sizes))
    for i in range(n):
        fresh(x[sum(sizes[:i]):sum(sizes[:i + 1])])
    fresh.enable_fake_quant()
    fresh.disable_observer()
    expect(len(saved) == (0 if only else 1), f'{spec}: saved {len(saved)}')
    for d, f, flags, state, opt, sched in saved:
        expect(flags == (1, 0) and f == 'model_ptq.pth' and not opt
               and not sched, f'{spec}: saved {flags} as {f}')
        same_state(fresh, state, f'{spec}: the saved model,')
    names = [a for a, _, _ in runner.log]
    expect(names.count('before_test_iter') == n == names.count(
        'after_test_iter') and names[0] == 'before_test'
        and names[-1] == 'after_test', f'{spec}: {names}')
    ctx.state(spec)


def run(ctx):
    setup()
    t = ctx.thorough
    ctx.parallel('scheme', SCHEMES, lambda s: scope_scheme(ctx, s))
    core = ('learn', 'static', 'val', 'observe', 'fq0', 'fq1', 'obs0',
            'obs1')
    seqs = []
    for i in range(len(FQS)):
        for d in itertools.product(OPS, repeat=3 if t else 2):
            seqs.append((i, d))
        for a, b in itertools.product(core, repeat=2):
            for mid in ('f0', 'f2') if t else ('f0', ):
                seqs.append((i, (mid, a, 'step', 'step', b, 'f1')))
                seqs.append((i, (a, 'f0', b, 'load', 'step', 'f1')))
                seqs.append((i, (mid, a, 'step', 'copy', b, 'step')))
    ctx.parallel('fq', seqs, lambda s: scope_fq(ctx, s))
    obs = [(c, s, u, q) for c in (None, 0, 1, 2) for s in (True, False)
           for u in (True, False)
           for q in itertools.product('abzper', repeat=4 if t else 3)
           if q[0] != 'r']
    ctx.parallel('observer', obs, lambda s: scope_observer(ctx, s))
    graphs = []
    for n in range(1, 5 if t else 4):
        for d in dags(n):
            graphs.append((d, (n, )))
            if n > 1 and (n < 4 or 'q' in (d[0][0], d[1][0])):
                graphs.append((d, (n - 1, n)))
    if not t:
        graphs = [g for g in graphs if len(g[0]) < 3 or len(g[1]) < 2]
    ctx.parallel('graph', graphs, lambda s: scope_graph(ctx, s))
    nets = [(c, tail, k) for c in CELLS for tail in ('', 'fc', 'conv')
            for k in ('minmax', 'tensor', 'lsq', 'full')]
    for c in itertools.product(CELLS, repeat=2):
        i = CELLS.index(c[0]) * 3 + CELLS.index(c[1])
        ks = ('minmax', 'lsq', 'tensor', 'full')
        for j, tail in enumerate(('', 'fc', 'conv')):
            if t:
                nets += [(c, tail, k) for k in ks]
            elif i % 3 == j:
                nets.append((c, tail, ks[i % 4]))
    nets = [((n[0], ) if isinstance(n[0], str) else n[0], *n[1:])
            for n in nets]
    nets = [n for n in nets if any(c not in ('pool', 'id', 'sig')
                                   for c in n[0]) or n[1]]
    ctx.parallel('prepare', nets, lambda s: scope_prepare(ctx, s))
    archs = []
    for cells, tail, kind in ((('cbr', 'res'), 'fc', 'minmax'),
                              (('cbr6', ), 'conv', 'lsq'),
                              (('cat', 'cb'), 'own', 'full')):
        for n in range(1, 5 if t else 3):
            for ops in itertools.product(ARCH_OPS, repeat=n):
                archs.append((cells, tail, kind, ops))
        if not t:
            for ops in itertools.product(('train', 'sync', 'calib', 'save'),
                                         repeat=3):
                if ops[-1] == 'sync' or ops[-2:] == ('sync', 'save'):
                    archs.append((cells, tail, kind, ops))
    ctx.parallel('arch', archs, lambda s: scope_arch(ctx, s))
    norms = [(k, *f) for n in (1, 2, 3)
             for k in itertools.product('sxbg', repeat=n)
             for f in itertools.product((True, False), repeat=3)]
    ctx.parallel('norm', norms, lambda s: scope_norm(ctx, s))
    train = []
    for kind in ('qat', 'lsq'):
        for epochs in (1, 2, 3):
            for obs, fr in itertools.product((-1, 1, 2, 3), repeat=2):
                if kind == 'lsq' and obs != -1:
                    continue
                for b in (1, 2):
                    for begin, every, dyn in (
                            (1, 1, None), (2, 1, None), (1, 2, None),
                            (1, 3, [(2, 1)]), (1, 1, [(3, 2)])):
                        for r in range(epochs):
                            if b == 1 and begin != 1:
                                continue
                            train.append((kind, epochs, b, obs, fr, begin,
                                          every, dyn, r))
    ctx.parallel('train', train, lambda s: scope_train(ctx, s))
    sizes = [s for n in range(1, 4) for s in itertools.product(
        (1, 2), repeat=n)]
    ctx.parallel('val', [(k, s, 0) for k in ('qat', 'lsq') for s in sizes],
                 lambda s: scope_val(ctx, s))
    ctx.parallel('ptq', [(s, n, o, st) for s in sizes for n in range(5)
                         for o in (False, True) for st in range(4)],
                 lambda s: scope_ptq(ctx, s))
