"""Resource estimates are those of the network and leave no trace."""
import copy
import io
import itertools
import math
import pickle
import types

import torch
from torch import nn

from mc.core import Violation, expect

RULE = ('every countable operation x argument menu x input shape x batch; '
        'every net of a grammar of such operations with nested, repeated and '
        'shared modules x every set of named parts x disabled counters; every '
        'source of every setting, and every sequence of calls of one '
        'estimator up to a depth; every choice of supernets of dynamic '
        'operations against their export; every validation schedule of the '
        'hook; non-trivial: a net with at least one counted operation')
ASSUMPTIONS = ['what one call of an operation costs is taken from the '
               'documented closed forms: multiply-adds plus bias for '
               'convolutions, one per element (two if affine) for norms, one '
               'per input element for pooling',
               'latency is measured by a stand-in clock']

from mmcv.cnn import bricks  # noqa: E402

CONVS = (nn.Conv1d, nn.Conv2d, nn.Conv3d)
ACTS = (nn.ReLU, nn.PReLU, nn.ELU, nn.LeakyReLU, nn.ReLU6, nn.Upsample)
BNS = (nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d, nn.InstanceNorm1d,
       nn.InstanceNorm2d, nn.InstanceNorm3d, nn.GroupNorm)
POOLS = (nn.MaxPool1d, nn.MaxPool2d, nn.MaxPool3d, nn.AvgPool1d, nn.AvgPool2d,
         nn.AvgPool3d, nn.AdaptiveMaxPool1d, nn.AdaptiveMaxPool2d,
         nn.AdaptiveMaxPool3d, nn.AdaptiveAvgPool1d, nn.AdaptiveAvgPool2d,
         nn.AdaptiveAvgPool3d)
COUNTED = CONVS + ACTS + BNS + POOLS + (nn.Linear, nn.LayerNorm,
                                        nn.ConvTranspose2d)


def setup():
    import mmrazor.models.task_modules.estimators.counters.latency_counter  # noqa: F401,E501


def price(m, x, y):
    """Multiply-adds of one call of ``m``, for the whole batch."""
    n = x.shape[0]
    if isinstance(m, CONVS):
        at = n * math.prod(y.shape[2:])
        k = math.prod(m.kernel_size)
        f = at * k * (m.in_channels // m.groups) * m.out_channels
        return f + (at * m.out_channels if m.bias is not None else 0)
    if isinstance(m, nn.ConvTranspose2d):
        at = n * math.prod(x.shape[2:])
        k = math.prod(m.kernel_size)
        f = at * k * m.in_channels * (m.out_channels // m.groups)
        return f + (y.numel() if m.bias is not None else 0)
    if isinstance(m, nn.Linear):
        return x.numel() * m.out_features
    if isinstance(m, nn.LayerNorm):
        return x.numel()
    if isinstance(m, BNS):
        return x.numel() * (2 if m.affine else 1)
    if isinstance(m, POOLS):
        return x.numel()
    if isinstance(m, ACTS):
        return y.numel()
    return None


def size(m):
    return sum(p.numel() for p in m.parameters() if p.requires_grad)


def measure(net, shape, off=(), kwargs=None):
    """{module: (flops per sample, params)} of a copy of ``net``.

    Modules are given by their names; those without a call are left out.
    """
    c = copy.deepcopy(net).eval()
    found = {}
    hooks = []
    for name, m in c.named_modules():
        if not isinstance(m, COUNTED):
            continue
        kind = next(k for k in type(m).mro() if k in COUNTED)
        if kind.__name__ + 'Counter' in off:
            continue

        def hook(mod, a, y, name=name):
            f, p = found.get(name, (0, 0))
            found[name] = (f + price(mod, a[0], y), size(mod))

        hooks.append(m.register_forward_hook(hook))
    with torch.no_grad():
        c(torch.zeros(shape))
    return {k: (f / shape[0], p) for k, (f, p) in found.items()}


def total(found, names=None):
    keys = found if names is None else names
    return (sum(found[k][0] for k in keys if k in found),
            sum(found[k][1] for k in keys if k in found))


def scaled(v, unit):
    if unit is None:
        return v
    return round(v / {'G': 1e9, 'M': 1e6, 'K': 1e3}[unit], 3)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def estimator(**kw):
    from mmrazor.models import ResourceEstimator
    return ResourceEstimator(**kw)


def footprint(net):
    """Everything an estimate has no business to change."""
    out = []
    for name, m in net.named_modules():
        d = {k: v for k, v in m.__dict__.items() if k != 'training'}
        out.append((
            name, id(m), tuple(sorted(k for k in d)),
            tuple((k, id(v)) for k, v in m._parameters.items()),
            tuple((k, id(v)) for k, v in m._buffers.items()),
            tuple((k, id(v)) for k, v in m._modules.items()),
            tuple(len(d[k]) for k in d if k.endswith('_hooks')),
            m.extra_repr()))
    tens = [(k, v.clone(), v.requires_grad)
            for k, v in net.state_dict(keep_vars=True).items()]
    return out, tens


def untouched(net, before, msg):
    out, tens = footprint(net)
    for a, b in zip(before[0], out):
        expect(a == b, f'{msg}: module {a[0]!r} was {a[2:]}, is {b[2:]}')
    expect(len(out) == len(before[0]), f'{msg}: modules came or went')
    expect([k for k, *_ in tens] == [k for k, *_ in before[1]],
           f'{msg}: the state has other keys')
    for (k, v, g), (_, v2, g2) in zip(before[1], tens):
        # inputs of an estimate are uninitialised memory
        expect(torch.equal(v, v2) or bool((v != v).any()),
               f'{msg}: {k} has changed')
        expect(g == g2, f'{msg}: requires_grad of {k} has changed')
    return out


def estimate(net, shape, msg, **kw):
    """One raw estimate which must leave no trace."""
    before = footprint(net)
    cfg = dict(input_shape=shape, **kw)
    cfg.setdefault('units', None)
    got = estimator().estimate(net, flops_params_cfg=cfg)
    untouched(net, before, msg)
    expect(set(got) == {'flops', 'params', 'latency'},
           f'{msg}: the keys of the result are {sorted(got)}')
    return got


# --------------------------------------------------------------------------
# every operation
# --------------------------------------------------------------------------
def op_menu():
    out = []
    for nd, cls in ((1, nn.Conv1d), (2, nn.Conv2d), (3, nn.Conv3d)):
        for k, s, p, g, b in itertools.product(
                (1, 3, 2), (1, 2), (0, 1), (1, 2, 4), (True, False)):
            out.append((cls.__name__, (4, 8, k),
                        dict(stride=s, padding=p, groups=g, bias=b)))
        ks = (3, 1, 2)[:nd]
        out.append((cls.__name__, (4, 4, ks), dict(groups=4)))
        out.append((cls.__name__, (4, 2, ks), dict(dilation=2, padding=2)))
    for k, s, g, b, op in itertools.product(
            (2, (3, 2), 1), (2, (2, 3)), (1, 2), (True, False), (0, 1)):
        out.append(('ConvTranspose2d', (4, 6, k),
                    dict(stride=s, groups=g, bias=b, output_padding=op)))
    for b in (True, False):
        out.append(('Linear', (4, 7), dict(bias=b)))
    for nd in (1, 2, 3):
        for a, t in itertools.product((True, False), (True, False)):
            out.append((f'BatchNorm{nd}d', (4, ),
                        dict(affine=a, track_running_stats=t)))
            out.append((f'InstanceNorm{nd}d', (4, ),
                        dict(affine=a, track_running_stats=t)))
        out += [(f'MaxPool{nd}d', (2, ), {}), (f'AvgPool{nd}d', (2, ), {}),
                (f'MaxPool{nd}d', (3, ), dict(stride=1, padding=1)),
                (f'AdaptiveMaxPool{nd}d', (1, ), {}),
                (f'AdaptiveAvgPool{nd}d', (2, ), {})]
    for g, a in itertools.product((1, 2, 4), (True, False)):
        out.append(('GroupNorm', (g, 4), dict(affine=a)))
    out += [('LayerNorm', (6, ), {}), ('LayerNorm', ((5, 6), ), {}),
            ('LayerNorm', (6, ), dict(elementwise_affine=False)),
            ('ReLU', (), {}), ('ReLU', (), dict(inplace=True)),
            ('PReLU', (), {}), ('PReLU', (4, ), {}), ('ELU', (), {}),
            ('LeakyReLU', (.1, ), {}), ('ReLU6', (), {}),
            ('Upsample', (), dict(scale_factor=2)),
            ('Upsample', (), dict(size=(3, 9))),
            ('Upsample', (), dict(scale_factor=2, mode='bilinear')),
            # not counted at all
            ('Sigmoid', (), {}), ('Dropout', (.5, ), {}), ('GELU', (), {}),
            ('Identity', (), {}), ('Softmax', (1, ), {}),
            # by the operation they derive from
            ('mmcv.Conv2d', (4, 8, 3), {}), ('mmcv.Linear', (4, 5), {}),
            ('mmcv.MaxPool2d', (2, ), {}),
            ('mmcv.ConvTranspose2d', (4, 6, 2), dict(stride=2)),
            ('sub.Conv2d', (4, 8, 3), {}), ('sub.Linear', (4, 3), {}),
            ('sub.BatchNorm2d', (4, ), {})]
    return out


class SubConv2d(nn.Conv2d):
    pass


class SubLinear(nn.Linear):
    pass


class SubBatchNorm2d(nn.BatchNorm2d):
    pass


def make_op(name, args, kw):
    if name.startswith('mmcv.'):
        return getattr(bricks, name[5:])(*args, **kw)
    if name.startswith('sub.'):
        return globals()['Sub' + name[4:]](*args, **kw)
    return getattr(nn, name)(*args, **kw)


def op_shapes(name):
    if '1d' in name:
        return [(4, 9), (4, 6)]
    if '3d' in name:
        return [(4, 5, 4, 6)]
    if name.endswith('Linear'):
        return [(4, ), (3, 4), (2, 3, 4)]
    if name == 'LayerNorm':
        return [(5, 6), (3, 5, 6)]
    if name in ('ReLU', 'ELU', 'GELU', 'Identity', 'GroupNorm', 'PReLU'):
        return [(4, 5, 6), (4, 7)]
    return [(4, 6, 8), (4, 7, 5)]


class One(nn.Module):

    def __init__(self, op):
        super().__init__()
        self.op = op

    def forward(self, x):
        return self.op(x)


def scope_ops(ctx, spec):
    name, args, kw = spec
    for bare in (True, False):
        for shape in op_shapes(name):
            per = set()
            for b in (1, 2, 5):
                op = make_op(name, args, kw)
                net = op if bare else One(op)
                full = (b, ) + shape
                msg = f'{name}{args}{kw} on {full}, bare={bare}'
                want = total(measure(net, full))
                got = estimate(net, full, msg)
                expect(close(got['flops'], want[0])
                       and close(got['params'], want[1]),
                       f'{msg}: FLOPs/params are {want}, estimated {got}')
                ctx.state((spec, bare, full))
                ctx.step()
                per.add(got['flops'])
            expect(len(per) == 1,
                   f'{name}{args}{kw}: FLOPs of a sample depend on the batch '
                   f'it is in: {sorted(per)}')


# --------------------------------------------------------------------------
# nets
# --------------------------------------------------------------------------
class Branch(nn.Module):

    def __init__(self, *ops):
        super().__init__()
        self.ops = nn.ModuleList(ops)

    def forward(self, x):
        y = 0
        for o in self.ops:
            y = y + o(x)
        return y


class Twice(nn.Module):

    def __init__(self, op, n):
        super().__init__()
        self.op = op
        self.n = n

    def forward(self, x):
        for _ in range(self.n):
            x = self.op(x)
        return x


class Custom(nn.Module):
    """Costs what its own counter says, see ``counters``."""

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.ones(3))

    def forward(self, x):
        return x * 2


def conv(k=3, **kw):
    return nn.Conv2d(4, 4, k, padding=k // 2, **kw)


def cell(kind, shared):
    if kind == 'conv':
        return conv(bias=False)
    if kind == 'cbr':
        return nn.Sequential(conv(), nn.BatchNorm2d(4), nn.ReLU())
    if kind == 'dw':
        return nn.Sequential(conv(groups=4), nn.PReLU())
    if kind == 'branch':
        return Branch(conv(1), nn.Sequential(nn.Identity(), conv(3)),
                      nn.AvgPool2d(3, 1, 1))
    if kind == 'twice':
        return Twice(conv(1), 3)
    if kind == 'shared':
        return nn.Sequential(shared, nn.Sigmoid())
    if kind == 'pair':
        # the same operation below two different parents
        return nn.Sequential(Branch(shared, conv(1)), Twice(shared, 2))
    if kind == 'unused':
        m = Twice(conv(5), 0)
        return m


CELLS = ('conv', 'cbr', 'dw', 'branch', 'twice', 'shared', 'pair', 'unused')


class Net(nn.Module):

    def __init__(self, cells):
        super().__init__()
        shared = nn.Conv2d(4, 4, 3, padding=1)
        self.stem = nn.Conv2d(3, 4, 3)
        self.body = nn.ModuleDict(
            {f's{i}': cell(c, shared) for i, c in enumerate(cells)})
        self.head = nn.Sequential(nn.AdaptiveAvgPool2d(1), nn.Flatten(),
                                  nn.Linear(4, 10))

    def forward(self, x):
        x = self.stem(x)
        for m in self.body.values():
            x = m(x)
        return self.head(x)


def subtree(net, name):
    """Names (as of the whole net) of the modules within module ``name``."""
    index = {m: n for n, m in net.named_modules()}
    return [index[m] for m in net.get_submodule(name).modules()]


def check_string(got, value, unit, tail, msg):
    want = f'{value} {unit}{tail}'
    expect(got == want, f'{msg}: expected {want!r}, got {got!r}')


def scope_nets(ctx, spec):
    cells, batch = spec
    net = Net(cells)
    shape = (batch, 3, 12, 10)
    found = measure(net, shape)
    want = total(found)
    msg = f'net {cells} at {shape}'
    got = estimate(net, shape, msg)
    expect(close(got['flops'], want[0]) and got['params'] == want[1],
           f'{msg}: FLOPs/params are {want}, estimated {got}')
    ctx.state(spec)
    ctx.step()
    # again, in training mode, and on a copy
    net.train()
    again = estimate(net, shape, msg)
    expect(again == got, f'{msg}: then {again}, first {got}')
    pickle.dumps(net)
    copied = estimate(copy.deepcopy(net), shape, msg)
    expect(copied == got, f'{msg}: of a copy {copied}, of the net {got}')
    # units
    for unit in ('K', 'M', 'G'):
        u = dict(flops=unit, params='K')
        r = estimate(net, shape, msg, units=u)
        expect(close(r['flops'], scaled(want[0], unit))
               and close(r['params'], scaled(want[1], 'K')),
               f'{msg} in {u}: expected {want} scaled, got {r}')
        r2 = estimate(net, shape, msg, units=u, as_strings=True)
        check_string(r2['flops'], r['flops'], unit, 'FLOPs', msg)
        check_string(r2['params'], r['params'], 'K', '', msg)
        ctx.step(2)
    # a table of all layers
    out = io.StringIO()
    r = estimate(net, shape, msg, print_per_layer_stat=True, ost=out)
    expect(r == got, f'{msg}: with a table of the layers {r}, without {got}')
    expect(out.getvalue().strip(), f'{msg}: no table of the layers')
    # disabled counters
    for off in (['Conv2dCounter'], ['LinearCounter', 'ReLUCounter'],
                ['AdaptiveAvgPool2dCounter', 'BatchNorm2dCounter',
                 'PReLUCounter']):
        w = total(measure(net, shape, off))
        r = estimate(net, shape, msg, disabled_counters=off)
        expect(close(r['flops'], w[0]) and r['params'] == w[1],
               f'{msg} without {off}: FLOPs/params are {w}, estimated {r}')
        ctx.step()
    # parts of the net
    parts = [n for n, _ in net.named_modules() if n]
    menu = [[p] for p in parts] + [['stem', 'head'], ['body', 'head.2'],
                                   ['stem', 'body', 'head']]
    tops = [f'body.s{i}' for i in range(len(cells))]
    menu += [[a, b] for a in tops for b in tops + ['body'] if a < b
             and a in parts and b in parts]
    for sel in menu:
        if any(p not in parts for p in sel):
            continue
        for order in {tuple(sel), tuple(sel[::-1])}:
            ws = {p: total(found, subtree(net, p)) for p in sel}
            m2 = f'{msg}, parts {order}'
            r = estimate(net, shape, m2, spec_modules=list(order))
            expect(close(r['flops'], sum(v[0] for v in ws.values()))
                   and close(r['params'], sum(v[1] for v in ws.values())),
                   f'{m2}: the parts have {ws}, estimated {r}')
            before = footprint(net)
            sep = estimator().estimate_separation_modules(
                net, dict(input_shape=shape, spec_modules=list(order),
                          units=None))
            untouched(net, before, m2)
            expect(set(sep) == set(order), f'{m2}: reported {sorted(sep)}')
            for p in order:
                expect(close(sep[p]['flops'], ws[p][0])
                       and close(sep[p]['params'], ws[p][1]),
                       f'{m2}: {p} has {ws[p]}, reported {sep[p]}')
            ctx.step(2)
    sep = estimator(units=dict(flops='K', params='K')) \
        .estimate_separation_modules(
            net, dict(input_shape=shape, spec_modules=['body', 'head'],
                      as_strings=True))
    for p in ('body', 'head'):
        w = total(found, subtree(net, p))
        for i, (k, tail) in enumerate((('flops', 'FLOPs'), ('params', ''))):
            check_string(sep[p][k], float(scaled(w[i], 'K')), 'K', tail,
                         f'{msg}, part {p}') if w[i] else None


# --------------------------------------------------------------------------
# where settings come from
# --------------------------------------------------------------------------
SHAPES = ((1, 3, 8, 8), (2, 3, 10, 12), (3, 3, 16, 14))
UNITS = (dict(flops='M', params='M', latency='ms'),
         dict(flops='K', params='K', latency='s'),
         dict(flops='G', params='K', latency='us'))


def small():
    torch.manual_seed(0)
    return nn.Sequential(nn.Conv2d(3, 16, 3), nn.ReLU(),
                         nn.Conv2d(16, 40, 3))


def resolve(i, key):
    """Setting of option ``i`` = (ctor, ctor cfg, call): the last one wins."""
    vals = {'input_shape': SHAPES, 'units': UNITS,
            'as_strings': (False, True, False)}[key]
    a, b, c = i
    if c is not None:
        return vals[c]
    if b is not None:
        return vals[b]
    return vals[a]


def scope_cfg(ctx, spec):
    """The source of each setting: (constructor, its cfg, the call)."""
    chosen = dict(zip(('input_shape', 'units', 'as_strings'), spec))
    vals = {'input_shape': SHAPES, 'units': UNITS,
            'as_strings': (False, True, False)}
    ctor = {k: copy.deepcopy(vals[k][v[0]]) for k, v in chosen.items()}
    inner = {k: copy.deepcopy(vals[k][v[1]]) for k, v in chosen.items()
             if v[1] is not None}
    call = {k: copy.deepcopy(vals[k][v[2]]) for k, v in chosen.items()
            if v[2] is not None}
    given = copy.deepcopy((ctor, inner, call))
    net = small()
    e = estimator(flops_params_cfg=inner or None, **ctor)
    eff = {k: resolve(v, k) for k, v in chosen.items()}
    w = total(measure(net, eff['input_shape']))
    want = [scaled(w[0], eff['units']['flops']),
            scaled(w[1], eff['units']['params'])]
    if eff['as_strings']:
        want = [f'{want[0]} {eff["units"]["flops"]}FLOPs',
                f'{want[1]} {eff["units"]["params"]}']
    msg = f'constructor {ctor}, its flops_params_cfg {inner}, call {call}'
    for n in range(2):
        got = e.estimate(net, flops_params_cfg=call or None)
        expect([got['flops'], got['params']] == want,
               f'{msg}: expected {want}, call {n} returned {got}')
        ctx.step()
        got = e.estimate_separation_modules(
            net, dict(call, spec_modules=['0', '2']))
        found = measure(net, eff['input_shape'])
        for p in ('0', '2'):
            v = [scaled(found[p][0], eff['units']['flops']),
                 scaled(found[p][1], eff['units']['params'])]
            if eff['as_strings']:
                v = [f'{v[0]} {eff["units"]["flops"]}FLOPs',
                     f'{v[1]} {eff["units"]["params"]}']
            expect([got[p]['flops'], got[p]['params']] == v,
                   f'{msg}: part {p}: expected {v}, got {got[p]}')
    expect((ctor, inner, call) == given,
           f'{msg}: the given settings were changed to {ctor}, {inner}, '
           f'{call}')
    ctx.state(spec)


BAD = object()
CALLS = {
    'plain': ('estimate', None),
    'shape': ('estimate', dict(input_shape=SHAPES[1])),
    'strings': ('estimate', dict(as_strings=True)),
    'units': ('estimate', dict(units=dict(flops='K', params='G'))),
    'parts': ('estimate', dict(spec_modules=['0'])),
    'off': ('estimate', dict(disabled_counters=['Conv2dCounter'])),
    'apart': ('apart', dict(spec_modules=['0', '2'])),
    'apart-none': ('apart', None),
    'seperate': ('estimate-sep', dict(spec_modules=['2'],
                                      seperate_return=True)),
    'bad-key': ('estimate', dict(shape=(1, 3, 8, 8))),
    'bad-part': ('estimate', dict(spec_modules=['0', 'nowhere'])),
    'bad-shape': ('estimate', dict(input_shape=(1, 5, 8, 8))),
    'bad-unit': ('estimate', dict(units=dict(flops='T', params='M'))),
}


def run_call(e, net, name):
    how, cfg = CALLS[name]
    cfg = copy.deepcopy(cfg)
    try:
        if how == 'apart':
            return e.estimate_separation_modules(net, flops_params_cfg=cfg)
        if how == 'estimate-sep':
            from mmrazor.models.task_modules.estimators.counters import \
                get_model_flops_params
            return get_model_flops_params(net, input_shape=SHAPES[0], **cfg)
        return e.estimate(net, flops_params_cfg=cfg)
    except (KeyError, AssertionError, RuntimeError, ValueError) as err:
        return type(err).__name__


CTORS = (dict(), dict(input_shape=SHAPES[2]),
         dict(as_strings=True, units=UNITS[1]),
         dict(flops_params_cfg=dict(input_shape=SHAPES[1],
                                    spec_modules=['2'])),
         dict(flops_params_cfg=dict(disabled_counters=['ReLUCounter'])))


def scope_history(ctx, spec):
    """One estimator and net used repeatedly, against fresh ones."""
    ci, names = spec
    e = estimator(**copy.deepcopy(CTORS[ci]))
    net = small()
    before = footprint(net)
    for i, n in enumerate(names):
        want = run_call(estimator(**copy.deepcopy(CTORS[ci])), small(), n)
        got = run_call(e, net, n)
        msg = f'{CTORS[ci]}, calls {names[:i + 1]}'
        expect(got == want, f'{msg}: fresh {want}, here {got}')
        if n.startswith('bad'):
            expect(isinstance(got, str), f'{msg}: accepted, {got}')
        untouched(net, before, msg)
        ctx.step()
    net.train()
    net(torch.rand(2, 3, 8, 8)).sum().backward()
    untouched(net, before, f'{names} and training')
    pickle.dumps(net)
    ctx.state(spec)


# --------------------------------------------------------------------------
# latency
# --------------------------------------------------------------------------
def scope_latency(ctx, spec):
    import mmrazor.models.task_modules.estimators.counters.latency_counter \
        as lc
    ctor, inner, call, fps = spec
    seen = []
    real = lc._get_model_latency

    def clock(model, input_shape=(1, 3, 224, 224), max_iter=100, num_warmup=5,
              log_interval=100):
        seen.append(dict(input_shape=input_shape, max_iter=max_iter,
                         num_warmup=num_warmup, log_interval=log_interval))
        return fps[(len(seen) - 1) % len(fps)]

    net = small()
    lc._get_model_latency = clock
    try:
        ctor = dict(dict(input_shape=SHAPES[0]), **ctor)
        e = estimator(latency_cfg=copy.deepcopy(inner) or None, **ctor)
        for n in range(2):
            seen.clear()
            got = e.estimate(net, latency_cfg=copy.deepcopy(call) or None)
            msg = f'{spec}, call {n}'
            strings = call.get('as_strings', inner.get(
                'as_strings', ctor.get('as_strings', False)))
            if not call:
                expect(not seen, f'{msg}: measured without being asked to')
                want = '0.0 ms' if ctor.get('as_strings') else 0.
                expect(got['latency'] == want,
                       f'{msg}: latency {got["latency"]!r}')
                continue
            eff = dict(max_iter=100, num_warmup=5, log_interval=100,
                       repeat_num=1, input_shape=ctor['input_shape'])
            eff.update(inner)
            eff.update(call)
            rep = eff['repeat_num']
            expect(len(seen) == rep, f'{msg}: measured {len(seen)} times')
            for s in seen:
                for k, v in s.items():
                    expect(v == eff[k], f'{msg}: {k} was {v}, not {eff[k]}')
            mean = sum(1000 / fps[i % len(fps)] for i in range(rep)) / rep
            v = got['latency']
            if strings:
                unit = call.get('unit', inner.get('unit', ctor.get(
                    'units', UNITS[0]).get('latency', 'ms')))
                expect(isinstance(v, str) and v.endswith(' ' + unit),
                       f'{msg}: latency {v!r}, unit {unit}')
                v = float(v.split()[0])
            expect(isinstance(v, float) and abs(v - mean) <= .1,
                   f'{msg}: mean latency is {mean}, reported {v}')
            w = e.estimate(net)
            expect((w['flops'], w['params']) == (got['flops'], got['params']),
                   f'{msg}: FLOPs with latency {got}, without {w}')
            ctx.step()
    finally:
        lc._get_model_latency = real
    ctx.state(str(spec))


# --------------------------------------------------------------------------
# live supernets
# --------------------------------------------------------------------------
class Live(nn.Module):
    """Dynamic operations by hand; ``kind`` names the searchable part."""

    def __init__(self, kind):
        super().__init__()
        from mmrazor.models.architectures import dynamic_ops as D
        from mmrazor.models.mutables import (MutableChannelContainer,
                                             OneShotMutableChannel,
                                             OneShotMutableChannelUnit,
                                             OneShotMutableValue)
        self.kind = kind
        self.mutables = {}

        def chan(n, name):
            m = OneShotMutableChannel(n, list(range(1, n + 1)))
            self.mutables[name] = m
            c = MutableChannelContainer(n)
            c.register_mutable(m, 0, n)
            return c

        self.a = D.BigNasConv2d(3, 4, 5, padding=2, bias='bias' in kind)
        self.n = D.DynamicBatchNorm2d(4, affine='plain' not in kind)
        self.d = D.DynamicConv2d(4, 4, 3, groups=4, padding=1)
        self.b = D.OFAConv2d(4, 6, 5, padding=2)
        self.l = D.DynamicLinear(6, 5, bias='bias' in kind)
        self.ln = D.DynamicLayerNorm(5)
        self.e = D.DynamicConv2d(6, 6, 1, groups=2) if 'group' in kind \
            else None
        ca, cb, cl = chan(4, 'a'), chan(6, 'b'), chan(5, 'l')
        if 'width' in kind:
            self.a.register_mutable_attr('out_channels', ca)
            self.n.register_mutable_attr('num_features', ca)
            self.d.register_mutable_attr('in_channels', ca)
            self.d.register_mutable_attr('out_channels', ca)
            self.b.register_mutable_attr('in_channels', ca)
            if self.e is None:
                self.b.register_mutable_attr('out_channels', cb)
                self.l.register_mutable_attr('in_features', cb)
            self.l.register_mutable_attr('out_features', cl)
            self.ln.register_mutable_attr('num_features', cl)
        if 'kernel' in kind:
            for name, conv_ in (('ka', self.a), ('kb', self.b)):
                v = OneShotMutableValue(value_list=[1, 3, 5])
                conv_.register_mutable_attr('kernel_size', v)
                self.mutables[name] = v

    def forward(self, x):
        x = self.b(self.d(self.n(self.a(x))))
        if self.e is not None:
            x = self.e(x)
        return self.ln(self.l(x.mean((2, 3))))


def scope_live(ctx, spec):
    from mmrazor.models.architectures.dynamic_ops import DynamicMixin
    kind, batch = spec
    shape = (batch, 3, 8, 6)
    net = Live(kind)
    keys = [k for k in net.mutables
            if ('width' in kind and len(k) == 1) or len(k) == 2]
    if 'group' in kind and 'b' in keys:
        keys.remove('b')
    menus = [net.mutables[k].choices if len(k) == 2 else
             net.mutables[k].candidate_choices for k in keys]
    if not ctx.thorough:
        menus = [sorted({m[0], m[len(m) // 2], m[-1]}) for m in menus]
    prev = None
    for pick in itertools.product(*menus):
        if prev is None:
            prev = pick
        for k, v in zip(keys, pick):
            net.mutables[k].current_choice = v
        msg = f'{kind} at {dict(zip(keys, pick))}'
        got = estimate(net, shape, msg)
        # the subnet, by itself
        sub = nn.Module()
        c = copy.deepcopy(net)
        for m in list(c.modules()):
            for mut in getattr(m, 'mutable_attrs', {}).values():
                if hasattr(mut, 'is_fixed'):
                    try:
                        mut.fix_chosen(mut.dump_chosen().chosen)
                    except Exception:  # noqa: containers have no choice
                        pass
        for k, m in list(c.mutables.items()):
            if not m.is_fixed:
                m.fix_chosen(m.current_choice)
        for name, m in list(c.named_children()):
            if isinstance(m, DynamicMixin):
                setattr(c, name, m.to_static_op())
        del sub
        want = total(measure(c, shape))
        expect(close(got['flops'], want[0]) and got['params'] == want[1],
               f'{msg}: the subnet has {want}, its estimate in place is '
               f'{got}')
        ctx.state((spec, pick))
        ctx.step()


class Flat(nn.Module):

    def __init__(self, spec):
        super().__init__()
        from mmcv.cnn import ConvModule
        self.stem = ConvModule(3, 6, 3, padding=1, norm_cfg=dict(type='BN'))
        ops = []
        for s in spec:
            if s == 'dw':
                ops.append(ConvModule(6, 6, 3, padding=1, groups=6,
                                      norm_cfg=dict(type='BN')))
            elif s == 'pw':
                ops.append(nn.Conv2d(6, 6, 1, bias=False))
            elif s == 'res':
                ops.append(nn.Conv2d(6, 6, 3, padding=1))
            elif s == 'bn':
                ops.append(nn.BatchNorm2d(6))
        self.spec = spec
        self.ops = nn.ModuleList(ops)
        self.head = nn.Linear(6, 4)

    def forward(self, x):
        x = self.stem(x)
        for s, o in zip(self.spec, self.ops):
            x = x + o(x) if s == 'res' else o(x)
        return self.head(x.mean((2, 3)))


def scope_prune(ctx, spec):
    """Nets made dynamic by the channel mutator, against their export."""
    from mmrazor.models.mutators import ChannelMutator
    from mmrazor.structures import export_fix_subnet
    prog, unit = spec
    net = Flat(prog)
    mut = ChannelMutator(
        channel_unit_cfg=dict(
            type=unit, default_args=dict(choice_mode='number')),
        parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
                       tracer_type='BackwardTracer'))
    mut.prepare_from_supernet(net)
    shape = (2, 3, 8, 10)
    units = mut.mutable_units
    for pick in itertools.product(
            *[(1, u.num_channels // 2, u.num_channels) for u in units]):
        for u, v in zip(units, pick):
            u.current_choice = v
        msg = f'{prog} pruned to {pick}'
        got = estimate(net, shape, msg)
        _, sub = export_fix_subnet(net, slice_weight=True)
        want = total(measure(sub, shape))
        expect(close(got['flops'], want[0]) and got['params'] == want[1],
               f'{msg}: the export has {want}, the estimate in place is '
               f'{got}')
        ctx.state((spec, pick))
        ctx.step()


# --------------------------------------------------------------------------
# the hook
# --------------------------------------------------------------------------
class Logger:

    def __init__(self):
        self.lines = []

    def info(self, s, *a):
        self.lines.append(s)

    warning = debug = info


def scope_hook(ctx, spec):
    from mmrazor.engine.hooks import EstimateResourcesHook
    interval, every, begin, epochs = spec
    net = small()
    want = total(measure(net, SHAPES[1]))
    hook = EstimateResourcesHook(
        interval=interval, by_epoch=True,
        estimator_cfg=dict(input_shape=SHAPES[1],
                           flops_params_cfg=dict(units=None)))
    log = Logger()
    runner = types.SimpleNamespace(epoch=0, iter=0, distributed=False,
                                   model=net, logger=log)
    before = footprint(net)
    times = []
    for e in range(epochs):
        hook.before_train_epoch(runner)
        hook.after_train_epoch(runner)
        runner.epoch += 1
        if runner.epoch >= begin and runner.epoch % every == 0:
            n = len(log.lines)
            for i in range(2):
                hook.after_val_iter(runner, i)
            hook.after_val_epoch(runner, metrics={})
            if len(log.lines) > n:
                times.append(runner.epoch)
                expect(len(log.lines) == n + 1,
                       f'{spec}: several estimates at epoch {runner.epoch}')
                expect(str(want[0]) in log.lines[-1],
                       f'{spec}: FLOPs are {want[0]}, logged '
                       f'{log.lines[-1]}')
        ctx.step()
    expected = [e for e in range(1, epochs + 1)
                if e >= begin and e % every == 0
                and interval > 0 and e % interval == 0]
    expect(times == expected,
           f'validation every {every} from {begin} on, estimates every '
           f'{interval} epochs: after {expected}, were after {times}')
    untouched(net, before, f'hook {spec}')
    ctx.state(spec)


def run(ctx):
    setup()
    t = ctx.thorough
    ctx.parallel('ops', op_menu(), lambda s: scope_ops(ctx, s))
    nets = [(c, b) for n in range(0, 4 if t else 3)
            for c in itertools.product(CELLS, repeat=n)
            for b in ((1, 3) if n < 2 or t else (2, ))]
    ctx.parallel('nets', nets, lambda s: scope_nets(ctx, s))
    one = [(a, b, c) for a in (0, 1, 2) for b in (None, 1, 2)
           for c in (None, 0, 2)]
    base = (0, None, None)
    # all sources of two settings at a time, the third at two positions
    cfgs = set()
    for third in (base, (1, 2, None)):
        for x, y in itertools.product(one, one):
            for trip in ((x, y, third), (x, third, y), (third, x, y)):
                cfgs.add(trip)
    cfgs = sorted(cfgs, key=str)
    if not t:
        cfgs = cfgs[::3]
    ctx.parallel('cfg', cfgs, lambda s: scope_cfg(ctx, s))
    depth = 3 if t else 2
    hist = [(c, s) for c in range(len(CTORS))
            for s in itertools.product(CALLS, repeat=depth)]
    ctx.parallel('history', hist, lambda s: scope_history(ctx, s))
    lat = [(c, i, k, f)
           for c in (dict(), dict(as_strings=True),
                     dict(as_strings=True, units=UNITS[1]))
           for i in (dict(), dict(max_iter=7), dict(input_shape=SHAPES[1]),
                     dict(repeat_num=2, as_strings=True))
           for k in (dict(), dict(num_warmup=2), dict(repeat_num=3),
                     dict(input_shape=SHAPES[2], log_interval=9),
                     dict(unit='s', as_strings=True), dict(max_iter=8))
           for f in ((20., 40.), (3., ), (50., 10., 25.))]
    ctx.parallel('latency', lat, lambda s: scope_latency(ctx, s))
    live = [(k, b) for k in ('width', 'kernel', 'width-kernel',
                             'width-kernel-bias', 'width-group',
                             'width-plain', 'kernel-bias')
            for b in (1, 3)]
    ctx.parallel('live', live, lambda s: scope_live(ctx, s))
    prune = [(p, u) for n in range(0, 4 if t else 3)
             for p in itertools.product(('dw', 'pw', 'res', 'bn'), repeat=n)
             for u in ('SequentialMutableChannelUnit',
                       'L1MutableChannelUnit')]
    ctx.parallel('prune', prune, lambda s: scope_prune(ctx, s))
    hooks = list(itertools.product((-1, 1, 2, 3, 4), (1, 2, 3), (1, 2, 4),
                                   (8, )))
    ctx.parallel('hook', hooks, lambda s: scope_hook(ctx, s))
