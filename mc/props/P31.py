"""An exported quantized graph computes the fake-quantized model."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile

import numpy as np
import torch
import torch.nn.functional as F
from mmengine.model import BaseModel
from torch import nn

from mc.core import Violation, expect

RULE = ('every graph built of up to a number of steps of an alphabet x form '
        'of its constants x exporter, run before and after; every directed '
        'graph up to a size x order of its nodes for the graph utilities; '
        'every network of a grammar x quantizer x scheme, exported; '
        'non-trivial: an exported graph that was run')
ASSUMPTIONS = ['channels are the first dimension of a weight',
               'graphs for TensorRT are quantized with signed 8 bits; ranges '
               'of 255 levels are not exceeded by what they quantize',
               'rounding ties may go either way',
               'an exported graph is run by an interpreter of its operators, '
               'not by OpenVINO or TensorRT; tracing is that of PyTorch']


def quiet(scope):
    """The exporters report what they remove."""
    def run_scope(*args):
        with contextlib.redirect_stdout(io.StringIO()):
            return scope(*args)
    return run_scope


def setup():
    import mmrazor.models  # noqa
    import onnx  # noqa
    return onnx


# ------------------------------------------------------------- interpreter
def attributes(node):
    from onnx import helper
    return {a.name: helper.get_attribute_value(a) for a in node.attribute}


def spread(v, x, axis):
    """Lay per-channel values along a dimension."""
    if v.size == 1:
        return v.reshape(())
    shape = [1] * x.ndim
    shape[axis] = -1
    return v.reshape(shape)


def fixed(x, scale, zero, axis, lo, hi):
    s = spread(scale, x, axis)
    z = spread(zero, x, axis).astype(x.dtype)
    return (np.clip(np.round(x / s + z), lo, hi) - z) * s


def run_node(node, args, kinds):
    """Value(s) of a node, in double precision."""
    at = attributes(node)
    op = node.op_type
    x = args[0] if args else None
    if op in ('FixedPerTensorAffine', 'LearnablePerTensorAffine'):
        lo, hi = (at['quant_min'], at['quant_max']) if at else args[-2:]
        return fixed(x, args[1], args[2], 0, lo, hi)
    if op in ('FixedPerChannelAffine',
              'FakeQuantizeLearnablePerchannelAffine'):
        lo, hi = (at['quant_min'], at['quant_max']) if at else args[-2:]
        axis = 0 if at else int(args[3])
        return fixed(x, args[1], args[2], axis, lo, hi)
    if op == 'FakeQuantize':
        expect(node.domain == 'org.openvinotoolkit',
               f'{node.name}: domain {node.domain}')
        il, ih, ol, oh = args[1:]
        n = at['levels'] - 1
        y = np.round((x - il) / (ih - il) * n) / n * (oh - ol) + ol
        y = np.where(x <= np.minimum(il, ih), ol, y)
        y = np.where(x > np.maximum(il, ih), oh, y)
        expect(y.shape == x.shape, f'{node.name}: {x.shape} becomes {y.shape}')
        return y
    if op == 'QuantizeLinear':
        axis = at.get('axis', 1)
        lo, hi = (0, 255) if kinds.get(node.input[2]) == np.uint8 else \
            (-128, 127)
        return np.clip(np.round(x / spread(args[1], x, axis)) +
                       spread(args[2], x, axis), lo, hi)
    if op == 'DequantizeLinear':
        axis = at.get('axis', 1)
        return (x - spread(args[2], x, axis)) * spread(args[1], x, axis)
    if op == 'Identity':
        return x
    if op == 'Cast':
        return x
    if op == 'Relu':
        return np.maximum(x, 0)
    if op == 'Add':
        return args[0] + args[1]
    if op == 'Clip':
        lo = args[1] if len(args) > 1 and args[1] is not None else -np.inf
        hi = args[2] if len(args) > 2 and args[2] is not None else np.inf
        return np.clip(x, lo, hi)
    if op == 'Pad':
        p = args[1].astype(int).reshape(2, -1).T
        x = x[tuple(slice(max(0, -a), x.shape[i] - max(0, -b))
                    for i, (a, b) in enumerate(p))]
        return np.pad(x, np.maximum(p, 0), constant_values=float(args[2])
                      if len(args) > 2 and args[2] is not None else 0.)
    if op == 'Transpose':
        return np.transpose(x, at.get('perm'))
    if op == 'MatMul':
        return args[0] @ args[1]
    if op == 'Shape':
        return np.array(x.shape)
    if op == 'Flatten':
        k = at.get('axis', 1)
        return x.reshape(int(np.prod(x.shape[:k])), -1)
    if op == 'GlobalAveragePool':
        return x.mean((2, 3), keepdims=True)
    if op == 'Gemm':
        b = args[1].T if at.get('transB') else args[1]
        a = args[0].T if at.get('transA') else args[0]
        y = at.get('alpha', 1.) * (a @ b)
        return y + at.get('beta', 1.) * args[2] if len(args) > 2 else y
    if op in ('Conv', 'ConvTranspose'):
        t = [None if a is None else torch.from_numpy(np.array(a))
             for a in args]
        k = t[1].dim() - 2
        pads = at.get('pads', [0] * 2 * k)
        expect(pads[:k] == pads[k:], f'{node.name}: pads {pads}')
        kw = dict(stride=tuple(at.get('strides', [1] * k)),
                  padding=tuple(pads[:k]), groups=at.get('group', 1),
                  dilation=tuple(at.get('dilations', [1] * k)))
        f = getattr(F, f'conv{k}d' if op == 'Conv' else
                    f'conv_transpose{k}d')
        return f(t[0], t[1], t[2] if len(t) > 2 else None, **kw).numpy()
    if op == 'MaxPool':
        k = len(at['kernel_shape'])
        y = F.max_pool2d(torch.from_numpy(np.array(x)),
                         tuple(at['kernel_shape']),
                         tuple(at.get('strides', [1] * k)),
                         tuple(at.get('pads', [0] * k)[:k]),
                         tuple(at.get('dilations', [1] * k)),
                         bool(at.get('ceil_mode', 0)))
        return y.numpy()
    raise Violation(f'{node.name}: unexpected operator {op}')


def interpret(model, feeds):
    """Run a graph, its nodes in the order they are listed."""
    from onnx import numpy_helper
    env, kinds = {}, {}

    def put(name, v):
        kinds[name] = v.dtype
        env[name] = v.astype(np.float64)
    for init in model.graph.initializer:
        put(init.name, numpy_helper.to_array(init))
    for k, v in feeds.items():
        put(k, v)
    for node in model.graph.node:
        if node.op_type == 'Constant':
            put(node.output[0], numpy_helper.to_array(
                next(a.t for a in node.attribute if a.name == 'value')))
            continue
        args = []
        for name in node.input:
            expect(name == '' or name in env,
                   f'{node.name} runs before its input {name}')
            args.append(env[name] if name else None)
        out = run_node(node, args, kinds)
        if node.op_type in ('Identity', 'Cast') and node.input[0] in kinds:
            kinds[node.output[0]] = kinds[node.input[0]]
        env[node.output[0]] = np.asarray(out)
    for o in model.graph.output:
        expect(o.name in env, f'output {o.name} is not computed')
    return [env[o.name] for o in model.graph.output]


def tidy(what, model, org):
    """Nothing superfluous is in an exported graph, nothing is missing."""
    g = model.graph
    inits = [i.name for i in g.initializer]
    expect(len(set(inits)) == len(inits), f'{what}: initializers {inits}')
    used = {n for node in g.node for n in node.input}
    outs = {o.name for o in g.output}
    expect(set(inits) <= used | outs,
           f'{what}: unused {set(inits) - used - outs}')
    for node in g.node:
        expect('Affine' not in node.op_type,
               f'{what}: {node.name} is still symbolic')
    made = {n for node in g.node for n in node.output}
    expect(len(made) == sum(len(n.output) for n in g.node),
           f'{what}: a value is made twice')
    for node in g.node:
        if node.op_type in ('Constant', 'Identity'):
            expect(set(node.output) & (used | outs),
                   f'{what}: {node.name} is left over')
    for kind in ('input', 'output'):
        expect([v.SerializeToString() for v in getattr(g, kind)] ==
               [v.SerializeToString() for v in getattr(org.graph, kind)],
               f'{what}: the {kind}s changed')


# ------------------------------------------------------------- made graphs
UNIT = 2. ** -5
STEPS = ('relu', 'fq', 'fqn', 'conv', 'qconv', 'qconvt', 'qtied', 'pad0',
         'pad1', 'shift', 'clip', 'fork', 'res', 'qmm', 'head')


class Graph:
    """Builds a graph; scales and offsets leave no rounding ties."""

    def __init__(self, form, signed, turn=0):
        from onnx import TensorProto, helper
        self.h, self.T = helper, TensorProto
        self.form, self.signed, self.turn = form, signed, turn
        self.nodes, self.inits, self.outs = [], [], []
        self.lead, self.shared, self.n, self.q = [], {}, 0, 0
        self.rng = np.random.RandomState(0)

    def name(self, base):
        self.n += 1
        return f'{base}_{self.n}'

    def init(self, v, base='w'):
        from onnx import numpy_helper
        name = self.name(base)
        self.inits.append(numpy_helper.from_array(np.asarray(v), name))
        return name

    def const(self, v, base='c', share=True):
        """A constant in the form of this graph."""
        from onnx import numpy_helper
        v = np.asarray(v)
        if self.form == 'init':
            return self.init(v, base)
        if self.form == 'ident':
            key = (v.dtype.str, v.tobytes(), v.shape)
            if key not in self.shared:
                self.shared[key] = self.init(v, base)
                return self.shared[key]
            name = self.name(base)
            self.lead.append(self.h.make_node(
                'Identity', [self.shared[key]], [name], self.name('Identity')))
            return name
        key = (v.dtype.str, v.tobytes(), v.shape)
        if self.form == 'shared' and share and key in self.shared:
            return self.shared[key]
        name = self.name(base)
        self.nodes.append(self.h.make_node(
            'Constant', [], [name], self.name('Constant'),
            value=numpy_helper.from_array(v)))
        self.shared[key] = name
        return name

    def add(self, op, inputs, **kw):
        out = self.name(op)
        self.nodes.append(self.h.make_node(op, inputs, [out],
                                           self.name('n' + op), **kw))
        return out

    def fq(self, x, narrow=False, scale=None):
        """Fake-quantize an activation."""
        scale = UNIT * 3 ** self.q if scale is None else scale
        self.q += 1
        lo, hi, zero = (-128, 127, 0) if self.signed else \
            ((0, 255, 100), (-128, 127, -30), (0, 255, 0), (-128, 127, -128),
             (0, 255, 255), (-128, 127, 127))[(self.q + self.turn) % 6]
        if narrow:
            lo, hi, zero = -127, 127, 0
            scale *= 2 ** 16
        ins = [x, self.const(np.float32([scale])),
               self.const(np.int32([zero]), share=False)]
        if self.form == 'attr':
            return self.add('LearnablePerTensorAffine', ins, domain='mmrazor',
                            quant_min=lo, quant_max=hi)
        return self.add('FixedPerTensorAffine', ins + [
            self.const(np.int64(lo)), self.const(np.int64(hi))],
            domain='mmrazor')

    def weight(self, shape, per_channel, name=None):
        """A fake-quantized weight and the name of the float one."""
        c = shape[0] if per_channel else 1
        scale = (2. ** -6 * 3. ** np.arange(c)).astype(np.float32)
        lo, hi = (-128, 127)
        if name is None:
            ints = self.rng.randint(-140, 141, shape) + 11 / 64
            s = spread(scale, ints, 0)
            name = self.init((ints * s).astype(np.float32), 'weight')
        zero = np.zeros(c, np.int32) if self.signed or per_channel else \
            np.full(c, 5, np.int32)
        ins = [name, self.const(scale), self.const(zero)]
        if self.form == 'attr':
            op = 'FakeQuantizeLearnablePerchannelAffine' if per_channel \
                else 'FixedPerTensorAffine'
            return name, self.add(op, ins, domain='mmrazor', quant_min=lo,
                                  quant_max=hi)
        if per_channel:
            ins.append(self.const(np.int64(0)))
        ins += [self.const(np.int64(lo)), self.const(np.int64(hi))]
        op = 'FixedPerChannelAffine' if per_channel else \
            'FixedPerTensorAffine'
        return name, self.add(op, ins, domain='mmrazor')

    def bias(self):
        return np.float32([.25, -.5, 1.]) + np.float32(
            [1, 3, 5]) * 2 ** -20

    def conv(self, x, w):
        return self.add('Conv', [x, w, self.init(self.bias(), 'bias')],
                        kernel_shape=[1, 1])

    def step(self, x, kind):
        if kind == 'relu':
            return self.add('Relu', [x])
        if kind in ('fq', 'fqn'):
            return self.fq(x, kind == 'fqn')
        if kind == 'conv':
            w = self.rng.randint(-8, 9, (3, 3, 1, 1)) / 8
            return self.conv(x, self.init(w.astype(np.float32)))
        if kind in ('qconv', 'qconvt'):
            return self.conv(x, self.weight((3, 3, 1, 1),
                                            kind == 'qconv')[1])
        if kind == 'qtied':
            name, q = self.weight((3, 3, 1, 1), True)
            x = self.conv(x, q)
            return self.conv(x, self.weight((3, 3, 1, 1), True, name)[1])
        if kind in ('pad0', 'pad1', 'shift'):
            pads = np.int64(dict(
                pad0=[0] * 8, pad1=[0, 0, 1, 0, 0, 0, 0, 0],
                shift=[0, 0, 1, 0, 0, 0, -1, 0])[kind])
            return self.add('Pad', [x, self.const(pads)], mode='constant')
        if kind == 'clip':
            return self.add('Clip', [x, '', self.const(np.float32(40.))])
        if kind == 'fork':
            return self.add('Add', [self.fq(x), self.fq(x)])
        if kind == 'res':
            return self.add("Add", [self.add("Relu", [x]), x])
        if kind == 'qmm':
            q = self.weight((4, 4), True)[1]
            y = self.add('MatMul', [x, self.add('Transpose', [q],
                                                perm=[1, 0])])
            return self.add('Add', [y, self.init(np.float32(
                [3, 5, 7, 9]) * 2 ** -20)])
        if kind == 'head':   # this value is an output too
            self.outs.append(x)
            return x

    def build(self, steps):
        x = 'x'
        for kind in steps:
            x = self.step(x, kind)
        self.outs.append(x)
        outs = []
        for o in self.outs:
            if o == 'x':
                o = self.add('Relu', ['x'])
            if o not in outs:
                outs.append(o)
        info = self.h.make_tensor_value_info
        graph = self.h.make_graph(
            self.lead + self.nodes, 'g',
            [info('x', self.T.FLOAT, [1, 3, 'h', 4])],
            [info(o, self.T.FLOAT, None) for o in outs], self.inits)
        return self.h.make_model(graph, opset_imports=[
            self.h.make_opsetid('', 13), self.h.make_opsetid('mmrazor', 1)])


def levels():
    """An input which meets every level of the first fake quantizer."""
    v = [(k + d) * UNIT for k in range(-140, 260) for d in (
        -11 / 64, 0, 11 / 64)]
    return {'x': np.float32(v).reshape(1, 3, -1, 4)}


@quiet
def scope_graph(ctx, case):
    onnx = setup()
    from mmrazor.models.quantizers.exporters import (
        OpenVinoQuantizeExportor, TensorRTExplicitExporter)
    backend, form, steps, turn = case
    path = turn % 2
    model = Graph(form, backend == 'trt', turn).build(steps)
    org = copy.deepcopy(model)
    feeds = levels()
    want = interpret(org, feeds)
    cls = TensorRTExplicitExporter if backend == 'trt' else \
        OpenVinoQuantizeExportor
    tmp = tempfile.mkdtemp()
    try:
        out = os.path.join(tmp, 'out.onnx')
        if path:
            onnx.save(model, os.path.join(tmp, 'in.onnx'))
            model = os.path.join(tmp, 'in.onnx')
        cls(model, out).export()
        got = onnx.load(out)
    finally:
        shutil.rmtree(tmp)
    ctx.step()
    tidy(f'{case}', got, org)
    for node in got.graph.node:
        expect(node.op_type != 'Pad' or {'pad1', 'shift'} & set(steps) or
               node.output[0] in {o.name for o in got.graph.output},
               f'{case}: {node.name} pads nothing')
    new = {n.op_type for n in got.graph.node} - {
        n.op_type for n in org.graph.node}
    expect(new <= ({'FakeQuantize'} if backend == 'ov' else
                   {'QuantizeLinear', 'DequantizeLinear'}),
           f'{case}: operators {new}')
    have = interpret(got, feeds)
    for a, b in zip(have, want):
        expect(a.shape == b.shape and
               np.allclose(a, b, rtol=1e-9, atol=1e-9),
               lambda: f'{case}: an output is off by '
               f'{abs(a - b).max() if a.shape == b.shape else a.shape}')
    ctx.state((backend, form, steps))


@quiet
def scope_reject(ctx, case):
    """What a backend cannot run is not exported to it."""
    setup()
    import onnx
    from onnx import helper, numpy_helper

    from mmrazor.models.quantizers.exporters import TensorRTExplicitExporter
    lo, hi, zero, channels = case
    n = 3 if channels else 1
    w = numpy_helper.from_array(np.ones((3, 3, 1, 1), np.float32), 'w')
    s = numpy_helper.from_array(np.ones(n, np.float32), 's')
    zp = np.zeros(n, np.int32)
    zp[-1] = zero
    z = numpy_helper.from_array(zp, 'z')
    ends = [numpy_helper.from_array(np.int64(v), k)
            for k, v in (('lo', lo), ('hi', hi), ('axis', 0))]
    op, ins = ('FixedPerChannelAffine', ['w', 's', 'z', 'axis', 'lo', 'hi']) \
        if channels else ('FixedPerTensorAffine', ['w', 's', 'z', 'lo', 'hi'])
    info = helper.make_tensor_value_info
    model = helper.make_model(helper.make_graph(
        [helper.make_node(op, ins, ['q'], 'q', domain='mmrazor'),
         helper.make_node('Conv', ['x', 'q'], ['y'], 'y')], 'g',
        [info('x', 1, [1, 3, 4, 4])], [info('y', 1, None)],
        [w, s, z] + ends[:3 if channels else 2]))
    good = hi - lo in (254, 255) and not zero
    tmp = tempfile.mkdtemp()
    ctx.step()
    try:
        out = os.path.join(tmp, 'o.onnx')
        try:
            TensorRTExplicitExporter(model, out).export()
        except AssertionError:
            expect(not good, f'{case}: refused')
            expect(not os.path.exists(out), f'{case}: refused, but written')
        else:
            expect(good, f'{case}: exported')
            onnx.load(out)
    finally:
        shutil.rmtree(tmp)


# --------------------------------------------------------- graph utilities
@quiet
def scope_sort(ctx, case):
    """Every directed graph: sorted if it has no cycle, else refused."""
    setup()
    from onnx import helper

    from mmrazor.models.quantizers.exporters.optim_utils import ONNXOptimUtils
    n, edges, order, inplace, extra = case
    info = helper.make_tensor_value_info
    ins = {i: [f'v{a}' for a, b in edges if b == i] for i in range(n)}
    nodes = [helper.make_node('Op', (ins[i] or ['x']) +
                              (['', 'w'] if extra else []),
                              [f'v{i}'], f'n{i}') for i in order]
    model = helper.make_model(helper.make_graph(
        nodes, 'g', [info('x', 1, None)],
        [info(f'v{n - 1}', 1, None)],
        [helper.make_tensor('w', 1, [1], [1.])]))
    before = copy.deepcopy(model)
    # Kahn
    left, done = set(range(n)), []
    while True:
        free = [i for i in left if all(a not in left for a, b in edges
                                       if b == i)]
        if not free:
            break
        left -= set(free)
        done += free
    ctx.step()
    try:
        got = ONNXOptimUtils.topo_sort(model, inplace=inplace)
    except RuntimeError:
        expect(left, f'{case}: refused')
        return
    expect(not left, f'{case}: a cycle was accepted')
    expect((got is model) == inplace, f'{case}: in place')
    if not inplace:
        expect(model == before, f'{case}: the model was changed')
    seen = []
    for node in got.graph.node:
        i = int(node.name[1:])
        expect(all(a in seen for a, b in edges if b == i),
               f'{case}: {node.name} before its input')
        seen.append(i)
    expect(sorted(seen) == list(range(n)), f'{case}: nodes {seen}')
    by = {x.name: x for x in before.graph.node}
    expect(all(by[x.name] == x for x in got.graph.node),
           f'{case}: a node changed')
    ctx.state(case)


@quiet
def scope_prune(ctx, case):
    """Optimizing a graph removes what nothing uses, and no more."""
    setup()
    from onnx import helper

    from mmrazor.models.quantizers.exporters.optim_utils import ONNXOptimUtils
    kinds, order = case
    # one part of a graph each
    info = helper.make_tensor_value_info
    nodes, inits, outs, keep, keep_init = [], [], ['y'], {'main'}, {'w'}
    nodes.append(helper.make_node('Main', ['x', 'w'], ['y'], 'main'))
    inits.append('w')
    for k, kind in enumerate(kinds):
        v = f'{kind}{k}'
        if kind == 'loose':         # a constant nothing uses
            nodes.append(helper.make_node('Constant', [], [v], v))
        elif kind == 'fake':        # a node without anything
            nodes.append(helper.make_node('fake', [], [], v))
        elif kind == 'copy':        # of an initializer, unused
            inits.append('i' + v)
            nodes.append(helper.make_node('Identity', ['i' + v], [v], v))
        elif kind == 'spare':       # an unused initializer
            inits.append(v)
        elif kind == 'direct':      # from input to output
            nodes.append(helper.make_node('Shape', ['x'], [v], v))
            outs.append(v)
            keep.add(v)
        elif kind == 'const':       # used by a node which is an output
            nodes.append(helper.make_node('Constant', [], ['c' + v],
                                          'c' + v))
            nodes.append(helper.make_node('Add', ['y', 'c' + v, ''], [v], v))
            outs.append(v)
            keep |= {v, 'c' + v}
        elif kind == 'given':       # an initializer which is an output
            inits.append(v)
            outs.append(v)
            keep_init.add(v)
    if order:
        nodes = nodes[::-1]
    model = helper.make_model(helper.make_graph(
        nodes, 'g', [info('x', 1, None)], [info(o, 1, None) for o in outs],
        [helper.make_tensor(i, 1, [1], [1.]) for i in inits]))
    got = ONNXOptimUtils.optimize(copy.deepcopy(model))
    ctx.step()
    names = {n.name for n in got.graph.node}
    expect(names == keep, f'{case}: keeps {names}')
    left = {i.name for i in got.graph.initializer}
    expect(left == keep_init, f'{case}: keeps {left}')
    expect(got.graph.output == model.graph.output, f'{case}: outputs')
    ctx.state(case)


# -------------------------------------------------------------- real models
class Block(nn.Module):

    def __init__(self, kind, c):
        super().__init__()
        self.kind = kind
        if kind in ('cbr', 'cb', 'res'):
            self.conv = nn.Conv2d(c, c, 3, padding=1, bias=kind == 'cb')
            self.bn = nn.BatchNorm2d(c)
        elif kind == 'dw':
            self.conv = nn.Conv2d(c, c, 3, padding=1, groups=c)
        elif kind == 'pw':
            self.conv = nn.Conv2d(c, c, 1, bias=False)
        self.relu = nn.ReLU()

    def forward(self, x):
        y = self.conv(x)
        if hasattr(self, 'bn'):
            y = self.bn(y)
        if self.kind == 'res':
            y = y + x
        return y if self.kind in ('cb', 'pw') else self.relu(y)


class Arch(nn.Module):

    def __init__(self, kinds, bias):
        super().__init__()
        self.stem = nn.Conv2d(3, 3, 1)
        self.blocks = nn.Sequential(*[Block(k, 3) for k in kinds])
        self.pool = nn.AdaptiveAvgPool2d((1, 1))
        self.fc = nn.Linear(3, 3, bias=bias)

    def forward(self, x):
        x = self.blocks(self.stem(x))
        return self.fc(self.pool(x).flatten(1))


def net_class():
    from mmrazor.registry import MODELS

    class McExportNet(BaseModel):

        def __init__(self, kinds, bias):
            super().__init__()
            self.architecture = Arch(kinds, bias)

        def forward(self, inputs, data_samples=None, mode='tensor'):
            if isinstance(inputs, list):
                inputs = torch.stack(inputs)
            return self.architecture(inputs)
    MODELS.register_module(module=McExportNet, force=True)


@quiet
def scope_model(ctx, case):
    onnx = setup()
    net_class()
    from mmrazor.registry import MODELS
    backend, kinds, bias, channels, opset, signed = case
    name = dict(ov='OpenVINO', trt='TensorRT')[backend]
    act = dict(qdtype='qint8' if signed else 'quint8', bit=8,
               is_symmetry=signed)
    weight = dict(qdtype='qint8', bit=8, is_symmetry=True)
    if backend == 'ov':
        weight['is_symmetric_range'] = True
    torch.manual_seed(0)
    algo = MODELS.build(dict(
        type='mmrazor.MMArchitectureQuant',
        architecture=dict(type='McExportNet', kinds=kinds, bias=bias),
        quantizer=dict(
            type=f'mmrazor.{name}Quantizer',
            global_qconfig=dict(
                w_observer=dict(type='mmrazor.PerChannelMinMaxObserver'
                                if channels else 'mmrazor.MinMaxObserver'),
                a_observer=dict(type='mmrazor.MinMaxObserver'),
                w_fake_quant=dict(type='mmrazor.FakeQuantize'),
                a_fake_quant=dict(type='mmrazor.FakeQuantize'),
                w_qscheme=weight, a_qscheme=act),
            tracer=dict(type='mmrazor.CustomTracer'))))
    g = torch.Generator().manual_seed(1)
    with torch.no_grad():
        for p in algo.architecture.parameters():
            p.copy_(torch.randn(p.shape, generator=g))
        for k in algo.qmodels:
            for p in algo.qmodels[k].parameters():
                if p.dim():
                    p.copy_(torch.randn(p.shape, generator=g))
    algo.sync_qparams('tensor')
    algo.eval()
    from torch.ao.quantization import (disable_fake_quant, disable_observer,
                                       enable_fake_quant, enable_observer)
    q = algo.qmodels['predict']
    q.apply(enable_observer)
    q.apply(disable_fake_quant)
    data = torch.randn(8, 3, 7, 5, generator=g)
    q(data, None, 'predict')
    q.apply(disable_observer)
    q.apply(enable_fake_quant)
    deploy = algo.get_deploy_model().eval()
    x = torch.randn(8, 3, 7, 5, generator=g)
    want = deploy(x)
    tmp = tempfile.mkdtemp()
    try:
        out = os.path.join(tmp, 'net.onnx')
        kw = dict(opset_version=opset) if opset else {}
        algo.quantizer.export_onnx(deploy, (x, ), out, **kw)
        got = onnx.load(out)
    finally:
        shutil.rmtree(tmp)
    ctx.step()
    feed = got.graph.input[0].name
    have = interpret(got, {feed: x.numpy()})[0]
    ref = want.detach().double().numpy()
    size = abs(ref).max()
    err = abs(have - ref)
    expect(have.shape == ref.shape and (err < 1e-4 * size).mean() >= .75 and
           err.max() < .1 * size,
           lambda: f'{case}: off by {err.max()} of {size}')
    used = {n.op_type for n in got.graph.node}
    expect('FakeQuantize' in used if backend == 'ov' else
           {'QuantizeLinear', 'DequantizeLinear'} <= used,
           f'{case}: operators {used}')
    ctx.state(case)


def run(ctx):
    graphs = []
    for backend in ('ov', 'trt'):
        steps = [s for s in STEPS]
        for k in range(1, 4 + ctx.thorough):
            for i, seq in enumerate(itertools.product(steps, repeat=k)):
                if seq[-1] == 'head':
                    continue
                forms = ('init', 'const', 'ident', 'shared', 'attr')
                if k > 2:
                    forms = (forms[i % 5], ) if k > 3 or not ctx.thorough \
                        else forms
                turns = range(6) if k == 1 else (i % 6, )
                graphs += [(backend, f, seq, t) for f in forms
                           for t in turns]
    ctx.parallel('graph', graphs, lambda c: scope_graph(ctx, c))
    ctx.parallel('reject', list(itertools.product(
        (-128, -127, -8, 0), (127, 7, 128), (0, 3, -128), (False, True))),
        lambda c: scope_reject(ctx, c))
    sorts = []
    for n in (1, 2, 3) + ((4, ) if ctx.thorough else ()):
        pairs = list(itertools.product(range(n), repeat=2))
        pairs = [p for p in pairs if p[0] != p[1]] if n > 2 else pairs
        for k in range(len(pairs) + 1):
            for edges in itertools.combinations(pairs, k):
                for j, order in enumerate(
                        itertools.permutations(range(n))):
                    sorts.append((n, edges, order, j % 2 == 0, n != 2))
    if not ctx.thorough:    # graphs of four nodes, listed in reverse
        pairs = [(a, b) for a in range(4) for b in range(a + 1, 4)]
        for k in range(len(pairs) + 1):
            for edges in itertools.combinations(pairs, k):
                for order in ((3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)):
                    sorts.append((4, edges, order, k % 2 == 0, True))
    ctx.parallel('sort', sorts, lambda c: scope_sort(ctx, c))
    parts = ('loose', 'fake', 'copy', 'spare', 'direct', 'const', 'given')
    ctx.parallel('prune', [
        (seq, o) for k in range(4) for seq in itertools.product(
            parts, repeat=k) for o in (False, True)],
        lambda c: scope_prune(ctx, c))
    kinds = ('cbr', 'cb', 'res', 'dw', 'pw')
    depth = 2 if ctx.thorough else 1
    seqs = [s for k in range(depth + 1)
            for s in itertools.product(kinds, repeat=k)]
    if not ctx.thorough:
        seqs += [('cbr', 'res'), ('pw', 'dw')]
    models = [('ov', s, b, c, None, g) for s in seqs for b in (True, False)
              for c in (True, False) for g in (False, True)]
    models += [('trt', s, b, c, o, True if o else g) for s in seqs
               for b in (True, False) for c in (True, False)
               for o in (None, 11) for g in (False, True)
               if not (o and (c or not g))]
    ctx.parallel('model', models, lambda c: scope_model(ctx, c))
