"""SparseGPT and GPTQ: second-order compression of weights."""
import copy
import itertools
import logging
import math

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import expect

RULE = ('every layer shape x calibration history x setting of the '
        'compression; every quantizer setting x tensor of a value menu; every '
        'network x flags through the compressors; non-trivial: a compressed '
        'layer or quantized tensor')
ASSUMPTIONS = ['settings in which a decision of the reference is within '
               '0.1% of a tie are not compared',
               'convolutions pad with zeros given in numbers; the custom '
               'kernel of GPTQ needs a GPU and is only checked for what it '
               'is handed',
               'cut back to plain layers, a layer used under two names may '
               'become two equal ones']


def gen(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed))


class Tie(Exception):
    pass


# ---- layers ----------------------------------------------------------------
LAYERS = {
    'lin': (lambda: nn.Linear(8, 8), (5, 8)),
    'lin0': (lambda: nn.Linear(6, 9, bias=False), (5, 6)),
    'wide': (lambda: nn.Linear(16, 16), (20, 16)),
    'narrow': (lambda: nn.Linear(8, 4), (9, 8)),
    'c1': (lambda: nn.Conv2d(8, 4, 1), (8, 3, 3)),
    'c3': (lambda: nn.Conv2d(2, 5, 3, padding=1, bias=False), (2, 5, 5)),
    'c3d': (lambda: nn.Conv2d(2, 3, (3, 2), padding=(2, 1), dilation=2),
            (2, 6, 6)),
    'c3s': (lambda: nn.Conv2d(2, 4, (1, 4), stride=(2, 1)), (2, 6, 6)),
}


def sparse_layer(src):
    from mmrazor.implementations.pruning.sparse_gpt import ops
    cls = ops.SparseGptLinear if isinstance(src, nn.Linear) else \
        ops.SparseGptConv2d
    return filled(cls, src)


def gptq_layer(src):
    from mmrazor.implementations.quantization import gptq
    cls = gptq.GPTQLinear if isinstance(src, nn.Linear) else gptq.GPTQConv2d
    return filled(cls, src)


def filled(cls, src):
    if isinstance(src, nn.Linear):
        op = cls(in_features=src.in_features, out_features=src.out_features,
                 bias=src.bias is not None)
    else:
        op = cls.convert_from(src)
    op.load_state_dict(src.state_dict(), strict=False)
    return op


def rows(src, x):
    """The inputs the rows of the weight are multiplied with."""
    if isinstance(src, nn.Linear):
        return x.reshape(-1, x.shape[-1]).double()
    k = src.weight[0].numel()
    eye = torch.eye(k).reshape(k, *src.weight.shape[1:])
    y = F.conv2d(x, eye, None, src.stride, src.padding, src.dilation)
    return y.permute(0, 2, 3, 1).reshape(-1, k).double()


def history(kind, hist, dead):
    """Calibration batches; dead inputs carry nothing."""
    src, shape = LAYERS[kind]
    out = []
    for i, b in enumerate(hist):
        if b == 'flat':        # a matrix of inputs
            x = gen(7, shape[-1], seed=i)
        elif b == 'deep':
            x = gen(2, 2, *shape, seed=i)
        else:
            x = gen(b, *shape, seed=i)
        x = x + .2
        if len(shape) == 3:
            x[:, list(dead)] = 0
        else:
            x[..., list(dead)] = 0
        out.append(x)
    return out


def hessian(src, xs):
    h = sum(2 * rows(src, x).T @ rows(src, x) for x in xs)
    n = sum(1 if x.dim() == 2 else len(x) for x in xs)
    return h / n


def make(kind, conv):
    torch.manual_seed(len(kind) * 7 + 1)
    src = LAYERS[kind][0]()
    return src, conv(src)


def calibrate(ctx, op, src, xs, what):
    op.init_hessian()
    op.register_hessian_hook()
    for x in xs:
        ctx.step()
        with torch.no_grad():
            a, b = op(x), src(x)
        expect(torch.allclose(a, b, atol=1e-5), f'{what}: the layer computes '
               'something else while it records')
    op.remove_hessian_hook()
    expect(not op._forward_pre_hooks and not op._forward_hooks,
           f'{what}: hooks are left')
    want = hessian(src, xs)
    got = op.hessian.double()
    expect(torch.allclose(got, want, rtol=1e-4, atol=1e-4), lambda:
           f'{what}: Hessian is off by {(got - want).abs().max():.3g}')
    with torch.no_grad():
        op(xs[0])
    expect(torch.equal(op.hessian.double(), got),
           f'{what}: still records')
    # afresh
    op.init_hessian()
    op.register_hessian_hook()
    with torch.no_grad():
        for x in reversed(xs):
            op(x)
    op.remove_hessian_hook()
    expect(torch.allclose(op.hessian.double(), got, rtol=1e-4, atol=1e-4),
           f'{what}: the second calibration gives another Hessian')


# ---- optimal brain surgery by elimination ----------------------------------
def prepared(src, xs, damp):
    w = src.weight.detach().flatten(1).double().clone()
    h = hessian(src, xs)
    dead = h.diag() == 0
    h[dead, dead] = 1
    w[:, dead] = 0
    h = h + damp * h.diag().mean() * torch.eye(len(h)).double()
    return w, h


def inverse_tails(h):
    """For every column the inverse Hessian of it and all later ones."""
    return [torch.linalg.inv(h[j:, j:]) for j in range(len(h))]


def surgery(w, h, block, decide):
    """Columns in order; the rest makes up for what is lost."""
    tails = inverse_tails(h)
    d = torch.stack([t[0, 0] for t in tails])
    cost = 0
    n = w.shape[1]
    for i1 in range(0, n, block):
        i2 = min(n, i1 + block)
        start = w.clone()
        for j in range(i1, i2):
            q = decide(w, start, d, i1, i2, j)
            err = w[:, j] - q
            cost = cost + (err**2 / d[j]).sum() / 2
            w[:, j:] -= err[:, None] * (tails[j][0] / d[j])[None]
            w[:, j] = q
    return w, cost


def clear(values, k, tol=1e-3):
    """The k smallest are clearly smaller than the others."""
    v = values.sort()[0]
    if 0 < k < len(v) and v[k] - v[k - 1] <= tol * v[k]:
        raise Tie


def sparse_reference(src, xs, sparsity, n, m, block, damp):
    w, h = prepared(src, xs, damp)
    state = {}

    def decide(w, start, d, i1, i2, j):
        if n == 0:
            if j == i1:
                s = start[:, i1:i2]**2 / d[i1:i2]
                k = min(int(s.numel() * sparsity), s.numel() - 1) + 1
                v = s.flatten()
                if (v == 0).sum() < k:
                    clear(v[v > 0], int(k - (v == 0).sum()))
                    t = v.sort()[0][k - 1]
                    state['m'] = s <= t * (1 + 1e-4)
                else:
                    state['m'] = s == 0
        elif (j - i1) % m == 0:
            s = w[:, j:min(j + m, i2)]**2 / d[j:min(j + m, i2)]
            mask = state.setdefault('m', None)
            if j == i1:
                mask = torch.zeros(w.shape[0], i2 - i1).bool()
            for r in range(len(s)):
                live = s[r][s[r] > 0]
                z = len(s[r]) - len(live)
                if z < n:
                    clear(live, n - z)
                idx = s[r].argsort()[:n]
                mask[r, j - i1 + idx] = True
            state['m'] = mask
        return torch.where(state['m'][:, j - i1],
                           torch.zeros(()).double(), w[:, j])
    return surgery(w, h, block, decide)


def scope_sparse(ctx, case):
    """Prune a layer: zeros, compensation, error and statistics."""
    kind, hist, dead, sparsity, n, m, block, damp = case
    src, op = make(kind, sparse_layer)
    xs = history(kind, hist, dead)
    calibrate(ctx, op, src, xs, f'{case}')
    ctx.step()
    h = op.hessian.clone()
    err = op.prune(sparsity, prunen=n, prunem=m, blocksize=block,
                   percdamp=damp)
    got = op.weight.detach().flatten(1).double()
    expect(torch.equal(h, op.hessian), f'{case}: changed the statistics')
    if op.bias is not None:
        expect(torch.equal(op.bias, src.bias), f'{case}: changed the bias')
    zero = got == 0
    if n:
        for i1 in range(0, got.shape[1], block):
            b = zero[:, i1:i1 + block]
            for j in range(0, b.shape[1] - m + 1, m):
                expect((b[:, j:j + m].sum(1) >= n).all(),
                       f'{case}: fewer than {n} of {m} are removed')
    else:
        expect(zero.double().mean() >= sparsity,
               f'{case}: removed only {zero.double().mean():.3g}')
    try:
        want, cost = sparse_reference(src, xs, sparsity, n, m, block, damp)
    except Tie:
        return
    expect(torch.equal(zero, want == 0), lambda: f'{case}: removed '
           f'{zero.int().tolist()}, expected {(want == 0).int().tolist()}')
    expect(torch.allclose(got, want, rtol=2e-3, atol=2e-3), lambda:
           f'{case}: weights are off by {(got - want).abs().max():.3g}')
    expect(abs(err - cost) <= 1e-2 * cost + 1e-4,
           lambda: f'{case}: reports {err}, expected {cost}')
    # once more, from the same statistics
    op.load_state_dict(src.state_dict(), strict=False)
    op.prune(sparsity, prunen=n, prunem=m, blocksize=block, percdamp=damp)
    again = op.weight.detach().flatten(1).double()
    expect(torch.equal(again, got), f'{case}: another result the second time')
    ctx.state((kind, hist, dead, sparsity, n, m, block))


# ---- quantizers ------------------------------------------------------------
def qparams(r, cfg):
    """Scale and zero point of one row."""
    bits, sym = cfg['bits'], cfg.get('sym', True)
    top = 2**bits - 1
    lo, hi = min(0, r.min().item()), max(0, r.max().item())
    if sym:
        hi = max(-lo, hi)
        lo = -hi if lo < 0 else lo
    if lo == hi == 0:
        lo, hi = -1, 1
    best = math.inf
    scale = (hi - lo) / top
    zero = (top + 1) / 2 if sym else near(-lo / scale)
    out = scale, zero
    if cfg.get('mse'):
        grid, most = cfg.get('grid', 100), cfg.get('maxshrink', .8)
        errs = []
        for i in range(int(most * grid)):
            p = 1 - i / grid
            s = p * (hi - lo) / top
            z = zero if sym else near(-p * lo / s, None)
            e = sum(abs(quantized(v, s, z, top, None) - v)**cfg.get(
                'norm', 2.4) for v in r.tolist())
            errs.append(e)
            if e < best:
                best, out = e, (s, z)
        if sum(e <= best * (1 + 1e-3) + 1e-12 for e in errs) > 1:
            raise Tie
    return out


def near(v, tol=1e-3):
    """Round half to even; ties are not compared."""
    if tol and abs(abs(v - math.floor(v)) - .5) < tol:
        raise Tie
    return round(v)


def quantized(v, scale, zero, top, tol=1e-3):
    q = min(max(near(v / scale, tol) + zero, 0), top)
    return scale * (q - zero)


def scope_quantizer(ctx, case):
    """Every small tensor, per tensor and per channel."""
    from mmrazor.implementations.quantization.gptq import Quantizer
    shape, values, cfg, weight = case
    x = torch.tensor(values).float().reshape(shape)
    q = Quantizer()
    q.configure(**cfg)
    expect(torch.equal(q.quantize(x), x), f'{case}: quantizes too early')
    q.find_params(x.clone(), weight=weight)
    ctx.step()
    got = q.quantize(x)
    ch = 0 if weight else {2: 1, 3: 2, 4: 1}[len(shape)]
    by = x.movedim(ch, 0).flatten(1)
    if not cfg['perchannel']:
        by = x.flatten()[None]
    top = 2**cfg['bits'] - 1
    try:
        ps = [qparams(r, cfg) for r in by.double()]
        if not cfg['perchannel']:
            ps = ps * shape[ch]
        want = torch.stack([torch.tensor([
            quantized(v, s, z, top) for v in r]) for (s, z), r in zip(
                ps, x.movedim(ch, 0).flatten(1).tolist())])
    except Tie:
        return
    want = want.reshape(x.movedim(ch, 0).shape).movedim(0, ch)
    expect(got.shape == x.shape and torch.allclose(got, want, atol=1e-4),
           f'{case}: gives {got.tolist()}, expected {want.tolist()}')
    expect(q.scale.numel() == shape[ch] and torch.allclose(
        q.scale.flatten(), torch.tensor([s for s, _ in ps]).float()),
        f'{case}: scale {q.scale}, expected {ps}')
    ctx.state(case)


def gptq_reference(src, xs, cfg, block, damp, group, actorder):
    full = src.weight.detach().flatten(1).double()
    w, h = prepared(src, xs, damp)
    n = w.shape[1]
    perm = torch.arange(n)
    top = 2**cfg['bits'] - 1
    if actorder:
        perm = hessian_order(src, xs)
        w, h = w[:, perm], h[perm][:, perm]
    state = dict(p=params(full, cfg))
    groups = []

    def decide(w, start, d, i1, i2, j):
        if group != -1 and j % group == 0:
            # of the weights as they were before this block
            state['p'] = params(start[:, j:j + group], cfg)
            groups.append(state['p'])
        return torch.tensor([
            quantized(v, s, z, top)
            for v, (s, z) in zip(w[:, j].tolist(), state['p'])]).double()
    w, cost = surgery(w, h, block, decide)
    out = torch.empty_like(w)
    out[:, perm] = w
    return out, cost, groups or [state['p']], perm


def hessian_order(src, xs):
    h = hessian(src, xs).diag().clone()
    h[h == 0] = 1
    v, i = h.sort(descending=True)
    if ((v[:-1] - v[1:]) <= 1e-3 * v[:-1]).any():
        raise Tie
    return i


def params(w, cfg):
    if cfg['perchannel']:
        return [qparams(r, cfg) for r in w]
    return [qparams(w.flatten(), cfg)] * len(w)


def scope_gptq(ctx, case):
    """Quantize a layer column by column."""
    from mmrazor.implementations.quantization.gptq import Quantizer
    kind, hist, dead, cfg, block, damp, group, actorder = case
    cfg = dict(cfg)
    src, op = make(kind, gptq_layer)
    xs = history(kind, hist, dead)
    calibrate(ctx, op, src, xs, f'{case}')
    q = Quantizer()
    q.configure(**cfg)
    h = op.hessian.clone()
    ctx.step()
    err = op.quant(quantizer=q, blocksize=block, percdamp=damp,
                   groupsize=group, actorder=actorder)
    expect(torch.equal(h, op.hessian), f'{case}: changed the statistics')
    got = op.weight.detach().flatten(1).double()
    top = 2**cfg['bits'] - 1
    for r in got:
        expect(group != -1 or len(set(
            round(v, 4) for v in r.tolist())) <= top + 1,
            f'{case}: a row of {len(set(r.tolist()))} levels')
    try:
        want, cost, _, _ = gptq_reference(src, xs, cfg, block, damp, group,
                                          actorder)
    except Tie:
        return
    expect(torch.allclose(got, want, rtol=2e-3, atol=2e-3), lambda:
           f'{case}: weights are off by {(got - want).abs().max():.3g}')
    expect(abs(err - cost) <= 1e-2 * cost + 1e-4,
           lambda: f'{case}: reports {err}, expected {cost}')
    op.free()
    expect(op._hessian is None, f'{case}: statistics are kept')
    ctx.state((kind, hist, dead, tuple(cfg.items()), block, group, actorder))


def scope_pack(ctx, case):
    """What the custom kernel gets stands for the quantized weights."""
    from mmrazor.implementations.quantization.gptq import (Quantizer,
                                                           TritonGPTQLinear)
    bits, nin, nout, group, actorder, seed = case
    torch.manual_seed(seed)
    src = nn.Linear(nin, nout)
    plain = gptq_layer(src)
    op = TritonGPTQLinear.convert_from(copy.deepcopy(src), bits, group)
    x = gen(40, 3, nin, seed=seed + 5) * torch.linspace(.5, 1.5, nin)
    for o in (plain, op):
        o.init_hessian()
        o.register_hessian_hook()
        with torch.no_grad():
            expect(torch.allclose(o(x), src(x), atol=1e-5),
                   f'{case}: computes something else before')
        o.remove_hessian_hook()
        q = Quantizer()
        q.configure(bits=bits, perchannel=True, sym=False)
        o.quant(quantizer=q, groupsize=group, actorder=actorder)
        ctx.step()
    per = 32 // bits
    k = torch.arange(nin)
    qw = op.qweight[k // per] >> ((k % per) * bits)[:, None] & (2**bits - 1)
    c = torch.arange(nout)
    z = (op.qzeros[:, c // per] >> ((c % per) * bits) & (2**bits - 1)) + 1
    g = op.g_idx.long()
    w = (qw - z[g]).float() * op.scales.float()[g]
    got, want = w.t(), plain.weight.detach()
    expect(torch.allclose(got, want, rtol=2e-3, atol=2e-3), lambda:
           f'{case}: stands for weights {(got - want).abs().max():.3g} away')
    ctx.state(case)


# ---- whole networks --------------------------------------------------------
class Mlp(nn.Module):

    def __init__(self, shape):
        super().__init__()
        torch.manual_seed(2)
        self.stem = nn.Sequential(nn.Conv2d(3, 4, 2, padding=1), nn.ReLU())
        self.dw = nn.Conv2d(4, 4, 3, padding=1, groups=4)
        self.inner = nn.ModuleDict(dict(
            pw=nn.Conv2d(4, 8, 1, bias=False), bn=nn.BatchNorm2d(8)))
        self.up = nn.Linear(8, 8)
        self.down = nn.Linear(8, 5)
        self.shape = shape
        self.twin = nn.ModuleList([self.up] if 'twin' in shape else [])
        if 'twin' in shape:
            self.again = self.inner['pw']
        if 'frozen' in shape:
            for p in self.stem.parameters():
                p.requires_grad_(False)
        self.eval()

    def forward(self, x):
        x = self.stem(x)
        x = F.relu(self.inner['bn'](self.inner['pw'](self.dw(x) + x)))
        if 'twin' in self.shape:
            x = F.relu(self.again(x[:, :4]) + x)
        if 'deep' in self.shape:
            x = self.up(x.permute(0, 2, 3, 1)).mean((1, 2))
        else:
            x = self.up(x.mean((2, 3)))
        for t in self.twin:
            x = t(F.relu(x))
        return self.down(F.relu(x))


def plain_types(net):
    return {n: type(m) for n, m in net.named_modules(remove_duplicate=False)}


def scope_net(ctx, case):
    """Through the compressor and back to plain layers."""
    method, shape, conv, linear, skip, batches = case
    from mmrazor.implementations.pruning.sparse_gpt import SparseGptCompressor
    from mmrazor.implementations.quantization.gptq import GPTQCompressor
    src = Mlp(shape)
    net = copy.deepcopy(src)
    xs = [gen(b, 3, 4, 4, seed=i) for i, b in enumerate(batches)]
    logging.getLogger().setLevel(logging.WARNING)
    if method == 'gptq':
        comp = GPTQCompressor()
        comp.prepare(net, quant_conv=conv, quant_linear=linear,
                     use_triton_ops=False, skipped_layers=list(skip))
        ops = dict(comp.named_quant_ops)
    else:
        comp = SparseGptCompressor()
        comp.prepare(net, prune_conv=conv, prune_linear=linear)
        ops = dict(comp.named_sparse_ops)
    want = [n for n, m in src.named_modules() if n not in skip and (
        conv and type(m) is nn.Conv2d and m.groups == 1 or
        linear and type(m) is nn.Linear and (
            method == 'gptq' or m.out_features >= m.in_features))]
    expect(sorted(ops) == sorted(want),
           f'{case}: compresses {sorted(ops)}, expected {sorted(want)}')
    same_sharing(src, net, case)
    comp.init_hessian()
    comp.register_hessian_hooks()
    seen = {n: [] for n in want}
    hooks = [src.get_submodule(n).register_forward_pre_hook(
        lambda m, a, n=n: seen[n].append(a[0])) for n in want]
    with torch.no_grad():
        for x in xs:
            ctx.step()
            a, b = net(x), src(x)
            expect(torch.allclose(a, b, atol=1e-5),
                   f'{case}: prepared, it computes something else')
    for h in hooks:
        h.remove()
    comp.remove_hessian_hooks()
    if method == 'gptq':
        comp.quant_with_default_qconfig(groupsize=4)
    elif method == 'sparse24':
        comp.prune_24(device='cpu')
    else:
        comp.prune(.5, device='cpu')
    ctx.step()
    for n in want:
        m = src.get_submodule(n)
        got = ops[n].weight.detach().flatten(1).double()
        try:
            if method == 'gptq':
                ref = gptq_reference(m, seen[n], dict(
                    bits=4, perchannel=True, sym=False), 128, .01, 4,
                    True)[0]
            else:
                ref = sparse_reference(
                    m, seen[n], .5, *((2, 4) if method == 'sparse24' else
                                      (0, 0)), 128, .01)[0]
        except Tie:
            continue
        expect(torch.allclose(got, ref, rtol=5e-3, atol=5e-3), lambda:
               f'{case}: {n} is off by {(got - ref).abs().max():.3g}')
    for n, m in src.named_modules():
        if n not in want and isinstance(m, (nn.Linear, nn.Conv2d)):
            expect(torch.equal(m.weight, net.get_submodule(n).weight),
                   f'{case}: {n} was changed')
    with torch.no_grad():
        y = net(xs[0])
        static = type(comp).to_static_model(net)
        expect(torch.allclose(static(xs[0]), y, atol=1e-5),
               f'{case}: cut back, it computes something else')
    expect(plain_types(static) == plain_types(src),
           f'{case}: leaves {plain_types(static)}')
    ctx.state(case)


def same_sharing(a, b, case):
    names = plain_types(a)

    def ids(net):
        first = {}
        return {n: first.setdefault(id(m), n) for n, m in
                net.named_modules(remove_duplicate=False) if n in names}
    expect(ids(a) == ids(b), f'{case}: other layers are shared: {ids(b)}')


def scope_fail(ctx, case):
    """A layer that cannot be compressed keeps its weights."""
    method, kind, bad = case
    from mmrazor.implementations.pruning.sparse_gpt import SparseGptCompressor
    from mmrazor.implementations.quantization.gptq import GPTQCompressor
    logging.getLogger().setLevel(logging.WARNING)
    net = nn.Sequential(nn.Linear(8, 8), nn.ReLU(), nn.Linear(8, 8))
    src = copy.deepcopy(net)
    x = gen(3, 9, 8)
    x[..., 2] = 0
    if method == 'gptq':
        comp = GPTQCompressor()
        comp.prepare(net, use_triton_ops=False)
    else:
        comp = SparseGptCompressor()
        comp.prepare(net)
    comp.init_hessian()
    comp.register_hessian_hooks()
    with torch.no_grad():
        net(x)
    comp.remove_hessian_hooks()
    h = net[bad]._hessian
    if kind == 'nan':
        h[0, 0] = math.nan
    elif kind == 'negative':
        h[3, 3] = -5 * h.diag().sum()
    else:
        net[bad]._hessian = None
    ctx.step()
    if method == 'gptq':
        comp.quant_with_default_qconfig()
    else:
        comp.prune(.5, device='cpu')
    expect(torch.get_default_dtype() is torch.float32,
           f'{case}: leaves another default type')
    expect(torch.equal(net[bad].weight, src[bad].weight),
           f'{case}: a failed layer was changed')
    expect(not torch.equal(net[2 - bad].weight, src[2 - bad].weight),
           f'{case}: the other layer was left out')
    ctx.state(case)


def scope_memory(ctx, case):
    """Moving modules in and out changes nothing."""
    from mmrazor.implementations.pruning.sparse_gpt.utils import \
        memory_efficient_forward
    shape, enabled, wrap, fail = case
    src = Mlp(shape)
    net = copy.deepcopy(src)
    x = gen(2, 3, 4, 4)
    ctx.step()
    try:
        with memory_efficient_forward(net, enabled, torch.device('cpu'),
                                      [nn.ModuleDict] if wrap else []):
            with torch.no_grad():
                y = net(x)
            if fail:
                raise KeyError
    except KeyError:
        expect(fail, f'{case}: failed')
    expect(torch.allclose(y, src(x), atol=1e-5), f'{case}: computes '
           'something else')
    for n, m in net.named_modules():
        expect(not m._forward_hooks and not m._forward_pre_hooks,
               f'{case}: hooks are left on {n}')
    ctx.state(case)


def run(ctx):
    hists = {False: ((3, ), (1, 2, 4), ('flat', ), ('flat', 2),
                     ('deep', 1)), True: ((2, ), (1, 3))}
    cases, gcases = [], []
    modes = [(s, 0, 0) for s in (0, .3, .5, .75)] + [
        (.5, 2, 4), (.5, 1, 2), (.25, 1, 4)]
    qcfgs = [tuple(dict(bits=b, perchannel=p, sym=s, mse=m).items())
             for b in (2, 3, 4, 8) for p in (True, False)
             for s in (True, False) for m in (False, True)
             if not (m and b in (3, 8))]
    i = 0
    for kind in LAYERS:
        conv = kind[0] == 'c'
        for hist, dead, mode, block in itertools.product(
                hists[conv], ((), (1, ), (0, )), modes, (4, 8, 128)):
            i += 1
            if not ctx.thorough and i % 5 or mode[2] == 4 and \
                    kind in ('lin0', 'c3'):
                continue       # n:m needs a multiple of m columns
            cases.append((kind, hist, dead) + mode + (
                block, (.01, .1)[i % 2]))
        for hist, dead, cfg, block, group, act in itertools.product(
                hists[conv], ((), (1, )), qcfgs, (4, 128),
                (-1, 2, 4, 8), (False, True)):
            i += 1
            if i % (7 if ctx.thorough else 67):
                continue
            gcases.append((kind, hist, dead, cfg, block, (.01, .1)[i % 2],
                           group, act))
    ctx.parallel('sparse', cases, lambda c: scope_sparse(ctx, c))
    ctx.parallel('gptq', gcases, lambda c: scope_gptq(ctx, c))
    qs = []
    menu = (-1.25, 0., .4, 3.)
    for shape, weight in (((2, 2), True), ((2, 2), False), ((1, 2, 2), False),
                          ((1, 2, 1, 2), False), ((2, 1, 2, 1), True)):
        for v in itertools.product(menu, repeat=4):
            for cfg in qcfgs:
                cfg = dict(cfg)
                if cfg['mse'] and not (ctx.thorough and weight):
                    continue
                qs.append((shape, v, cfg, weight))
    if not ctx.thorough:
        qs = [q for j, q in enumerate(qs) if j % 3 == 0]
    ctx.parallel('quantizer', qs, lambda c: scope_quantizer(ctx, c))
    packs = list(itertools.product((2, 4, 8), (32, 64), (32, 64),
                                   (-1, 16, 32), (False, True),
                                   range(4 if ctx.thorough else 1)))
    ctx.parallel('pack', packs, lambda c: scope_pack(ctx, c))
    nets = []
    for method, shape, conv, linear, skip in itertools.product(
            ('sparse', 'sparse24', 'gptq'),
            ((), ('twin', ), ('deep', ), ('twin', 'deep'), ('frozen', )),
            (True, False), (True, False),
            ((), ('up', ), ('stem.0', 'down'))):
        if skip and method != 'gptq' or 'twin' in shape and 'up' in skip:
            continue
        nets += [(method, shape, conv, linear, skip, b)
                 for b in ((3, ), (2, 5))]
    ctx.parallel('net', nets, lambda c: scope_net(ctx, c))
    ctx.parallel('fail', list(itertools.product(
        ('gptq', 'sparse'), ('nan', 'negative', 'none'), (0, 2))),
        lambda c: scope_fail(ctx, c))
    ctx.parallel('memory', list(itertools.product(
        ((), ('twin', ), ('deep', )), (True, False), (True, False),
        (True, False))), lambda c: scope_memory(ctx, c))
