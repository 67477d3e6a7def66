"""Small convolutional programs and their reference channel semantics.

A program is a tuple of steps over one running tensor; ``Net(prog, head)``
builds it, ``classes`` says (from the meaning of the steps alone) which
channels must be kept or dropped together, and ``masked`` runs the unpruned
network with every dropped channel zeroed.
"""
import itertools

import torch
import torch.nn.functional as F
from torch import nn

W = 4
# step -> layers: (suffix, kind, in, out); c is the running width
STEPS = ('conv', 'cbr', 'dw', 'gw', 'bn', 'res', 'res2', 'cat', 'cat2',
         'share', 'pool', 'gate', 'gn', 'catres', 'drop')
MORE = STEPS + ('twice', 'trio')    # fed by itself; used three times
HEADS = ('conv', 'linear', 'flat', 'two', 'res', 'cat')


class Net(nn.Module):

    def __init__(self, prog, head='conv', seed=0):
        super().__init__()
        torch.manual_seed(seed)
        self.prog, self.head_kind = tuple(prog), head
        self.stem = nn.Conv2d(3, W, 1)
        self.mods = nn.ModuleDict()
        c = W
        for i, op in enumerate(prog):
            n = f's{i}'

            def conv(name, ci, co, **k):
                self.mods[n + name] = nn.Conv2d(ci, co, 1, **k)

            if op == 'conv':
                conv('a', c, W)
                c = W
            elif op == 'cbr':
                self.mods[n + 'a'] = nn.Conv2d(c, W, 3, padding=1, bias=False)
                self.mods[n + 'b'] = nn.BatchNorm2d(W)
                c = W
            elif op == 'dw':
                conv('a', c, c, groups=c)
            elif op == 'gw':
                conv('a', c, c, groups=2)
            elif op == 'bn':
                self.mods[n + 'b'] = nn.BatchNorm2d(c)
            elif op == 'gn':
                self.mods[n + 'b'] = nn.GroupNorm(2, c)
            elif op == 'res':
                conv('a', c, c)
            elif op == 'res2':
                conv('a', c, W)
                conv('b', c, W)
                c = W
            elif op == 'cat':
                conv('a', c, 2)
                c += 2
            elif op == 'cat2':
                conv('a', c, 2)
                conv('b', c, 2)
                c = 4
            elif op == 'catres':
                conv('a', c, 2)
                conv('b', c, 2)
                conv('c', c, 4)
                c = 4
            elif op == 'share':
                conv('a', c, W)
                conv('b', c, W)
                conv('c', W, W)
                c = W
            elif op in ('gate', 'twice'):
                conv('a', c, c)
            elif op == 'trio':
                for k in 'abd':
                    conv(k, c, W)
                conv('c', W, W)
                for k in 'efg':
                    conv(k, W, W)
                c = W
        self.width = c
        if head == 'linear':
            self.head = nn.Linear(c, 3)
        elif head == 'flat':
            self.head = nn.Linear(c * 9, 3)
        elif head != 'two':
            self.head = nn.Conv2d(c, c if head == 'res' else 3, 1)
        else:
            self.head = nn.Conv2d(c, 3, 1)
            self.head2 = nn.Conv2d(c, 2, 1)
        for m in self.modules():
            if isinstance(m, (nn.BatchNorm2d, nn.GroupNorm)):
                m.weight.data = torch.rand_like(m.weight) + .5
                m.bias.data = torch.randn_like(m.bias)
            if isinstance(m, nn.BatchNorm2d):
                m.running_mean.normal_()
                m.running_var.uniform_(.5, 1.5)

    def forward(self, x):
        x = F.relu(self.stem(x))
        for i, op in enumerate(self.prog):
            def g(k):
                return self.mods[f's{i}{k}']
            if op in ('conv', 'dw', 'gw'):
                x = F.relu(g('a')(x))
            elif op == 'cbr':
                x = F.relu(g('b')(g('a')(x)))
            elif op in ('bn', 'gn'):
                x = F.relu(g('b')(x))
            elif op == 'res':
                x = x + g('a')(x)
            elif op == 'res2':
                x = g('a')(x) + g('b')(x)
            elif op == 'cat':
                x = torch.cat([x, g('a')(x)], 1)
            elif op == 'cat2':
                x = torch.cat([g('a')(x), g('b')(x)], 1)
            elif op == 'catres':
                x = torch.cat([g('a')(x), g('b')(x)], 1) + g('c')(x)
            elif op == 'share':
                x = g('c')(g('a')(x)) + g('c')(g('b')(x))
            elif op == 'gate':
                x = x * g('a')(x)
            elif op == 'twice':
                x = F.relu(g('a')(F.relu(g('a')(x))))
            elif op == 'trio':
                x = sum(g(q)(g('c')(g(p)(x)))
                        for p, q in (('a', 'e'), ('b', 'f'), ('d', 'g')))
            elif op == 'pool':
                x = F.max_pool2d(x, 3, 1, 1)
            elif op == 'drop':
                x = F.dropout(F.leaky_relu(x), .5, self.training)
        k = self.head_kind
        if k == 'linear':
            return self.head(F.adaptive_avg_pool2d(x, 1).flatten(1))
        if k == 'flat':
            return self.head(x.flatten(1))
        if k == 'two':
            return self.head(x), self.head2(x)
        if k == 'res':
            return x + self.head(x)
        if k == 'cat':
            return torch.cat([x, self.head(x)], 1)
        return self.head(x)


class UF:

    def __init__(self):
        self.p = {}

    def find(self, a):
        self.p.setdefault(a, a)
        while self.p[a] != a:
            self.p[a] = self.p[self.p[a]]
            a = self.p[a]
        return a

    def union(self, a, b):
        self.p[self.find(a)] = self.find(b)


def classes(net):
    """{(module, 'in'|'out', index): class}; class None = must be kept."""
    uf, slots, n = UF(), {}, itertools.count()

    def fresh(k):
        return [next(n) for _ in range(k)]

    def tie(xs, ys):
        assert len(xs) == len(ys)
        for a, b in zip(xs, ys):
            uf.union(a, b)

    def put(name, side, t):
        for i, e in enumerate(t):
            key = (name, side, i)
            if key in slots:
                uf.union(slots[key], e)
            slots[key] = e

    def conv(name, x, co, kind='conv'):
        put(name, 'in', x)
        if kind == 'dw':
            y = x
        else:
            y = fresh(co)
            if kind == 'gw':
                for t in (x, y):
                    h = len(t) // 2
                    tie(t[:h], t[h:])
        put(name, 'out', y)
        return y

    KEEP = 'keep'
    inp = fresh(3)
    for e in inp:
        uf.union(e, KEEP)
    x = conv('stem', inp, W)
    for i, op in enumerate(net.prog):
        m = f'mods.s{i}'
        c = len(x)
        if op in ('conv', 'cbr'):
            x = conv(m + 'a', x, W)
            if op == 'cbr':
                put(m + 'b', 'in', x)
                put(m + 'b', 'out', x)
        elif op in ('dw', 'gw'):
            x = conv(m + 'a', x, c, op)
        elif op == 'bn':
            put(m + 'b', 'in', x)
            put(m + 'b', 'out', x)
        elif op == 'gn':     # statistics mix channels: cannot be cut
            for e in x:
                uf.union(e, KEEP)
        elif op in ('res', 'gate', 'twice'):
            tie(x, conv(m + 'a', x, c))
        elif op == 'res2':
            a, b = conv(m + 'a', x, W), conv(m + 'b', x, W)
            tie(a, b)
            x = a
        elif op == 'cat':
            x = x + conv(m + 'a', x, 2)
        elif op == 'cat2':
            x = conv(m + 'a', x, 2) + conv(m + 'b', x, 2)
        elif op == 'catres':
            y = conv(m + 'a', x, 2) + conv(m + 'b', x, 2)
            tie(y, conv(m + 'c', x, 4))
            x = y
        elif op == 'share':
            a, b = conv(m + 'a', x, W), conv(m + 'b', x, W)
            y1 = conv(m + 'c', a, W)
            put(m + 'c', 'in', b)
            x = y1
        elif op == 'trio':
            mid = fresh(W)
            ys = []
            for p, q in (('a', 'e'), ('b', 'f'), ('d', 'g')):
                put(m + 'c', 'in', conv(m + p, x, W))
                put(m + 'c', 'out', mid)
                ys.append(conv(m + q, mid, W))
            tie(ys[0], ys[1])
            tie(ys[1], ys[2])
            x = ys[0]
    k = net.head_kind
    outs = []
    if k == 'flat':
        put('head', 'in', [e for e in x for _ in range(9)])
        outs = fresh(3)
        put('head', 'out', outs)
    else:
        y = conv('head', x, len(x) if k == 'res' else 3)
        outs = list(y)
        if k == 'two':
            outs += conv('head2', x, 2)
        if k in ('res', 'cat'):
            outs += x
    for e in outs:
        uf.union(e, KEEP)
    keep = uf.find(KEEP)
    out = {s: uf.find(e) for s, e in slots.items()}
    return {s: (None if r == keep else r) for s, r in out.items()}


def masked(net, keep, x):
    """Unpruned forward with output channels outside ``keep`` zeroed.
    ``keep(module name) -> bool list`` or None."""
    hooks = []
    for name, m in net.named_modules():
        if isinstance(m, (nn.Conv2d, nn.BatchNorm2d, nn.Linear)):
            k = keep(name)
            if k is None:
                continue
            k = torch.tensor(k).float()

            def hook(mod, a, y, k=k):
                return y * (k.view(1, -1, 1, 1) if y.dim() == 4 else k)

            hooks.append(m.register_forward_hook(hook))
    try:
        with torch.no_grad():
            return net(x)
    finally:
        for h in hooks:
            h.remove()


def flat(y):
    return y if isinstance(y, (tuple, list)) else (y, )


def cut(y, keep_out):
    return y


def programs(depth, ops=STEPS, exact=False):
    for d in range(depth if exact else 0, depth + 1):
        yield from itertools.product(ops, repeat=d)
