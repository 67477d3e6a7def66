"""Searchable backbones: every choice runs the network it describes."""
import copy
import itertools

import torch
import torch.nn.functional as F
from torch import nn

from mc.core import Violation, expect
from mc.props import P08

RULE = ('every subnet of each searchable backbone in small search spaces x '
        'evaluation and training x input sizes; every setting of frozen '
        'stages and norms; non-trivial: a subnet smaller than the supernet '
        'or a frozen stage')
ASSUMPTIONS = ['outputs are compared with a tolerance of 1e-4',
               'without attentive shortcuts, stages of equal maximal width '
               'have that single width']

ACTS = {'Swish': lambda x: x * torch.sigmoid(x), 'ReLU': F.relu,
        'ReLU6': F.relu6, 'HSwish': F.hardswish, None: lambda x: x}


def gen(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed))


def build(cfg):
    import mmcls.models  # noqa
    import mmrazor.models  # noqa
    from mmrazor.registry import MODELS
    torch.manual_seed(5)
    m = MODELS.build(cfg)
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.copy_(torch.randn(p.shape) / max(1, p[0].numel())**.5
                    if p.dim() > 1 else torch.randn(p.shape) * .3 + 1
                    if n.endswith('weight') else torch.randn(p.shape) * .3)
        for b in m.modules():
            if isinstance(b, nn.modules.batchnorm._BatchNorm):
                b.running_mean.normal_()
                b.running_var.uniform_(.5, 2)
    return m


def same(got, want, what):
    got, want = list(got), list(want)
    expect(len(got) == len(want), f'{what}: {len(got)} outputs, expected '
           f'{len(want)}')
    for i, (a, b) in enumerate(zip(got, want)):
        expect(a.shape == b.shape, lambda: f'{what}: output {i} has shape '
               f'{tuple(a.shape)}, expected {tuple(b.shape)}')
        expect(torch.allclose(a, b, rtol=1e-4, atol=1e-4),
               lambda: f'{what}: output {i} is off by '
               f'{(a - b).abs().max():.3g}')


def run_net(m, x, training):
    """Outputs, without a trace in the norms."""
    keep = {n: b.clone() for n, b in m.named_buffers()}
    was = [(k, k.training) for k in m.modules()]
    m.train(training)
    with torch.no_grad():
        torch.manual_seed(1)
        out = m(x)
    for n, b in m.named_buffers():
        b.data.copy_(keep[n])
    for k, t in was:
        k.training = t
    return out


# ---- reference layers ------------------------------------------------------
def crop(w, k):
    if k is None:
        return w
    a = (w.shape[-1] - k) // 2
    return w[..., a:a + k, a:a + k]


def conv(c, x, co=None, k=None, depthwise=False, stride=1, dilation=1):
    """The first channels and the centre of a kernel."""
    w = c.weight
    co = w.shape[0] if co is None else co
    w = crop(w[:co] if depthwise else w[:co, :x.shape[1]], k)
    return F.conv2d(x, w, None if c.bias is None else c.bias[:co],
                    stride=stride, padding=dilation * (w.shape[-1] // 2),
                    dilation=dilation, groups=co if depthwise else 1)


def norm(b, x, training):
    c = x.shape[1]
    return F.batch_norm(
        x, None if training else b.running_mean[:c],
        None if training else b.running_var[:c],
        None if b.weight is None else b.weight[:c],
        None if b.bias is None else b.bias[:c], training, eps=b.eps)


def cm(m, x, act, training, **kw):
    return ACTS[act](norm(m.bn, conv(m.conv, x, **kw), training))


def divisible(v, d):
    n = max(d, int(v + d / 2) // d * d)
    return n + d if n < .9 * v else n


def mb(block, x, o, act, training):
    """o: out, kernel, expand, stride, se (hidden width or None), shortcut"""
    ci = x.shape[1]
    mid = ci * o['expand']
    y = x
    if o['has_expand']:
        y = cm(block.expand_conv, y, act, training, co=mid)
    y = cm(block.depthwise_conv, y, act, training, co=mid, k=o['kernel'],
           depthwise=True, stride=o['stride'])
    if o['se']:
        s = y.mean((2, 3), keepdim=True)
        s = F.relu(conv(block.se.conv1.conv, s, o['se']))
        s = conv(block.se.conv2.conv, s, mid)
        y = y * F.hardsigmoid(s)
    y = cm(block.linear_conv, y, None, training, co=o['out'])
    if o['shortcut'] == 'attentive':
        s = x
        if o['stride'] == 2:
            s = F.avg_pool2d(s, 2, padding=(s.shape[2] % 2, s.shape[3] % 2))
        if ci != o['out']:
            s = conv(block.shortcut.conv, s, o['out'])
        y = s + y
    elif o['shortcut'] == 'plain':
        y = x + y
    return y


def spread(r):
    return list(range(r[0], r[1] + 1, r[2]))


# ---- attentive MobileNetV3 -------------------------------------------------
SPACES = {
    'a': dict(kernel_size=[[3, 5, 2], [3, 7, 4]],
              num_blocks=[[1, 2, 1], [2, 3, 1]],
              expand_ratio=[[1, 1, 1], [2, 3, 1], [2, 2, 1]],
              num_out_channels=[[8, 16, 8], [8, 16, 8], [16, 24, 8],
                                [24, 32, 8]]),
    'b': dict(kernel_size=[[3, 5, 2]], num_blocks=[[1, 2, 1]],
              expand_ratio=[[3, 6, 3], [1, 1, 1]],
              num_out_channels=[[8, 8, 8], [8, 16, 8], [16, 24, 8]]),
    'last': dict(kernel_size=[[3, 5, 2]], num_blocks=[[1, 2, 1]],
                 expand_ratio=[[1, 2, 1], [2, 4, 2]],
                 num_out_channels=[[8, 16, 8], [8, 16, 8], [8, 8, 8]]),
    'flat': dict(kernel_size=[[3, 7, 2], [3, 5, 2]],
                 num_blocks=[[1, 3, 1], [1, 2, 1]],
                 expand_ratio=[[2, 3, 1], [1, 1, 1], [1, 1, 1]],
                 num_out_channels=[[8, 8, 8], [8, 8, 8], [16, 16, 8],
                                   [16, 16, 8]]),
}
# name: space, fine grained, attentive, strides, se, acts, sizes, ratios
MBV3 = {
    'a': ('a', False, True, [1, 2], [True, False],
          ['ReLU', 'Swish', 'HSwish', 'ReLU'], (8, 12)),
    'odd': ('b', False, True, [2], [True], ['Swish'] * 3, (9, 15)),
    'mixed': ('b', True, True, [2], [True], ['Swish'] * 3, (12, 10)),
    'last': ('last', False, True, [1], [False], ['ReLU'] * 3, (8, 8)),
    'plain': ('last', False, False, [1], [False], ['ReLU'] * 3, (8, 8)),
    'flat': ('flat', False, False, [1, 2], [False, True],
             ['HSwish', 'ReLU', 'Swish', 'HSwish'], (12, 8)),
    'fine': ('flat', True, False, [1, 2], [False, False],
             ['ReLU6', 'ReLU', 'Swish', 'HSwish'], (8, 8)),
}


def mbv3_cfg(name, **kw):
    space, fine, att, strides, se, acts, size = MBV3[name]
    n = len(strides)
    return dict(
        type='mmrazor.AttentiveMobileNetV3',
        arch_setting=copy.deepcopy(SPACES[space]),
        out_indices=tuple(range(n + 1)), stride_list=list(strides),
        with_se_list=list(se), act_cfg_list=list(acts),
        fine_grained_mode=fine, with_attentive_shortcut=att,
        conv_cfg=dict(type='mmrazor.BigNasConv2d'),
        norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d'), **kw)


def classifier(backbone, in_channels, connect, neck='GlobalAveragePooling'):
    return dict(
        type='mmrazor.SearchableImageClassifier', backbone=backbone,
        neck=neck and dict(type='mmcls.' + neck), head=dict(
            type='mmrazor.DynamicLinearClsHead', num_classes=3,
            in_channels=in_channels,
            loss=dict(type='mmcls.CrossEntropyLoss')),
        connect_head=dict(connect_with_backbone='backbone.' + connect))


def options(g):
    g = g[0]
    return list(getattr(g, 'candidate_choices', None) or g.choices)


def is_channel(g):
    return hasattr(g[0], 'candidate_choices')


def prepared(cfg):
    from mmrazor.models.mutators import NasMutator
    model = build(cfg)
    m = NasMutator()
    m.prepare_from_supernet(model)
    return model, m


def mbv3_expected(name):
    """The declared space: {role: options}."""
    space, fine, _, strides, se = MBV3[name][:5]
    s = SPACES[space]
    out = {'first': spread(s['num_out_channels'][0]),
           'last': spread(s['num_out_channels'][-1]),
           'last expand': spread(s['expand_ratio'][-1])}
    for i in range(len(strides)):
        out[f'{i} out'] = spread(s['num_out_channels'][i + 1])
        out[f'{i} depth'] = spread(s['num_blocks'][i])
        for k in range(s['num_blocks'][i][1]) if fine else ('all', ):
            out[f'{i}.{k} kernel'] = spread(s['kernel_size'][i])
            out[f'{i}.{k} expand'] = spread(s['expand_ratio'][i])
            if fine and se[i]:
                out[f'{i}.{k} se'] = spread(s['expand_ratio'][i])
    return out


def mbv3_roles(b, name):
    """What the network's parts are now set to."""
    space, fine, _, strides, se = MBV3[name][:5]

    def width(c, side='out_channels'):
        return int(c.get_mutable_attr(side).current_mask.sum())
    out = {'first': width(b.first_conv.conv),
           'last': width(b.last_conv.feature_mix_layer.conv),
           }
    ci = out['first']
    for i in range(len(strides)):
        layer = getattr(b, f'layer{i + 1}')
        out[f'{i} depth'] = layer.mutable_depth.current_choice
        for k, block in enumerate(layer.pure_modules()):
            co = width(block.linear_conv.conv)
            expect(out.setdefault(f'{i} out', co) == co, f'{name}: blocks of '
                   f'stage {i} give {co} and {out[f"{i} out"]} channels')
            mid = width(block.depthwise_conv.conv)
            expect(mid % ci == 0, f'{name}: {mid} of {ci} channels')
            d = {'kernel': block.depthwise_conv.conv.get_mutable_attr(
                'kernel_size').current_choice, 'expand': mid // ci}
            if fine and se[i]:
                d['se'] = [v for v in (spread(SPACES[space]['expand_ratio'][i])
                                       ) if divisible(v * ci / 4, 8) == width(
                                           block.se.conv1.conv)]
            for n, v in d.items():
                key = f'{i}.{k if fine else "all"} {n}'
                expect(out.setdefault(key, v) == v, f'{name}: {key} is both '
                       f'{out[key]} and {v}')
            ci = co
    mid = width(b.last_conv.final_expand_layer.conv)
    out['last expand'] = mid // ci
    return out


def mbv3_reference(b, name, r, x, training):
    space, fine, att, strides, se, acts, _ = MBV3[name]
    s = SPACES[space]
    x = cm(b.first_conv, x, acts[0], training, co=r['first'], stride=2)
    outs = []
    cin = max(spread(s['num_out_channels'][0]))      # widths of the supernet
    for i in range(len(strides)):
        layer = list(getattr(b, f'layer{i + 1}').pure_modules())
        cout = max(spread(s['num_out_channels'][i + 1]))
        for k in range(r[f'{i} depth']):
            key = f'{i}.{k if fine else "all"} '
            e = r[key + 'expand']
            stride = strides[i] if k == 0 else 1
            hid = None
            if se[i]:
                hid = divisible(x.shape[1] * e / 4, 8)
                if fine:
                    hid = divisible(x.shape[1] * r[key + 'se'][0] / 4, 8)
            x = mb(layer[k], x, dict(
                out=r[f'{i} out'], kernel=r[key + 'kernel'], expand=e,
                has_expand=max(spread(s['expand_ratio'][i])) > 1,
                stride=stride, se=hid,
                shortcut='attentive' if att else
                'plain' if stride == 1 and cin == cout else None),
                acts[i + 1], training)
            cin = cout
        outs.append(x)
    act = ACTS[acts[-1]]
    x = cm(b.last_conv.final_expand_layer, x, acts[-1], training,
           co=x.shape[1] * r['last expand'])
    x = x.mean((2, 3), keepdim=True)
    outs.append(act(conv(b.last_conv.feature_mix_layer.conv, x, r['last'])))
    return outs


def product(mut):
    names = list(mut.search_groups)
    for c in itertools.product(*(options(mut.search_groups[n])
                                 for n in names)):
        yield dict(zip(names, c))


def sizes(mut):
    n = 1
    for g in mut.search_groups.values():
        n *= len(options(g))
    return n


def scope_space(ctx, name):
    """The searchable options are the declared ones."""
    cfg = mbv3_cfg(name)
    before = copy.deepcopy(cfg)
    last = SPACES[MBV3[name][0]]['num_out_channels'][-1][1]
    n = len(MBV3[name][3])
    bb = dict(cfg, out_indices=(n, ))
    model, mut = prepared(classifier(bb, last, 'last_mutable_channels'))
    expect(cfg == before, f'{name}: building the network changes its config')
    want = mbv3_expected(name)
    got = sorted(sorted(options(g)) for g in mut.search_groups.values()
                 if len(options(g)) > 1)
    if len(want['last expand']) > 1:
        rest = {k: v for k, v in want.items() if k != 'last expand'}
        if got == sorted(v for v in rest.values() if len(v) > 1):
            raise Violation(f'{name}: the last expand ratio, declared '
                            f'{want["last expand"]}, is not searchable',
                            key='last-expand')
    expect(got == sorted(v for v in want.values() if len(v) > 1),
           f'{name}: offers {got}, declared {want}')
    ctx.step()
    # each group sets one declared role, to each of its options
    free = {k: v for k, v in want.items() if len(v) > 1}
    groups = {k: options(g) for k, g in mut.search_groups.items()
              if len(options(g)) > 1}
    mid = {k: options(g)[0] for k, g in mut.search_groups.items()}
    mut.set_choices(mid)
    base = mbv3_roles(model.backbone, name)
    taken = set()
    for k, opts in groups.items():
        moved = set()
        for o in opts:
            mut.set_choices({**mid, k: o})
            now = mbv3_roles(model.backbone, name)
            diff = {r for r in now if now[r] != base[r]}
            moved |= diff
            for r in diff:
                expect(now[r] == o or now[r] == [o] or r.endswith(' se') and
                       o in now[r], f'{name}: {r} is {now[r]} when set to {o}')
            ctx.step()
        if moved:
            expect(len(moved) == 1 and not moved & taken,
                   f'{name}: group {k} sets {moved}')
            taken |= moved
        else:    # a squeeze width that rounds to the same
            expect(MBV3[name][1] and any(MBV3[name][4]),
                   f'{name}: group {k} sets nothing')
    expect(all(r in taken or r.endswith(' se') for r in free),
           f'{name}: {set(free) - taken} cannot be set')
    ctx.state(name)


def scope_mbv3(ctx, case):
    """Every subnet computes what its choices describe."""
    name, part, parts = case
    last = SPACES[MBV3[name][0]]['num_out_channels'][-1][1]
    model, mut = prepared(classifier(mbv3_cfg(name), last,
                                     'last_mutable_channels'))
    b = model.backbone
    x = gen(3, 3, *MBV3[name][-1], seed=2)
    bad = None
    for i, choice in enumerate(product(mut)):
        if i % parts != part:
            continue
        mut.set_choices(choice)
        what = f'{name}: {choice}'
        r = mbv3_roles(b, name)
        if name == 'plain' and r['first'] != r['0 out']:
            try:
                run_net(b, x, False)
            except RuntimeError:
                bad = bad or what
                ctx.step()
                continue
        for training in (False, True):
            same(run_net(b, x, training),
                 mbv3_reference(b, name, r, x, training),
                 f'{what}, training {training}')
        feats = run_net(b, x, False)[-1]
        want = F.linear(feats.mean((2, 3)),
                        model.head.fc.weight[:, :feats.shape[1]],
                        model.head.fc.bias)
        model.eval()
        with torch.no_grad():
            y = model.head((model.neck(feats), ))
            full = model(x, mode='tensor')
        same([y], [want], what + ', head')
        same([full], [want], what + ', classifier')
        if i % (7 * parts) == part:
            exported(lambda: prepared(classifier(
                mbv3_cfg(name), last, 'last_mutable_channels'))[0],
                model, lambda m: [*m.backbone(x), m(x, mode='tensor')], what)
        ctx.step()
        ctx.state((name, tuple(sorted(r.items(), key=str)).__repr__()))
    if bad:
        raise Violation(f'{bad} cannot run: the plain shortcut joins unequal '
                        'widths', key='plain-shortcut')


def exported(fresh, model, outs, what):
    """The exported subnet, loaded into a new network."""
    from mmrazor.models.architectures.dynamic_ops import DynamicMixin
    from mmrazor.models.mutables.base_mutable import BaseMutable
    from mmrazor.structures import export_fix_subnet, load_fix_subnet
    model.eval()
    with torch.no_grad():
        want = outs(model)
    fix, sub = export_fix_subnet(copy.deepcopy(model), slice_weight=True)
    new = fresh()
    load_fix_subnet(new, fix)
    for n, m in new.named_modules():
        expect(not isinstance(m, DynamicMixin) and not (
            isinstance(m, BaseMutable) and not m.is_fixed),
            f'{what}: {n} is still searchable after loading')
    new.load_state_dict(sub.state_dict())
    new.eval()
    with torch.no_grad():
        same(outs(new), want, f'{what}, exported and loaded')


def scope_shortcut(ctx, case):
    """One block, any input size."""
    from mmrazor.models.architectures.ops import MBBlock
    size, stride, k, widths, training, cp = case
    ci, co = widths
    torch.manual_seed(4)
    b = MBBlock(in_channels=ci, out_channels=co, stride=stride,
                kernel_size=k, expand_ratio=2, with_attentive_shortcut=True,
                with_cp=cp)
    x = gen(2, ci, *size, seed=6).requires_grad_(cp)
    for m in b.modules():
        if isinstance(m, nn.BatchNorm2d):
            m.running_mean.normal_()
    ctx.step()
    got = run_net(b, x, training)
    with torch.no_grad():
        want = mb(b, x, dict(out=co, kernel=k, expand=2, has_expand=True,
                             stride=stride, se=None, shortcut='attentive'),
                  'ReLU', training)
    same([got], [want], str(case))
    ctx.state(case)


# ---- candidates per block --------------------------------------------------
def mb_candidates():
    return {
        'mb_k3e1': dict(type='mmrazor.MBBlock', kernel_size=3,
                        expand_ratio=1, act_cfg=dict(type='ReLU6')),
        'mb_k5e3': dict(type='mmrazor.MBBlock', kernel_size=5,
                        expand_ratio=3, act_cfg=dict(type='ReLU6')),
        'mb_k3e2se': dict(type='mmrazor.MBBlock', kernel_size=3,
                          expand_ratio=2, act_cfg=dict(type='ReLU'),
                          se_cfg=dict(ratio=4, act_cfg=(
                              dict(type='ReLU'), dict(type='HSigmoid')))),
        'id': dict(type='mmrazor.Identity'),
    }


def mb_ref(name, op, x, co, stride, training):
    if name == 'id':
        if stride == 1 and x.shape[1] == co:
            return x
        return cm(op.downsample, x, None, training, stride=stride)
    k, e, act, se = {'mb_k3e1': (3, 1, 'ReLU6', None),
                     'mb_k5e3': (5, 3, 'ReLU6', None),
                     'mb_k3e2se': (3, 2, 'ReLU', 4)}[name]
    o = dict(out=co, kernel=None, expand=e, has_expand=e > 1, stride=stride,
             se=se and divisible(x.shape[1] * e / 4, 8),
             shortcut='plain' if stride == 1 and x.shape[1] == co else None)
    expect(op.depthwise_conv.conv.weight.shape[-1] == k,
           f'{name} has kernel {op.depthwise_conv.conv.weight.shape}')
    return mb(op, x, o, act, training)


def shuffle_candidates():
    return {
        's3': dict(type='mmrazor.ShuffleBlock', kernel_size=3),
        's7': dict(type='mmrazor.ShuffleBlock', kernel_size=7,
                   act_cfg=dict(type='ReLU6')),
        'x': dict(type='mmrazor.ShuffleXception'),
    }


def shuffle_ref(name, op, x, co, stride, training):
    act = 'ReLU6' if name == 's7' else 'ReLU'
    k = {'s3': 3, 's7': 7, 'x': 3}[name]
    half = co // 2

    def seq(y, layers):
        for m, kind, a, s in layers:
            want = k if kind == 'dw' else 1
            expect(m.conv.weight.shape[-1] == want,
                   f'{name}: kernel {m.conv.weight.shape}')
            y = cm(m, y, a, training, stride=s, depthwise=kind == 'dw',
                   co=y.shape[1] if kind == 'dw' else half)
        return y
    main = x
    if stride == 1:
        left, main = x[:, :x.shape[1] // 2], x[:, x.shape[1] // 2:]
    else:
        left = seq(x, [(op.branch1[0], 'dw', None, 2),
                       (op.branch1[1], 'pw', act, 1)])
    if name == 'x':
        layers = []
        for i, d in enumerate(op.branch2):
            layers += [(d.depthwise_conv, 'dw', None,
                        stride if i == 0 else 1),
                       (d.pointwise_conv, 'pw', act, 1)]
        expect(len(layers) == 6, f'{name}: {len(layers)} layers')
    else:
        layers = [(op.branch2[0], 'pw', act, 1),
                  (op.branch2[1], 'dw', None, stride),
                  (op.branch2[2], 'pw', act, 1)]
    y = torch.cat([left, seq(main, layers)], 1)
    n, c, h, w = y.shape
    return y.reshape(n, 2, c // 2, h, w).transpose(1, 2).reshape(n, c, h, w)


CHAINS = {
    # arch: (channel, blocks, stride) per stage; widths by widen factor
    'mb': ('mmrazor.SearchableMobileNetV2', mb_candidates, mb_ref,
           [(8, 1, 1), (16, 2, 2)], dict(first_channels=8, last_channels=12),
           1., 'ReLU6'),
    'mbw': ('mmrazor.SearchableMobileNetV2', mb_candidates, mb_ref,
            [(8, 2, 2), (12, 1, 1)], dict(first_channels=5, last_channels=12),
            1.5, 'ReLU6'),
    'mbn': ('mmrazor.SearchableMobileNetV2', mb_candidates, mb_ref,
            [(16, 2, 1)], dict(first_channels=32, last_channels=8), .5,
            'ReLU6'),
    'sh': ('mmrazor.SearchableShuffleNetV2', shuffle_candidates, shuffle_ref,
           [(8, 2, 2), (12, 2, 2)], dict(), 1., 'ReLU'),
    'shw': ('mmrazor.SearchableShuffleNetV2', shuffle_candidates, shuffle_ref,
            [(9, 3, 2)], dict(stem_multiplier=2), 1.3, 'ReLU'),
    'shn': ('mmrazor.SearchableShuffleNetV2', shuffle_candidates, shuffle_ref,
            [(8, 2, 2)], dict(with_last_layer=False), 1., 'ReLU'),
}


def chain_cfg(name, **more):
    typ, cands, _, stages, kw, widen, _ = CHAINS[name]
    mutable = dict(type='mmrazor.OneShotMutableOP', candidates=cands())
    mbn = typ.endswith('V2') and 'Mobile' in typ
    arch = [[c, n, s, mutable] if mbn else [c, n, mutable]
            for c, n, s in stages]
    last = len(stages) + (1 if kw.get('with_last_layer', True) else 0)
    kw = dict(kw, **more)
    kw.setdefault('out_indices', tuple(range(last)))
    return dict(type=typ, arch_setting=arch, widen_factor=widen, **kw)


def chain_plan(name):
    """(stage, block, in, out, stride) of each block, then last width"""
    typ, _, _, stages, kw, widen, _ = CHAINS[name]
    mbn = 'Mobile' in typ
    c = divisible(kw['first_channels'] * widen, 8) if mbn else \
        16 * kw.get('stem_multiplier', 1)
    plan = []
    for i, (ch, n, s) in enumerate(stages):
        co = divisible(ch * widen, 8) if mbn else round(ch * widen)
        for k in range(n):
            plan.append((i, k, c, co, s if k == 0 else 1))
            c = co
    last = 1024
    if mbn:
        last = kw['last_channels']
        last = int(last * widen) if widen > 1 else last
    return plan, last


def scope_chain(ctx, case):
    name, part, parts = case
    typ, cands, ref, stages, kw, widen, act = CHAINS[name]
    cfg = chain_cfg(name)
    before = copy.deepcopy(cfg)
    model, mut = prepared(cfg)
    expect(cfg == before, f'{name}: building the network changes its config')
    plan, last = chain_plan(name)
    names = list(cands())
    groups = mut.search_groups
    expect(sorted(options(g) for g in groups.values()) ==
           [names] * len(plan) if name[0] != 'm' else
           len(groups) == len(plan), f'{name}: offers {groups.keys()}')
    mbn = name[0] == 'm'

    def block(i, k):
        return (getattr(model, f'layer{i + 1}') if mbn
                else model.layers[i])[k]
    where = {id(block(i, k)): j for j, (i, k, *_) in enumerate(plan)}
    order = [where[id(g[0])] for g in groups.values()]
    expect(sorted(order) == list(range(len(plan))),
           f'{name}: groups {order}')
    x = gen(3, 3, 13, 18, seed=2)
    for n, cs in enumerate(itertools.product(names, repeat=len(plan))):
        if n % parts != part:
            continue
        mut.set_choices({g: cs[j] for g, j in zip(groups, order)})
        what = f'{name}: {cs}'
        for training in (False, True):
            with torch.no_grad():
                y = cm(model.conv1, x, act, training, stride=2)
                expect(y.shape[1] == plan[0][2], f'{what}: stem {y.shape}')
                want = []
                for j, (i, k, ci, co, s) in enumerate(plan):
                    op = block(i, k).candidates[cs[j]] if \
                        hasattr(block(i, k), 'candidates') else \
                        block(i, k)._candidates[cs[j]]
                    y = ref(cs[j], op, y, co, s, training)
                    expect(y.shape[1] == co, f'{what}: width {y.shape}')
                    if j + 1 == len(plan) or plan[j + 1][0] != i:
                        want.append(y)
                if kw.get('with_last_layer', True):
                    m = model.conv2 if mbn else model.layers[-1]
                    y = cm(m, y, act, training)
                    expect(y.shape[1] == last, f'{what}: {y.shape[1]} last '
                           f'channels, expected {last}')
                    want.append(y)
            same(run_net(model, x, training), want,
                 f'{what}, training {training}')
        if n % (11 * parts) == part:
            exported(lambda: prepared(chain_cfg(name))[0], model,
                     lambda m: m(x), what)
        ctx.step()
        ctx.state((name, cs))


# ---- transformer -----------------------------------------------------------
VITS = {
    'v': (dict(mlp_ratios=[1.5, 2.0], num_heads=[1, 2], depth=[1, 2],
               embed_dims=[6, 10]), dict(img_size=8, patch_size=4)),
    'nonorm': (dict(mlp_ratios=[1.0, 2.0, 3.0], num_heads=[2, 3], depth=[1],
                    embed_dims=[4, 8]),
               dict(img_size=6, patch_size=3, use_final_norm=False,
                    qkv_bias=False, in_channels=2)),
}


def layer_norm(m, x):
    return F.layer_norm(x, x.shape[-1:], m.weight[:x.shape[-1]],
                        m.bias[:x.shape[-1]], m.eps)


def linear(m, x, co):
    return F.linear(x, m.weight[:co, :x.shape[-1]],
                    None if m.bias is None else m.bias[:co])


def vit_reference(b, r, x):
    e = r['embed']
    p = b.patch_embed.projection
    x = F.conv2d(x, p.weight[:e], p.bias[:e], stride=p.weight.shape[-1])
    x = x.flatten(2).transpose(1, 2)
    x = torch.cat([b.cls_token[..., :e].expand(len(x), -1, -1), x], 1)
    x = x + b.pos_embed[..., :e]
    for i, blk in enumerate(list(b.blocks.pure_modules())[:r['depth']]):
        h = r['heads'][i]
        W = P08.cut(P08.weights(blk.attn), e, 64 * h)
        W['rk'] = tuple(t[:, :64] for t in W['rk'])
        W['rv'] = tuple(t[:, :64] for t in W['rv'])
        y = P08.attend(layer_norm(blk.norm1, x), W, h,
                       blk.attn.embed_dims and r['scale'],
                       True, 14, False)
        x = x + y
        y = F.gelu(linear(blk.fc1, layer_norm(blk.norm2, x),
                          int(e * r['mlp'][i])))
        x = x + linear(blk.fc2, y, e)
    if r['norm']:
        x = layer_norm(b.norm1, x)
    return x[:, 1:].mean(1)


def vit_cfg(name):
    arch, kw = VITS[name]
    return classifier(
        dict(type='mmrazor.AutoformerBackbone',
             arch_setting=copy.deepcopy(arch), **kw),
        arch['embed_dims'][-1], 'last_mutable', None)


def scope_vit(ctx, case):
    name, part, parts = case
    arch, kw = VITS[name]
    model, mut = prepared(vit_cfg(name))
    b = model.backbone
    depth = arch['depth'][-1]
    want = [arch['mlp_ratios']] * depth + [arch['num_heads']] * depth + [
        arch['depth'], arch['embed_dims']]
    got = [options(g) for g in mut.search_groups.values()]
    expect(sorted(map(str, (g for g in got if len(g) > 1))) ==
           sorted(map(str, (g for g in want if len(g) > 1))),
           f'{name}: offers {got}, declared {want}')
    x = gen(2, kw.get('in_channels', 3), kw['img_size'], kw['img_size'],
            seed=3)
    seen = set()
    for i, choice in enumerate(product(mut)):
        mut.set_choices(choice)
        r = dict(embed=int(b.mutable_embed_dims.current_choice),
                 depth=b.blocks.mutable_depth.current_choice,
                 heads=[l.mutable_num_heads.current_choice for l in b.blocks
                        .pure_modules()],
                 mlp=[l.mutable_mlp_ratios.current_choice for l in b.blocks
                      .pure_modules()],
                 scale=64**-.5, norm=kw.get('use_final_norm', True))
        seen.add(repr(r))
        if i % parts != part:
            continue
        what = f'{name}: {choice}'
        with torch.no_grad():
            want = vit_reference(b, r, x)
            logits = F.linear(want, model.head.fc.weight[:, :r['embed']],
                              model.head.fc.bias)
        for training in (False, True):
            same(run_net(b, x, training), [want],
                 f'{what}, training {training}')
        model.eval()
        with torch.no_grad():
            same([model(x, mode='tensor')], [logits], what)
        ctx.step()
        ctx.state((name, repr(r)))
    expect(len(seen) == sizes(mut), f'{name}: {sizes(mut)} choices describe '
           f'{len(seen)} networks')


# ---- frozen stages and norms -----------------------------------------------
def wrn_cfg(**kw):
    return dict(type='mmrazor.WideResNet', depth=10, widen_factor=1,
                stem_channels=4, base_channels=4, **kw)


def frozen_parts(kind, m, upto):
    """[(name, also evaluated)] of the parts frozen up to a stage"""
    if upto < 0:
        return []
    stem = {'mbv3': 'first_conv'}.get(kind, 'conv1')
    out = [stem]
    for i in range(1, upto + 1):
        out.append(f'layers.{i - 1}' if kind == 'sh' else f'layer{i}')
    return out


FREEZE = {
    'mb': lambda **k: chain_cfg('mb', **k),
    'sh': lambda **k: chain_cfg('sh', **k),
    'mbv3': lambda **k: mbv3_cfg('a', **k),
    'wrn': wrn_cfg,
}


def scope_freeze(ctx, case):
    """Freezing holds through every sequence of train() and eval()."""
    kind, frozen, norm_eval, seq = case
    m = build(FREEZE[kind](frozen_stages=frozen, norm_eval=norm_eval))
    parts = frozen_parts(kind, m, frozen)
    stem = parts[:1]
    x = gen(3, 3, 16, 16, seed=1)

    def inside(n, ps):
        return any(n == p or n.startswith(p + '.') for p in ps)
    for step in seq:
        m.train(step)
        ctx.step()
        ctx.state((kind, frozen, norm_eval, step, m.training))
        expect(m.training == step, f'{case}: mode is {m.training}')
        for n, k in m.named_modules():
            if n in stem or inside(n, stem):
                continue       # its norm may run either way
            bn = isinstance(k, nn.modules.batchnorm._BatchNorm)
            want = step and not inside(n, parts) and not (norm_eval and bn)
            if bn or inside(n, parts) or not n:
                expect(k.training == want or not bn and not inside(n, parts),
                       f'{case}: {n} {"trains" if k.training else "is fixed"}'
                       f' after train({step})')
        for n, p in m.named_parameters():
            expect(p.requires_grad == (not inside(n, parts)),
                   f'{case}: {n} requires grad {p.requires_grad}')
    if seq and seq[-1] and frozen < 2:
        y = m(x)
        sum(t.sum() for t in y).backward()
        for n, p in m.named_parameters():
            expect(p.grad is None or not inside(n, parts),
                   f'{case}: frozen {n} has a gradient')


def scope_wrn(ctx, case):
    """The plain wide residual network."""
    depth, widen, strides, dil, training, size = case
    m = build(dict(type='mmrazor.WideResNet', depth=depth,
                   widen_factor=widen, stem_channels=4, base_channels=3,
                   strides=strides, dilations=dil))
    x = gen(2, 3, *size, seed=1)
    ctx.step()
    with torch.no_grad():
        y = conv(m.conv1, x)
        n = (depth - 4) // 6
        c = 4
        for i in range(3):
            co = 3 * widen * 2**i
            layer = getattr(m, f'layer{i + 1}')
            expect(len(layer) == n, f'{case}: {len(layer)} blocks')
            for k in range(n):
                b, s = layer[k], strides[i] if k == 0 else 1
                h = F.relu(norm(b.bn1, y, training))
                z = conv(b.conv1, h, stride=s, dilation=dil[i])
                expect(z.shape[1] == co, f'{case}: {z.shape[1]} channels')
                z = conv(b.conv2, F.relu(norm(b.bn2, z, training)))
                y = z + (F.conv2d(h, b.downsample.weight, stride=s)
                         if s != 1 or c != co else y)
                c = co
        y = F.relu(norm(m.norm1, y, training))
    same(run_net(m, x, training), [y], str(case))
    ctx.state(case)


# ---- DARTS -----------------------------------------------------------------
def darts_candidates():
    return {
        'zero': dict(type='mmrazor.DartsZero'),
        'skip': dict(type='mmrazor.DartsSkipConnect'),
        'max': dict(type='mmrazor.DartsPoolBN', pool_type='max'),
        'avg': dict(type='mmrazor.DartsPoolBN', pool_type='avg'),
        'sep3': dict(type='mmrazor.DartsSepConv', kernel_size=3),
        'sep5': dict(type='mmrazor.DartsSepConv', kernel_size=5),
        'dil3': dict(type='mmrazor.DartsDilConv', kernel_size=3),
        'dil5': dict(type='mmrazor.DartsDilConv', kernel_size=5),
    }


def reduce(conv1, conv2, bn, x, training):
    x = F.relu(x)
    return norm(bn, torch.cat([
        F.conv2d(x, conv1.weight, stride=2),
        F.conv2d(x[:, :, 1:, 1:], conv2.weight, stride=2)], 1), training)


def darts_op(name, op, x, stride, training):
    if name == 'zero':
        return torch.zeros_like(x[:, :, ::stride, ::stride])
    if name == 'skip':
        return x if stride == 1 else reduce(op.conv1, op.conv2, op.bn, x,
                                            training)
    if name == 'max':
        return norm(op.bn, F.max_pool2d(x, 3, stride, 1), training)
    if name == 'avg':
        return norm(op.bn, F.avg_pool2d(x, 3, stride, 1,
                                        count_include_pad=False), training)
    k = int(name[-1])

    def sep(seq, x, stride, dilation):
        _, dw, pw, bn = seq
        expect(dw.weight.shape[-1] == k, f'{name}: {dw.weight.shape}')
        x = conv(dw, F.relu(x), depthwise=True, stride=stride,
                 dilation=dilation)
        return norm(bn, conv(pw, x), training)
    if name.startswith('dil'):
        return sep(op.conv1, x, stride, 2)
    return sep(op.conv2, sep(op.conv1, x, stride, 1), 1, 1)


def scope_op(ctx, case):
    name, stride, training, size = case
    from mmrazor.registry import MODELS
    op = build(dict(darts_candidates()[name], in_channels=4, out_channels=4,
                    stride=stride))
    x = gen(3, 4, *size, seed=8)
    ctx.step()
    with torch.no_grad():
        want = darts_op(name, op, x, stride, training)
    same([run_net(op, x, training)], [want], str(case))
    ctx.state(case)
    return MODELS


def darts_cfg(layers, nodes, cands, aux=False, route=True, outs=None, stem=3):
    all_ = darts_candidates()
    return dict(
        type='mmrazor.DartsBackbone', in_channels=3, base_channels=4,
        num_layers=layers, num_nodes=nodes, stem_multiplier=stem,
        out_indices=outs or (layers - 1, ), auxliary=aux, aux_channels=5,
        aux_out_channels=6,
        mutable_cfg=dict(type='mmrazor.DiffMutableOP', candidates={
            c: all_[c] for c in cands}),
        route_cfg=dict(type='mmrazor.DiffChoiceRoute',
                       with_arch_param=route))


def scope_darts(ctx, case):
    """The cells' wiring, with any weights of the choices."""
    from mmrazor.models.mutators import NasMutator
    layers, nodes, cands, aux, training, seed, route, outs = case
    m = build(darts_cfg(layers, nodes, cands, aux, route, outs))
    mut = NasMutator()
    mut.prepare_from_supernet(m)
    mut.prepare_arch_params()
    kinds = ['reduce' if i in (layers // 3, 2 * layers // 3) else 'normal'
             for i in range(layers)]
    # cells of one kind share every choice; others share none
    want = {}
    for k in set(kinds):
        for n in range(2, nodes + 2):
            if route:
                want[f'{k}_n{n}'] = n
            for p in range(n):
                want[f'{k}_n{n}_p{p}'] = len(cands)
    alias = {k: g[0].alias for k, g in mut.search_groups.items()}
    used = {alias[k]: len(p) for k, p in mut.arch_params.items()}
    used = {k: v for k, v in used.items() if route or '_p' in k}
    expect(used == want, f'{case}: decides {used}, expected {want}')
    for k, g in mut.search_groups.items():
        names = {i.alias for i in g}
        expect(len(names) == 1, f'{case}: {names} decide together')
        if alias[k] in want:
            expect(len(g) == kinds.count(alias[k].split('_')[0]),
                   f'{case}: {alias[k]} is one of {len(g)}')
    torch.manual_seed(seed)
    for p in mut.arch_params.values():
        p.data.normal_(std=2)
    ctx.step()
    x = gen(3, 3, *((28, 28) if aux else (12, 16)), seed=seed)
    pr = {alias[k]: p.detach() for k, p in mut.arch_params.items()}

    def std(s, x):
        return norm(s.net[2], F.conv2d(F.relu(x), s.net[1].weight), training)
    with torch.no_grad():
        s0 = s1 = norm(m.stem[1], F.conv2d(x, m.stem[0].weight, padding=1),
                       training)
        out = []
        ch = 4
        for i, kind in enumerate(kinds):
            cell = m.cells[i]
            if kind == 'reduce':
                ch *= 2
            if i and kinds[i - 1] == 'reduce':
                p = cell.preproc0
                a = reduce(p.conv1, p.conv2, p.bn, s0, training)
            else:
                a = std(cell.preproc0, s0)
            ts = [a, std(cell.preproc1, s1)]
            for t in ts:
                expect(t.shape[1] == ch, f'{case}: cell {i} has '
                       f'{t.shape[1]} channels, expected {ch}')
            for n in range(2, nodes + 2):
                tot = 0
                w = pr[f'{kind}_n{n}'].softmax(-1) if route else None
                for p, t in enumerate(ts):
                    key = f'{kind}_n{n}_p{p}'
                    stride = 2 if kind == 'reduce' and p < 2 else 1
                    edge = cell.nodes[n - 2].route._candidates[
                        f'{kind}_n{n}_p{p}']
                    v = pr[key].softmax(-1)
                    y = sum(v[j] * darts_op(c, edge._candidates[c], t,
                                            stride, training)
                            for j, c in enumerate(cands))
                    tot = tot + (y if w is None else w[p] * y)
                ts.append(tot)
            s0, s1 = s1, torch.cat(ts[2:], 1)
            if i in (outs or (layers - 1, )):
                out.append(s1)
            if aux and training and i == 2 * layers // 3:
                n_ = m.auxliary_module.net
                y = F.avg_pool2d(F.relu(s1), 5, 2, count_include_pad=False)
                y = F.relu(norm(n_[3], F.conv2d(y, n_[2].weight), training))
                y = F.relu(norm(n_[6], F.conv2d(y, n_[5].weight), training))
                out.insert(0, y)
    same(run_net(m, x, training), out, str(case))
    ctx.state(case)


def scope_dropout(ctx, case):
    """The rate grows with a block's depth in the chosen stages."""
    from mmrazor.models.architectures.dynamic_ops import DynamicSequential
    from mmrazor.models.architectures.ops import MBBlock
    from mmrazor.models.architectures.utils import set_dropout
    lens, stages, rate = case
    layers = [DynamicSequential(*(MBBlock(
        in_channels=2, out_channels=2, stride=1, kernel_size=3,
        expand_ratio=1) for _ in range(n))) for n in lens]
    tail = nn.Sequential(nn.ReLU())
    ctx.step()
    set_dropout(layers, MBBlock, list(stages), rate)
    total, at = sum(lens), 0
    for i, (n, l) in enumerate(zip(lens, layers), 1):
        for k, b in enumerate(l.pure_modules()):
            want = rate * (at + k) / total if i in stages else 0.
            expect(abs(b.drop_path_rate - want) < 1e-9,
                   f'{case}: block {k} of stage {i} drops '
                   f'{b.drop_path_rate}, expected {want}')
        at += n
    ctx.state(case)
    return tail


def run(ctx):
    T = ctx.thorough
    ctx.parallel('space', list(MBV3), lambda c: scope_space(ctx, c))
    counts = {'plain': 1, 'last': 1, 'a': 24, 'odd': 2, 'mixed': 8, 'flat': 4, 'fine': 64}
    cases = []
    for n, parts in counts.items():
        cases += [(n, p, parts) for p in range(parts if T else min(parts, 4))]
    ctx.parallel('mbv3', cases, lambda c: scope_mbv3(ctx, c))
    cases = [(s, st, k, w, tr, cp) for s in itertools.product(
        (3, 4, 5, 6, 9) if T else (3, 4, 5), repeat=2) for st in (1, 2)
        for k in (3, 5) for w in ((2, 2), (2, 4), (4, 2))
        for tr in (False, True) for cp in (False, True)
        if T or (sum(s) + st + k + sum(w) + tr + cp) % 2 == 0 or s[0] != s[1]]
    ctx.parallel('shortcut', cases, lambda c: scope_shortcut(ctx, c))
    cases = []
    for n in CHAINS:
        plan, _ = chain_plan(n)
        size = len(CHAINS[n][1]())**len(plan)
        parts = max(1, size // 16)
        cases += [(n, p, parts) for p in range(parts)]
    ctx.parallel('chain', cases, lambda c: scope_chain(ctx, c))
    cases = [('v', p, 8) for p in range(8)] + [('nonorm', p, 2)
                                              for p in range(2)]
    ctx.parallel('vit', cases, lambda c: scope_vit(ctx, c))
    cases = [(k, f, e, s) for k in FREEZE for f in range(-1, 3)
             for e in (False, True) for n in range(4 if T else 3)
             for s in itertools.product((True, False), repeat=n)]
    ctx.parallel('freeze', cases, lambda c: scope_freeze(ctx, c))
    cases = [(d, w, s, l, t, z) for d in ((10, 16, 22, 28, 40) if T
                                          else (10, 16, 28))
             for w in (1, 2) for s in ((1, 2, 2), (2, 1, 2), (1, 1, 1))
             for l in ((1, 1, 1), (1, 2, 3)) for t in (False, True)
             for z in ((8, 8), (9, 12))]
    ctx.parallel('wrn', cases, lambda c: scope_wrn(ctx, c))
    cases = [(n, s, t, z) for n in darts_candidates() for s in (1, 2)
             for t in (False, True) for z in ((6, 6), (8, 4), (7, 7), (5, 6))
             if not (n == 'skip' and s == 2 and (z[0] % 2 or z[1] % 2))]
    ctx.parallel('op', cases, lambda c: scope_op(ctx, c))
    cs = list(darts_candidates())
    cases = []
    for layers in range(2, 9 if T else 7):
        for nodes in (1, 2, 3):
            for aux, tr, route in itertools.product((False, True), repeat=3):
                if aux and layers > 3 and 2 * layers // 3 < 1:
                    continue
                k = layers + nodes + aux + tr
                pick = (cs[k % 8], cs[(k + 3) % 8]) if nodes < 3 else \
                    (cs[k % 8], cs[(k + 1) % 8], cs[(k + 5) % 8])
                outs = None if k % 2 else (0, layers - 1)
                cases.append((layers, nodes, pick, aux, tr, k, route, outs))
    ctx.parallel('darts', cases, lambda c: scope_darts(ctx, c))
    cases = [(l, s, r) for l in itertools.product((1, 2, 3), repeat=3)
             for n in range(4) for s in itertools.combinations((1, 2, 3), n)
             for r in (0.2, 1.0)]
    ctx.parallel('dropout', cases, lambda c: scope_dropout(ctx, c))
