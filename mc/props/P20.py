"""Metric predictors: encodings are faithful and what is fitted is used."""
import copy
import itertools
import os
import tempfile

import numpy as np
import torch
from torch import nn

from mc.core import Violation, expect
from mc.explore import explore_choices, own_random
from mc.props import P17, P18

RULE = ('every subnet of small supernets (operations, widths, kernels, '
        'aliases; channel units by number and ratio) x both encodings x '
        'every order of the keys: encode, decode, compare; every predictor '
        'x encoding x training set x score table: each subnet is predicted '
        'on the real supernet before and after saving and loading; '
        'non-trivial: two or more search groups')
ASSUMPTIONS = ['the SmoothL1Loss of mmdet, not installed here, is replaced '
               'by that of torch; accuracy is only examined where the method '
               'interpolates']


def setup():
    P17.setup()
    import mmrazor.models.task_modules.predictor.handler.mlp_handler as m
    m.SmoothL1Loss = nn.SmoothL1Loss


KINDS = [('op', ), ('op', 'swap'), ('op', 'width'), ('product', 'op'),
         ('alias', 'kernel'), ('kernel', ), ('width', )]
NETS = [((4, 4), [1, 2, 4], 'number'), ((4, 6), [.34, .5, 1.], 'ratio'),
        ((4, ), [1, 4], 'number')]


def world(spec):
    return P18.world(spec) if len(spec) == 3 else P17.world(spec)


def groups(w):
    return w.algo.mutator.search_groups


def options(mutables):
    m = mutables[0]
    return list(getattr(m, 'candidate_choices', None) or m.choices)


def predictor(w, handler, enc, **k):
    from mmrazor.registry import TASK_UTILS
    return TASK_UTILS.build(dict(
        type='MetricPredictor', handler_cfg=dict(handler),
        search_groups=groups(w), encoding_type=enc, score_key='acc', **k))


def reference(w, genes):
    """(positions, one-hot) in the order of the search groups."""
    idx, hot = [], []
    for name, ms in groups(w).items():
        o = options(ms)
        i = o.index(genes[name])
        idx.append(i)
        hot += [int(j == i) for j in range(len(o))]
    return idx, hot


def scope_encoding(ctx, spec):
    w = world(spec)
    setup()
    gs = groups(w)
    expect(all(set(g) == set(gs) for g in w.genes.values()),
           f'{spec}: search groups {list(gs)} do not name the choices '
           f'{next(iter(w.genes.values()))}')
    for enc in ('onehot', 'normal'):
        p = predictor(w, dict(type='GaussProcessHandler'), enc)
        seen = {}
        for k, genes in w.genes.items():
            idx, hot = reference(w, genes)
            for order in itertools.permutations(genes):
                ctx.step()
                ctx.state((spec, enc, k, order))
                g = {n: genes[n] for n in order}
                was = copy.deepcopy(g)
                v = p.model2vector(g)
                expect(g == was and list(g) == list(was),
                       f'{spec}: encoding changed {was}')
                expect(list(v['normal_vector']) == idx,
                       f'{spec}: {g} -> {v["normal_vector"]}, '
                       f'expected {idx}')
                expect(list(v['onehot_vector']) == hot,
                       f'{spec}: {g} -> {v["onehot_vector"]}, '
                       f'expected {hot}')
                x = p.preprocess(np.array([v, v]))
                want = idx if enc == 'normal' else hot
                expect(np.asarray(x).tolist() == [want, want],
                       f'{spec} {enc}: prepared {x}')
            for vec in (np.array(want), np.array([want])):
                back = p.vector2model(vec)
                expect(back == genes and list(back) == list(gs),
                       f'{spec} {enc}: {vec.tolist()} -> {back}, '
                       f'expected {genes}')
                expect(all(type(back[n]) is type(genes[n]) for n in genes),
                       f'{spec} {enc}: {back} changes types')
            key = tuple(want)
            expect(key not in seen, f'{spec} {enc}: {k} and {seen.get(key)} '
                   'share a code')
            seen[key] = k
        g = dict(genes)
        g.popitem()
        try:
            p.model2vector(g)
        except (AssertionError, KeyError) as e:
            if isinstance(e, Violation):
                raise
        else:
            raise Violation(f'{spec}: encoded the incomplete {g}')


HANDLERS = dict(
    gp=dict(type='GaussProcessHandler'),
    gpc=dict(type='GaussProcessHandler', regr='constant', corr='cubic'),
    carts=dict(type='CartsHandler', num_trees=5),
    rbf=dict(type='RBFHandler'),
    rbfc=dict(type='RBFHandler', kernel='cubic'),
    mlp=dict(type='MLPHandler', epochs=8,
             model_cfg=dict(hidden_features=8, num_hidden_layers=1)),
    mlp78=dict(type='MLPHandler', epochs=3),
)
TABLES = ('up', 'mixed', 'fine')


def choose(w, algo, k):
    algo.mutator.set_choices(w.genes[k])


def scope_handler(ctx, spec):
    """Fit on a set of subnets, predict every subnet, save, load, predict."""
    net, hname, enc, rows, tab = spec
    setup()
    w = world(net)
    ks = list(w.genes)
    train = [ks[i] for i in rows]
    scores = {k: s for k, s in zip(w.genes, P17.table(
        type('W', (), dict(nets=ks)), tab).values())}
    msg = str(spec)
    torch.manual_seed(0)
    np.random.seed(0)
    with tempfile.TemporaryDirectory() as tmp:
        algo = copy.deepcopy(w.algo)
        p = predictor(w, HANDLERS[hname], enc)
        try:
            p.predict(algo)
        except Exception as e:  # noqa
            expect(not isinstance(e, Violation), str(e))
        else:
            raise Violation(f'{msg}: predicted before it was fitted')
        # the predictor reads the groups of the model it serves
        p.search_groups = algo.mutator.search_groups
        p.fit(np.array([p.model2vector(w.genes[k]) for k in train]),
              np.array([scores[k] for k in train]))
        rbf = hname.startswith('rbf')
        X = []
        for k in ks:
            idx, hot = reference(w, w.genes[k])
            X.append(idx if enc == 'normal' or rbf else hot)
        X = np.array(X)
        before = {k: v.clone() for k, v in algo.state_dict().items()}
        got = {}
        for order in (ks, ks[::-1]):
            for k in order:
                ctx.step()
                choose(w, algo, k)
                was = copy.deepcopy(dict(algo.mutator.current_choices))
                m = p.predict(algo)
                expect(list(m) == ['acc'] and isinstance(m['acc'], float),
                       f'{msg}: predicted {m}')
                expect(dict(algo.mutator.current_choices) == was,
                       f'{msg}: prediction changed the choice')
                x = X[ks.index(k)]
                alone = float(np.squeeze(
                    p.handler.predict(np.array([x]))))
                expect(close(m['acc'], alone), f'{msg}: {k} predicted '
                       f'{m["acc"]}, its code gives {alone}')
                expect(k not in got or close(got[k], m['acc']),
                       f'{msg}: {k} predicted {got.get(k)} then {m["acc"]}')
                got[k] = m['acc']
        for q, v in algo.state_dict().items():
            if not q.endswith('mask'):
                expect(torch.equal(v, before[q]), f'{msg}: {q} changed')
        lo, hi = (f(scores[k] for k in train) for f in (min, max))
        if rbf or hname == 'gp':
            tol = 1e-5 if rbf else 2e-2
            for k in train:
                expect(abs(got[k] - scores[k]) <= tol * (1 + hi - lo),
                       f'{msg}: {k} scored {scores[k]}, predicted {got[k]}')
        if hname == 'carts':
            expect(all(lo - 1e-9 <= v <= hi + 1e-9 for v in got.values()),
                   f'{msg}: {got} outside [{lo}, {hi}]')
        ctx.state(spec)
        # a new predictor, from the file alone
        path = p.save_checkpoint(os.path.join(tmp, 'predictor'))
        expect(os.path.exists(path), f'{msg}: nothing saved at {path}')
        for _ in range(2):
            q = predictor(w, HANDLERS[hname], enc, handler_ckpt=path)
            q.search_groups = algo.mutator.search_groups
            q.load_checkpoint()
            for k in ks:
                choose(w, algo, k)
                v = q.predict(algo)['acc']
                expect(close(v, got[k]), f'{msg}: {k} predicted {got[k]}, '
                       f'after loading {v}')
        # fitting again starts over
        if rbf:
            flip = {k: 100 - s for k, s in scores.items()}
            p.fit(np.array([p.model2vector(w.genes[k]) for k in train]),
                  np.array([flip[k] for k in train]))
            for k in train:
                choose(w, algo, k)
                v = p.predict(algo)['acc']
                expect(abs(v - flip[k]) <= 1e-5 * (1 + hi - lo),
                       f'{msg}: refitted, {k} scored {flip[k]}, '
                       f'predicted {v}')


def scope_trees(ctx, spec):
    """Every column tells the samples apart, so whatever features and order of
    samples a tree draws, it reproduces the scores of its samples."""
    setup()
    from mmrazor.models.task_modules.predictor.handler import CartsHandler
    rows, cols, trees = spec
    x = np.array([[100. * j + (i if j % 2 else -i * i) for j in range(cols)]
                  for i in range(rows)])
    y = np.array([3., -1., 7., 20.][:rows])

    def one(ch):
        h = CartsHandler(num_trees=trees)
        with own_random(ch):
            h.fit(x.copy(), y.copy())
        return h

    for ch, h in explore_choices(one):
        ctx.step()
        for i in range(rows):
            v = float(np.squeeze(h.predict(x[i:i + 1])))
            expect(close(v, y[i]), f'{spec} draws {ch}: sample {i} scored '
                   f'{y[i]}, predicted {v}')
        both = np.asarray(h.predict(x)).reshape(-1)
        expect(all(close(a, b) for a, b in zip(both, y)),
               f'{spec} draws {ch}: {both} for {y}')
        ctx.state((spec, ch))


def close(a, b):
    return a == b or abs(a - b) <= 1e-5 * (1 + abs(a))


def scope_mlp(ctx, spec):
    """The network kept is the best on the held-out samples."""
    setup()
    from mmrazor.models.task_modules.predictor.handler import MLPHandler
    n, ratio, epochs, seed = spec
    torch.manual_seed(seed)
    x = np.random.RandomState(seed).rand(n, 3)
    y = np.random.RandomState(seed + 1).rand(n) * 10
    h = MLPHandler(epochs=epochs, data_split_ratio=ratio,
                   model_cfg=dict(hidden_features=4, num_hidden_layers=1))
    cut = int(n * ratio)
    losses, nets, sets = [], [], []

    class Loss(nn.SmoothL1Loss):

        def forward(self, a, b):
            out = super().forward(a, b)
            if not torch.is_grad_enabled():
                losses.append(out.item())
                nets.append(copy.deepcopy(h.model.state_dict()))
            sets.append((torch.is_grad_enabled(), h.model.training,
                         tuple(b.flatten().tolist())))
            return out
    import mmrazor.models.task_modules.predictor.handler.mlp_handler as m
    m.SmoothL1Loss = Loss
    try:
        h.fit(x, y)
    finally:
        m.SmoothL1Loss = nn.SmoothL1Loss
    ctx.step(epochs)
    ctx.state(spec)
    expect(len(losses) == epochs, f'{spec}: {len(losses)} epochs')
    tr = {s for g, _, s in sets if g}
    va = {s for g, _, s in sets if not g}
    expect(len(tr) == len(va) == 1, f'{spec}: the split changes')
    tr, va = tr.pop(), va.pop()
    expect(len(tr) == cut and sorted(tr + va) == sorted(
        torch.tensor(y).float().tolist()), f'{spec}: trained on {tr}, '
        f'validated on {va}')
    expect(all(g == t for g, t, _ in sets), f'{spec}: modes')
    i = losses.index(min(losses))
    for k, v in h.model.state_dict().items():
        expect(torch.allclose(v, nets[i][k]), f'{spec}: kept another network '
               f'than that of epoch {i}, {losses}')
    a = h.predict(x)
    expect(a.shape == (n, 1) and np.allclose(h.predict(x[0]), a[0]),
           f'{spec}: single prediction')


def scope_correlation(ctx, spec):
    import scipy.stats as st

    from mmrazor.models.task_modules.predictor import MetricPredictor
    a, b = (np.array(v, dtype=float) for v in spec)
    ctx.step()
    ctx.state(spec)
    rmse, rho, tau = MetricPredictor.get_correlation(a, b)
    want = np.sqrt(sum((x - y)**2 for x, y in zip(*spec)) / len(a))
    expect(abs(rmse - want) < 1e-9, f'{spec}: rmse {rmse}, expected {want}')
    n = len(a)
    pairs = list(itertools.combinations(range(n), 2))
    s = [np.sign((a[i] - a[j]) * (b[i] - b[j])) for i, j in pairs]
    ta = sum(a[i] != a[j] for i, j in pairs)
    tb = sum(b[i] != b[j] for i, j in pairs)
    if ta and tb:
        expect(abs(tau - sum(s) / np.sqrt(ta * tb)) < 1e-9,
               f'{spec}: tau {tau}')
        ra, rb = st.rankdata(a), st.rankdata(b)
        expect(abs(rho - np.corrcoef(ra, rb)[0, 1]) < 1e-9,
               f'{spec}: rho {rho}')


def scope_search(ctx, spec):
    """A search scores its candidates with the predictor it trained."""
    from mmengine import fileio

    from mmrazor.structures import Candidates
    net, hname, enc, how, tab = spec
    setup()
    w = world(net)
    ks = list(w.genes)
    scores = {k: v for k, v in zip(ks, P17.table(w, tab).values())}
    cfg = dict(P17.BASE, constraints_range=None)
    with tempfile.TemporaryDirectory() as tmp:
        pc = dict(type='MetricPredictor', handler_cfg=HANDLERS[hname],
                  encoding_type=enc, train_samples=4)
        if how != 'sample':
            c = Candidates()
            for k in ks:
                c.append(w.genes[k])
            for i, k in enumerate(ks):
                c.set_score(i, scores[k])
            pc['train_samples'] = os.path.join(tmp, 'train.pkl')
            fileio.dump(dict(subnets=c), pc['train_samples'])
        torch.manual_seed(1)
        s = P17.Search(w, cfg, scores, tmp, predictor=pc)
        with own_random(P17.Rot(lambda n, label='': 0, 1)):
            s.run()
        ctx.step()
        ctx.state(spec)
        expect(len(s.eval.log) == (4 if how == 'sample' else 0),
               f'{spec}: {len(s.eval.log)} evaluations')
        files = [f for f in os.listdir(tmp) if f.startswith('predictor')]
        expect(len(files) == 1, f'{spec}: saved {files}')
        algo = copy.deepcopy(w.algo)
        q = predictor(w, HANDLERS[hname], enc,
                      handler_ckpt=os.path.join(tmp, files[0]))
        q.search_groups = algo.mutator.search_groups
        q.load_checkpoint()
        expect(s.pkls, f'{spec}: no epoch was saved')
        n = 0
        for e, d in s.pkls.items():
            top = d['top_k_candidates']
            for g, sc in zip(top.subnets, top.scores):
                k = P17.canon(g)
                algo.mutator.set_choices(w.genes[k])
                v = q.predict(algo)['acc']
                expect(abs(sc - v) < 6e-3 * (1 + abs(v) / 50),
                       f'{spec} epoch {e}: {g} scored {sc}, the predictor '
                       f'says {v}')
                n += 1
                if hname == 'rbf' and how != 'sample':
                    expect(abs(v - scores[k]) < 1e-3 * (1 + abs(scores[k])),
                           f'{spec}: {g} scored {scores[k]} in training, '
                           f'predicted {v}')
        expect(n, f'{spec}: no candidate')


def handler_specs(ctx):
    for i, net in enumerate(KINDS + NETS):
        n = len(world(net).genes)
        dims = len(groups(world(net)))
        hot = sum(len(options(m)) for m in groups(world(net)).values())
        for h in HANDLERS:
            for enc in ('onehot', 'normal'):
                need = dims + 1 if h.startswith('rbf') else 2
                if h.startswith('gp'):
                    need = (dims if enc == 'normal' else hot) + 2
                sets = [tuple(range(n))]
                if n > need:
                    sets += [tuple(range(n - 1)), tuple(range(1, n))]
                if h in ('carts', 'mlp'):
                    sets += [(0, n - 1)]
                for rows in sets:
                    if len(rows) < need:
                        continue
                    for t in TABLES:
                        yield net, h, enc, rows, t


def run(ctx):
    setup()
    t = ctx.thorough
    for net in KINDS + NETS:
        world(net)
    ctx.parallel('encoding', KINDS + NETS, lambda s: scope_encoding(ctx, s))
    specs = list(handler_specs(ctx))
    ctx.parallel('handlers', specs, lambda s: scope_handler(ctx, s))
    ctx.parallel('search', [
        (n, h, e, how, tab) for n in KINDS + NETS
        if len(world(n).genes) > 3
        for h in ('rbf', 'carts', 'mlp') for e in ('onehot', 'normal')
        for how in ('given', 'sample') for tab in TABLES
        if how == 'given' or h != 'rbf' and n in KINDS], lambda s: scope_search(ctx, s))
    mlp = [(n, r, e, s) for n in (2, 3, 5, 8) for r in (.5, .8)
           for e in (1, 2, 7) for s in range(4 if t else 2)
           if 0 < int(n * r) < n]
    ctx.parallel('mlp', mlp, lambda s: scope_mlp(ctx, s))
    ctx.parallel('trees', [(r, c, 1) for r in (2, 3) for c in (1, 2, 3)] +
                 [(2, 2, 2), (2, 1, 3)] + [(3, 2, 2), (4, 3, 1)] * bool(t),
                 lambda s: scope_trees(ctx, s))
    vals = (0, 1, 2.5)
    ctx.parallel('correlation', [
        (a, b) for n in (2, 3) for a in itertools.product(vals, repeat=n)
        for b in itertools.product(vals, repeat=n)],
        lambda s: scope_correlation(ctx, s))
