"""Evolution search: constraints, ranking, survival and resumption."""
import contextlib
import copy
import glob
import itertools
import os
import pickle
import re
import tempfile
import types

import torch
from torch import nn

from mc.core import Violation, expect
from mc.explore import explore_choices, own_random
from mc.props import P10

RULE = ('whole searches on tiny real supernets, for every configuration of '
        'a menu (pool, survivors, mutation, crossover, constraints, kept '
        'checkpoints, start candidates, predictor) x every score table of a '
        'menu x every outcome of the random draws within a bounded number '
        'of deviations from rotating defaults; every crash point of a '
        'search, then resumption; the exact set of offspring; every bound '
        'of the constraint check; non-trivial: two or more epochs')
ASSUMPTIONS = ['single process; scores are rounded to two digits; which of '
               'equally scored subnets survives is left open']


class Crash(Exception):
    pass


class Endless(Violation):
    pass


# ------------------------------------------------------------- environment
def setup():
    import mmrazor.models  # noqa
    import mmrazor.engine  # noqa
    from mmrazor.registry import TASK_UTILS
    if TASK_UTILS.get('McCount') is None:

        class McCount:
            calls = 0
            limit = 5000
            hook = None

            def estimate(self, model, *a, **k):
                McCount.calls += 1
                if McCount.calls > McCount.limit:
                    raise Endless('the search does not come to an end')
                if McCount.hook:
                    McCount.hook('estimate')
                n = sum(p.numel() for p in model.parameters())
                return dict(flops=float(n), params=n / 2, latency=n / 4)

        class McPredictor:
            log = []

            def __init__(self, score_key, search_groups, train_samples=2,
                         handler_ckpt=None, **kw):
                self.train_samples = train_samples
                self.handler_ckpt = handler_ckpt
                self.key = score_key
                self.groups = search_groups
                self.ready = False

            def model2vector(self, genes):
                return canon(genes)

            def fit(self, x, y):
                self.log.append(('fit', list(x), list(map(float, y))))
                self.ready = True

            def load_checkpoint(self):
                self.log.append(('load', self.handler_ckpt))
                self.ready = True

            def save_checkpoint(self, path):
                self.log.append(('save', path))
                return path

            def predict(self, model):
                expect(self.ready, 'prediction before the predictor is ready')
                g = canon(model.mutator.current_choices)
                self.log.append(('predict', g))
                return {self.key: SCORES[g] / 2}

        TASK_UTILS.register_module(name='McCount', module=McCount)
        TASK_UTILS.register_module(name='McPredictor', module=McPredictor)
    return TASK_UTILS.get('McCount'), TASK_UTILS.get('McPredictor')


SCORES = {}
X = None


def canon(genes):
    return repr(sorted((str(k), str(v)) for k, v in genes.items()))


class Algo(nn.Module):

    def __init__(self, kinds):
        super().__init__()
        from mmrazor.registry import MODELS
        self.architecture = P10.Super(kinds)
        self.mutator = MODELS.build(dict(type='NasMutator'))
        self.mutator.prepare_from_supernet(self.architecture)

    def val_step(self, data):
        return self.architecture(data['inputs'])

    test_step = val_step

    def forward(self, x):
        return self.architecture(x)


_WORLD = {}


class World:
    """A supernet, every subnet of it, what it outputs and costs."""

    def __init__(self, kinds):
        from mmrazor.structures import export_fix_subnet
        self.kinds = kinds
        self.algo = Algo(kinds).eval()
        self.nets = []
        self.cost = {}
        self.out = {}
        self.genes = {}
        net = self.algo.architecture
        per = [leg for c in net.cells() for _, _, leg in c.slots]
        for a in itertools.product(*per):
            P10.choose(net, a)
            genes = copy.deepcopy(dict(self.algo.mutator.current_choices))
            k = canon(genes)
            with torch.no_grad():
                self.out[k] = P10.expected(net, a, P10.x0())
            _, st = export_fix_subnet(self.algo, slice_weight=True)
            self.cost[k] = float(
                sum(p.numel() for p in st.architecture.parameters()))
            self.genes[k] = genes
            self.nets.append(k)
        expect(len(set(self.nets)) == len(self.nets), 'ambiguous genes')

    def which(self, y):
        hit = [k for k in self.nets
               if y.shape == self.out[k].shape
               and torch.allclose(y, self.out[k], atol=1e-5)]
        expect(hit, 'the network evaluated is none of the subnets')
        return hit


def world(kinds):
    if kinds not in _WORLD:
        _WORLD[kinds] = World(kinds)
    return _WORLD[kinds]


def table(w, name):
    n = len(w.nets)
    f = dict(
        up=lambda i: 10. + 3 * i,
        down=lambda i: 90. - 2.5 * i,
        flat=lambda i: 50.,
        fine=lambda i: 70. + .0021 * i,
        mixed=lambda i: [3.21, 77.7, 77.7, 0., 12.345, 99.99, 50.,
                         1.005][i % 8],
        one=lambda i: 100. if i == n // 2 else 0.,
    )[name]
    return {k: f(i) for i, k in enumerate(w.nets)}


class Set(torch.utils.data.Dataset):
    metainfo = dict(a=1)

    def __init__(self, n=2):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return dict(inputs=P10.x0())


class Eval:

    def __init__(self, w, scores, key):
        self.w, self.scores, self.key = w, scores, key
        self.cur = []
        self.log = []
        self.hook = None
        self.size = None

    def process(self, data_samples=None, data_batch=None):
        if self.hook:
            self.hook('process')
        self.cur.append(data_samples.detach().clone())

    def evaluate(self, size):
        ys, self.cur = self.cur, []
        expect(size == self.size and len(ys) == self.size,
               f'{len(ys)} of {self.size} samples were evaluated')
        hit = set(self.w.which(ys[0]))
        for y in ys[1:]:
            hit &= set(self.w.which(y))
        expect(len(hit) >= 1, 'the subnet changed during an evaluation')
        g = sorted(hit)[0]
        self.log.append(g)
        if self.hook:
            self.hook('evaluate')
        return {self.key: self.scores[g], 'other': -1.}


class Runner:

    def __init__(self, model, tmp, hooks):
        self.model = model
        self.work_dir = tmp
        self.distributed = False
        self.rank = 0
        self.train_dataloader = None
        self.visualizer = types.SimpleNamespace(dataset_meta=None)
        self.hooks = hooks
        self.logger = types.SimpleNamespace(
            info=lambda *a, **k: None, debug=lambda *a, **k: None,
            warning=lambda *a, **k: None)

    def call_hook(self, name, *a, **k):
        self.hooks.append(name)

    def build_evaluator(self, cfg):
        raise Violation('a ready evaluator was built again')


BASE = dict(max_epochs=2, max_keep_ckpts=3, num_candidates=3, top_k=2,
            num_mutation=1, num_crossover=1, mutate_prob=.4,
            crossover_prob=.5)


def read_pkls(tmp):
    out = {}
    for p in glob.glob(os.path.join(tmp, 'search_epoch_*.pkl')):
        e = int(re.findall(r'epoch_(\d+)\.pkl', p)[0])
        try:
            with open(p, 'rb') as f:
                out[e] = pickle.load(f)
        except Exception:  # noqa  torn
            out[e] = None
    return out


class Search:
    """One search; keeps everything a user can observe."""

    def __init__(self, w, cfg, scores, tmp, key='acc', hook=None,
                 algo=None, resume=None, init=None, predictor=None):
        from mmrazor.registry import LOOPS
        McCount, _ = setup()
        McCount.calls, McCount.hook = 0, hook
        self.w, self.cfg, self.tmp, self.scores = w, cfg, tmp, scores
        SCORES.clear()
        SCORES.update(scores)
        self.algo = algo or copy.deepcopy(w.algo)
        self.hooks = []
        self.runner = Runner(self.algo, tmp, self.hooks)
        self.eval = Eval(w, scores, key)
        loader = torch.utils.data.DataLoader(
            Set(), collate_fn=lambda b: b[0])
        self.eval.size = len(loader.dataset)
        self.eval.hook = hook
        cfg = copy.deepcopy(cfg)
        self.loop = LOOPS.build(dict(
            type='EvolutionSearchLoop', runner=self.runner,
            dataloader=loader, evaluator=self.eval, score_key=key,
            estimator_cfg=dict(type='McCount'), resume_from=resume,
            init_candidates=init, predictor_cfg=predictor, **cfg))
        expect(self.eval.dataset_meta == dict(a=1),
               'the evaluator does not know the dataset')
        self.pkls, self.marks, self.listing = {}, {}, {}
        old = self.eval.evaluate

        def evaluate(size):
            self.collect(len(self.eval.log))
            return old(size)
        self.eval.evaluate = evaluate

    def collect(self, n):
        for e, d in read_pkls(self.tmp).items():
            if e not in self.pkls and d is not None:
                self.pkls[e] = d
                self.marks[e] = n
                self.listing[e] = sorted(read_pkls(self.tmp))

    def run(self):
        self.loop.run()
        self.collect(len(self.eval.log))


def inside(cfg, cost):
    res = dict(flops=cost, params=cost / 2, latency=cost / 4)
    for k, v in (cfg.get('constraints_range') or {}).items():
        lo, hi = v if isinstance(v, (tuple, list)) else (0, v)
        if not lo <= res[k] <= hi:
            return False
    return True


def entries(c):
    """[(genes, canonical, score, flops, params, latency)]"""
    if not len(c):
        return []
    return [(g, canon(g), s, f, p, l) for g, s, f, p, l in zip(
        c.subnets, c.scores, c.resources('flops'), c.resources('params'),
        c.resources('latency'))]


def check_pool(w, cfg, c, msg, scores=None, start=()):
    for g, k, s, f, p, l in entries(c):
        expect(k in w.cost, f'{msg}: {g} is no subnet of this supernet')
        cost = w.cost[k]
        if k in start:
            continue
        expect(inside(cfg, cost), f'{msg}: {g} costs {cost}, outside '
               f'{cfg.get("constraints_range")}')
        if cfg.get('constraints_range'):
            expect((f, p, l) == (cost, cost / 2, cost / 4),
                   f'{msg}: {g} is recorded with {(f, p, l)}, it costs '
                   f'{cost}')
    if scores is not None:
        for g, k, s, *_ in entries(c):
            expect(abs(s - round(scores[k], 2)) < 1e-9,
                   f'{msg}: {g} is recorded with score {s}, it has '
                   f'{scores[k]}')


def check_search(s, msg, first=0, before=None, start=(), last=None,
                 start_pool=None):
    """Everything observable of a finished search."""
    w, cfg = s.w, s.cfg
    last = cfg['max_epochs'] if last is None else last
    expect(sorted(s.pkls) == list(range(first + 1, last + 1)),
           f'{msg}: checkpoints of epochs {sorted(s.pkls)}, expected '
           f'{first + 1}..{last}')
    top_old, pool_old = before or ([], start_pool or [])
    pos = 0
    rnd = lambda k: round(s.scores[k], 2)  # noqa
    for e in range(first + 1, last + 1):
        m = f'{msg} epoch {e}'
        d = s.pkls[e]
        expect(d['_epoch'] == e, f'{m}: says epoch {d["_epoch"]}')
        done = s.eval.log[pos:s.marks[e]]
        pos = s.marks[e]
        n = max(cfg['num_candidates'], len(pool_old))
        expect(len(done) == n, f'{m}: {len(done)} candidates evaluated, '
               f'expected {n}')
        expect([s.w.out[a].shape == s.w.out[b].shape and torch.allclose(
            s.w.out[a], s.w.out[b], atol=1e-5)
            for a, b in zip(done, pool_old)] == [True] * len(pool_old),
            f'{m}: the offspring {pool_old} were not evaluated: {done}')
        top = d['top_k_candidates']
        check_pool(w, cfg, top, f'{m} survivors', s.scores, start)
        want = sorted([rnd(k) for k in done] + [x[2] for x in top_old],
                      reverse=True)[:cfg['top_k']]
        expect(top.scores == want, f'{m}: the survivors score {top.scores}, '
               f'the best so far are {want}')
        same_as = [x[1] for x in top_old] + done
        for _, k, *_ in entries(top):
            expect(any(k == q or torch.allclose(w.out[k], w.out[q],
                                                atol=1e-5)
                       for q in same_as), f'{m}: survivor {k} was never '
                   'evaluated')
        olds = [x[2] for x in top_old]
        expect(all(a >= b for a, b in zip(top.scores, olds)),
               f'{m}: a survivor was lost: {olds} -> {top.scores}')
        pool = d['candidates']
        check_pool(w, cfg, pool, f'{m} offspring', start=())
        expect(len(pool) <= cfg['num_mutation'] + cfg['num_crossover'],
               f'{m}: {len(pool)} offspring')
        if all(inside(cfg, c) for c in w.cost.values()):
            expect(len(pool) == cfg['num_mutation'] + cfg['num_crossover'],
                   f'{m}: only {len(pool)} offspring')
        keep = cfg['max_keep_ckpts']
        have = list(range(max(1, e - keep + 1) if keep > 0 else 1, e + 1))
        if first == 0:
            expect(s.listing[e] == have, f'{m}: checkpoints {s.listing[e]} '
                   f'are kept, expected {have}')
        top_old, pool_old = entries(top), [x[1] for x in entries(pool)]
    expect(s.hooks.count('before_train') == 1
           and s.hooks.count('after_train') == 1,
           f'{msg}: hooks {s.hooks}')
    check_final(s, msg, top_old)


def check_final(s, msg, top):
    from mmengine import fileio
    from mmrazor.structures import load_fix_subnet
    files = os.listdir(s.tmp)
    expect('best_fix_subnet.yaml' in files, f'{msg}: no subnet saved')
    pth = [f for f in files if f.endswith('.pth')]
    expect(len(pth) == 1, f'{msg}: weight files {pth}')
    best = top[0][1]
    want = s.w.out[best]
    rec = fileio.load(os.path.join(s.tmp, 'best_fix_subnet.yaml'))
    net = Algo(s.w.kinds)
    net.load_state_dict(s.w.algo.state_dict())
    load_fix_subnet(net, copy.deepcopy(rec))
    net.eval()
    with torch.no_grad():
        P10.same(net(P10.x0()), want, f'{msg}: the saved subnet is not the '
                 'best one')
        sd = torch.load(os.path.join(s.tmp, pth[0]))['state_dict']
        for p in net.parameters():
            p.data.zero_()
        net.load_state_dict(sd)
        P10.same(net(P10.x0()), want, f'{msg}: the saved weights are not '
                 'those of the best subnet')


class Rot:
    """Rotating defaults: deviation 0 is not always the first answer."""

    def __init__(self, ch, rot):
        self.ch, self.rot, self.i = ch, rot, 0

    def __call__(self, n, label=''):
        c = self.ch(n, label)
        self.i += 1
        if not self.rot:
            return c
        mix = (self.i * 7919 + self.rot) * 1103515245 + 12345
        return (c + (mix >> 12) % 9973) % n


# ------------------------------------------------------------------ scopes
def ranges(w):
    c = sorted(set(w.cost.values()))
    mid = c[len(c) // 2]
    return dict(none=None, all=dict(flops=(0., 1e9)),
                upto=dict(flops=(0., mid)), scalar=dict(params=mid / 2),
                over=dict(flops=(mid, 1e9)),
                two=dict(flops=(c[0], c[-1]), latency=(mid / 4, c[-1] / 4)),
                exact=dict(flops=[mid, mid]))


def scope_search(ctx, spec):
    """One configuration, all draws within the deviation bound."""
    kinds, over, rng, tab, rot = spec
    w = world(tuple(kinds))
    setup()
    cfg = dict(BASE, **over)
    cfg['constraints_range'] = ranges(w)[rng]
    scores = table(w, tab)
    dev = 2 if ctx.thorough and cfg['max_epochs'] <= 2 else 1

    def one(ch):
        with tempfile.TemporaryDirectory() as tmp:
            s = Search(w, cfg, scores, tmp)
            with own_random(Rot(ch, rot)):
                s.run()
            ctx.step(len(s.eval.log))
            check_search(s, f'{spec} {ch.choices}')
            return [x[1] for x in entries(s.pkls[cfg['max_epochs']]
                                          ['top_k_candidates'])]

    limit = 4000 if ctx.thorough else 9
    for ch, res in explore_choices(one, dev, limit):
        if ch is None:
            ctx.cap(f'search: {limit} runs per configuration')
            break
        ctx.state((spec, ch, str(res)))


def search_specs(ctx):
    overs = [dict(), dict(num_mutation=0, num_crossover=2),
             dict(num_mutation=2, num_crossover=0), dict(top_k=1),
             dict(top_k=5), dict(max_keep_ckpts=1, max_epochs=3),
             dict(max_keep_ckpts=2, max_epochs=4),
             dict(max_keep_ckpts=-1, max_epochs=3),
             dict(num_candidates=2, num_mutation=1), dict(max_epochs=1),
             dict(num_candidates=4, num_mutation=2, num_crossover=2,
                  mutate_prob=0., crossover_prob=1.),
             dict(mutate_prob=1., crossover_prob=0.)]
    kinds = [('op', 'swap'), ('op', 'width'), ('alias', 'kernel')]
    tabs = ('up', 'down', 'flat', 'fine', 'mixed', 'one')
    rngs = ('none', 'all', 'upto', 'scalar', 'over', 'two', 'exact')
    n = 0
    for o in overs:
        for r in rngs:
            for ti, t in enumerate(tabs):
                n += 1
                if not ctx.thorough and n % 8:
                    continue
                yield (kinds[n % 3], o, r, t, 1 + n // 3 % 4)


def scope_offspring(ctx, spec):
    """The exact set of children of given parents."""
    kinds, which, kind, prob = spec
    w = world(tuple(kinds))
    setup()
    from mmrazor.structures import Candidates
    cfg = dict(BASE, constraints_range=None, num_mutation=1, num_crossover=1,
               top_k=2)
    cfg['mutate_prob' if kind == 'mutation' else 'crossover_prob'] = prob
    parents = [w.genes[w.nets[i]] for i in which]
    every = [w.genes[k] for k in w.nets]
    mates = every if kind == 'mutation' else parents
    want = set()
    for p in parents:
        for q in mates:
            if prob == 0:
                ks = [p]
            elif prob == 1:
                ks = [q]
            else:
                ks = [dict(zip(p, v)) for v in itertools.product(
                    *[(p[k], q[k]) for k in p])]
            want |= {canon(k) for k in ks}
    got = set()
    with tempfile.TemporaryDirectory() as tmp:
        s = Search(w, cfg, table(w, 'up'), tmp)

        def one(ch):
            s.loop.top_k_candidates = Candidates(
                [copy.deepcopy(p) for p in parents])
            with own_random(ch, floats=(0., .999)):
                if kind == 'mutation':
                    kids = s.loop.gen_mutation_candidates()
                else:
                    kids = s.loop.gen_crossover_candidates()
            ctx.step()
            expect(len(kids) == 1, f'{spec}: {len(kids)} children')
            expect(s.loop.top_k_candidates.subnets == parents,
                   f'{spec}: the parents changed')
            k = canon(kids.subnets[0])
            expect(k in want, f'{spec}: {kids.subnets[0]} does not descend '
                   f'from {parents} by {kind}')
            got.add(k)
        for ch, _ in explore_choices(one):
            ctx.state((spec, ch))
    expect(got == want, f'{spec}: {want - got} can never be born')


@contextlib.contextmanager
def faults(hook):
    """Every file operation can be interrupted before, amid and after."""
    import mmengine.fileio as fio
    old = fio.dump, os.remove, torch.save

    def dump(obj, file=None, *a, **k):
        hook('before dump')
        out = old[0](obj, file, *a, **k)
        try:
            hook('amid dump')
        except Crash:
            size = os.path.getsize(file)
            with open(file, 'r+b') as f:
                f.truncate(size // 2)
            raise
        hook('after dump')
        return out

    def remove(p, *a, **k):
        hook('before remove')
        old[1](p, *a, **k)
        hook('after remove')

    def save(obj, f, *a, **k):
        hook('before save')
        old[2](obj, f, *a, **k)
        try:
            hook('amid save')
        except Crash:
            if isinstance(f, str):
                with open(f, 'r+b') as g:
                    g.truncate(10)
            raise
        hook('after save')

    fio.dump, os.remove, torch.save = dump, remove, save
    try:
        yield
    finally:
        fio.dump, os.remove, torch.save = old


def scope_resume(ctx, spec):
    """Crash at any point of a search, then resume from what is on disk."""
    kinds, over, tab, rot, shard, shards = spec
    w = world(tuple(kinds))
    setup()
    cfg = dict(BASE, **over)
    cfg['constraints_range'] = ranges(w)['upto']
    scores = table(w, tab)
    total = cfg['max_epochs']

    def until(at, tmp):
        """Run to crash point ``at``; (points passed, epochs completed)"""
        n = [0, None]

        def hook(what):
            n[0] += 1
            if n[0] == at:
                n[1] = what
                raise Crash(what)
        s = Search(w, cfg, scores, tmp, hook=hook)
        with own_random(Rot(lambda n, label='': 0, rot + 1)), faults(hook):
            try:
                s.run()
            except Crash:
                pass
        return n, s

    with tempfile.TemporaryDirectory() as tmp:
        (points, _), s = until(-1, tmp)
        check_search(s, f'{spec}: uninterrupted')
    short = False
    for at in range(1 + shard, points + 1, shards):
        with tempfile.TemporaryDirectory() as tmp:
            (_, what), s = until(at, tmp)
            ctx.step()
            ctx.state((spec, at))
            msg = f'{spec}: crash at {at} ({what})'
            left = read_pkls(tmp)
            done = [e for e, d in left.items() if d is not None]
            known = max(s.marks) if s.marks else 0
            expect(not known or (done and max(done) >= known),
                   f'{msg}: epoch {known} was done, on disk is {left.keys()}')
            if not done:
                continue
            e = max(done)
            keep = cfg['max_keep_ckpts']
            d = left[e]
            expect(d['_epoch'] == e, f'{msg}: epoch {d["_epoch"]} != {e}')
            before = entries(d['top_k_candidates']), [
                x[1] for x in entries(d['candidates'])]
            path = os.path.join(tmp, f'search_epoch_{e}.pkl')

            def again(limit):
                r = Search(w, dict(cfg, max_epochs=limit), scores, tmp,
                           resume=path)
                for k in list(left):
                    if k <= e:
                        r.pkls[k] = left[k]
                with own_random(Rot(lambda n, label='': 0, rot + 2)):
                    r.run()
                got = max(r.pkls)
                for k in list(left):
                    if k <= e:
                        r.pkls.pop(k)
                return r, got
            if e < total:
                saved = {f: open(os.path.join(tmp, f), 'rb').read()
                         for f in os.listdir(tmp)
                         if os.path.isfile(os.path.join(tmp, f))}
                r, got = again(total)
                if got != total:
                    if got == max(e, total - e):
                        ctx.violation(
                            'resume', dict(spec=str(spec), at=at),
                            f'{msg}: resumed at epoch {e} of {total}, the '
                            f'search ended at epoch {got}', 'resume-epochs')
                        for f in os.listdir(tmp):
                            q = os.path.join(tmp, f)
                            if os.path.isfile(q):
                                os.remove(q)
                        for f, b in saved.items():
                            with open(os.path.join(tmp, f), 'wb') as fh:
                                fh.write(b)
                        r, got = again(total + e)
                    expect(got == total, f'{msg}: the resumed search ended '
                           f'at epoch {got} of {total}')
            else:
                r, got = again(total)
            for f in glob.glob(os.path.join(tmp, '*.pth')):
                try:
                    torch.load(f)
                except Exception:  # noqa  a torn file of the first attempt
                    os.remove(f)
            pths = sorted(glob.glob(os.path.join(tmp, '*.pth')),
                          key=os.path.getmtime)
            for f in pths[:-1]:
                os.remove(f)
            check_search(r, f'{msg}, resumed', first=e, before=before,
                         last=total)


def resume_specs(ctx):
    n = 0
    for over in (dict(max_epochs=3), dict(max_epochs=3, max_keep_ckpts=1),
                 dict(max_epochs=4, max_keep_ckpts=2, top_k=1)):
        for kinds in (('op', 'swap'), ('op', 'width')):
            for tab in ('mixed', 'up', 'down', 'one'):
                n += 1
                if not ctx.thorough and n % 4 != 1 + (n // 4) % 3 % 2:
                    continue
                for rot in range(4 if ctx.thorough else 1):
                    for shard in range(4):
                        yield (kinds, over, tab, rot, shard, 4)


def scope_start(ctx, spec):
    """Searches which start from given candidates."""
    from mmengine import fileio
    from mmrazor.structures import Candidates
    kinds, n, full, rng, ext = spec
    w = world(tuple(kinds))
    setup()
    cfg = dict(BASE, max_epochs=1 if rng == 'nothing' else 2)
    rg = ranges(w)
    cfg['constraints_range'] = dict(flops=(-2., -1.)) if rng == 'nothing' \
        else rg[rng]
    scores = table(w, 'mixed')
    pick = [w.nets[(3 * i + 1) % len(w.nets)] for i in range(n)]
    start = Candidates()
    for k in pick:
        g = copy.deepcopy(w.genes[k])
        start.append({str(g): dict(flops=w.cost[k])} if full else g)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'start.' + ext)
        if ext == 'pkl':
            fileio.dump(start, path)
        else:
            fileio.dump(start, path)
        s = Search(w, cfg, scores, tmp, init=path)
        expect(s.loop.candidates == start, f'{spec}: start candidates lost')
        with own_random(Rot(lambda n, label='': 0, 1)):
            s.run()
        ctx.step()
        ctx.state(spec)
        if rng == 'nothing':
            # no child can pass: the search gives up, but still reports
            expect(len(s.pkls[1]['candidates']) == 0,
                   f'{spec}: children outside the constraints')
            check_final(s, str(spec),
                        entries(s.pkls[1]['top_k_candidates']))
        else:
            check_search(s, str(spec), start=set(pick), start_pool=pick)


def scope_predict(ctx, spec):
    """The predictor is trained on true scores, then replaces evaluation."""
    from mmengine import fileio
    from mmrazor.structures import Candidates
    kinds, how, samples, tab = spec
    w = world(tuple(kinds))
    _, P = setup()
    cfg = dict(BASE, constraints_range=ranges(w)['upto'])
    scores = table(w, tab)
    P.log.clear()
    with tempfile.TemporaryDirectory() as tmp:
        pc = dict(type='McPredictor')
        given = []
        if how == 'sample':
            pc['train_samples'] = samples
        elif how == 'given':
            path = os.path.join(tmp, 'train.pkl')
            c = Candidates()
            for i in range(samples):
                k = w.nets[i % len(w.nets)]
                c.append({str(w.genes[k]): dict(score=scores[k])})
                given.append(k)
            fileio.dump(dict(subnets=c), path)
            pc['train_samples'] = path
        else:
            pc['handler_ckpt'] = os.path.join(tmp, 'handler.pkl')
        s = Search(w, cfg, scores, tmp, predictor=pc)
        with own_random(Rot(lambda n, label='': 0, 1)):
            s.run()
        ctx.step()
        ctx.state(spec)
        log = list(P.log)
        kinds_ = [x[0] for x in log]
        expect(kinds_[0] == ('load' if how == 'load' else 'fit'),
               f'{spec}: the predictor saw {kinds_}')
        expect('predict' in kinds_, f'{spec}: the predictor that was made '
               'ready is never asked')
        if how == 'load':
            expect(log[0][1] == pc['handler_ckpt'], 'wrong checkpoint')
            expect(not s.eval.log, f'{spec}: evaluated although predicted')
            tail = log[1:]
        else:
            x, y = log[0][1:]
            expect(log[1][0] == 'save' and tmp in log[1][1],
                   f'{spec}: the predictor is not saved')
            tail = log[2:]
            if how == 'given':
                expect(x == given, f'{spec}: trained on {x}, given {given}')
                expect(not s.eval.log, f'{spec}: evaluated although given')
            else:
                expect(len(x) == samples and len(s.eval.log) == samples,
                       f'{spec}: {len(x)} samples, {len(s.eval.log)} '
                       f'evaluations, expected {samples}')
            for k, v in zip(x, y):
                expect(abs(v - round(scores[k], 2)) < 1e-9,
                       f'{spec}: trained on {k} = {v}, true {scores[k]}')
                if how == 'sample':
                    expect(inside(cfg, w.cost[k]),
                           f'{spec}: a sample outside the constraints')
        expect(all(t[0] == 'predict' for t in tail), f'{spec}: {tail}')
        # now the predictions are the scores of the search
        half = {k: v / 2 for k, v in scores.items()}
        s.scores = half
        pos, marks = 0, {}
        pools = [cfg['num_candidates'], cfg['num_candidates']]
        asked = [t[1] for t in tail]
        s.eval.log = asked
        n = 0
        for e in sorted(s.pkls):
            n += cfg['num_candidates']
            marks[e] = n
        s.marks = marks
        for e in s.pkls:
            s.listing[e] = list(range(1, e + 1))
        check_search(s, f'{spec}: predicted')


def scope_check(ctx, spec):
    """Constraint bounds: inclusive, every key, scalars, absent."""
    from mmrazor.engine.runner.utils import check_subnet_resources
    kinds, det, shard = spec
    w = world(tuple(kinds))
    McCount, _ = setup()
    McCount.calls, McCount.hook = 0, None
    algo = copy.deepcopy(w.algo)
    if det:
        from mmdet.models.detectors import BaseDetector

        class Det(BaseDetector):

            def __init__(self, net):
                super().__init__()
                self.backbone = net
                self.bbox_head = nn.Linear(7, 7)

            def loss(self, *a):
                pass

            predict = _forward = extract_feat = loss

        net = algo.architecture
        algo.architecture = Det(net)
        from mmrazor.registry import MODELS
        algo.mutator = MODELS.build(dict(type='NasMutator'))
        algo.mutator.prepare_from_supernet(algo.architecture)
    est = McCount()
    for k in w.nets[shard::3]:
        c = w.cost[k]
        res = dict(flops=c, params=c / 2, latency=c / 4)
        genes = copy.deepcopy(w.genes[k])
        before = copy.deepcopy(genes)
        sd = {n: v.clone() for n, v in algo.state_dict().items()}

        def ask(rng, want):
            ctx.step()
            ctx.state((spec, k, str(rng)))
            keep = copy.deepcopy(rng)
            ok, got = check_subnet_resources(algo, genes, est, rng)
            expect(bool(ok) == want, f'{spec} {genes} {rng}: {ok}, it costs '
                   f'{res}')
            if rng is not None:
                expect(got == res, f'{spec} {genes}: costs {got}, not {res}')
            expect(rng == keep and genes == before,
                   f'{spec}: the check changed its arguments')
        ask(None, True)
        ask({}, True)
        eps = (-1., 0., 1.)
        for key in res:
            v = res[key]
            for d in eps:
                ask({key: v + d}, d >= 0 and v >= 0)
                for d2 in eps:
                    for form in (tuple, list):
                        ask({key: form((v + d2, v + d))}, d2 <= 0 <= d)
        for d1, d2 in itertools.product(eps, repeat=2):
            ask(dict(flops=res['flops'] + d1, latency=(
                res['latency'] + d2, 1e9)), d1 >= 0 and d2 <= 0)
            ask(dict(params=(0, res['params'] + d1),
                     flops=(res['flops'] + d2, 1e9)), d1 >= 0 and d2 <= 0)
        for n, v in algo.named_parameters():
            expect(torch.equal(v, sd[n]), f'{spec}: the check changed {n}')
        # the supernet is still searchable
        algo.mutator.set_choices(w.genes[w.nets[0]])


def run(ctx):
    t = ctx.thorough
    KIND = [('op', 'swap'), ('op', 'width'), ('alias', 'kernel')]
    off = [(k, ps, kind, p) for k in KIND
           for ps in ((0, ), (0, 4), (2, 2), (1, 3, 7 % 6))
           for kind in ('mutation', 'crossover')
           for p in (0, .1, .5, 1)]
    ctx.parallel('offspring', off, lambda s: scope_offspring(ctx, s))
    ctx.parallel('bounds', [(k, d, i) for k in KIND for d in (0, 1)
                            for i in range(3)],
                 lambda s: scope_check(ctx, s))
    starts = [(k, n, full, rng, ext) for k in KIND for n in (1, 3, 4)
              for full in (0, 1) for rng in ('all', 'upto', 'none')
              for ext in ('pkl', 'yaml')]
    starts += [(k, 3, f, 'nothing', 'pkl') for k in KIND for f in (0, 1)]
    ctx.parallel('start', starts, lambda s: scope_start(ctx, s))
    preds = [(k, how, n, tab) for k in KIND
             for how in ('sample', 'given', 'load')
             for n in (1, 2, 5) for tab in ('mixed', 'up', 'fine')]
    ctx.parallel('predict', preds, lambda s: scope_predict(ctx, s))
    ctx.parallel('resume', list(resume_specs(ctx)),
                 lambda s: scope_resume(ctx, s))
    ctx.parallel('search', list(search_specs(ctx)),
                 lambda s: scope_search(ctx, s))
