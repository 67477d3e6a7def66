"""Greedy slimming and greedy sampling: the promised path, step by step."""
import copy
import glob
import itertools
import math
import os
import pickle
import tempfile
import types

import torch
from torch import nn

from mc.core import Violation, expect
from mc.explore import explore_choices, own_random
from mc.props import P17

RULE = ('greedy slimming: small real networks x targets x score tables, every '
        'crash point followed by resumption, each step checked against every '
        'one-step-narrower subnet; greedy sampling: every outcome of the '
        'random draws within a deviation bound x pool sizes x constraints x '
        'probability schedules, every iteration of each schedule; '
        'non-trivial: two or more steps')
ASSUMPTIONS = ['the state file is written atomically; which of equally '
               'scored subnets is taken is left open']


SHARDS = 4


class Crash(Exception):
    pass


def setup():
    P17.setup()
    # mmengine sleeps two seconds whenever a dataloader restarts
    import mmengine.runner.loops as loops
    loops.time = types.SimpleNamespace(sleep=lambda s: None)


class Net(nn.Module):

    def __init__(self, widths):
        super().__init__()
        torch.manual_seed(1)
        c = 3
        layers = []
        for w in widths:
            layers += [nn.Conv2d(c, w, 1), nn.BatchNorm2d(w), nn.Sigmoid()]
            c = w
        self.body = nn.Sequential(*layers)
        self.head = nn.Conv2d(c, 2, 1)
        for m in self.modules():
            if isinstance(m, nn.BatchNorm2d):
                m.weight.data = torch.rand_like(m.weight) + .5
                m.running_mean.normal_()

    def forward(self, x):
        return self.head(self.body(x))


class Algo(nn.Module):
    """A network with searchable widths."""

    def __init__(self, widths, choices, mode):
        super().__init__()
        from mmrazor.registry import MODELS
        self.architecture = Net(widths)
        self.mutator = MODELS.build(dict(
            type='OneShotChannelMutator',
            channel_unit_cfg=dict(
                type='OneShotMutableChannelUnit',
                default_args=dict(candidate_choices=choices,
                                  choice_mode=mode))))
        self.mutator.prepare_from_supernet(self.architecture)
        self.log = []

    def val_step(self, data):
        with torch.no_grad():
            return self.architecture(data['inputs'])

    test_step = val_step

    # sampler protocol
    def sample_subnet(self):
        return self.mutator.sample_choices()

    def train_step(self, data, optim_wrapper=None):
        self.log.append((P17.canon(self.mutator.current_choices),
                         data['i'], self.training,
                         self.architecture.training))
        return dict(loss=torch.tensor(1.))


def x0():
    g = torch.Generator().manual_seed(5)
    return torch.randn(2, 3, 2, 2, generator=g)


class World:

    def __init__(self, widths, choices, mode):
        from mmrazor.structures import export_fix_subnet
        self.args = (widths, choices, mode)
        self.algo = Algo(*self.args).eval()
        m = self.algo.mutator
        self.names = sorted(u.alias for u in m.mutable_units)
        self.cands = {u.alias: list(u.candidate_choices)
                      for u in m.mutable_units}
        self.out, self.cost, self.genes, self.bins = {}, {}, {}, {}
        for b in itertools.product(*[range(1, len(self.cands[n]) + 1)
                                     for n in self.names]):
            g = {n: self.cands[n][i - 1] for n, i in zip(self.names, b)}
            m.set_choices(g)
            k = P17.canon(m.current_choices)
            expect(k == P17.canon(g), f'chose {g}, got {k}')
            with torch.no_grad():
                self.out[k] = self.algo.architecture(x0())
            _, st = export_fix_subnet(self.algo, slice_weight=True)
            self.cost[k] = float(sum(
                p.numel() for p in st.architecture.parameters()))
            self.genes[k] = g
            self.bins[k] = b
        self.nets = list(self.out)
        for a, b in itertools.combinations(self.nets, 2):
            expect(not torch.allclose(self.out[a], self.out[b], atol=1e-5),
                   f'{a} and {b} cannot be told apart')
        self.of = {b: k for k, b in self.bins.items()}
        self.max = tuple(len(self.cands[n]) for n in self.names)

    which = P17.World.which


_W = {}


def world(spec):
    k = repr(spec)
    if k not in _W:
        _W[k] = World(*spec)
    return _W[k]


NETS = [((4, 4), [1, 2, 4], 'number'), ((4, 6), [.34, .5, 1.], 'ratio'),
        ((3, 4, 2), [.5, 1.], 'ratio')]


def score_table(w, name):
    """Score of every subnet (a function of its bins)."""
    def f(b):
        if name == 'first':      # pruning the first unit hurts least
            return sum(i * 10.**j for j, i in enumerate(b))
        if name == 'last':
            return sum(i * 10.**-j for j, i in enumerate(b))
        if name == 'flat':
            return 1.
        if name == 'negative':   # smaller is better
            return -sum((j + 2) * i for j, i in enumerate(b)) + .25
        if name == 'twist':
            return ((sum((3 * j + 1) * i * i for j, i in enumerate(b))
                     * 37) % 101) / 7.
        if name == 'zero':
            return 0.
    return {k: f(b) for k, b in w.bins.items()}


class Runner(P17.Runner):

    def __init__(self, *a):
        super().__init__(*a)
        self.optim_wrapper = 'optim'
        self.val_loop = None
        self.val_begin = 1
        self.val_interval = 1000
        self.message_hub = types.SimpleNamespace(
            update_info=lambda k, v: None)


def loader(n=2):
    class D(torch.utils.data.Dataset):
        metainfo = dict(a=1)

        def __len__(self):
            return n

        def __getitem__(self, i):
            return dict(inputs=x0(), i=i)
    return torch.utils.data.DataLoader(D(), collate_fn=lambda b: b[0])


# ------------------------------------------------------------ slimming
class Slim:

    def __init__(self, w, targets, scores, tmp, resume=None, hook=None):
        from mmrazor.registry import LOOPS
        McCount, _ = P17.setup()
        McCount.calls, McCount.hook = 0, hook
        self.w, self.tmp = w, tmp
        self.algo = copy.deepcopy(w.algo)
        self.hooks = []
        self.runner = Runner(self.algo, tmp, self.hooks)
        dl = loader()
        self.eval = P17.Eval(w, scores, 'acc')
        self.eval.size = 2
        self.eval.hook = hook
        self.states = []
        old = self.eval.evaluate

        def evaluate(size):
            self.collect()
            return old(size)
        self.eval.evaluate = evaluate
        self.loop = LOOPS.build(dict(
            type='AutoSlimGreedySearchLoop', runner=self.runner,
            dataloader=dl, evaluator=self.eval, target_flops=targets,
            estimator_cfg=dict(type='McCount'), score_key='acc',
            resume_from=resume))

    def collect(self):
        p = os.path.join(self.tmp, 'latest.pkl')
        if os.path.exists(p):
            with open(p, 'rb') as f:
                s = pickle.load(f)
            b = tuple(s['current_subnet'][n] for n in self.w.names)
            if not self.states or self.states[-1][1] != b:
                self.states.append((len(self.eval.log), b, s))

    def run(self):
        self.loop.run()
        self.collect()


def neighbours(b):
    return [b[:i] + (v - 1, ) + b[i + 1:] for i, v in enumerate(b) if v > 1]


def check_path(w, s, targets, scores, msg, start, pos=0):
    """Each recorded step follows from the one before."""
    cur = start
    for mark, b, st in s.states:
        if b == cur:
            continue
        done = s.eval.log[pos:mark]
        pos = mark
        want = [w.of[n] for n in neighbours(cur)]
        expect(sorted(done) == sorted(want), f'{msg}: from {cur} the subnets '
               f'{done} were compared, expected {want}')
        best = max(scores[k] for k in want)
        expect(w.of[b] in want and scores[w.of[b]] == best,
               f'{msg}: {cur} -> {b} scores {scores[w.of[b]]}, the best '
               f'step scores {best}')
        expect(w.cost[w.of[cur]] > min(targets), f'{msg}: slimmed although '
               f'{cur} meets every target')
        expect(st['current_flops'] == w.cost[w.of[b]],
               f'{msg}: {b} recorded with {st["current_flops"]}')
        cur = b
    expect(len(s.eval.log) == pos, f'{msg}: needless evaluations '
           f'{s.eval.log[pos:]}')
    return cur


def saved(tmp):
    return sorted(os.path.basename(f) for f in
                  glob.glob(os.path.join(tmp, 'FLOPS_*.yaml')))


def check_saved(w, tmp, path, targets, msg):
    """One exported subnet per target: the first on the path to meet it."""
    from mmrazor.structures import load_fix_subnet
    want = {}
    for t in targets:
        hit = [b for b in path if w.cost[w.of[b]] <= t]
        k = w.of[hit[0]]
        want['FLOPS_{:.2f}M.yaml'.format(w.cost[k])] = k
    expect(saved(tmp) == sorted(want), f'{msg}: saved {saved(tmp)}, '
           f'expected {sorted(want)}')
    for f, k in want.items():
        net = Algo(*w.args)
        net.load_state_dict(w.algo.state_dict())
        load_fix_subnet(net, os.path.join(tmp, f))
        net.eval()
        with torch.no_grad():
            y = net.architecture(x0())
        expect(y.shape == w.out[k].shape
               and torch.allclose(y, w.out[k], atol=1e-5),
               f'{msg}: {f} is not the subnet found')


def target_menu(w):
    c = sorted(set(w.cost.values()))
    hi, mid, lo = c[-1], c[len(c) // 2], c[0]
    return dict(one=(mid, ), full=(hi, ), least=(lo, ), two=(lo, mid),
                unsorted=(mid, lo, hi), same=(mid, mid),
                huge=(hi * 2, mid), between=(mid + .5, lo + .5),
                three=(c[-2], mid, c[1]), none=(lo - .5, ),
                partly=(mid, lo - .5))


def scope_slim(ctx, spec):
    net, tname, sname = spec
    w = world(net)
    targets = target_menu(w)[tname]
    scores = score_table(w, sname)
    ctx.state(spec)
    with tempfile.TemporaryDirectory() as tmp:
        s = Slim(w, targets, scores, tmp)
        impossible = min(targets) < min(w.cost.values())
        try:
            s.run()
        except RuntimeError:
            expect(impossible, f'{spec}: gave up on a possible target')
            s.collect()
            return
        ctx.step(len(s.eval.log))
        expect(not impossible, f'{spec}: met an impossible target')
        msg = str(spec)
        end = check_path(w, s, targets, scores, msg, w.max)
        expect(w.cost[w.of[end]] <= min(targets),
               f'{msg}: ends at {end}, above the target')
        path = [w.max] + [b for _, b, _ in s.states if b != w.max]
        check_saved(w, tmp, path, targets, msg)
        expect(s.hooks == ['before_test', 'after_test'], f'{msg}: {s.hooks}')
    return path


def scope_crash(ctx, spec):
    """Interrupt at every evaluation, estimate and file operation."""
    net, tname, sname, shard = spec
    w = world(net)
    targets = target_menu(w)[tname]
    scores = score_table(w, sname)
    with tempfile.TemporaryDirectory() as tmp:
        s = Slim(w, targets, scores, tmp)
        s.run()
        path = [w.max] + [b for _, b, _ in s.states if b != w.max]
    end = path[-1]
    n = [0]

    def count(what):
        n[0] += 1
    with tempfile.TemporaryDirectory() as tmp:
        s = Slim(w, targets, scores, tmp, hook=count)
        with files(count):
            s.run()
    for at in range(1 + shard, n[0] + 1, SHARDS):
        k = [0]

        def hook(what):
            k[0] += 1
            if k[0] == at:
                raise Crash(what)
        with tempfile.TemporaryDirectory() as tmp:
            try:
                s = Slim(w, targets, scores, tmp, hook=hook)
                with files(hook):
                    s.run()
            except Crash:
                pass
            p = os.path.join(tmp, 'latest.pkl')
            if not os.path.exists(p):
                continue
            ctx.step()
            ctx.state((spec, at))
            with open(p, 'rb') as f:
                st = pickle.load(f)
            b = tuple(st['current_subnet'][m] for m in w.names)
            r = Slim(w, targets, scores, tmp, resume=p)
            r.run()
            msg = f'{spec}: crash at {at}, resumed at {b}'
            expect(b in path, f'{msg}: not on the path')
            end2 = check_path(w, r, targets, scores, msg, b)
            expect(end2 == end, f'{msg}: ends at {end2}, not {end}')
            check_saved(w, tmp, path, targets, msg)


class files:

    def __init__(self, hook):
        self.hook = hook

    def __enter__(self):
        import mmengine.fileio as fio
        self.fio, self.old = fio, fio.dump

        def dump(*a, **k):
            self.hook('before dump')
            out = self.old(*a, **k)
            self.hook('after dump')
            return out
        fio.dump = dump

    def __exit__(self, *a):
        self.fio.dump = self.old


# ------------------------------------------------------------ sampling
def prob(cfg, i):
    a, b = cfg['schedule_start_iter'], cfg['schedule_end_iter']
    lo, hi = cfg['init_prob'], cfg['max_prob']
    if i < a:
        return lo
    if i > b:
        return hi
    t = (i - a) / (b - a)
    if cfg['prob_schedule'] == 'consine':
        t = (1 - math.cos(math.pi * t)) / 2
    return lo + (hi - lo) * t


def make_sampler(w, cfg, scores, tmp):
    from mmrazor.registry import LOOPS
    McCount, _ = P17.setup()
    McCount.calls, McCount.hook = 0, None
    algo = copy.deepcopy(w.algo)
    algo.log = []
    runner = Runner(algo, tmp, [])
    ev = P17.Eval(w, scores, 'acc')
    ev.size = 2
    loop = LOOPS.build(dict(
        type='GreedySamplerTrainLoop', runner=runner, dataloader=loader(3),
        dataloader_val=loader(2), evaluator=ev, score_key='acc',
        estimator_cfg=dict(type='McCount'), **cfg))
    return loop, algo, runner, ev


def scope_schedule(ctx, cfg):
    w = world(NETS[0])
    with tempfile.TemporaryDirectory() as tmp:
        loop, *_ = make_sampler(w, dict(cfg, max_iters=1), {}, tmp)
        last = None
        for i in range(cfg['schedule_end_iter'] + 3):
            ctx.step()
            ctx.state((str(cfg), i))
            loop.update_cur_prob(cur_iter=i)
            p, want = loop.cur_prob, prob(cfg, i)
            expect(abs(p - want) < 1e-9, f'{cfg} iteration {i}: probability '
                   f'{p}, the schedule gives {want}')
            expect(min(cfg['init_prob'], cfg['max_prob']) - 1e-9 <= p <=
                   max(cfg['init_prob'], cfg['max_prob']) + 1e-9,
                   f'{cfg} iteration {i}: {p} is out of range')
            last = p


def scope_sampler(ctx, spec):
    net, over, rng, sname, rot, cfgp = spec
    w = world(net)
    c = sorted(set(w.cost.values()))
    mid = c[len(c) // 2]
    cfg = dict(max_iters=5, num_candidates=3, num_samples=2, top_k=2,
               prob_schedule='linear', schedule_start_iter=1,
               schedule_end_iter=4, init_prob=0., max_prob=.8)
    cfg.update(over)
    cfg.update(cfgp)
    rngs = dict(all=dict(flops=(0, 1e9)), upto=dict(flops=(0, mid)))
    cfg['constraints_range'] = rngs[rng]
    scores = score_table(w, sname)

    def one(ch):
        with tempfile.TemporaryDirectory() as tmp:
            loop, algo, runner, ev = make_sampler(w, cfg, scores, tmp)
            drawn = []
            old = algo.sample_subnet

            def draw():
                g = old()
                drawn.append((loop._iter, P17.canon(g)))
                return g
            algo.sample_subnet = draw
            vals = []
            if cfg.get('val_interval'):
                runner.val_begin = cfg.get('val_begin', 1)
                runner.val_interval = cfg['val_interval']
                runner.val_loop = types.SimpleNamespace(
                    run=lambda: vals.append(loop._iter))
            marks = []
            ts = algo.train_step

            def train_step(*a, **k):
                marks.append(len(ev.log))
                return ts(*a, **k)
            algo.train_step = train_step
            units = []

            def rec(n, label=''):
                return ch(n, label)
            with own_random(P17.Rot(rec, rot)):
                try:
                    loop.run()
                except (IndexError, AssertionError) as e:
                    if isinstance(e, Violation):
                        raise
                    # nothing legal was ever drawn
                    expect(not any(P17.inside(cfg, w.cost[k])
                                   for _, k in drawn),
                           f'{spec} {ch.choices}: no candidate although '
                           f'some of {drawn} are legal')
                    return 'none'
            ctx.step(len(algo.log))
            msg = f'{spec} {ch.choices}'
            N = cfg['max_iters']
            expect(len(algo.log) == N, f'{msg}: {len(algo.log)} steps')
            expect(all(a and b for _, _, a, b in algo.log),
                   f'{msg}: trained in evaluation mode')
            expect([i for _, i, *_ in algo.log] == [j % 3 for j in range(N)],
                   f'{msg}: batches {[i for _, i, *_ in algo.log]}')
            if cfg.get('val_interval'):
                want = [i for i in range(1, N + 1)
                        if i >= runner.val_begin
                        and i % runner.val_interval == 0]
                expect(vals == want, f'{msg}: validated after {vals}, '
                       f'expected {want}')
            # re-derive the pool from the evaluations
            pool, queue, pos = [], [], 0
            for i in range(N):
                new = ev.log[pos:marks[i]]
                pos = marks[i]
                if queue:
                    expect(not new, f'{msg}: evaluated at iteration {i} '
                           f'although {queue} wait')
                else:
                    expect(new, f'{msg}: nothing evaluated at {i}')
                    fresh = [k for it, k in drawn if it == i]
                    legal = [k for k in fresh if P17.inside(cfg, w.cost[k])]
                    kept = pool
                    same = lambda a, b: torch.allclose(  # noqa
                        w.out[a], w.out[b], atol=1e-5)
                    expect(len(new) >= len(kept) and all(
                        same(a, b) for a, b in zip(new, kept)),
                        f'{msg} iteration {i}: {new} were scored, the pool '
                        f'is {kept}')
                    added = new[len(kept):]
                    repeats = cfg['num_samples'] - len(fresh)
                    expect(len(added) == len(legal) + repeats,
                           f'{msg} iteration {i}: {len(added)} added, '
                           f'expected {len(legal)} drawn + {repeats} kept')
                    left = list(added)
                    for k in legal:
                        hit = [j for j, a in enumerate(left) if same(a, k)]
                        expect(hit, f'{msg}: the draw {k} was dropped')
                        left.pop(hit[0])
                    expect(all(any(same(a, b) for b in kept) for a in left),
                           f'{msg}: {left} are not from the pool {kept}')
                    p = prob(cfg, i)
                    if p == 0 or not kept:
                        expect(repeats == 0, f'{msg}: reused at '
                               f'probability 0')
                    if p >= 1 and kept:
                        expect(repeats == cfg['num_samples'],
                               f'{msg}: drew at probability 1')
                    ranked = sorted(new, key=lambda k: -scores[k])
                    pool = ranked[:cfg['num_candidates']]
                    queue = pool[:cfg['top_k']]
                want = queue.pop(0)
                got = algo.log[i][0]
                expect(got in w.scores_of(scores, want),
                       f'{msg} iteration {i}: trained {got}, the next best '
                       f'is {want}')
                if len(w.scores_of(scores, want)) > 1:
                    # ties: follow what was taken; only counts matter
                    return 'ties'
            with open(os.path.join(tmp, 'candidates.pkl'), 'rb') as f:
                c = pickle.load(f)
            expect([P17.canon(g) for g in c.subnets] == pool
                   or sorted(c.scores) == sorted(round(scores[k], 2)
                                                 for k in pool),
                   f'{msg}: saved {c.subnets}, the pool is {pool}')
            return tuple(k for k, *_ in algo.log)

    limit = 250 if ctx.thorough else 25
    for ch, res in explore_choices(one, 2 if ctx.thorough else 1, limit):
        if ch is None:
            ctx.cap(f'sampler: {limit} runs per configuration')
            break
        ctx.state((spec, ch, str(res)))


def scores_of(self, scores, k):
    """Subnets which cannot be told from ``k`` by score."""
    return [q for q in self.nets if scores[q] == scores[k]]


World.scores_of = scores_of


def run(ctx):
    setup()
    t = ctx.thorough
    sched = [dict(prob_schedule=p, schedule_start_iter=a,
                  schedule_end_iter=b, init_prob=lo, max_prob=hi)
             for p in ('linear', 'consine')
             for a in (0, 1, 3) for b in ((4, 7, 20) if t else (4, 7))
             for lo, hi in ((0., .8), (.2, .8), (0., 1.), (.5, .5), (.1, 1.))]
    ctx.parallel('schedule', sched, lambda c: scope_schedule(ctx, c))
    names = list(target_menu(world(NETS[0])))
    slim = [(n, tn, sn) for n in NETS for tn in names
            for sn in ('first', 'last', 'flat', 'negative', 'twist', 'zero')]
    ctx.parallel('slim', slim, lambda s: scope_slim(ctx, s))
    crash = [s + (i, ) for j, s in enumerate(slim)
             if s[2] not in ('flat', 'zero') and s[1] not in ('none', 'partly')
             and (t or j % 5 == 1) for i in range(SHARDS)]
    ctx.parallel('resume', crash, lambda s: scope_crash(ctx, s))
    overs = [dict(), dict(top_k=1), dict(top_k=4), dict(num_samples=3),
             dict(num_candidates=1, top_k=1), dict(num_candidates=2),
             dict(max_iters=7), dict(val_interval=2),
             dict(val_interval=2, val_begin=3)]
    probs = [dict(), dict(init_prob=1., max_prob=1.),
             dict(prob_schedule='consine', init_prob=.6)]
    samp = []
    for i, (o, r, s, p) in enumerate(itertools.product(
            overs, ('all', 'upto'), ('first', 'negative', 'twist'), probs)):
        samp.append((NETS[i % 3], o, r, s, 1 + i % 4, p))
    if not t:
        samp = samp[::2]
    ctx.parallel('sampler', samp, lambda s: scope_sampler(ctx, s))
