"""Recorders: see exactly the calls of their block, leave no trace."""
import contextlib
import itertools
import sys
import types

import torch
from torch import nn

from mc.core import Violation, expect

RULE = ('every set of recorders from a menu (with overlapping targets) x '
        'every body of calls up to a length x clean or exceptional exit x '
        'nesting / repetition of blocks; the record is compared with a model '
        'of the call stack and all patched namespaces with their state '
        'before; non-trivial: two recorders share a target or a block raises')
ASSUMPTIONS = ['single thread; targets are plain functions and methods']

SRC = '''
class Base:
    def m(self, a, b=0):
        return ('m', a, b)
    def p(self, a):
        return ('p', self.m(a), a)

class Sub(Base):
    pass

class Own(Base):
    def m(self, a, b=0):
        return ('own', a, b)

def f(a, b=0, *, c=0):
    return ('f', a, b, c)

def g(a):
    if a < 0:
        raise KeyError(a)
    return ['g', a] if a else ('g', f(a))
'''


def target():
    mod = types.ModuleType('mc_rec_target')
    exec(SRC, mod.__dict__)
    sys.modules['mc_rec_target'] = mod
    return mod


class Model(nn.Module):

    def __init__(self):
        super().__init__()
        # names that end like others; never called
        self.pre = nn.ModuleDict(dict(
            a=nn.Linear(1, 1), b=nn.Sequential(nn.Linear(1, 1))))
        self.a = nn.Linear(1, 1, bias=False)
        self.b = nn.Sequential(nn.Linear(1, 1, bias=False), nn.ReLU())
        with torch.no_grad():
            self.a.weight.fill_(2.)
            self.b[0].weight.fill_(3.)

    def forward(self, x):
        return self.b(self.a(x)) + self.a(x)


T = 'mc_rec_target.'
MENU = {
    'Fo': dict(type='FunctionOutputs', source=T + 'f'),
    'Fi': dict(type='FunctionInputs', source=T + 'f'),
    'Go': dict(type='FunctionOutputs', source=T + 'g'),
    'Gi': dict(type='FunctionInputs', source=T + 'g'),
    'Mo': dict(type='MethodOutputs', source=T + 'Base.m'),
    'Mi': dict(type='MethodInputs', source=T + 'Base.m'),
    'So': dict(type='MethodOutputs', source=T + 'Sub.m'),
    'Oi': dict(type='MethodInputs', source=T + 'Own.m'),
    'Po': dict(type='MethodOutputs', source=T + 'Base.p'),
    'ao': dict(type='ModuleOutputs', source='a'),
    'ai': dict(type='ModuleInputs', source='a'),
    'bo': dict(type='ModuleOutputs', source='b.0'),
    'w': dict(type='Parameter', source='b.0.weight'),
}
WHERE = {'Fo': 'f', 'Fi': 'f', 'Go': 'g', 'Gi': 'g', 'Mo': 'Base.m',
         'Mi': 'Base.m', 'So': 'Sub.m', 'Oi': 'Own.m', 'Po': 'Base.p',
         'ao': 'a', 'ai': 'a', 'bo': 'b.0'}

# event -> (callable, the calls it makes: target, inputs, output), inner
# calls first, or the exception
X = 1.5


def events(mod, model):
    def ev(fn, calls, out):
        return fn, calls, out
    B, S, O = mod.Base, mod.Sub, mod.Own  # noqa
    return {
        'f1': ev(lambda: mod.f(1), [('f', [1], ('f', 1, 0, 0))],
                 ('f', 1, 0, 0)),
        'fk': ev(lambda: mod.f(c=3, b=2, a=1),
                 [('f', [1, 2, 3], ('f', 1, 2, 3))], ('f', 1, 2, 3)),
        'fm': ev(lambda: mod.f(1, c=7), [('f', [1, 7], ('f', 1, 0, 7))],
                 ('f', 1, 0, 7)),
        'g0': ev(lambda: mod.g(0),
                 [('f', [0], ('f', 0, 0, 0)),
                  ('g', [0], ('g', ('f', 0, 0, 0)))],
                 ('g', ('f', 0, 0, 0))),
        'g1': ev(lambda: mod.g(1), [('g', [1], ['g', 1])], ['g', 1]),
        'g!': ev(lambda: mod.g(-1), [], KeyError),
        'Bm': ev(lambda: B().m(1, b=2), [('Base.m', [1, 2], ('m', 1, 2))],
                 ('m', 1, 2)),
        'Bp': ev(lambda: B().p(4), [('Base.m', [4], ('m', 4, 0)),
                                    ('Base.p', [4], ('p', ('m', 4, 0), 4))],
                 ('p', ('m', 4, 0), 4)),
        'Sm': ev(lambda: S().m(5), [('Sub.m', [5], ('m', 5, 0)),
                                    ('Base.m', [5], ('m', 5, 0))],
                 ('m', 5, 0)),
        'Om': ev(lambda: O().m(b=6, a=7),
                 [('Own.m', [7, 6], ('own', 7, 6))], ('own', 7, 6)),
        'x': ev(lambda: float(model(torch.tensor([X]))),
                [('a', X, 2 * X), ('b.0', 2 * X, 6 * X), ('a', X, 2 * X)],
                8 * X),
    }


def plain(v):
    if isinstance(v, torch.Tensor):
        return float(v)
    if isinstance(v, tuple) and len(v) == 1 and isinstance(
            v[0], torch.Tensor):
        return float(v[0])
    return v


def namespace(mod):
    out = {k: v for k, v in vars(mod).items() if not k.startswith('__')}
    for c in ('Base', 'Sub', 'Own'):
        out.update({f'{c}.{k}': v for k, v in vars(getattr(mod, c)).items()
                    if not k.startswith('__')})
    return out


def same_ns(mod, before, what):
    now = namespace(mod)
    expect(now.keys() == before.keys(), f'{what}: namespace has '
           f'{set(now) ^ set(before)} left', 'namespace')
    for k in now:
        expect(now[k] is before[k], f'{what}: {k} is still patched',
               'namespace')


def wanted(names, active, call):
    """What the active recorders of one call append."""
    where, inp, out = call
    return {n: (inp if n[-1] == 'i' else out) for n in names
            if n in active and WHERE.get(n) == where}


def manager(names, model):
    from mmrazor.models.task_modules import RecorderManager
    m = RecorderManager({n: dict(MENU[n]) for n in names})
    m.initialize(model)
    return m


class Boom(Exception):
    pass


def play(ev, body, log, active):
    """Run the events; mirror what the active recorders should see."""
    for e in body:
        if e == '!':
            raise Boom
        fn, calls, out = ev[e]
        for c in calls:
            for n in active:
                if WHERE.get(n) == c[0]:
                    log[n].append(c[1] if n[-1] == 'i' else c[2])
        if out is KeyError:
            try:
                fn()
            except KeyError:
                continue
            raise Violation(f'{e}: the exception was swallowed')
        got = fn()
        expect(got == out, f'{e}: returned {got}, expected {out}')


def check_log(m, names, log, what, shadowed=()):
    """``shadowed``: what the recorders of a method see less once another
    recorder took hold of the method through a subclass which inherits it."""
    for n in names:
        r = m.get_recorder(n)
        if n == 'w':
            expect(len(r.data_buffer) == 1 and float(
                r.get_record_data()) == 3., f'{what}: {r.data_buffer}')
            continue
        got = [plain(v) for v in r.data_buffer]
        if n in shadowed:
            expect(got == log[n] or got != shadowed[n], f'{what}: {n} '
                   f'recorded {got}, the calls were {log[n]}',
                   'inherited-shadow')
        expect(got == log[n], f'{what}: {n} recorded {got}, the calls were '
               f'{log[n]}', f'record-{n}')
        for i, v in enumerate(log[n]):
            expect(plain(r.get_record_data(i)) == v,
                   f'{what}: record {i} of {n}')
            if isinstance(v, (list, tuple)) and not isinstance(
                    r.data_buffer[i][0], torch.Tensor):
                for j in range(len(v)):
                    expect(r.get_record_data(i, j) == v[j],
                           f'{what}: record {i},{j} of {n}')
                refuse(lambda: r.get_record_data(i, len(v)), what)
        refuse(lambda: r.get_record_data(len(log[n])), what)


def refuse(fn, what):
    try:
        got = fn()
    except Exception:
        return
    raise Violation(f'{what}: accepted, gave {got}')


def blocks(ctx, spec):
    """Consecutive blocks of one manager with activity in between."""
    names, bodies = spec
    mod, model = target(), Model()
    before = namespace(mod)
    ev = events(mod, model)
    m = manager(names, model)
    same_ns(mod, before, f'{spec}: building')
    for i, body in enumerate(bodies):
        ctx.step()
        log = {n: [] for n in names}
        play(ev, ('f1', 'Sm', 'x'), log, ())
        try:
            with m:
                play(ev, body, log, names)
        except Boom:
            pass
        what = f'{spec} block {i}'
        same_ns(mod, before, what)
        play(ev, ('f1', 'Sm', 'x'), log, ())
        check_log(m, names, log, what)
        ctx.state((spec, i))


def nested(ctx, spec):
    """Teacher and student managers, nested; the inner may end early."""
    outer, inner, body, tail = spec
    mod, model = target(), Model()
    before = namespace(mod)
    ev = events(mod, model)
    mo, mi = manager(outer, model), manager(inner, model)
    ctx.step()
    lo = {n: [] for n in outer}
    li = {n: [] for n in inner}
    try:
        with mo:
            b4 = namespace(mod)
            with mi:
                for e in body:
                    if e == '!':
                        raise Boom
                    tmp = {n: [] for n in MENU}
                    play(ev, (e, ), tmp, set(outer) | set(inner))
                    for n in outer:
                        lo[n] += tmp[n]
                    for n in inner:
                        li[n] += tmp[n]
            same_ns(mod, b4, f'{spec}: inner block')
            play(ev, tail, lo, outer)
    except Boom:
        pass
    same_ns(mod, before, f'{spec}')
    check_log(mo, outer, lo, f'{spec} outer')
    less = {}
    if 'So' in outer:
        lost = {'Mi': [5], 'Mo': ('m', 5, 0)}
        less = {n: [v for v in li[n] if v != lost[n]]
                for n in inner if n in lost}
    check_log(mi, inner, li, f'{spec} inner', less)
    ctx.state(spec)


def failing(ctx, spec):
    """A block which cannot be entered leaves nothing behind."""
    names, pos = spec
    mod, model = target(), Model()
    m = manager(names, model)
    from mmrazor.models.task_modules import RecorderManager
    cfg = [(n, dict(MENU[n])) for n in names]
    cfg.insert(pos, ('bad', dict(type='FunctionOutputs',
                                 source=T + 'missing')))
    m = RecorderManager(dict(cfg))
    m.initialize(model)
    before = namespace(mod)
    ctx.step()
    try:
        with m:
            raise Violation(f'{spec}: a missing function was accepted')
    except Violation:
        raise
    except Exception:
        pass
    same_ns(mod, before, f'{spec}: failed to enter', )
    log = {n: [] for n in names}
    play(events(mod, model), ('f1', 'g0', 'Bm', 'x'), log, ())
    for n in names:
        if n != 'w':
            expect(not m.get_recorder(n).data_buffer,
                   f'{spec}: {n} goes on recording', 'failed-enter')
    ctx.state(spec)


BAD = [
    dict(type='FunctionOutputs', source='f'),
    dict(type='FunctionOutputs', source=3),
    dict(type='MethodOutputs', source='Base.m'),
    dict(type='MethodOutputs', source=T + 'Base.zz'),
    dict(type='MethodOutputs', source=T + 'f.zz'),
    dict(type='MethodInputs', source=T + 'Nope.m'),
    dict(type='ModuleOutputs', source='zz'),
    dict(type='ModuleInputs', source='b.7'),
    dict(type='Parameter', source='a.bias'),
    dict(type='Nothing', source='a'),
]


def bad(ctx, cfg):
    from mmrazor.models.task_modules import RecorderManager
    mod, model = target(), Model()
    before = namespace(mod)
    ctx.step()

    def go():
        m = RecorderManager({'r': dict(cfg)})
        m.initialize(model)
    refuse(go, f'{cfg}')
    same_ns(mod, before, f'{cfg}')
    ctx.state(str(cfg))


def subsets(full):
    names = list(MENU)
    for k in (1, 2, 3):
        for c in itertools.permutations(names, k) if k < 3 else \
                itertools.combinations(names, k):
            shared = len({WHERE.get(n, n) for n in c}) < len(c)
            if k == 3 and not (full or shared):
                continue
            if k == 2 and not shared and list(c) != sorted(
                    c, key=names.index):
                continue
            yield c


BODY = ('f1', 'fk', 'fm', 'g0', 'g1', 'g!', 'Bm', 'Bp', 'Sm', 'Om', 'x', '!')


def block_specs(full):
    for names in subsets(full):
        hit = {WHERE.get(n) for n in names}
        use = [e for e in BODY if full or e in ('!', 'g!') or
               {dict(f1='f', fk='f', fm='f', g0='g', g1='g', Bm='Base.m',
                     Bp='Base.p', Sm='Sub.m', Om='Own.m', x='a').get(e)} & hit
               or e == 'g0' and 'f' in hit or e in ('Bp', 'Sm')
               and 'Base.m' in hit or e == 'x' and 'b.0' in hit]
        bodies = list(itertools.product(use, repeat=2))
        if len(names) < 3 and full:
            bodies += list(itertools.product(use[:6], repeat=3))
        for b in bodies:
            yield names, (b, )
        yield names, (tuple(use[:-1]), ('!', ), tuple(use[:-1]), ())


def nest_specs(full):
    singles = [(n, ) for n in MENU if n != 'w']
    pairs = [('Fo', 'Fi'), ('Mo', 'Mi'), ('Mo', 'So'), ('ao', 'ai')]
    for o in singles + pairs:
        for i in singles + pairs:
            for body in (('f1', ), ('g0', 'Bp'), ('Sm', 'x', 'Om'), ('!', ),
                         ('f1', 'Bm', '!')):
                yield o, i, body, ('f1', 'Bm', 'x')


def fail_specs(full):
    names = list(MENU)
    for k in (1, 2) if not full else (1, 2, 3):
        for c in itertools.combinations(names, k):
            for pos in range(k + 1):
                yield c, pos


def run(ctx):
    full = ctx.thorough
    ctx.parallel('blocks', block_specs(full), lambda s: blocks(ctx, s))
    ctx.parallel('nested', nest_specs(full), lambda s: nested(ctx, s))
    ctx.parallel('failing', fail_specs(full), lambda s: failing(ctx, s))
    ctx.cases('bad', BAD, lambda s: bad(ctx, s))
