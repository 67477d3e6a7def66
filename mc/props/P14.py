"""Deliveries: the student consumes exactly what the teacher produced."""
import itertools
import sys
import types

from mc.core import Violation, expect

RULE = ('every set of deliveries from a menu (functions, methods, methods '
        'inherited or overridden; own capacities) x every sequence of '
        'teacher calls, student calls, block boundaries, override switches '
        'and calls outside up to a length; each result and each queue is '
        'compared with a reference of one FIFO per delivery; non-trivial: '
        'something is both pushed and popped, or a queue is full or empty')
ASSUMPTIONS = ['single thread; targets are plain functions and methods']

SRC = '''
N = 0
def _next():
    global N
    N += 1
    return N

def f(a, b=0):
    return ('f', a, b, _next())

def g(a):
    return ['g', f(a), _next()]

class Base:
    def m(self, a, b=0):
        return ('m', a, b, _next())
    def n(self):
        return ('n', self.m(9), _next())

class Sub(Base):
    pass
'''
T = 'mc_del_target.'
MENU = {
    'f': ('FunctionOutputs', 'func_path', T + 'f'),
    'g': ('FunctionOutputs', 'func_path', T + 'g'),
    'm': ('MethodOutputs', 'method_path', T + 'Base.m'),
    'n': ('MethodOutputs', 'method_path', T + 'Base.n'),
    's': ('MethodOutputs', 'method_path', T + 'Sub.m'),
}


def target():
    mod = types.ModuleType('mc_del_target')
    exec(SRC, mod.__dict__)
    sys.modules['mc_del_target'] = mod
    return mod


def namespace(mod):
    out = {k: v for k, v in vars(mod).items()
           if not k.startswith('__') and k != 'N'}
    for c in ('Base', 'Sub'):
        out.update({f'{c}.{k}': v for k, v in vars(getattr(mod, c)).items()
                    if not k.startswith('__')})
    return out


def same_ns(mod, before, what):
    now = namespace(mod)
    expect(now.keys() == before.keys(),
           f'{what}: {set(now) ^ set(before)} left in the namespace', 'left')
    for k in now:
        expect(now[k] is before[k], f'{what}: {k} is still patched', 'left')


class Refuse(Exception):
    pass


class Ref:
    """One FIFO per delivery; nested wrappers, the last entered outermost."""

    def __init__(self, spec):
        self.spec = spec            # [(kind, capacity)]
        self.q = [[] for _ in spec]
        self.over = False
        self.on = False
        self.n = 0

    def next(self):
        self.n += 1
        return self.n

    def wrap(self, kind, body):
        """Outputs of a call of target ``kind``."""
        layers = [i for i, (k, _) in enumerate(self.spec) if k == kind] \
            if self.on else []
        return self._layer(layers, body)

    def _layer(self, layers, body):
        if not layers:
            return body()
        i = layers[-1]
        if self.over:
            if not self.q[i]:
                raise Refuse
            return self.q[i].pop(0)
        if len(self.q[i]) >= self.spec[i][1]:
            raise Refuse
        out = self._layer(layers[:-1], body)
        self.q[i].append(out)
        return out

    def f(self, a, b=0):
        return self.wrap('f', lambda: ('f', a, b, self.next()))

    def g(self, a):
        return self.wrap('g', lambda: ['g', self.f(a), self.next()])

    def m(self, a, b=0):
        return self.wrap('m', lambda: ('m', a, b, self.next()))

    def nn(self):
        return self.wrap('n', lambda: ('n', self.m(9), self.next()))

    def s(self, a):
        return self.wrap('s', lambda: self.m(a))


CALLS = {
    'f1': (lambda mod: mod.f(1), lambda r: r.f(1)),
    'f2': (lambda mod: mod.f(b=2, a=3), lambda r: r.f(3, 2)),
    'g': (lambda mod: mod.g(4), lambda r: r.g(4)),
    'm': (lambda mod: mod.Base().m(5, b=6), lambda r: r.m(5, 6)),
    'n': (lambda mod: mod.Base().n(), lambda r: r.nn()),
    's': (lambda mod: mod.Sub().m(7), lambda r: r.s(7)),
}


class Boom(Exception):
    pass


def history(ctx, spec):
    """('on'/'off' = override; '(' and ')' enter and leave the block; '!'
    leaves it with an exception; everything else is a call)."""
    dels, ops = spec
    from mmrazor.models.task_modules import DistillDeliveryManager
    mod = target()
    before = namespace(mod)
    m = DistillDeliveryManager({
        f'{i}{k}': {'type': MENU[k][0], MENU[k][1]: MENU[k][2],
                    'max_keep_data': cap}
        for i, (k, cap) in enumerate(dels)})
    expect(m.override_data is False, f'{spec}: overrides from the start')
    ref = Ref(dels)
    same_ns(mod, before, f'{spec}: building')
    for t, op in enumerate(ops):
        ctx.step()
        what = f'{spec} step {t} ({op})'
        if op == '(':
            m.__enter__()
            ref.on = True
        elif op in ')!':
            m.__exit__(*((Boom, Boom(), None) if op == '!' else
                         (None, None, None)))
            ref.on = False
            same_ns(mod, before, what)
        elif op in ('on', 'off'):
            m.override_data = ref.over = op == 'on'
            expect(all(d.override_data is ref.over
                       for d in m.deliveries.values()), what)
        else:
            real, model = CALLS[op]
            n0 = ref.n
            q0 = [list(q) for q in ref.q]
            try:
                want = model(ref)
            except Refuse:
                want = Refuse
            try:
                got = real(mod)
            except Violation:
                raise
            except Exception:
                got = Refuse
            expect((got is Refuse) == (want is Refuse),
                   f'{what}: got {got}, expected {want}', 'refusal')
            expect(got == want, f'{what}: got {got}, expected {want}',
                   'value')
            if want is not Refuse:
                expect(mod.N == ref.n, f'{what}: the target ran '
                       f'{mod.N - n0} times, expected {ref.n - n0}', 'runs')
            else:
                # how far a refused call went before is not specified
                mod.N = ref.n = max(mod.N, ref.n)
            del q0
        for i, d in enumerate(m.deliveries.values()):
            expect(list(d.data_queue) == ref.q[i],
                   f'{what}: queue of {dels[i]} holds {list(d.data_queue)}, '
                   f'expected {ref.q[i]}', 'queue')
            expect(d.data_queue.maxlen == dels[i][1], f'{what}: capacity')
    if ref.on:
        m.__exit__(None, None, None)
    same_ns(mod, before, f'{spec}: the end')
    ctx.state((dels, ops[-1] if ops else None, ref.over, ref.on,
               tuple(map(repr, ref.q))))


HITS = {'f': ('f1', 'f2', 'g'), 'g': ('g', 'f1'), 'm': ('m', 'n', 's'),
        'n': ('n', 'm'), 's': ('s', 'm')}


def history_specs(full):
    sets = [((k, c), ) for k in MENU for c in (1, 2)]
    sets += [((a, 1), (b, 2)) for a, b in (
        ('f', 'g'), ('g', 'f'), ('m', 'n'), ('f', 'm'), ('f', 'f'),
        ('m', 'm'), ('s', 's'), ('m', 's'))]
    sets += [((a, 2), (b, 1)) for a, b in (('f', 'f'), ('n', 'm'))]
    for dels in sets:
        calls = []
        for k, _ in dels:
            calls += [c for c in HITS[k] if c not in calls]
        depth = (6 if full else 5) if len(dels) == 1 else 4 + full
        if len(calls) > 3 and not full:
            depth -= 1
        alpha = calls[:4] + ['(', ')', 'on', 'off']

        def grow(ops, inside, over):
            yield tuple(ops)
            if len(ops) >= depth:
                return
            for a in alpha:
                if a == '(' and inside or a == ')' and not inside:
                    continue
                if a == 'on' and over or a == 'off' and not over:
                    continue
                if not inside and a in calls and ops.count(')') == 0 and \
                        len(ops) > 0:
                    continue    # calls outside matter before and after only
                yield from grow(
                    ops + [a], a == '(' or inside and a != ')',
                    a == 'on' or over and a != 'off')
        for ops in grow([], False, False):
            if len(ops) == depth:       # prefixes are checked on the way
                yield dels, ops
        # a training loop: teacher fills, student drains, for some rounds
        for rounds in (1, 2, 3):
            for k in itertools.product(calls, repeat=2):
                ops = []
                for _ in range(rounds):
                    ops += ['off', '(', *k, ')', 'on', '(', *k, ')']
                yield dels, tuple(ops)
                yield dels, tuple(o if o != ')' else '!' for o in ops)


def failing(ctx, spec):
    """A block which cannot be entered leaves nothing behind."""
    from mmrazor.models.task_modules import DistillDeliveryManager
    names, pos = spec
    mod = target()
    before = namespace(mod)
    cfg = [(f'{i}{k}', {'type': MENU[k][0], MENU[k][1]: MENU[k][2],
                        'max_keep_data': 1}) for i, k in enumerate(names)]
    cfg.insert(pos, ('bad', dict(type='FunctionOutputs', max_keep_data=1,
                                 func_path=T + 'missing')))
    m = DistillDeliveryManager(dict(cfg))
    ctx.step()
    try:
        with m:
            raise Violation(f'{spec}: a missing function was accepted')
    except Violation:
        raise
    except Exception:
        pass
    same_ns(mod, before, f'{spec}: failed to enter')
    mod.f(1), mod.Base().m(1)
    for d in m.deliveries.values():
        expect(not d.data_queue, f'{spec}: goes on delivering', 'left')
    ctx.state(spec)


def fail_specs():
    for k in (1, 2, 3):
        for c in itertools.product(MENU, repeat=k):
            for pos in range(k + 1):
                yield c, pos


BAD = [
    dict(type='FunctionOutputs', func_path='f', max_keep_data=1),
    dict(type='FunctionOutputs', func_path=3, max_keep_data=1),
    dict(type='MethodOutputs', method_path='Base.m', max_keep_data=1),
    dict(type='MethodOutputs', method_path=T + 'Base.zz', max_keep_data=1),
    dict(type='MethodOutputs', method_path=T + 'f.zz', max_keep_data=1),
    dict(type='MethodOutputs', method_path=T + 'Nope.m', max_keep_data=1),
    dict(type='MethodOutputs', method_path=7, max_keep_data=1),
    dict(type='FunctionInputs', func_path=T + 'f', max_keep_data=1),
    dict(type='ModuleOutputs', source='a'),
    dict(func_path=T + 'f', max_keep_data=1),
]


def bad(ctx, cfg):
    from mmrazor.models.task_modules import DistillDeliveryManager
    mod = target()
    before = namespace(mod)
    ctx.step()
    try:
        DistillDeliveryManager({'r': dict(cfg)})
    except Exception:
        pass
    else:
        raise Violation(f'{cfg} was accepted')
    same_ns(mod, before, f'{cfg}')
    ctx.state(str(cfg))


def run(ctx):
    full = ctx.thorough
    ctx.parallel('history', history_specs(full), lambda s: history(ctx, s))
    ctx.parallel('failing', fail_specs(), lambda s: failing(ctx, s))
    ctx.cases('bad', BAD, lambda s: bad(ctx, s))
