"""Derived mutables always equal their formula over the sources."""
import itertools

import torch

from mc.core import Violation, expect
from mc.explore import bfs  # noqa

RULE = ('every expression of the derivation grammar (scale by an int or '
        'float, divide with a divisor, product with a value, concatenation, '
        'same; nested up to the depth bound) over every source kind, crossed '
        'with every assignment of the sources; the reported choice, mask, '
        'choice list and fixed flag are compared with a reference evaluator; '
        'non-trivial: a source moved after the derivation was built')
ASSUMPTIONS = [
    'sources are number-mode channel mutables and value mutables',
    'integer rounding of a scaled width truncates; divided widths follow the '
    'round-to-divisor rule with a 10% drop guard',
]


def round_div(x, d):
    r = max(d, (2 * x + d) // (2 * d) * d)
    return r + d if r < 0.9 * x else r


# A reference node: ('chan', i) / ('val', i) / (op, arg, node...)
def cur(e, env):
    op = e[0]
    if op in ('chan', 'val'):
        return env[e[1]]
    if op == 'mul':
        return int(cur(e[2], env) * e[1])
    if op == 'same':
        return cur(e[1], env)
    if op == 'div':
        return round_div(cur(e[3], env) // e[1], e[2])
    if op == 'cat':
        return sum(cur(x, env) for x in e[1:])
    if op == 'times':
        return int(cur(e[1], env) * cur(e[2], env))


def ref_mask(e, env, top):
    """None: the expression has no mask."""
    op = e[0]
    if op == 'chan':
        return pre(top[e[1]], env[e[1]])
    if op == 'val':
        return None
    if op == 'cat':
        return sum([ref_mask(x, env, top) for x in e[1:]], ())
    if op == 'same':
        return ref_mask(e[1], env, top)
    if op == 'mul':
        m = ref_mask(e[2], env, top)
        return None if m is None else pre(int(len(m) * e[1]), cur(e, env))
    if op == 'div':
        m = ref_mask(e[3], env, top)
        return None if m is None else pre(
            round_div(len(m) // e[1], e[2]), cur(e, env))
    if op == 'times':
        m = ref_mask(e[1], env, top)
        return pre(int(len(m) * top[e[2][1]]), cur(e, env))


def pre(n, k):
    return tuple(i < k for i in range(n))


def has_mask(e):
    if e[0] == 'val':
        return False
    if e[0] in ('chan', 'times', 'cat'):
        return True
    return has_mask(e[-1])


def leaves(e):
    if e[0] in ('chan', 'val'):
        return [e[1]]
    return sum([leaves(x) for x in e[1:] if isinstance(x, tuple)], [])


SOURCES = {  # name -> (kind, legal choices)
    'a': ('seq', (1, 2, 3, 4, 5, 6)),
    'b': ('one', (2, 4)),
    'v': ('val', (1, 2, 3)),
    'r': ('fval', (0.5, 1.5, 2.0)),
    'w': ('seq', (3, 8, 20, 33, 48)),
}


def make(name):
    from mmrazor.models.mutables import (OneShotMutableChannel,
                                         OneShotMutableValue,
                                         SquentialMutableChannel)
    kind, legal = SOURCES[name]
    if kind == 'seq':
        return SquentialMutableChannel(legal[-1])
    if kind == 'one':
        return OneShotMutableChannel(legal[-1], candidate_choices=list(legal))
    return OneShotMutableValue(value_list=list(legal))


def construct(e, src):
    op = e[0]
    if op in ('chan', 'val'):
        return src[e[1]]
    if op == 'same':
        return construct(e[1], src).derive_same_mutable()
    if op == 'mul':
        m = construct(e[2], src)
        return m * e[1] if e[2][0] in ('chan', 'val') else \
            m.derive_expand_mutable(e[1])
    if op == 'div':
        m = construct(e[3], src)
        if e[3][0] in ('chan', 'val'):
            return m // e[1] if e[2] == 8 else m // (e[1], e[2])
        return m.derive_divide_mutable(e[1], e[2])
    if op == 'times':
        a, b = construct(e[1], src), construct(e[2], src)
        return a * b if e[3:] != ('swap', ) else b * a
    if op == 'cat':
        from mmrazor.models.mutables import DerivedMutable
        return DerivedMutable.derive_concat_mutable(
            [construct(x, src) for x in e[1:]])


def exprs(ctx):
    base = [('chan', 'a'), ('chan', 'b'), ('chan', 'w'), ('val', 'v')]

    def unary(x):
        out = [('same', x)]
        out += [('mul', f, x) for f in (1, 2, 3, 0.5, 1.5, 2.25)]
        out += [('div', r, d, x) for r, d in ((2, 1), (3, 1), (2, 2), (4, 8),
                                              (2, 8), (1, 8))]
        return out

    one = [y for x in base for y in unary(x)]
    prod = [('times', ('chan', c), ('val', v)) + s for c in 'ab' for v in 'vr'
            for s in ((), ('swap', ))]
    one += prod
    two = [y for x in one for y in unary(x)]
    chans = [('chan', 'a'), ('chan', 'b')] + prod[::2] + [
        ('mul', 2, ('chan', 'b')), ('div', 2, 2, ('chan', 'a'))]
    cats = [('cat', x, y) for x in chans for y in chans]
    cats += [('cat', x) for x in chans]
    cats += [('cat', x, y, z) for x in chans[:3] for y in chans[:3]
             for z in chans[:3]]
    cats += [('mul', 2, c) for c in cats[:6]]
    out = one + two + cats
    if ctx.thorough:
        out += [y for x in two for y in unary(x)]
    return [e for e in out]


def numeric_ok(e):
    """The product grammar only scales integers by non-negative factors."""
    return True


def run_expr(ctx, e):
    from mmrazor.models.mutables import DerivedMutable
    names = sorted(set(leaves(e)))
    src = {n: make(n) for n in names}
    top = {n: SOURCES[n][1][-1] for n in names}
    d = construct(e, src)
    expect(isinstance(d, DerivedMutable), f'{e}: {type(d)}')
    expect(set(map(id, d.source_mutables)) == {id(src[n]) for n in names},
           f'{e}: sources {d.source_mutables}')
    grid = [SOURCES[n][1] for n in names]

    def look(env, when):
        c = d.current_choice
        expect(c == cur(e, env), lambda: f'{e} at {env} ({when}): choice {c}, '
               f'formula gives {cur(e, env)}')
        expect(d.export_chosen() == c and d.dump_chosen().chosen == c,
               f'{e} at {env}: export differs from choice')
        if has_mask(e):
            m = tuple(bool(x) for x in d.current_mask.tolist())
            w = ref_mask(e, env, top)
            expect(m == w, lambda: f'{e} at {env} ({when}): mask keeps '
                   f'{sum(m)} of {len(m)}, formula {sum(w)} of {len(w)}')
        else:
            try:
                d.current_mask
            except Exception:
                return
            raise Violation(f'{e}: a mask out of no channels')

    look(top, 'as built')
    for combo in itertools.product(*grid):
        ctx.step()
        for n, x in zip(names, combo):
            src[n].current_choice = x
        look(dict(zip(names, combo)), 'after moving the sources')
        ctx.state((e, combo))
    # refused writes leave everything as it was
    env = dict(zip(names, combo))
    for attr, val in (('current_choice', 1),
                      ('current_mask', torch.ones(1).bool()),
                      ('is_fixed', True)):
        try:
            setattr(d, attr, val)
        except Exception:
            look(env, f'refused {attr}')
            continue
        raise Violation(f'{e}: setting {attr} on a derived mutable worked')
    d.fix_chosen(1)
    look(env, 'after fix_chosen on the derived one')
    # the choice list
    if all(SOURCES[n][0] != 'seq' for n in names):
        def listed(m, n):
            return SOURCES[n][1]
        if all(hasattr(src[n], 'choices') for n in names):
            got = sorted(d.choices)
            want = sorted(cur(e, dict(zip(names, cb)))
                          for cb in itertools.product(*grid))
            expect(got == want, f'{e}: choices {got}, expected {want}')
            look(env, 'after listing the choices')
    # fixed exactly when every source is
    for n in names:
        expect(not d.is_fixed, f'{e}: fixed before {n} is')
        src[n].fix_chosen(env[n])
    expect(d.is_fixed, f'{e}: sources fixed, derived not')
    look(env, 'after fixing the sources')


def stale(ctx, spec):
    """Dividing by / expanding with another mutable keeps following it."""
    how, first = spec
    from mmrazor.models.mutables import (OneShotMutableValue,
                                         SquentialMutableChannel)
    mc = SquentialMutableChannel(48)
    mv = OneShotMutableValue([1, 2, 3], default_value=first)
    if how == 'floordiv':
        d = mc // mv
    elif how == 'derive-divide':
        d = mc.derive_divide_mutable(mv, 1)
    else:
        d = mc.derive_expand_mutable(mv)
    for x in (1, 2, 3):
        ctx.step()
        mv.current_choice = x
        want = 48 * x if how == 'derive-expand' else round_div(
            48 // x, 8 if how == 'floordiv' else 1)
        expect(d.current_choice == want,
               f'{how} built at {first}, then moved to {x}: '
               f'{d.current_choice}, expected {want}',
               f'ratio-mutable-captured-{how}')
        expect(int(d.current_mask.sum()) == d.current_choice,
               f'{how}: mask {int(d.current_mask.sum())} choice '
               f'{d.current_choice}', f'ratio-mutable-mask-{how}')


def float_ratio(ctx, spec):
    """A float divisor means the same to the choice and to the mask."""
    from mmrazor.models.mutables import SquentialMutableChannel
    n, ratio, div = spec
    mc = SquentialMutableChannel(n)
    d = mc.derive_divide_mutable(ratio, div)
    for k in range(1, n + 1):
        ctx.step()
        mc.current_choice = k
        ctx.state((spec, k))
        expect(d.current_choice == int(d.current_mask.sum()),
               f'{n} // {ratio} (divisor {div}) at {k}: choice '
               f'{d.current_choice}, mask keeps {int(d.current_mask.sum())}',
               'float-divide-mask')
        expect(d.current_choice == round_div(k // int(ratio), div),
               f'{n} // {ratio} at {k}: {d.current_choice}',
               'float-divide-mask')


def run(ctx):
    ctx.parallel('expressions', exprs(ctx), lambda e: run_expr(ctx, e))
    ctx.cases('ratio-is-a-mutable', [(h, f) for h in (
        'floordiv', 'derive-divide', 'derive-expand') for f in (1, 2, 3)],
              lambda s: stale(ctx, s))
    ctx.cases('float-divide', [(n, r, d) for n in (8, 24, 48)
                               for r in (2.0, 3.0, 4.0) for d in (1, 4, 8)],
              lambda s: float_ratio(ctx, s))
