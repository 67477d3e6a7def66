"""Search groups partition the search space; sampling round-trips."""
import itertools

import torch
from torch import nn

from mc.core import Violation, expect
from mc.explore import explore_choices, own_random

RULE = ('every supernet of up to S searchable slots (candidate ops and '
        'values, three alias settings, with or without derived values) x '
        'every user grouping in the bound: the built groups are compared '
        'with a reference partition; then every outcome of every random draw '
        'of a sample is set and read back; non-trivial: >= 2 slots')
ASSUMPTIONS = [
    'members the user puts into one group offer the same candidates',
    'each derived value has one source in the supernet',
]

LEGAL = {'O': ['a', 'b'], 'V': [1, 2, 3]}


def op(alias):
    from mmrazor.models.mutables import OneShotMutableOP
    return OneShotMutableOP(
        candidates=nn.ModuleDict(
            dict(a=Scale(2.), b=Scale(3.))), alias=alias)


class Scale(nn.Module):

    def __init__(self, k):
        super().__init__()
        self.k = k

    def forward(self, x):
        return x * self.k


def value(alias):
    from mmrazor.models.mutables import OneShotMutableValue
    return OneShotMutableValue(value_list=[3, 1, 2], alias=alias)


class Net(nn.Module):

    def __init__(self, slots):
        super().__init__()
        self.sources = {}   # canonical name -> mutable
        self.names = {}     # every name -> canonical name
        self.alias = {}
        blk = nn.Module()
        self.blk = blk
        for i, (kind, alias, derived) in enumerate(slots):
            host, pre = (self, '') if i % 2 == 0 else (blk, 'blk.')
            n = f's{i}'
            m = op(alias) if kind == 'O' else value(alias)
            name = pre + n
            if derived == 'before':
                setattr(host, f'd{i}', m * 2)
                self.names[pre + f'd{i}'] = name
            setattr(host, n, m)
            self.names[name] = name
            if derived == 'after':
                setattr(host, f'd{i}', m * 2)
                setattr(host, f'e{i}', m // (2, 1))
                self.names[pre + f'd{i}'] = name
                self.names[pre + f'e{i}'] = name
            if derived == 'only':  # reachable through the derived one alone
                delattr(host, n)
                setattr(host, f'd{i}', m * 2)
                del self.names[name]
                name = pre + f'd{i}'
                self.names[name] = name
            self.sources[name] = m
            self.alias[name] = alias


def ref_groups(net, custom):
    """None: the grouping is illegal."""
    aliases = {}
    for n, a in net.alias.items():
        if a is not None:
            aliases.setdefault(a, []).append(n)
    used, groups = [], []
    flat = [k for g in custom for k in g]
    for k in flat:
        if k not in aliases and k not in net.names:
            return None
    for k in flat:
        if k in aliases:
            for n, c in net.names.items():
                if c in aliases[k] and n in flat:
                    return None
    if len(set(flat)) != len(flat):
        return None
    for g in custom:
        cur = []
        for k in g:
            for n in (aliases[k] if k in aliases else [net.names[k]]):
                if n not in cur:
                    cur.append(n)
        groups.append(cur)
        used += cur
    for a, ns in aliases.items():
        rest = [n for n in ns if n not in used]
        if rest:
            groups.append(rest)
            used += rest
    for n in net.sources:
        if n not in used:
            groups.append([n])
    return groups


def kind_of(m):
    from mmrazor.models.mutables import OneShotMutableOP
    return 'O' if isinstance(m, OneShotMutableOP) else 'V'


def prepare(slots, custom):
    from mmrazor.models.mutators import NasMutator
    net = Net(slots)
    mut = NasMutator(custom_groups=[list(g) for g in custom] or None)
    mut.prepare_from_supernet(net)
    return net, mut


def groups(ctx, spec):
    slots, custom = spec
    net = Net(slots)
    want = ref_groups(net, custom)
    ctx.step()
    if want is None:
        try:
            _, mut = prepare(slots, custom)
        except Exception:
            ctx.state((spec, 'refused'))
            return
        raise Violation(f'{slots}: illegal grouping {custom} accepted: '
                        f'{sorted(mut.search_groups)}')
    net, mut = prepare(slots, custom)
    name_of = {id(m): n for n, m in net.sources.items()}
    got = mut.search_groups
    seen = []
    for gname, members in got.items():
        names = sorted({name_of[id(m)] for m in members})
        for n in names:
            expect(n not in [x for s in seen for x in s],
                   f'{slots} {custom}: {n} is in two groups of {list(got)}',
                   'several-groups')
        seen.append(names)
        prefix = gname.rsplit('_', 1)[0]
        expect(prefix == ('module' if kind_of(members[0]) == 'O' else
                          'value'), f'{gname} holds {names}')
    expect(sorted(seen) == sorted(sorted(g) for g in want),
           f'{slots} custom={custom}: groups {sorted(seen)}, expected '
           f'{sorted(want)}')
    idx = [g.rsplit('_', 1)[1] for g in got]
    expect(len(set(idx)) == len(idx), f'group names {list(got)}')
    # building again gives the same groups under the same names
    again = {k: [name_of[id(m)] for m in v] for k, v in got.items()}
    mut.prepare_from_supernet(net)
    expect({k: [name_of[id(m)] for m in v]
            for k, v in mut.search_groups.items()} == again,
           f'{slots}: preparing twice changes the groups')
    ctx.state(spec)


def snapshot(net):
    return {n: m.current_choice for n, m in net.sources.items()}


def sampling(ctx, spec):
    slots, custom = spec
    net, mut = prepare(slots, custom)
    got = mut.search_groups
    name_of = {id(m): n for n, m in net.sources.items()}
    seen = set()

    def one(ch):
        before = snapshot(net)
        with own_random(ch):
            s = mut.sample_choices()
        expect(snapshot(net) == before, f'{slots}: sampling moved the net')
        return s

    for ch, s in explore_choices(one):
        ctx.step()
        expect(set(s) == set(got), f'{slots}: sampled keys {sorted(s)}')
        for g, members in got.items():
            expect(s[g] in LEGAL[kind_of(members[0])],
                   f'{slots}: sampled {s[g]} for {g}')
        mut.set_choices(s)
        cur = mut.current_choices
        expect(cur == s, f'{slots} {custom}: set {s}, reads back {cur}')
        for g, members in got.items():
            for m in members:
                expect(m.current_choice == s[g],
                       f'{name_of[id(m)]} is at {m.current_choice} after '
                       f'its group {g} was set to {s[g]}')
        x = torch.ones(1)
        for n, m in net.sources.items():
            if kind_of(m) == 'O':
                k = {'a': 2., 'b': 3.}[m.current_choice]
                expect(float(m(x)) == k, f'{n} at {m.current_choice} computes '
                       f'{float(m(x))}')
        seen.add(tuple(sorted((n, str(v)) for n, v in snapshot(net).items())))
        ctx.state((spec, tuple(sorted((k, str(v)) for k, v in s.items()))))
    # whatever the members were at before, setting an assignment wins
    if any(len(ms) > 1 for ms in got.values()):
        names = list(net.sources)
        for prior in itertools.product(
                *[LEGAL[kind_of(net.sources[n])] for n in names]):
            for target in sorted(seen):
                t = dict(target)
                for n, v in zip(names, prior):
                    net.sources[n].current_choice = v
                by_str = {n: {str(v): v for v in LEGAL[kind_of(m)]}[t[n]]
                          for n, m in net.sources.items()}
                ctx.step()
                mut.set_choices({g: by_str[name_of[id(ms[0])]]
                                 for g, ms in got.items()})
                expect(snapshot(net) == by_str,
                       f'{slots} {custom}: from {dict(zip(names, prior))} '
                       f'setting {by_str} gives {snapshot(net)}',
                       'set-from-any-state')
    want = 1
    for members in got.values():
        want *= len(LEGAL[kind_of(members[0])])
    expect(len(seen) == want, f'{slots} {custom}: sampling reaches '
           f'{len(seen)} of {want} subnets', 'unreachable-subnets')
    # extremes
    if all(kind_of(m) == 'V' for ms in got.values() for m in ms):
        for label, setter, prop, v in (
                ('max', mut.set_max_choices, lambda: mut.max_choices, 3),
                ('min', mut.set_min_choices, lambda: mut.min_choices, 1)):
            ctx.step()
            setter()
            expect(all(x == v for x in snapshot(net).values()),
                   f'{slots}: set_{label}_choices gives {snapshot(net)}')
            expect(prop() == {g: v for g in got} ==
                   mut.sample_choices(label), f'{slots}: {label} choices')
    # an assignment for another search space is refused, nothing to guess
    short = dict(s)
    short.pop(next(iter(short)))
    try:
        mut.set_choices(short)
    except Exception:
        pass
    else:
        raise Violation(f'{slots}: an assignment missing a group was accepted')
    for g, members in got.items():
        if kind_of(members[0]) == 'V':
            bad = dict(s)
            bad[g] = 7
            try:
                mut.set_choices(bad)
            except Exception:
                continue
            raise Violation(f'{slots}: {g}=7 accepted')


def slot_kinds():
    for a in (None, 'x', 'y'):
        yield ('O', a, None)
    for a in (None, 'x'):
        for d in (None, 'before', 'after', 'only'):
            yield ('V', a, d)


def consistent(slots):
    """One alias never mixes kinds."""
    kinds = {}
    for k, a, _ in slots:
        if a is not None and kinds.setdefault(a, k) != k:
            return False
    return True


def nets(n):
    for slots in itertools.product(list(slot_kinds()), repeat=n):
        if consistent(slots):
            yield slots


def customs(net):
    keys = sorted(net.names) + sorted(
        {a for a in net.alias.values() if a is not None})

    def kind(k):
        for n, a in net.alias.items():
            if a == k:
                return kind_of(net.sources[n])
        return kind_of(net.sources[net.names[k]])

    def homogeneous(g):
        return len({kind(k) for k in g}) == 1

    def canon(g):
        return [net.names.get(k, k) for k in g]

    singles = [(k, ) for k in keys]
    pairs = [p for p in itertools.permutations(keys, 2) if homogeneous(p)]
    for g in singles + pairs:
        # the same mutable under two names is the user's mistake
        if len(set(canon(g))) == len(canon(g)):
            yield (g, )
    for g, h in itertools.combinations(singles + pairs[::2], 2):
        c = canon(g) + canon(h)
        if len(set(c)) == len(c):
            yield (g, h)
    yield (('nowhere', ), )
    if keys:
        yield ((keys[0], 'nowhere'), )
        yield ((keys[0], ), (keys[0], ))


def run(ctx):
    top = 3
    gs = []
    for n in range(1, top + 1):
        for slots in nets(n):
            gs.append((slots, ()))
            if n <= 2 or ctx.thorough:
                gs += [(slots, c) for c in customs(Net(slots))]
    for slots in [(('O', None, None), ) * 3,
                  (('O', 'x', None), ) * 3,
                  (('O', 'x', None), ('O', 'x', None), ('O', 'y', None)),
                  (('V', None, None), ) * 3,
                  (('V', 'x', 'after'), ('V', None, 'before'),
                   ('V', 'x', None))]:
        gs += [(slots, c) for c in customs(Net(slots))]
    ctx.parallel('groups', gs, lambda s: groups(ctx, s))
    ss = []
    for n in range(1, top + 1):
        for slots in nets(n):
            ss.append((slots, ()))
            if n == 2:
                for c in customs(Net(slots)):
                    net = Net(slots)
                    if ref_groups(net, c) is not None:
                        ss.append((slots, c))
    ctx.parallel('sampling', ss, lambda s: sampling(ctx, s))
