"""C08: search groups partition the searchable modules; choices go through."""
import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.mutables import (DerivedMutable, DiffMutableOP,
                                     OneShotMutableValue)
from mmrazor.models.mutables.mutable_module import MutableModule
from mmrazor.models.mutables.mutable_value import MutableValue
from mmrazor.models.mutables.mutable_channel import BaseMutableChannel
from mmrazor.models.mutators import NasMutator
from pbt.core import Sub
from pbt.nas import Super, super_spec
from pbt.nnutil import rand_tensor, randomize

PID = 'C08'
RULE = ('at least two searchable modules, and an alias used twice, a custom '
        'group of several members, a derived choice or a searchable channel')
ASSUMPTIONS = ['members of one group have the same candidates',
               'operator choices are all sampled or all differentiable']


class Extra(nn.Module):
    """Value choices plus choices derived from them."""

    def __init__(self, vals, derived):
        super().__init__()
        self.first = nn.ModuleList()
        mk = [OneShotMutableValue(value_list=list(v['c']), alias=v['alias'])
              for v in vals]
        for d in derived:
            if d['front']:
                self.first.append(self.make(mk, d))
        self.vals = nn.ModuleList(
            [m for m, v in zip(mk, vals) if v['reg']])
        self.late = nn.ModuleList(
            [self.make(mk, d) for d in derived if not d['front']])
        self.all_values = [mk]

    def make(self, mk, d):
        v = mk[d['of'] % len(mk)]
        return v * d['k']


@st.composite
def case(draw):
    spec = draw(super_spec(max_blocks=5))
    vals = [dict(c=c, alias=a, reg=r) for c, a, r in draw(st.lists(st.tuples(
        st.sampled_from([[1, 2], [1, 2, 3], [4, 2]]),
        st.sampled_from([None, 'v', 'w', 'u']), st.booleans()), max_size=3))]
    seen = {}
    for v in vals:  # one alias, one candidate list
        if v['alias'] and seen.setdefault(v['alias'], v['c']) != v['c']:
            v['alias'] = None
    der = []
    if vals:
        for _ in range(draw(st.integers(0, 2))):
            der.append(dict(of=draw(st.integers(0, 2)),
                            k=draw(st.integers(2, 4)),
                            front=draw(st.booleans())))
    return dict(spec=spec, vals=vals, der=der,
                custom=draw(st.sampled_from(
                    ['none', 'names', 'alias', 'bad', 'dup', 'both'])),
                kinds=draw(st.lists(st.sampled_from(
                    ['random', 'random', 'min', 'max', 'twist']),
                    min_size=1, max_size=4)),
                seed=draw(st.integers(0, 9999)))


class Top(nn.Module):

    def __init__(self, net, extra, flat=False):
        super().__init__()
        self.net = net
        if extra is not None:
            self.extra = extra
            if flat:  # searchable modules right below the root
                for i, m in enumerate(extra.vals):
                    setattr(self, f'v{i}', m)
                for i, m in enumerate(extra.late):
                    setattr(self, f'd{i}', m)
                extra.vals, extra.late = nn.ModuleList(), nn.ModuleList()


def cands(m):
    if isinstance(m, OneShotMutableValue):
        return [repr(x) for x in m.choices]
    if isinstance(m, MutableModule):
        return [repr(x) for x in sorted(m.choices)]
    return None


def run(c, rec):
    """Groups partition the searchable modules and carry every choice."""
    top = Top(Super(c['spec']), Extra(c['vals'], c['der'])
              if c['vals'] else None, c['seed'] % 3 == 0)
    named = {}  # every searchable value/operator reachable from the model
    ids = {}
    chans = {}
    for n, m in top.named_modules():
        if isinstance(m, (MutableValue, MutableModule)):
            ids[id(m)] = m
            named[n] = m
        elif isinstance(m, DerivedMutable):
            for s in m.source_mutables:
                if isinstance(s, (MutableValue, MutableModule)):
                    ids[id(s)] = s
        elif isinstance(m, BaseMutableChannel) and hasattr(
                m, 'candidate_choices'):
            chans[id(m)] = m
    # user-defined groups over modules without alias and equal candidates
    custom = []
    free = [(n, m) for n, m in named.items() if m.alias is None
            and not any(isinstance(d, DerivedMutable) and any(
                s is m for s in d.source_mutables)
                for d in top.modules())]
    by = {}
    for n, m in free:
        by.setdefault((type(m), tuple(cands(m))), []).append(n)
    aliases = {}
    for m in ids.values():
        if m.alias is not None:
            aliases.setdefault(m.alias, []).append(m)
    if c['custom'] in ('names', 'both'):
        custom = [v for v in by.values() if len(v) > 1]
    if c['custom'] in ('alias', 'both') and aliases:
        custom = custom + [[a] for a in sorted(aliases)][:1]
    bad = None
    if c['custom'] == 'bad':
        bad = [['no_such_module']]
    elif c['custom'] == 'dup' and free:
        bad = [[free[0][0]], [free[0][0]]]
    if bad:
        try:
            NasMutator(custom_groups=bad).prepare_from_supernet(top)
            raise RuntimeError('accepted')
        except AssertionError:
            rec.tag('refused')
    mut = NasMutator(custom_groups=[list(g) for g in custom] or None)
    try:
        mut.search_groups
        raise ValueError('search groups exist before the preparation')
    except RuntimeError:
        pass
    mut.prepare_from_supernet(top)
    arch = any(b['t'] in ('diff', 'onehot') for b in c['spec']['blocks'])
    if arch:
        mut.prepare_arch_params()
        randomize(mut, c['seed'])
    groups = mut.search_groups
    owner = {}
    for g, ms in groups.items():
        assert ms, f'group {g} is empty'
        for m in ms:
            if hasattr(m, 'mutable_channel'):
                m = m.mutable_channel
            assert owner.setdefault(id(m), g) == g, \
                f'{type(m).__name__} (alias {m.alias}) is in the groups ' \
                f'{owner[id(m)]} and {g}'
    for i, m in list(ids.items()) + list(chans.items()):
        assert i in owner, f'{type(m).__name__} belongs to no search group'
    assert set(owner) <= set(ids) | set(chans), 'unknown member'
    for a, ms in aliases.items():
        assert len({owner[id(m)] for m in ms}) == 1, f'alias {a} is split'
    for grp in custom:
        ms = []
        for k in grp:
            ms += aliases[k] if k in aliases else [named[k]]
        gs = {owner[id(m)] for m in ms}
        assert len(gs) == 1, f'custom group {grp} is split'
        inside = [i for i in owner if owner[i] in gs]
        assert sorted(inside) == sorted(id(m) for m in ms), \
            f'custom group {grp} has other members'
    # nothing else shares a group
    for g in set(owner.values()):
        ms = [ids.get(i) or chans[i] for i in owner if owner[i] == g]
        if len(ms) > 1 and not any(
                owner.get(id(named.get(k))) == g or
                any(owner[id(m)] == g for m in aliases.get(k, []))
                for grp in custom for k in grp):
            assert len({m.alias for m in ms}) == 1 and ms[0].alias, \
                'unrelated modules share a group'
    rec.hit(len(owner) > 1 and (
        any(len(v) > 1 for v in aliases.values()) or chans or c['der'] or
        any(len(g) > 1 for g in custom)))
    rec.tag('groups', len(groups))
    # choices
    nest_dead = False
    for k, kind in enumerate(c['kinds']):
        has_ops = any(b['t'] in ('op', 'nest', 'diff', 'onehot')
                      for b in c['spec']['blocks'])
        if kind in ('min', 'max') and has_ops and not arch:
            kind = 'random'  # operators have no order
        if kind == 'twist':
            ch = mut.sample_choices()
            other = mut.sample_choices()
            keys = sorted(ch)
            for j, key in enumerate(keys):
                if (c['seed'] >> j) & 1:
                    ch[key] = other[key]
        else:
            ch = mut.sample_choices(kind)
        assert set(ch) == set(groups)
        before = dict(ch)
        mut.set_choices(ch)
        assert ch == before, 'set_choices changed its argument'
        assert mut.current_choices == ch, \
            f'{mut.current_choices} after setting {ch}'
        for g, ms in groups.items():
            for m in ms:
                assert m.current_choice == ch[g], f'member of {g} has ' \
                    f'{m.current_choice}, the group {ch[g]}'
                if isinstance(m, OneShotMutableValue):
                    assert ch[g] in m.choices
                elif isinstance(m, MutableModule):
                    assert ch[g] in m.choices
                else:
                    assert ch[g] in m.candidate_choices
                if kind in ('min', 'max') and not isinstance(
                        m, MutableModule):
                    f = min if kind == 'min' else max
                    opts = m.choices if isinstance(m, OneShotMutableValue) \
                        else m.candidate_choices
                    assert ch[g] == f(opts), f'{kind} choice of {g}'
    if not any(b['t'] in ('op', 'nest') for b in c['spec']['blocks']):
        for name, setter, f in (('max', mut.set_max_choices, max),
                                ('min', mut.set_min_choices, min)):
            setter()
            for g, ms in groups.items():
                for m in ms:
                    if isinstance(m, OneShotMutableValue):
                        assert m.current_choice == f(m.choices), name
                    elif not isinstance(m, MutableModule):
                        assert m.current_choice == f(
                            m.candidate_choices), name
    if arch:
        assert set(mut.arch_params) == {
            g for g, ms in groups.items() if isinstance(ms[0], MutableModule)}
        for g, ms in groups.items():
            if isinstance(ms[0], MutableModule):
                assert len(mut.arch_params[g]) == ms[0].num_choices
    net = top.net.eval()
    y = net(rand_tensor((2, 3, 6, 6), c['seed']))
    assert y.shape == (2, 5)
    if arch:
        y.sum().backward()
        for g, p in mut.arch_params.items():
            if type(groups[g][0]) is DiffMutableOP:
                assert p.grad is not None, f'no gradient for {g}'


SUBS = [Sub('groups', case(), run, 900)]
