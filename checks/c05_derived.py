"""C05: derived mutables against an arithmetic reference."""
import copy

import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.mutables import (DerivedMutable, OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)
from mmrazor.models.mutables.derived_mutable import DerivedMethodMixin
from pbt.core import Sub

PID = 'C05'
RULE = ('the expression has depth >= 2 or >= 2 sources and some source choice '
        'is changed after derivation')
ASSUMPTIONS = ['derivations with a mutable as ratio read the ratio at '
               'creation and are exercised only as channel * value',
               'expand ratios >= 1; divisors 1..8']


def mkdiv(value, divisor):
    """round to the nearest multiple, never below 90 % of value"""
    new = max(divisor, (2 * value + divisor) // (2 * divisor) * divisor)
    return new + divisor if new < 0.9 * value else new


@st.composite
def chan_expr(draw, depth):
    if depth == 0 or draw(st.integers(0, 4)) == 0:
        return ['src', draw(st.integers(0, 3))]
    k = draw(st.sampled_from(
        ['exp', 'exp', 'fexp', 'div', 'div', 'cat', 'mulv', 'same']))
    if k == 'cat':
        n = draw(st.integers(2, 3))
        return ['cat'] + [draw(chan_expr(depth - 1)) for _ in range(n)]
    if k == 'mulv':
        return ['mulv', draw(st.integers(0, 3)), draw(st.integers(0, 1)),
                draw(st.booleans())]
    sub = draw(chan_expr(depth - 1))
    if k == 'same':
        return ['same', sub]
    if k == 'exp':
        return ['exp', sub, draw(st.integers(1, 4)), draw(st.booleans())]
    if k == 'fexp':
        return ['fexp', sub, draw(st.sampled_from([1., 1.5, 2., 2.5]))]
    return ['div', sub, draw(st.integers(1, 4)),
            draw(st.sampled_from([1, 2, 3, 4, 8])),
            draw(st.sampled_from(['op', 'tuple', 'meth']))]


@st.composite
def chan_case(draw):
    return dict(sizes=[draw(st.integers(1, 40)) for _ in range(4)],
                vals=[draw(st.lists(st.integers(1, 4), min_size=1, max_size=3,
                                    unique=True)) for _ in range(2)],
                expr=draw(chan_expr(draw(st.integers(1, 3)))),
                ops=draw(st.lists(st.tuples(
                    st.sampled_from(['c', 'c', 'v', 'copy', 'fix', 'bad']),
                    st.integers(0, 3), st.integers(0, 99)).map(list),
                    min_size=1, max_size=8)),
                seed=draw(st.integers(0, 99)))


def depth_of(e):
    return 0 if e[0] in ('src', ) else 1 + max(
        [depth_of(x) for x in e[1:] if isinstance(x, list)] or [0])


def build(e, chans, vals):
    k = e[0]
    if k == 'src':
        return chans[e[1]]
    if k == 'mulv':
        c, v = chans[e[1]], vals[e[2]]
        return c * v if e[3] else v * c
    if k == 'cat':
        return DerivedMethodMixin.derive_concat_mutable(
            [build(x, chans, vals) for x in e[1:]])
    sub = build(e[1], chans, vals)
    src = isinstance(sub, SquentialMutableChannel)
    if k == 'same':
        return sub.derive_same_mutable()
    if k == 'exp':
        if src:
            return sub * e[2] if e[3] else e[2] * sub
        return sub.derive_expand_mutable(e[2])
    if k == 'fexp':
        return sub * e[2] if src else sub.derive_expand_mutable(e[2])
    _, _, r, d, how = e
    if src and how == 'op':
        return sub // r
    if src and how == 'tuple':
        return sub // (r, d)
    return sub.derive_divide_mutable(r, d)


def ref(e, cur, sizes, v, vmax):
    """-> (choice, mask list)"""
    k = e[0]
    if k == 'src':
        c, n = cur[e[1]], sizes[e[1]]
    elif k == 'mulv':
        c, n = cur[e[1]] * v[e[2]], sizes[e[1]] * vmax[e[2]]
    elif k == 'cat':
        parts = [ref(x, cur, sizes, v, vmax) for x in e[1:]]
        return sum(p[0] for p in parts), sum((p[1] for p in parts), [])
    else:
        c, m = ref(e[1], cur, sizes, v, vmax)
        n = len(m)
        if k in ('exp', 'fexp'):
            c, n = int(c * e[2]), int(n * e[2])
        elif k == 'div':
            src = e[1][0] == 'src'
            d = 8 if src and e[4] == 'op' else e[3]
            c, n = mkdiv(c // e[2], d), mkdiv(n // e[2], d)
    return c, [True] * c + [False] * (n - c)


def sources(e):
    if e[0] == 'src':
        return {('c', e[1])}
    if e[0] == 'mulv':
        return {('c', e[1]), ('v', e[2])}
    return set().union(*[sources(x) for x in e[1:] if isinstance(x, list)])


def run_chan(c, rec):
    """Every derived channel follows its sources: choice, mask, fixedness."""
    e, sizes = c['expr'], c['sizes']
    chans = [SquentialMutableChannel(n) for n in sizes]
    vals = [OneShotMutableValue(list(v)) for v in c['vals']]
    cur = list(sizes)
    v = [max(x) for x in c['vals']]
    vmax = list(v)
    d = build(e, chans, vals)
    fixed = set()
    if e[0] == 'src':
        return
    holder = nn.ModuleDict({'d': d})
    holder.update({f'c{i}': m for i, m in enumerate(chans)})
    holder.update({f'v{i}': m for i, m in enumerate(vals)})
    src = sources(e)

    def check(h):
        d = h['d']
        assert isinstance(d, DerivedMutable)
        ch, mask = ref(e, cur, sizes, v, vmax)
        assert d.current_choice == ch, (d.current_choice, ch)
        assert d.current_mask.tolist() == mask, (d.current_mask.tolist(), mask)
        assert int(d.current_mask.sum()) == ch
        assert d.num_choices == 1
        want = {id(h[f'{k}{i}']) for k, i in src}
        assert {id(m) for m in d.source_mutables} == want, 'sources'
        assert d.is_fixed == (src <= fixed), 'is_fixed'

    check(holder)
    changed = False
    for op, i, a in c['ops']:
        if op == 'c' and ('c', i) not in fixed:
            cur[i] = a % sizes[i] + 1
            chans[i].current_choice = cur[i]
            changed = True
        elif op == 'v' and ('v', i % 2) not in fixed:
            i %= 2
            v[i] = c['vals'][i][a % len(c['vals'][i])]
            vals[i].current_choice = v[i]
            changed = True
        elif op == 'fix':
            key = ('c', i) if a % 3 else ('v', i % 2)
            if key not in fixed:
                fixed.add(key)
                m = chans[i] if a % 3 else vals[i % 2]
                m.fix_chosen(m.current_choice)
            d.fix_chosen(123)  # documented as a no-op
        elif op == 'bad':
            for f in (lambda: setattr(d, 'current_choice', 1),
                      lambda: setattr(d, 'current_mask', torch.ones(1)),
                      lambda: setattr(d, 'is_fixed', True)):
                try:
                    f()
                except RuntimeError:
                    continue
                raise AssertionError('a derived mutable was modified')
        elif op == 'copy':
            h2 = copy.deepcopy(holder)
            check(h2)
            if ('c', i) not in fixed:
                keep = cur[i]
                cur[i] = a % sizes[i] + 1
                h2[f'c{i}'].current_choice = cur[i]
                check(h2)   # the copy follows the copied source ...
                cur[i] = keep
                check(holder)  # ... and the original does not move
        check(holder)
    rec.hit(changed and (depth_of(e) >= 2 or len(src) >= 2))
    rec.tag(e[0])


# -- values -----------------------------------------------------------------


@st.composite
def val_case(draw):
    chain = draw(st.lists(st.one_of(
        st.tuples(st.just('exp'), st.integers(1, 4)),
        st.tuples(st.just('fexp'), st.sampled_from([.5, 1.5, 2.])),
        st.tuples(st.just('div'), st.integers(1, 3), st.integers(1, 8)),
    ).map(list), min_size=1, max_size=3))
    return dict(vals=draw(st.lists(st.integers(1, 60), min_size=1, max_size=4,
                                   unique=True)),
                fvals=draw(st.booleans()), chain=chain,
                other=draw(st.lists(st.integers(1, 9), min_size=1, max_size=3,
                                    unique=True)),
                picks=draw(st.lists(st.integers(0, 20), min_size=1,
                                    max_size=5)),
                seed=draw(st.integers(0, 99)))


def run_val(c, rec):
    """Derived values: arithmetic, enumeration of choices, restoration."""
    scale = .5 if c['fvals'] else 1
    base = sorted(x * scale for x in c['vals'])
    m = OneShotMutableValue([float(x) for x in base] if c['fvals'] else
                            [int(x) for x in base])
    d = m
    for i, op in enumerate(c['chain']):
        if op[0] == 'div':
            d = d // (op[1], op[2]) if i == 0 and not c['fvals'] else \
                d.derive_divide_mutable(op[1], op[2])
        else:
            d = d * op[1] if i == 0 else d.derive_expand_mutable(op[1])

    def f(x):
        for op in c['chain']:
            if op[0] == 'div':
                x = mkdiv(x // op[1], op[2])
            else:
                x = int(x * op[1])
        return x

    if c['fvals'] and any(op[0] == 'div' for op in c['chain'][:1]):
        rec.reject()
    for p in c['picks']:
        x = base[p % len(base)]
        m.current_choice = type(m.choices[0])(x)
        assert d.current_choice == f(x), (d.current_choice, f(x))
        assert sorted(d.choices) == sorted(f(b) for b in base), 'choices'
        assert m.current_choice == x, 'enumeration changed the source'
        try:
            d.current_mask
        except RuntimeError:
            pass
        else:
            raise AssertionError('mask of a value')
        d2 = copy.deepcopy(d)
        s2, = d2.source_mutables
        s2.current_choice = s2.choices[0]
        assert d2.current_choice == f(base[0])
        assert d.current_choice == f(x)
    # two sources, user supplied function
    o = OneShotMutableValue(sorted(c['other']))
    both = DerivedMutable(
        choice_fn=lambda: m.current_choice * 100 + o.current_choice)
    assert both.source_mutables == {m, o}
    want = sorted(a * 100 + b for a in base for b in c['other'])
    keep = (m.current_choice, o.current_choice)
    assert sorted(both.choices) == want
    assert (m.current_choice, o.current_choice) == keep
    assert both.current_choice == keep[0] * 100 + keep[1]
    m.fix_chosen(m.current_choice)
    assert not both.is_fixed and d.is_fixed
    o.fix_chosen(o.current_choice)
    assert both.is_fixed
    rec.hit(len(base) > 1 and len(c['chain']) > 1)


# -- expand of a free mask ---------------------------------------------------


@st.composite
def simple_case(draw):
    n = draw(st.integers(1, 24))
    return dict(n=n, r=draw(st.integers(1, 5)),
                masks=draw(st.lists(st.integers(0, 2**n - 1), min_size=1,
                                    max_size=5)), seed=0)


def run_simple(c, rec):
    """Expanding an arbitrary mask repeats every flag (flatten semantics)."""
    m = SimpleMutableChannel(c['n'])
    d = m.expand_mutable_channel(c['r'])
    for x in c['masks']:
        bits = [bool(x >> i & 1) for i in range(c['n'])]
        m.current_choice = torch.tensor(bits)
        want = [b for b in bits for _ in range(c['r'])]
        assert d.current_mask.tolist() == want
        assert d.current_choice.tolist() == want
        assert d.source_mutables == {m}
        d2 = copy.deepcopy(d)
        m2, = d2.source_mutables
        m2.current_choice = torch.ones(c['n'])
        assert d2.current_mask.all() and d.current_mask.tolist() == want
    rec.hit(c['r'] > 1 and len(set(c['masks'])) > 1)


SUBS = [
    Sub('channel', chan_case(), run_chan, 5000),
    Sub('value', val_case(), run_val, 2000),
    Sub('simple', simple_case(), run_simple, 800),
]
