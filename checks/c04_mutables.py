"""C04: life cycle of searchable choices against a reference model."""
import copy

import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                     MutableValue, OneShotMutableChannel,
                                     OneShotMutableOP, OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)
from mmrazor.models.mutables.mutable_module.one_shot_mutable_module import \
    OneShotProbMutableOP
from mmrazor.registry import MODELS
from pbt.core import Sub
from pbt.nnutil import rand_tensor

PID = 'C04'
RULE = ('the history contains at least two accepted choice changes or a '
        'refused operation followed by further use')
ASSUMPTIONS = ['candidate operators are distinguishable linear maps; ratio '
               'candidates denote whole channel counts (k/n)',
               'candidate values of one mutable are of one type, as required']


@MODELS.register_module(name='VPScale', force=True)
class VPScale(nn.Module):

    def __init__(self, k):
        super().__init__()
        self.weight = nn.Parameter(torch.tensor(float(k)))

    def forward(self, x):
        return x * self.weight


def refused(fn, *excs):
    try:
        fn()
    except (AssertionError, AttributeError, RuntimeError, ValueError,
            TypeError, KeyError, NotImplementedError):
        return True
    return False


# -- values -----------------------------------------------------------------

val = st.one_of(
    st.lists(st.integers(-20, 60), min_size=1, max_size=5, unique=True),
    st.lists(st.sampled_from([.25, .5, .75, 1., 1.5, 2., 3.25, 4.]),
             min_size=1, max_size=5, unique=True),
    st.lists(st.lists(st.integers(1, 9), min_size=2, max_size=2),
             min_size=1, max_size=4, unique_by=tuple))
OPS = st.lists(
    st.tuples(
        st.sampled_from([
            'set', 'set', 'set', 'bad', 'sample', 'fix', 'fixbad', 'dump',
            'copy', 'flag'
        ]), st.integers(0, 30)).map(list),
    min_size=2, max_size=12)


@st.composite
def value_case(draw):
    vs = draw(val)
    return dict(
        kind=draw(st.sampled_from(['MutableValue', 'OneShotMutableValue'])),
        values=vs, default=draw(st.one_of(st.none(), st.integers(0, 9))),
        ops=draw(OPS), seed=draw(st.integers(0, 999)))


def run_value(c, rec):
    """Value mutables follow the reference model under every history."""
    cls = dict(MutableValue=MutableValue,
               OneShotMutableValue=OneShotMutableValue)[c['kind']]
    vals = copy.deepcopy(c['values'])
    oneshot = c['kind'] == 'OneShotMutableValue'
    kw = {}
    if c['default'] is not None:
        kw['default_value'] = vals[c['default'] % len(vals)]
    m = cls(value_list=vals, **kw)
    ref = sorted(c['values']) if oneshot else list(c['values'])
    cur = kw.get('default_value', ref[-1] if oneshot else ref[0])
    bad = [10**6, 10**6] if isinstance(ref[0], list) else type(ref[0])(10**6)
    assert vals == c['values'], 'the caller\'s list changed'
    fixed = False
    changes = ref_ops = 0

    def check(m):
        assert m.current_choice == cur, (m.current_choice, cur)
        assert list(m.choices) == ref and m.num_choices == len(ref)
        assert m.is_fixed is fixed
        if oneshot:
            assert m.max_choice == max(ref) and m.min_choice == min(ref)
        d = m.dump_chosen()
        assert d.chosen == cur
        assert list(d.meta['all_choices']) == ref

    check(m)
    for op, a in c['ops']:
        if op == 'set' and not fixed:
            v = ref[a % len(ref)]
            m.current_choice = v
            changes += v != cur
            cur = v
        elif op == 'bad':
            assert refused(lambda: setattr(m, 'current_choice', bad)), \
                'an unknown value was accepted'
            ref_ops += 1
        elif op == 'sample' and oneshot:
            got = [m.sample_choice() for _ in range(40)]
            assert all(g in ref for g in got)
        elif op == 'fix':
            v = ref[a % len(ref)]
            r = refused(lambda: m.fix_chosen(v))
            assert r == fixed, 'fix twice accepted' if fixed else 'fix refused'
            ref_ops += r
            if not r:
                cur, fixed = v, True
        elif op == 'fixbad':
            assert refused(lambda: m.fix_chosen(bad))
            ref_ops += 1
        elif op == 'flag' and fixed:
            assert refused(lambda: setattr(m, 'is_fixed', bool(a % 2)))
        elif op == 'dump':
            twin = cls(value_list=copy.deepcopy(c['values']))
            twin.fix_chosen(m.dump_chosen().chosen)
            assert twin.current_choice == cur and twin.is_fixed
        elif op == 'copy':
            t = copy.deepcopy(m)
            check(t)
            if not fixed:
                t.current_choice = ref[a % len(ref)]
                check(m)
        check(m)
    rec.hit(changes >= 2 or ref_ops)
    rec.tag(c['kind'])


# -- operators --------------------------------------------------------------

KINDS = ['oneshot', 'oneshot_dict', 'prob', 'diff', 'route']


@st.composite
def op_case(draw):
    n = draw(st.integers(1, 5))
    w = draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))
    if not sum(w):
        w[0] = 1
    return dict(kind=draw(st.sampled_from(KINDS)), n=n, w=w, ops=draw(OPS),
                order=draw(st.permutations(list(range(n)))),
                masks=draw(st.lists(st.integers(1, 2**n - 1), min_size=13,
                                    max_size=13)),
                seed=draw(st.integers(0, 999)))


def run_op(c, rec):
    """Operator mutables forward and keep exactly what was chosen."""
    n = c['n']
    names = [f'op{c["order"][i]}_{i}' for i in range(n)]
    ks = {nm: 2.0**i + .5 for i, nm in enumerate(names)}
    kind = c['kind']
    multi = kind in ('diff', 'route')

    def make():
        cfgs = {nm: dict(type='VPScale', k=ks[nm]) for nm in names}
        mods = nn.ModuleDict({nm: VPScale(ks[nm]) for nm in names})
        if kind == 'oneshot':
            return OneShotMutableOP(mods)
        if kind == 'oneshot_dict':
            return OneShotMutableOP(cfgs)
        if kind == 'prob':
            tot = sum(c['w'])
            return OneShotProbMutableOP(
                cfgs, choice_probs=[w / tot for w in c['w']])
        if kind == 'diff':
            return DiffMutableOP(cfgs)
        return DiffChoiceRoute(mods, num_chosen=1)

    m = make()
    x = rand_tensor((3, ), c['seed']) + 2
    xs = [x + i for i in range(n)]
    left = list(names)
    cur, chosen = None, None
    changes = refs = 0

    def want():
        if chosen is not None:
            act = [nm for nm in names if nm in chosen]
        elif cur is None or multi:
            act = names
        else:
            act = [cur]
        if kind == 'route':
            return sum(ks[a] * xs[names.index(a)] for a in act)
        return sum(ks[a] * x for a in act)

    def check(m):
        assert m.is_fixed is (chosen is not None)
        assert list(m.choices) == left, (m.choices, left)
        assert m.num_choices == len(left)
        assert sorted(k.split('.')[1] for k in m.state_dict()) == sorted(left)
        out = m(xs if kind == 'route' else x)
        assert torch.allclose(out, want(), rtol=1e-5), 'wrong output'

    check(m)
    for i, (op, a) in enumerate(c['ops']):
        pick = left[a % len(left)]
        many = [nm for j, nm in enumerate(names)
                if c['masks'][i] >> j & 1 and nm in left] or [pick]
        sel = many if kind == 'route' or (multi and a % 2) else pick
        if op == 'set' and chosen is None:
            m.current_choice = pick if not multi else sel
            changes += cur != pick
            cur = pick if not multi else sel
        elif op == 'bad' and chosen is None and not multi:
            m.current_choice = 'nope'
            assert refused(lambda: m(x)), 'unknown choice was computed'
            m.current_choice = cur
            refs += 1
        elif op == 'sample':
            if multi:
                g = torch.Generator().manual_seed(a)
                arch = torch.randn(len(left), generator=g)
                got = m.sample_choice(arch)
                best = left[int(arch.argmax())]
                assert (got == best if kind == 'diff' else got == [best])
            else:
                if kind == 'prob' and len(left) != n:
                    continue
                got = {str(m.sample_choice()) for _ in range(150)}
                assert got <= set(left)
                if kind == 'prob':
                    pos = {nm for nm, w in zip(names, c['w']) if w}
                    big = {nm for nm, w in zip(names, c['w'])
                           if w * 5 >= sum(c['w'])}
                    assert got <= pos and big <= got, (got, c['w'])
                else:
                    assert got == set(left), (got, left)
        elif op == 'fix':
            r = refused(lambda: m.fix_chosen(sel))
            assert r == (chosen is not None)
            refs += r
            if not r:
                chosen = [sel] if isinstance(sel, str) else list(sel)
                left = [nm for nm in names if nm in chosen]
                cur = sel
        elif op == 'fixbad':
            b = ['nope', pick] if kind == 'route' else 'nope'
            assert refused(lambda: m.fix_chosen(b))
            refs += 1
        elif op == 'flag' and chosen is not None:
            assert refused(lambda: setattr(m, 'is_fixed', bool(a % 2)))
        elif op == 'dump':
            if chosen is not None:
                continue  # a fixed operator is not dumped again
            if cur is None:
                assert refused(m.dump_chosen)
                continue
            d = m.dump_chosen()
            assert d.chosen == cur
            assert list(d.meta['all_choices']) == left
            twin = make()
            twin.fix_chosen(d.chosen)
            assert set(twin.choices) == (
                {d.chosen} if isinstance(d.chosen, str) else set(d.chosen))
            if not multi:
                assert torch.allclose(twin(x), want(), rtol=1e-5)
        elif op == 'copy':
            t = copy.deepcopy(m)
            check(t)
            if chosen is None:
                t.fix_chosen(sel)
        check(m)
    rec.hit(changes >= 2 or refs)
    rec.tag(kind)


# -- channels ---------------------------------------------------------------


@st.composite
def channel_case(draw):
    n = draw(st.integers(1, 130))
    kind = draw(st.sampled_from(['simple', 'seq', 'oneshot']))
    cands = draw(st.lists(st.integers(1, n), max_size=5, unique=True))
    return dict(kind=kind, n=n, cands=cands,
                mode=draw(st.sampled_from(['number', 'ratio'])),
                ops=draw(OPS), seed=draw(st.integers(0, 999)))


def run_channel(c, rec):
    """Channel mutables: mask, choice, dump and fix always agree."""
    n, kind = c['n'], c['kind']
    ratio = c['mode'] == 'ratio' and kind != 'simple'
    given_c = [k / n for k in c['cands']] if ratio else list(c['cands'])
    backup = list(given_c)

    def make():
        if kind == 'simple':
            return SimpleMutableChannel(n)
        if kind == 'seq':
            return SquentialMutableChannel(n, choice_mode=c['mode'])
        if not given_c:
            return OneShotMutableChannel(n, choice_mode=c['mode'])
        return OneShotMutableChannel(n, given_c, choice_mode=c['mode'])

    m = make()
    assert given_c == backup, 'the caller\'s list changed'
    ref = torch.ones(n).bool()
    fixed = False
    ks = sorted(c['cands']) or [n]
    changes = refs = 0

    def pick(a):
        """(choice, mask)"""
        mask = torch.zeros(n).bool()
        if kind == 'simple':
            g = torch.Generator().manual_seed(a)
            mask = torch.rand(n, generator=g) < .5
            return (mask.clone() if a % 2 else mask.float()), mask
        k = ks[a % len(ks)] if kind == 'oneshot' else \
            a * 7919 % n + 1
        mask[:k] = True
        return (k / n if ratio else k), mask

    def check(m):
        assert torch.equal(m.current_mask, ref), 'mask'
        assert m.current_mask.dtype == torch.bool
        k = int(ref.sum())
        assert m.activated_channels == k
        if kind == 'simple':
            assert torch.equal(m.current_choice, ref)
        else:
            assert m.current_choice == (k / n if ratio else k), \
                (m.current_choice, k, n)
        assert m.is_fixed is fixed
        d = m.dump_chosen()
        assert d.meta['max_channels'] == n
        return d

    check(m)
    for op, a in c['ops']:
        if op == 'set' and not fixed:
            ch, mask = pick(a)
            m.current_choice = ch
            changes += not torch.equal(mask, ref)
            ref = mask
        elif op == 'bad' and kind == 'oneshot':
            for b in (n + 5, 0.123456789, -1):
                assert refused(lambda: setattr(m, 'current_choice', b))
            refs += 1
        elif op == 'fix':
            ch, mask = pick(a)
            arg = () if a % 3 == 0 else (ch, )
            if not arg and kind == 'oneshot' and int(ref.sum()) not in ks:
                continue  # nothing has been chosen yet
            r = refused(lambda: m.fix_chosen(*arg))
            assert r == fixed, 'fix'
            refs += r
            if not r:
                fixed = True
                ref = mask if arg else ref
        elif op == 'flag' and fixed:
            assert refused(lambda: setattr(m, 'is_fixed', bool(a % 2)))
        elif op == 'dump' and kind != 'simple':
            if kind == 'oneshot' and int(ref.sum()) not in ks:
                continue
            twin = make()
            twin.fix_chosen(check(m).chosen)
            assert torch.equal(twin.current_mask, ref), 'dump -> twin'
        elif op == 'dump':
            twin = make()
            twin.load_state_dict(m.state_dict())
            assert torch.equal(twin.current_mask, ref), 'checkpoint -> twin'
        elif op == 'copy':
            t = copy.deepcopy(m)
            check(t)
            if not fixed:
                t.current_choice = pick(a)[0]
            s = make()
            s.load_state_dict(m.state_dict())
            assert torch.equal(s.current_mask, ref)
        check(m)
    rec.hit(changes >= 2 or refs)
    rec.tag(kind + ('-ratio' if ratio else ''))


# -- independence of instances ----------------------------------------------


@st.composite
def indep_case(draw):
    return dict(
        specs=draw(st.lists(
            st.tuples(st.sampled_from(['oneshot', 'seq', 'simple']),
                      st.integers(1, 40),
                      st.sampled_from(['number', 'ratio'])).map(list),
            min_size=2, max_size=6)),
        ops=draw(st.lists(st.tuples(st.integers(0, 5),
                                    st.integers(0, 99)).map(list),
                          min_size=1, max_size=10)),
        seed=draw(st.integers(0, 999)))


def run_indep(c, rec):
    """Mutables built with default arguments never influence each other."""
    ms = []
    for kind, n, mode in c['specs']:
        if kind == 'oneshot':
            ms.append(OneShotMutableChannel(n, choice_mode=mode))
            assert ms[-1].candidate_choices == (
                [n] if mode == 'number' else [1.0]), ms[-1].candidate_choices
        elif kind == 'seq':
            ms.append(SquentialMutableChannel(n, choice_mode=mode))
        else:
            ms.append(SimpleMutableChannel(n))
    ref = [n for _, n, _ in c['specs']]
    for i, a in c['ops']:
        i %= len(ms)
        kind, n, mode = c['specs'][i]
        k = a % n + 1
        if kind == 'oneshot':
            if k != n:
                assert refused(lambda: setattr(
                    ms[i], 'current_choice', k if mode == 'number' else k / n))
        elif kind == 'seq':
            ms[i].current_choice = k
            ref[i] = k
        else:
            t = torch.zeros(n)
            t[:k] = 1
            ms[i].current_choice = t
            ref[i] = k
        assert [m.activated_channels for m in ms] == ref
    rec.hit(len({tuple(s) for s in c['specs']}) > 1)


SUBS = [
    Sub('value', value_case(), run_value, 2500),
    Sub('op', op_case(), run_op, 2500),
    Sub('channel', channel_case(), run_channel, 3000),
    Sub('independent', indep_case(), run_indep, 800),
]
