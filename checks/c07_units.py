"""C07: channel-unit choices are legal, divisible, round-trip and exact."""
import copy
import json

import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.mutables import (L1MutableChannelUnit,
                                     OneShotMutableChannelUnit,
                                     SequentialMutableChannelUnit,
                                     SlimmableChannelUnit)
from mmrazor.models.mutables.mutable_channel.units import (DCFFChannelUnit,
                                                           DMCPChannelUnit)
from mmrazor.models.mutables.mutable_channel.units.channel_unit import (
    Channel, ChannelUnit)
from mmrazor.models.utils import make_divisible
from pbt.core import Sub
from pbt.nnutil import randomize

PID = 'C07'
RULE = ('divisor > 1 with a channel count that is not a multiple of it, or a '
        'ratio choice, or a mask selected from at least two modules')
ASSUMPTIONS = ['min_value is a multiple of the divisor or below it; numbers '
               'are in [1, num_channels], ratios in (0, 1]',
               'weights of the L1 units have no ties']


def refused(fn):
    try:
        fn()
    except (AssertionError, ValueError, TypeError, RuntimeError,
            AttributeError):
        return True
    return False


def ref_div(v, d, mn, mr):
    mn = d if mn is None or mn < d else mn
    new = max(mn, (2 * v + d) // (2 * d) * d)
    return new + d if new < mr * v else new


@st.composite
def div_case(draw):
    d = draw(st.integers(1, 64))
    return dict(v=draw(st.integers(0, 3000)), d=d,
                mn=draw(st.one_of(st.none(), st.integers(0, 6))),
                mr=draw(st.sampled_from([0., .5, .75, .9, .95, 1.])), seed=0)


def run_div(c, rec):
    """make_divisible: divisible, bounded loss, nearest multiple."""
    d = c['d']
    mn = None if c['mn'] is None else c['mn'] * d
    got = make_divisible(c['v'], d, mn, c['mr'])
    assert got % d == 0
    assert got >= (mn or d) and got >= c['mr'] * c['v']
    assert got < max((mn or d), c['v']) + d, 'more than one step above'
    assert got == ref_div(c['v'], d, mn, c['mr'])
    rec.hit(d > 1 and c['v'] % d)


UNITS = dict(seq=SequentialMutableChannelUnit, dmcp=DMCPChannelUnit,
             dcff=DCFFChannelUnit, oneshot=OneShotMutableChannelUnit,
             slim=SlimmableChannelUnit, l1=L1MutableChannelUnit)


@st.composite
def unit_case(draw):
    n = draw(st.integers(1, 300))
    d = draw(st.one_of(st.just(1), st.sampled_from([2, 3, 4, 7, 8, 16, 32])))
    mode = draw(st.sampled_from(['number', 'ratio']))
    if mode == 'number':
        cand = st.integers(1, n)
    else:
        cand = st.one_of(st.integers(1, n).map(lambda k: k / n),
                         st.floats(0.01, 1.0).map(lambda x: round(x, 3)))
    return dict(kind=draw(st.sampled_from(sorted(UNITS))), n=n, d=d,
                mn=draw(st.sampled_from([1, 1, d, 2 * d])), mode=mode,
                mr=draw(st.sampled_from([.5, .9, 1.])),
                cands=draw(st.lists(cand, min_size=0, max_size=5)),
                sets=draw(st.lists(cand, min_size=1, max_size=6)),
                seed=draw(st.integers(0, 999)))


def run_unit(c, rec):
    """Unit choices: legal after every set/sample, round trip, template."""
    n, d, kind = c['n'], c['d'], c['kind']
    cls = UNITS[kind]
    cand_kind = kind in ('oneshot', 'slim')
    ratio = c['mode'] == 'ratio'
    args = dict(num_channels=n, choice_mode=c['mode'], divisor=d,
                min_value=c['mn'], min_ratio=c['mr'])
    if cand_kind:
        args['candidate_choices'] = list(c['cands'])
    backup = copy.deepcopy(args)

    def make(a):
        u = cls(**a)
        if kind == 'l1':
            m = randomize(nn.Linear(3, n), c['seed'])
            u.add_output_related(Channel('fc', m, (0, n)))
        return u

    u = make(args)
    assert args == backup, 'constructor arguments were modified'

    def num(x):
        k = max(1, int(n * x + 1e-6)) if isinstance(x, float) else x
        return min(n, ref_div(k, d, c['mn'], c['mr']))

    def out(k):
        return k / n if ratio else k

    def legal(u, k):
        assert u.current_choice == out(k), (u.current_choice, out(k))
        assert u.mutable_channel.activated_channels == k
        assert int(u.mutable_channel.current_mask.sum()) == k
        assert 1 <= k <= n and (k % d == 0 or k == n)

    if cand_kind:
        want = sorted(out(num(x)) for x in (c['cands'] or [out(n)]))
        assert u.candidate_choices == want, (u.candidate_choices, want)
        assert u.min_choice == want[0] and u.max_choice == want[-1]
        for x in want:
            u.current_choice = x
            legal(u, round(x * n) if ratio else x)
        keep = u.current_choice
        for x in c['sets']:
            if x not in want:
                assert refused(lambda: setattr(u, 'current_choice', x)), \
                    f'{x} accepted, candidates {want}'
                assert u.current_choice == keep
    else:
        for x in c['sets']:
            u.current_choice = x
            legal(u, num(x))
            again = u.current_choice
            u.current_choice = again     # setting what was read: no change
            assert u.current_choice == again, 'read/set is not stable'
    for _ in range(8):
        s = u.sample_choice()
        assert isinstance(s, float if ratio else int)
        u.current_choice = s
        assert u.current_choice == s, ('sampled choice', s, u.current_choice)
        legal(u, round(s * n) if ratio else s)
        if cand_kind:
            assert s in u.candidate_choices
    # template -> twin
    cfg = json.loads(json.dumps(u.config_template(with_init_args=True)))
    if kind == 'l1':
        cfg2 = copy.deepcopy(cfg)
        ch = cfg2.pop('choice')
        t = make(cfg2['init_args'])
        t.current_choice = ch
    else:
        before = copy.deepcopy(cfg)
        t = cls.init_from_cfg(nn.Module(), cfg)
        assert cfg == before
    assert t.num_channels == n and t.current_choice == u.current_choice
    assert t.config_template(with_init_args=True) == \
        u.config_template(with_init_args=True)
    if kind != 'l1':
        assert torch.equal(t.mutable_channel.current_mask,
                           u.mutable_channel.current_mask)
    # conversion from a plain unit never leaks arguments between calls
    conv = {k: v for k, v in args.items() if k != 'num_channels'}
    for m in (n, n + 3):
        if cand_kind and m != n:
            conv['candidate_choices'] = []
        b = copy.deepcopy(conv)
        w = cls.init_from_channel_unit(ChannelUnit(m), conv)
        assert w.num_channels == m and conv == b, 'arguments were modified'
        assert w.divisor == d
    # fix
    s = u.sample_choice()
    u.fix_chosen(s)
    assert u.mutable_channel.is_fixed and u.current_choice == s
    for o in {u.sample_choice() for _ in range(5)}:
        assert refused(lambda: u.fix_chosen(o))
        assert u.current_choice == s, 'a refused fix changed the choice'
    rec.hit((d > 1 and n % d) or ratio)
    rec.tag(kind)


@st.composite
def l1_case(draw):
    k = draw(st.integers(1, 12))
    return dict(k=k, mods=draw(st.lists(st.tuples(
        st.sampled_from(['conv', 'linear', 'bn', 'conv1']),
        st.integers(0, 4), st.integers(0, 4), st.integers(1, 4)).map(list),
        min_size=1, max_size=4)),
        choices=draw(st.lists(st.integers(1, k), min_size=1, max_size=4)),
        seed=draw(st.integers(0, 9999)))


def run_l1(c, rec):
    """L1 units keep the channels with the largest mean absolute weight."""
    k = c['k']
    u = L1MutableChannelUnit(k)
    score = torch.zeros(k, dtype=torch.float64)
    cnt = 0
    for i, (kind, pre, post, inc) in enumerate(c['mods']):
        w = pre + k + post
        m = dict(conv=lambda: nn.Conv2d(inc, w, 3),
                 conv1=lambda: nn.Conv1d(inc, w, 2),
                 linear=lambda: nn.Linear(inc, w),
                 bn=lambda: nn.BatchNorm2d(w))[kind]()
        randomize(m, c['seed'] * 7 + i)
        u.add_output_related(Channel(f'm{i}', m, (pre, pre + k)))
        if kind != 'bn':
            t = m.weight.detach().double().abs().flatten(1).mean(1)
            score += t[pre:pre + k]
            cnt += 1
    if not cnt:
        rec.reject()
    score /= cnt
    order = score.sort(descending=True)
    if k > 1 and (order[0][:-1] - order[0][1:]).min() < 1e-5:
        rec.reject()
    for x in c['choices']:
        u.current_choice = x
        want = torch.zeros(k).bool()
        want[order[1][:x]] = True
        assert torch.equal(u.mutable_channel.current_mask, want), \
            'the kept channels are not the most important ones'
        assert u.current_choice == x
    rec.hit(cnt >= 2)


SUBS = [
    Sub('make_divisible', div_case(), run_div, 6000),
    Sub('unit', unit_case(), run_unit, 4000),
    Sub('l1', l1_case(), run_l1, 1500),
]
