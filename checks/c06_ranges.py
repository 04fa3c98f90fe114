"""C06: channel ranges stay sorted, disjoint and compose into one mask."""
import copy

import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.architectures.dynamic_ops import DynamicConv2d
from mmrazor.models.mutables import (MutableChannelContainer,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)
from mmrazor.utils import IndexDict
from pbt.core import Sub
from pbt.nnutil import close, rand_tensor

PID = 'C06'
RULE = ('at least three ranges are inserted out of order, or an overlapping '
        'or misaligned insertion is attempted')
ASSUMPTIONS = ['all ranges of one container are registered before its mask is '
               'first read; a registered channel has the size of its range']


def refused(fn):
    try:
        fn()
    except (AssertionError, ValueError, TypeError, RuntimeError,
            NotImplementedError):
        return True
    return False


@st.composite
def dict_case(draw):
    op = st.one_of(
        st.tuples(st.just('set'), st.integers(0, 20), st.integers(-2, 12)),
        st.tuples(st.just('set'), st.integers(0, 20), st.integers(1, 5)),
        st.tuples(st.just('del'), st.integers(0, 20), st.just(0)),
        st.tuples(st.just('in'), st.integers(0, 20), st.integers(1, 12)),
        st.tuples(st.just('copy'), st.just(0), st.just(0)),
        st.tuples(st.just('bad'), st.integers(0, 4), st.just(0))).map(list)
    return dict(ops=draw(st.lists(op, min_size=3, max_size=20)), seed=0)


def run_dict(c, rec):
    """IndexDict against a list of disjoint intervals."""
    d, model = IndexDict(), {}
    over = inserts = 0
    order = []
    for i, (op, a, b) in enumerate(c['ops']):
        if op == 'set':
            k = (a, a + b)
            clash = b <= 0 or any(s < k[1] and a < e for s, e in model)
            r = refused(lambda: d.__setitem__(k, i))
            assert r == clash, f'{k} into {sorted(model)}: refused={r}'
            over += clash
            if not clash:
                model[k] = i
                order.append(k)
                inserts += 1
        elif op == 'del' and model:
            k = sorted(model)[a % len(model)]
            del d[k]
            del model[k]
        elif op == 'in':
            k = (a, a + b)
            want = any(s < k[1] and a < e for s, e in model)
            assert (k in d) == want, (k, sorted(model))
        elif op == 'copy':
            e = copy.copy(d)
            assert type(e) is IndexDict and list(e.items()) == list(d.items())
            e[(1000 + i, 1001 + i)] = 0
            assert (1000 + i, 1001 + i) not in d
        elif op == 'bad':
            k = [3, (1, ), (1, 2, 3), ('a', 'b'), (0.5, 1.5)][a]
            assert refused(lambda: d.__setitem__(k, 0)), k
        assert list(d) == sorted(model), (list(d), sorted(model))
        assert all(d[k] == v for k, v in model.items())
        assert len(d) == len(model)
        assert list(d.values()) == [model[k] for k in sorted(model)]
    rec.hit(over or (inserts >= 3 and order != sorted(order)))


@st.composite
def cont_case(draw):
    cuts = draw(st.lists(st.tuples(st.integers(1, 9), st.booleans(),
                                   st.sampled_from(['simple', 'seq'])
                                   ).map(list), min_size=1, max_size=6))
    return dict(cuts=cuts, order=draw(st.permutations(list(range(len(cuts))))),
                bad=draw(st.lists(st.tuples(st.integers(0, 40),
                                            st.integers(1, 40)).map(list),
                                  max_size=3)),
                sets=draw(st.lists(st.tuples(st.integers(0, 5),
                                             st.integers(0, 2**12)).map(list),
                                   max_size=6)),
                extra=draw(st.integers(0, 3)), share=draw(st.booleans()),
                seed=draw(st.integers(0, 99)))


def run_cont(c, rec):
    """A container's mask is the concatenation of its parts, gaps kept."""
    total, ranges = 0, []
    for w, reg, kind in c['cuts']:
        if reg:
            ranges.append((total, total + w, kind))
        total += w
    cont = MutableChannelContainer(total)
    parts = []
    made = {}
    for j in c['order']:
        if j >= len(ranges):
            continue
        s, e, kind = ranges[j]
        key = (kind, e - s)
        if c['share'] and key in made:
            m = made[key]
        else:
            m = made[key] = (SimpleMutableChannel if kind == 'simple' else
                             SquentialMutableChannel)(e - s)
        cont.register_mutable(m, s, e)
        parts.append((s, e, m))
    for s, w in c['bad']:
        if any(a < s + w and s < b for a, b, _ in parts):
            assert refused(lambda: cont.register_mutable(
                SimpleMutableChannel(w), s, s + w)), 'overlap accepted'
            rec.hit()
    ref = [True] * total

    def check():
        assert cont.current_mask.tolist() == ref, \
            (cont.current_mask.tolist(), ref)
        assert cont.current_choice.tolist() == ref
        assert cont.activated_channels == sum(ref)
        if parts:
            keys = list(cont.mutable_channels)
            assert [k[0] for k in keys] == [0] + [k[1] for k in keys[:-1]]
            assert keys[-1][1] == total
            for s, e, m in parts:
                assert cont.mutable_channels[(s, e)] is m

    check()
    assert refused(lambda: setattr(cont, 'current_choice', torch.ones(total)))
    for i, x in c['sets']:
        if not parts:
            break
        s, e, m = parts[i % len(parts)]
        n = e - s
        if isinstance(m, SquentialMutableChannel):
            k = x % n + 1
            m.current_choice = k
            bits = [j < k for j in range(n)]
        else:
            bits = [bool(x >> j & 1) for j in range(n)]
            m.current_choice = torch.tensor(bits)
        for s2, e2, m2 in parts:
            if m2 is m:
                ref[s2:e2] = bits
        check()
    # a range beyond the container makes the mask unreadable
    if c['extra']:
        cont.register_mutable(SimpleMutableChannel(c['extra']), total,
                              total + c['extra'])
        assert refused(lambda: cont.current_mask), 'oversized mask'
    rec.hit(len(parts) >= 3 and [p[0] for p in parts] !=
            sorted(p[0] for p in parts))


@st.composite
def op_case(draw):
    return dict(ins=[draw(st.integers(1, 5)) for _ in range(
        draw(st.integers(1, 3)))], out=draw(st.integers(1, 6)),
        masks=draw(st.lists(st.integers(1, 2**15), min_size=3, max_size=3)),
        late=draw(st.booleans()), seed=draw(st.integers(0, 99)))


def run_op(c, rec):
    """Registering channels piecewise on an operator selects exactly them."""
    n = sum(c['ins'])
    conv = nn.Conv2d(n, c['out'], 3, padding=1)
    op = DynamicConv2d.convert_from(conv)
    op.register_mutable_attr('in_channels', MutableChannelContainer(n))
    op.register_mutable_attr('out_channels', MutableChannelContainer(c['out']))
    off, ref, pieces = 0, [], []
    for k, x in zip(c['ins'], c['masks']):
        m = SimpleMutableChannel(k)
        pieces.append((m, off, k, x))
        off += k
    for m, s, k, x in reversed(pieces):
        MutableChannelContainer.register_mutable_channel_to_module(
            op, m, False, s, s + k)
    for m, s, k, x in pieces:
        bits = [bool(x >> j & 1) for j in range(k)]
        if not any(bits):
            bits[0] = True
        m.current_choice = torch.tensor(bits)
        ref += bits
    o = SquentialMutableChannel(c['out'])
    MutableChannelContainer.register_mutable_channel_to_module(op, o, True)
    kk = c['masks'][0] % c['out'] + 1
    o.current_choice = kk
    x = rand_tensor((2, n, 5, 5), c['seed'])
    idx = torch.tensor(ref).nonzero().flatten()
    want = nn.functional.conv2d(x[:, idx], op.weight[:kk][:, idx],
                                op.bias[:kk], padding=1)
    close(op(x[:, idx]), want, what='piecewise channels')
    rec.hit(len(c['ins']) > 1 and 0 < len(idx) < n)


SUBS = [
    Sub('index_dict', dict_case(), run_dict, 4000),
    Sub('container', cont_case(), run_cont, 3000),
    Sub('module', op_case(), run_op, 800),
]
