"""Random NAS supernets: fixed-width blocks with operator / depth / kernel
choices, then a tail of dynamic convolutions with searchable channels."""
import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.architectures.dynamic_ops import (DynamicBatchNorm2d,
                                                      DynamicConv2d,
                                                      DynamicLinear,
                                                      DynamicSequential)
from mmrazor.models.architectures.dynamic_ops import BigNasConv2d
from mmrazor.models.mutables import (DiffMutableOP, MutableChannelContainer,
                                     MutableChannelUnit, OneHotMutableOP,
                                     OneShotMutableChannel, OneShotMutableOP,
                                     OneShotMutableValue)
from mmrazor.registry import MODELS

W = 4


class PConv(nn.Conv2d):
    """Convolution that keeps the size; built by candidate configs."""

    def __init__(self, in_channels, out_channels, k=3, stride=1, **kw):
        super().__init__(in_channels, out_channels, k, stride, k // 2)


class PId(nn.Module):

    def __init__(self, in_channels, out_channels, stride=1, scale=1.0, **kw):
        super().__init__()
        self.scale = nn.Parameter(torch.full((1, ), float(scale)))

    def forward(self, x):
        return x * self.scale


class PNest(nn.Module):
    """A candidate that is itself searchable."""

    def __init__(self, in_channels, out_channels, stride=1, cands=(),
                 alias=None, **kw):
        super().__init__()
        self.inner = make_op(OneShotMutableOP, cands, alias)
        self.conv = nn.Conv2d(in_channels, out_channels, 1)

    def forward(self, x):
        return self.conv(self.inner(x))


for _c in (PConv, PId, PNest):
    MODELS.register_module(name=_c.__name__, module=_c, force=True)

CANDS = dict(c1=dict(type='PConv', k=1), c3=dict(type='PConv', k=3),
             c5=dict(type='PConv', k=5), id=dict(type='PId'))


def make_op(cls, names, alias=None, nest=None):
    cands = {n: dict(CANDS[n]) for n in names}
    if nest:
        cands['nest'] = dict(type='PNest', cands=list(nest['cands']),
                             alias=nest.get('alias'))
    return cls(cands, alias=alias,
               module_kwargs=dict(in_channels=W, out_channels=W, stride=1))


class BigBlock(nn.Module):

    def __init__(self, ks, alias):
        super().__init__()
        self.conv = BigNasConv2d(W, W, max(ks), padding=max(ks) // 2)
        self.kernel = OneShotMutableValue(value_list=list(ks), alias=alias)
        self.conv.register_mutable_attr('kernel_size', self.kernel)

    def forward(self, x):
        return self.conv(x)


class Depth(nn.Module):

    def __init__(self, n, cands, alias):
        super().__init__()
        self.blocks = DynamicSequential(
            *[nn.Sequential(nn.Conv2d(W, W, 1), nn.ReLU()) for _ in range(n)])
        self.depth = OneShotMutableValue(value_list=list(cands), alias=alias)
        self.blocks.register_mutable_attr('depth', self.depth)

    def forward(self, x):
        return self.blocks(x)


class Super(nn.Module):

    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.stem = nn.Conv2d(3, W, 3, padding=1)
        blocks = []
        for b in spec['blocks']:
            if b['t'] == 'op':
                m = make_op(OneShotMutableOP, b['cands'], b['alias'],
                            b.get('nest'))
            elif b['t'] == 'diff':
                m = make_op(DiffMutableOP, b['cands'], b['alias'])
            elif b['t'] == 'onehot':
                m = make_op(OneHotMutableOP, b['cands'], b['alias'])
            elif b['t'] == 'big':
                m = BigBlock(b['cands'], b['alias'])
            else:
                m = Depth(b['n'], b['cands'], b['alias'])
            blocks.append(m)
        self.blocks = nn.Sequential(*blocks)
        tail, mcs = spec['tail'], []
        self.convs, self.bns = nn.ModuleList(), nn.ModuleList()
        self.mcs = nn.ModuleList()
        cin = W
        for t in tail:
            self.convs.append(DynamicConv2d(cin, t['c'], t['k'],
                                            padding=t['k'] // 2))
            self.bns.append(DynamicBatchNorm2d(t['c']) if t['bn']
                            else nn.Identity())
            cin = t['c']
            if t['share'] is None:
                mc = OneShotMutableChannel(t['c'], list(t['cands']),
                                           choice_mode=t['mode'])
                mc.alias = t['alias']
                self.mcs.append(mc)
                mcs.append(mc)
            else:
                mcs.append(mcs[t['share']])
        self.pool = nn.AdaptiveAvgPool2d(1)
        if spec['expand'] and tail:
            self.fc1 = DynamicLinear(cin, cin * spec['expand'])
            self.fc2 = DynamicLinear(cin * spec['expand'], 5)
        else:
            self.fc2 = (DynamicLinear if tail else nn.Linear)(cin, 5)
        if tail:
            MutableChannelUnit._register_channel_container(
                self, MutableChannelContainer)

            def reg(op, m, is_out):
                MutableChannelContainer.register_mutable_channel_to_module(
                    op, m, is_out, 0, len(m.current_mask))

            prev = None
            for i, t in enumerate(tail):
                if prev is not None:
                    reg(self.convs[i], prev, False)
                reg(self.convs[i], mcs[i], True)
                if t['bn']:
                    reg(self.bns[i], mcs[i], False)
                prev = mcs[i]
            if spec['expand']:
                e = prev * spec['expand']
                self.derived = e
                reg(self.fc1, prev, False)
                reg(self.fc1, e, True)
                reg(self.fc2, e, False)
            else:
                reg(self.fc2, prev, False)

    def forward(self, x):
        x = self.blocks(self.stem(x))
        for i, t in enumerate(self.spec['tail']):
            y = self.bns[i](self.convs[i](x))
            x = x + y if t['share'] is not None and t['share'] == i - 1 else y
        x = self.pool(x).flatten(1)
        if hasattr(self, 'fc1'):
            x = self.fc1(x).relu()
        return self.fc2(x)


@st.composite
def super_spec(draw, kinds=('op', 'nest', 'diff', 'onehot', 'big', 'depth'),
               max_blocks=4, max_tail=3, aliases=True):
    blocks = []
    seen = {}
    # operator choices are either all sampled or all differentiable
    drop = draw(st.sampled_from([('op', 'nest'), ('diff', 'onehot')]))
    kinds = [k for k in kinds if k not in drop]

    def alias(sig):
        """Blocks that share an alias have the same candidates."""
        if not aliases:
            return None
        a = draw(st.sampled_from([None, 'a', 'b', 'c']))
        if a is not None and seen.setdefault(a, sig) != sig:
            return None
        return a

    for _ in range(draw(st.integers(0, max_blocks))):
        t = draw(st.sampled_from(kinds))
        if t in ('op', 'nest', 'diff', 'onehot'):
            c = draw(st.lists(st.sampled_from(['c1', 'c3', 'c5', 'id']),
                              min_size=2, max_size=4, unique=True))
            b = dict(t='op' if t == 'nest' else t, cands=c)
            if t == 'nest':
                b['alias'] = alias(('nest', tuple(sorted(c))))
                inner = draw(st.lists(st.sampled_from(['c1', 'c3']),
                                      min_size=2, max_size=2, unique=True))
                b['nest'] = dict(cands=inner, alias=alias(
                    ('op', tuple(sorted(inner)))))
            else:
                b['alias'] = alias((b['t'], tuple(sorted(c))))
        elif t == 'big':
            c = draw(st.sampled_from([[1, 3], [3, 5], [1, 3, 5], [5, 3]]))
            b = dict(t=t, cands=c, alias=alias((t, tuple(sorted(c)))))
        else:
            n = draw(st.integers(1, 3))
            c = draw(st.lists(st.integers(1, n), min_size=1, max_size=3,
                              unique=True))
            if n not in c:
                c.append(n)
            b = dict(t=t, n=n, cands=c, alias=alias((t, n, tuple(sorted(c)))))
        blocks.append(b)
    tail, owners = [], []
    for i in range(draw(st.integers(0 if blocks else 1, max_tail))):
        share = None
        if owners and draw(st.booleans()):
            share = draw(st.sampled_from(owners))
        if share is None:
            c = draw(st.sampled_from([4, 6, 8]))
            mode = draw(st.sampled_from(['number', 'ratio']))
            k = draw(st.lists(st.integers(1, c), min_size=1, max_size=3,
                              unique=True))
            if c not in k:
                k.append(c)
            cands = k if mode == 'number' else [v / c for v in k]
            al = draw(st.sampled_from([None, f'mc{i}']))
            tail.append(dict(c=c, mode=mode, cands=cands, alias=al,
                             k=draw(st.sampled_from([1, 3])),
                             bn=draw(st.booleans()), share=None))
            owners.append(i)
        else:
            o = tail[share]
            tail.append(dict(o, share=share, k=draw(st.sampled_from([1, 3])),
                             bn=draw(st.booleans())))
    # derived widths need a width that is a number
    expand = draw(st.sampled_from([0, 0, 2, 3]))
    if tail and tail[-1]['mode'] == 'ratio':
        expand = 0
    return dict(blocks=blocks, tail=tail, expand=expand)
