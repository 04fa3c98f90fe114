"""C03: exporting a subnet and loading it elsewhere gives the same network."""
import copy
import json

import torch
import torch.nn as nn
import yaml
from hypothesis import strategies as st

from mmrazor.models.architectures.dynamic_ops import DynamicMixin
from mmrazor.models.mutables.base_mutable import BaseMutable
from mmrazor.models.mutators import ChannelMutator, NasMutator
from mmrazor.structures.subnet import (convert_fix_subnet, export_fix_subnet,
                                       load_fix_subnet)
from checks import c02_channel_graph as g
from pbt.cnn import Net, net_spec
from pbt.core import Sub
from pbt.nas import Super, super_spec
from pbt.nnutil import close, rand_tensor, randomize, same_state, snapshot

PID = 'C03'
RULE = ('at least one choice of the exported subnet differs from the maximal '
        '/ default one and the network has at least two searchable modules')
ASSUMPTIONS = [
    'every searchable module is registered in the model by name or carries '
    'an alias', 'the twin is built from the same configuration'
]


class Algo(nn.Module):

    def __init__(self, net):
        super().__init__()
        self.architecture = net

    def forward(self, x):
        return self.architecture(x)


@st.composite
def nas_case(draw):
    return dict(spec=draw(super_spec()),
                wrap=draw(st.sampled_from(['no', 'prefix', 'extra'])),
                medium=draw(st.sampled_from(['json', 'yaml', 'raw', 'file'])),
                kind=draw(st.sampled_from(['random', 'random', 'min', 'max'])),
                seed=draw(st.integers(0, 9999)))


def has_arch(spec):
    return any(b['t'] in ('diff', 'onehot') for b in spec['blocks'])


def medium(sub, how):
    """Carry the subnet through a storage medium."""
    if how == 'raw':
        return sub
    plain = convert_fix_subnet(sub)
    if how == 'json':
        return json.loads(json.dumps(plain))
    if how == 'yaml':
        return yaml.safe_load(yaml.safe_dump(plain))
    import os
    import tempfile
    from mmengine import fileio
    fd, path = tempfile.mkstemp(suffix='.yaml')
    os.close(fd)
    fileio.dump(plain, path)
    return path


def run_nas(c, rec):
    """Supernet -> export -> storage -> fresh supernet: same function."""
    import os
    spec = c['spec']
    net = Super(spec).eval()
    mut = NasMutator()
    mut.prepare_from_supernet(net)
    if has_arch(spec):
        mut.prepare_arch_params()
        randomize(mut, c['seed'] + 3)
    randomize(net, c['seed'])
    choices = mut.sample_choices(
        c['kind'] if not any(b['t'] in ('op', 'nest')
                             for b in spec['blocks']) else 'random')
    mut.set_choices(choices)
    rec.hit(len(mut.search_groups) > 1)
    x = rand_tensor((2, 3, 6, 6), c['seed'] + 1)
    top = Algo(net) if c['wrap'] == 'extra' else net
    state = snapshot(top)
    with torch.no_grad():
        want = None if has_arch(spec) else top(x)
    sub, _ = export_fix_subnet(top)
    sub_b, static = export_fix_subnet(top, slice_weight=True)
    static.eval()
    assert convert_fix_subnet(sub) == convert_fix_subnet(sub_b)
    same_state(state, snapshot(top), 'export changed the supernet')
    for n, m in top.named_modules():
        if isinstance(m, BaseMutable):
            assert not m.is_fixed, f'export fixed {n} of the supernet'
    assert mut.current_choices == choices, 'export changed the choices'
    with torch.no_grad():
        if want is not None:
            close(top(x), want, 0, 0, 'supernet after export')
            close(static(x), want, what='static export')
        else:
            want = static(x)
    names = [n for n, m in static.named_modules()
             if isinstance(m, DynamicMixin)]
    assert not names, f'dynamic modules {names} survive the export'
    data = medium(sub, c['medium'])
    for attempt in range(2):  # the description is not consumed
        twin = Super(spec).eval()
        keep = copy.deepcopy(data)
        if c['wrap'] == 'prefix':
            load_fix_subnet(Algo(twin), data, prefix='architecture.')
        elif c['wrap'] == 'extra':
            load_fix_subnet(twin, data, extra_prefix='architecture.')
        else:
            load_fix_subnet(twin, data)
        assert keep == data, 'loading changed the description'
        sd = {(k[len('architecture.'):] if c['wrap'] == 'extra' else k): v
              for k, v in static.state_dict().items()}
        # which weights exist is part of the exported structure
        cur = twin.state_dict()
        assert set(cur) == set(sd), \
            f'twin has other weights: {sorted(set(cur) ^ set(sd))[:6]}'
        twin.load_state_dict(sd, strict=True)
        twin.eval()
        for n, m in twin.named_modules():
            assert not isinstance(m, DynamicMixin), f'{n} is still dynamic'
            if isinstance(m, BaseMutable):
                assert m.is_fixed, f'{n} is still searchable'
        with torch.no_grad():
            close(twin(x), want, what='loaded subnet')
    # an incomplete description is refused
    if c['medium'] in ('json', 'yaml') and data:
        key = sorted(data)[c['seed'] % len(data)]
        broken = {k: v for k, v in data.items() if k != key}
        other = Super(spec)
        ok = False
        try:
            kw = {}
            tgt = other
            if c['wrap'] == 'prefix':
                tgt, kw = Algo(other), dict(prefix='architecture.')
            elif c['wrap'] == 'extra':
                kw = dict(extra_prefix='architecture.')
            load_fix_subnet(tgt, broken, **kw)
            ok = True
        except (AssertionError, RuntimeError, TypeError):
            pass
        # what is only needed by a dropped candidate may be missing, like
        # a second name of a module that has its own entry
        if ok:
            nested = [b['nest']['alias'] for b in spec['blocks']
                      if b.get('nest')]
            assert key.endswith(('derived', 'inner')) or key in nested, \
                f'description without {key} was accepted'
    if c['medium'] == 'file':
        os.unlink(data)


@st.composite
def mut_case(draw):
    c = draw(g.case())
    c['steps'] = draw(st.lists(st.sampled_from(['sample', 'set', 'min']),
                               min_size=1, max_size=2))
    c['chan'] = draw(st.booleans())
    c['medium'] = draw(st.sampled_from(['json', 'raw']))
    return c


def run_mutator(c, rec):
    """Pruned network -> mutator description -> fresh network."""
    spec = c['spec']
    net, mut = g.build(c)
    for k, s in enumerate(c['steps']):
        g.apply_step(c, s, k, mut, rec)
    net.mutator = mut
    sub, static = export_fix_subnet(net, export_subnet_mode='mutator',
                                    slice_weight=True,
                                    export_channel=c['chan'])
    del net.mutator, static.mutator
    static.eval()
    rec.hit(len(mut.mutable_units) > 1 and any(
        u.mutable_channel.current_mask.sum() < u.num_channels
        for u in mut.mutable_units))
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    data = json.loads(json.dumps(sub)) if c['medium'] == 'json' else sub
    with torch.no_grad():
        want = g.outs_of(net.eval()(x))
        for a, b in zip(g.outs_of(static(x)), want):
            close(a, b, what='static export')
    for _ in range(2):
        twin = Net(spec).eval()
        load_fix_subnet(twin, data, load_subnet_mode='mutator')
        a, b = twin.state_dict(), static.state_dict()
        assert {k: tuple(v.shape) for k, v in a.items()} == \
            {k: tuple(v.shape) for k, v in b.items()}, 'shapes differ'
        twin.load_state_dict(b)
        twin.eval()
        with torch.no_grad():
            got = g.outs_of(twin(x))
        for a, b in zip(got, want):
            close(a, b, what='loaded pruned network')


SUBS = [
    Sub('nas', nas_case(), run_nas, 500),
    Sub('mutator', mut_case(), run_mutator, 240),
]
