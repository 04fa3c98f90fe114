"""C28: networks made wider compute what they computed before."""
import copy

import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.mutators import ChannelMutator
from mmrazor.models.utils.expandable_utils import (
    expand_expandable_dynamic_model, expand_static_model,
    make_channel_divisible, to_expandable_model)
from mmrazor.models.utils.expandable_utils.ops import ExpandableMixin
from mmrazor.structures.subnet import export_fix_subnet, load_fix_subnet
from checks.c02_channel_graph import coupled, outs_of
from pbt.cnn import Net, net_spec
from pbt.core import Sub
from pbt.nnutil import close, rand_tensor, randomize

PID = 'C28'
RULE = ('at least one group of channels of a network with a coupling '
        'operation gets wider')
ASSUMPTIONS = [
    'networks of convolutions (plain and depthwise), batch norms, linears, '
    'activations, pools, add/mul/gate/cat/flatten on the CPU',
    'a module is registered under one name', 'layers have at least two '
    'channels (with one channel, the parts of a concatenated and flattened '
    'input cannot be told from its repetition)'
]
ints = st.integers


@st.composite
def case(draw):
    return dict(
        spec=draw(net_spec(gw=False)), how=draw(st.sampled_from(
            ['units', 'units', 'static', 'divisible'])),
        extra=[draw(ints(0, 5)) for _ in range(8)],
        divisor=draw(st.sampled_from([2, 3, 4, 5, 8])),
        zero=draw(st.sampled_from([True, True, False])),
        pruned=draw(st.booleans()), eval=draw(st.booleans()),
        affine=draw(st.sampled_from(
            [True, True, False])), stats=draw(st.sampled_from(
                [True, True, False])),
        tracer=draw(st.sampled_from(['BackwardTracer', 'FxTracer'])),
        seed=draw(ints(0, 9999)))


def adapt(net, c):
    """Norms without parameters / statistics, other dtypes and modes."""
    for n, m in list(net.named_children()):
        if isinstance(m, nn.BatchNorm2d):
            new = nn.BatchNorm2d(m.num_features, affine=c['affine'],
                                 track_running_stats=c['stats'] or
                                 not c['affine'], eps=1e-3,
                                 momentum=.3)
            setattr(net, n, new)
    randomize(net, c['seed'])
    for m in net.modules():
        if isinstance(m, nn.BatchNorm2d) and m.track_running_stats:
            m.num_batches_tracked.fill_(7)
    return net


def prune(net, c):
    """A static pruned network, as exported after pruning."""
    if not c['pruned']:
        return net
    mut = ChannelMutator(
        dict(type='L1MutableChannelUnit'),
        parse_cfg=dict(type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
                       tracer_type='FxTracer'))
    mut.prepare_from_supernet(net)
    g = torch.Generator().manual_seed(c['seed'])
    mut.set_choices({
        k: int(torch.randint(min(2, v), v + 1, (1, ), generator=g))
        for k, v in mut.choice_template.items()})
    sub, sd = export_fix_subnet(net, slice_weight=True)
    return sd if isinstance(sd, nn.Module) else net


def build(c):
    net = adapt(Net(c['spec']), c)
    for mode in (False, not c['eval']):
        try:
            copy.deepcopy(net).train(mode)(torch.rand(1, 3, 8, 8))
        except ValueError:
            # batch norms using the statistics of the batch after global
            # pooling cannot run on the single demo input
            return None
    net.eval()
    net = prune(net, c)
    return net.train(not c['eval'])


def layers(net):
    return {n: m for n, m in net.named_modules()
            if isinstance(m, (nn.Conv2d, nn.Linear, nn.BatchNorm2d))}


def settings(m):
    s = [m.training]
    for k in ('kernel_size', 'stride', 'padding', 'dilation', 'padding_mode',
              'eps', 'momentum', 'affine', 'track_running_stats'):
        s.append(getattr(m, k, None))
    s.append(isinstance(m, nn.Conv2d) and m.groups > 1)
    s.append(getattr(m, 'bias', None) is None)
    return s


def run(c, rec):
    net = build(c)
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    if net is None:
        return rec.reject()
    ref = copy.deepcopy(net)
    plain = copy.deepcopy(net)
    with torch.no_grad():
        want = outs_of(copy.deepcopy(ref)(x))
    ref_ls = layers(ref)

    def check(model, what):
        with torch.no_grad():
            got = outs_of(copy.deepcopy(model)(x))
        assert len(got) == len(want)
        for a, b in zip(got, want):
            close(a, b, 2e-4, 2e-4, what)

    # -- making the network expandable changes nothing
    mut = to_expandable_model(net)
    for k, v in ref.state_dict().items():
        assert torch.equal(net.state_dict()[k], v), f'{k} changed by tracing'
    assert all(a.training == b.training for a, b in zip(
        layers(net).values(), ref_ls.values())), 'modes changed by tracing'
    check(net, 'expandable network')
    sizes = mut.choice_template
    grow = {k: v for k, v in zip(
        sorted(sizes), [c['extra'][i % 8] for i in range(len(sizes))])}
    # -- make it wider
    if c['how'] == 'units':
        for u in mut.mutable_units:
            n = u.num_channels
            if c['seed'] % 2:
                u.expand(grow[u.name])
            else:
                u.expand_to(n + grow[u.name])
        wide = expand_expandable_dynamic_model(net, zero=c['zero'])
        new = {k: sizes[k] + grow[k] for k in sizes}
    elif c['how'] == 'static':
        st_ = {k: sizes[k] + grow[k] for k in sizes if grow[k] or c['eval']}
        wide = expand_static_model(copy.deepcopy(plain), st_,
                                   zero_weight=c['zero'])
        new = {k: st_.get(k, v) for k, v in sizes.items()}
    else:
        wide = copy.deepcopy(plain)
        tmpl = make_channel_divisible(wide, c['divisor'],
                                      zero_weight=c['zero'])
        d = c['divisor']
        new = {k: -(-v // d) * d for k, v in sizes.items()}
        assert sorted(tmpl.values()) == sorted(new.values()), (tmpl, new)
        grow = {k: new[k] - sizes[k] for k in sizes}
    assert not any(isinstance(m, ExpandableMixin) for m in wide.modules())
    # -- widths
    got = to_expandable_model(copy.deepcopy(wide)).choice_template
    assert sorted(got.values()) == sorted(new.values()), (got, new)
    ls = layers(wide)
    assert list(ls) == list(ref_ls)
    for n, m in ls.items():
        o = ref_ls[n]
        assert type(m) is type(o), n
        assert settings(m) == settings(o), f'{n}: {m} instead of {o}'
        for k, v in o.state_dict().items():
            w = m.state_dict()[k]
            assert w.dtype == v.dtype, f'{n}.{k}: {w.dtype}'
            if w.dim() == 0:
                assert torch.equal(w, v), f'{n}.{k}: {w} instead of {v}'
            assert w.dim() == v.dim() and all(
                a >= b for a, b in zip(w.shape, v.shape)), f'{n}.{k} shrank'
            # the old values are still there, in their order
            if w.dim() and w.shape == v.shape:
                assert torch.equal(w, v), f'{n}.{k} changed'
            if w.dim() == 1:
                i = 0
                for e in w.tolist():
                    if i < len(v) and e == float(v[i]):
                        i += 1
                assert i == len(v), f'{n}.{k} lost values'
    if not c['zero']:
        # the function of the old channels, without the new ones
        zero_like(wide, net if c['how'] == 'units' else plain, c, new, sizes)
    check(wide, 'expanded network')
    rec.hit(any(grow.values()) and coupled(c['spec']))
    rec.tag(c['how'])
    rec.tag('zero' if c['zero'] else 'random')
    if c['pruned']:
        rec.tag('pruned')


def zero_like(wide, base, c, new, sizes):
    """Silence the new channels of `wide`, which keep random weights."""
    other = adapt(Net(c['spec']), c)
    other.eval()
    other = prune(other, c).train(not c['eval'])
    # where the zero expansion has weights, the random one has the same
    mut = to_expandable_model(other)
    for k in sizes:
        mut._name2unit[k].expand_to(new[k])
    z = expand_expandable_dynamic_model(other, zero=True)
    zs = layers(z)
    fresh = False
    for n, m in layers(wide).items():
        if isinstance(m, nn.BatchNorm2d) and not c['affine']:
            continue
        a, b = m.weight.data, zs[n].weight.data
        assert a.shape == b.shape, n
        old = b != 0
        assert torch.equal(a[old], b[old]), f'{n}: weights changed'
        if bool((~old).any()):
            assert isinstance(m, nn.BatchNorm2d) or bool(
                (a[~old] != 0).any()), f'{n}: new weights are zero'
        a[~old] = 0
        if m.bias is not None:
            a, b = m.bias.data, zs[n].bias.data
            old = b != 0
            assert torch.equal(a[old], b[old]), f'{n}: bias changed'
            a[~old] = 0


SUBS = [Sub('expand', case(), run, 160)]
