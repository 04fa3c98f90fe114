"""C02: channel units of generated CNNs are complete, aligned and exact."""
import copy
import json

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

from mmrazor.models.mutators import (ChannelMutator, OneShotChannelMutator)
from mmrazor.models.task_modules.tracer.channel_analyzer import \
    ChannelAnalyzer
from mmrazor.structures.subnet import export_fix_subnet, load_fix_subnet
from pbt.cnn import Net, analyse, expected_free, module_of, net_spec
from pbt.core import Sub
from pbt.nnutil import bits, close, rand_tensor, randomize

PID = 'C02'
RULE = ('a network with a coupling operation (add, mul, gate, cat, depthwise '
        'or group convolution, shared module, flatten of a map) in which at '
        'least one searchable unit is set below its maximum')
ASSUMPTIONS = [
    'networks of convolutions, batch norms, linears, activations, pools, '
    'add/mul/gate/cat/flatten in float32 on CPU, evaluation mode',
    'a module is not reused on its own output, one value is not concatenated '
    'with itself, group convolutions have group size at least two'
]
KINDS = dict(seq='SequentialMutableChannelUnit', l1='L1MutableChannelUnit',
             oneshot='OneShotMutableChannelUnit')


def masks_of(m):
    """(in mask, out mask) of a possibly dynamic conv / linear / bn."""
    if hasattr(m, 'get_mutable_attr'):
        i, o = m.get_mutable_attr('in_channels'), \
            m.get_mutable_attr('out_channels')
        i = i.current_mask.bool() if i is not None else None
        o = o.current_mask.bool() if o is not None else None
    else:
        i = o = None
    return i, o


def reference(net, spec, x):
    """Full-size run of the network with the reported masks applied.

    Checks on the way that every consumer selects exactly the channels its
    producers deliver.  Returns list of (value, mask) per output.
    """
    vals = [(x, torch.ones(x.shape[1]).bool())]
    for i, n in enumerate(spec['nodes']):
        src = [vals[j] for j in n['x']]
        mi = module_of(i, n)
        mn = spec['nodes'][mi]
        op = mn['op']
        v, mk = src[0]
        if op in ('conv', 'linear', 'bn'):
            m = getattr(net, f'n{mi}')
            im, om = masks_of(m)
            im = im if im is not None else torch.ones(len(mk)).bool()
            assert torch.equal(im, mk), \
                f'{op} n{mi} selects {im.int().tolist()} of its input, but ' \
                f'the producers deliver {mk.int().tolist()}'
            if op == 'bn':
                out = F.batch_norm(v, m.running_mean, m.running_var, m.weight,
                                   m.bias, False, 0., m.eps)
                om = mk if om is None else om
                assert torch.equal(om, mk), f'bn n{mi} changes the mask'
            elif op == 'conv':
                out = F.conv2d(v, m.weight, m.bias, m.stride, m.padding,
                               m.dilation, m.groups)
            else:
                out = F.linear(v, m.weight, m.bias)
            if om is None:
                om = torch.ones(out.shape[1]).bool()
            assert om.any(), f'n{mi} has no channel left'
            vals.append((zero(out, om), om))
        elif op in ('add', 'mul', 'gate'):
            assert torch.equal(src[0][1], src[1][1]), \
                f'{op} of values with different channels'
            vals.append((zero(net.op(i, n, [s[0] for s in src]), mk), mk))
        elif op == 'cat':
            vals.append((torch.cat([s[0] for s in src], 1),
                         torch.cat([s[1] for s in src])))
        elif op == 'flatten':
            vals.append((v.flatten(1), mk.repeat_interleave(n['rep'])))
        else:
            vals.append((zero(net.op(i, n, [v]), mk), mk))
    return [vals[o] for o in spec['outs']]


def zero(t, mask):
    return t * mask.to(t.dtype).reshape([1, -1] + [1] * (t.dim() - 2))


def outs_of(y):
    return list(y) if isinstance(y, (tuple, list)) else [y]


def coupled(spec):
    return any(n['op'] in ('add', 'mul', 'gate', 'cat', 'reuse') or
               n.get('g', 1) > 1 or n.get('rep', 1) > 1
               for n in spec['nodes'])


def parse(tracer):
    return dict(type='ChannelAnalyzer', demo_input=(1, 3, 8, 8),
                tracer_type=tracer)


def unit_args(c):
    if c['kind'] == 'oneshot':
        return dict(choice_mode=c['mode'], divisor=c['d'],
                    candidate_choices=c['cands'])
    return dict(choice_mode=c['mode'], divisor=c['d'])


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    mode = draw(st.sampled_from(['number', 'ratio']))
    if mode == 'number':
        cands = draw(st.lists(st.integers(1, 8), min_size=1, max_size=3))
    else:
        cands = draw(st.lists(st.sampled_from([.25, .5, .75, 1.0]),
                              min_size=1, max_size=3))
    return dict(spec=draw(net_spec(opaque=True)), kind=kind, mode=mode,
                d=draw(st.sampled_from([1, 1, 1, 2])), cands=cands,
                tracer=draw(st.sampled_from(['BackwardTracer', 'FxTracer'])),
                steps=draw(st.lists(st.sampled_from(
                    ['sample', 'min', 'max', 'set', 'mask']),
                    min_size=1, max_size=3)),
                seed=draw(st.integers(0, 9999)))


def build(c):
    net = randomize(Net(c['spec']).eval(), c['seed'])
    mut = ChannelMutator(
        channel_unit_cfg=dict(type=KINDS[c['kind']],
                              default_args=unit_args(c), units={}),
        parse_cfg=parse(c['tracer']))
    before = {k: v.clone() for k, v in net.state_dict().items()}
    grads = {k: v.requires_grad for k, v in net.named_parameters()}
    mut.prepare_from_supernet(net)
    after = net.state_dict()
    for k, v in before.items():
        assert k in after and torch.equal(v, after[k]), \
            f'preparing the network changed {k}'
    for k, v in net.named_parameters():
        assert v.requires_grad == grads.get(k, v.requires_grad)
        assert v.grad is None
    for k, m in net.named_modules():
        assert not m._forward_hooks, f'a hook is left in {k}'
        if isinstance(m, (nn.Conv2d, nn.Linear, nn.BatchNorm2d)):
            assert not m.training, f'{k} is in training mode'
    return net, mut


def apply_step(c, step, k, mut, rec):
    import random
    rng = random.Random(c['seed'] * 31 + k)
    if step == 'sample':
        ch = mut.sample_choices()
        mut.set_choices(ch)
        assert mut.current_choices == ch, 'set choices are not reported back'
    elif step in ('min', 'max') and c['kind'] == 'oneshot':
        mut.set_choices({u.name: getattr(u, step + '_choice')
                         for u in mut.mutable_units})
    elif step == 'mask' and c['kind'] == 'l1':
        for u in mut.mutable_units:
            u.mutable_channel.current_choice = bits(
                u.num_channels, rng.randrange(2**u.num_channels))
    else:
        ch = {}
        for u in mut.mutable_units:
            if c['kind'] == 'oneshot':
                ch[u.name] = rng.choice(u.candidate_choices)
            else:
                n = {'min': 1, 'max': u.num_channels}.get(
                    step, rng.randint(1, u.num_channels))
                ch[u.name] = n if c['mode'] == 'number' else \
                    n / u.num_channels
        mut.set_choices(ch)


def covered(mut, spec):
    cov = {}
    for u in mut.mutable_units:
        for chn in u.output_related:
            if not chn.name.startswith('n') or not chn.name[1:].isdigit():
                continue
            i = int(chn.name[1:])
            if spec['nodes'][i]['op'] in ('conv', 'linear'):
                for k in range(chn.start, chn.end):
                    assert (i, k) not in cov, f'n{i}:{k} is in two units'
                    cov[i, k] = u.name
    return cov


def run_graph(c, rec):
    """Generated CNN + tracer + units: complete, aligned, exact, exportable."""
    spec = c['spec']
    net, mut = build(c)
    uf, _ = analyse(spec)
    cov = covered(mut, spec)
    free = expected_free(spec)
    extra = sorted(set(cov) - free)
    assert not extra, f'channels tied to the input/output are searchable: ' \
        f'{extra[:8]}'
    miss = sorted(free - set(cov))
    assert not miss, f'free channels are not searchable: {miss[:8]}'
    # coupled channels share one unit
    cls = {}
    for e, name in cov.items():
        r = uf.find(('o',) + e)
        assert cls.setdefault(r, name) == name, f'coupled {e} is split'
    rec.tag(c['tracer'])
    rec.tag('units', len(mut.mutable_units))
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    plain = randomize(Net(spec).eval(), c['seed'])
    with torch.no_grad():
        full = outs_of(plain(x))
        for u in mut.mutable_units:
            u.current_choice = u.num_channels if c['mode'] == 'number' \
                and c['kind'] != 'oneshot' else u.current_choice
        for k, step in enumerate(c['steps']):
            apply_step(c, step, k, mut, rec)
            small = any(u.mutable_channel.current_mask.sum() <
                        u.num_channels for u in mut.mutable_units)
            rec.hit(small and coupled(spec))
            ref = reference(net, spec, x)
            got = outs_of(net(x))
            for (r, mk), g, f in zip(ref, got, full):
                assert mk.all(), 'an output channel was removed'
                close(g, r, what=f'dynamic output after {step}')
                if not small:
                    close(g, f, what='maximal choice')
        if c['seed'] % 2:
            mut.fix_channel_mutables()
        else:
            for u in mut.units:
                u.fix_chosen()
        ref = reference(net, spec, x)
        net.mutator = mut
        before = [g.clone() for g in got]
        sub, static = export_fix_subnet(
            net, export_subnet_mode='mutator', slice_weight=True,
            export_channel=bool(c['seed'] & 2))
        del net.mutator, static.mutator
        static.eval()
        for m in static.modules():
            assert not hasattr(m, 'get_mutable_attr'), \
                f'{type(m).__name__} survives the export'
        for (r, _), g, b in zip(ref, outs_of(static(x)), before):
            close(g, r, what='exported network')
            close(g, b, what='exported network vs dynamic')
        n_static = {n: tuple(p.shape) for n, p in static.named_parameters()}
        for i, n in enumerate(spec['nodes']):
            if n['op'] in ('conv', 'linear'):
                _, om = masks_of(getattr(net, f'n{i}'))
                want = n['c'] if om is None else int(om.sum())
                assert n_static[f'n{i}.weight'][0] == want


@st.composite
def tmpl_case(draw):
    c = draw(case())
    c['kind'] = draw(st.sampled_from(sorted(KINDS)))
    c['steps'] = ['sample', 'set']
    c['chan'] = draw(st.booleans())
    return c


def run_template(c, rec):
    """A mutator rebuilt from config_template has the same units/choices."""
    spec = c['spec']
    net, mut = build(c)
    for k, s in enumerate(c['steps']):
        apply_step(c, s, k, mut, rec)
    t = mut.config_template(with_channels=c['chan'], with_unit_init_args=True)
    t = json.loads(json.dumps(t))  # must be plain data
    keep = json.dumps(t, sort_keys=True)
    if c['chan'] and c['seed'] % 3:
        # a hand-written config may leave out what is the whole range
        for u in t['channel_unit_cfg']['units'].values():
            for chs in u['channels'].values():
                for ch in chs:
                    ch.pop('is_output_channel', None)
                    if ch['start'] == 0:
                        ch.pop('start')
                    if ch['end'] == u['init_args']['num_channels']:
                        ch.pop('end')
    assert set(t['channel_unit_cfg']['units']) == {u.name for u in mut.units}
    only = mut.config_template(only_mutable_units=True)
    assert set(only['channel_unit_cfg']['units']) == \
        {u.name for u in mut.units if u.is_mutable}
    new = {u.name: u.name for u in mut.units}
    traced = False
    if c['chan']:
        t['parse_cfg'] = dict(type='Config')
        if c['seed'] % 2:  # units may be given any name
            new = {n: f'my_{i}' for i, n in enumerate(new)}
            us = t['channel_unit_cfg']['units']
            t['channel_unit_cfg']['units'] = {new[n]: us[n] for n in us}
    elif c['seed'] % 2:
        t['parse_cfg']['from_cfg'] = True
    else:  # arguments of units that are traced again
        traced = True
        if c['seed'] % 4:
            t['channel_unit_cfg']['default_args'] = {}
    cls = {'ChannelMutator': ChannelMutator}[t.pop('type')]
    net2 = Net(spec).eval()
    mut2 = cls(**t)
    mut2.prepare_from_supernet(net2)
    net2.eval()
    for k, v in net.state_dict().items():
        net2.state_dict()[k].copy_(v)
    rec.hit(coupled(spec) and len(mut.mutable_units) > 0)
    assert sorted(u.name for u in mut2.mutable_units) == \
        sorted(new[u.name] for u in mut.mutable_units), 'units differ'
    now = {new[n]: v for n, v in mut.current_choices.items()}
    if c['kind'] != 'l1' and not traced:
        assert mut2.current_choices == now, 'choices are not restored'
    else:
        mut2.set_choices(now)
        mut.set_choices(mut.current_choices)
    cov, cov2 = covered(mut, spec), covered(mut2, spec)
    assert {k: new[v] for k, v in cov.items()} == cov2
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    with torch.no_grad():
        for a, b in zip(outs_of(net(x)), outs_of(net2(x))):
            close(b, a, what='rebuilt network')
    # a template is not consumed by building from it
    t2 = mut2.config_template(with_channels=c['chan'],
                              with_unit_init_args=True)
    a = json.loads(keep)['channel_unit_cfg']
    b = json.loads(json.dumps(t2))['channel_unit_cfg']
    assert a['type'] == b['type'] and \
        {new[n] for n in a['units']} == set(b['units'])
    for name in a['units']:
        ua, ub = a['units'][name], b['units'][new[name]]
        if c['kind'] == 'l1':
            continue
        assert ua == ub, f'template of {name}: {ua} vs {ub}'


SUBS = [
    Sub('graph', case(), run_graph, 700),
    Sub('template', tmpl_case(), run_template, 240),
]
