"""C17: iterative pruning follows its schedule, DCFF fuses by definition, and
what is exported after a validation is the pruned network."""
import json
import math
import os
import shutil
import tempfile
from fractions import Fraction
from types import SimpleNamespace

import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from mmrazor.engine.runner import ItePruneValLoop
from mmrazor.models.algorithms import DCFF, ItePruneAlgorithm
from mmrazor.models.algorithms.pruning.ite_prune_algorithm import \
    ItePruneConfigManager
from mmrazor.models.architectures.dynamic_ops import FuseConv2d
from mmrazor.registry import MODELS
from checks.c02_channel_graph import coupled, outs_of, reference
from checks.c07_units import ref_div
from pbt.cnn import net_spec
from pbt.core import Sub
from pbt.nnutil import close, rand_tensor, randomize, same_state, snapshot
from pbt.prune import PARSE, hub, net_cfg
from pbt.search import LOG

PID = 'C17'
RULE = ('at least two pruning steps that change the structure (schedule), a '
        'structure strictly below the supernet (runs), a fused layer that '
        'loses a filter (fusion)')
ASSUMPTIONS = [
    'targets use the mode of their units (integers for number mode, floats '
    'for ratio mode) and are not above the current structure',
    'the number of iterations per epoch is an integer; the runner publishes '
    'iter, max_iters, max_epochs as mmengine loops do',
    'fused networks contain no concatenation and no group convolution other '
    'than depthwise (the operator refuses them)', 'float32 on CPU'
]


# ---------------------------------------------------------------- schedule
@st.composite
def man_case(draw):
    n = draw(st.integers(1, 5))
    keys = {}
    for i in range(n):
        if draw(st.booleans()):
            s = draw(st.integers(1, 512))
            keys[f'u{i}'] = (s, draw(st.integers(1, s)))
        else:
            keys[f'u{i}'] = (1.0, draw(st.integers(1, 100)) / 100)
    part = [k for k in keys if draw(st.integers(0, 4))]
    return dict(keys=keys, target=part, freq=draw(st.integers(1, 40)),
                times=draw(st.integers(1, 12)), linear=draw(st.booleans()),
                extra=draw(st.integers(0, 50)), seed=0)


def want_at(sup, tgt, k, times, linear):
    """Exact structure after the k-th (1-based) of ``times`` steps."""
    if not linear:
        return Fraction(tgt)
    return Fraction(sup) + (Fraction(tgt) - Fraction(sup)) * k / times


def run_manager(c, rec):
    """ItePruneConfigManager vs exact rational interpolation."""
    sup = {k: v[0] for k, v in c['keys'].items()}
    tgt = {k: c['keys'][k][1] for k in c['target']}
    m = ItePruneConfigManager(dict(tgt), dict(sup), c['freq'],
                              prune_times=c['times'], linear_schedule=c['linear'])
    steps, last = 0, None
    for it in range(c['freq'] * c['times'] + c['extra']):
        due = it % c['freq'] == 0 and it // c['freq'] < c['times']
        assert bool(m.is_prune_time(it)) == due, f'is_prune_time({it})'
        if not due:
            continue
        steps += 1
        got = m.prune_at(it)
        assert set(got) == set(tgt), 'units of the target'
        for k in tgt:
            w = want_at(sup[k], tgt[k], steps, c['times'], c['linear'])
            if isinstance(sup[k], int):
                assert type(got[k]) is int
                assert w - 1 - Fraction(1, 10**6) < got[k] <= \
                    w + Fraction(1, 10**6), f'{k} at step {steps}: {got[k]}'
                assert got[k] <= sup[k] and got[k] >= tgt[k]
            else:
                assert abs(got[k] - w) < 1e-9
            if last:
                assert got[k] <= last[k], 'a pruned unit grows again'
        last = got
    assert steps == c['times']
    for k in tgt:
        assert got[k] == tgt[k] or abs(got[k] - tgt[k]) < 1e-12, \
            'the target is not reached'
    rec.hit(c['times'] > 1 and c['linear'] and any(
        tgt[k] < sup[k] for k in tgt))


# ---------------------------------------------------------------- runs
UNITS = dict(seq='SequentialMutableChannelUnit', l1='L1MutableChannelUnit')


@st.composite
def run_case(draw):
    epochs = draw(st.integers(1, 5))
    ipe = draw(st.integers(1, 4))
    return dict(spec=draw(net_spec(max_nodes=5)),
                unit=draw(st.sampled_from(sorted(UNITS))),
                mode=draw(st.sampled_from(['number', 'ratio'])),
                d=draw(st.sampled_from([1, 1, 2])), epochs=epochs, ipe=ipe,
                freq=draw(st.integers(1, 4)), times=draw(st.integers(1, 4)),
                linear=draw(st.booleans()),
                target=draw(st.sampled_from(['all', 'all', 'some', 'none'])),
                crash=draw(st.one_of(st.none(), st.integers(1, 12))),
                evals=draw(st.integers(0, 3)),
                train=draw(st.booleans()),
                seed=draw(st.integers(0, 9999)))


def algo_of(c, cls=ItePruneAlgorithm, target=None, **kw):
    cfg = dict(type='ChannelMutator', parse_cfg=dict(PARSE),
               channel_unit_cfg=dict(type=UNITS[c['unit']],
                                     default_args=dict(choice_mode=c['mode'],
                                                       divisor=c['d']),
                                     units={}))
    a = cls(net_cfg(c['spec'], c['seed']), cfg, target_pruning_ratio=target,
            step_freq=c['freq'], prune_times=c['times'],
            linear_schedule=c['linear'], **kw)
    randomize(a.architecture, c['seed'])
    return a


def pick_target(c, units, rng):
    t = {}
    for u in units:
        if c['target'] == 'some' and rng.random() < .5:
            continue
        n = rng.randint(1, u.num_channels)
        t[u.name] = n if c['mode'] == 'number' else n / u.num_channels
    return t


def num_of(c, n, choice):
    """Channels of a unit of n channels for a requested choice."""
    k = choice if isinstance(choice, int) else \
        max(1, int(n * choice + 1e-6))
    return min(ref_div(k, c['d'], 1, .9), n)


def l1_mask(u, k):
    """The k channels with the largest mean l1 norm over the producers."""
    tot, cnt = 0, 0
    for ch in u.output_related:
        w = getattr(ch.module, 'weight', None)
        if isinstance(ch.module, (torch.nn.Conv2d, torch.nn.Linear)):
            tot = tot + w.detach().flatten(1)[ch.start:ch.end].abs().mean(1)
            cnt += 1
    order = (tot / cnt).argsort(descending=True)
    mask = torch.zeros(u.num_channels).bool()
    mask[order[:k]] = True
    gap = (tot / cnt)[order]
    clear = k == len(gap) or float(gap[k - 1] - gap[k]) > 1e-5
    return mask, clear


def run_algo(c, rec):
    """Structure after every iteration, also across a crash and resume."""
    import random
    rng = random.Random(c['seed'])
    spec = c['spec']
    probe = algo_of(c)
    target = None if c['target'] == 'none' else \
        pick_target(c, probe.mutator.mutable_units, rng)
    max_iters = c['epochs'] * c['ipe']
    by_epoch = c['epochs'] != 1
    freq = c['freq'] * (c['ipe'] if by_epoch else 1)
    a = algo_of(c, target=target)
    a.train()
    units = {u.name: u for u in a.mutator.mutable_units}
    sup = {n: u.num_channels if c['mode'] == 'number' else 1.0
           for n, u in units.items()}
    assert a.mutator.current_choices == sup, 'pruned before the training'
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    y = torch.tensor([1, 3])
    opt = torch.optim.SGD(a.architecture.parameters(), lr=.01)
    expect = {n: u.num_channels for n, u in units.items()}
    pruned = 0
    base = dict(sup)        # structure at the start of the (resumed) schedule
    resumed = False
    for it in range(max_iters):
        if c['crash'] == it:
            keep = snapshot(a)
            was = a.mutator.current_choices
            masks = {n: u.mutable_channel.current_mask.clone()
                     for n, u in units.items()}
            a = algo_of(dict(c, seed=c['seed'] + 5), target=target)
            a.load_state_dict(keep)
            a.train()
            units = {u.name: u for u in a.mutator.mutable_units}
            opt = torch.optim.SGD(a.architecture.parameters(), lr=.01)
            assert a.mutator.current_choices == was, \
                'the structure is not resumed'
            for n, u in units.items():
                assert torch.equal(u.mutable_channel.current_mask, masks[n])
            base, resumed = dict(was), True
            rec.tag('resumed')
        hub(iter=it, epoch=it // c['ipe'], max_iters=max_iters,
            max_epochs=c['epochs'])
        if c['evals'] and it % c['evals'] == 0:
            a.eval()
            old = snapshot(a)
            with torch.no_grad():
                a(x, None, mode='tensor')
            same_state(old, snapshot(a), 'evaluation')
            a.train()
        due = it % freq == 0 and it // freq < c['times']
        want_masks = {}
        if due:
            for n, u in units.items():
                if target is None:
                    # without a target the structure stays
                    continue
                if n not in target:
                    continue
                k = it // freq + 1
                b = base[n] if resumed else sup[n]
                w = want_at(b, target[n], k, c['times'], c['linear'])
                ch = math.floor(w + Fraction(1, 10**7)) \
                    if c['mode'] == 'number' else float(w)
                if c['mode'] == 'ratio':
                    # a ratio this close to a boundary may round either way
                    f = u.num_channels * float(w)
                    if abs(f - round(f)) < 1e-4 and f != round(f):
                        ch = round(f) / u.num_channels
                expect[n] = num_of(c, u.num_channels, ch)
            if c['unit'] == 'l1':
                want_masks = {n: l1_mask(u, expect[n])
                              for n, u in units.items()
                              if target and n in target}
        weights = {k: p.detach().clone() for k, p in a.named_parameters()}
        losses = a(x, y, mode='loss')
        for k, p in a.named_parameters():
            assert torch.equal(p, weights[k]), 'the forward changes a weight'
        for n, u in units.items():
            m = u.mutable_channel.current_mask.bool()
            assert int(m.sum()) == expect[n], \
                f'iter {it}: {n} has {int(m.sum())} channels, the schedule ' \
                f'says {expect[n]}'
            if c['unit'] == 'seq':
                assert m[:expect[n]].all()
            if n in want_masks and want_masks[n][1]:
                assert torch.equal(m, want_masks[n][0]), \
                    f'{n} does not keep the channels with the largest norm'
        pruned += bool(due and target)
        if c['train']:
            opt.zero_grad()
            losses['loss'].backward()
            torch.nn.utils.clip_grad_norm_(a.architecture.parameters(), 1.)
            opt.step()
    if target and (c['times'] - 1) * freq < max_iters:
        for n in target:
            u = units[n]
            assert int(u.mutable_channel.current_mask.sum()) == \
                num_of(c, u.num_channels, target[n]), 'target not reached'
        rec.tag('target')
    a.eval()
    with torch.no_grad():
        ref = reference(a.architecture.body, spec, x)
        for (r, mk), g in zip(ref, outs_of(a(x, None, mode='tensor'))):
            assert mk.all()
            close(g, r, what='pruned network')
    small = any(expect[n] < units[n].num_channels for n in units)
    rec.hit(small and pruned)
    rec.tag(c['unit'])


# ---------------------------------------------------------------- DCFF
@st.composite
def dcff_spec(draw):
    return draw(net_spec(max_nodes=4, cat=False, gw=False, reuse=False))


@st.composite
def fuse_case(draw):
    return dict(spec=draw(dcff_spec()), tau=draw(st.sampled_from(
                    [1.0, .7, .3, .1, .02, 1e-4])),
                mode=draw(st.sampled_from(['number', 'ratio'])),
                rect=draw(st.booleans()),
                steps=draw(st.integers(1, 3)),
                seed=draw(st.integers(0, 9999)))


def fuse_choice(weight, k, tau):
    """Rows of the softmax of the distances, most distinct filters first."""
    w = weight.detach().double().flatten(1)
    dist = (w[:, None, :] - w[None, :, :]).pow(2).sum(2).sqrt()
    p = torch.softmax(-dist / tau, 1)
    logp = (p + 1e-7).log()
    n = len(p)
    score = torch.zeros(n).double()
    for i in range(n):
        for j in range(n):
            score[i] += (p[i] * (logp[i] - logp[j])).sum()
    order = score.argsort(descending=True)
    gap = score[order]
    size = max(float(score.abs().max()), 1e-3)
    clear = k == n or float(gap[k - 1] - gap[k]) > 2e-3 * size
    return p, set(order[:k].tolist()), clear


def active(m, attr, n):
    mu = m.get_mutable_attr(attr)
    return n if mu is None else int(mu.current_mask.sum())


def rectify(spec, rng):
    """Some kernels become rectangular."""
    import copy
    spec = copy.deepcopy(spec)
    for n in spec['nodes']:
        if n['op'] == 'conv' and n['k'] == 3 and rng.random() < .6:
            n['rect'] = rng.choice([[1, 3], [3, 1]])
    return spec


def make_rect(net, spec):
    for i, n in enumerate(spec['nodes']):
        if n.get('rect'):
            k = n['rect']
            setattr(net, f'n{i}', torch.nn.Conv2d(
                n['cin'], n['c'], k, stride=n['s'],
                padding=(k[0] // 2, k[1] // 2), groups=n['g'],
                bias=n['bias']))


def run_fuse(c, rec):
    """Every fused convolution holds softmax-pooled filters, and so does its
    export."""
    import random
    from mmrazor.models.mutators import DCFFChannelMutator
    from mmrazor.structures.subnet import export_fix_subnet
    from pbt.cnn import Net
    rng = random.Random(c['seed'])
    spec = rectify(c['spec'], rng) if c['rect'] else c['spec']
    net = Net(spec)
    make_rect(net, spec)
    mut = DCFFChannelMutator(
        channel_unit_cfg=dict(type='DCFFChannelUnit', default_args=dict(
            choice_mode=c['mode']), units={}), parse_cfg=dict(PARSE))
    mut.prepare_from_supernet(net)
    randomize(net.eval(), c['seed'])
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    for _ in range(c['steps']):
        ch = {}
        for u in mut.mutable_units:
            n = rng.randint(1, u.num_channels)
            ch[u.name] = n if c['mode'] == 'number' else n / u.num_channels
        mut.set_choices(ch)
        mut.calc_information(c['tau'])
        lost = False
        saved = {}
        fused = {ch.module for u in mut.mutable_units
                 for ch in u.output_related}
        for name, m in net.named_modules():
            if not isinstance(m, FuseConv2d):
                continue
            ci = active(m, 'in_channels', m.in_channels)
            co = active(m, 'out_channels', m.out_channels)
            w, b, pad = m.get_dynamic_params()
            if co == m.out_channels and ci == m.in_channels:
                assert torch.equal(w, m.weight), 'a full layer is fused'
                continue
            dw = m.groups > 1
            if m not in fused:
                # its own filters are not searchable: only inputs are cut
                assert co == m.out_channels and not dw
                assert torch.equal(w, m.weight[:, :ci]), \
                    f'{name}: not the first {ci} input channels'
                saved[name] = (w.detach().clone(), m.bias)
                rec.tag('plain')
                continue
            p, top, clear = fuse_choice(m.weight, co, c['tau'])
            src = m.weight.detach().double()
            if not dw:
                src = src[:, :ci]
            full = torch.einsum('ij,jabc->iabc', p, src)
            fb = None if m.bias is None else p @ m.bias.detach().double()
            want_shape = (co, 1 if dw else ci) + tuple(m.weight.shape[2:])
            assert tuple(w.shape) == want_shape, \
                f'{name}: fused weight {tuple(w.shape)} vs {want_shape}'
            rows, scale = [], float(full.abs().max()) + 1e-9
            for r in range(co):
                err = (full - w[r].detach().double()).abs().flatten(1).max(1)[0]
                j = int(err.argmin())
                assert float(err[j]) < 2e-3 * scale + 1e-5, \
                    f'{name}: filter {r} is no fused filter'
                cand = [q for q in range(len(err))
                        if float(err[q]) < 2e-3 * scale + 1e-5]
                rows.append(cand)
                if fb is not None:
                    assert min(abs(float(m_b) - float(b[r])) for m_b in
                               fb[cand]) < 5e-3 * (1 + float(fb.abs().max()))
            if all(len(q) == 1 for q in rows):
                got = [q[0] for q in rows]
                assert len(set(got)) == co, f'{name}: a filter is used twice'
                if clear:
                    assert set(got) == top, f'{name} keeps {sorted(got)}, ' \
                        f'the KL scores say {sorted(top)}'
                    rec.tag('scored')
            lost = lost or co < m.out_channels
            saved[name] = (w.detach().clone(),
                           None if b is None else b.detach().clone())
        rec.hit(lost)
        with torch.no_grad():
            y = outs_of(net(x))
            vals = plain(net, spec, x, saved)
            for g, r in zip(y, vals):
                close(g, r, what='fused network')
    net.mutator = mut
    _, static = export_fix_subnet(net, export_subnet_mode='mutator',
                                  slice_weight=True) if c['seed'] % 2 else \
        fixed_export(net, mut)
    del net.mutator
    static.eval()
    with torch.no_grad():
        for g, r in zip(outs_of(static(x)), y):
            close(g, r, what='exported network')


def fixed_export(net, mut):
    from mmrazor.structures.subnet import export_fix_subnet
    mut.fix_channel_mutables()
    return export_fix_subnet(net, export_subnet_mode='mutator',
                             slice_weight=True)


def plain(net, spec, x, fused):
    """Forward with the fused filters and the first k statistics."""
    vals = [x]
    for i, n in enumerate(spec['nodes']):
        src = [vals[j] for j in n['x']]
        m = getattr(net, f'n{i}', None)
        if n['op'] == 'conv':
            w, b = fused.get(f'n{i}', (m.weight, m.bias))
            g = src[0].shape[1] if n['g'] > 1 else 1
            v = F.conv2d(src[0], w, b, m.stride, m.padding, m.dilation, g)
        elif n['op'] == 'bn':
            k = src[0].shape[1]
            v = F.batch_norm(src[0], m.running_mean[:k], m.running_var[:k],
                             m.weight[:k], m.bias[:k], False, 0., m.eps)
        elif n['op'] == 'linear':
            im = m.get_mutable_attr('in_channels') \
                if hasattr(m, 'get_mutable_attr') else None
            om = m.get_mutable_attr('out_channels') \
                if hasattr(m, 'get_mutable_attr') else None
            w, b = m.weight, m.bias
            if im is not None:
                w = w[:, im.current_mask.bool()]
            if om is not None:
                w = w[om.current_mask.bool()]
                b = None if b is None else b[om.current_mask.bool()]
            v = F.linear(src[0], w, b)
        else:
            v = net.op(i, n, src)
        vals.append(v)
    return [vals[o] for o in spec['outs']]


@st.composite
def dcff_case(draw):
    epochs = draw(st.integers(1, 4))
    return dict(spec=draw(dcff_spec()), epochs=epochs,
                ipe=draw(st.integers(1, 4)),
                freq=draw(st.integers(0, 6)), times=draw(st.integers(0, 6)),
                linear=draw(st.booleans()),
                target=draw(st.sampled_from(['all', 'all', 'some', 'none'])),
                mode=draw(st.sampled_from(['number', 'ratio'])), d=1,
                seed=draw(st.integers(0, 9999)))


def temperature(it, n):
    """DCFF: sigmoid-shaped 1 -> 10000, its inverse is the temperature."""
    from decimal import Decimal, getcontext
    getcontext().prec = 40
    e = lambda v: Decimal(-v).exp()
    a = 2 * Decimal(9999) * (1 + e(n)) / (1 - e(n))
    return float(1 / (a / (1 + e(it)) + 1 - a / 2))


def run_dcff(c, rec):
    """Legal frequencies, the pruning moments, temperatures and choices."""
    import random
    rng = random.Random(c['seed'])
    cfg = dict(type='DCFFChannelMutator', parse_cfg=dict(PARSE),
               channel_unit_cfg=dict(type='DCFFChannelUnit', default_args=dict(
                   choice_mode=c['mode']), units={}))

    def make(target):
        a = DCFF(net_cfg(c['spec'], c['seed']), cfg,
                 target_pruning_ratio=target, step_freq=c['freq'],
                 prune_times=c['times'], linear_schedule=c['linear'])
        randomize(a.architecture, c['seed'])
        return a.train()

    target = None if c['target'] == 'none' else \
        pick_target(c, make(None).mutator.mutable_units, rng)
    a = make(target)
    n = c['epochs'] * c['ipe']
    freq = c['freq'] * (c['ipe'] if c['epochs'] != 1 else 1)
    ok_f, ok_t = 1 <= freq <= n, 1 <= c['times'] <= n
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    y = torch.tensor([1, 3])
    calls = []
    old = a.mutator.calc_information
    a.mutator.calc_information = lambda t: (calls.append(t), old(t))[1]
    if ok_f == ok_t:
        hub(iter=0, epoch=0, max_iters=n, max_epochs=c['epochs'])
        try:
            a(x, y, mode='loss')
        except RuntimeError:
            rec.tag('refused')
            return
        raise AssertionError('step_freq and prune_times: exactly one of '
                             'them may be legal')
    if ok_f:
        times = n // freq
    else:
        times, freq = c['times'], n // c['times']
    units = {u.name: u for u in a.mutator.mutable_units}
    expect = {k: u.num_channels for k, u in units.items()}
    sup = {k: u.num_channels if c['mode'] == 'number' else 1.0
           for k, u in units.items()}
    temps = []
    for it in range(n):
        hub(iter=it, epoch=it // c['ipe'], max_iters=n, max_epochs=c['epochs'])
        due = it % freq == 0 and it // freq < times
        if due:
            temps.append(temperature(it, n))
            for k in (target or {}):
                w = want_at(sup[k], target[k], it // freq + 1, times,
                            c['linear'])
                ch = math.floor(w + Fraction(1, 10**7)) \
                    if c['mode'] == 'number' else float(w)
                if c['mode'] == 'ratio':
                    f = units[k].num_channels * float(w)
                    if abs(f - round(f)) < 1e-4:
                        ch = round(f) / units[k].num_channels
                expect[k] = num_of(c, units[k].num_channels, ch)
        a(x, y, mode='loss')
        for k, u in units.items():
            assert int(u.mutable_channel.current_mask.sum()) == expect[k], \
                f'iter {it}: {k}'
        assert len(calls) == len(temps), f'iter {it}: fused at another moment'
    for g, w in zip(calls, temps):
        assert abs(g - w) <= 1e-6 * abs(w) + 1e-12, \
            f'temperature {g} instead of {w}'
    rec.hit(len(calls) > 1 and any(expect[k] < units[k].num_channels
                                   for k in units))


# ---------------------------------------------------------------- export
@st.composite
def val_case(draw):
    kind = draw(st.sampled_from(['seq', 'l1', 'dcff']))
    c = draw(run_case())
    if kind == 'dcff':
        c['spec'] = draw(dcff_spec())
    c.update(kind=kind, linear=True, target='all', crash=None,
             vals=draw(st.integers(1, 2)), load=draw(st.booleans()))
    return c


class Evalu:
    dataset_meta = None

    def __init__(self):
        self.outs = []

    def process(self, data_samples=None, data_batch=None, **kw):
        self.outs.append(data_samples)

    def evaluate(self, n):
        return dict(acc=float(n))


def run_val(c, rec):
    """ItePruneValLoop writes a subnet and weights that rebuild the network,
    and leaves the trained model as it was."""
    import random
    from torch.utils.data import DataLoader
    from mmengine.evaluator import Evaluator
    rng = random.Random(c['seed'])
    if c['kind'] == 'dcff':
        cfg = dict(type='DCFFChannelMutator', parse_cfg=dict(PARSE),
                   channel_unit_cfg=dict(type='DCFFChannelUnit', default_args=dict(
                       choice_mode=c['mode']), units={}))

        def make(t):
            a = DCFF(net_cfg(c['spec'], c['seed']), cfg, step_freq=1,
                     target_pruning_ratio=t)
            randomize(a.architecture, c['seed'])
            return a
    else:
        c = dict(c, unit=c['kind'])

        def make(t):
            return algo_of(c, target=t)
    target = pick_target(c, make(None).mutator.mutable_units, rng)
    a = make(target).train()
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
    y = torch.tensor([1, 3])
    for it in range(2):
        hub(iter=it, epoch=0, max_iters=2, max_epochs=1)
        a(x, y, mode='loss')
    tmp = tempfile.mkdtemp(prefix='pbt_')
    try:
        data = [dict(inputs=x[i], data_samples=i) for i in range(2)]
        hooks = []
        runner = SimpleNamespace(model=a, distributed=False, work_dir=tmp,
                                 logger=LOG, call_hook=lambda n, **k:
                                 hooks.append(n), _iter=0, message_hub=None)
        loop = ItePruneValLoop.__new__(ItePruneValLoop)
        ev = Evalu()
        loop._runner, loop.evaluator, loop.fp16 = runner, ev, False
        loop.dataloader = DataLoader(data, batch_size=1, collate_fn=lambda b: {
            'inputs': b[0]['inputs'][None], 'data_samples': [b[0]['data_samples']]})
        for _ in range(c['vals']):
            a.train()
            before = snapshot(a)
            choices = a.mutator.current_choices
            metrics = loop.run()
            assert metrics == dict(acc=2.0)
            same_state(before, snapshot(a), 'validation')
            assert a.mutator.current_choices == choices
            for u in a.mutator.mutable_units:
                assert not u.mutable_channel.is_fixed, \
                    'validation fixes the trained model'
        a.eval()
        with torch.no_grad():
            want = outs_of(a(x, None, mode='tensor'))
            got = [torch.cat([outs_of(o[0])[k] for o in ev.outs[:2]])
                   for k in range(len(want))]
            for g, w in zip(got, want):
                close(g, w, what='validated outputs')
        with open(os.path.join(tmp, 'fix_subnet.json')) as f:
            sub = json.load(f)
        ck = os.path.join(tmp, 'fix_subnet_weight.pth')
        model = MODELS.build(dict(
            type='sub_model', cfg=net_cfg(c['spec'], c['seed'] + 9),
            fix_subnet=os.path.join(tmp, 'fix_subnet.json')
            if c['load'] else sub, mode='mutator',
            init_cfg=dict(type='Pretrained', checkpoint=ck,
                          prefix='architecture.')))
        model.eval()
        state = torch.load(ck)['state_dict']
        own = model.state_dict()
        for k, v in own.items():
            assert torch.equal(v, state['architecture.' + k]), \
                f'{k} is not in the exported weights'
        with torch.no_grad():
            for g, w in zip(outs_of(model(x)), want):
                close(g, w, what='rebuilt network')
        small = any(int(u.mutable_channel.current_mask.sum()) < u.num_channels
                    for u in a.mutator.mutable_units)
        rec.hit(small)
        rec.tag(c['kind'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SUBS = [
    Sub('manager', man_case(), run_manager, 500),
    Sub('algo', run_case(), run_algo, 240),
    Sub('fuse', fuse_case(), run_fuse, 200),
    Sub('dcff', dcff_case(), run_dcff, 160),
    Sub('val', val_case(), run_val, 160),
]
