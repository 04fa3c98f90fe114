"""C21: DMCP samples, trains and reports by its channel probabilities."""
import copy
import json
import math
import os
import random
import shutil
import tempfile
from types import SimpleNamespace

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmengine.optim import OptimWrapper, OptimWrapperDict

from mmrazor.engine.hooks import DMCPSubnetHook
from mmrazor.models.algorithms import DMCP, DMCPDDP
from mmrazor.models.architectures.dynamic_ops import DMCPBatchNorm2d
from mmrazor.models.mutators import DMCPChannelMutator
from mmrazor.registry import MODELS
from checks.c02_channel_graph import masks_of, outs_of
from pbt.cnn import Net, net_spec
from pbt import ddp
from pbt.core import Sub
from pbt.ddp import wrapped
from pbt.nnutil import close, rand_tensor, randomize
from pbt.prune import PARSE, hub, net_cfg
from pbt.search import LOG

PID = 'C21'
RULE = ('a unit with at least one channel group and a positive, finite '
        'architecture parameter')
ASSUMPTIONS = [
    'no batch norm behind a concatenation, no group convolution but '
    'depthwise, unit divisor 1', 'inverted_log_l1 only above the target',
    'SGD on CPU in float32; the target FLOPs of the export hook lie inside '
    'the searchable range'
]


@st.composite
def dm_spec(draw, n=4, bn=False):
    return draw(net_spec(max_nodes=n, cat=False, gw=False, reuse=False, bn=bn,
                         widths=(8, 12, 20), heads=('linear', )))


PRUNE = [(.1, 1, .05), (.1, 1, .1), (.25, 1, .25), (.2, 1, .2),
         (.5, 1, .125), (.5, 1, .5), (.1, .9, .1), (.2, .8, .2)]


def tail(n, p, k):
    """min(P[X <= k], P[X >= k]) of a binomial variable."""
    if p <= 0 or p >= 1:
        return 1. if k == (n if p >= 1 else 0) else 0.
    pr = [math.exp(math.lgamma(n + 1) - math.lgamma(i + 1) -
                   math.lgamma(n - i + 1) + i * math.log(p) +
                   (n - i) * math.log1p(-p)) for i in range(n + 1)]
    return min(sum(pr[:k + 1]), sum(pr[k:]))


def make_mutator(c):
    return dict(type='DMCPChannelMutator', parse_cfg=dict(PARSE),
                pruning_cfg=tuple(c['cfg']),
                channel_unit_cfg=dict(type='DMCPChannelUnit', units={}))


def set_arch(mut, c):
    rng = random.Random(c['seed'] + 17)
    with torch.no_grad():
        for p in mut.arch_params.values():
            for i in range(len(p)):
                p[i] = rng.choice([rng.uniform(-1, .2), rng.uniform(0, .5),
                                   rng.uniform(0, 3), 0.])


def groups_of(n, cfg):
    """(group size, groups, always kept) by the definition of the paper."""
    lo, hi, off = cfg
    size = int(off * n / hi)
    num = int((hi - lo) / off + 1e-4)
    return size, num, n - size * num


def cond(a):
    """Probability of each group given that the previous one is kept."""
    return [math.exp(-max(float(v), 0.)) for v in a]


def marg(a):
    out, p = [], 1.
    for q in cond(a):
        p *= q
        out.append(p)
    return out


@st.composite
def samp_case(draw):
    return dict(spec=draw(dm_spec(3)), cfg=list(draw(st.sampled_from(PRUNE))),
                n=draw(st.integers(60, 140)), seed=draw(st.integers(0, 9999)))


def build_net(c):
    net = Net(c['spec'])
    cfg = make_mutator(c)
    cfg.pop('type')
    mut = DMCPChannelMutator(**cfg)
    mut.prepare_from_supernet(net)
    randomize(net.eval(), c['seed'])
    set_arch(mut, c)
    return net, mut


def run_sample(c, rec):
    """max/min/random/direct/expected structures follow the probabilities."""
    net, mut = build_net(c)
    x = rand_tensor((2, 3, 8, 8), c['seed'])
    cfg = c['cfg']

    def state():
        out = []
        for i, u in enumerate(mut.units):
            m = u.mutable_channel.current_mask.bool()
            k = int(m.sum())
            assert m[:k].all(), 'not the first channels'
            out.append(k)
        return out

    info = [(u.num_channels, ) + groups_of(u.num_channels, cfg)
            for u in mut.units]
    arch = [mut.arch_params[str(i)].detach().tolist()
            for i in range(len(info))]
    for a, (n, size, num, low) in zip(arch, info):
        assert len(a) == num and low > 0
    rec.hit(any(i[1] > 0 and any(0 < v < 50 for v in a)
                for i, a in zip(info, arch)))
    rec.tag('units', len(info))
    mut.sample_subnet('max', False)
    assert state() == [i[0] for i in info], 'max'
    mut.sample_subnet('min', False)
    assert state() == [i[3] for i in info], 'min'
    mut.sample_subnet('expected', False)
    for k, a, (n, size, num, low), u in zip(state(), arch, info, mut.units):
        e = low + size * sum(marg(a))
        t = u.mutable_channel.activated_tensor_channels
        assert abs(float(t) - e) < 1e-3, f'expected {float(t)}, not {e}'
        assert abs(k - e) <= .5 + 1e-3, f'{k} channels, expected {e}'
    with torch.no_grad():
        net(x)
    for mode in ('random', 'direct'):
        hist = [[0] * (i[2] + 1) for i in info]
        for _ in range(c['n']):
            mut.sample_subnet(mode, False)
            for h, k, (n, size, num, low), u in zip(hist, state(), info,
                                                    mut.units):
                assert u.mutable_channel.activated_tensor_channels == k
                if size == 0:
                    assert k == low
                    continue
                assert (k - low) % size == 0 and low <= k <= n, \
                    f'{mode}: {k} channels of {n} in groups of {size}'
                h[(k - low) // size] += 1
        for h, a, (n, size, num, low) in zip(hist, arch, info):
            if size == 0:
                continue
            if mode == 'random':
                pr = [1 / (num + 1)] * (num + 1)
            else:
                m = [1.] + marg(a)
                pr = [m[i] - (m[i + 1] if i < num else 0.)
                      for i in range(num + 1)]
            tail_h = tail_p = 0.
            for g in reversed(range(num + 1)):
                tail_h += h[g]
                tail_p += pr[g]
                p = min(max(tail_p, 0.), 1.)
                # (probabilities are those of float32 parameters)
                assert tail(c['n'], p if 1e-6 < p < 1 - 1e-6 else round(p),
                            int(tail_h)) > 1e-9, \
                    f'{mode}: at least {g} groups in {tail_h} of {c["n"]} ' \
                    f'samples, probability {p}'
        with torch.no_grad():
            net(x)


@st.composite
def fwd_case(draw):
    c = draw(samp_case())
    c['spec'] = draw(dm_spec(3, True))
    c.update(mode=draw(st.sampled_from(['max', 'min', 'random', 'direct'])),
             train=draw(st.booleans()), arch=draw(st.sampled_from([True, True, True,
                                                     False])))
    return c


def functional(net, spec, x, training, scale):
    vals = [x]
    for i, n in enumerate(spec['nodes']):
        src = [vals[j] for j in n['x']]
        m = getattr(net, f'n{i}', None)
        if n['op'] in ('conv', 'linear'):
            im, om = masks_of(m)
            w, b = m.weight, m.bias
            if om is not None:
                w = w[om]
                b = None if b is None else b[om]
            if im is not None and n.get('g', 1) == 1:
                w = w[:, im]
            if n['op'] == 'linear':
                v = F.linear(src[0], w, b)
            else:
                v = F.conv2d(src[0], w, b, m.stride, m.padding, 1,
                             src[0].shape[1] if n['g'] > 1 else 1)
        elif n['op'] == 'bn':
            k = src[0].shape[1]
            v = F.batch_norm(src[0], m.running_mean[:k].clone(),
                             m.running_var[:k].clone(), m.weight[:k],
                             m.bias[:k], training, m.momentum, m.eps)
            if f'n{i}' in scale:
                v = v * scale[f'n{i}'][:k].reshape(1, -1, 1, 1)
        else:
            v = net.op(i, n, src)
        vals.append(v)
    return [vals[o] for o in spec['outs']]


def unit_of_bn(mut):
    """{bn module name: group id}"""
    out = {}
    for i, u in enumerate(mut.units):
        for ch in list(u.output_related) + list(u.input_related):
            if isinstance(ch.module, DMCPBatchNorm2d):
                out[ch.name] = str(i)
    return out


def scales(mut, cfg, arch):
    out = {}
    for name, gid in unit_of_bn(mut).items():
        n = mut.units[int(gid)].num_channels
        size, num, low = groups_of(n, cfg)
        p = torch.cumprod(torch.exp(-arch[gid].clamp(min=0)), 0)
        out[name] = torch.cat([torch.ones(low)] +
                              [p[i].expand(size) for i in range(num)])
    return out


def run_forward(c, rec):
    """Norms scale each channel group by its marginal probability, with the
    right gradient, exactly while the architecture is trained."""
    net, mut = build_net(c)
    spec = c['spec']
    net.train(c['train'])
    mut.sample_subnet(c['mode'], c['arch'])
    x = rand_tensor((4, 3, 8, 8), c['seed'] + 1)
    arch = {k: p.detach().clone().requires_grad_()
            for k, p in mut.arch_params.items()}
    ref = functional(net, spec, x, c['train'],
                     scales(mut, c['cfg'], arch) if c['arch'] else {})
    got = outs_of(net(x))
    for g, r in zip(got, ref):
        close(g, r, what=f'{c["mode"]} forward')
    w = [rand_tensor(tuple(g.shape), c['seed'] + 2) for g in got]
    ps = list(mut.arch_params.values())
    ga = torch.autograd.grad(sum((g * v).sum() for g, v in zip(got, w)), ps,
                             allow_unused=True)
    if c['arch']:
        gr = torch.autograd.grad(sum((r * v).sum() for r, v in zip(ref, w)),
                                 [arch[k] for k in mut.arch_params],
                                 allow_unused=True)
        for k, a, r in zip(mut.arch_params, ga, gr):
            a = torch.zeros(1) if a is None else a
            r = torch.zeros(1) if r is None else r
            if a.shape != r.shape:
                assert float(a.abs().sum()) == float(r.abs().sum()) == 0
            else:
                close(a, r, rtol=1e-3, atol=1e-3, what=f'arch gradient {k}')
        rec.hit(any(r is not None and float(r.abs().sum()) > 0 for r in gr))
    else:
        assert all(a is None for a in ga), \
            'the weights phase depends on the architecture parameters'
    rec.tag(c['mode'])
    # leaving the architecture phase removes the scaling again
    mut.sample_subnet('max', False)
    net.eval()
    with torch.no_grad():
        for g, r in zip(outs_of(net(x)), functional(net, spec, x, False, {})):
            close(g, r, what='forward after the arch phase')


# ---------------------------------------------------------------- training
@st.composite
def train_case(draw):
    return dict(spec=draw(dm_spec(3)), cfg=list(draw(st.sampled_from(PRUNE))),
                strategy=draw(st.lists(st.sampled_from(
                    ['max', 'min', 'arch_random', 'scheduled_random']),
                    min_size=1, max_size=4)),
                start=draw(st.integers(0, 3)), freq=draw(st.integers(1, 3)),
                dist=draw(st.integers(0, 4)), steps=draw(st.integers(2, 6)),
                loss=draw(st.sampled_from(['l2', 'l1', 'log_l1'])),
                weight=draw(st.sampled_from([.1, 1., 2.])),
                target=draw(st.sampled_from([.1, .6, .9, 1.0, 1.5])),
                prob=draw(st.sampled_from([1., 0., .5])), ddp=draw(st.booleans()),
                seed=draw(st.integers(0, 9999)))


class CheckedSGD(torch.optim.SGD):
    """Compares the gradients of every step with the announced ones."""
    want = None
    steps = 0

    def step(self, closure=None):
        assert self.want is not None
        ps = [p for g in self.param_groups for p in g['params']]
        for p, w in zip(ps, self.want):
            g = torch.zeros_like(p) if p.grad is None else p.grad
            w = torch.zeros_like(p) if w is None else w
            close(g, w, rtol=1e-4, atol=1e-5,
                  what='gradient of an update (others leak into it)')
        self.steps += 1
        self.want = None
        with torch.no_grad():   # bounded step, the data is random
            for p in ps:
                if p.grad is not None:
                    p -= .02 * p.grad / (1e-3 + p.grad.norm())


class Spy(OptimWrapper):

    def __init__(self, optimizer, log, name):
        super().__init__(optimizer)
        self.log, self.name = log, name

    def update_params(self, loss, *a, **k):
        ps = [p for g in self.optimizer.param_groups for p in g['params']]
        self.optimizer.want = torch.autograd.grad(
            loss, ps, retain_graph=True, allow_unused=True)
        self.log.append((self.name, float(loss.detach())))
        return super().update_params(loss, *a, **k)


DIST = dict(
    type='ConfigurableDistiller',
    teacher_recorders=dict(o=dict(type='ModuleOutputs', source='backbone')),
    student_recorders=dict(o=dict(type='ModuleOutputs', source='backbone')),
    distill_losses=dict(kd=dict(type='L2Loss', normalize=False,
                                div_element=True, loss_weight=.5)),
    loss_forward_mappings=dict(kd=dict(
        s_feature=dict(recorder='o', from_student=True),
        t_feature=dict(recorder='o', from_student=False))))


def make_dmcp(c, **kw):
    cfg = net_cfg(c['spec'], 0)
    cfg['type'] = 'PBTBackboneNet'
    a = DMCP(copy.deepcopy(DIST), cfg, make_mutator(c), **kw)
    randomize(a.architecture, c['seed'])
    set_arch(a.mutator, c)
    return a


def flops_by_hand(net, spec, mut, size, choice):
    """FLOPs of the network; ``choice``: {unit index: channels (maybe not an
    integer)} for produced channels, masks for consumed ones."""
    outc = {}
    for i, u in enumerate(mut.units):
        for ch in u.output_related:
            if ch.name.split('.')[-1].startswith('n'):
                outc[int(ch.name.split('.')[-1][1:])] = choice[i]
    tot = 0.
    shp = [(spec['cin'], size)]
    for i, n in enumerate(spec['nodes']):
        m = getattr(net, f'n{i}', None)
        c, s = shp[n['x'][0]]
        if n['op'] == 'conv':
            s = (s + n['s'] - 1) // n['s']
            o = outc.get(i, n['c'])
            im, om = masks_of(m)
            ci = n['cin'] if im is None else int(im.sum())
            k = n['k'] ** 2
            tot = tot + k * s * s * (ci * o if n['g'] == 1 else o)
            if n['bias']:
                tot = tot + o * s * s
            shp.append((o, s))
        elif n['op'] == 'linear':
            im, om = masks_of(m)
            ci = n['cin'] if im is None else int(im.sum())
            co = n['c'] if om is None else int(om.sum())
            tot = tot + ci * co + (co if n['bias'] else 0)
            shp.append((co, 1))
        elif n['op'] == 'bn':
            o = outc.get(i, n['c'])
            tot = tot + 2 * o * s * s
            shp.append((o, s))
        elif n['op'] in ('maxpool', 'avgpool'):
            tot = tot + s * s * (c if not torch.is_tensor(c) else 0)
            shp.append((c, (s + n['s'] - 1) // n['s']))
        elif n['op'] == 'gap':
            shp.append((c, n['o']))
        else:
            shp.append((c, s))
    return tot


def want_flops_loss(kind, flops, target, weight):
    err = flops - target
    if kind == 'l2':
        v = err ** 2
    elif kind == 'l1':
        v = abs(err)
    elif kind == 'inverted_log_l1':
        v = math.log(err + 1e-5) if err > 0 else None
    else:
        ratio = .1 if abs(err) > 200 else 1.
        low = .95 * target
        if flops < low:
            v = math.log(ratio * abs(err))
        elif flops < target:
            v = 0.
        else:
            v = math.log(ratio * abs(flops - low))
    return None if v is None else v * weight


def run_train(c, rec):
    """Which subnets are trained when, with which losses, and that every
    optimiser step applies the gradient of its own loss only."""
    probe = make_dmcp(c)
    probe.set_subnet('max', False)
    probe.eval()
    with torch.no_grad():
        full = float(probe.calc_current_flops())
    a = make_dmcp(c, strategy=list(c['strategy']), arch_start_train=c['start'],
                  arch_train_freq=c['freq'], distillation_times=c['dist'],
                  target_flops=full * c['target'] / 1e6,
                  flops_loss_type=c['loss'], flop_loss_weight=c['weight'])
    a.cur_sample_prob = c['prob']
    a.train()
    runner = wrapped(DMCPDDP, a) if c['ddp'] else a
    log = []
    opt = OptimWrapperDict(
        architecture=Spy(CheckedSGD(a.architecture.parameters(), lr=.1), log,
                         'w'),
        mutator=Spy(CheckedSGD(a.mutator.parameters(), lr=.1), log, 'a'))
    seen_arch = False
    prob = c['prob']
    for it in range(c['steps']):
        hub(iter=it, epoch=0, max_iters=c['steps'], max_epochs=1)
        x = rand_tensor((4, 3, 8, 8), c['seed'] + it)
        y = torch.tensor([1, 3, 0, it])
        del log[:]
        arch_on = it > c['start']
        arch_old = {k: p.detach().clone()
                    for k, p in a.mutator.arch_params.items()}
        had_teacher = 'max' in c['strategy']
        if not had_teacher and it > c['dist']:
            break       # nothing to distil from
        if 'max' in c['strategy'] and it > c['dist'] and \
                c['strategy'].index('max') > 0:
            break
        out = runner.train_step(dict(inputs=x, data_samples=y), opt)
        kinds = []
        for s in c['strategy']:
            if s in ('max', 'min'):
                kinds.append([s])
            elif s == 'arch_random':
                kinds.append(['direct' if arch_on else 'random'])
            else:
                if not arch_on or prob >= 1.:
                    kinds.append(['random'])
                elif prob <= 0.:
                    kinds.append(['direct'])
                else:
                    kinds.append(['direct', 'random'])
                prob *= .9999
        # the flips of scheduled_random only show in the logged names
        left = set(out)
        n_w = len(kinds)
        for q in ('max', 'min', 'random', 'direct'):
            got = sum(f'{q}_subnet{i}.loss' in left
                      for i in range(1, n_w + 1))
            lo = sum(k == [q] for k in kinds)
            hi = sum(q in k for k in kinds)
            assert lo <= got <= hi, f'iter {it}: {q} trained {got} times, ' \
                f'not {lo} to {hi}: {sorted(out)}'
            for i in range(1, got + 1):
                left.remove(f'{q}_subnet{i}.loss')
                if q != 'max' and it > c['dist']:
                    assert f'{q}_subnet{i}.kd' in left, 'no distillation'
                    left.remove(f'{q}_subnet{i}.kd')
        arch_step = arch_on and it % c['freq'] == 0
        if arch_step:
            assert {'arch.loss', 'flops.loss'} <= left, 'no arch update'
            left -= {'arch.loss', 'flops.loss'}
        assert not left, f'iter {it}: unexpected {sorted(left)}'
        assert [n for n, _ in log] == ['w'] * n_w + ['a', 'a'] * arch_step
        for v, k in zip(log[:n_w], range(n_w)):
            assert math.isfinite(v[1])
        if arch_step:
            seen_arch = True
            assert abs(log[-2][1] - float(out['arch.loss'])) < 1e-5 * (
                1 + abs(log[-2][1]))
            got = float(out['flops.loss'])
            assert abs(log[-1][1] - got) <= 1e-5 * (1 + abs(got))
            assert a.training, 'left in evaluation mode'
        else:
            for k, p in a.mutator.arch_params.items():
                assert torch.equal(p, arch_old[k]), \
                    'the architecture changes outside its updates'
        assert a.arch_train == arch_on
    rec.hit(seen_arch)
    rec.tag('arch' if seen_arch else 'weights')
    # FLOPs and their loss, on the structure of every mode
    a.eval()
    net = a.architecture.backbone
    for mode in ('max', 'min', 'random', 'direct', 'expected'):
        a.set_subnet(mode, False)
        ch = {i: u.mutable_channel.activated_tensor_channels
              for i, u in enumerate(a.mutator.units)}
        got = a.calc_current_flops()
        want = flops_by_hand(net, c['spec'], a.mutator, 224, ch)
        extra = float(got) - float(want)
        slack = activation_flops(c['spec'], 224)
        assert -1e-3 * abs(float(want)) - 1 <= extra <= slack + \
            1e-3 * abs(float(want)), f'{mode}: {float(got)} vs {float(want)}'
        for kind in ('l2', 'l1', 'log_l1', 'inverted_log_l1'):
            a.flops_loss_type = kind
            tgt = a.target_flops * 1e6
            d = 3e-7 * max(float(got), tgt)     # float32
            w = [want_flops_loss(kind, float(got) + e, tgt, c['weight'])
                 for e in (-d, 0., d)]
            if None in w or abs(float(got) - tgt) < 1 + 3 * d:
                continue
            t = torch.as_tensor(got, dtype=torch.float32)
            v = float(a._compute_flops_loss(t))
            lo, hi = min(w), max(w)
            assert lo - 2e-3 * (abs(lo) + c['weight']) <= v <= hi + 2e-3 * (
                abs(hi) + c['weight']), \
                f'{kind} of {float(got)} (target {tgt}): {v}, not {w[1]}'


def activation_flops(spec, size):
    """Upper bound of what activations and pools may add."""
    shp = [(spec['cin'], size)]
    tot = 0
    for n in spec['nodes']:
        c, s = shp[n['x'][0]]
        if n['op'] == 'conv':
            shp.append((n['c'], (s + n['s'] - 1) // n['s']))
        elif n['op'] == 'linear':
            shp.append((n['c'], 1))
        elif n['op'] in ('maxpool', 'avgpool'):
            tot += c * s * s
            shp.append((c, (s + n['s'] - 1) // n['s']))
        elif n['op'] == 'gap':
            tot += c * s * s
            shp.append((c, n['o']))
        else:
            if n['op'] == 'relu':
                tot += c * s * s
            shp.append((c, s))
    return tot


# ---------------------------------------------------------------- ranks
@st.composite
def ranks_case(draw):
    c = draw(train_case())
    s = ['max'] + c['strategy'][:2]
    return dict(c, strategy=s, steps=draw(st.integers(2, 4)),
                start=draw(st.integers(0, 1)), freq=draw(st.integers(1, 2)),
                diff=draw(st.booleans()))


class LoggedSGD(torch.optim.SGD):
    """Notes the gradient of the loss of this process and the one applied."""

    def __init__(self, params, log):
        super().__init__(params, lr=.1)
        self.log, self.want = log, None

    def step(self, closure=None):
        ps = [p for g in self.param_groups for p in g['params']]
        got = [None if p.grad is None else p.grad.clone() for p in ps]
        self.log.append((self.want, got))
        with torch.no_grad():
            for p in ps:
                if p.grad is not None:
                    p -= .02 * p.grad / (1e-3 + p.grad.norm())


def one_rank(rank, c, a):
    s = c['seed'] + (rank if c['diff'] else 0)
    random.seed(s)
    torch.manual_seed(s)
    log, out = [], []
    model = DMCPDDP(module=a, find_unused_parameters=True,
                    broadcast_buffers=False)
    opt = OptimWrapperDict(
        architecture=Spy(LoggedSGD(a.architecture.parameters(), log), [],
                         'w'),
        mutator=Spy(LoggedSGD(a.mutator.parameters(), log), [], 'a'))
    for it in range(c['steps']):
        hub(iter=it, epoch=0, max_iters=c['steps'], max_epochs=1)
        x = rand_tensor((4, 3, 8, 8), c['seed'] + 10 * it + rank)
        y = torch.tensor([1 + rank, 3, 0, it])
        losses = model.train_step(dict(inputs=x, data_samples=y), opt)
        out.append((sorted(losses), {
            n: p.detach().clone() for n, p in a.named_parameters()}))
    return log, out


def run_ranks(c, rec):
    """Processes with their own data apply the average of their gradients,
    to the weights and to the architecture alike."""
    probe = make_dmcp(c)
    probe.set_subnet('max', False)
    probe.eval()
    with torch.no_grad():
        full = float(probe.calc_current_flops())
    a = make_dmcp(c, strategy=list(c['strategy']), arch_start_train=c['start'],
                  arch_train_freq=c['freq'], distillation_times=c['dist'],
                  target_flops=full * c['target'] / 1e6,
                  flops_loss_type=c['loss'], flop_loss_weight=c['weight'])
    a.train()
    res = ddp.ranks(2, one_rank, c, a)
    assert len(res[0][0]) == len(res[1][0]), 'other updates on other ranks'
    bad = False
    for i, ((w0, g0), (w1, g1)) in enumerate(zip(res[0][0], res[1][0])):
        for p, q, x, y in zip(w0, w1, g0, g1):
            z = next((v for v in (p, q, x, y) if v is not None), None)
            if z is None:
                continue
            p, q, x, y = (torch.zeros_like(z) if v is None else v
                          for v in (p, q, x, y))
            if not (p.isfinite().all() and q.isfinite().all()):
                bad = True
                continue
            close(x, (p + q) / 2, rtol=1e-3, atol=1e-4,
                  what=f'gradient of update {i}, not the average')
            close(y, x, rtol=1e-4, atol=1e-6,
                  what=f'update {i}: ranks apply different gradients')
    if bad:
        return rec.tag('diverged')
    arch = False
    for t, ((k0, p0), (k1, p1)) in enumerate(zip(res[0][1], res[1][1])):
        if not c['diff']:
            assert k0 == k1
        arch |= 'arch.loss' in k0
        for n in p0:
            close(p0[n], p1[n], rtol=1e-4, atol=1e-5,
                  what=f'step {t}: ranks differ in {n}')
    rec.hit(arch)


# ---------------------------------------------------------------- hook
@st.composite
def hook_case(draw):
    return dict(spec=draw(dm_spec(3)), cfg=list(draw(st.sampled_from(PRUNE))),
                num=draw(st.integers(0, 3)), pick=draw(st.integers(0, 99)),
                seed=draw(st.integers(0, 9999)))


def run_hook(c, rec):
    """The dumped subnets meet the FLOPs target and can be rebuilt; the last
    one is the expected structure."""
    a = make_dmcp(c)
    random.seed(c['seed'])
    flops = []
    for _ in range(8):
        a.set_subnet('direct', False)
        flops.append(float(a.calc_current_flops()))
    a.target_flops = flops[c['pick'] % 8] / 1e6
    tmp = tempfile.mkdtemp(prefix='pbt_')
    try:
        runner = SimpleNamespace(model=a, work_dir=tmp, logger=LOG)
        budget = [0]
        old = a.calc_current_flops

        def limited():
            budget[0] += 1
            assert budget[0] < 4000, 'the export never ends'
            return old()

        a.calc_current_flops = limited
        DMCPSubnetHook(c['num']).after_run(runner)
        d = os.path.join(tmp, 'model_sample')
        want = {f'subnet_{i + 1}.json' for i in range(c['num'])} | {
            'excepted_ch.json'}
        assert set(os.listdir(d)) == want, sorted(os.listdir(d))
        low = False
        for f in sorted(want):
            cfg = net_cfg(c['spec'], 3)
            cfg['type'] = 'PBTBackboneNet'
            m = MODELS.build(dict(type='sub_model', cfg=cfg, mode='mutator',
                                  fix_subnet=os.path.join(d, f)))
            m.eval()
            with torch.no_grad():
                m(rand_tensor((2, 3, 8, 8), 0))
            sizes = {n: p.shape[0] for n, p in m.named_parameters()}
            if f == 'excepted_ch.json':
                for i, u in enumerate(a.mutator.units):
                    e = groups_of(u.num_channels, c['cfg'])
                    e = e[2] + e[0] * sum(marg(
                        a.mutator.arch_params[str(i)].detach()))
                    for ch in u.output_related:
                        k = sizes.get(ch.name + '.weight')
                        if k is not None:
                            assert abs(k - e) <= .5 + 1e-3, \
                                f'{ch.name}: {k} channels, expected {e}'
                            low = low or k < u.num_channels
                continue
            from mmrazor.models.task_modules.estimators import \
                ResourceEstimator
            got = ResourceEstimator().estimate(
                m.backbone, flops_params_cfg=dict(units=None))['flops']
            t = a.target_flops * 1e6
            assert .949 * t <= got <= 1.051 * t, \
                f'{f} has {got} FLOPs, target {t}'
        rec.hit(low)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SUBS = [
    Sub('sample', samp_case(), run_sample, 120),
    Sub('forward', fwd_case(), run_forward, 200),
    Sub('train', train_case(), run_train, 100),
    Sub('ranks', ranks_case(), run_ranks, 32),
    Sub('hook', hook_case(), run_hook, 60),
]
