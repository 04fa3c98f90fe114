"""C20: a slimmable network is exactly its listed subnets, trained together."""
import copy

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmengine.optim import OptimWrapper

from mmrazor.models.algorithms import (SlimmableNetwork,
                                       SlimmableNetworkDDP)
from mmrazor.models.architectures.dynamic_ops import SwitchableBatchNorm2d
from mmrazor.models.mutators import SlimmableChannelMutator
from mmrazor.registry import MODELS
from mmrazor.structures.subnet import export_fix_subnet
from checks.c02_channel_graph import coupled, masks_of, outs_of
from pbt.cnn import Net, module_of, net_spec
from pbt import ddp
from pbt.core import Sub
from pbt.ddp import wrapped
from pbt.nnutil import close, rand_tensor, randomize, snapshot
from pbt.prune import PARSE, hub, net_cfg

PID = 'C20'
RULE = ('at least two subnets of different width in a network that has a '
        'switchable batch norm or a coupling operation')
ASSUMPTIONS = [
    'number-mode candidates that are divisible by the divisor, the same '
    'number of candidates for every unit', 'no batch norm behind a '
    'concatenation, no group convolution but depthwise', 'SGD, accumulative_counts 1 or the number of subnets, '
    'float32 on CPU'
]


@st.composite
def slim_case(draw):
    return dict(spec=draw(net_spec(max_nodes=5, cat=False, gw=False)),
                m=draw(st.integers(1, 4)), steps=draw(st.integers(1, 3)),
                mom=draw(st.sampled_from([0., .9])),
                wd=draw(st.sampled_from([0., .01])),
                acc=draw(st.booleans()), start=draw(st.integers(0, 3)),
                dep=draw(st.integers(0, 3)), ddp=draw(st.booleans()),
                seed=draw(st.integers(0, 9999)))


class SeededSlim(SlimmableChannelMutator):
    """Gives the converted network known weights and statistics."""
    seed = 0

    def prepare_from_supernet(self, supernet):
        super().prepare_from_supernet(supernet)
        randomize(supernet, self.seed)


def units_cfg(c):
    import random
    rng = random.Random(c['seed'])
    probe = SlimmableChannelMutator(
        channel_unit_cfg=dict(type='SlimmableChannelUnit', units={}),
        parse_cfg=dict(PARSE))
    probe.prepare_from_supernet(MODELS.build(net_cfg(c['spec'], 0)))
    t = probe.config_template(with_channels=True, with_unit_init_args=True)
    units = t['channel_unit_cfg']['units']
    for u in units.values():
        n = u['init_args']['num_channels']
        cands = [rng.randint(1, n) for _ in range(c['m'])]
        if c['m'] > 1 and rng.random() < .7:
            cands[rng.randrange(c['m'])] = n
        u['init_args']['candidate_choices'] = cands
        u.pop('choice', None)
    return units


def make(c, units, deploy=-1):
    """The same network whatever ``deploy`` is."""
    units = copy.deepcopy(units)
    for u in units.values():
        u.pop('channels')
    mut = SeededSlim(
        channel_unit_cfg=dict(type='SlimmableChannelUnit', units=units),
        parse_cfg=dict(PARSE))
    mut.seed = c['seed']
    return SlimmableNetwork(net_cfg(c['spec'], 0), mut, deploy_index=deploy)


def functional(net, spec, x, width, training):
    """Run the subnet from the full weights; returns outputs, used norms.

    ``width``: {node index: kept out channels} of convs and linears."""
    vals, used = [x], []
    for i, n in enumerate(spec['nodes']):
        src = [vals[j] for j in n['x']]
        mi = module_of(i, n)
        mn = spec['nodes'][mi]
        m = getattr(net, f'n{mi}', None)
        if mn['op'] in ('conv', 'linear'):
            o = width.get(mi, mn['c'])
            k = src[0].shape[1]
            w = m.weight[:o]
            b = None if m.bias is None else m.bias[:o]
            if mn['op'] == 'linear':
                rep = 1
                im, _ = masks_of(m)
                w = w if im is None else w[:, im]
                v = F.linear(src[0], w, b)
            elif mn['g'] == 1:
                v = F.conv2d(src[0], w[:, :k], b, m.stride, m.padding)
            else:
                v = F.conv2d(src[0], w, b, m.stride, m.padding, 1, k)
        elif mn['op'] == 'bn':
            k = src[0].shape[1]
            bn = m
            if isinstance(m, SwitchableBatchNorm2d) and k != m.num_features:
                bn = m.candidate_bn[str(k)]
                assert bn.num_features == k
            used.append((f'n{mi}', bn))
            v = F.batch_norm(src[0], bn.running_mean.clone(),
                             bn.running_var.clone(), bn.weight, bn.bias,
                             training, bn.momentum, bn.eps)
        else:
            v = net.op(i, n, src)
        vals.append(v)
    return [vals[o] for o in spec['outs']], used


def widths(units, idx):
    w = {}
    for name, u in units.items():
        for ch in u['channels']['output_related']:
            if ch['name'].startswith('body.n'):
                i = int(ch['name'][6:])
                w[i] = (w.get(i, 0) if isinstance(w.get(i), int) else 0) + \
                    u['init_args']['candidate_choices'][idx]
    return w


def run_subnets(c, rec):
    """Each listed subnet is its slice of the weights with its own norms."""
    units = units_cfg(c)
    a = make(c, units)
    mut, net, spec = a.mutator, a.architecture.body, c['spec']
    if not units:
        rec.tag('nounit')
        return
    assert len(mut.subnets) == c['m'] and a.num_subnet == c['m']
    for i, s in enumerate(mut.subnets):
        assert s == {k: u['init_args']['candidate_choices'][i]
                     for k, u in units.items()}, f'subnet {i}'
    assert not a.is_deployed
    x = rand_tensor((4, 3, 8, 8), c['seed'] + 1)
    distinct = len({tuple(sorted(s.items())) for s in mut.subnets}) > 1
    sw = any(isinstance(m, SwitchableBatchNorm2d) for m in net.modules())
    rec.hit(distinct and (sw or coupled(spec)))
    rec.tag('switchable' if sw else 'plain')
    order = list(range(c['m'])) + [0]
    for i in order:
        mut.set_choices(mut.subnets[i])
        w = widths(units, i)
        for name, u in units.items():
            k = u['init_args']['candidate_choices'][i]
            got = [q for q in mut.units if q.name == name][0]
            assert got.current_choice == k
            m = got.mutable_channel.current_mask.bool()
            assert int(m.sum()) == k and m[:k].all()
        for training in (False, True):
            net.train(training)
            before = snapshot(net)
            with torch.no_grad():
                ref, used = functional(net, spec, x, w, training)
                got = outs_of(a(x, None, mode='tensor'))
            for g, r in zip(got, ref):
                close(g, r, what=f'subnet {i}')
            after = snapshot(net)
            touched = set()
            for name, m in net.named_modules():
                if any(m is b for _, b in used):
                    touched |= {f'{name}.{q}' for q in (
                        'running_mean', 'running_var', 'num_batches_tracked')}
            for k, v in after.items():
                if k not in touched or not training:
                    assert torch.equal(v, before[k]), \
                        f'subnet {i} changes {k}'
                elif k.endswith('running_mean'):
                    assert not torch.equal(v, before[k]), f'{k} not updated'
    net.eval()
    # export of a subnet through the public interface
    i = c['dep'] % c['m']
    mut.set_choices(mut.subnets[i])
    with torch.no_grad():
        want = outs_of(a(x, None, mode='tensor'))
    _, static = export_fix_subnet(a, 'mutator', slice_weight=True)
    static.eval()
    with torch.no_grad():
        for g, r in zip(outs_of(static.architecture(x)), want):
            close(g, r, what='exported subnet')
    # deployment by configuration
    b = make(c, units, deploy=i)
    assert b.is_deployed
    a2 = make(c, units)
    a2.mutator.set_choices(a2.mutator.subnets[i])
    a2.eval()
    b.eval()
    for m in b.architecture.modules():
        assert not hasattr(m, 'get_mutable_attr'), 'not static'
    with torch.no_grad():
        for g, r in zip(outs_of(b(x, None, mode='tensor')),
                        outs_of(a2(x, None, mode='tensor'))):
            close(g, r, what='deployed subnet')
    sizes = {n: tuple(p.shape) for n, p in b.architecture.named_parameters()}
    for j, o in widths(units, i).items():
        assert sizes[f'body.n{j}.weight'][0] == o, 'deployed width'
    b.train()
    y = torch.tensor([1, 3, 0, 2])
    ref = copy.deepcopy(b)
    runner = wrapped(SlimmableNetworkDDP, b) if c['ddp'] else b
    opt = torch.optim.SGD(b.parameters(), lr=.1)
    out = runner.train_step(dict(inputs=x, data_samples=y), OptimWrapper(opt))
    assert set(out) == {'loss'}
    loss = ref(x, y, mode='loss')['loss']
    close(out['loss'], loss, what='deployed loss')
    loss.backward()
    for (n, p), q in zip(b.named_parameters(), ref.parameters()):
        close(p, q - .1 * (q.grad if q.grad is not None else 0),
              what=f'deployed step {n}')


def run_train(c, rec):
    """One step of all the subnets is one update with their mean gradient
    (or one update per subnet without accumulation)."""
    units = units_cfg(c)
    if not units:
        rec.tag('nounit')
        return
    a = make(c, units).train()
    m, spec = c['m'], c['spec']
    ref = make(c, units).train()
    for p, q in zip(a.parameters(), ref.parameters()):
        assert torch.equal(p, q)
    kw = dict(lr=.05, momentum=c['mom'], weight_decay=c['wd'])
    acc = m if c['acc'] else 1
    ow = OptimWrapper(torch.optim.SGD(a.parameters(), **kw),
                      accumulative_counts=acc)
    ropt = torch.optim.SGD(ref.parameters(), **kw)
    total = c['start'] + c['steps']
    distinct = len({tuple(sorted(s.items()))
                    for s in ref.mutator.subnets}) > 1
    rec.hit(distinct and c['steps'] > 1 and acc > 1)
    rec.tag('accumulated' if acc > 1 else 'single')
    runner = a
    if c['ddp']:
        runner = wrapped(SlimmableNetworkDDP, a)
        rec.tag('ddp')
    for t in range(c['start'], total):
        hub(iter=t, epoch=0, max_iters=total, max_epochs=1)
        x = rand_tensor((4, 3, 8, 8), c['seed'] + t)
        y = torch.tensor([1, 3, 0, t])
        out = runner.train_step(dict(inputs=x, data_samples=y), ow)
        want = {}
        ropt.zero_grad()
        for i in range(m):
            ref.mutator.set_choices(ref.mutator.subnets[i])
            loss = ref(x, y, mode='loss')['loss']
            want[f'subnet_{i}.loss'] = loss.detach()
            (loss / acc).backward()
            if acc == 1:
                ropt.step()
                ropt.zero_grad()
        if acc > 1:
            ropt.step()
        assert set(out) == set(want), f'logged {sorted(out)}'
        if not all(float(v) < 1e3 for v in want.values()):
            rec.tag('diverged')     # not finite, or about to be
            return
        for k in want:
            close(out[k], want[k], what=k)
        for (n, p), q in zip(a.named_parameters(), ref.named_parameters()):
            close(p, q[1], rtol=1e-3, atol=1e-4, what=f'step {t}: {n}')
        for (n, p), q in zip(a.named_buffers(), ref.named_buffers()):
            close(p.float(), q[1].float(), rtol=1e-3, what=f'step {t}: {n}')


def rank_data(c, rank, t):
    return (rand_tensor((4, 3, 8, 8), c['seed'] + 10 * t + rank),
            torch.tensor([1 + rank, 3, 0, t]))


def optim_of(c, model):
    return torch.optim.SGD(model.parameters(), lr=.05, momentum=c['mom'],
                           weight_decay=c['wd'])


def one_rank(rank, c, a):
    model = SlimmableNetworkDDP(module=a, find_unused_parameters=True,
                                broadcast_buffers=False)
    ow = OptimWrapper(optim_of(c, a),
                      accumulative_counts=c['m'] if c['acc'] else 1)
    res = []
    for t in range(c['steps']):
        hub(iter=t, epoch=0, max_iters=c['steps'], max_epochs=1)
        x, y = rank_data(c, rank, t)
        out = model.train_step(dict(inputs=x, data_samples=y), ow)
        res.append(({k: float(v) for k, v in out.items()},
                    [p.detach().clone() for p in a.parameters()]))
    return res


def run_ranks(c, rec):
    """Two processes with their own data make the update of the average of
    both gradients."""
    units = units_cfg(c)
    if not units:
        return rec.reject()
    a = make(c, units).train()
    refs = [copy.deepcopy(a) for _ in range(2)]
    opts = [optim_of(c, r) for r in refs]
    res = ddp.ranks(2, one_rank, c, a)
    for t in range(c['steps']):
        want = [{}, {}]
        for i in range(c['m']):
            total = [None] * len(list(a.parameters()))
            for r, ref in enumerate(refs):
                ref.mutator.set_choices(ref.mutator.subnets[i])
                x, y = rank_data(c, r, t)
                loss = ref(x, y, mode='loss')['loss']
                want[r][f'subnet_{i}.loss'] = float(loss)
                for j, g in enumerate(torch.autograd.grad(
                        loss, list(ref.parameters()), allow_unused=True)):
                    if g is not None:
                        g = g / 2 / (c['m'] if c['acc'] else 1)
                        total[j] = g if total[j] is None else total[j] + g
            for r, ref in enumerate(refs):
                for p, g in zip(ref.parameters(), total):
                    if g is not None:
                        p.grad = g.clone() if p.grad is None else p.grad + g
                if not c['acc'] or i + 1 == c['m']:
                    opts[r].step()
                    opts[r].zero_grad()
        if not all(abs(v) < 1e3 for w in want for v in w.values()):
            return rec.tag('diverged')
        for r in range(2):
            assert set(res[r][t][0]) == set(want[r])
            for k, v in want[r].items():
                close(torch.tensor(res[r][t][0][k]), torch.tensor(v),
                      rtol=2e-3, atol=1e-3, what=f'rank {r} step {t} {k}')
            for (n, p), q, q0 in zip(refs[0].named_parameters(),
                                     res[r][t][1], res[0][t][1]):
                close(q, q0, rtol=1e-5, atol=1e-6,
                      what=f'step {t}: ranks differ in {n}')
                close(q, p, rtol=2e-3, atol=1e-3, what=f'step {t}: {n}')
    rec.hit(c['m'] > 1)


SUBS = [
    Sub('subnets', slim_case(), run_subnets, 200),
    Sub('train', slim_case(), run_train, 160),
    Sub('ranks', slim_case(), run_ranks, 40),
]
