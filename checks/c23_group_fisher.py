"""C23: group fisher pruning drops the least important channel."""
import copy
import json
import os
import shutil
import tempfile
from types import SimpleNamespace

import torch
import torch.nn as nn
from hypothesis import strategies as st
from mmengine.optim import OptimWrapper

from mmrazor.implementations.pruning.group_fisher import *  # noqa: F401,F403
from mmrazor.implementations.pruning.group_fisher.algorithm import (
    GroupFisherAlgorithm, GroupFisherDDP)
from mmrazor.implementations.pruning.group_fisher.hook import ResourceInfoHook
from mmrazor.implementations.pruning.group_fisher.ops import GroupFisherMixin
from mmrazor.implementations.pruning.group_fisher.prune_deploy_sub_model \
    import GroupFisherDeploySubModel
from mmrazor.implementations.pruning.group_fisher.prune_sub_model import \
    GroupFisherSubModel
from mmrazor.models.mutables import DerivedMutable
from mmrazor.models.utils.expandable_utils import to_expandable_model
from checks.c02_channel_graph import coupled
from pbt import ddp
from pbt.cnn import net_spec
from pbt.core import Sub
from pbt.nnutil import close, rand_tensor
from pbt.prune import PARSE, PBTPruneNet, hub, net_cfg

PID = 'C23'
RULE = ('a network with a coupling operation loses at least two channels, or '
        'a model is exported after pruning')
ASSUMPTIONS = [
    'the delta of a channel is the sum, over the calls of the layers which '
    'produce or consume it, of the multiply-adds (flops) or positions (act) '
    'it costs, as the code counts a depthwise layer on both sides',
    'ties between channels are not judged', 'networks on the CPU',
    'a process group of two ranks (gloo)'
]
ints = st.integers


def deltas(calls, kind, unit, mod_units, active):
    tot = 0
    for name, (m, shapes) in calls.items():
        ins, outs = mod_units[name]
        for sh in shapes:
            hw = sh[2] * sh[3] if len(sh) == 4 else 1
            conv = isinstance(m, nn.Conv2d)
            kk = m.kernel_size[0] * m.kernel_size[1] if conv else 1
            dw = conv and m.groups > 1
            for u, s, e in outs:
                if u is unit:
                    tot += hw * (1 if kind == 'act' else kk * (
                        1 if dw else active[name]))
            for u, s, e in ins:
                if u is unit and kind == 'flops':
                    tot += hw * kk * (1 if dw else sh[1]) * (
                        (e - s) // u.num_channels)
    return tot


def sources(container, units):
    res = []
    for (s, e), mc in container.mutable_channels.items():
        src = mc
        if isinstance(mc, DerivedMutable):
            src = list(mc._trace_source_mutables())[0]
        u = [u for u in units if u.mutable_channel is src]
        res.append((u[0] if u else None, s, e))
    return res


def reference(algo, data, kind):
    """Importance of this batch: {unit name: [C]}, by gates on the inputs."""
    algo = copy.deepcopy(algo)
    units = list(algo.mutator.units)
    names = {n: m for n, m in algo.architecture.named_modules()
             if isinstance(m, GroupFisherMixin)}
    mod_units = {n: (sources(m.get_mutable_attr('in_channels'), units),
                     sources(m.get_mutable_attr('out_channels'), units))
                 for n, m in names.items()}
    gates, calls, handles = {n: [] for n in names}, {}, []

    def pre(n):
        def f(m, x):
            g = torch.ones(x[0].shape[:2], dtype=x[0].dtype,
                           requires_grad=True)
            gates[n].append(g)
            return (x[0] * g.reshape(list(g.shape) + [1] *
                                     (x[0].dim() - 2)), )
        return f

    def post(n):
        def f(m, x, y):
            calls.setdefault(n, (m, []))[1].append(tuple(y.shape))
        return f

    for n, m in names.items():
        handles.append(m.register_forward_pre_hook(pre(n)))
        handles.append(m.register_forward_hook(post(n)))
    loss = algo.architecture(data['inputs'], data['data_samples'],
                             mode='loss')['loss']
    flat = [(n, g) for n in gates for g in gates[n]]
    grads = torch.autograd.grad(loss, [g for _, g in flat])
    by = {}
    for (n, _), g in zip(flat, grads):
        by[n] = by.get(n, 0) + g

    active = {n: int(m.get_mutable_attr('in_channels').current_mask.sum())
              for n, m in names.items()}
    res = {}
    for u in algo.mutator.mutable_units:
        tot = 0
        for n, (ins, _) in mod_units.items():
            if n not in by or not any(v is u for v, _, _ in ins):
                continue
            cont = names[n].get_mutable_attr('in_channels')
            full = torch.zeros(len(by[n]), cont.current_mask.numel())
            full[:, cont.current_mask.bool()] = by[n]
            for v, s, e in ins:
                if v is u:
                    tot = tot + full[:, s:e].reshape(
                        len(full), u.num_channels, -1).sum(-1)
        imp = (tot**2).sum(0).double()
        if kind != 'none':
            d = deltas(calls, kind, u, mod_units, active)
            imp = imp / (d / (1e9 if kind == 'flops' else 1e6))
        res[u.name] = imp
    return res


def masks(algo):
    return {u.name: u.mutable_channel.current_mask.clone().bool()
            for u in algo.mutator.units}


def expected_prune(acc, before):
    """(unit, channel, clear) of the least important active channel."""
    cand = []
    for n, imp in acc.items():
        m = before[n]
        if int(m.sum()) > 1:
            cand += [(float(imp[i]), n, i) for i in range(len(m)) if m[i]]
    if not cand:
        return None
    cand.sort(key=lambda t: t[0])
    v = cand[0][0]
    scale = max(float(i.max()) for i in acc.values())
    tied = [c[1:] for c in cand if c[0] <= v * (1 + 1e-3) + 1e-6 * scale]
    return tied


INIT = dict(type='Normal', layer=['Conv2d', 'Linear'], std=.3)


def make(c):
    unit = dict(type='GroupFisherChannelUnit', default_args=dict(
        normalization_type=c['norm'], mutate_linear=c['linear']))
    parse = dict(PARSE, tracer_type=c['tracer'])
    kw = dict(init_cfg=INIT) if c['init'] else {}
    algo = GroupFisherAlgorithm(
        net_cfg(c['spec'], c['seed'], **kw),
        mutator=dict(type='GroupFisherChannelMutator', channel_unit_cfg=unit,
                     parse_cfg=parse), interval=c['interval'])
    if c['from_cfg']:
        t = algo.mutator.config_template(with_unit_init_args=True,
                                         with_channels=True)
        t['parse_cfg'] = dict(type='Config')
        t = json.loads(json.dumps(t))
        t['channel_unit_cfg']['default_args'] = {}
        algo = GroupFisherAlgorithm(net_cfg(c['spec'], c['seed'], **kw), mutator=t,
                                    interval=c['interval'])
    with torch.no_grad():  # the gradients stay moderate
        for p in algo.architecture.parameters():
            p.mul_(c['gain'])
    return algo


def narrow(algo, c):
    """Start from units which have few channels left."""
    if not c['low']:
        return
    g = torch.Generator().manual_seed(c['seed'])
    for u in algo.mutator.mutable_units:
        k = int(torch.randint(1, c['low'] + 2, (1, ), generator=g))
        m = torch.zeros(u.num_channels)
        m[torch.randperm(u.num_channels, generator=g)[:k]] = 1
        u.mutable_channel.mask.copy_(m.to(u.mutable_channel.mask.dtype))


@st.composite
def base(draw, **kw):
    return dict(
        spec=draw(net_spec(gw=False, max_nodes=6, rect=True, **kw)),
        init=draw(st.booleans()), low=draw(st.sampled_from([0, 0, 1, 2])),
        norm=draw(st.sampled_from(['flops', 'act', 'none'])),
        linear=draw(st.booleans()),
        tracer=draw(st.sampled_from(['BackwardTracer', 'FxTracer'])),
        interval=draw(ints(1, 3)), n=draw(ints(2, 6)),
        start=draw(ints(0, 5)), from_cfg=draw(st.booleans()),
        gain=draw(st.sampled_from([.3, 1., 1., 2.])),
        lr=draw(st.sampled_from([0., .01])), b=draw(ints(1, 3)),
        seed=draw(ints(0, 9999)))


def batch(c, i, rank=0):
    s = c['seed'] + 100 * i + 7 * rank
    g = torch.Generator().manual_seed(s)
    b = c['b'] + 1
    return dict(inputs=rand_tensor((b, 3, 8, 8), s),
                data_samples=torch.randint(0, 5, (b, ), generator=g))


def optim_of(m, c):
    return OptimWrapper(torch.optim.SGD(m.parameters(), lr=c['lr'],
                                        momentum=.5))


def finite(m):
    return all(bool(torch.isfinite(p).all()) and float(p.abs().max()) < 1e3
               for p in m.parameters())


def state(m):
    return {k: v.clone() for k, v in m.state_dict().items()}


def run_train(c, rec):
    algo = make(c)
    if not list(algo.mutator.mutable_units):
        return rec.reject()
    narrow(algo, c)
    algo.train()
    optim = optim_of(algo, c)
    acc, pruned = {}, 0
    for i in range(c['n']):
        it = c['start'] + i
        hub(iter=it)
        data = batch(c, i)
        plain = copy.deepcopy((algo.architecture, optim))
        ref = reference(algo, data, c['norm'])
        acc = {k: acc.get(k, 0) + v for k, v in ref.items()}
        before = masks(algo)
        logs = algo.train_step(copy.deepcopy(data), optim)
        # -- the step itself is an ordinary one
        want = plain[0].train_step(copy.deepcopy(data), plain[1])
        for k, v in want.items():
            close(logs[k], v, what=f'log {k}')
        if not finite(plain[0]):
            return rec.reject()
        sd = algo.architecture.state_dict()
        for k, v in plain[0].state_dict().items():
            if 'mask' not in k and v.is_floating_point():
                close(sd[k], v, 1e-4, 1e-5, f'step {i}: {k}')
        # -- pruning
        after = masks(algo)
        gone = [(n, j) for n, m in after.items() for j in range(len(m))
                if before[n][j] and not m[j]]
        assert not any(bool((m & ~before[n]).any())
                       for n, m in after.items()), 'a channel came back'
        if it % c['interval']:
            assert not gone, f'pruned {gone} outside of the interval'
            for u in algo.mutator.mutable_units:
                m = before[u.name]
                close(u.normalized_fisher_info[m] / max(
                    1e-12, float(acc[u.name].max())), acc[u.name][m] / max(
                        1e-12, float(acc[u.name].max())), 2e-3, 2e-3,
                    f'importance of {u.name}')
        else:
            tied = expected_prune(acc, before)
            if tied is None:
                assert not gone
                rec.tag('exhausted')
            else:
                assert len(gone) == 1, f'pruned {gone}'
                assert gone[0] in tied, f'pruned {gone[0]} instead of {tied}'
                pruned += 1
                rec.tag('decided' if len(tied) == 1 else 'tied')
            acc = {}
        for m in algo.modules():
            if isinstance(m, GroupFisherMixin):
                assert not m._forward_hooks and not m._backward_hooks
                assert not m.recorded_input and not m.recorded_grad
    rec.hit(pruned >= 2 and coupled(c['spec']))
    rec.tag(c['norm'])
    if c['from_cfg']:
        rec.tag('from_cfg')


# -- two ranks

def one_rank(rank, c, algo):
    model = GroupFisherDDP(module=algo, find_unused_parameters=True)
    model.train()
    for m in model.modules():
        if isinstance(m, nn.modules.batchnorm._BatchNorm):
            m.eval()
    optim = optim_of(algo, c)
    trace = []
    for i in range(c['n']):
        hub(iter=c['start'] + i)
        model.train_step(batch(c, i, rank), optim)
        trace.append((state(algo.architecture), masks(algo)))
    return trace


def run_ranks(c, rec):
    c = dict(c, start=0)
    algo = make(c)
    if not list(algo.mutator.mutable_units):
        return rec.reject()
    narrow(algo, c)
    # made before the process group: SyncBN does not exist on the CPU
    a, b = ddp.ranks(2, one_rank, c, algo)
    algo.train()
    for m in algo.modules():
        if isinstance(m, nn.modules.batchnorm._BatchNorm):
            m.eval()
    optim = optim_of(algo.architecture, c).optimizer
    acc = {}
    for i in range(c['n']):
        for k, v in a[i][0].items():
            assert torch.equal(v, b[i][0][k]), f'step {i}: ranks differ in {k}'
        for k, v in a[i][1].items():
            assert torch.equal(v, b[i][1][k]), f'step {i}: masks differ: {k}'
        # importances of both halves, gradients averaged
        before = masks(algo)
        grads = {}
        for r in (0, 1):
            for k, v in reference(algo, batch(c, i, r), c['norm']).items():
                acc[k] = acc.get(k, 0) + v
            d = batch(c, i, r)
            loss = algo.architecture(d['inputs'], d['data_samples'],
                                     mode='loss')['loss']
            ps = [p for p in algo.architecture.parameters()]
            for p, g in zip(ps, torch.autograd.grad(loss, ps,
                                                    allow_unused=True)):
                if g is not None:
                    grads[p] = grads.get(p, 0) + g / 2
        optim.zero_grad()
        for p, g in grads.items():
            p.grad = g
        optim.step()
        if not finite(algo):
            return rec.reject()
        sd = algo.architecture.state_dict()
        for k, v in a[i][0].items():
            if k in sd and 'mask' not in k and v.is_floating_point():
                close(v, sd[k], 1e-4, 1e-5, f'step {i}: {k}')
        after = a[i][1]
        gone = [(n, j) for n, m in after.items() for j in range(len(m))
                if before[n][j] and not m[j]]
        if i % c['interval'] == 0:
            tied = expected_prune(acc, before)
            if tied is None:
                assert not gone
            else:
                assert len(gone) == 1 and gone[0] in tied, (gone, tied)
            acc = {}
        else:
            assert not gone
        for u in algo.mutator.units:
            u.mutable_channel.mask.copy_(after[u.name].to(
                u.mutable_channel.mask.dtype))
    rec.hit(coupled(c['spec']))
    rec.tag(c['norm'])


# -- from the pruned algorithm to static models

def prune_some(algo, c):
    g = torch.Generator().manual_seed(c['seed'])
    for u in algo.mutator.mutable_units:
        k = int(torch.randint(min(2, u.num_channels), u.num_channels + 1,
                              (1, ), generator=g))
        m = torch.zeros(u.num_channels)
        m[torch.randperm(u.num_channels, generator=g)[:k]] = 1
        u.mutable_channel.mask.copy_(m.to(u.mutable_channel.mask.dtype))


@st.composite
def static_case(draw):
    return dict(draw(base()), divisor=draw(st.sampled_from([1, 1, 2, 3, 4])),
                via=draw(st.sampled_from(['object', 'checkpoint'])),
                as_file=draw(st.booleans()))


def widths(m):
    return {n: (getattr(l, 'in_channels', getattr(l, 'in_features', None)),
                getattr(l, 'out_channels', getattr(l, 'out_features', None)))
            for n, l in m.named_modules()
            if isinstance(l, (nn.Conv2d, nn.Linear))}


def run_static(c, rec):
    tmp = tempfile.mkdtemp(prefix='c23_')
    try:
        _static(c, rec, tmp)
    finally:
        shutil.rmtree(tmp)


def _static(c, rec, tmp):
    algo = make(c)
    if c['via'] == 'object':
        algo.init_weights()
    prune_some(algo, c)
    x = rand_tensor((2, 3, 8, 8), c['seed'] + 5)
    algo.eval()
    with torch.no_grad():
        want = algo.architecture(x)
    d = c['divisor']
    choices = dict(algo.mutator.current_choices)
    src = algo
    if c['via'] == 'checkpoint':
        path = os.path.join(tmp, 'a.pth')
        torch.save(dict(state_dict=algo.state_dict()), path)
        src = make(c)
        src.init_cfg = dict(type='Pretrained', checkpoint=path)
        src.eval()
    hub(cfg=f'work_dir = {tmp!r}\n')
    from mmengine.runner import Runner  # noqa: F401
    sub = GroupFisherSubModel(src, divisor=d)
    assert isinstance(sub, PBTPruneNet)
    assert not [1 for m in sub.modules() if isinstance(m, GroupFisherMixin)]
    outs = want if isinstance(want, tuple) else (want, )

    def compare(m, what):
        m.eval()
        with torch.no_grad():
            got = m(x)
        got = got if isinstance(got, tuple) else (got, )
        assert len(got) == len(outs)
        for p, q in zip(got, outs):
            close(p, q, 2e-4, 2e-4, what)
    before = {k: v.clone() for k, v in sub.state_dict().items()}
    sub.init_weights()  # what a runner does to it
    for k, v in sub.state_dict().items():
        assert torch.equal(v, before[k]), f'{k} initialised again'
    saved = json.load(open(os.path.join(tmp, 'fix_subnet.json')))
    if d == 1:
        assert saved == choices, 'fix_subnet.json'
        compare(sub, 'GroupFisherSubModel')
        # the structure and the weights build the model for deployment
        fix = choices
        if c['as_file']:
            fix = os.path.join(tmp, 'fix.json')
            json.dump(choices, open(fix, 'w'))
        for dd in (1, 2, 4):
            dep = GroupFisherDeploySubModel(
                net_cfg(c['spec'], c['seed'] + 1), fix, divisor=dd,
                parse_cfg=dict(PARSE, tracer_type=c['tracer']))
            assert widths(dep) == widths(sub)
            dep.load_state_dict(sub.state_dict())
            compare(dep, 'GroupFisherDeploySubModel')
            if dd != 1:
                dep.eval()
                dep.post_process_for_mmdeploy()
                compare(dep, 'divisible model for deployment')
                divisible(widths(sub), widths(dep), choices, dd)
    else:
        ref = copy.deepcopy(algo)
        one = GroupFisherSubModel(ref, divisor=1)
        ws = widths(one)
        divisible(ws, widths(sub), choices, d)
        ones = {k: v.clone() for k, v in one.state_dict().items()}
        mutator = to_expandable_model(copy.deepcopy(one))
        for u in mutator.mutable_units:
            for ch in u.output_related:
                n = ch.name
                if n in ws:
                    assert widths(sub)[n][1] % d == 0, (
                        f'{n}: {ws[n]} -> {widths(sub)[n]}')
        # the pruned weights stay where they were
        for k, v in sub.state_dict().items():
            w = ones[k]
            if v.shape == w.shape:
                assert torch.equal(v, w), k
    rec.hit(coupled(c['spec']))
    rec.tag(f'divisor {d}')
    rec.tag(c['via'])


def divisible(old, new, choices, d):
    assert list(old) == list(new)
    for n in old:
        for a, b in zip(old[n], new[n]):
            assert b >= a, f'{n} shrank from {a} to {b}'


# -- checkpoints at thresholds

@st.composite
def hook_case(draw):
    return dict(draw(base()), thr=draw(st.lists(
        st.sampled_from([.95, .9, .8, .7, .6, .5, .4]), min_size=1,
        max_size=3, unique=True)), early=draw(st.booleans()),
        every=draw(ints(1, 3)), kind=draw(st.sampled_from(
            ['flops', 'params'])), steps=draw(ints(3, 12)))


def run_hook(c, rec):
    tmp = tempfile.mkdtemp(prefix='c23_')
    try:
        _hook(c, rec, tmp)
    finally:
        shutil.rmtree(tmp)


def cost(algo, kind):
    from mmrazor.models.task_modules import ResourceEstimator
    m = copy.deepcopy(algo).eval()
    r = ResourceEstimator(flops_params_cfg=dict(
        input_shape=(1, 3, 8, 8))).estimate(m)
    return r[kind]


def _hook(c, rec, tmp):
    algo = make(c)
    units = list(algo.mutator.mutable_units)
    if not units:
        return rec.reject()
    algo.train(c['seed'] % 2 == 0)
    mode = algo.training
    runner = SimpleNamespace(model=algo, work_dir=tmp)
    hub(iter=0, epoch=0)
    h = ResourceInfoHook(
        demo_input=dict(type='mmrazor.DefaultDemoInput',
                        input_shape=[1, 3, 8, 8]),
        interval=c['every'], resource_type=c['kind'],
        save_ckpt_thr=list(c['thr']), early_stop=c['early'])
    origin = cost(algo, c['kind'])
    if not origin:  # rounded to zero
        return rec.reject()
    h.before_run(runner)
    todo = sorted(c['thr'], reverse=True)
    g = torch.Generator().manual_seed(c['seed'])
    saved = {}
    for it in range(c['steps']):
        hub(iter=it)
        u = units[int(torch.randint(len(units), (1, ), generator=g))]
        m = u.mutable_channel.mask
        on = m.nonzero().flatten()
        if len(on) > 1:
            m[on[int(torch.randint(len(on), (1, ), generator=g))]] = 0
        sd = state(algo)
        stopped = False
        try:
            h.after_train_iter(runner, it)
        except SystemExit:
            stopped = True
        assert algo.training == mode, 'mode changed'
        for k, v in sd.items():
            assert torch.equal(v, algo.state_dict()[k]), f'{k} changed'
        if it % c['every'] == 0 and todo and \
                cost(algo, c['kind']) / origin < todo[0]:
            saved[f'{c["kind"]}_{todo.pop(0):.2f}.pth'] = sd
        assert set(os.listdir(tmp)) == set(saved), (os.listdir(tmp),
                                                    list(saved))
        assert stopped == (c['early'] and not todo), 'early stop'
        if stopped:
            rec.tag('stopped')
            break
    for f, sd in saved.items():
        got = torch.load(os.path.join(tmp, f))['state_dict']
        assert set(got) == set(sd)
        for k, v in sd.items():
            assert torch.equal(got[k], v), f'{f}: {k}'
    rec.hit(len(saved) > 0)


SUBS = [
    Sub('train', base(), run_train, 120),
    Sub('ranks', base(), run_ranks, 24),
    Sub('static', static_case(), run_static, 50),
    Sub('hook', hook_case(), run_hook, 40),
]
