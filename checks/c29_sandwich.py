"""C29: weight-sharing training steps (sandwich rule, single path)."""
import copy
import random

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmengine.model import BaseModel
from mmengine.optim import AmpOptimWrapper, OptimWrapper

from mmrazor.models.algorithms import (SPOS, AutoSlim, AutoSlimDDP, BigNAS,
                                       BigNASDDP)
from mmrazor.models.architectures.ops.mobilenet_series import MBBlock
from mmrazor.registry import MODELS
from checks.c02_channel_graph import outs_of
from pbt.cnn import net_spec
from pbt import ddp
from pbt.core import Sub
from pbt.ddp import wrapped
from pbt.nas import Super, super_spec
from pbt.nnutil import close, rand_tensor, randomize
from pbt.prune import PARSE, hub, net_cfg

PID = 'C29'
RULE = ('at least two different subnets in the step and more than one step, '
        'or a space of at least two subnets')
ASSUMPTIONS = [
    'SGD on CPU in float32; DDP wrappers are run in a process group of one '
    'process and of two (gloo)', 'one KL divergence between one recorded output (the '
    'classifier) of the largest and of the other subnets'
]


class Pre(nn.Module):
    """A preprocessor that scales training data."""

    def forward(self, data, training=False):
        return dict(data, inputs=data['inputs'] * (2 if training else 1))


LOSSES = {
    f'{tau}{red}': (dict(type='KLDivergence', tau=tau, reduction=red,
                         loss_weight=w),
                    lambda s, t, tau=tau, red=red, w=w: w * tau**2 * F.kl_div(
                        F.log_softmax(s / tau, 1),
                        F.softmax(t.detach() / tau, 1), reduction=red))
    for tau, red, w in ((1., 'batchmean', 1.), (2., 'batchmean', .5),
                        (4., 'sum', .1))
}


def distiller(kind, source):
    loss = copy.deepcopy(LOSSES[kind][0])
    return dict(
        type='ConfigurableDistiller',
        teacher_recorders=dict(o=dict(type='ModuleOutputs', source=source)),
        student_recorders=dict(o=dict(type='ModuleOutputs', source=source)),
        distill_losses=dict(loss_kd=loss),
        loss_forward_mappings=dict(loss_kd=dict(
            preds_S=dict(recorder='o', from_student=True),
            preds_T=dict(recorder='o', from_student=False))))


# optimizer wrapper semantics: when is there an update, and how is a loss
# scaled, given the total number of losses
class Accumulate:

    def __init__(self, opt, params, acc, inner, total):
        self.opt, self.acc, self.inner, self.total = opt, acc, inner, total
        opt.zero_grad()

    def step(self, loss):
        rest = self.total % self.acc
        div = self.acc if self.inner < self.total - rest else rest
        (loss / div).backward()
        self.inner += 1
        if self.inner % self.acc == 0 or self.inner == self.total:
            self.opt.step()
            self.opt.zero_grad()


# ---------------------------------------------------------------- autoslim
@st.composite
def slim_case(draw):
    mode = draw(st.sampled_from(['number', 'ratio', 'blocks']))
    return dict(
        spec=draw(net_spec(max_nodes=4, heads=('linear', ), gw=False)),
        mode=mode,
        cands=draw(st.lists(st.integers(1, 8), min_size=1, max_size=3)),
        kd=draw(st.sampled_from(sorted(LOSSES))),
        nr=draw(st.integers(0, 4)), steps=draw(st.integers(1, 3)),
        start=draw(st.integers(0, 2)), more=draw(st.integers(0, 2)),
        acc=draw(st.sampled_from(['1', 'k', 'k', '2k', '2'])),
        mom=draw(st.sampled_from([0., .9])),
        wd=draw(st.sampled_from([0., .01])),
        norm=draw(st.booleans()), ddp=draw(st.booleans()),
        seed=draw(st.integers(0, 9999)))


def slim_mutator(c):
    if c['mode'] == 'blocks':
        unit = dict(type='OneShotMutableChannelUnit', default_args=dict(
            num_blocks=4, min_blocks=2), units={})
    elif c['mode'] == 'number':
        unit = dict(type='OneShotMutableChannelUnit', default_args=dict(
            candidate_choices=list(c['cands']), choice_mode='number'),
            units={})
    else:
        unit = dict(type='OneShotMutableChannelUnit', default_args=dict(
            candidate_choices=[k / 8 for k in c['cands']],
            choice_mode='ratio'), units={})
    if c['mode'] == 'blocks':
        unit['default_args'] = dict(
            candidate_choices=[.25, .5, 1.], choice_mode='ratio')
    return dict(type='OneShotChannelMutator', channel_unit_cfg=unit,
                parse_cfg=dict(PARSE))


def head_of(spec):
    """The module node that gives the (first) output."""
    i = spec['outs'][0] - 1
    return i if spec['nodes'][i]['op'] == 'linear' else None


def make_slim(c, src):
    a = AutoSlim(net_cfg(c['spec'], c['seed']), slim_mutator(c),
                 distiller(c['kd'], src), norm_training=c['norm'],
                 num_random_samples=c['nr'], data_preprocessor=Pre())
    randomize(a, c['seed'])
    return a


def spy(arch, mut, log):
    """Record the choices of every forward; random layers are seeded."""
    orig = arch.forward

    def forward(*args, **kw):
        torch.manual_seed(len(log))
        log.append(dict(mut.current_choices))
        return orig(*args, **kw)

    arch.forward = forward


def run_slim(c, rec):
    """AutoSlim: max, min and random subnets, distilled from the max."""
    h = head_of(c['spec'])
    if h is None:
        return rec.reject('no classifier')
    src = f'body.n{h}'
    a, ref = make_slim(c, src), make_slim(c, src)
    a.train()
    ref.train()
    mut = a.mutator
    units = {u.name: u for u in mut.mutable_units}
    if not units:
        return rec.reject('nothing searchable')
    kinds = 2 + c['nr']
    log = []
    spy(a.architecture, mut, log)
    runner = a
    if c['ddp']:
        runner = wrapped(AutoSlimDDP, a)
        rec.tag('ddp')
    acc = {'1': 1, 'k': kinds, '2k': 2 * kinds, '2': 2}[c['acc']]
    kw = dict(lr=.05, momentum=c['mom'], weight_decay=c['wd'])
    ow = OptimWrapper(torch.optim.SGD(a.parameters(), **kw),
                      accumulative_counts=acc)
    total = c['start'] + c['steps'] + c['more']
    racc = Accumulate(torch.optim.SGD(ref.parameters(), **kw), None, acc,
                      c['start'] * kinds, total * kinds)
    space = 1
    for u in units.values():
        space *= len(set(u.candidate_choices))
    rec.hit(space > 1 and c['steps'] > 1)
    rec.tag('acc' + c['acc'])
    rand = []
    for t in range(c['start'], c['start'] + c['steps']):
        hub(iter=t, epoch=0, max_iters=total, max_epochs=1)
        x = rand_tensor((4, 3, 8, 8), c['seed'] + t)
        y = torch.tensor([1, 3, 0, t])
        del log[:]
        out = runner.train_step(dict(inputs=x / 2, data_samples=y), ow)
        assert len(log) == kinds, f'{len(log)} subnets were trained'
        want, teacher = {}, None
        names = ['max', 'min'] + [f'random{i}' for i in range(c['nr'])]
        for k, (kind, ch) in enumerate(zip(names, log)):
            assert set(ch) == set(units)
            for n, v in ch.items():
                cs = units[n].candidate_choices
                if kind == 'max':
                    assert v == max(cs), f'max subnet has {v} of {cs}'
                elif kind == 'min':
                    assert v == min(cs), f'min subnet has {v} of {cs}'
                else:
                    assert v in cs, f'{v} is no candidate of {n}'
            if kind.startswith('random'):
                rand.append(tuple(sorted(ch.items())))
            ref.mutator.set_choices(ch)
            torch.manual_seed(k)
            box = []
            hd = getattr(ref.architecture.body,
                         f'n{h}').register_forward_hook(
                             lambda m, i, o: box.append(o))
            loss = ref.architecture(x, y, mode='loss')['loss']
            hd.remove()
            want[f'{kind}_subnet.loss'] = loss.detach()
            if kind == 'max':
                teacher = box[0].detach()
            else:
                kd = LOSSES[c['kd']][1](box[0], teacher)
                want[f'{kind}_subnet.loss_kd'] = kd.detach()
                loss = loss + kd
            racc.step(loss)
        assert set(out) == set(want), f'logged {sorted(out)}'
        if not all(float(v) < 1e3 for v in want.values()):
            rec.tag('diverged')     # not finite, or about to be
            return
        for k in want:
            close(out[k], want[k], what=f'step {t} {k}')
        for (n, p), q in zip(a.named_parameters(), ref.parameters()):
            close(p, q, rtol=1e-3, atol=1e-4, what=f'step {t}: {n}')
        for (n, p), q in zip(a.named_buffers(), ref.buffers()):
            close(p.float(), q.float(), rtol=1e-3, what=f'step {t}: {n}')
    if c['nr'] and space**(1 - len(rand)) < 1e-9:
        assert len(set(rand)) > 1, 'the random subnets are always the same'
    # evaluation mode and its exception for the norms
    runner.train(False)
    for n, m in a.named_modules():
        bn = isinstance(m, nn.modules.batchnorm._BatchNorm)
        assert m.training == (bn and c['norm']), \
            f'{n} training {m.training} in evaluation'
    runner.train(True)
    assert all(m.training for m in a.modules())


# ------------------------------------------------------------------ bignas
def stage(draw, first):
    ks = sorted(draw(st.sets(st.sampled_from([3, 5]), min_size=1)))
    d = sorted(draw(st.sets(st.integers(1, 3), min_size=1, max_size=2)))
    e = sorted(draw(st.sets(st.sampled_from([1, 2, 3]), min_size=1,
                            max_size=2)))
    return ks, d, e


@st.composite
def arch_setting(draw, n=3, widths=(8, 16, 24)):
    """Explicit [min, max, step] ranges as AttentiveMobileNetV3 reads them."""
    ks, nb, er, ch = [], [], [], []

    def rng(lo, hi, step):
        a, b = sorted((draw(st.integers(lo, hi)), draw(st.integers(lo, hi))))
        return [a * step, b * step, step]
    for _ in range(n):
        k = draw(st.integers(0, 2))
        ks.append([[3, 3, 2], [3, 5, 2], [5, 5, 2]][k])
        nb.append(rng(1, 2, 1))
        er.append(rng(1, 3, 1))
    er.append(rng(1, 2, 1))
    for _ in range(n + 2):
        ch.append(rng(1, 3, 8))
    return dict(kernel_size=ks, num_blocks=nb, expand_ratio=er,
                num_out_channels=ch)


@st.composite
def big_case(draw):
    n = draw(st.integers(1, 3))
    return dict(
        n=n, arch=draw(arch_setting(n)),
        se=[draw(st.booleans()) for _ in range(n)],
        stride=[draw(st.sampled_from([1, 2])) for _ in range(n)],
        att=draw(st.booleans()), fine=draw(st.booleans()),
        rate=draw(st.sampled_from([0., .2, .5, .9])),
        stages=draw(st.lists(st.integers(1, n), unique=True, max_size=n)),
        nr=draw(st.integers(0, 2)), steps=draw(st.integers(1, 2)),
        kd=draw(st.sampled_from(sorted(LOSSES))),
        mom=draw(st.sampled_from([0., .9])),
        acc=draw(st.sampled_from(['1', 'k', '2'])), ddp=draw(st.booleans()),
        start=draw(st.integers(0, 2)), more=draw(st.integers(0, 2)),
        seed=draw(st.integers(0, 9999)))


def big_cfg(c):
    last = c['arch']['num_out_channels'][-1][1]
    att = c['att'] or any(  # a plain shortcut needs fixed, equal widths
        a[0] != a[1] for a in c['arch']['num_out_channels'])
    return dict(
        type='mmrazor.SearchableImageClassifier',
        backbone=dict(
            type='mmrazor.AttentiveMobileNetV3',
            arch_setting=copy.deepcopy(c['arch']), out_indices=(c['n'], ),
            stride_list=list(c['stride']), with_se_list=list(c['se']),
            fine_grained_mode=c['fine'], with_attentive_shortcut=att,
            conv_cfg=dict(type='mmrazor.BigNasConv2d'),
            norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d', momentum=.1)),
        neck=dict(type='mmcls.GlobalAveragePooling'),
        head=dict(_scope_='mmrazor', type='DynamicLinearClsHead',
                  num_classes=5, in_channels=last,
                  loss=dict(type='mmcls.CrossEntropyLoss'), topk=(1, )),
        connect_head=dict(
            connect_with_backbone='backbone.last_mutable_channels'))


def make_big(c):
    a = BigNAS(big_cfg(c), dict(type='mmrazor.NasMutator'),
               distiller(c['kd'], 'head.fc'), data_preprocessor=Pre(),
               num_random_samples=c['nr'], drop_path_rate=c['rate'],
               backbone_dropout_stages=list(c['stages']))
    randomize(a, c['seed'])
    return a


def samples(y):
    from mmcls.structures import ClsDataSample
    return [ClsDataSample().set_gt_label(int(v)) for v in y]


def options(m):
    return m.candidate_choices if hasattr(m, 'candidate_choices') else \
        m.choices


def run_big(c, rec):
    """BigNAS: sandwich rule with in-place distillation and drop path."""
    a, ref = make_big(c), make_big(c)
    a.train()
    ref.train()
    kinds = 2 + c['nr']
    groups = a.mutator.search_groups
    log, drops = [], []
    blocks = [(i + 1, m) for i, layer in enumerate(
        a.architecture.backbone.layers[:-1]) for m in layer
              if isinstance(m, MBBlock)]

    orig = a.architecture.forward

    def forward(*args, **kw):
        torch.manual_seed(len(log))
        log.append(dict(a.mutator.current_choices))
        drops.append([m.drop_path_rate for _, m in blocks])
        return orig(*args, **kw)

    a.architecture.forward = forward
    runner = a
    if c['ddp']:
        runner = wrapped(BigNASDDP, a)
        rec.tag('ddp')
    acc = {'1': 1, 'k': kinds, '2': 2}[c['acc']]
    total = c['start'] + c['steps'] + c['more']
    kw = dict(lr=.02, momentum=c['mom'])
    ow = OptimWrapper(torch.optim.SGD(a.parameters(), **kw),
                      accumulative_counts=acc)
    racc = Accumulate(torch.optim.SGD(ref.parameters(), **kw), None, acc,
                      c['start'] * kinds, total * kinds)
    names = ['max', 'min'] + [f'random{i}' for i in range(c['nr'])]
    rec.hit(c['steps'] > 1 and a.mutator.max_choices != a.mutator.min_choices)
    rblocks = [m for layer in ref.architecture.backbone.layers[:-1]
               for m in layer if isinstance(m, MBBlock)]
    space = 1
    for g in groups.values():
        space *= len(set(options(g[0])))
    rand = []
    for t in range(c['start'], c['start'] + c['steps']):
        hub(iter=t, epoch=0, max_iters=total, max_epochs=1)
        x = rand_tensor((4, 3, 16, 16), c['seed'] + t)
        y = [1, 3, 0, t]
        del log[:], drops[:]
        out = runner.train_step(
            dict(inputs=x / 2, data_samples=samples(y)), ow)
        assert len(log) == kinds, f'{len(log)} subnets were trained'
        want = {}
        for k, (kind, ch) in enumerate(zip(names, log)):
            for n, v in ch.items():
                cs = options(groups[n][0])
                if kind == 'max':
                    assert v == max(cs), f'max subnet has {v} of {cs}'
                elif kind == 'min':
                    assert v == min(cs), f'min subnet has {v} of {cs}'
                else:
                    assert v in cs, f'{v} is no candidate of {n}'
            if kind.startswith('random'):
                rand.append(ch)
            for j, ((stage_, m), d) in enumerate(zip(blocks, drops[k])):
                e = 0.
                if kind == 'max' and stage_ in c['stages']:
                    e = c['rate'] * j / len(blocks)
                assert abs(d - e) < 1e-9, \
                    f'{kind}: drop path rate {d} of block {j}, not {e}'
                rblocks[j].drop_path_rate = float(e)
            ref.mutator.set_choices(ch)
            torch.manual_seed(k)
            feat = ref.architecture.extract_feat(x)
            z = ref.architecture.head.fc(feat[-1])
            if kind == 'max':
                loss = F.cross_entropy(z, torch.tensor(y))
                teacher = z.detach()
                want['max_subnet.loss'] = loss.detach()
            else:
                loss = LOSSES[c['kd']][1](z, teacher)
                want[f'{kind}_subnet.loss_kd'] = loss.detach()
            racc.step(loss)
        assert set(out) == set(want), f'logged {sorted(out)}'
        if not all(float(v) < 1e3 for v in want.values()):
            rec.tag('diverged')     # not finite, or about to be
            return
        for k in want:
            close(out[k], want[k], rtol=1e-3, what=f'step {t} {k}')
        for (n, p), q in zip(a.named_parameters(), ref.parameters()):
            close(p, q, rtol=2e-3, atol=1e-3, what=f'step {t}: {n}')
        for (n, p), q in zip(a.named_buffers(), ref.buffers()):
            close(p.float(), q.float(), rtol=2e-3, what=f'step {t}: {n}')
    if space**-len(rand) < 1e-9:
        for bound in (a.mutator.min_choices, a.mutator.max_choices):
            assert any(ch != bound for ch in rand), \
                'the random subnets are not random'


# ------------------------------------------------------------------- ranks
@st.composite
def ranks_case(draw):
    algo = draw(st.sampled_from(['slim', 'slim', 'big']))
    c = draw(slim_case() if algo == 'slim' else big_case())
    return dict(c, algo=algo, nr=min(c['nr'], 2), start=0, more=0,
                acc=draw(st.sampled_from(['1', 'k'])), rate=0.,
                steps=min(c['steps'], 2), wd=c.get('wd', 0.),
                diff=draw(st.booleans()), world=2)


def rank_data(c, rank, t):
    size = 8 if c['algo'] == 'slim' else 16
    x = rand_tensor((4, 3, size, size), c['seed'] + 10 * t + rank)
    return x, [1 + rank, 3, 0, t]


def one_rank(rank, c, a):
    s = c['seed'] + (rank if c['diff'] else 0)
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)
    log, res = [], []
    spy(a.architecture, a.mutator, log)
    cls = AutoSlimDDP if c['algo'] == 'slim' else BigNASDDP
    model = cls(module=a, find_unused_parameters=True,
                broadcast_buffers=False)
    kinds = 2 + c['nr']
    ow = OptimWrapper(
        torch.optim.SGD(a.parameters(), lr=.02, momentum=c['mom'],
                        weight_decay=c['wd']),
        accumulative_counts=kinds if c['acc'] == 'k' else 1)
    for t in range(c['steps']):
        hub(iter=t, epoch=0, max_iters=c['steps'], max_epochs=1)
        x, y = rank_data(c, rank, t)
        del log[:]
        out = model.train_step(
            dict(inputs=x / 2, data_samples=torch.tensor(y) if
                 c['algo'] == 'slim' else samples(y)), ow)
        res.append((list(log), {k: float(v) for k, v in out.items()},
                    [p.detach().clone() for p in a.parameters()]))
    return res


def run_ranks(c, rec):
    """Processes with their own data (and subnets) make the same update,
    with the average of the gradients of all of them."""
    slim = c['algo'] == 'slim'
    if slim and head_of(c['spec']) is None:
        return rec.reject('no classifier')
    src = f'body.n{head_of(c["spec"])}' if slim else 'head.fc'
    a = make_slim(c, src) if slim else make_big(c)
    a.train()
    refs = [copy.deepcopy(a) for _ in range(c['world'])]
    res = ddp.ranks(c['world'], one_rank, c, a)
    ps = [list(r.parameters()) for r in refs]
    opt = torch.optim.SGD(ps[0], lr=.02, momentum=c['mom'],
                          weight_decay=c['wd'])
    kinds = 2 + c['nr']
    names = ['max', 'min'] + [f'random{i}' for i in range(c['nr'])]
    for t in range(c['steps']):
        want = [{} for _ in refs]
        teacher = [None] * len(refs)
        for k, kind in enumerate(names):
            total = [None] * len(ps[0])
            for r, ref in enumerate(refs):
                log = res[r][t][0]
                assert len(log) == kinds, f'{len(log)} subnets were trained'
                ref.mutator.set_choices(log[k])
                torch.manual_seed(k)
                x, y = rank_data(c, r, t)
                box = []
                mod = getattr(ref.architecture.body, src[5:]) if slim else \
                    ref.architecture.head.fc
                hd = mod.register_forward_hook(lambda m, i, o: box.append(o))
                y = torch.tensor(y)
                if slim:
                    loss = ref.architecture(x, y, mode='loss')['loss']
                else:
                    ref.architecture.head.fc(
                        ref.architecture.extract_feat(x)[-1])
                    loss = F.cross_entropy(box[0], y)
                hd.remove()
                if kind == 'max' or slim:
                    want[r][f'{kind}_subnet.loss'] = float(loss)
                if kind == 'max':
                    teacher[r] = box[0].detach()
                else:
                    kd = LOSSES[c['kd']][1](box[0], teacher[r])
                    want[r][f'{kind}_subnet.loss_kd'] = float(kd)
                    loss = loss + kd if slim else kd
                for i, g in enumerate(torch.autograd.grad(
                        loss, ps[r], allow_unused=True)):
                    if g is not None:
                        g = g / len(refs) / (kinds if c['acc'] == 'k' else 1)
                        total[i] = g if total[i] is None else total[i] + g
            for p, g in zip(ps[0], total):
                if g is not None:
                    p.grad = g if p.grad is None else p.grad + g
            if c['acc'] == '1' or k + 1 == kinds:
                opt.step()
                opt.zero_grad()
                with torch.no_grad():
                    for other in ps[1:]:
                        for p, q in zip(ps[0], other):
                            q.copy_(p)
        if not all(abs(v) < 1e3 for w in want for v in w.values()):
            rec.tag('diverged')
            return
        for r in range(len(refs)):
            assert set(res[r][t][1]) == set(want[r])
            for k, v in want[r].items():
                close(torch.tensor(res[r][t][1][k]), torch.tensor(v),
                      rtol=2e-3, atol=1e-3, what=f'rank {r} step {t} {k}')
            for (n, p), q, q0 in zip(refs[0].named_parameters(),
                                     res[r][t][2], res[0][t][2]):
                close(q, q0, rtol=1e-5, atol=1e-6,
                      what=f'step {t}: ranks differ in {n}')
                close(q, p, rtol=2e-3, atol=1e-3, what=f'step {t}: {n}')
    rec.hit(c['steps'] > 1 or c['diff'])
    rec.tag(c['algo'])


# -------------------------------------------------------------------- spos
@MODELS.register_module(force=True)
class PBTSuperNet(BaseModel):
    """A generated supernet with norms, as a model that gives losses."""

    def __init__(self, spec, seed=0, init_cfg=None, data_preprocessor=None):
        super().__init__(init_cfg=init_cfg,
                         data_preprocessor=data_preprocessor)
        self.norm = nn.BatchNorm2d(3)
        self.net = Super(spec)
        self.drop = nn.Dropout(.3)
        randomize(self, seed)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        z = self.drop(self.net(self.norm(inputs)))
        if mode == 'tensor':
            return z
        if mode == 'predict':
            return [z]
        return dict(loss=F.cross_entropy(z, data_samples))


@st.composite
def spos_case(draw):
    return dict(spec=draw(super_spec(kinds=('op', 'nest', 'big', 'depth'))),
                steps=draw(st.integers(1, 4)), norm=draw(st.booleans()),
                mom=draw(st.sampled_from([0., .9])),
                seed=draw(st.integers(0, 9999)))


def make_spos(c):
    return SPOS(dict(type='PBTSuperNet', spec=copy.deepcopy(c['spec']),
                     seed=c['seed']), dict(type='mmrazor.NasMutator'),
                norm_training=c['norm'], data_preprocessor=Pre())


def run_spos(c, rec):
    """SPOS: every loss trains one freshly sampled subnet, nothing else."""
    a, ref = make_spos(c), make_spos(c)
    mut, groups = a.mutator, a.mutator.search_groups
    log = []
    spy(a.architecture, mut, log)
    kw = dict(lr=.003, momentum=c["mom"])
    ow = OptimWrapper(torch.optim.SGD(a.parameters(), **kw))
    ropt = torch.optim.SGD(ref.parameters(), **kw)
    space = 1
    for g in groups.values():
        space *= len(set(options(g[0])))
    rec.hit(space > 1)
    for t in range(c['steps']):
        x = rand_tensor((4, 3, 8, 8), c['seed'] + t)
        y = torch.tensor([1, 3, 0, t])
        for m in (a, ref):
            m.train(True)
            assert all(q.training for q in m.modules())
        del log[:]
        out = a.train_step(dict(inputs=x / 2, data_samples=y), ow)
        assert len(log) == 1 and set(log[0]) == set(groups)
        for n, v in log[0].items():
            assert v in options(groups[n][0]), f'{v} is no candidate of {n}'
        if space > 1:
            ref.mutator.set_choices(log[0])
        torch.manual_seed(0)
        loss = ref.architecture(x, y, mode='loss')['loss']
        if not float(loss) < 1e3:
            rec.tag('diverged')     # not finite, or about to be
            return
        close(out['loss'], loss, what='loss')
        ropt.zero_grad()
        loss.backward()
        ropt.step()
        for (n, p), q in zip(a.named_parameters(), ref.parameters()):
            close(p, q, rtol=1e-3, what=f'step {t}: {n}')
        for (n, p), q in zip(a.named_buffers(), ref.buffers()):
            close(p.float(), q.float(), rtol=1e-3, what=f'step {t}: {n}')
        a.train(False)
        ref.train(False)
        for n, m in a.named_modules():
            bn = isinstance(m, nn.modules.batchnorm._BatchNorm)
            assert m.training == (bn and c['norm']), \
                f'{n} training {m.training} in evaluation'
        # evaluation uses the current subnet and changes no choice
        cur = dict(mut.current_choices)
        with torch.no_grad():
            r = ref.architecture(x)
            if not float(r.abs().max()) < 1e4:
                rec.tag('diverged')
                return
            z = a(x, mode='tensor')
            close(a(x, mode='predict')[0], z, what='prediction')
            close(z, r, what='evaluation')
            ref.architecture(x)     # norms may go on learning
        assert dict(mut.current_choices) == cur
    # every candidate gets its turn
    seen = {n: set() for n in groups}
    a.architecture.forward = lambda *q, **k: seen_now()

    def seen_now():
        for n, v in mut.current_choices.items():
            seen[n].add(v)
        return dict(loss=torch.zeros(()))

    n_opt = max([len(set(options(g[0]))) for g in groups.values()] + [1])
    for _ in range(30 * n_opt):
        a(x, y, mode='loss')
    for n, g in groups.items():
        assert seen[n] == set(options(g[0])), \
            f'{n}: only {seen[n]} of {options(g[0])} was trained'


SUBS = [
    Sub('autoslim', slim_case(), run_slim, 160),
    Sub('bignas', big_case(), run_big, 80),
    Sub('spos', spos_case(), run_spos, 160),
    Sub('ranks', ranks_case(), run_ranks, 48),
]
