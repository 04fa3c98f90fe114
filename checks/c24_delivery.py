"""C24: what the hooks, the builder and the optimizer constructor deliver."""
import copy
import json
import os
import shutil
import tempfile
from types import SimpleNamespace

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmengine.config import Config, ConfigDict
from mmengine.hooks import Hook
from mmengine.model import BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict
from mmengine.runner import Runner

from mmrazor.engine.hooks import (DumpSubnetHook, EstimateResourcesHook,
                                  RazorVisualizationHook, StopDistillHook)
from mmrazor.engine.optimizers import SeparateOptimWrapperConstructor
from mmrazor.models import DSNAS, Darts, NasMutator
from mmrazor.models.algorithms import BaseAlgorithm, SingleTeacherDistill
from mmrazor.models.mutables.base_mutable import BaseMutable
from mmrazor.models.task_modules.estimators import ResourceEstimator
from mmrazor.registry import MODELS
from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                load_fix_subnet)
from checks.c16_diffnas import Keep, Supernet, custom_groups, items_st
from pbt.cnn import net_spec
from pbt.core import Sub
from pbt.nas import Super, super_spec
from pbt.nnutil import close, rand_tensor, randomize, same_state, snapshot
from pbt.prune import PARSE, net_cfg

PID = 'C24'
RULE = ('a subnet is dumped at least twice (dump), estimated (estimate), '
        'a group of parameters has its own settings (optim), the stop lies '
        'inside the training (stop), the built subnet is smaller than its '
        'supernet (build)')
ASSUMPTIONS = [
    'one process, a fresh run directory', 'search groups of DSNAS hold one '
    'mutable each and no threshold fixing', 'files are dumped to disk'
]

DATA = [dict(inputs=torch.randn(
    3, 4, 4, dtype=torch.double, generator=torch.Generator().manual_seed(i)),
    data_samples=i % 3) for i in range(24)]


class Items(torch.utils.data.Dataset):
    metainfo = dict()

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return DATA[i % len(DATA)]


class Order(torch.utils.data.Sampler):
    """A new random order every epoch, without the global generator."""

    def __init__(self, n, seed):
        self.n, self.seed = n, seed

    def __len__(self):
        return self.n

    def __iter__(self):
        import random
        self.seed += 1
        r = list(range(self.n))
        random.Random(self.seed).shuffle(r)
        return iter(r)


def loaders(n, seed):
    return torch.utils.data.DataLoader(
        Items(n), batch_size=2, sampler=Order(n, seed))


@MODELS.register_module(force=True)
class PbtDiffNet(Supernet):

    def __init__(self, items, onehot=False, init_cfg=None, **kw):
        super().__init__(items, onehot=onehot)
        self.init_cfg = init_cfg
        self.double()


class Watch(Hook):
    """Sees the parameters right before the hook under test."""
    priority = 'LOW'

    def __init__(self):
        self.at = {}

    def note(self, runner, step, kind):
        m = runner.model
        self.at[(kind, step)] = (
            {k: v.detach().clone() for k, v in m.mutator.arch_params.items()},
            {k: v.clone() for k, v in m.architecture.state_dict().items()})

    def after_train_iter(self, runner, batch_idx, data_batch=None,
                         outputs=None):
        self.note(runner, runner.iter + 1, 'iter')

    def after_train_epoch(self, runner):
        self.note(runner, runner.epoch + 1, 'epoch')


# ---------------------------------------------------------------- dump
@st.composite
def dump_case(draw):
    algo = draw(st.sampled_from(['darts', 'dsnas']))
    return dict(
        algo=algo, items=draw(items_st(routes=algo == 'darts',
                                       alias=algo == 'darts')),
        by_epoch=draw(st.booleans()), loop=draw(st.booleans()),
        interval=draw(st.sampled_from([-1, 1, 1, 2, 3])),
        last=draw(st.booleans()), keep=draw(st.sampled_from([-1, -1, 1, 2])),
        out=draw(st.booleans()), tmpl=draw(st.booleans()),
        epochs=draw(st.integers(1, 4)), iters=draw(st.integers(1, 3)),
        spread=draw(st.sampled_from([0., 1.])),
        seed=draw(st.integers(0, 9999)))


def one_run(c, work, hooks):
    torch.manual_seed(c['seed'])
    net = PbtDiffNet(c['items'], onehot=c['algo'] == 'dsnas')
    randomize(net, c['seed'])
    mut = NasMutator()
    if c['algo'] == 'darts':
        a = Darts(net, mut, data_preprocessor=Keep())
    else:
        a = DSNAS(net, mut, pretrain_epochs=0, finetune_epochs=99,
                  data_preprocessor=Keep(),
                  estimator_cfg=dict(input_shape=(1, 3, 4, 4)))
    a.double()
    with torch.no_grad():
        for v in mut.arch_params.values():
            v.copy_(torch.randn_like(v) * c['spread'])
    opt = OptimWrapperDict(
        architecture=OptimWrapper(torch.optim.SGD(
            a.architecture.parameters(), lr=.05)),
        mutator=OptimWrapper(torch.optim.SGD(a.mutator.parameters(), lr=2.)))
    n = 2 * c['iters']
    cfg = dict(by_epoch=True, max_epochs=c['epochs'])
    if c['algo'] == 'darts':
        cfg = dict(type='mmrazor.DartsEpochBasedTrainLoop',
                   max_epochs=c['epochs'],
                   mutator_dataloader=loaders(n, c['seed'] + 1))
    r = Runner(
        model=a, work_dir=work, train_dataloader=loaders(n, c['seed']),
        optim_wrapper=opt, train_cfg=cfg, custom_hooks=hooks,
        default_hooks=dict(checkpoint=None, logger=None, timer=None,
                           param_scheduler=None, sampler_seed=None,
                           runtime_info=dict(type='RuntimeInfoHook')),
        experiment_name=f'pbt{os.getpid()}_{os.path.basename(work)}',
        randomness=dict(seed=c['seed']), log_level='CRITICAL',
        default_scope='mmrazor')
    torch.manual_seed(c['seed'])
    r.train()
    return a


def best(c, arch, net):
    """The choice per mutable name, by the parameters recorded."""
    mut = NasMutator()
    mut.prepare_from_supernet(net)
    mut.prepare_arch_params()
    mut.double()
    with torch.no_grad():
        for k, v in arch.items():
            mut.arch_params[k].copy_(v)
    out = {}
    for name, m in net.named_modules():
        if isinstance(m, BaseMutable):
            k = [g for g, ms in mut.search_groups.items()
                 if any(q is m for q in ms)][0]
            p = arch[k]
            order = sorted(range(len(p)), key=lambda i: -float(p[i]))
            names = list(m.choices)
            if hasattr(m, 'num_chosen'):
                ch = [names[i] for i in order[:m.num_chosen]]
            else:
                ch = names[order[0]]
            out[m.alias or 'architecture.' + name] = ch
    return out


def run_dump(c, rec):
    """Subnets are dumped exactly when asked; each is the best one of that
    moment, can be rebuilt, and dumping does not disturb the training."""
    tmp = tempfile.mkdtemp(prefix='pbt_')
    try:
        watch = Watch()
        kw = dict(filename_tmpl='s{}.yaml') if c['tmpl'] else {}
        hook = DumpSubnetHook(
            c['interval'], c['by_epoch'],
            out_dir=os.path.join(tmp, 'out') if c['out'] else None,
            max_keep_subnets=c['keep'], save_last=c['last'], **kw)
        a = one_run(c, os.path.join(tmp, 'run'), [watch, hook])
        b = one_run(c, os.path.join(tmp, 'plain'), [])
        same_state(a.state_dict(), b.state_dict(),
                   'dumping changed the training')
        d = os.path.join(tmp, 'out', 'run') if c['out'] else \
            os.path.join(tmp, 'run')
        total = c['epochs'] if c['by_epoch'] else c['epochs'] * c['iters']
        steps = [s for s in range(1, total + 1)
                 if c['interval'] > 0 and s % c['interval'] == 0
                 or c['last'] and s == total]
        kept = steps[-c['keep']:] if c['keep'] > 0 else steps
        kind = 'epoch' if c['by_epoch'] else 'iter'
        tm = 's{}.yaml' if c['tmpl'] else 'subnet_' + kind + '_{}.yaml'
        got = sorted(f for f in (os.listdir(d) if os.path.isdir(d) else [])
                     if f.endswith('.yaml'))
        assert got == sorted(tm.format(s) for s in kept), \
            f'{got}, not the subnets of {kept}'
        rec.hit(len(steps) > 1)
        rec.tag(c['algo'])
        for s in kept:
            path = os.path.join(d, tm.format(s))
            arch, weights = watch.at[(kind, s)]
            from mmengine import fileio
            sub = fileio.load(path)
            net = PbtDiffNet(c['items'], onehot=c['algo'] == 'dsnas')
            want = best(c, arch, net)
            ties = any(abs(p[i] - p[j]) < 1e-9 for p in arch.values()
                       for i in range(len(p)) for j in range(i))
            have = {k: v['chosen'] for k, v in sub.items()}
            assert set(have) == set(want)
            if not ties:
                assert have == want, f'step {s}: {have}, not {want}'
            # rebuild from the file and the weights
            ck = os.path.join(tmp, 'w.pth')
            torch.save(dict(state_dict=weights), ck)
            cfg = dict(type='PbtDiffNet', items=c['items'],
                       onehot=c['algo'] == 'dsnas')
            keep = copy.deepcopy(cfg)
            m = MODELS.build(dict(
                type='sub_model', cfg=cfg, fix_subnet=path,
                extra_prefix='architecture.', init_weight_from_supernet=True,
                init_cfg=dict(type='Pretrained', checkpoint=ck)))
            assert cfg == keep, 'building changed the config'
            net.load_state_dict(weights)
            for name, q in list(net.named_modules()):
                if isinstance(q, BaseMutable):
                    q.fix_chosen(have[q.alias or 'architecture.' + name])
            x = torch.randn(2, 3, 4, 4, dtype=torch.double)
            m.eval(), net.eval()
            with torch.no_grad():
                close(m(x), net(x), what='rebuilt subnet')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- estimate
class Logs:

    def __init__(self):
        self.lines = []

    def info(self, s):
        self.lines.append(s)


@st.composite
def est_case(draw):
    return dict(items=draw(items_st(alias=False)),
                sup=draw(st.booleans()), by_epoch=draw(st.booleans()),
                interval=draw(st.sampled_from([-1, 1, 2, 3])),
                steps=draw(st.integers(1, 5)), train=draw(st.booleans()),
                onehot=draw(st.booleans()),
                seed=draw(st.integers(0, 9999)))


class EstAlgo(BaseAlgorithm):

    def __init__(self, net, mut, sup):
        super().__init__(net)
        self.mutator = mut
        mut.prepare_from_supernet(net)
        mut.prepare_arch_params()
        self.is_supernet = sup


def run_est(c, rec):
    """Resources are logged every interval, for the best subnet of a
    supernet, and measuring leaves the model as it was."""
    torch.manual_seed(c['seed'])
    if c['onehot']:
        c = dict(c, items=[i for i in c['items'] if i['kind'] == 'op'])
        if not c['items']:
            rec.reject()
    net = Supernet(c['items'], onehot=c['onehot'])
    a = EstAlgo(net, NasMutator(), True)
    with torch.no_grad():
        for v in a.mutator.arch_params.values():
            v.copy_(torch.randn_like(v))
    if not c['sup']:
        a.mutator.set_choices(a.mutator.sample_choices())
        load_fix_subnet(a, export_fix_subnet(a)[0])
        a.is_supernet = False
    a.train(c['train'])
    cfg = dict(input_shape=(1, 3, 4, 4))
    hook = EstimateResourcesHook(c['interval'], c['by_epoch'],
                                 estimator_cfg=copy.deepcopy(cfg))
    # the same by hand
    static = Supernet(c['items'], onehot=c['onehot'])
    if c['sup']:
        want = {k.replace('architecture.', ''): v for k, v in best(
            c, {k: v.detach().clone() for k, v in
                a.mutator.arch_params.items()},
            Supernet(c['items'], onehot=c['onehot'])).items()}
        for name, m in list(static.named_modules()):
            if isinstance(m, BaseMutable):
                m.fix_chosen(want[name])
    else:
        static = copy.deepcopy(net)
    with torch.no_grad():
        ref = ResourceEstimator(**copy.deepcopy(cfg)).estimate(static)
    logs = Logs()
    runner = SimpleNamespace(model=a, distributed=False, logger=logs, epoch=0,
                             iter=0)
    x = torch.randn(2, 3, 4, 4)
    for s in range(c['steps']):
        before = snapshot(a)
        runner.epoch = runner.iter = s
        n = len(logs.lines)
        hook.after_val_iter(runner, 0)
        hit = c['interval'] > 0 and (s + 1) % c['interval'] == 0
        assert len(logs.lines) - n == int(hit and not c['by_epoch'])
        n = len(logs.lines)
        hook.after_val_epoch(runner)
        assert len(logs.lines) - n == int(hit and c['by_epoch'])
        for line in logs.lines[-1:]:
            got = eval(line.split(': ', 1)[1])
            assert abs(got['flops'] - ref['flops']) < 1e-6 and abs(
                got['params'] - ref['params']) < 1e-6, f'{got} not {ref}'
        same_state(before, snapshot(a), 'estimating changed the model')
        if c['sup']:
            assert a.training == c['train']
            for m in net.modules():
                if isinstance(m, BaseMutable):
                    assert not m.is_fixed, 'estimating fixed the supernet'
        for m in a.modules():
            assert not m._forward_hooks, 'a hook is left behind'
        with torch.no_grad():
            a(x)
    rec.hit(bool(logs.lines))
    rec.tag('supernet' if c['sup'] else 'subnet')


# ---------------------------------------------------------------- stop
@st.composite
def stop_case(draw):
    return dict(stop=draw(st.integers(0, 5)), epochs=draw(st.integers(1, 4)),
                iters=draw(st.integers(1, 3)), start=draw(st.integers(0, 4)),
                wrap=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


@MODELS.register_module(force=True)
class PbtTiny(BaseModel):

    def __init__(self):
        super().__init__()
        self.a = nn.Linear(3, 4)
        self.fc = nn.Linear(4, 3)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.fc(self.a(inputs))
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples))
        return y


def run_stop(c, rec):
    """From the given epoch on (also in a resumed run) training is exactly
    training without distillation; before that it has the soft loss."""
    from mmengine.model.wrappers import is_model_wrapper
    torch.manual_seed(c['seed'])
    a = SingleTeacherDistill(
        distiller=dict(
            type='ConfigurableDistiller',
            student_recorders=dict(fc=dict(type='ModuleOutputs', source='fc')),
            teacher_recorders=dict(fc=dict(type='ModuleOutputs', source='fc')),
            distill_losses=dict(kl=dict(type='KLDivergence', tau=2)),
            loss_forward_mappings=dict(kl=dict(
                preds_S=dict(from_student=True, recorder='fc'),
                preds_T=dict(from_student=False, recorder='fc')))),
        teacher=PbtTiny(), architecture=PbtTiny())
    opt = OptimWrapper(torch.optim.SGD(a.architecture.parameters(), lr=.1))
    hook = StopDistillHook(c['stop'])
    runner = SimpleNamespace(model=a, logger=Logs(), epoch=0)
    for e in range(c['start'], c['start'] + c['epochs']):
        runner.epoch = e
        hook.before_train_epoch(runner)
        a.train()
        for i in range(c['iters']):
            g = torch.Generator().manual_seed(c['seed'] + 100 * e + i)
            x = torch.randn(4, 3, generator=g)
            y = torch.randint(3, (4, ), generator=g)
            ref = PbtTiny()
            ref.load_state_dict(a.architecture.state_dict())
            hard = ref(x, y, 'loss')['loss']
            out = a.train_step(dict(inputs=x, data_samples=y), opt)
            soft = any('kl' in k for k in out)
            assert soft == (e < c['stop']), \
                f'epoch {e}: distillation {soft}, stop at {c["stop"]}'
            if not soft:
                close(out['loss'], hard, what='loss without distillation')
                gs = torch.autograd.grad(hard, list(ref.parameters()))
                for p, q, d in zip(a.architecture.parameters(),
                                   ref.parameters(), gs):
                    close(p, q - .1 * d, what='update without distillation')
    rec.hit(c['start'] < c['stop'] < c['start'] + c['epochs'])


# ---------------------------------------------------------------- optim
@st.composite
def opt_case(draw):
    keys = draw(st.lists(st.sampled_from(['architecture', 'mutator', 'third']),
                         min_size=1, max_size=3, unique=True))
    out = {}
    for k in keys:
        out[k] = dict(
            opt=draw(st.sampled_from(['SGD', 'Adam'])),
            lr=draw(st.sampled_from([.1, .02])),
            wd=draw(st.sampled_from([0., .01])),
            acc=draw(st.integers(1, 3)),
            norm=draw(st.sampled_from([None, 0., .5])),
            bias=draw(st.sampled_from([None, 2.])),
            name=draw(st.sampled_from([None, 'bn', 'stem'])),
            mult=draw(st.sampled_from([.1, .5])),
            clip=draw(st.booleans()))
    return dict(keys=out, items=draw(items_st()), wrap=draw(st.booleans()),
                frozen=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


class Wrapped(nn.Module):

    def __init__(self, m):
        super().__init__()
        self.module = m


def run_opt(c, rec):
    """Every submodule gets its own optimizer with exactly its parameters
    and the settings (also parameter-wise) of its own config."""
    torch.manual_seed(c['seed'])
    a = EstAlgo(Supernet(c['items']), NasMutator(), True)
    a.third = nn.Sequential(nn.Linear(3, 4), nn.BatchNorm1d(4))
    if c['frozen']:
        for p in a.architecture.stem.parameters():
            p.requires_grad = False
    cfg = {}
    for k, v in c['keys'].items():
        pw = {}
        if v['norm'] is not None:
            pw['norm_decay_mult'] = v['norm']
        if v['bias'] is not None:
            pw['bias_lr_mult'] = v['bias']
        if v['name']:
            pw['custom_keys'] = {v['name']: dict(lr_mult=v['mult'])}
        cfg[k] = dict(type='OptimWrapper', accumulative_counts=v['acc'],
                      optimizer=dict(type=v['opt'], lr=v['lr'],
                                     weight_decay=v['wd']))
        if v['clip']:
            cfg[k]['clip_grad'] = dict(max_norm=1.5)
        if pw:
            cfg[k]['paramwise_cfg'] = pw
    keep = copy.deepcopy(cfg)
    owners = {}
    for _ in range(2):
        built = SeparateOptimWrapperConstructor(cfg)(
            Wrapped(a) if c['wrap'] else a)
        assert cfg == keep, 'the config changed'
        assert isinstance(built, OptimWrapperDict)
        assert set(built.keys()) == set(c['keys'])
    ids = {}
    for k, v in c['keys'].items():
        w = built[k]
        assert type(w.optimizer).__name__ == v['opt']
        assert w._accumulative_counts == v['acc']
        assert (w.clip_grad_kwargs is not None) == v['clip'], k
        for g in w.optimizer.param_groups:
            for p in g['params']:
                assert id(p) not in ids, 'a parameter is optimized twice'
                ids[id(p)] = (k, g)
        sub = getattr(a, k)
        norms = [m for m in sub.modules()
                 if isinstance(m, nn.modules.batchnorm._BatchNorm)]
        for n, p in sub.named_parameters():
            if not p.requires_grad and (v['norm'], v['bias'], v['name']) != (
                    None, None, None):
                continue
            assert id(p) in ids and ids[id(p)][0] == k, \
                f'{k}.{n} is not optimized'
            g = ids[id(p)][1]
            lr, wd = v['lr'], v['wd']
            is_norm = any(p is q for m in norms for q in m.parameters())
            if v['name'] and v['name'] in n:
                lr *= v['mult']
            else:
                if n.endswith('bias') and v['bias'] is not None and \
                        not is_norm:
                    lr *= v['bias']
                if is_norm and v['norm'] is not None:
                    wd *= v['norm']
            assert abs(g['lr'] - lr) < 1e-9, f'{k}.{n}: lr {g["lr"]}'
            assert abs(g['weight_decay'] - wd) < 1e-9, \
                f'{k}.{n}: weight decay {g["weight_decay"]}'
    for k in ('architecture', 'mutator', 'third'):
        if k not in c['keys']:
            assert not any(id(p) in ids for p in getattr(a, k).parameters())
    rec.hit(len(c['keys']) > 1 and any(
        v['norm'] is not None or v['name'] for v in c['keys'].values()))


# ---------------------------------------------------------------- build
@MODELS.register_module(force=True)
class PbtSuper(BaseModel):

    def __init__(self, spec, init_cfg=None, data_preprocessor=None):
        super().__init__(init_cfg=init_cfg)
        self.body = Super(spec)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        return self.body(inputs)


@MODELS.register_module(force=True)
class PbtAlgo(BaseAlgorithm):
    pass


@st.composite
def build_case(draw):
    mode = draw(st.sampled_from(['mutable', 'mutable', 'mutator', 'arch']))
    spec = draw(net_spec(max_nodes=4)) if mode == 'mutator' else draw(
        super_spec(kinds=('op', 'nest', 'big', 'depth')))
    return dict(mode=mode, spec=spec, kind=draw(st.sampled_from(
        ['dict', 'Config'])), from_super=draw(st.booleans()),
        ckpt=draw(st.booleans()), file=draw(st.booleans()),
        pre=draw(st.sampled_from(['no', 'prefix', 'extra'])),
        scope=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


def run_build(c, rec):
    """``sub_model`` and ``_return_architecture_`` build the described
    network with the described weights, as often as wanted."""
    tmp = tempfile.mkdtemp(prefix='pbt_')
    wrap = (lambda d: d) if c['kind'] == 'dict' else ConfigDict
    try:
        torch.manual_seed(c['seed'])
        if c['mode'] == 'arch':
            cfg = wrap(dict(type='PbtAlgo', _return_architecture_=True,
                            architecture=dict(type='PbtSuper',
                                              spec=c['spec'])))
            keep = copy.deepcopy(cfg)
            for i in range(2):
                m = MODELS.build(cfg)
                assert isinstance(m, PbtSuper), \
                    f'build {i} returned {type(m).__name__}'
                assert cfg == keep, 'building changed the config'
            rec.hit()
            return
        ck = os.path.join(tmp, 'w.pth')
        x = rand_tensor((2, 3, 8, 8), c['seed'] + 1)
        if c['mode'] == 'mutable':
            from mmrazor.models.mutators import NasMutator as M
            net_c = dict(type='PbtSuper', spec=c['spec'])
            sup = MODELS.build(net_c).eval()
            randomize(sup, c['seed'])
            mut = M()
            mut.prepare_from_supernet(sup)
            mut.set_choices(mut.sample_choices())
            top = PbtAlgo(sup) if c['pre'] == 'extra' else sup
            sub, static = export_fix_subnet(top, slice_weight=True)
            sub = convert_fix_subnet(sub)
            if c['pre'] == 'extra':
                static = static.architecture
        else:
            from mmrazor.models.mutators import ChannelMutator
            net_c = net_cfg(c['spec'], 1)
            top = nn.Module()
            sup = top.architecture = MODELS.build(net_c).eval()
            randomize(sup, c['seed'])
            clean = copy.deepcopy(sup.state_dict())
            top.mutator = ChannelMutator(
                channel_unit_cfg=dict(type='OneShotMutableChannelUnit',
                                      default_args=dict(
                                          candidate_choices=[.5, 1.],
                                          choice_mode='ratio')),
                parse_cfg=dict(PARSE))
            top.mutator.prepare_from_supernet(sup)
            top.mutator.set_choices(top.mutator.sample_choices())
            sub, static = export_fix_subnet(
                top, export_subnet_mode='mutator', slice_weight=True)
            static = static.architecture
        static.eval()
        with torch.no_grad():
            want = static(x)
        small = sum(p.numel() for p in static.parameters()) < sum(
            p.numel() for p in sup.parameters())
        # mutator mode renames nothing: supernet weights of the plain model
        src = (clean if c['mode'] == 'mutator' else sup.state_dict()) \
            if c['from_super'] else static.state_dict()
        torch.save(dict(state_dict=src), ck)
        fix = sub
        if c['file']:
            fix = os.path.join(tmp, 'sub.json')
            with open(fix, 'w') as f:
                json.dump(sub, f)
        cfg = dict(type='mmrazor.sub_model' if c['scope'] else 'sub_model',
                   cfg=net_c, fix_subnet=fix, mode=c['mode'],
                   init_weight_from_supernet=c['from_super'])
        if c['ckpt']:
            cfg['init_cfg'] = dict(type='Pretrained', checkpoint=ck)
        else:
            cfg['cfg'] = dict(net_c, init_cfg=dict(type='Pretrained',
                                                   checkpoint=ck))
        if c['mode'] == 'mutable' and c['pre'] == 'extra':
            cfg['extra_prefix'] = 'architecture.'
        cfg = wrap(cfg)
        keep = copy.deepcopy(cfg)
        for _ in range(2):
            m = MODELS.build(cfg).eval()
            assert cfg == keep, 'building changed the config'
            with torch.no_grad():
                got = m(x)
            for g, w in zip(got if isinstance(got, tuple) else (got, ),
                            want if isinstance(want, tuple) else (want, )):
                close(g, w, what='built subnet')
            assert {k: v.shape for k, v in m.state_dict().items()} == {
                k: v.shape for k, v in static.state_dict().items()}
        rec.hit(small)
        rec.tag(c['mode'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- viz
@st.composite
def viz_case(draw):
    return dict(enabled=draw(st.sampled_from([True, True, True, False])),
                interval=draw(st.integers(1, 3)),
                epochs=draw(st.integers(1, 4)), out=draw(st.booleans()),
                idx=draw(st.sampled_from([0, [0], [0, 1], [1]])),
                recs=draw(st.lists(st.sampled_from(['a', 'bn']), min_size=1,
                                   max_size=2, unique=True)),
                one=draw(st.booleans()), norm=draw(st.booleans()),
                train=draw(st.booleans()), seed=draw(st.integers(0, 9999)),
                show=draw(st.booleans()), pan=draw(st.booleans()),
                wait=draw(st.sampled_from([0., .1, .5, 2.])),
                cfg=draw(draw_cfg(False)))


@st.composite
def draw_cfg(draw, grid=True):
    red = draw(st.sampled_from(
        ['pixel_wise_max', 'squeeze_mean', 'select_max'] +
        ([None, None] if grid else [])))
    cfg = dict(channel_reduction=red,
               alpha=draw(st.sampled_from([0., .25, .5, .9, 1.])),
               topk=draw(st.sampled_from([-1, 0, 1, 2, 3, 4])),
               arrangement=draw(st.sampled_from([(2, 2), (1, 4), (3, 2)])),
               resize_shape=draw(st.sampled_from(
                   [None, None, (6, 6), (5, 9), (12, 7)])))
    keep = draw(st.sets(st.sampled_from(['alpha', 'resize_shape'])))
    return {k: v for k, v in cfg.items()
            if k in keep or k in ('topk', 'arrangement') or
            k == 'channel_reduction' and v != 'pixel_wise_max'}


def drawing(feat, image, channel_reduction='pixel_wise_max', topk=20,
            arrangement=(4, 5), resize_shape=None, alpha=.5):
    """The picture of a feature map: the part that covers the image, scaled
    to it, reduced to the strongest response per pixel, the mean of or the
    strongest channel, as a heat map over the image."""
    import cv2
    import numpy as np
    feat = feat.detach().float()
    if image is not None and image.ndim == 2:
        image = np.stack([image] * 3, -1)
    size = resize_shape
    if size is None and image is not None and \
            tuple(image.shape[:2]) != tuple(feat.shape[1:]):
        size = image.shape[:2]
        h, w = feat.shape[1:]
        if h * size[1] > w * size[0]:     # padding below
            h = round(w * size[0] / size[1])
        else:                             # padding to the right
            w = round(h * size[1] / size[0])
        feat = feat[:, :h, :w]
    if size is not None:
        feat = nn.functional.interpolate(feat[None], size, mode='bilinear',
                                         align_corners=False)[0]
    if resize_shape is not None and image is not None:
        image = cv2.resize(image, (size[1], size[0]))

    def heat(x, image):
        x = x.numpy()
        if x.ndim == 3:
            x = x.transpose(1, 2, 0)
        lo, hi = x.min(), x.max()
        x = np.zeros_like(x) if hi == lo else (x - lo) / (hi - lo) * 255
        x = cv2.applyColorMap(x.astype(np.uint8), cv2.COLORMAP_JET)[..., ::-1]
        return x.astype(float) if image is None else \
            (1 - alpha) * image + alpha * x.astype(float)

    if channel_reduction == 'pixel_wise_max':
        return heat(feat.amax(0), image)
    if channel_reduction == 'squeeze_mean':
        return heat(feat.mean(0), image)
    order = feat.sum((1, 2)).argsort(descending=True)
    if channel_reduction == 'select_max':
        return heat(feat[order[0]], image)
    if topk <= 0:
        return heat(feat, image)
    return [heat(feat[i], image) for i in order[:topk]]


def same_picture(got, want, tol=10):
    import numpy as np
    assert got.shape == want.shape, f'{got.shape} instead of {want.shape}'
    # one grey level is at most 4 levels of a colour of the map
    bad = np.abs(got.astype(float) - want).max()
    assert bad <= tol, f'picture differs by {bad}'


class VizNet(BaseModel):

    def __init__(self):
        super().__init__()
        self.a = nn.Conv2d(3, 4, 1)
        self.bn = nn.BatchNorm2d(4)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = torch.stack([i.float() / 64 for i in inputs]) \
            if isinstance(inputs, (list, tuple)) else inputs
        return self.bn(self.a(x))


class Sink:
    dataset_meta = None
    _vis_backends = {}

    def __init__(self):
        self.added, self.drawn = [], []

    def add_datasample(self, name, img, out_file=None, step=0, show=False,
                       wait_time=0, draw_gt=True, draw_pred=True, **kw):
        self.added.append((name, out_file, step, img))
        self.how = (show, wait_time, draw_gt, draw_pred)


def run_viz(c, rec):
    """Feature maps of the listed samples are drawn every interval, as the
    model in evaluation mode computes them; the model is not changed."""
    import cv2
    import numpy as np
    from unittest import mock

    from mmengine.visualization import Visualizer
    tmp = tempfile.mkdtemp(prefix='pbt_')
    try:
        g = np.random.default_rng(c['seed'])
        paths, imgs = [], []
        for i in range(2):
            im = g.integers(0, 255, (6, 6, 3), dtype=np.uint8)
            paths.append(os.path.join(tmp, f'{i}.png'))
            cv2.imwrite(paths[-1], im)
            imgs.append(torch.from_numpy(im.transpose(2, 0, 1).copy()))
        sink = Sink()
        with mock.patch.object(Visualizer, 'get_current_instance',
                               lambda: sink):
            hook = RazorVisualizationHook(
                ConfigDict({r: dict(_scope_='mmrazor', type='ModuleOutputs',
                                    source=r) for r in c['recs']}),
                ConfigDict({'m' + r: dict(recorder=r) for r in c['recs']}),
                enabled=c['enabled'], data_idx=c['idx'],
                interval=c['interval'],
                out_dir='feats' if c['out'] else None, is_overlaid=c['one'],
                use_norm=c['norm'], show=c['show'], wait_time=c['wait'],
                visualization_cfg=c['cfg'])
        real = sink.draw_featmap

        def draw(feat, overlaid, **kw):
            sink.drawn.append((feat.clone(), overlaid))
            assert kw == c['cfg'], 'drawing settings'
            return real(feat, overlaid, **kw)

        sink.draw_featmap = draw
        model = randomize(VizNet(), c['seed'])
        with torch.no_grad():
            model.bn.running_mean.add_(.5)
        pipe = [dict(type='LoadImageFromFile'),
                dict(type='LoadPanopticAnnotations' if c['pan'] else
                     'LoadAnnotations'),
                dict(type='mmcls.PackClsInputs')]
        ds = SimpleNamespace(get_data_info=lambda i: dict(img_path=paths[i]))
        runner = SimpleNamespace(
            model=model, epoch=0, work_dir=tmp, timestamp='t',
            cfg=ConfigDict(test_dataloader=dict(dataset=dict(pipeline=pipe))),
            val_loop=SimpleNamespace(dataloader=SimpleNamespace(dataset=ds)))
        hook.before_run(runner)
        idx = [c['idx']] if isinstance(c['idx'], int) else c['idx']
        step = 0
        for e in range(c['epochs']):
            runner.epoch = e
            model.train(c['train'])
            before = snapshot(model)
            for when, stage in ((hook.before_train, 'before_run'),
                                (hook.after_train_epoch, f'epoch_{e}')):
                del sink.added[:], sink.drawn[:]
                when(runner)
                same_state(before, snapshot(model), 'the model changed')
                assert model.training == c['train'] == model.bn.training
                want = []
                if c['enabled'] and e % c['interval'] == 0:
                    want = [(i, r) for i in idx for r in c['recs']]
                assert len(sink.added) == len(want) == len(sink.drawn)
                for (i, r), (name, out, n, img), (feat, over) in zip(
                        want, sink.added, sink.drawn):
                    full = f'{stage}_data_idx_{i}_m{r}_0'
                    assert name == full and n == step
                    assert sink.how == (c['show'], c['wait'], False, False), \
                        sink.how
                    step += 1
                    if c['out']:
                        assert out == os.path.join(tmp, 't', 'feats',
                                                   full + '.jpg'), out
                        assert os.path.isdir(os.path.dirname(out))
                    else:
                        assert out is None
                    assert (over is None) != c['one']
                    if c['one']:
                        assert over.shape == (6, 6, 3)
                        assert (over[..., ::-1].transpose(2, 0, 1) ==
                                imgs[i].numpy()).all(), 'another image'
                    twin = copy.deepcopy(before)
                    ref = VizNet()
                    ref.load_state_dict({k: v for k, v in twin.items()
                                         if k in ref.state_dict()})
                    ref.eval()
                    with torch.no_grad():
                        y = ref.a(imgs[i][None].float() / 64)
                        y = y if r == 'a' else ref.bn(y)
                    if c['norm']:
                        y = (y - y.mean((0, 2, 3), keepdim=True)) / (
                            y.std((0, 2, 3), keepdim=True) + 1e-6)
                    close(feat, y[0], what='drawn feature')
                    same_picture(img, drawing(feat, over, **c['cfg']))
                    rec.hit()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- featmap
@st.composite
def feat_case(draw):
    n = draw(st.integers(4, 9))
    return dict(ch=draw(st.sampled_from([1, 3, 3, 5])),
                size=(draw(st.integers(4, 9)), draw(st.integers(4, 9))),
                image=draw(st.sampled_from(
                    [None, 'same', (n * 4, n * 4), (24, 33), (33, 24)])),
                grey=draw(st.booleans()),
                grad=draw(st.booleans()), cfg=draw(draw_cfg()),
                seed=draw(st.integers(0, 9999)))


def run_featmap(c, rec):
    """A feature map is drawn as described over the image it belongs to; what
    lies in the padding of the batch has no influence."""
    import numpy as np

    from mmrazor.visualization.local_visualizer import modify
    g = np.random.default_rng(c['seed'])
    h, w = c['size']
    cfg = dict(c['cfg'])
    grid = cfg.get('channel_reduction', 1) is None and cfg['topk'] > 0
    if grid:
        h, w = 60, 80
        cfg.pop('resize_shape', None)
    feat = torch.from_numpy(g.normal(size=(c['ch'], h, w)).astype('f'))
    if grid:
        feat = torch.from_numpy(np.kron(
            g.normal(size=(c['ch'], 2, 2)), np.ones((h // 2, w // 2)))).float()
    image = None
    if c['image'] is not None:
        size = (h, w) if c['image'] == 'same' or grid else c['image']
        image = g.integers(0, 255, size if c['grey'] else (*size, 3),
                           dtype=np.uint8)
    if cfg.get('channel_reduction', 1) is None and not grid and \
            c['ch'] not in (1, 3):
        rec.tag('not drawable')
        try:
            modify(feat, image, **cfg)
        except AssertionError:
            return rec.hit()
        raise AssertionError('five channels drawn as colours')
    keep = feat.clone(), None if image is None else image.copy()
    got = modify(feat.requires_grad_(c['grad']), image, **cfg)
    feat = feat.detach()
    assert torch.equal(feat, keep[0]) and (image is None or
                                           (image == keep[1]).all())
    if image is not None and image.ndim == 2 and c['image'] == 'same' and \
            'resize_shape' not in cfg:
        rec.tag('grey')
    want = drawing(feat, image, **cfg)
    if grid:
        row, col = cfg['arrangement']
        assert abs(got.shape[0] - row * h) <= 1 and \
            abs(got.shape[1] - col * w) <= 1, got.shape
        for k, pic in enumerate(want):
            r, q = divmod(k, col)
            cell = got[r * h:(r + 1) * h, q * w:(q + 1) * w][:h, :w, :3]
            # away from the label and the borders of cells and blocks
            a = cell[h // 2 + 8:h - 8].astype(float)
            b = pic[h // 2 + 8:h - 8]
            for s in (slice(8, w // 2 - 8), slice(w // 2 + 8, w - 8)):
                d = np.abs(a[:, s].mean((0, 1)) - b[:, s].mean((0, 1))).max()
                assert d < 12, f'channel {k} of the grid: {d}'
        rec.tag('grid')
        return rec.hit(len(want) > 1)
    same_picture(got, want)
    rec.tag(str(cfg.get('channel_reduction', 'default')))
    if image is not None and cfg.get('resize_shape') is None and \
            image.shape[:2] != (h, w):
        ih, iw = image.shape[:2]
        a = (round(w * ih / iw), w) if h * iw > w * ih else \
            (h, round(h * iw / ih))
        other = feat.clone()
        other[:, a[0]:] = 99
        other[:, :, a[1]:] = -99
        assert (modify(other, image, **cfg) == got).all(), \
            'padding changes the picture'
        rec.tag('padded')
    rec.hit()


SUBS = [
    Sub('dump', dump_case(), run_dump, 96),
    Sub('estimate', est_case(), run_est, 100),
    Sub('stop', stop_case(), run_stop, 120),
    Sub('optim', opt_case(), run_opt, 160),
    Sub('build', build_case(), run_build, 120),
    Sub('viz', viz_case(), run_viz, 60),
    Sub('featmap', feat_case(), run_featmap, 200),
]
