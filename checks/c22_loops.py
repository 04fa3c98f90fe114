"""C22: what the training and validation loops feed, calibrate and report."""
import copy
from types import SimpleNamespace

import torch
import torch.nn as nn
from hypothesis import strategies as st
from mmengine.dataset import DefaultSampler
from mmengine.evaluator import Evaluator as BaseEvaluator
from torch.utils.data import DataLoader, Dataset

from mmrazor.engine import (DartsEpochBasedTrainLoop, DartsIterBasedTrainLoop,
                            SelfDistillValLoop, SingleTeacherDistillValLoop,
                            SlimmableValLoop, SubnetValLoop)
from mmrazor.engine.runner.utils import CalibrateBNMixin
from mmrazor.models.mutators import NasMutator
from mmrazor.models.task_modules.estimators import ResourceEstimator
from pbt import ddp
from pbt.core import Sub
from pbt.nas import Super, super_spec
from pbt.nnutil import randomize
from pbt.search import LOG, Runner

PID = 'C22'
RULE = ('several batches of which the last one is cut, or a network whose '
        'active channels are a proper part; two loaders of different lengths')
ASSUMPTIONS = [
    'CPU; ranks get batches of equal sizes',
    'the channel masks of a subnet are prefixes (one-shot channels)',
    'a calibration batch holds at least two values per channel',
]
HW = 4


class Data(Dataset):
    metainfo = dict(classes=['a'])

    def __init__(self, n, salt, shape=(3, HW, HW)):
        g = torch.Generator().manual_seed(salt)
        self.x = torch.randn(n, *shape, generator=g)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return dict(inputs=self.x[i], data_samples=int(i))


def collate(items):
    return dict(inputs=[i['inputs'] for i in items],
                data_samples=[i['data_samples'] for i in items])


def loader(n, bs, salt, shape=(3, HW, HW), **kw):
    return DataLoader(Data(n, salt, shape), batch_size=bs,
                      collate_fn=collate, **kw)


class Norms(nn.Module):
    """Batch norms of all kinds, one used twice, one never."""

    def __init__(self, kinds, ch):
        super().__init__()
        self.kinds = kinds
        self.lins = nn.ModuleList(nn.Conv2d(3 if i == 0 else ch, ch, 1)
                                  for i in range(len(kinds)))
        self.bns = nn.ModuleList(
            dict(b2=nn.BatchNorm2d, b1=nn.BatchNorm1d, b0=nn.BatchNorm1d,
                 b3=nn.BatchNorm3d, twice=nn.BatchNorm2d,
                 sync=nn.SyncBatchNorm, frozen=nn.BatchNorm2d)[k](ch)
            for k in kinds)
        self.spare = nn.BatchNorm2d(ch)

    def train(self, mode=True):
        super().train(mode)
        for k, b in zip(self.kinds, self.bns):
            if k in ('frozen', 'sync'):  # SyncBN has no CPU kernel in training
                b.eval()
        return self

    def forward(self, x):
        for k, lin, bn in zip(self.kinds, self.lins, self.bns):
            x = lin(x)
            if k in ('b2', 'sync', 'frozen'):
                x = bn(x)
            elif k == 'twice':
                x = bn(torch.tanh(bn(x)) * 2 + 1)
            elif k == 'b1':
                x = bn(x.flatten(2)).view_as(x)
            elif k == 'b0':
                x = x + bn(x.mean([2, 3]))[..., None, None]
            else:
                n, c, h, w = x.shape
                x = bn(x.view(n, c, h // 2, 2, w)).reshape(n, c, h, w)
            x = torch.tanh(x)
        return x.mean([2, 3])


class Algo(nn.Module):

    def __init__(self, net, mutator=None, kinds=None):
        super().__init__()
        self.architecture = net
        if mutator is not None:
            self.mutator = mutator
        if kinds is not None:
            self.sample_kinds = kinds
        self.fed = []

    def forward(self, x):
        return self.architecture(x)

    def test_step(self, data):
        x = data['inputs'] if isinstance(data, dict) else data
        if isinstance(x, (list, tuple)):
            x = torch.stack(list(x))
        self.fed.append((self.training, x))
        return list(self(x))

    val_step = test_step


class Evaluator(BaseEvaluator):

    def __init__(self, look=lambda: None):
        super().__init__([])
        self.rows, self.evals, self.look = [], [], look

    def process(self, data_samples=None, data_batch=None):
        self.rows.append((list(data_batch['data_samples']),
                          torch.stack(list(data_samples)).detach().clone()))

    def evaluate(self, n):
        ids = [i for r in self.rows for i in r[0]]
        out = torch.cat([r[1] for r in self.rows])
        self.evals.append((n, ids, out, self.look()))
        self.rows = []
        return dict(acc=len(self.evals), norm=round(float(out.norm()), 4))


def close(a, b, what, tol=2e-4):
    assert a.shape == b.shape, f'{what}: {tuple(a.shape)} {tuple(b.shape)}'
    err = (a - b).abs().max().item() if a.numel() else 0
    assert err <= tol * (1 + b.abs().max().item()), f'{what}: off by {err:.3g}'


def is_bn(m):
    return isinstance(m, nn.modules.batchnorm._BatchNorm)


def calibrate(algo, xs):
    """Reference: average statistics of the batches in training mode."""
    acc = {}

    def hook(name):

        def fn(m, inp, out):
            x = inp[0].detach().double().transpose(0, 1).flatten(1)
            n = inp[0].shape[0]
            acc.setdefault(name, []).append(
                (n, x.mean(1), x.var(1, unbiased=True)))

        return fn

    hs = [m.register_forward_hook(hook(n)) for n, m in algo.named_modules()
          if is_bn(m)]
    algo.train()
    with torch.no_grad():
        for x in xs:
            algo(x)
    for h in hs:
        h.remove()
    mods = dict(algo.named_modules())
    for name, rows in acc.items():
        tot = sum(r[0] for r in rows)
        mean = sum(r[0] * r[1] for r in rows) / tot
        var = sum(r[0] * r[2] for r in rows) / tot
        mods[name].running_mean[:len(mean)] = mean.float()
        mods[name].running_var[:len(var)] = var.float()
    return acc


def cut(ld, num):
    """The batches of which the first ``num`` samples consist."""
    xs, left = [], num
    for b in ld:
        x = torch.stack(b['inputs'])[:left]
        xs.append(x)
        left -= len(x)
        if left <= 0:
            break
    return xs


def compare_state(a, b, what, skip=('num_batches_tracked', )):
    x, y = a.state_dict(), b.state_dict()
    assert x.keys() == y.keys()
    for k in x:
        if not k.endswith(skip):
            close(x[k].float(), y[k].float(), f'{what}: {k}')


@st.composite
def calib_case(draw):
    return dict(
        seed=draw(st.integers(0, 10**6)), ch=draw(st.integers(1, 5)),
        kinds=draw(st.lists(st.sampled_from(
            ['b2', 'b1', 'b0', 'b3', 'twice', 'frozen']), min_size=1,
            max_size=3)), n=draw(st.integers(2, 12)),
        bs=draw(st.integers(2, 5)), num=draw(st.integers(2, 14)),
        spec=draw(st.one_of(st.none(), super_spec(
            kinds=('op', 'big', 'depth'), aliases=False))),
        tensor=draw(st.booleans()))


def run_calib(c, rec):
    torch.manual_seed(c['seed'])
    if c['spec'] is None:
        algo = Algo(Norms(c['kinds'], c['ch']))
        randomize(algo, c['seed'])
    else:
        net = Super(c['spec'])
        mut = NasMutator()
        mut.prepare_from_supernet(net)
        randomize(net, c['seed'])
        algo = Algo(net, mut)
        mut.set_choices(mut.sample_choices())
    ld = loader(c['n'], c['bs'], c['seed'])
    xs = cut(ld, c['num'])
    if 'b0' in c['kinds'] and c['spec'] is None and min(map(len, xs)) < 2:
        rec.reject()
    ref = copy.deepcopy(algo)
    calibrate(ref, xs)
    mixin = CalibrateBNMixin()
    mixin.runner = SimpleNamespace(model=algo, logger=LOG)
    if c['tensor']:
        ld = [torch.stack(b['inputs']) for b in ld]
    mixin.calibrate_bn_statistics(ld, c['num'])
    assert [len(x) for _, x in algo.fed] == [len(x) for x in xs], \
        f'fed {[len(x) for _, x in algo.fed]}, expected {list(map(len, xs))}'
    assert all(t for t, _ in algo.fed), 'calibrated in evaluation mode'
    compare_state(algo, ref, 'calibration')
    for m in algo.modules():
        assert not m._forward_hooks, 'a hook is left behind'
    assert all(p.grad is None for p in algo.parameters())
    copy.deepcopy(algo)
    rec.hit(len(xs) > 1 or len(xs[0]) < c['bs'])
    rec.tag('cut' if len(xs[-1]) < min(c['bs'], c['n']) else 'whole')


@st.composite
def ranks_case(draw):
    c = draw(calib_case())
    return dict(c, world=draw(st.sampled_from([2, 2, 3])),
                num=draw(st.integers(2, 24)))


def calib_rank(rank, c, algo):
    mixin = CalibrateBNMixin()
    algo.device = torch.device('cpu')
    mixin.runner = SimpleNamespace(model=algo, logger=LOG)
    ld = loader(c['n'], c['bs'], c['seed'] + rank)
    if c['tensor']:
        ld = [torch.stack(b['inputs']) for b in ld]
    mixin.calibrate_bn_statistics(ld, c['num'])
    assert all(t for t, _ in algo.fed), 'calibrated in evaluation mode'
    return [x.tolist() for _, x in algo.fed], {
        k: v.tolist() for k, v in algo.state_dict().items()}


def run_calib_ranks(c, rec):
    """All ranks end with the average statistics of all their batches."""
    torch.manual_seed(c['seed'])
    if c['spec'] is None:
        algo = Algo(Norms(c['kinds'], c['ch']))
        randomize(algo, c['seed'])
    else:
        net = Super(c['spec'])
        mut = NasMutator()
        mut.prepare_from_supernet(net)
        randomize(net, c['seed'])
        algo = Algo(net, mut)
        mut.set_choices(mut.sample_choices())
    ref = copy.deepcopy(algo)
    try:
        res = ddp.ranks(c['world'], calib_rank, c, algo)
    except AssertionError as e:
        if 'more than 1 value per channel' in str(e):
            rec.reject()
        raise
    fed = [[torch.tensor(x) for x in r[0]] for r in res]
    for rank, f in enumerate(fed):
        assert [len(x) for x in f] == [len(x) for x in fed[0]]
        whole = Data(c['n'], c['seed'] + rank).x
        at = 0
        for x in f:
            assert torch.equal(x, whole[at:at + len(x)]), 'other samples'
            at += len(x)
    sizes = [len(x) for x in fed[0]]
    for i, n in enumerate(sizes):
        left = c['num'] - c['world'] * sum(sizes[:i])
        assert left > 0, f'{sizes} per rank for {c["num"]} samples'
        full = min(c['bs'], c['n'] - c['bs'] * i)
        assert 0 < n <= full and n >= min(full, -(-left // c['world']))
    assert sum(sizes) == c['n'] or c['world'] * sum(sizes) >= c['num']
    calibrate(ref, [x for f in zip(*fed) for x in f])
    for rank, r in enumerate(res):
        for k, v in ref.state_dict().items():
            if not k.endswith('num_batches_tracked'):
                close(torch.tensor(r[1][k]).float(), v.float(),
                      f'rank {rank}: {k}')
    rec.hit(len(sizes) > 1)


# --------------------------------------------------------- validation loops


@st.composite
def subnet_case(draw):
    return dict(
        seed=draw(st.integers(0, 10**6)),
        spec=draw(super_spec(kinds=('op', 'big', 'depth'))),
        kinds=draw(st.lists(st.sampled_from(['max', 'min', 'random0',
                                             'random1']), min_size=1,
                            max_size=4, unique=True)),
        fixed=draw(st.integers(0, 3)) == 0, n=draw(st.integers(1, 6)),
        bs=draw(st.integers(1, 4)), cn=draw(st.integers(2, 6)),
        cbs=draw(st.integers(1, 4)), num=draw(st.integers(1, 8)))


def run_subnet(c, rec):
    torch.manual_seed(c['seed'])
    if any(b['t'] in ('op', 'nest') for b in c['spec']['blocks']):
        # operators are not ordered, there is no largest choice
        c = dict(c, kinds=[k for k in c['kinds'] if k not in ('max', 'min')]
                 or ['random'])
    net = Super(c['spec'])
    mut = NasMutator()
    mut.prepare_from_supernet(net)
    randomize(net, c['seed'])
    algo = Algo(net, mut, c['kinds'])
    mut.set_choices(mut.sample_choices())
    start = dict(mut.current_choices)
    ref = copy.deepcopy(algo)
    ev = Evaluator(lambda: dict(mut.current_choices))
    val = loader(c['n'], c['bs'], c['seed'] + 1)
    train = loader(c['cn'], c['cbs'], c['seed'] + 2)
    runner = Runner(algo, '/nonexistent')
    runner.train_dataloader = train
    said = []
    call = runner.call_hook
    runner.call_hook = lambda name, **kw: (call(name), said.append((name, kw)))
    shape = dict(type='mmrazor.ResourceEstimator',
                 input_shape=(1, 3, HW, HW))
    loop = SubnetValLoop(runner, val, ev, evaluate_fixed_subnet=c['fixed'],
                         calibrate_sample_num=c['num'], estimator_cfg=shape)
    back = loop.run()
    kinds = ['fix'] if c['fixed'] else c['kinds']
    assert len(ev.evals) == len(kinds)
    prefix = dict(max='max_subnet', min='min_subnet', fix='fix_subnet')
    metrics = dict(said)['after_val_epoch']['metrics']
    names = []
    fed = list(algo.fed)
    xs = cut(train, c['num'])
    for i, (kind, (n, ids, out, choice)) in enumerate(zip(kinds, ev.evals)):
        if kind == 'max':
            assert choice == mut.max_choices, (choice, mut.max_choices)
        elif kind == 'min':
            assert choice == mut.min_choices, (choice, mut.min_choices)
        elif kind == 'fix':
            assert choice == start
        ref.mutator.set_choices(choice)
        calibrate(ref, xs)
        ref.eval()
        exp = []
        with torch.no_grad():
            for b in val:
                exp.append(ref(torch.stack(b['inputs'])))
        assert n == c['n'] and ids == list(range(c['n']))
        close(out, torch.cat(exp), f'outputs of {kind}', 1e-3)
        pre = prefix.get(kind, f'{kind}_subnet')
        assert metrics[f'{pre}.acc'] == i + 1
        res = ResourceEstimator(input_shape=(1, 3, HW, HW)).estimate(
            copy.deepcopy(ref))
        for k in ('flops', 'params'):
            assert abs(metrics[f'{pre}.{k}'] - res[k]) < 1e-6, (k, res)
        names += [f'{pre}.{k}' for k in ('acc', 'norm', *res)]
        # calibration batches, validation batches, the estimation
        want = [(True, len(x)) for x in xs] + [(False, len(e)) for e in exp]
        got = [(t, len(x)) for t, x in fed[:len(want)]]
        assert got == want, (got, want)
        fed = fed[len(want):]
        while fed and not fed[0][0] and fed[0][1].shape[0] == 1 and \
                i + 1 == len(kinds):
            fed.pop(0)
    assert set(metrics) == set(names), (set(metrics), set(names))
    assert back is None or dict(back) == dict(metrics)
    hooks = [n for n, _ in said if n.endswith(('_val', '_epoch'))]
    assert hooks == ['before_val', 'before_val_epoch', 'after_val_epoch',
                     'after_val'], hooks
    if c['fixed']:
        assert dict(mut.current_choices) == start
    a, b = dict(net.named_parameters()), dict(
        ref.architecture.named_parameters())
    assert all(torch.equal(a[k], b[k]) for k in a), 'a weight changed'
    rec.hit(len(kinds) > 1 and any(e[3] != ev.evals[0][3] for e in ev.evals))
    rec.tag(f'kinds={len(kinds)}')


@st.composite
def slim_case(draw):
    return dict(seed=draw(st.integers(0, 10**6)),
                spec=draw(super_spec(kinds=('op', 'big', 'depth'))),
                k=draw(st.integers(1, 4)), n=draw(st.integers(1, 6)),
                bs=draw(st.integers(1, 4)),
                kind=draw(st.sampled_from(['slim', 'slim', 'teacher',
                                           'self'])),
                runs=draw(st.integers(1, 2)))


class Norm(nn.Module):

    def __init__(self):
        super().__init__()
        self.register_buffer('s', torch.tensor(0.5))


def run_slim(c, rec):
    torch.manual_seed(c['seed'])
    net = Super(c['spec'])
    mut = NasMutator()
    mut.prepare_from_supernet(net)
    randomize(net, c['seed'])
    algo = Algo(net, mut)
    val = loader(c['n'], c['bs'], c['seed'] + 1)
    x = torch.stack([d['inputs'] for d in val.dataset])
    runner = Runner(algo, '/nonexistent')
    said = []
    runner.call_hook = lambda name, **kw: said.append((name, kw))
    ev = Evaluator(lambda: dict(mut.current_choices))
    if c['kind'] == 'slim':
        subnets = [mut.sample_choices() for _ in range(c['k'])]
        mut.subnets = subnets
        loop = SlimmableValLoop(runner, val, ev)
    elif c['kind'] == 'teacher':
        algo.teacher = Algo(Norms(['b2', 'b1'], 4))
        randomize(algo.teacher, c['seed'] + 3)
        algo.data_preprocessor = Norm()
        loop = SingleTeacherDistillValLoop(runner, val, ev)
    else:
        loop = SelfDistillValLoop(runner, val, ev)
    state = {k: v.clone() for k, v in algo.state_dict().items()}
    for r in range(c['runs']):
        algo.train()
        del said[:], algo.fed[:], ev.evals[:]
        back = loop.run()
        metrics = dict(said)['after_val_epoch']['metrics']
        assert back is None or dict(back) == dict(metrics)
        ref = copy.deepcopy(algo).eval()
        assert all(not t for t, _ in algo.fed), 'validated in training mode'
        if c['kind'] == 'slim':
            assert len(ev.evals) == c['k']
            for i, (n, ids, out, choice) in enumerate(ev.evals):
                ref.mutator.set_choices(subnets[i])
                assert choice == dict(ref.mutator.current_choices)
                with torch.no_grad():
                    close(out, ref(x), f'outputs of subnet {i}')
                assert metrics[f'subnet_{i}.norm'] == round(
                    float(out.norm()), 4)
            assert len(metrics) == 2 * c['k']
        elif c['kind'] == 'teacher':
            assert len(ev.evals) == 2
            with torch.no_grad():
                close(ev.evals[0][2], ref(x), 'student')
                close(ev.evals[1][2], ref.teacher(x), 'teacher')
            for pre, e in zip(('', 'teacher.'), ev.evals):
                assert metrics[pre + 'norm'] == round(float(e[2].norm()), 4)
            assert len(metrics) == 4
        else:
            assert len(ev.evals) == 1
            with torch.no_grad():
                close(ev.evals[0][2], ref(x), 'student')
            assert set(metrics) == {'student.acc', 'student.norm'}
        for n, ids, out, _ in ev.evals:
            assert n == c['n'] and ids == list(range(c['n']))
        names = [n for n, _ in said]
        assert names[0] == 'before_val' and names[-1] == 'after_val'
        assert names.count('after_val_epoch') == 1
        its = -(-c['n'] // c['bs']) * len(ev.evals)
        assert names.count('before_val_iter') == its
        assert names.count('after_val_iter') == its
    for k, v in algo.state_dict().items():
        if k in state and not k.endswith('mask'):
            assert torch.equal(v, state[k]), f'validation changed {k}'
    rec.hit(c['n'] > c['bs'])
    rec.tag(c['kind'])


# ------------------------------------------------------------- DARTS loops


@st.composite
def darts_case(draw):
    return dict(seed=draw(st.integers(0, 10**6)),
                kind=draw(st.sampled_from(['epoch', 'iter'])),
                na=draw(st.integers(1, 7)), nb=draw(st.integers(1, 7)),
                ba=draw(st.integers(1, 3)), bb=draw(st.integers(1, 3)),
                shuffle=draw(st.booleans()), cfg=draw(st.booleans()),
                length=draw(st.integers(1, 9)),
                stop=draw(st.sampled_from([None, None, 1, 2, 3])), begin=draw(st.integers(1, 4)),
                interval=draw(st.integers(1, 4)))


class TrainAlgo(nn.Module):

    def __init__(self):
        super().__init__()
        self.seen = []

    def train_step(self, data, optim_wrapper):
        assert self.training
        self.seen.append(data)
        return dict(loss=0.0)


def order(n, bs, shuffle, seed, epoch):
    ids = list(range(n))
    if shuffle:
        g = torch.Generator().manual_seed(seed + epoch)
        ids = torch.randperm(n, generator=g).tolist()
    return [ids[i:i + bs] for i in range(0, n, bs)]


def run_darts(c, rec):
    algo = TrainAlgo()
    runner = Runner(algo, '/nonexistent')
    runner.optim_wrapper = None
    runner._randomness_cfg = {}
    said = []
    state = SimpleNamespace(dataloader=None)

    def call_hook(name, **kw):
        said.append(name)
        if name == 'before_train_epoch':  # DistSamplerSeedHook
            s = state.loop.dataloader.sampler
            if c['kind'] == 'epoch' and hasattr(s, 'set_epoch'):
                s.set_epoch(state.loop._epoch)
        # EarlyStoppingHook
        if c.get('stop') and (
                name == 'after_train_epoch' and c['kind'] == 'epoch'
                and state.loop._epoch + 1 >= c['stop']
                or name == 'after_train_iter' and c['kind'] == 'iter'
                and state.loop._iter + 1 >= c['stop']):
            state.loop.stop_training = True

    runner.call_hook = call_hook
    vals = []
    runner.val_loop = SimpleNamespace(
        run=lambda: (vals.append((state.loop._epoch, state.loop._iter)),
                     algo.eval()))

    def make(n, bs, seed):
        d = Data(n, 1)
        return DataLoader(d, batch_size=bs, collate_fn=collate,
                          sampler=DefaultSampler(d, c['shuffle'], seed))

    a, b = make(c['na'], c['ba'], 5), make(c['nb'], c['bb'], 9)
    built = dict(a=a, b=b)
    runner.build_dataloader = lambda cfg, seed=None, **kw: built[cfg['k']]
    if c['cfg']:
        a, b = dict(k='a'), dict(k='b')
    if c['kind'] == 'epoch':
        ep = min(c['length'], 4)
        state.loop = DartsEpochBasedTrainLoop(
            runner, a, b, ep, c['begin'], c['interval'])
    else:
        state.loop = DartsIterBasedTrainLoop(
            runner, a, b, c['length'], c['begin'], c['interval'])
    import mmengine.dataset.utils as mu
    import mmengine.runner.loops as ml
    import time
    nap, time.sleep = time.sleep, lambda *a: None
    try:
        state.loop.run()
    finally:
        time.sleep = nap
    del mu, ml
    got = [tuple(d['data_samples'] for d in pair) for pair in algo.seen]
    exp = []

    def epoch_pairs(e):
        return list(zip(order(c['na'], c['ba'], c['shuffle'], 5, e),
                        order(c['nb'], c['bb'], c['shuffle'], 9, e)))

    if c.get('stop'):
        rec.tag('stopped')
        if c['kind'] == 'epoch':
            last, ep = ep, min(ep, c['stop'])
        else:
            c = dict(c, length=min(c['length'], c['stop']))
    elif c['kind'] == 'epoch':
        last = ep
    if c['kind'] == 'epoch':
        for e in range(ep):
            exp += epoch_pairs(e)
        assert state.loop._epoch == ep
        want = [e for e in range(1, ep + 1) if e >= c['begin'] and (
            e % c['interval'] == 0 or e == last)]
        seen = [e for e, _ in vals]
        # validating after the very last epoch is up to mmengine
        assert seen in (want, [e for e in want if e % c['interval'] == 0]), \
            (seen, want)
    else:
        e = 0
        while len(exp) < c['length']:
            exp += epoch_pairs(e)
            e += 1
        exp = exp[:c['length']]
        want = [i for i in range(1, c['length'] + 1)
                if i >= c['begin'] and i % c['interval'] == 0]
        assert [i for _, i in vals] == want, (vals, want)
        rec.tag('restarts', max(0, e - 1))
    exp = [tuple(p) for p in exp]
    assert got == exp, f'fed {got}, expected {exp}'
    assert said[0] == 'before_train' and said[-1] == 'after_train'
    assert said.count('before_train_iter') == len(exp)
    assert said.count('after_train_iter') == len(exp)
    rec.hit(-(-c['na'] // c['ba']) != -(-c['nb'] // c['bb']) and len(exp) > 1)
    rec.tag(c['kind'])


SUBS = [
    Sub('ranks', ranks_case(), run_calib_ranks, 40),
    Sub('calibrate', calib_case(), run_calib, 200),
    Sub('subnet', subnet_case(), run_subnet, 120),
    Sub('multi', slim_case(), run_slim, 120),
    Sub('darts', darts_case(), run_darts, 200),
]
