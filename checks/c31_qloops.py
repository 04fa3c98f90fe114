"""C31: quantization-aware training, its validation and calibration loops."""
import copy
import os
import shutil
import tempfile
import warnings

import torch
from hypothesis import strategies as st
from mmengine.evaluator import BaseMetric, Evaluator
from mmengine.hooks import Hook
from mmengine.optim import OptimWrapper
from mmengine.runner import Runner
from torch.ao.quantization import (FakeQuantizeBase, disable_observer,
                                   enable_fake_quant, enable_observer)
from torch.ao.quantization.fake_quantize import FixedQParamsFakeQuantize
from torch.nn.intrinsic.qat import freeze_bn_stats

from mmrazor.models import MMArchitectureQuant
from mmrazor.models.fake_quants import (LearnableFakeQuantize,
                                        enable_param_learning,
                                        enable_static_estimate, enable_val)
from checks.c30_quantizers import Net, quantizer_cfg, reset_registry
from pbt.core import Sub
from pbt.nnutil import rand_tensor, randomize, same_state

warnings.filterwarnings('ignore')

PID = 'C31'
RULE = ('the training has at least two epochs, a switch or a resumption '
        'inside (train), both models are judged (val), more than one batch '
        'is calibrated (ptq)')
ASSUMPTIONS = [
    'one process on the CPU', 'training is resumed at the end of an epoch '
    'and with the batches it would have seen',
    'dropout is inactive; norms keep running statistics'
]
ints = st.integers
QAT_OPS = ['conv', 'convbn', 'convbnrelu', 'convrelu', 'bn', 'relu', 'add',
           'maxpool', 'dw', 'cat', 'linear', 'sigmoid']


class Data(torch.utils.data.Dataset):
    metainfo = dict()

    def __init__(self, n, seed):
        self.x = rand_tensor((n, 3, 5, 5), seed)
        self.n, self.seed = n, seed

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return dict(inputs=self.x[i], data_samples=(i * 7 + self.seed) % 5)


def loader(n, seed, batch=2):
    return torch.utils.data.DataLoader(Data(n, seed), batch_size=batch)


class Score(BaseMetric):
    """Weighted sum of everything predicted."""

    def __init__(self, seed, names=('a', 'b')):
        super().__init__()
        self.seed, self.names = seed, list(names)

    def process(self, data_batch, data_samples):
        for p in data_samples:
            self.results.append(p.detach().double().clone())

    def compute_metrics(self, results):
        t = torch.stack(results)
        return {n: float((t * rand_tensor(t.shape, self.seed + i)).sum())
                for i, n in enumerate(self.names)}


def switches(model):
    """The set of states the fake quantizers are in."""
    out = set()
    for m in model.modules():
        if isinstance(m, LearnableFakeQuantize):
            out.add(('L', bool(m.fake_quant_enabled[0]),
                     bool(m.static_enabled[0]), bool(m.learning_enabled[0])))
        elif isinstance(m, FakeQuantizeBase) and not isinstance(
                m, FixedQParamsFakeQuantize):
            out.add(('F', bool(m.fake_quant_enabled[0]),
                     bool(m.observer_enabled[0])))
    return out


class Log(Hook):
    priority = 'LOWEST'

    def __init__(self, stop=None):
        self.events, self.metrics, self.stop = [], [], stop
        self.sees = []

    def before_train_iter(self, runner, batch_idx, data_batch=None):
        frozen = {bool(m.freeze_bn) for m in runner.model.modules()
                  if hasattr(m, 'freeze_bn')}
        self.events.append(('train', runner.epoch, batch_idx,
                            frozenset(switches(runner.model)),
                            frozenset(frozen), runner.model.training))

    def after_train_epoch(self, runner):
        self.events.append(('end', runner.epoch,
                            frozenset(switches(runner.model))))
        if self.stop is not None and runner.epoch + 1 >= self.stop:
            runner.train_loop.stop_training = True

    def after_val_iter(self, runner, batch_idx, data_batch=None,
                       outputs=None):
        self.sees.append([o.detach().clone() for o in outputs])
        self.events.append(('val', runner.epoch, batch_idx,
                            frozenset(switches(runner.model)),
                            runner.model.training))

    def after_val_epoch(self, runner, metrics=None):
        self.metrics.append((runner.epoch, dict(metrics)))


def build_algo(c):
    reset_registry()
    torch.manual_seed(c['seed'])
    net = Net(c)
    randomize(net, c['seed'])
    return MMArchitectureQuant(
        net, quantizer_cfg(c), input_shapes=(1, 3, 5, 5))


def make_runner(c, algo, work, hooks, epochs, best=None, **kw):
    cfg = dict(type='mmrazor.LSQEpochBasedLoop' if c['lsq'] else
               'mmrazor.QATEpochBasedLoop', max_epochs=epochs,
               val_begin=c['val_begin'], val_interval=c['val_interval'],
               freeze_bn_begin=c['freeze'])
    if not c['lsq']:
        cfg['disable_observer_begin'] = c['noobs_begin']
    seed = c['seed']
    return Runner(
        model=algo, work_dir=work,
        train_dataloader=loader(2 * c['iters'], seed),
        optim_wrapper=OptimWrapper(torch.optim.SGD(
            algo.parameters(), lr=.02, momentum=.5)),
        train_cfg=cfg, val_dataloader=loader(3, seed + 1),
        val_evaluator=Evaluator(Score(seed)),
        val_cfg=dict(type='mmrazor.QATValLoop'),
        custom_hooks=hooks,
        default_hooks=dict(
            checkpoint=dict(type='CheckpointHook', interval=1,
                            save_best=best, rule=c['rule']),
            logger=None, timer=None, sampler_seed=None),
        experiment_name='_'.join(work.split(os.sep)[-2:]),
        randomness=dict(seed=seed), log_level='CRITICAL',
        default_scope='mmrazor', **kw)


@st.composite
def train_case(draw):
    lsq = draw(st.booleans())
    epochs = draw(ints(1, 3))
    return dict(
        ops=[[draw(st.sampled_from(QAT_OPS)), draw(ints(0, 9)),
              draw(ints(0, 9))] for _ in range(draw(ints(0, 3)))],
        hrelu=False, norm='bn', flat='method', backend=draw(
            st.sampled_from(['OpenVINO', 'TensorRT', 'TorchNative'])),
        lsq=lsq, wper=draw(st.booleans()), wsym=True, wrange=True,
        wbit=draw(st.sampled_from([8, 4])), hist=False, multi=False,
        epochs=epochs, iters=draw(ints(1, 3)),
        noobs_begin=draw(st.sampled_from([-1, 1, 2, 3])),
        freeze=draw(st.sampled_from([-1, 1, 2, 3])),
        val_begin=draw(ints(1, 2)), val_interval=draw(ints(1, 3)),
        resume=draw(ints(0, epochs - 1)),
        stop=draw(st.sampled_from([None, None, None, 1, 2])),
        best=draw(st.sampled_from([None, 'auto', 'qat.a', 'original.b'])),
        rule='greater' if draw(st.booleans()) else 'less',
        seed=draw(ints(0, 9999)))


@st.composite
def resume_case(draw):
    """Resumed behind every point of the schedule."""
    epochs = draw(ints(2, 3))
    return dict(
        draw(train_case()), epochs=epochs, iters=draw(ints(1, 2)), stop=None,
        resume=draw(ints(1, epochs - 1)), freeze=draw(ints(1, epochs)),
        noobs_begin=draw(ints(1, epochs)))


def ref_switch(c, m, epoch, first):
    if 0 < c['freeze'] <= epoch + 1:
        m.apply(freeze_bn_stats)
    if c['lsq']:
        m.apply(enable_static_estimate if first else enable_param_learning)
    else:
        m.apply(enable_fake_quant)
        m.apply(disable_observer if 0 < c['noobs_begin'] <= epoch + 1
                else enable_observer)


def ref_val(c, m):
    if c['lsq']:
        m.apply(enable_val)
    else:
        m.apply(enable_fake_quant)
        m.apply(disable_observer)


def predictions(model, data, quant, algo):
    out = []
    with torch.no_grad():
        for b in data:
            p = algo(b['inputs'], b['data_samples'], 'predict') if quant \
                else model(b['inputs'], b['data_samples'], 'predict')
            out.append([t.clone() for t in p])
    return out


def score(c, preds):
    s = Score(c['seed'])
    s.process(None, [p for b in preds for p in b])
    return s.compute_metrics(s.results)


def run_train(c, rec):
    tmp = tempfile.mkdtemp(prefix='pbt_')
    try:
        _train(c, rec, tmp)
    finally:
        shutil.rmtree(tmp)


def _train(c, rec, tmp):
    last = min(c['epochs'], c['stop'] or c['epochs'])
    # -- reference training
    ref = build_algo(c)
    opt = OptimWrapper(torch.optim.SGD(ref.parameters(), lr=.02, momentum=.5))
    batches = list(loader(2 * c['iters'], c['seed']))
    vbatch = list(loader(3, c['seed'] + 1))
    states, vals, events = [], [], []
    for e in range(last):
        ref.train()
        for i, b in enumerate(batches):
            ref_switch(c, ref, e, c['lsq'] and e == 0 and i == 0)
            ref.train()
            logs = ref.train_step(b, opt)
            if not all(abs(float(v)) < 1e3 for v in logs.values()):
                rec.reject('diverged')
            events.append(('train', e, i))
        ref.sync_qparams('loss')
        ref_val(c, ref)
        states.append({k: v.clone() for k, v in ref.state_dict().items()})
        done = e + 1
        # mmengine also validates at the last epoch
        must = done >= c['val_begin'] and done % c['val_interval'] == 0
        may = done >= c['val_begin'] and done == c['epochs']
        ref.eval()
        vals.append((must, may, predictions(None, vbatch, True, ref),
                     predictions(ref.architecture, vbatch, False, ref)))
    # -- the loop
    algo = build_algo(c)
    log = Log(c['stop'])
    w = os.path.join(tmp, 'full')
    r = make_runner(c, algo, w, [log], c['epochs'], best=c['best'])
    r.train()
    assert r.epoch == last, f'{r.epoch} epochs instead of {last}'
    same_state(algo.state_dict(), states[-1], 'trained model')
    got = [ev[:3] for ev in log.events if ev[0] == 'train']
    assert got == events, (got, events)
    for ev in log.events:
        if ev[0] == 'train':
            _, e, i, sw, fr, training = ev
            assert training
            want = 0 < c['freeze'] <= e + 1
            assert fr <= {want}, f'epoch {e}: norms frozen {set(fr)}'
            if c['lsq']:
                first = e == 0 and i == 0
                assert all(s[2] == first and s[3] != first for s in sw
                           if s[0] == 'L'), (e, i, sw)
            else:
                obs = not 0 < c['noobs_begin'] <= e + 1
                assert all(s[1] and s[2] == obs for s in sw), (e, i, sw)
        else:
            sw = ev[2] if ev[0] == 'end' else ev[3]
            for s in sw:
                assert s[1] and not any(s[2:]), (ev, s)
            if ev[0] == 'val':
                assert not ev[4]
    # -- validations
    at = 0
    met = {}
    for e, m in log.metrics:
        met.setdefault(e, {}).update(m)
    bests = {}
    for e, (must, may, q, f) in enumerate(vals):
        n = 2 * len(vbatch)
        if e + 1 not in met:
            assert not must, f'epoch {e + 1} is not validated'
            continue
        assert must or may, f'epoch {e + 1} is validated'
        for got, want in zip(log.sees[at:at + n], q + f):
            for a, b in zip(got, want):
                assert torch.equal(a, b), 'prediction of the validation'
        at += n
        want = {'qat.' + k: v for k, v in score(c, q).items()}
        want.update({'original.' + k: v for k, v in score(c, f).items()})
        assert set(met[e + 1]) == set(want), met[e + 1]
        for k, v in want.items():
            assert abs(met[e + 1][k] - v) < 1e-6 * max(1, abs(v)), k
        bests[e + 1] = want
    assert at == len(log.sees)
    # -- checkpoints
    for e in range(last):
        f = os.path.join(w, f'epoch_{e + 1}.pth')
        ck = torch.load(f)
        same_state(ck['state_dict'], states[e], f'checkpoint {e + 1}')
    if c['best'] and bests:
        key = 'qat.a' if c['best'] == 'auto' else c['best']
        sign = 1 if c['rule'] == 'greater' else -1
        best = max(bests, key=lambda e: (sign * bests[e][key], -e))
        files = [n for n in os.listdir(w) if n.startswith('best_')]
        assert len(files) == 1 and files[0].endswith(f'epoch_{best}.pth'), (
            files, best)
        ck = torch.load(os.path.join(w, files[0]))
        same_state(ck['state_dict'], states[best - 1], 'best checkpoint')
    fresh = build_algo(c)
    fresh.load_state_dict(torch.load(
        os.path.join(w, f'epoch_{last}.pth'))['state_dict'])
    fresh.eval()
    for a, b in zip(predictions(None, vbatch, True, fresh), vals[-1][2]):
        for p, q in zip(a, b):
            assert torch.equal(p, q), 'prediction of the loaded checkpoint'
    # -- resumed training
    k = c['resume']
    if 0 < k < last:
        again = build_algo(c)
        log2 = Log(c['stop'])
        r2 = make_runner(
            c, again, os.path.join(tmp, 'again'), [log2], c['epochs'],
            resume=True, load_from=os.path.join(w, f'epoch_{k}.pth'))
        r2.train()
        assert [e[:3] for e in log2.events if e[0] == 'train'] == [
            e for e in events if e[1] >= k]
        for ev in log2.events:
            if ev[0] == 'train':
                want = 0 < c['freeze'] <= ev[1] + 1
                assert ev[4] <= {want}, (
                    f'epoch {ev[1]} (resumed): norms frozen {set(ev[4])}')
        same_state(again.state_dict(), states[-1], 'resumed training')
        rec.tag('resumed')
        if 0 < c['freeze'] <= k:
            rec.tag('resumed frozen')
    rec.hit(last > 1)
    rec.tag('lsq' if c['lsq'] else 'minmax')
    if c['stop'] and last < c['epochs']:
        rec.tag('stopped')
    if bests:
        rec.tag('validated')
        if c['best']:
            rec.tag('best')


# ------------------------------------------------------------- calibration --
@st.composite
def ptq_case(draw):
    c = draw(train_case())
    c.update(lsq=False, resume=0, stop=None, best=None,
             n=draw(ints(1, 4)), steps=draw(ints(1, 5)),
             only_val=draw(st.sampled_from([False, False, False, True])),
             both=draw(st.booleans()), direct=draw(st.booleans()),
             hist=draw(st.booleans()))
    return c


def run_ptq(c, rec):
    tmp = tempfile.mkdtemp(prefix='pbt_')
    try:
        _ptq(c, rec, tmp)
    finally:
        shutil.rmtree(tmp)


def _ptq(c, rec, tmp):
    seed = c['seed']
    calib = list(loader(2 * c['n'], seed + 2))
    vbatch = list(loader(3, seed + 1))
    ref = build_algo(c)
    if c['only_val']:
        # statistics of an earlier calibration
        ref.eval()
        ref.apply(enable_fake_quant)
        ref.apply(enable_observer)
        with torch.no_grad():
            ref.calibrate_step(calib[0])
    start = copy.deepcopy(ref.state_dict())
    if not c['only_val']:
        ref.eval()
        ref.apply(enable_fake_quant)
        ref.apply(enable_observer)
        with torch.no_grad():
            for b in calib[:c['steps']]:
                ref(b['inputs'], b['data_samples'], 'predict')
    ref.eval()
    ref_val(c, ref)
    want = {k: v.clone() for k, v in ref.state_dict().items()}
    q = predictions(None, vbatch, True, ref)
    f = predictions(ref.architecture, vbatch, False, ref)

    algo = build_algo(c)
    algo.load_state_dict(start)
    log = Log()
    data = loader(2 * c['n'], seed + 2)
    if not c['direct']:
        data = dict(dataset=Data(2 * c['n'], seed + 2), batch_size=2,
                    num_workers=0, sampler=dict(type='DefaultSampler',
                                                shuffle=False),
                    collate_fn=dict(type='default_collate'))
    r = Runner(
        model=algo, work_dir=os.path.join(tmp, 'run'),
        train_dataloader=loader(2, seed),
        optim_wrapper=OptimWrapper(torch.optim.SGD(algo.parameters(), lr=.1)),
        train_cfg=dict(by_epoch=True, max_epochs=1),
        val_dataloader=loader(3, seed + 1),
        val_evaluator=Evaluator(Score(seed)),
        val_cfg=dict(type='mmrazor.QATValLoop') if c['both'] else dict(),
        test_dataloader=loader(3, seed + 1),
        test_evaluator=Evaluator(Score(seed)),
        test_cfg=dict(type='mmrazor.PTQLoop', calibrate_dataloader=data,
                      calibrate_steps=c['steps'], only_val=c['only_val']),
        custom_hooks=[log],
        default_hooks=dict(logger=None, timer=None, sampler_seed=None,
                           checkpoint=None),
        experiment_name=os.path.basename(tmp),
        randomness=dict(seed=seed), log_level='CRITICAL',
        default_scope='mmrazor')
    metrics = r.test()
    same_state(algo.state_dict(), want, 'calibrated model')
    sees = q + f if c['both'] else q
    assert len(sees) == len(log.sees)
    for got, w in zip(log.sees, sees):
        for a, b in zip(got, w):
            assert torch.equal(a, b), 'prediction after the calibration'
    pre = 'qat.' if c['both'] else ''
    ms = {pre + k: v for k, v in score(c, q).items()}
    if c['both']:
        ms.update({'original.' + k: v for k, v in score(c, f).items()})
    assert set(metrics) == set(ms), (metrics, ms)
    for k, v in ms.items():
        assert abs(metrics[k] - v) < 1e-6 * max(1, abs(v)), k
    found = [os.path.join(d, n) for d, _, ns in os.walk(
        os.path.join(tmp, 'run')) for n in ns if n == 'model_ptq.pth']
    assert len(found) == (0 if c['only_val'] else 1), found
    if found:
        ck = torch.load(found[0])
        same_state(ck['state_dict'], want, 'calibrated checkpoint')
        fresh = build_algo(c)
        fresh.load_state_dict(ck['state_dict'])
        fresh.eval()
        for a, b in zip(predictions(None, vbatch, True, fresh), q):
            for x, y in zip(a, b):
                assert torch.equal(x, y), 'prediction of the checkpoint'
    rec.hit(not c['only_val'] and min(c['steps'], c['n']) > 1)
    rec.tag('both' if c['both'] else 'plain')
    if c['steps'] < c['n']:
        rec.tag('cut')
    if c['only_val']:
        rec.tag('only')


SUBS = [
    Sub('resume', resume_case(), run_train, 24),
    Sub('train', train_case(), run_train, 72),
    Sub('ptq', ptq_case(), run_ptq, 48),
]
