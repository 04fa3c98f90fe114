"""C15: a distillation step is the student's task plus the listed losses."""
import copy
import math
import sys
import types

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmcv.cnn import ConvModule
from mmengine.model import BaseDataPreprocessor, BaseModel
from mmengine.optim import OptimWrapper

from mmrazor.models import (DAFLDataFreeDistillation, DataFreeDistillation,
                            FpnTeacherDistill, OverhaulFeatureDistillation,
                            SelfDistill, SingleTeacherDistill)
from mmrazor.registry import MODELS
from pbt.core import Sub

PID = 'C15'
RULE = ('at least two distillation losses or two training steps, with a loss '
        'that reaches the student')
ASSUMPTIONS = ['teachers trained in train mode keep their running statistics '
               'only when teacher_norm_eval is set',
               'a step has at least one differentiable loss']
FN = types.ModuleType('pbt_toy_distill')
exec('import torch\ndef draw(n):\n    return torch.randperm(n)\n', FN.__dict__)
sys.modules['pbt_toy_distill'] = FN


class Neck(nn.Module):

    def forward(self, x):
        return x.mean([2, 3]), F.relu(x).mean([2, 3]) * 2


class Prep(BaseDataPreprocessor):
    """Training data is augmented (scaled)."""

    def forward(self, data, training=False):
        data = super().forward(data, training)
        return dict(data, inputs=data['inputs'] * (2 if training else 1))


MODELS.register_module(name='PbtDistillPrep', module=Prep, force=True)


class Toy(BaseModel):

    def __init__(self, ch=4, depth=2, twice=False, inplace=True, mix=False,
                 classes=3):
        super().__init__(
            data_preprocessor=dict(type='mmrazor.PbtDistillPrep'))
        self.stem = nn.Sequential(nn.Conv2d(3, ch, 3, padding=1),
                                  nn.ReLU(inplace=inplace))
        self.blocks = nn.ModuleList(
            ConvModule(ch, ch, 3, padding=1, norm_cfg=dict(type='BN'),
                       inplace=inplace) for _ in range(depth))
        self.twice, self.mix = twice, mix
        self.neck = Neck()
        self.fc = nn.Linear(ch, classes)

    def extract_feat(self, x):
        if self.mix:
            x = 0.7 * x + 0.3 * x[FN.draw(len(x))]
        x = self.stem(x)
        for i, b in enumerate(self.blocks):
            x = x + b(x)
            if self.twice and i == 0:
                x = x + b(x)
        return self.neck(x)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        a, b = self.extract_feat(inputs)
        # only the loss mode computes the features that are distilled
        y = self.fc(a + b) if mode in ('loss', 'logits') else self.fc(a - b)
        if mode == 'loss':
            return dict(loss=F.cross_entropy(y, data_samples),
                        acc=(y.argmax(1) == data_samples).float().mean())
        return y


class Tap:
    """Plain hooks that note what every module saw, for the reference."""

    def __init__(self, model):
        self.rec = {}
        self.handles = []
        for n, m in model.named_modules():
            self.handles.append(m.register_forward_hook(
                lambda m, i, o, n=n: self.rec.setdefault(n, []).append(
                    (i, o))))

    def close(self):
        for h in self.handles:
            h.remove()


def out_of_place(model):
    for m in model.modules():
        if hasattr(m, 'inplace'):
            m.inplace = False
    return model


# ---------------------------------------------------------------- generator
LOSS = dict(l2=('L2Loss', ('s_feature', 't_feature'), dict(normalize=False)),
            l1=('L1Loss', ('s_feature', 't_feature'), {}),
            kl=('KLDivergence', ('preds_S', 'preds_T'), dict(tau=2.0)),
            at=('ATLoss', ('s_feature', 't_feature'), {}))


@st.composite
def item(draw, depth, twice):
    site = draw(st.sampled_from(['fc', 'bn', 'conv', 'block', 'neck', 'stem',
                                 'input', 'weight']))
    i = draw(st.integers(0, depth - 1))
    kind = draw(st.sampled_from(
        dict(fc=['l2', 'kl', 'l1'], neck=['l2', 'l1'], weight=['l2', 'l1'],
             input=['l2', 'l1']).get(site, ['l2', 'l1', 'at'])))
    return dict(site=site, i=i, kind=kind,
                call=draw(st.integers(0, 1)) if twice else 0,
                data=draw(st.integers(0, 1)), w=draw(st.sampled_from(
                    [0.5, 1.0, 3.0])),
                conn=draw(st.sampled_from(['none', 'none', 'one', 'list'])),
                stat=draw(st.integers(0, 4)) == 0)


@st.composite
def case(draw):
    depth = draw(st.integers(1, 3))
    twice = draw(st.booleans())
    return dict(
        algo=draw(st.sampled_from(['single', 'single', 'fpn'])),
        depth=depth, twice=twice, ch=draw(st.sampled_from([2, 4])),
        n=draw(st.integers(2, 4)), steps=draw(st.integers(1, 3)),
        items=draw(st.lists(item(depth, twice), min_size=1, max_size=3)),
        s_in=draw(st.booleans()), t_in=draw(st.booleans()),
        mix=draw(st.sampled_from(['no', 'own', 'deliver'])),
        t_train=draw(st.integers(0, 3)) == 0,
        t_norm_eval=draw(st.booleans()), task=draw(st.booleans()),
        s_train=draw(st.integers(0, 3)) != 0,
        stop=draw(st.sampled_from([None, None, 0, 1])),
        val=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def source(it):
    i = it['i']
    return dict(fc='fc', bn=f'blocks.{i}.bn', conv=f'blocks.{i}.conv',
                block=f'blocks.{i}', neck='neck', stem='stem.1',
                input=f'blocks.{i}', weight='fc.weight')[it['site']]


def mappings(items):
    """The distiller's configuration for the drawn losses."""
    rec, losses, maps, conns = {}, {}, {}, {}
    for k, it in enumerate(items):
        src = source(it)
        typ = dict(input='ModuleInputs', weight='Parameter').get(
            it['site'], 'ModuleOutputs')
        name = f'{typ}_{src}'.replace('.', '_')
        rec[name] = dict(type=typ, source=src)
        typ, keys, kw = LOSS[it['kind']]
        lname = f'stat_{k}' if it['stat'] else f'loss_{k}'
        losses[lname] = dict(type=typ, loss_weight=it['w'], **kw)
        maps[lname] = {}
        for key, student in zip(keys, (True, False)):
            m = dict(recorder=name, from_student=student)
            if it['site'] == 'neck':
                m['data_idx'] = it['data']
            if it['site'] == 'input':
                m['data_idx'] = 0
            if it['site'] in ('bn', 'conv', 'block', 'input') and \
                    it['i'] == 0:
                m['record_idx'] = it['call']
            if student and it['conn'] != 'none' and it['site'] in (
                    'bn', 'conv', 'block', 'stem'):
                cname = f'conn_{k}'
                c = dict(type='ConvModuleConnector',
                         in_channel=it['ch'], out_channel=it['ch'],
                         act_cfg=None)
                pool = dict(type='TorchFunctionalConnector',
                            function_name='avg_pool2d',
                            func_args=dict(kernel_size=3, stride=1,
                                           padding=1))
                conns[cname] = c if it['conn'] == 'one' else [c, pool]
                m['connector'] = cname
            maps[lname][key] = m
    return rec, losses, maps, conns


def ref_value(m, tap, model, conns):
    """What the mapping means, read from plain hooks."""
    typ, src = m['recorder'].split('_', 1)
    if typ == 'Parameter':
        x = model.fc.weight
    else:
        path = {s.replace('.', '_'): s for s in tap.rec}[src]
        i, o = tap.rec[path][m.get('record_idx', 0)]
        x = i if typ == 'ModuleInputs' else o
    if m.get('data_idx') is not None:
        x = x[m['data_idx']]
    if m.get('connector'):
        x = conns[m['connector']](x)
    return x


def same(a, b, what, tol=1e-5):
    assert a.shape == b.shape, f'{what}: shape {a.shape} != {b.shape}'
    d = float((a - b).abs().max()) if a.numel() else 0.0
    s = max(1.0, float(b.abs().max())) if b.numel() else 1.0
    assert math.isfinite(d) and d <= tol * s, f'{what} differs by {d}'


def same_model(a, b, what):
    for (n, x), (_, y) in zip(a.state_dict().items(),
                              b.state_dict().items()):
        same(x.double(), y.double(), f'{what} {n}', 2e-5)


def run(c, rec):
    torch.manual_seed(c['seed'])
    for it in c['items']:
        it['ch'] = c['ch']
    mix = c['mix'] != 'no'
    stu = Toy(c['ch'], c['depth'], c['twice'], c['s_in'], mix)
    tea = Toy(c['ch'], c['depth'], c['twice'], c['t_in'], mix)
    rcfg, losses, maps, conns = mappings(c['items'])
    dist = dict(type='ConfigurableDistiller', student_recorders=rcfg,
                teacher_recorders=copy.deepcopy(rcfg), distill_losses=losses,
                loss_forward_mappings=maps, connectors=conns)
    if c['mix'] == 'deliver':
        dist['distill_deliveries'] = dict(d=dict(
            type='FunctionOutputs', max_keep_data=1,
            func_path='pbt_toy_distill.draw'))
    # the reference owns copies made before anything is built
    r_stu = out_of_place(copy.deepcopy(stu)).train()
    r_tea = out_of_place(copy.deepcopy(tea)).train()
    cls = dict(single=SingleTeacherDistill, fpn=FpnTeacherDistill)[c['algo']]
    algo = cls(distiller=copy.deepcopy(dist), teacher=tea, architecture=stu,
               teacher_trainable=c['t_train'],
               teacher_norm_eval=c['t_norm_eval'],
               student_trainable=c['s_train'],
               calculate_student_loss=c['task'])
    algo.init_weights()
    r_stu.load_state_dict(stu.state_dict())
    r_tea.load_state_dict(tea.state_dict())
    r_con = copy.deepcopy(algo.distiller.connectors)
    assert set(r_con) == set(conns)
    for k, v in conns.items():
        got = list(r_con[k]) if isinstance(v, list) else [r_con[k]]
        want = v if isinstance(v, list) else [v]
        assert [type(g).__name__ for g in got] == [w['type'] for w in want], \
            f'connector {k}: {got}'
    r_los = {k: MODELS.build(v) for k, v in losses.items()}
    algo.train()
    if c['t_norm_eval']:
        for m in r_tea.modules():
            if isinstance(m, nn.BatchNorm2d):
                m.eval()
    assert {p.requires_grad for p in tea.parameters()} == {c['t_train']}, \
        'teacher parameters that ask for gradients'
    params = [p for p in algo.parameters() if p.requires_grad]
    opt = OptimWrapper(torch.optim.SGD(params, lr=0.05))
    fpn = c['algo'] == 'fpn'
    r_params = list(r_stu.parameters()) + list(r_con.parameters()) + \
        (list(r_tea.parameters()) if c['t_train'] else [])
    r_opt = torch.optim.SGD(r_params, lr=0.05)
    for k, v in sorted(c.items()):
        if k in ('algo', 'mix', 't_train', 'task', 's_train'):
            rec.tag(f'{k}={v}')
    for step in range(c['steps']):
        stopped = c['stop'] is not None and step >= c['stop']
        algo.distillation_stopped = stopped
        x, y = torch.randn(c['n'], 3, 5, 5), torch.randint(3, (c['n'], ))
        rng = torch.get_rng_state()
        # ---------------------------------------------------- reference
        t_tap, s_tap = Tap(r_tea), Tap(r_stu)
        perms = []
        real = FN.draw

        def note(n):
            perms.append(real(n))
            return perms[-1]

        def replay(n):
            return perms[0]
        FN.draw = note
        exp = {}
        try:
            with torch.set_grad_enabled(c['t_train']):
                if fpn:
                    r_tea.extract_feat(x)
                else:
                    out = r_tea(x, y, mode='loss')
                    if c['t_train']:
                        exp.update({f'teacher.{k}': v
                                    for k, v in out.items()})
            if c['mix'] == 'deliver':
                FN.draw = replay
            with torch.set_grad_enabled(c['task'] or c['s_train']):
                out = r_stu(x, y, mode='loss')
            if c['task']:
                exp.update({f'student.{k}': v for k, v in out.items()})
        finally:
            FN.draw = real
        t_tap.close()
        s_tap.close()
        bad = None
        if not stopped:
            for name, m in maps.items():
                try:
                    args = {}
                    for key, q in m.items():
                        args[key] = ref_value(
                            q, *((s_tap, r_stu) if q['from_student'] else
                                 (t_tap, r_tea)), r_con)
                    exp['distill.' + name] = r_los[name](**args)
                except KeyError:
                    # the head of an FPN teacher does not run
                    bad = name
        total = sum(v.mean() for k, v in exp.items() if 'loss' in k)
        torch.set_rng_state(rng)
        data = dict(inputs=x / 2, data_samples=y)
        if step and not bad and not all(
                float(torch.as_tensor(v).detach().abs().max()) < 1e4
                for v in exp.values()):
            rec.tag('diverged')
            return
        if bad:
            rec.tag('unrecorded')
            try:
                algo.loss(x, y)
            except AssertionError:
                return
            raise AssertionError(f'{bad} used a record that was never made')
        before = copy.deepcopy(tea.state_dict())
        if not (torch.is_tensor(total) and total.requires_grad):
            got = algo.loss(x, y)
            assert set(got) == set(exp), f'{set(got)} != {set(exp)}'
            for k, v in exp.items():
                same(got[k].detach(), v.detach(), k)
                assert not (got[k].requires_grad and 'loss' in k), \
                    f'{k} trains something'
            rec.tag('nothing to train')
            return
        log = algo.train_step(data, opt)
        keys = set(exp) | {'loss'}
        assert set(log) == keys, f'step {step} reports {sorted(log)}, ' \
            f'expected {sorted(keys)}'
        for k, v in exp.items():
            same(torch.as_tensor(log[k]).detach(), v.mean().detach(),
                 f'step {step}: {k}')
        same(torch.as_tensor(log['loss']).detach(), total.detach(),
             f'step {step}: total loss')
        r_opt.zero_grad()
        total.backward()
        r_opt.step()
        same_model(stu, r_stu, f'step {step}: student')
        same_model(tea, r_tea, f'step {step}: teacher')
        same_model(algo.distiller.connectors, r_con,
                   f'step {step}: connector')
        if not c['t_train']:
            for n, v in tea.named_parameters():
                assert v.grad is None and torch.equal(v, before[n]), \
                    f'the frozen teacher learned {n}'
            if c['t_norm_eval']:
                for n, v in tea.state_dict().items():
                    assert torch.equal(v, before[n]), \
                        f'step {step}: teacher buffer {n} moved'
        if c['val']:
            algo.eval()
            with torch.no_grad():
                a = algo.val_step(dict(inputs=x, data_samples=y))
                r_stu.eval()
                s = torch.get_rng_state()
                if not mix:
                    same(a, r_stu(x), 'prediction')
                torch.set_rng_state(s)
                r_stu.train()
            algo.train()
    assert algo.architecture is stu and FN.draw is real
    if (len(maps) > 1 or c['steps'] > 1) and not c['stop'] == 0:
        rec.hit()


# ------------------------------------------------------------ self distill
@st.composite
def self_case(draw):
    return dict(depth=draw(st.integers(2, 3)), steps=draw(st.integers(1, 3)),
                n=draw(st.integers(2, 4)), task=draw(st.booleans()),
                kind=draw(st.sampled_from(['l2', 'l1', 'at'])),
                conn=draw(st.booleans()),
                src=draw(st.integers(0, 2)), inplace=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)))


def run_self(c, rec):
    torch.manual_seed(c['seed'])
    stu = Toy(4, c['depth'], False, c['inplace'])
    r_stu = out_of_place(copy.deepcopy(stu))
    i, last = c['src'] % (c['depth'] - 1), c['depth'] - 1
    typ, keys, kw = LOSS[c['kind']]
    losses = dict(loss_f=dict(type=typ, loss_weight=2.0, **kw))
    maps = dict(loss_f={
        keys[0]: dict(recorder='s', from_student=True),
        keys[1]: dict(recorder='t', from_student=False)})
    conns = {}
    if c['conn']:
        conns = dict(cn=dict(type='ConvModuleConnector', in_channel=4,
                             out_channel=4, act_cfg=None))
        maps['loss_f'][keys[0]]['connector'] = 'cn'
    algo = SelfDistill(
        architecture=stu, calculate_student_loss=c['task'],
        distiller=dict(
            type='BYOTDistiller',
            student_recorders=dict(
                s=dict(type='ModuleOutputs', source=f'blocks.{i}')),
            teacher_recorders=dict(
                t=dict(type='ModuleOutputs', source=f'blocks.{last}')),
            connectors=conns, distill_losses=losses,
            loss_forward_mappings=maps))
    algo.init_weights()
    r_stu.load_state_dict(stu.state_dict())
    r_con = copy.deepcopy(algo.distiller.connectors)
    algo.train()
    r_stu.train()
    opt = OptimWrapper(torch.optim.SGD(algo.parameters(), lr=0.05))
    r_opt = torch.optim.SGD(
        list(r_stu.parameters()) + list(r_con.parameters()), lr=0.05)
    los = MODELS.build(losses['loss_f'])
    for step in range(c['steps']):
        x, y = torch.randn(c['n'], 3, 5, 5), torch.randint(3, (c['n'], ))
        tap = Tap(r_stu)
        out = r_stu(x, y, mode='loss')
        tap.close()
        a = tap.rec[f'blocks.{i}'][0][1]
        b = tap.rec[f'blocks.{last}'][0][1].detach()
        if c['conn']:
            a = r_con['cn'](a)
        d = los(a, b)
        total = d + (out['loss'] if c['task'] else 0)
        if step and not float(total.detach()) < 1e4:
            return rec.tag('diverged')
        log = algo.train_step(dict(inputs=x / 2, data_samples=y),
                              opt)
        assert ('student.loss' in log) == c['task']
        same(torch.as_tensor(log['distill.loss_f']).detach(), d.detach(),
             'self distillation loss')
        r_opt.zero_grad()
        total.backward()
        r_opt.step()
        same_model(stu, r_stu, f'step {step}: student')
        same_model(algo.distiller.connectors, r_con, 'connector')
    if c['steps'] > 1:
        rec.hit()


# --------------------------------------------------------------- data free
class Gen(nn.Module):

    def __init__(self, dim):
        super().__init__()
        self.latent_dim = dim
        self.fc = nn.Linear(dim, 3 * 4 * 4)
        self.bn = nn.BatchNorm2d(3)

    def forward(self, data=None, batch_size=1):
        return self.bn(self.fc(data).view(-1, 3, 4, 4))


class Wrapped(nn.Module):

    def __init__(self, dim):
        super().__init__()
        self.module = Gen(dim)

    def forward(self, *a, **k):
        return self.module(*a, **k)


for _n, _c in (('PbtGen', Gen), ('PbtWrappedGen', Wrapped),
               ('PbtDistillToy', Toy)):
    MODELS.register_module(name=_n, module=_c, force=True)


@st.composite
def free_case(draw):
    return dict(dafl=draw(st.booleans()), iters=draw(st.integers(1, 3)),
                first=draw(st.booleans()), steps=draw(st.integers(1, 3)),
                n=draw(st.integers(2, 4)), wrapped=draw(st.booleans()),
                teachers=draw(st.integers(1, 2)),
                w=draw(st.sampled_from([-2.0, 1.0])),
                onehot=draw(st.booleans()), adam=draw(st.booleans()),
                mom=draw(st.sampled_from([0.0, 0.9])),
                seed=draw(st.integers(0, 10**6)))


def run_free(c, rec):
    torch.manual_seed(c['seed'])
    tr = {f't{i}_fc': dict(type='ModuleOutputs', source=f't{i}.fc')
          for i in range(c['teachers'])}
    sr = dict(fc=dict(type='ModuleOutputs', source='fc'))
    losses, maps = {}, {}
    for i in range(c['teachers']):
        losses[f'loss_{i}'] = dict(type='KLDivergence', tau=2.0)
        maps[f'loss_{i}'] = dict(
            preds_S=dict(recorder='fc', from_student=True),
            preds_T=dict(recorder=f't{i}_fc', from_student=False))
    gl = dict(loss_g=dict(type='KLDivergence', loss_weight=c['w'],
                          teacher_detach=False))
    gm = dict(loss_g=dict(
        preds_S=dict(recorder='fc', from_student=True),
        preds_T=dict(recorder='t0_fc', from_student=False)))
    if c['onehot']:
        gl['loss_h'] = dict(type='OnehotLikeLoss', loss_weight=0.5)
        gm['loss_h'] = dict(preds_T=dict(recorder='t0_fc',
                                         from_student=False))
    cls = DAFLDataFreeDistillation if c['dafl'] else DataFreeDistillation
    kw = {} if c['dafl'] else dict(student_iter=c['iters'],
                                   student_train_first=c['first'])
    algo = cls(
        architecture=dict(type='mmrazor.PbtDistillToy', depth=1),
        teachers={f't{i}': dict(build_cfg=dict(
            type='mmrazor.PbtDistillToy', depth=1))
            for i in range(c['teachers'])},
        generator=dict(type='mmrazor.PbtWrappedGen' if c['wrapped'] else
                       'mmrazor.PbtGen', dim=5),
        distiller=dict(type='ConfigurableDistiller', student_recorders=sr,
                       teacher_recorders=tr, distill_losses=losses,
                       loss_forward_mappings=maps),
        generator_distiller=dict(
            type='ConfigurableDistiller', student_recorders=sr,
            teacher_recorders=tr, distill_losses=gl,
            loss_forward_mappings=gm), **kw)
    stu, gen, teas = algo.student, algo.generator, algo.teachers
    r_stu, r_gen = copy.deepcopy(stu), copy.deepcopy(gen)
    r_tea = [copy.deepcopy(t).eval() for t in teas.values()]
    frozen = copy.deepcopy(teas.state_dict())
    algo.train()

    def opt(m):
        return torch.optim.Adam(m.parameters(), lr=0.01) if c['adam'] else \
            torch.optim.SGD(m.parameters(), lr=0.05, momentum=c['mom'])
    ow = dict(architecture=OptimWrapper(opt(stu)),
              generator=OptimWrapper(opt(gen)))
    so, go = opt(r_stu), opt(r_gen)

    def kl(s, t, tau, w):
        p = F.softmax(t / tau, 1)
        return w * tau**2 * (p * (p.log() - F.log_softmax(s / tau, 1))
                             ).sum() / len(s)

    def gen_loss(img):
        s, t = r_stu(img, mode='logits'), [x(img, mode='logits')
                                           for x in r_tea]
        out = kl(s, t[0], 1.0, c['w'])
        if c['onehot']:
            out = out + 0.5 * F.cross_entropy(t[0], t[0].argmax(1).detach())
        return out

    def stu_loss(img):
        s = r_stu(img, mode='logits')
        with torch.no_grad():
            t = [x(img, mode='logits') for x in r_tea]
        return sum(kl(s, x, 2.0, 1.0) for x in t)

    def image():
        return r_gen(torch.randn(c['n'], 5), c['n'])

    def step(loss, o, ps):
        gs = torch.autograd.grad(loss, ps)
        for p, g in zip(ps, gs):
            p.grad = g
        o.step()
        o.zero_grad()

    def do_gen():
        x = gen_loss(image())
        step(x, go, list(r_gen.parameters()))
        return x

    def do_stu():
        x = None
        for _ in range(c['iters']):
            x = stu_loss(image().detach())
            step(x, so, list(r_stu.parameters()))
        return x
    for k in range(c['steps']):
        y = torch.randint(3, (c['n'], ))
        data = dict(inputs=torch.zeros(c['n'], 3, 4, 4), data_samples=y)
        rng = torch.get_rng_state()
        if c['dafl']:
            img = image()
            g = gen_loss(img)
            s = stu_loss(img.detach())
            sg = torch.autograd.grad(s, list(r_stu.parameters()))
            step(g, go, list(r_gen.parameters()))
            for p, q in zip(r_stu.parameters(), sg):
                p.grad = q
            so.step()
            so.zero_grad()
        elif c['first']:
            s, g = do_stu(), do_gen()
        else:
            g, s = do_gen(), do_stu()
        torch.set_rng_state(rng)
        log = algo.train_step(data, ow)
        same(torch.as_tensor(log['generator.loss']).detach(), g.detach(),
             f'step {k}: generator loss')
        same(torch.as_tensor(log['distill.loss']).detach(), s.detach(),
             f'step {k}: student loss')
        same_model(stu, r_stu, f'step {k}: student')
        same_model(gen, r_gen, f'step {k}: generator')
        for n, v in teas.state_dict().items():
            assert torch.equal(v, frozen[n]), f'teacher {n} moved'
    rec.tag('dafl' if c['dafl'] else 'dfad')
    if c['steps'] > 1:
        rec.hit()


# -------------------------------------------------------------------- OFD
@st.composite
def ofd_case(draw):
    return dict(stats=draw(st.lists(st.tuples(
        st.sampled_from([-2.0, -1.0, -0.3, 0.4, 1.0, 2.5]),
        st.sampled_from([-3.0, -0.5, 0.0, 0.7, 2.0, 9.0])),
        min_size=4, max_size=4)), n=draw(st.integers(2, 3)),
        i=draw(st.integers(0, 1)), seed=draw(st.integers(0, 10**6)))


def neg_mean(s, m):
    """E[x | x < 0] of a normal variable, by quadrature."""
    lo = min(0.0, m - 12 * s)
    n = 20000
    h = (0.0 - lo) / n
    a = b = 0.0
    for k in range(n):
        x = lo + (k + 0.5) * h
        p = math.exp(-((x - m) / s)**2 / 2)
        a, b = a + p * x, b + p
    return a / b


def run_ofd(c, rec):
    torch.manual_seed(c['seed'])
    tea, stu = Toy(4, 2), Toy(4, 2)
    src = f'blocks.{c["i"]}.bn'
    bn = tea.blocks[c['i']].bn
    with torch.no_grad():
        bn.weight.copy_(torch.tensor([s for s, _ in c['stats']]))
        bn.bias.copy_(torch.tensor([m for _, m in c['stats']]))
    algo = OverhaulFeatureDistillation(
        architecture=stu, teacher=tea, distiller=dict(
            type='OFDDistiller',
            student_recorders=dict(f=dict(type='ModuleOutputs', source=src)),
            teacher_recorders=dict(f=dict(type='ModuleOutputs', source=src)),
            distill_losses=dict(loss_o=dict(
                type='OFDLoss', loss_weight=2.0, mul_factor=10.)),
            connectors=dict(t=dict(type='OFDTeacherConnector')),
            loss_forward_mappings=dict(loss_o=dict(
                s_feature=dict(recorder='f', from_student=True),
                t_feature=dict(recorder='f', from_student=False,
                               connector='t')))))
    margin = algo.distiller.connectors['t'].margin.flatten()
    exp = []
    for s, m in c['stats']:
        s = abs(s)
        p = 0.5 * math.erfc(m / s / math.sqrt(2))
        exp.append(neg_mean(s, m) if p > 0.001 else -3 * s)
    for a, b, q in zip(margin.tolist(), exp, c['stats']):
        assert abs(a - b) <= 2e-3 * max(1, abs(b)), \
            f'margin of a BN with (weight, bias) {q} is {a}, expected {b}'
    algo.train()
    x, y = torch.randn(c['n'], 3, 5, 5), torch.randint(3, (c['n'], ))
    a, b = Tap(stu), Tap(tea)
    got = algo.loss(x, y)
    a.close(), b.close()
    s, t = a.rec[src][0][1], b.rec[src][0][1]
    t = torch.maximum(t, torch.tensor(exp, dtype=t.dtype).view(1, -1, 1, 1))
    keep = (s > t) | (t > 0)
    val = 2.0 * ((s - t)**2)[keep].sum() / c['n'] / 10
    same(got['distill.loss_o'].detach(), val.detach(), 'OFD loss', 5e-3)
    rec.hit()


SUBS = [
    Sub('teacher', case(), run, 500),
    Sub('self', self_case(), run_self, 60),
    Sub('datafree', free_case(), run_free, 120),
    Sub('overhaul', ofd_case(), run_ofd, 40),
]
