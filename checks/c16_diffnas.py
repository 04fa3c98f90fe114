"""C16: differentiable search: mixed forward passes, DARTS and DSNAS steps."""
import copy

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmengine.logging import MessageHub
from mmengine.model import BaseDataPreprocessor, BaseModel
from mmengine.optim import OptimWrapper, OptimWrapperDict

from mmrazor.models import DSNAS, DSNASDDP, Darts, DartsDDP, NasMutator
from mmrazor.models.mutables import (DiffChoiceRoute, DiffMutableOP,
                                     OneHotMutableOP)
from mmrazor.models.mutables.mutable_module.diff_mutable_module import \
    GumbelChoiceRoute
from mmrazor.registry import MODELS
from mmrazor.structures import export_fix_subnet, load_fix_subnet
from pbt.core import Sub
from pbt.ddp import ranks, wrapped

PID = 'C16'
RULE = ('at least two candidates compete and the arch params are not uniform; '
        'for training steps, both kinds of parameters move')
ASSUMPTIONS = [
    'the architecture optimizer is SGD with one parameter group (the virtual '
    'step of DARTS is defined for it)',
    'every weight takes part in the loss',
    'the search groups of DSNAS hold one mutable each',
]


@MODELS.register_module(force=True)
class PbtConvOp(nn.Module):

    def __init__(self, ch, k, bias=True):
        super().__init__()
        self.conv = nn.Conv2d(ch, ch, k, padding=k // 2, bias=bias)

    def forward(self, x):
        return torch.tanh(self.conv(x))


@MODELS.register_module(force=True)
class PbtScaleOp(nn.Module):

    def __init__(self, ch, f=1.0):
        super().__init__()
        self.f = f

    def forward(self, x):
        return F.avg_pool2d(x, 3, 1, 1) * self.f


CANDS = {
    'c1': dict(type='PbtConvOp', k=1),
    'c3': dict(type='PbtConvOp', k=3),
    'c5': dict(type='PbtConvOp', k=5, bias=False),
    'avg': dict(type='PbtScaleOp'),
    'avgh': dict(type='PbtScaleOp', f=0.5),
}


def cand_cfg(names):
    return {n: dict(CANDS[n]) for n in names}


class Supernet(BaseModel):

    def __init__(self, items, ch=3, classes=3, onehot=False, thr=1.0):
        super().__init__()
        self.stem = nn.Conv2d(3, ch, 1)
        self.items = items
        self.layers = nn.ModuleList()
        for it in items:
            if it['kind'] == 'op':
                cls = OneHotMutableOP if onehot else DiffMutableOP
                self.layers.append(
                    cls(cand_cfg(it['cands']), module_kwargs=dict(ch=ch),
                        alias=it['alias'], fix_threshold=thr))
            else:
                edges = nn.ModuleDict({
                    f'e{j}': PbtConvOp(ch, 1 if j % 2 else 3)
                    for j in range(it['edges'])
                })
                self.layers.append(
                    DiffChoiceRoute(
                        edges, num_chosen=it['num'], with_arch_param=True,
                        alias=it['alias']))
        self.bn = nn.BatchNorm2d(ch)
        self.bn_float = False
        self.fc = nn.Linear(ch, classes)

    def inputs_of(self, i, feats):
        if self.items[i]['kind'] == 'op':
            return feats[-1]
        n = self.items[i]['edges']
        return [feats[(len(feats) - 1 - j) % len(feats)] for j in range(n)]

    def features(self, x, call):
        feats = [torch.tanh(self.stem(x))]
        for i, layer in enumerate(self.layers):
            feats.append(call(i, layer, self.inputs_of(i, feats)))
        z = feats[-1]
        if self.bn_float:  # DartsDDP runs the norms in single precision
            z = z.float()
        return self.fc(self.bn(z).to(feats[-1].dtype).mean([2, 3]))

    def loss_of(self, x, y, call):
        return F.cross_entropy(self.features(x, call), y)

    def forward(self, inputs, data_samples=None, mode='tensor'):

        def call(i, layer, x):
            return layer(x)

        if mode == 'loss':
            return dict(loss=self.loss_of(inputs, data_samples, call))
        return self.features(inputs, call)


class Keep(BaseDataPreprocessor):

    def forward(self, data, training=False):
        return data


def mixed(layer, x, probs):
    """Plain mixture of the candidates."""
    mods = list(layer._candidates.values())
    xs = x if isinstance(x, list) else [x] * len(mods)
    return sum(p * m(v) for p, m, v in zip(probs, mods, xs))


def close(a, b, what, tol=1e-9):
    a, b = a.detach(), b.detach()
    assert a.shape == b.shape, f'{what}: {tuple(a.shape)} {tuple(b.shape)}'
    err = (a - b).abs().max().item() if a.numel() else 0
    lim = tol * (1 + b.abs().max().item()) if b.numel() else 0
    assert err <= lim, f'{what}: off by {err:.3g}'


def batch(n, seed):
    g = torch.Generator().manual_seed(seed)
    return dict(
        inputs=torch.randn(n, 3, 4, 4, generator=g, dtype=torch.double),
        data_samples=torch.randint(3, (n, ), generator=g))


# ---------------------------------------------------------------- modules


@st.composite
def module_case(draw):
    kind = draw(st.sampled_from(['op', 'onehot', 'route', 'gumbel']))
    c = dict(kind=kind, seed=draw(st.integers(0, 10**6)),
             spread=draw(st.sampled_from([0.0, 0.5, 2.0, 8.0, 60.0])),
             n=draw(st.integers(1, 3)))
    if kind in ('op', 'onehot'):
        c['cands'] = draw(st.lists(st.sampled_from(sorted(CANDS)), min_size=1,
                                   max_size=5, unique=True))
        c['thr'] = draw(st.sampled_from([1.0, 1.0, 0.9, 0.3, 0.0]))
    else:
        c['edges'] = draw(st.integers(1, 5))
        c['num'] = draw(st.integers(1, 3)) if kind == 'route' else 2
        c['tau'] = draw(st.sampled_from([0.3, 1.0, 5.0]))
        c['hard'] = draw(st.booleans())
        c['with_param'] = draw(st.integers(0, 4)) > 0
    c['via'] = draw(st.sampled_from(['partial', 'arg', 'none']))
    c['steps'] = draw(st.integers(1, 3))
    c['fix'] = draw(st.sampled_from(['argmax', 'other']))
    return c


def build(c):
    if c['kind'] == 'op':
        m = DiffMutableOP(cand_cfg(c['cands']), module_kwargs=dict(ch=2))
    elif c['kind'] == 'onehot':
        m = OneHotMutableOP(cand_cfg(c['cands']), module_kwargs=dict(ch=2),
                            fix_threshold=c['thr'])
    else:
        edges = nn.ModuleDict(
            {f'e{j}': PbtConvOp(2, 1 + 2 * (j % 2)) for j in range(c['edges'])})
        if c['kind'] == 'route':
            m = DiffChoiceRoute(edges, num_chosen=c['num'],
                                with_arch_param=c['with_param'])
        else:
            m = GumbelChoiceRoute(edges, tau=c['tau'], hard=c['hard'],
                                  with_arch_param=c['with_param'])
    return m.double()


def run_module(c, rec):
    torch.manual_seed(c['seed'])
    m = build(c)
    if c['kind'] == 'gumbel' and c['n'] == 2:
        c_tau = c['tau'] * 2
        m.set_temperature(c_tau)
    else:
        c_tau = c.get('tau')
    ref = copy.deepcopy(m)
    names = list(m.choices)
    k = len(names)
    alpha = nn.Parameter(torch.randn(k, dtype=torch.double) * c['spread'])
    route = c['kind'] in ('route', 'gumbel')
    if c['via'] == 'partial':
        m.set_forward_args(arch_param=alpha)
    fixed = None
    for step in range(c['steps']):
        if route:
            x = [torch.randn(c['n'], 2, 4, 4, dtype=torch.double)
                 for _ in range(k)]
        else:
            x = torch.randn(c['n'], 2, 4, 4, dtype=torch.double)
        state = torch.get_rng_state()
        args = (alpha, ) if c['via'] == 'arg' else ()
        if c['via'] == 'none':
            out = m(x)
        else:
            out = m(x, *args)
        used = c['via'] != 'none' and c.get('with_param', True)
        if fixed is not None:
            exp = ref._candidates[fixed](x)
        elif not used:
            exp = mixed(ref, x, [1.0] * k)
        elif c['kind'] in ('op', 'route'):
            exp = mixed(ref, x, F.softmax(alpha, -1))
        elif c['kind'] == 'gumbel':
            torch.set_rng_state(state)
            p = F.gumbel_softmax(alpha, tau=c_tau, hard=c['hard'], dim=-1)
            exp = mixed(ref, x, p)
            if c['hard']:
                close(p.sum(), torch.ones((), dtype=torch.double), 'one-hot')
        else:
            p = F.softmax(alpha, -1).detach()
            top = p.sort(descending=True).values.tolist() + [0.0]
            if top[0] - top[1] >= c['thr']:
                fixed = m.choices[0]
                assert p[names.index(fixed)] == p.max()
                rec.tag('threshold')
                assert m.is_fixed, 'the op is not fixed'
                assert m.choices == [fixed], m.choices
            else:
                assert not m.is_fixed
            w = m.arch_weights
            assert w.shape == (k, ) and w.requires_grad
            assert sorted(w.tolist()) == [0.0] * (k - 1) + [1.0], w
            i = int(w.argmax())
            assert fixed in (None, names[i]), (fixed, names[i])
            assert p[i] > 0
            exp = ref._candidates[names[i]](x)
            out.sum().backward()
            close(w.grad[i], exp.sum(), 'gradient of the sampled weight')
        close(out, exp, f'{c["kind"]} output')
        if k > 1 and c['spread'] and used:
            rec.hit()
        if c['kind'] in ('op', 'route') and used:
            g, = torch.autograd.grad(out.square().sum(), alpha)
            h, = torch.autograd.grad(exp.square().sum(), alpha)
            close(g, h, 'gradient of the arch param')
    order = alpha.detach().sort(descending=True, stable=True).indices.tolist()
    if fixed is not None:
        got = m.sample_choice(alpha)
        assert got == fixed
    elif c['spread'] or k == 1:
        got = m.sample_choice(alpha)
        if c['kind'] in ('op', 'onehot'):
            assert got == (fixed or names[order[0]]), (got, names, alpha)
        else:
            assert got == [names[i] for i in order[:c.get('num', 2)]], got
    else:
        got = names[-1] if c['kind'] in ('op', 'onehot') else names[-1:]
    if fixed is None:
        if c['fix'] == 'other':
            got = names[-1] if c['kind'] in ('op', 'onehot') else names[::-1][
                :2]
        m.current_choice = got
        dump = m.dump_chosen()
        assert dump.chosen == got and dump.meta['all_choices'] == names
        m.fix_chosen(dump.chosen)
    else:
        m.current_choice = got
        assert m.dump_chosen().chosen == fixed
    keep = [got] if isinstance(got, str) else list(got)
    assert m.is_fixed and sorted(m.choices) == sorted(keep)
    with torch.no_grad():
        if route:
            exp = sum(ref._candidates[n](x[names.index(n)]) for n in keep)
        else:
            exp = sum(ref._candidates[n](x) for n in keep)
        close(m(x), exp, 'fixed output')
        if c['via'] == 'arg':
            close(m(x, alpha), exp, 'fixed output')
    try:
        m.fix_chosen(got)
    except AttributeError:
        pass
    else:
        raise AssertionError('fixed twice')


# ------------------------------------------------------------------ darts


@st.composite
def items_st(draw, routes=True, alias=True):
    items = []
    for i in range(draw(st.integers(1, 3))):
        al = draw(st.sampled_from([None, None, 'a', 'b'])) if alias else None
        kind = 'op' if not routes else draw(
            st.sampled_from(['op', 'op', 'route']))
        if kind == 'op':
            it = dict(kind='op', alias=al and al + 'op' + str(0), cands=draw(
                st.lists(st.sampled_from(sorted(CANDS)), min_size=2,
                         max_size=4, unique=True)))
        else:
            it = dict(kind='route', alias=al and al + 'rt',
                      edges=draw(st.integers(2, 3)),
                      num=draw(st.integers(1, 2)))
        for o in items:  # a group shares its space
            if it['alias'] and o['alias'] == it['alias']:
                it = dict(o)
        items.append(it)
    return items


@st.composite
def darts_case(draw):
    return dict(
        items=draw(items_st()), seed=draw(st.integers(0, 10**6)),
        unroll=draw(st.booleans()), steps=draw(st.integers(1, 3)),
        lr=draw(st.sampled_from([0.5, 0.1, 0.02])),
        momentum=draw(st.sampled_from([0.0, 0.9])),
        wd=draw(st.sampled_from([0.0, 1e-2])),
        arch=draw(st.sampled_from(['sgd', 'adam'])),
        spread=draw(st.sampled_from([0.0, 1.0])),
        n=draw(st.integers(2, 4)), acc=draw(st.sampled_from([1, 1, 2])),
        group=draw(st.booleans()), plain=draw(st.integers(0, 5)) == 0,
        ddp=draw(st.booleans()))


def arch_optim(c, params):
    if c['arch'] == 'sgd':
        return torch.optim.SGD(params, lr=0.3, momentum=0.5)
    return torch.optim.Adam(params, lr=0.05, betas=(0.5, 0.999))


def group_of(mutator, layer):
    for k, v in mutator.search_groups.items():
        if any(layer is m for m in v):
            return k
    raise AssertionError('a mutable without a search group')


def custom_groups(c):
    """Group the first two ops if they have the same space."""
    ops = [(i, it) for i, it in enumerate(c['items'])
           if it['kind'] == 'op' and not it['alias']]
    for a in range(len(ops)):
        for b in range(a + 1, len(ops)):
            if ops[a][1]['cands'] == ops[b][1]['cands']:
                return [[f'layers.{ops[a][0]}', f'layers.{ops[b][0]}']]
    return [[f'layers.{ops[-1][0]}']] if ops else []


def run_darts(c, rec, rank=0, world=1):
    torch.manual_seed(c['seed'])
    if c['group'] and c['items'][0]['alias'] is None and len(c['items']) > 1:
        c = dict(c, items=[c['items'][0]] + [
            dict(c['items'][0]) if it['alias'] is None else it
            for it in c['items'][1:]])
    net = Supernet(c['items']).double()
    if c['ddp']:
        net.bn.float()
    ref = copy.deepcopy(net)
    ref.bn_float = c['ddp']
    mut = NasMutator(custom_groups(c) if c['group'] else None)
    algo = Darts(net, mut, unroll=c['unroll'], data_preprocessor=Keep())
    algo.double()
    runner = algo
    loose = 1e-8
    if c['ddp']:
        net.bn.float()
        runner = wrapped(DartsDDP, algo)
        rec.tag('ddp')
        loose = 1e-5
    keys = [group_of(mut, layer) for layer in net.layers]
    for i, a in enumerate(c['items']):
        for j, b in enumerate(c['items']):
            if a['alias'] and a['alias'] == b['alias']:
                assert keys[i] == keys[j], 'an alias names one group'
    assert set(mut.arch_params) == set(keys)
    with torch.no_grad():
        for v in mut.arch_params.values():
            v.add_(torch.randn_like(v) * c['spread'])
    alphas = {k: v.detach().clone().requires_grad_()
              for k, v in mut.arch_params.items()}

    def call(i, layer, x):
        return mixed(layer, x, F.softmax(alphas[keys[i]], -1))

    def loss(seed):
        # of all the processes together
        parts = []
        for r in range(world):
            data = batch(c['n'], seed + 10**4 * r)
            parts.append(ref.loss_of(data['inputs'], data['data_samples'],
                                     call))
        mine[0] = parts[rank]
        return sum(parts) / world

    mine = [None]
    sgd = dict(lr=c['lr'], momentum=c['momentum'], weight_decay=c['wd'])
    acc = 1 if c['unroll'] else c['acc']
    wrap = OptimWrapperDict(
        architecture=OptimWrapper(
            torch.optim.SGD(algo.architecture.parameters(), **sgd),
            accumulative_counts=acc),
        mutator=OptimWrapper(arch_optim(c, algo.mutator.parameters()),
                             accumulative_counts=acc))
    ws = list(ref.parameters())
    al = list(alphas.values())
    wopt, aopt = torch.optim.SGD(ws, **sgd), arch_optim(c, al)
    runner.train()
    ref.train()
    gw = [torch.zeros_like(w) for w in ws]
    ga = [torch.zeros_like(a) for a in al]
    if c['plain']:
        d = batch(c['n'], c['seed'] + 77 + 10**4 * rank)
        opt = OptimWrapper(torch.optim.SGD(algo.parameters(), lr=0.1))
        logs = runner.train_step(d, opt)
        value = loss(c['seed'] + 77)
        close(logs['loss'], mine[0], 'plain loss', loose)
        gs = torch.autograd.grad(value, ws + al)
        with torch.no_grad():
            for p, g in zip(ws + al, gs):
                p.sub_(0.1 * g)
        rec.tag('plain')
    steps = c['steps'] * acc
    for s in range(steps):
        train, val = c['seed'] + 2 * s, c['seed'] + 2 * s + 1
        logs = runner.train_step([
            batch(c['n'], train + 10**4 * rank),
            batch(c['n'], val + 10**4 * rank)], wrap)
        # the reference
        if c['unroll']:
            with torch.no_grad():
                back = [w.clone() for w in ws]
            g = torch.autograd.grad(loss(train), ws)
            with torch.no_grad():
                for w, d in zip(ws, g):
                    m = wopt.state[w].get('momentum_buffer')
                    m = 0 if m is None else m
                    w.sub_(c['lr'] * (c['momentum'] * m + d + c['wd'] * w))
            value = loss(val)
            shown = mine[0]
            both = torch.autograd.grad(value, ws + al)
            dw, da = both[:len(ws)], both[len(ws):]
            norm = torch.cat([d.flatten() for d in dw]).norm()
            if norm < 1e-6:
                rec.reject()
            eps = 0.01 / norm
            hs = []
            for sign in (1, -1):
                with torch.no_grad():
                    for w, b, d in zip(ws, back, dw):
                        w.copy_(b + sign * eps * d)
                hs.append(torch.autograd.grad(loss(train), al))
            with torch.no_grad():
                for w, b in zip(ws, back):
                    w.copy_(b)
            g = [d - c['lr'] * (p - n) / (2 * eps)
                 for d, p, n in zip(da, *hs)]
        else:
            value = loss(val)
            shown = mine[0]
            g = torch.autograd.grad(value, al)
        close(logs['mutator.loss'], shown, 'mutator loss', loose)
        ga = [a + b / acc for a, b in zip(ga, g)]
        if (s + 1) % acc == 0:
            for a, d in zip(al, ga):
                a.grad = d
            aopt.step()
            ga = [torch.zeros_like(a) for a in al]
        value = loss(train)
        close(logs['supernet.loss'], mine[0], 'supernet loss', loose)
        gw = [a + b / acc
              for a, b in zip(gw, torch.autograd.grad(value, ws))]
        if (s + 1) % acc == 0:
            for w, d in zip(ws, gw):
                w.grad = d
            wopt.step()
            gw = [torch.zeros_like(w) for w in ws]
        for (k, a), b in zip(mut.arch_params.items(), al):
            close(a, b, f'{k} after step {s}', 200 * loose if c['unroll'] else loose)
        for (k, a), b in zip(net.named_parameters(), ws):
            close(a, b, f'{k} after step {s}', 200 * loose if c['unroll'] else loose)
        with torch.no_grad():  # do not let rounding accumulate
            for a, b in zip(mut.arch_params.values(), al):
                b.copy_(a)
            for a, b in zip(net.parameters(), ws):
                b.copy_(a)
    rec.hit()
    rec.tag('unroll' if c['unroll'] else 'first order')
    # the searched subnet
    choice = mut.sample_choices()
    mut.set_choices(choice)
    sub, _ = export_fix_subnet(algo.architecture)
    fresh = Supernet(c['items']).double()
    fresh.load_state_dict(net.state_dict(), strict=False)
    load_fix_subnet(fresh, sub)
    for i, layer in enumerate(fresh.layers):
        a = alphas[keys[i]].detach()
        if c['items'][i]['kind'] == 'op':
            exp = [layer_names(c, i)[int(a.argmax())]]
        else:
            order = a.sort(descending=True).indices.tolist()
            exp = [layer_names(c, i)[j] for j in order[:c['items'][i]['num']]]
        assert sorted(layer.choices) == sorted(exp), (layer.choices, exp)
    fresh.eval()
    fresh(batch(c['n'], val)['inputs'])


def layer_names(c, i):
    it = c['items'][i]
    return it['cands'] if it['kind'] == 'op' else [
        f'e{j}' for j in range(it['edges'])]


class Quiet:

    def __init__(self):
        self.no = False

    def tag(self, t):
        pass

    def hit(self, v=True):
        pass

    def reject(self):
        self.no = True
        raise StopIteration


def darts_rank(rank, c):
    rec = Quiet()
    try:
        run_darts(c, rec, rank, 2)
    except StopIteration:
        pass
    return rec.no


def run_darts_ranks(c, rec):
    c = dict(c, ddp=True)
    if any(ranks(2, darts_rank, c)):
        rec.reject()
    rec.hit()
    rec.tag('unroll' if c['unroll'] else 'first order')


# ------------------------------------------------------------------ dsnas


@st.composite
def dsnas_case(draw):
    items = draw(items_st(routes=False, alias=False))
    for i, it in enumerate(items):
        it['alias'] = draw(st.sampled_from([None, f'x{i}']))
    pre = draw(st.integers(0, 1))
    return dict(
        items=items, seed=draw(st.integers(0, 10**6)), pre=pre,
        fine=draw(st.integers(pre + 1, 3)),
        epochs=draw(st.lists(st.integers(0, 5), min_size=1, max_size=5)),
        thr=draw(st.sampled_from([1.0, 1.0, 0.6, 0.3])),
        spread=draw(st.sampled_from([0.0, 1.0, 2.0])),
        flops=draw(st.booleans()), momentum=draw(st.sampled_from([0., 0.9])),
        arch=draw(st.sampled_from(['sgd', 'adam'])), n=draw(st.integers(1, 3)),
        group=draw(st.booleans()), stale=draw(st.booleans()),
        ddp=draw(st.booleans()))


def run_dsnas(c, rec):
    torch.manual_seed(c['seed'])
    if min(c['epochs']) < c['pre']:  # nothing competes in the pretraining
        c = dict(c, thr=1.0)
    net = Supernet(c['items'], onehot=True, thr=c['thr'])
    loose = [f'layers.{i}' for i, it in enumerate(c['items'])
             if not it['alias']]
    mut = NasMutator([[loose[-1]]] if c['group'] and loose else None)
    algo = DSNAS(
        net, mut, pretrain_epochs=c['pre'], finetune_epochs=c['fine'],
        flops_constraints=0.0 if c['flops'] else 1e9,
        estimator_cfg=dict(input_shape=(1, 3, 32, 32)),
        data_preprocessor=Keep())
    algo.double()
    runner = wrapped(DSNASDDP, algo) if c['ddp'] else algo
    ref = Supernet(c['items'], onehot=True).double()
    ref.load_state_dict(net.state_dict())
    keys = [group_of(mut, layer) for layer in net.layers]
    assert len(set(keys)) == len(keys)
    with torch.no_grad():
        for v in mut.arch_params.values():
            v.add_(torch.randn_like(v) * c['spread'])
    names = [it['cands'] for it in c['items']]
    flops = []
    for i, ns in enumerate(names):
        row = []
        for n in ns:
            ks = CANDS[n].get('k')
            row.append(0.0 if ks is None else
                       1024 * (9 * ks * ks + 3 * (n != 'c5')) / 1e6)
            got = algo.mutable_module_resources[f'layers.{i}._candidates.{n}']
            if ks is not None:
                assert abs(got['flops'] - row[-1]) < 1e-3, (n, got, row)
            row[-1] = float(got['flops'])
        flops.append(row)
    lr = 0.1
    wrap = OptimWrapperDict(
        architecture=OptimWrapper(torch.optim.SGD(
            algo.architecture.parameters(), lr=lr, momentum=c['momentum'])),
        mutator=OptimWrapper(arch_optim(c, algo.mutator.parameters())))
    hub = MessageHub.get_current_instance()
    al = {k: v.detach().clone() for k, v in mut.arch_params.items()}
    aopt = arch_optim(c, list(al.values()))
    buf = {}
    fixed = [None] * len(keys)
    algo.train()
    ref.train()
    seen = set()
    for s, epoch in enumerate(sorted(c['epochs'])):
        hub.update_info('epoch', epoch)
        data = batch(c['n'] + 1, c['seed'] + s)
        search = c['pre'] <= epoch < c['fine']
        seen.add('pre' if epoch < c['pre'] else 'search' if search else 'fine')
        logs = runner.train_step(data, wrap)
        probs = {k: F.softmax(v, -1) for k, v in al.items()}
        leaf = {k: v.clone().requires_grad_() for k, v in al.items()}
        # which candidates were used
        ws, stage_fixed = [], list(fixed)
        for i, layer in enumerate(net.layers):
            if epoch >= c['fine'] and fixed[i] is None:
                stage_fixed[i] = fixed[i] = int(al[keys[i]].argmax())
            w = torch.zeros(len(names[i]), dtype=torch.double)
            if fixed[i] is None:
                p = probs[keys[i]].sort(descending=True).values.tolist()
                if p[0] - p[1] >= c['thr']:
                    fixed[i] = int(probs[keys[i]].argmax())
                    rec.tag('threshold')
                    j = fixed[i]
                else:
                    j = int(layer.arch_weights.argmax())
                got = layer.arch_weights.tolist()
                assert got == [float(j == q) for q in range(len(got))], got
            else:
                j = fixed[i]
            if fixed[i] is not None:
                assert layer.is_fixed and layer.choices == [
                    names[i][fixed[i]]], (layer.choices, names[i], fixed[i])
            else:
                assert layer.choices == names[i]
            w[j] = 1.0
            ws.append(w.requires_grad_())
        assert algo.is_supernet == (epoch < c['fine'])

        def call(i, layer, x):
            j = int(ws[i].argmax())
            return ws[i][j] * layer._candidates[names[i][j]](x)

        loss = ref.loss_of(data['inputs'], data['data_samples'], call)
        close(logs['supernet.loss'], loss, 'supernet loss', 1e-8)
        named = dict(ref.named_parameters())
        grads = torch.autograd.grad(loss, list(named.values()) + ws,
                                    allow_unused=True)
        with torch.no_grad():
            for (k, p), g in zip(named.items(), grads):
                if g is None:
                    # SGD leaves a parameter without a gradient alone
                    continue
                buf[k] = g if k not in buf else c['momentum'] * buf[k] + g
                p.sub_(lr * buf[k])
        mine = dict(net.named_parameters())
        for k, p in named.items():
            if k in mine:
                close(mine[k], p, f'{k} at epoch {epoch}', 1e-8)
                with torch.no_grad():
                    p.copy_(mine[k])
        rewards = [g.sum() for g in grads[len(named):]]
        if search:
            arch = fl = 0
            for i, k in enumerate(keys):
                j = int(ws[i].argmax())
                if stage_fixed[i] is not None:
                    rewards[i] = rewards[i] * 0
                    continue
                p = F.softmax(leaf[k], -1)[j]
                arch = arch + torch.log(p)
                fl = fl + p * flops[i][j]
            total = arch + (1e-2 * fl if c['flops'] else 0)
            assert ('mutator.flops_loss' in logs) == c['flops']
            if all(f is None for f in stage_fixed):
                close(logs['mutator.arch_loss'], arch, 'arch loss', 1e-6)
                if c['flops']:
                    close(logs['mutator.flops_loss'],
                          torch.as_tensor(1e-2 * fl), 'flops loss', 1e-6)
            for i, k in enumerate(keys):
                if stage_fixed[i] is not None:
                    al[k].grad = torch.zeros_like(al[k])
                    continue
                g, = torch.autograd.grad(total, leaf[k], retain_graph=True)
                al[k].grad = g * rewards[i]
            aopt.step()
            rec.hit()
        for i, (k, v) in enumerate(mut.arch_params.items()):
            close(v, al[k], f'arch param {k} at epoch {epoch}', 1e-7)
            with torch.no_grad():
                al[k].copy_(v)
    for t in seen:
        rec.tag(t)


class LoggedSGD(torch.optim.SGD):
    """Notes the gradient of the loss of this process and the one applied."""

    def __init__(self, params, log):
        super().__init__(params, lr=.1)
        self.log, self.want = log, None

    def step(self, closure=None):
        ps = [p for g in self.param_groups for p in g['params']]
        self.log.append((self.want, [
            torch.zeros_like(p) if p.grad is None else p.grad.clone()
            for p in ps]))
        return super().step(closure)


class Spy(OptimWrapper):

    def backward(self, loss, **kw):
        ps = [p for g in self.optimizer.param_groups for p in g['params']]
        got = torch.autograd.grad(loss, ps, retain_graph=True,
                                  allow_unused=True)
        self.optimizer.want = [torch.zeros_like(p) if g is None else g
                               for p, g in zip(ps, got)]
        return super().backward(loss, **kw)


def dsnas_rank(rank, c):
    torch.manual_seed(c['seed'])
    net = Supernet(c['items'], onehot=True)
    mut = NasMutator()
    algo = DSNAS(
        net, mut, pretrain_epochs=c['pre'], finetune_epochs=c['fine'],
        flops_constraints=0.0 if c['flops'] else 1e9,
        estimator_cfg=dict(input_shape=(1, 3, 32, 32)),
        data_preprocessor=Keep())
    algo.double()
    with torch.no_grad():
        for v in mut.arch_params.values():
            v.add_(torch.randn_like(v) * c['spread'])
    runner = wrapped(DSNASDDP, algo)
    log = []
    wrap = OptimWrapperDict(
        architecture=Spy(LoggedSGD(algo.architecture.parameters(), log)),
        mutator=OptimWrapper(arch_optim(c, algo.mutator.parameters())))
    hub = MessageHub.get_current_instance()
    algo.train()
    if c['diff']:
        torch.manual_seed(c['seed'] + rank)
    out = []
    for s, epoch in enumerate(sorted(c['epochs'])):
        hub.update_info('epoch', epoch)
        data = batch(c['n'] + 1, c['seed'] + s + 10**4 * rank)
        runner.train_step(data, wrap)
        out.append(dict(
            epoch=epoch,
            choices=[list(layer.choices) for layer in net.layers],
            weights={k: v.detach().clone()
                     for k, v in net.named_parameters()},
            arch={k: v.detach().clone()
                  for k, v in mut.arch_params.items()}))
    return log, out


def run_dsnas_ranks(c, rec):
    """The ranks train one set of weights and end with one architecture."""
    (l0, o0), (l1, o1) = ranks(2, dsnas_rank, c)
    assert len(l0) == len(l1) == len(c['epochs'])
    for i, ((w0, g0), (w1, g1)) in enumerate(zip(l0, l1)):
        for a, b, x, y in zip(w0, w1, g0, g1):
            close(x, (a + b) / 2, f'gradient of step {i}, not the average',
                  1e-6)
            close(x, y, f'gradient of step {i} on the ranks')
    for a, b in zip(o0, o1):
        e = a['epoch']
        for k, v in a['weights'].items():
            if k in b['weights']:
                close(v, b['weights'][k], f'{k} on the ranks, epoch {e}')
        if e >= c['fine']:
            rec.tag('finetune')
            assert a['choices'] == b['choices'], (a['choices'], b['choices'])
            assert all(len(x) == 1 for x in a['choices'])
            for k, v in a['arch'].items():
                close(v, b['arch'][k], f'{k} on the ranks, epoch {e}')
        else:
            rec.hit()


SUBS = [
    Sub('darts_ranks', darts_case(), run_darts_ranks, 14),
    Sub('dsnas_ranks', st.builds(lambda c, d: dict(c, diff=d), dsnas_case(),
                                 st.booleans()), run_dsnas_ranks, 14),
    Sub('module', module_case(), run_module, 400),
    Sub('darts', darts_case(), run_darts, 120),
    Sub('dsnas', dsnas_case(), run_dsnas, 120),
]
