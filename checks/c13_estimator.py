"""C13: FLOPs and parameters are what the definition of each layer gives."""
import copy
import math
import pickle

import numpy as np
import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.task_modules import ResourceEstimator
from mmrazor.models.task_modules.estimators.counters import \
    get_model_flops_params
from mmrazor.structures import export_fix_subnet
from checks import c02_channel_graph as g
from pbt.cnn import net_spec
from pbt.core import Sub
from pbt.nnutil import randomize
from pbt.search import Algo

PID = 'C13'
RULE = ('at least four counted layers of at least three kinds (count), or at '
        'least one unit below its full width (dynamic)')
ASSUMPTIONS = ['conventions of the tool: one operation per multiply-add, no '
               'operation for the bias of a linear layer, one per element of '
               'the output of activations and upsampling and of the input of '
               'pooling, one (two if affine) per element for norms',
               'a deconvolution costs one kernel per input position',
               'dynamic norms have no counter: norms are left out of the '
               'comparison of a dynamic model with its export']
CONV = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}
BN = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}
IN = {1: nn.InstanceNorm1d, 2: nn.InstanceNorm2d, 3: nn.InstanceNorm3d}
POOL = {n: {d: getattr(nn, f'{n}{d}d') for d in (1, 2, 3)}
        for n in ('MaxPool', 'AvgPool', 'AdaptiveMaxPool', 'AdaptiveAvgPool')}
ACT = dict(ReLU=nn.ReLU, PReLU=nn.PReLU, ELU=nn.ELU, LeakyReLU=nn.LeakyReLU,
           ReLU6=nn.ReLU6)
NONE = dict(Identity=nn.Identity, GELU=nn.GELU, Dropout=nn.Dropout,
            Softmax=lambda: nn.Softmax(1))


class MyConv2d(nn.Conv2d):
    pass


@st.composite
def layer(draw, d):
    kind = draw(st.sampled_from(
        ['conv'] * 4 + ['bn', 'in', 'gn', 'act', 'act', 'pool', 'up', 'none',
                        'linear', 'again', 'again', 'ln'] +
        ['deconv'] * (2 if d == 2 else 0)))
    i = st.integers
    return dict(
        kind=kind, c=draw(i(1, 4)), g=draw(st.sampled_from([1, 1, 2, 0])),
        k=[draw(i(1, 3)) for _ in range(d)], s=[draw(i(1, 2))
                                                for _ in range(d)],
        p=draw(i(0, 1)), dil=draw(i(1, 2)), bias=draw(st.booleans()),
        affine=draw(st.booleans()), name=draw(i(0, 9)), ref=draw(i(0, 9)))


@st.composite
def case(draw):
    d = draw(st.sampled_from([2, 2, 2, 1, 3]))
    return dict(
        d=d, cin=draw(st.integers(1, 4)),
        size=[draw(st.integers(3, 6)) for _ in range(d)],
        layers=draw(st.lists(layer(d), min_size=1, max_size=9)),
        cuts=sorted(draw(st.lists(st.integers(0, 9), max_size=3))),
        head=draw(st.booleans()), b=draw(st.integers(1, 3)),
        sub=draw(st.booleans()),
        unit=draw(st.sampled_from(['G', 'M', 'K'])),
        strings=draw(st.booleans()),
        via=draw(st.sampled_from(['ctor', 'ctor_cfg', 'call', 'mixed'])),
        spec=draw(st.lists(st.integers(0, 4), max_size=3, unique=True)),
        nested=draw(st.booleans()),
        off=draw(st.lists(st.integers(0, 9), max_size=3)),
        verbose=draw(st.booleans()),
        seed=draw(st.integers(0, 9999)))


def make_layer(o, c, d):
    """(module, output channels) for one generated layer on c channels."""
    k = o['kind']
    if k == 'conv':
        groups = dict(zip((1, 2, 0), (1, 2, c)))[o['g']]
        if groups == 2 and c % 2:
            groups = 1
        out = c * o['c'] if groups == c and o['c'] < 3 else o['c'] * groups
        cls = MyConv2d if d == 2 and o['name'] % 3 == 0 else CONV[d]
        return cls(c, out, tuple(o['k']), stride=tuple(o['s']),
                   padding=o['p'], dilation=o['dil'], groups=groups,
                   bias=o['bias']), out
    if k == 'deconv':
        groups = 2 if o['g'] == 2 and c % 2 == 0 else 1
        return nn.ConvTranspose2d(
            c, o['c'] * groups, tuple(o['k']), stride=tuple(o['s']),
            groups=groups, bias=o['bias']), o['c'] * groups
    if k == 'bn':
        return BN[d](c, affine=o['affine']), c
    if k == 'in':
        return IN[d](c, affine=o['affine']), c
    if k == 'gn':
        return nn.GroupNorm(1, c, affine=o['affine']), c
    if k == 'act':
        return ACT[sorted(ACT)[o['name'] % 5]](), c
    if k == 'none':
        return NONE[sorted(NONE)[o['name'] % 4]](), c
    if k == 'pool':
        n = sorted(POOL)[o['name'] % 4]
        arg = tuple(o['k'])
        return POOL[n][d](arg), c
    if k == 'up':
        return nn.Upsample(scale_factor=o['s'][0]), c


class Model(nn.Module):

    def __init__(self, c):
        super().__init__()
        torch.manual_seed(c['seed'])
        d = c['d']
        x = torch.zeros(2, c['cin'], *c['size'])
        chain = []
        for o in c['layers']:
            if o['kind'] == 'again':
                same = [m for m in chain if fits(m, x)]
                if not same:
                    continue
                m = same[o['ref'] % len(same)]
            elif o['kind'] == 'linear':
                m = nn.Linear(x.shape[-1], o['c'] + 1, bias=o['bias'])
            elif o['kind'] == 'ln':
                m = nn.LayerNorm(x.shape[-1],
                                 elementwise_affine=o['affine'])
            else:
                m, _ = make_layer(o, x.shape[1], d)
            try:
                with torch.no_grad():
                    y = m.eval()(x)
            except (RuntimeError, ValueError, AssertionError):
                continue  # this layer does not fit here
            if y.numel() == 0 or y.numel() > 20000:
                continue
            x = y
            chain.append(m)
        if c['head']:
            chain += [nn.Flatten(), nn.Linear(x[0].numel(), 3)]
        cuts = sorted({min(k, len(chain)) for k in c['cuts']} | {0})
        parts = [chain[a:b] for a, b in zip(cuts, cuts[1:] + [len(chain)])]
        self.chain_ids = [id(m) for m in chain]
        for i, p in enumerate(parts):
            seq = nn.Sequential(*p)
            setattr(self, f'part{i}',
                    nn.ModuleDict(dict(body=seq)) if c['sub'] else seq)
        self.n_parts = len(parts)
        self.nested = c['sub']

    def part(self, i):
        m = getattr(self, f'part{i}')
        return m['body'] if self.nested else m

    def forward(self, x):
        for i in range(self.n_parts):
            x = self.part(i)(x)
        return x


def fits(m, x):
    try:
        with torch.no_grad():
            return m.eval()(x).shape == x.shape
    except (RuntimeError, ValueError, AssertionError):
        return False


def cost(m, x, y):
    """(operations for one image, parameters) by the definition."""
    n = x.shape[0]
    own = sum(p.numel() for p in m.parameters(recurse=False))
    ex, ey = x.numel() // n, y.numel() // n
    if isinstance(m, (nn.Conv1d, nn.Conv2d, nn.Conv3d)):
        f = ey * m.weight[0].numel() + (ey if m.bias is not None else 0)
    elif isinstance(m, nn.ConvTranspose2d):
        pos = x.shape[2] * x.shape[3]
        f = pos * m.weight.numel() + (ey if m.bias is not None else 0)
    elif isinstance(m, nn.Linear):
        f = ey * m.in_features
    elif isinstance(m, (nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d,
                        nn.InstanceNorm1d, nn.InstanceNorm2d,
                        nn.InstanceNorm3d, nn.GroupNorm)):
        f = ex * (2 if m.affine else 1)
    elif isinstance(m, nn.LayerNorm):
        f = ex
    elif isinstance(m, tuple(ACT.values())):
        f = ey
    elif isinstance(m, nn.Upsample):
        f = ey
    elif isinstance(m, tuple(k for v in POOL.values() for k in v.values())):
        f = ex
    else:
        return None
    return f, own


def counter_name(m):
    return ('Conv2d' if isinstance(m, MyConv2d) else type(m).__name__) \
        + 'Counter'


def costs(model, x):
    """{id: [flops, params, module]} of every counted leaf, by calling it."""
    out = {}
    for i in range(model.n_parts):
        for m in model.part(i):
            with torch.no_grad():
                y = m(x)
            r = cost(m, x, y)
            if r is not None:
                e = out.setdefault(id(m), [0, r[1], m])
                e[0] += r[0]
            x = y
    return out


def total(table, modules, off=()):
    ids = {id(m) for m in modules}
    sel = [e for k, e in table.items()
           if k in ids and counter_name(e[2]) not in off]
    return sum(e[0] for e in sel), sum(e[1] for e in sel)


def conv_unit(v, unit):
    return round(v / dict(G=1e9, M=1e6, K=1e3)[unit], 3)


def attrs(model):
    return {n: (sorted(k for k in m.__dict__), len(m._forward_hooks),
                len(m._forward_pre_hooks))
            for n, m in model.named_modules()}


def run(c, rec):
    """Total, per part, per unit, repeated, with counters disabled."""
    model = Model(c).eval()
    rec.tag('layers', len(model.chain_ids))
    shape = (c['b'], c['cin'], *c['size'])
    table = costs(model, torch.zeros(shape))
    flops, params = total(table, model.modules())
    rec.hit(len(table) > 3 and len({type(e[2]) for e in table.values()}) > 2)
    state = copy.deepcopy(model.state_dict())
    before = attrs(model)

    # exact numbers
    base = dict(input_shape=shape, units=None)
    got = get_model_flops_params(model, **base)
    assert got == (flops, params), \
        f'{got[0]} operations and {got[1]} parameters, by definition ' \
        f'{flops} and {params}'
    assert get_model_flops_params(model, **base) == got, 'counts accumulate'

    # units, strings, every way to pass the configuration
    unit = dict(flops=c['unit'], params=c['unit'])
    common = dict(input_shape=shape, units=unit, as_strings=c['strings'])
    if c['via'] == 'ctor':
        est, kw = ResourceEstimator(**common), {}
    elif c['via'] == 'ctor_cfg':
        est, kw = ResourceEstimator(flops_params_cfg=dict(common)), {}
    elif c['via'] == 'call':
        est, kw = ResourceEstimator(), dict(flops_params_cfg=dict(common))
    else:
        est = ResourceEstimator(
            units=unit, flops_params_cfg=dict(as_strings=c['strings']))
        kw = dict(flops_params_cfg=dict(input_shape=shape))
    kw0 = copy.deepcopy(kw)

    def show(f, p):
        f, p = conv_unit(f, c['unit']), conv_unit(p, c['unit'])
        if c['strings']:
            return f'{f} {c["unit"]}FLOPs', f'{p} {c["unit"]}'
        return f, p

    want = show(flops, params)
    for turn in range(2):
        res = est.estimate(model, **copy.deepcopy(kw))
        assert (res['flops'], res['params']) == want, \
            f'{c["via"]} call {turn}: {res}, expected {want}'

    # parts
    parts = [f'part{i}' for i in c['spec'] if i < model.n_parts]
    if c['nested'] and c['sub'] and parts:
        parts[0] += '.body'
    if parts:
        sep_cfg = dict(kw.get('flops_params_cfg', {}), spec_modules=parts)
        sep = est.estimate_separation_modules(model, dict(sep_cfg))
        assert set(sep) == set(parts)
        sums = [0, 0]
        for p in parts:
            f, q = total(table, model.get_submodule(p).modules())
            assert (sep[p]['flops'], sep[p]['params']) == show(f, q), \
                f'{p}: {sep[p]}, expected {show(f, q)}'
            sums[0] += conv_unit(f, c['unit'])
            sums[1] += conv_unit(q, c['unit'])
        res = est.estimate(model, dict(sep_cfg))
        for k, s in zip(('flops', 'params'), sums):
            v = float(str(res[k]).split()[0])
            assert math.isclose(v, s, abs_tol=1e-9, rel_tol=1e-9), \
                f'parts {parts}: {k} {res[k]}, expected {s}'
        rec.tag('parts', len(parts))
        # the estimator does not remember the parts
        res = est.estimate(model, **copy.deepcopy(kw))
        assert (res['flops'], res['params']) == want, \
            'an estimate of parts changed the estimator'
        try:
            est.estimate(model, dict(sep_cfg, spec_modules=['nowhere']))
            raise RuntimeError('unknown module accepted')
        except AssertionError:
            get_model_flops_params(model, **base)  # tidies up

    # disabled counters
    off = sorted({counter_name(list(table.values())[i % len(table)][2])
                  for i in c['off']}) if table else []
    if off:
        got = get_model_flops_params(model, disabled_counters=off, **base)
        assert got == total(table, model.modules(), off), \
            f'without {off}: {got}'
    if c['verbose'] and flops and params:
        import io
        out = io.StringIO()
        got = get_model_flops_params(model, print_per_layer_stat=True,
                                     ost=out, **base)
        assert got == (flops, params)
        assert all(type(e[2]).__name__ in out.getvalue()
                   for e in table.values())

    # nothing is left behind
    for n, (a, h, p) in attrs(model).items():
        extra = set(a) - set(before[n][0])
        assert not [k for k in extra if 'flops' in k and '__' in k
                    and 'count' not in k and k != '__batch_counter__'], extra
        assert not [k for k in extra if 'handle' in k or k == '__params__'], \
            extra
        assert (h, p) == before[n][1:], f'hooks left on {n!r}'
        assert 'accumulate_params' not in extra, 'printer left on the model'
    for k, v in model.state_dict().items():
        assert torch.equal(v, state[k]), f'{k} changed'
    pickle.loads(pickle.dumps(copy.deepcopy(model)))

    # illegal configurations are refused
    for bad in (dict(flops_params_cfg=dict(shape=(1, 3, 4, 4))), ):
        try:
            est.estimate(model, **bad)
            raise RuntimeError('unknown key accepted')
        except KeyError:
            pass
    try:
        ResourceEstimator(units=dict(flop='M'))
        raise RuntimeError('unknown unit accepted')
    except KeyError:
        pass


@st.composite
def dyn_case(draw):
    kind = draw(st.sampled_from(['oneshot', 'l1']))
    return dict(
        spec=draw(net_spec()), kind=kind, mode='number', d=1,
        cands=draw(st.lists(st.integers(1, 8), min_size=2, max_size=4,
                            unique=True)),
        tracer=draw(st.sampled_from(['BackwardTracer', 'FxTracer'])),
        b=draw(st.integers(1, 2)), seed=draw(st.integers(0, 9999)))


def run_dyn(c, rec):
    """The searchable network costs what its exported subnet costs."""
    net, mut = g.build(c)
    if not mut.mutable_units:
        rec.reject()
    algo = Algo(net, mut)
    randomize(net, c['seed'])
    size = c['spec']['size']
    base = dict(input_shape=(c['b'], c['spec']['cin'], size, size),
                units=None, disabled_counters=['BatchNorm2dCounter'])
    mut.set_choices(mut.sample_choices())
    rec.hit(any(float(u.current_choice) not in (u.num_channels, 1.)
                for u in mut.mutable_units))
    f, _ = get_model_flops_params(net, **base)
    _, sub = export_fix_subnet(algo, slice_weight=True)
    fs, ps = get_model_flops_params(sub.architecture, **base)
    assert f == fs, f'{f} operations, its exported subnet {fs}'
    assert ps <= sum(p.numel() for p in sub.architecture.parameters())


SUBS = [
    Sub('count', case(), run, 1200),
    Sub('dynamic', dyn_case(), run_dyn, 150),
]
