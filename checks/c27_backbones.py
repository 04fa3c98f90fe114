"""C27: searchable operators, backbones, heads and classifiers."""
import copy
import random

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmcls.structures import ClsDataSample

from mmrazor.models.architectures.dynamic_ops import DynamicSequential
from mmrazor.models.architectures.ops.mobilenet_series import MBBlock
from mmrazor.models.architectures.utils import set_dropout
from mmrazor.models.mutables import OneShotMutableOP, OneShotMutableValue
from mmrazor.models.mutables.mutable_channel import OneShotMutableChannelUnit
from mmrazor.models.mutators import NasMutator
from mmrazor.registry import MODELS
from mmrazor.structures.subnet import export_fix_subnet, load_fix_subnet
from pbt.arch import (ACTS, Weights, attention, divisible, mb_block,
                      op_cfg, op_ref, reduce2)
from pbt.core import Sub
from pbt.nnutil import rand_tensor, randomize

PID = 'C27'
RULE = ('the operator or backbone holds at least one parameter; for '
        'supernets, the space has at least two subnets')
ASSUMPTIONS = [
    'CPU, double precision, compared within 1e-8 of the scale of the output',
    'even channels and feature sizes where an operator halves them',
    'candidate lists of channels, depths and ratios are ascending'
]

ints = st.integers
CLS_ACTS = ['ReLU', 'ReLU6', 'Swish', 'HSwish']


def close(a, b, what, tol=1e-8):
    assert tuple(a.shape) == tuple(b.shape), \
        f'{what}: shape {tuple(a.shape)}, expected {tuple(b.shape)}'
    if a.numel():
        err = (a.detach() - b.detach()).abs().max().item()
        lim = tol * max(1., b.detach().abs().max().item())
        assert err <= lim, f'{what}: off by {err:.3g}'


def state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def double(m, seed):
    """Generic weights, every parameter different from its default."""
    m.double()
    g = torch.Generator().manual_seed(seed % 2**31)
    for n, p in sorted(m.named_parameters()):
        fan = max(1, p[0].numel()) if p.dim() > 1 else 4
        p.data.copy_(torch.randn(p.shape, generator=g, dtype=torch.double) *
                     (1.5 / fan**.5))
    for n, b in sorted(m.named_buffers()):
        if n.endswith('running_mean'):
            b.copy_(torch.randn(b.shape, generator=g) * .3)
        elif n.endswith('running_var'):
            b.copy_(torch.rand(b.shape, generator=g) + .5)
    return m


def image(c, ch=3, size=None, batch=2):
    h = size or c['size']
    return rand_tensor((batch, ch, h, h if size else h + c.get('wide', 0)),
                       c['seed'] + 1).double()


# --------------------------------------------------------------------- ops
OPS = ['MBBlock', 'MBBlock', 'ShuffleBlock', 'ShuffleXception', 'Identity',
       'DartsPoolBN', 'DartsDilConv', 'DartsSepConv', 'DartsSkipConnect',
       'DartsZero', 'ConvBnAct', 'DepthwiseSeparableConv']


@st.composite
def op_case(draw, kinds=OPS):
    t = draw(st.sampled_from(kinds))
    cin = draw(ints(1, 6))
    s = draw(ints(1, 2))
    c = dict(op=t, s=s, cin=cin, cout=draw(st.sampled_from(
        [cin, draw(ints(1, 6))])), k=draw(st.sampled_from([3, 5])),
        act=draw(st.sampled_from(CLS_ACTS)), size=draw(ints(4, 8)), wide=draw(ints(0, 3)),
        train=draw(st.booleans()), cp=draw(st.booleans()),
        affine=draw(st.booleans()), dp=draw(st.booleans()),
        se=draw(st.sampled_from([0, 0, 2, 4])), seed=draw(ints(0, 9999)))
    if t == 'MBBlock':
        c.update(e=draw(ints(1, 4)), k=draw(st.sampled_from([1, 3, 5, 7])),
                 attn=draw(st.booleans()),
                 drop=draw(st.sampled_from([0., 0., .5])))
    elif t in ('ShuffleBlock', 'ShuffleXception'):
        c['k'] = draw(st.sampled_from([3, 5, 7]))
        c['cout'] = 2 * draw(ints(1, 4))
        if s == 1:
            c['cin'] = c['cout']
    elif t == 'DartsPoolBN':
        c['cout'] = cin
        c['pool'] = draw(st.sampled_from(['max', 'avg']))
    elif t == 'DartsSepConv':
        c['cout'] = cin * draw(ints(1, 3))
    elif t == 'DartsSkipConnect':
        c['size'] = 2 * draw(ints(2, 4))
        c['wide'] = 2 * draw(ints(0, 1))
        c['cout'] = 2 * draw(ints(1, 3))
        if s == 1:
            c['cin'] = c['cout']
    elif t == 'DartsZero':
        c['cout'] = cin
    elif t == 'ConvBnAct':
        c.update(d=draw(ints(1, 2)), skip=draw(st.booleans()))
        c['k'] = draw(st.sampled_from([1, 3, 5]))
        c['p'] = c['d'] * (c['k'] // 2) if c['skip'] else draw(ints(0, 2))
        c['size'] = max(c['size'], c['d'] * (c['k'] - 1) + 1)
    elif t == 'DepthwiseSeparableConv':
        c.update(skip=draw(st.booleans()), pw_act=draw(st.booleans()),
                 pk=draw(st.sampled_from([1, 3])))
    if t == 'Identity':
        c['act'] = draw(st.sampled_from([None] + CLS_ACTS))
    return c


def same_or_dropped(y, out, skip, keep, what):
    """Stochastic depth: every sample keeps its branch (rescaled) or loses
    it."""
    for i in range(len(y)):
        base = torch.zeros_like(out[i]) if skip is None else skip[i]
        scale = max(1., out[i].abs().max().item() / keep)
        ok = min((y[i] - base).abs().max().item(),
                 (y[i] - base - out[i] / keep).abs().max().item())
        assert ok <= 1e-8 * scale, f'{what}: sample {i} off by {ok:.3g}'


def run_op(c, rec):
    """An operator is the function its configuration describes."""
    cfg = dict(op_cfg(c), in_channels=c['cin'], out_channels=c['cout'],
               stride=c['s'])
    keep_cfg = copy.deepcopy(cfg)
    m = MODELS.build(cfg)
    assert cfg == keep_cfg, 'the configuration was modified'
    double(m, c['seed'])
    sd = state(m)
    m.train(c['train'])
    W = Weights(sd, train=c['train'])
    x = image(c, c['cin'], batch=3).requires_grad_()
    rec.tag(c['op'])
    rec.hit(bool(list(m.parameters())))
    dropped = None
    if c['op'] == 'MBBlock':
        out, sc = mb_block(W, x, c)
        ref = out if sc is None else out + sc
        # a shortcut that changes the feature map does not drop the branch
        if c['drop'] and c['train'] and sc is not None and (
                not c['attn'] or (c['s'] == 1 and c['cin'] == c['cout'])):
            dropped = (out, sc, 1 - c['drop'])
    else:
        ref = op_ref(W, x, c)
        if c['dp'] and c['train'] and c['op'].startswith('Darts') and \
                c['op'] != 'DartsZero' and \
                not (c['op'] == 'DartsSkipConnect' and c['s'] == 1):
            for d in m.modules():
                if hasattr(d, 'drop_prob'):
                    d.drop_prob = .5
            dropped = (ref, None, .5)
    keep = x.detach().clone()
    y = m(x)
    assert torch.equal(x, keep), 'the input was modified'
    if dropped:
        rec.tag('drop path')
        same_or_dropped(y, *dropped, c['op'])
    else:
        close(y, ref, c['op'])
    if c['op'] == 'MBBlock' and not dropped or c['op'].startswith('Shuf'):
        m.train(c['train'])
        m.load_state_dict(sd)
        m(x).pow(2).sum().backward()
        r, = torch.autograd.grad(ref.pow(2).sum(), x)
        close(x.grad, r, f'gradient of {c["op"]}')
    if not (c['op'] == 'MBBlock' and c['attn'] and c['cin'] == c['cout']):
        W.done()


# ------------------------------------------------ MobileNetV2, ShuffleNetV2
MB_CANDS = [dict(op='MBBlock', k=k, e=e, se=se, act='ReLU6')
            for k, e, se in ((3, 3, 0), (5, 2, 0), (3, 1, 0), (7, 2, 4))] + [
    dict(op='Identity', act=None)]
SH_CANDS = [dict(op='ShuffleBlock', k=3, act='ReLU'),
            dict(op='ShuffleBlock', k=5, act='ReLU'),
            dict(op='ShuffleBlock', k=7, act='ReLU'),
            dict(op='ShuffleXception', act='ReLU')]


@st.composite
def chain_case(draw):
    kind = draw(st.sampled_from(['mb', 'shuffle']))
    n = draw(ints(1, 3)) if kind == 'mb' else draw(ints(1, 4))
    pool = MB_CANDS if kind == 'mb' else SH_CANDS
    last = kind == 'mb' or draw(st.booleans())
    layers = [dict(
        c=4 * draw(ints(1, 4)) if kind == 'mb' else 8 * draw(ints(1, 2)),
        n=draw(ints(1, 2)), s=draw(ints(1, 2)),
        cands=draw(st.lists(ints(0, len(pool) - 1), min_size=1, max_size=3,
                            unique=True))) for _ in range(n)]
    top = n + (1 if last else 0)
    return dict(
        kind=kind, layers=layers, last=last,
        first=draw(st.sampled_from([8, 12, 16])), stem=draw(ints(1, 2)),
        last_c=draw(ints(3, 10)), act=draw(st.sampled_from(CLS_ACTS)),
        wf=draw(st.sampled_from([.5, 1., 1., 1.5, 2.])),
        outs=sorted(draw(st.lists(ints(0, top - 1), min_size=1, max_size=3,
                                  unique=True)),
                    reverse=draw(st.booleans())),
        frozen=draw(st.sampled_from([-1, draw(ints(-1, min(
            n, 4 if last else 3)))])),
        norm_eval=draw(st.booleans()),
        picks=draw(st.lists(ints(0, 99), min_size=1, max_size=4)),
        seed=draw(ints(0, 9999)))


def chain_cfg(c):
    pool = MB_CANDS if c['kind'] == 'mb' else SH_CANDS
    arch = []
    for la in c['layers']:
        mut = dict(type='OneShotMutableOP', candidates={
            f'op{i}': op_cfg(pool[i]) for i in la['cands']})
        arch.append([la['c'], la['n'], la['s'], mut] if c['kind'] == 'mb'
                    else [la['c'], la['n'], mut])
    cfg = dict(arch_setting=arch, widen_factor=c['wf'],
               out_indices=tuple(c['outs']), frozen_stages=c['frozen'],
               norm_eval=c['norm_eval'], act_cfg=dict(type=c['act']))
    if c['kind'] == 'mb':
        cfg.update(type='SearchableMobileNetV2', first_channels=c['first'],
                   last_channels=c['last_c'])
    else:
        cfg.update(type='SearchableShuffleNetV2', stem_multiplier=c['stem'],
                   with_last_layer=c['last'])
    return cfg


def chain_ref(c, W, x, choice):
    """All stages of the chain; choice(layer, block) -> candidate index."""
    mb = c['kind'] == 'mb'
    pool = MB_CANDS if mb else SH_CANDS
    cin = divisible(c['first'] * c['wf'], 8) if mb else 16 * c['stem']
    x = W.cm('conv1', x, cin, 3, 2, 1, act=c['act'])
    outs = []
    for i, la in enumerate(c['layers']):
        cout = divisible(la['c'] * c['wf'], 8) if mb else \
            round(la['c'] * c['wf'])
        for j in range(la['n']):
            name = f'layer{i + 1}.{j}' if mb else f'layers.{i}.{j}'
            pick = choice(i, j)
            s = (la['s'] if mb else 2) if j == 0 else 1
            x = op_ref(W.at(f'{name}._candidates.op{pick}'), x,
                       dict(pool[pick], s=s, cout=cout))
        outs.append(x)
    if mb:
        n = int(c['last_c'] * c['wf']) if c['wf'] > 1 else c['last_c']
        outs.append(W.cm('conv2', x, n, 1, act=c['act']))
    elif c['last']:
        outs.append(W.cm(f'layers.{len(c["layers"])}', x, 1024, 1,
                         act=c['act']))
    return outs


def blocks_of(c, m):
    mb = c['kind'] == 'mb'
    mods = dict(m.named_modules())
    return {(i, j): mods[f'layer{i + 1}.{j}' if mb else f'layers.{i}.{j}']
            for i, la in enumerate(c['layers']) for j in range(la['n'])}


def check_outs(got, ref, want, what):
    assert isinstance(got, tuple), f'{what}: {type(got)}'
    assert len(got) == len(set(want)), \
        f'{what}: {len(got)} outputs for {want}'
    for y, i in zip(got, sorted(want)):
        close(y, ref[i], f'{what}: stage {i}')


def is_bn(m):
    return isinstance(m, nn.modules.batchnorm._BatchNorm)


def check_frozen(m, x, frozen_of, norm_eval, what, stem=('conv1', )):
    """Training mode: frozen stages keep parameters and statistics, the rest
    is trained.  ``frozen_of(name)`` -> 'all', 'params' or None."""
    m.eval()
    m.train()
    before = state(m)
    loss = sum(y.pow(2).mean() for y in m(x))
    m.zero_grad()
    if loss.requires_grad:
        loss.backward()
    for n, p in m.named_parameters():
        fr = frozen_of(n)
        assert p.requires_grad == (fr is None), \
            f'{what}: {n} requires_grad={p.requires_grad}'
    after = state(m)
    for n, b in m.named_modules():
        if not is_bn(b) or not b.track_running_stats:
            continue
        key = f'{n}.running_mean'
        moved = not torch.equal(before[key], after[key])
        fr = frozen_of(n)
        if fr == 'all' or norm_eval:
            assert not b.training and not moved, \
                f'{what}: statistics of frozen {n} moved'
        elif fr is None:
            assert b.training, f'{what}: {n} is not trained'
    m.load_state_dict(before)


def run_chain(c, rec):
    """Stages, widths, outputs, choices, freezing and export of the
    candidate-operator backbones."""
    cfg = chain_cfg(c)
    keep = copy.deepcopy(cfg)
    m = MODELS.build(cfg)
    assert cfg == keep, 'the configuration was modified'
    two = MODELS.build(cfg)
    double(m, c['seed'])
    assert {k: v.shape for k, v in m.state_dict().items()} == \
        {k: v.shape for k, v in two.state_dict().items()}, \
        'two builds of one configuration differ'
    x = image(c, size=32)
    mut = NasMutator()
    mut.prepare_from_supernet(m)
    blocks = blocks_of(c, m)
    for b in blocks.values():
        assert isinstance(b, OneShotMutableOP)
    rec.hit(any(len(la['cands']) > 1 for la in c['layers']))
    rec.tag(c['kind'])
    for step, p in enumerate(c['picks']):
        train = step % 2 == 1
        for (i, j), b in blocks.items():
            cands = c['layers'][i]['cands']
            b.current_choice = f'op{cands[(p + 3 * i + 5 * j) % len(cands)]}'

        def choice(i, j):
            return int(blocks[i, j].current_choice[2:])

        m.eval()
        sd = state(m)
        if train:
            for b in m.modules():
                b.training = True
        ref = chain_ref(c, Weights(sd, train=train), x, choice)
        check_outs(m(x), ref, c['outs'], f'{c["kind"]} supernet')
        m.load_state_dict(sd)
    m.eval()
    out = m(x)
    # export
    fix, _ = export_fix_subnet(m)
    fresh = MODELS.build(cfg)
    fresh.double().load_state_dict(m.state_dict())
    load_fix_subnet(fresh, fix)
    fresh.eval()
    for a, b in zip(fresh(x), out):
        close(a, b, 'exported subnet', 1e-12)
    W = Weights(state(fresh))
    ref = chain_ref(c, W, x, choice)
    W.done()  # nothing but the chosen candidates is left
    check_outs(fresh(x), ref, c['outs'], 'exported subnet')

    # freezing
    def frozen_of(n):
        if c['frozen'] >= 0 and n.split('.')[0] == 'conv1':
            return 'params'
        for i in range(c['frozen']):
            pre = f'layer{i + 1}.' if c['kind'] == 'mb' else f'layers.{i}.'
            if (n + '.').startswith(pre):
                return 'all'

    check_frozen(fresh, x, frozen_of, c['norm_eval'], c['kind'])
    check_frozen(m, x, frozen_of, c['norm_eval'], c['kind'])
    # initialisation leaves norms at their defaults
    m.init_weights()
    for n, b in m.named_modules():
        if is_bn(b):
            assert bool((b.weight == 1).all()), f'{n} not initialised'


# ------------------------------------------------------------------- DARTS
DARTS_CANDS = dict(
    zero=dict(op='DartsZero'),
    skip=dict(op='DartsSkipConnect', dp=1),
    maxp=dict(op='DartsPoolBN', pool='max', dp=1),
    avgp=dict(op='DartsPoolBN', pool='avg'),
    sep3=dict(op='DartsSepConv', k=3, dp=1),
    sep5=dict(op='DartsSepConv', k=5),
    dil3=dict(op='DartsDilConv', k=3, dp=1))


@st.composite
def darts_case(draw):
    n = draw(ints(1, 5))
    return dict(
        n=n, nodes=draw(ints(1, 3)), base=2 * draw(ints(1, 2)),
        stem=draw(ints(1, 3)), aux=draw(st.booleans()), auxc=draw(ints(1, 4)),
        auxo=draw(ints(1, 4)), affine=draw(st.booleans()),
        op_affine=draw(st.booleans()), act=draw(st.sampled_from(CLS_ACTS)),
        cands=draw(st.lists(st.sampled_from(sorted(DARTS_CANDS)), min_size=1,
                            max_size=4, unique=True)),
        chosen=draw(ints(1, 2)), with_param=draw(st.booleans()),
        outs=sorted(set(draw(st.lists(ints(0, n - 1), max_size=2)) +
                        [n - 1])),
        seed=draw(ints(0, 9999)))


def darts_cfg(c):
    cands = {k: op_cfg(dict(DARTS_CANDS[k], affine=c['op_affine']))
             for k in c['cands']}
    cfg = dict(
        type='DartsBackbone', in_channels=3, base_channels=c['base'],
        num_layers=c['n'], num_nodes=c['nodes'], stem_multiplier=c['stem'],
        out_indices=tuple(c['outs']), act_cfg=dict(type=c['act']),
        norm_cfg=dict(type='BN', affine=c['affine']),
        mutable_cfg=dict(type='DiffMutableOP', candidates=cands),
        route_cfg=dict(type='DiffChoiceRoute', num_chosen=c['chosen'],
                       with_arch_param=c['with_param']))
    if c['aux']:
        cfg.update(auxliary=True, aux_channels=c['auxc'],
                   aux_out_channels=c['auxo'])
    return cfg


def darts_ref(c, W, x, edge, route):
    """edge(alias) -> [(op, weight)], route(node, edges) -> weights"""
    aff, act = c['affine'], ACTS[c['act']]

    def std(W, x, ch):
        y = W.conv('net.1', act(x), ch, 1, bias=False)
        return W.bn('net.2', y, aff)

    def fact(W, x, ch):
        y = act(x)
        y = torch.cat([W.conv('conv1', y, ch // 2, 1, 2, bias=False),
                       W.conv('conv2', y[:, :, 1:, 1:], ch // 2, 1, 2,
                              bias=False)], 1)
        return W.bn('bn', y, aff)

    ch = c['stem'] * c['base']
    s = W.bn('stem.1', W.conv('stem.0', x, ch, 3, 1, 1, bias=False), aff)
    s0 = s1 = s
    ch, was_red, outs, aux = c['base'], False, [], None
    for i in range(c['n']):
        red = i in (c['n'] // 3, 2 * c['n'] // 3)
        ch *= 2 if red else 1
        C = W.at(f'cells.{i}')
        vals = [(fact if was_red else std)(C.at('preproc0'), s0, ch),
                std(C.at('preproc1'), s1, ch)]
        for j in range(c['nodes']):
            node = f'{"reduce" if red else "normal"}_n{j + 2}'
            out = 0
            for k, w in route(node, j + 2):
                name = f'{node}_p{k}'
                E = C.at(f'nodes.{j}.route._candidates.{name}._candidates')
                s = 2 if red and k < 2 else 1
                y = sum(p * op_ref(E.at(o), vals[k], dict(
                    DARTS_CANDS[o], s=s, cout=ch, affine=c['op_affine']))
                    for o, p in edge(name))
                out = out + w * y
            vals.append(out)
        s0, s1 = s1, torch.cat(vals[2:], 1)
        was_red = red
        outs.append(s1)
        if c['aux'] and i == 2 * c['n'] // 3:
            A = W.at('auxliary_module')
            y = F.relu(s1)
            if W.train:
                y = F.avg_pool2d(y, 5, 2)
            else:
                y = torch.zeros(len(y), y.size(1), 2, 2, dtype=y.dtype)
            y = A.conv('net.2', y, c['auxc'], 1, bias=False)
            y = F.relu(A.bn('net.3', y, aff))
            y = A.conv('net.5', y, c['auxo'], 2, bias=False)
            aux = F.relu(A.bn('net.6', y, aff))
    return outs, aux


def run_darts(c, rec):
    """Cells, reductions, mixed edges, the auxiliary branch and the export of
    the DARTS backbone."""
    cfg = darts_cfg(c)
    keep = copy.deepcopy(cfg)
    m = MODELS.build(cfg)
    assert cfg == keep, 'the configuration was modified'
    double(m, c['seed'])
    for d in m.modules():
        if hasattr(d, 'drop_prob'):
            d.drop_prob = 0.  # stochastic depth is off
    mut = NasMutator()
    mut.prepare_from_supernet(m)
    mut.prepare_arch_params()
    double(mut, c['seed'] + 1)
    rec.hit(len(c['cands']) > 1)
    arch = {}
    for k, v in mut.arch_params.items():
        names = {v.alias for v in mut.search_groups[k]}
        assert len(names) == 1, f'one group for {names}'
        arch[names.pop()] = F.softmax(v.detach(), -1)
    assert len(arch) == len(mut.arch_params), 'cells do not share edges'
    x = image(c, size=32)

    def mixed_edge(name):
        assert len(arch[name]) == len(c['cands'])
        return list(zip(c['cands'], arch[name]))

    def mixed_route(node, n):
        if not c['with_param']:
            return [(k, 1.) for k in range(n)]
        assert len(arch[node]) == n
        return list(enumerate(arch[node]))

    def compare(m, edge, route, what, drop=None, slack=1):
        for train in (False, True):
            m.eval()
            sd = state(m)
            m.train(train)
            W = Weights(sd, train=train)
            ref, aux = darts_ref(c, W, x, edge, route)
            got = m(x)
            want = [ref[i] for i in c['outs']]
            if aux is not None and train:
                want.insert(0, aux)
            assert isinstance(got, tuple) and len(got) == len(want), \
                f'{what}: {len(got)} outputs, expected {len(want)}'
            for i, (a, b) in enumerate(zip(got, want)):
                close(a, b, f'{what}, output {i} (train={train})',
                      1e-7 * slack)
            m.load_state_dict(sd)
        return W

    compare(m, mixed_edge, mixed_route, 'DARTS supernet').done()
    m.eval()
    choice = mut.sample_choices()
    mut.set_choices(choice)
    fix, _ = export_fix_subnet(m)
    fresh = MODELS.build(cfg)
    for d in fresh.modules():
        if hasattr(d, 'drop_prob'):
            d.drop_prob = 0.
    fresh.double().load_state_dict(m.state_dict())
    load_fix_subnet(fresh, fix)
    chosen = {k: v['chosen'] if isinstance(v, dict) else v.chosen
              for k, v in fix.items()}
    for k, v in chosen.items():
        if '_p' not in k:
            best = arch[k].topk(min(c['chosen'], len(arch[k]))).indices
            assert sorted(v) == sorted(f'{k}_p{i}' for i in best.tolist()), \
                f'{k}: {v} are not the {c["chosen"]} best of {arch[k]}'

    def fixed_edge(name):
        v = chosen[name]
        v = v if isinstance(v, list) else [v]
        assert len(v) == 1
        assert v[0] == c['cands'][int(arch[name].argmax())], \
            f'{name}: {v} is not the best candidate'
        return [(v[0], 1.)]

    def fixed_route(node, n):
        return [(int(e.rsplit('_p', 1)[1]), 1.) for e in chosen[node]]

    compare(fresh, fixed_edge, fixed_route, 'DARTS subnet').done()


# ---------------------------------------------------------- AttentiveMobileNet
@st.composite
def mb3_case(draw):
    def asc(lo, hi, k, step=1):
        vals = draw(st.lists(ints(lo, hi), min_size=1, max_size=k,
                             unique=True))
        return sorted(v * step for v in vals)

    n = 7 if draw(ints(0, 3)) == 0 else draw(ints(1, 3))
    cls = draw(st.booleans())
    big = n == 7
    stages = [dict(
        depth=asc(1, 2 if big else 3, 1 if big else 2),
        ch=asc(1, 3, 2, 8), k=sorted(draw(st.lists(
            st.sampled_from([3, 5, 7]), min_size=1, max_size=2,
            unique=True))),
        e=asc(1, 4, 2), s=draw(ints(1, 2)) if i < 4 else 1,
        se=draw(st.booleans()), act=draw(st.sampled_from(CLS_ACTS)))
        for i in range(n)]
    return dict(
        stages=stages, first=asc(1, 3, 2, 8), last=asc(1, 4, 2, 8),
        last_e=[draw(ints(1, 4))], acts=[draw(st.sampled_from(CLS_ACTS))
                                   for _ in range(2)],
        wf=draw(st.sampled_from([1., 1., .5, 1.5])),
        outs=draw(st.lists(ints(0, n), min_size=1, max_size=3, unique=True))
        if not cls else sorted({n, draw(ints(0, n))}), cls=cls,
        ncls=draw(ints(1, 5)), drop=draw(st.sampled_from([0., .5])),
        alias=draw(st.sampled_from([None, 'img'])),
        sizes=draw(st.lists(st.tuples(*[st.sampled_from([16, 20, 24])] * 2),
                            max_size=3, unique=True)) if cls else [],
        frozen=draw(st.sampled_from([-1, draw(ints(-1, n))])),
        norm_eval=draw(st.booleans()), fine=draw(st.booleans()),
        attn=draw(st.booleans()), cp=draw(st.booleans()),
        steps=draw(ints(1, 3)), size=draw(st.sampled_from([16, 21, 32])), wide=draw(ints(0, 5)),
        seed=draw(ints(0, 9999)))


def mb3_arch(c):
    def rng(v):
        # a (min, max, step) range where possible
        if len(v) == 1:
            return [v[0], v[0], 1]
        return [v[0], v[-1], v[1] - v[0]]

    st_ = c['stages']
    return dict(
        kernel_size=[rng(s['k']) for s in st_],
        num_blocks=[rng(s['depth']) for s in st_],
        expand_ratio=[rng(s['e']) for s in st_] + [rng(c['last_e'])],
        num_out_channels=[rng(c['first'])] + [rng(s['ch']) for s in st_] +
        [rng(c['last'])])


def mb3_cfg(c, **kw):
    return dict(
        type='AttentiveMobileNetV3', arch_setting=mb3_arch(c),
        widen_factor=c['wf'], out_indices=tuple(c['outs']),
        frozen_stages=c['frozen'], norm_eval=c['norm_eval'],
        act_cfg_list=[c['acts'][0]] + [s['act'] for s in c['stages']] +
        [c['acts'][1]],
        stride_list=[s['s'] for s in c['stages']],
        with_se_list=[s['se'] for s in c['stages']], with_cp=c['cp'],
        fine_grained_mode=c['fine'], with_attentive_shortcut=c['attn'],
        conv_cfg=dict(type='mmrazor.BigNasConv2d'),
        norm_cfg=dict(type='mmrazor.DynamicBatchNorm2d'), **kw)


def mb3_stages(c):
    return [sorted({divisible(v * c['wf'], 8) for v in vs})
            for vs in [c['first']] + [s['ch'] for s in c['stages']] +
            [c['last']]]


def mb3_ref(c, W, x, pick):
    """pick(alias) -> current choice of a named search variable"""
    x = W.cm('first_conv', x, pick('backbone.first_channels'), 3, 2, 1,
             act=c['acts'][0])
    outs = []
    for i, s in enumerate(c['stages']):
        pre = f'backbone.layers.{i + 1}.'
        ch = pick(pre + 'out_channels')
        for j in range(pick(pre + 'depth')):
            at = pre + (f'{j}.' if c['fine'] else '')
            k, e = pick(at + 'kernel_size'), pick(at + 'expand_ratio')
            mid = e * x.size(1)
            B = W.at(f'layer{i + 1}.{j}')
            stride = s['s'] if j == 0 else 1
            y = x
            if B.has('expand_conv.conv.weight'):
                y = B.cm('expand_conv', y, mid, 1, act=s['act'])
            y = B.cm('depthwise_conv', y, mid, k, stride, k // 2,
                     act=s['act'], g=mid)
            if s['se']:
                es = pick(at + 'expand_ratio_se') if c['fine'] else e
                y = B.se('se', y, divisible(es * x.size(1) // 4, 8),
                         ('ReLU', 'HSigmoid'))
            y = B.cm('linear_conv', y, ch, 1, act=None)
            if c['attn']:
                sc = x
                if stride == 2:
                    sc = F.avg_pool2d(sc, 2, padding=[n % 2 for n in x.shape[2:]])
                if sc.size(1) != ch:
                    sc = B.at('shortcut').conv('conv', sc, ch, 1, bias=False)
                y = y + sc
            elif stride == 1 and (j > 0 or mb3_static_res(c)[i]):
                y = y + x
            x = y
        outs.append(x)
    e = pick('last_e')
    L = W.at('last_conv')
    x = L.cm('final_expand_layer', x, e * x.size(1), 1, act=c['acts'][1])
    x = x.mean([2, 3], keepdim=True)
    n = pick('backbone.last_channels')
    outs.append(ACTS[c['acts'][1]](L.conv('feature_mix_layer.conv', x, n, 1,
                                          bias=False)))
    return outs


def unit_role(name):
    """Which width a convolution of AttentiveMobileNetV3 decides."""
    name = name.replace('backbone.', '')
    if name == 'first_conv.conv':
        return 'backbone.first_channels'
    if name == 'last_conv.feature_mix_layer.conv':
        return 'backbone.last_channels'
    if name.startswith('layer') and name.endswith('linear_conv.conv'):
        return f'backbone.layers.{name.split(".")[0][5:]}.out_channels'


def variables(mut):
    """Search variables by alias; channels by the width they decide."""
    out = {}
    for group in mut.search_groups.values():
        assert len({id(v) for v in group}) == 1
        v = group[0]
        if isinstance(v, OneShotMutableChannelUnit):
            names = {unit_role(r.name) for r in v.output_related} - {None}
        else:
            names = {v.alias}
        name, = names
        assert name not in out, f'two variables {name}'
        out[name] = v
    return out


def mb3_static_res(c):
    """Blocks whose largest input and output widths agree."""
    ch = mb3_stages(c)
    return [max(a) == max(b) for a, b in zip(ch, ch[1:-1])]


def mb3_model(c):
    if not c['cls']:
        return mb3_cfg(c)
    return dict(
        type='SearchableImageClassifier',
        backbone=dict(mb3_cfg(c), type='mmrazor.AttentiveMobileNetV3'),
        neck=dict(type='mmrazor.SqueezeMeanPoolingWithDropout',
                  drop_ratio=c['drop']),
        head=dict(type='mmrazor.DynamicLinearClsHead', num_classes=c['ncls'],
                  in_channels=max(mb3_stages(c)[-1]),
                  loss=dict(type='mmcls.CrossEntropyLoss')),
        connect_head=dict(
            connect_with_backbone='backbone.last_mutable_channels'),
        input_resizer_cfg=dict(input_sizes=[list(s) for s in c['sizes']],
                               **({} if c['alias'] is None else
                                  dict(alias=c['alias'])))
        if c['sizes'] else None)


def run_mb3(c, rec):
    """Widths, kernels, depths, expansion, SE, shortcuts, outputs, freezing
    and export of AttentiveMobileNetV3, alone and in a classifier."""
    cfg = mb3_model(c)
    keep = copy.deepcopy(cfg)
    m = MODELS.build(cfg)
    if not c['cls']:  # mmcls itself registers its parts in the config
        assert cfg == keep, 'the configuration was modified'
    double(m, c['seed'])
    ch = mb3_stages(c)
    x = image(c)
    mut = NasMutator()
    mut.prepare_from_supernet(m)
    names = variables(mut)
    # the space is the declared one
    want = {'backbone.first_channels': ch[0]}
    if c['cls']:
        want['backbone.last_channels'] = ch[-1]
        if c['sizes']:
            want[c['alias'] or 'input_shape'] = [list(s) for s in c['sizes']]
    for i, s in enumerate(c['stages']):
        pre = f'backbone.layers.{i + 1}.'
        want[pre + 'out_channels'] = ch[i + 1]
        want[pre + 'depth'] = s['depth']
        for at in ([pre] if not c['fine'] else
                   [f'{pre}{k}.' for k in range(max(s['depth']))]):
            want[at + 'kernel_size'] = s['k']
            want[at + 'expand_ratio'] = s['e']
            if c['fine'] and s['se']:
                want[at + 'expand_ratio_se'] = s['e']
    assert set(names) == set(want), set(names) ^ set(want)

    def values(v):
        return v.candidate_choices if isinstance(
            v, OneShotMutableChannelUnit) else v.choices

    for k, v in want.items():
        got = sorted(map(str, values(names[k])))
        assert set(got) == set(map(str, v)), \
            f'{k}: {values(names[k])}, declared {v}'
    rec.hit(any(len(v) > 1 for v in want.values()))
    rec.tag('fine' if c['fine'] else 'coarse')
    rec.tag('classifier' if c['cls'] else 'backbone')
    g = random.Random(c['seed'])
    net = m.backbone if c['cls'] else m

    def pick(alias):
        if alias not in names:  # what nothing consumes is not searched
            return {'last_e': c['last_e'][-1],
                    'backbone.last_channels': ch[-1][-1]}[alias]
        return names[alias].current_choice

    def check(m, W, what, train=False):
        net = m.backbone if c['cls'] else m
        y = x
        if c['cls'] and c['sizes']:
            y = F.interpolate(x, pick(c['alias'] or 'input_shape'),
                              mode='bicubic', align_corners=False)
        ref = mb3_ref(c, W.at('backbone') if c['cls'] else W, y, pick)
        check_outs(net(y), ref, c['outs'], what)
        if not c['cls']:
            return
        feat = [ref[i] for i in sorted(c['outs'])]
        got = m.extract_feat(x, stage='backbone')
        check_outs(got, ref, c['outs'], f'{what}: extract_feat')
        raw = m.extract_feat(x, stage='backbone', input_resizer=False)
        same = net(x)
        for a, b in zip(raw, same):
            close(a, b, f'{what}: features without resizing')
        pooled = [f.mean([2, 3]) for f in feat]
        logits = W.at('head').linear('fc', pooled[-1], c['ncls'])
        if not train or not c['drop']:
            for a, b in zip(m.extract_feat(x), pooled):
                close(a, b, f'{what}: neck')
            close(m.head(m.extract_feat(x)), logits, f'{what}: head')
            gt = torch.arange(len(x)) % c['ncls']
            samples = [ClsDataSample().set_gt_label(int(i)) for i in gt]
            loss = m(x, samples, mode='loss')['loss']
            close(loss, F.cross_entropy(logits, gt), f'{what}: loss')
        if not train:
            pred = m(x, samples, mode='predict')
            for p, z in zip(pred, logits.softmax(-1)):
                close(p.pred_label.score, z, f'{what}: predicted scores')
        return logits

    done = False
    for step in range(c['steps']):
        mut.set_choices(mut.sample_choices())
        for k, v in names.items():  # any combination of values
            v.current_choice = g.choice(sorted(values(v)))
        done = mb3_runs(c, pick)
        if not done:
            rec.tag('widths differ')
            continue
        m.eval()
        sd = state(m)
        train = step % 2 == 1
        if train:
            for b in m.modules():
                b.training = True
        check(m, Weights(sd, train=train, slices=True),
              'AttentiveMobileNetV3', train)
        m.load_state_dict(sd)
    if not done:
        return
    m.eval()
    fix, _ = export_fix_subnet(m)
    fresh = MODELS.build(mb3_model(c))
    fresh.double().load_state_dict(m.state_dict())
    load_fix_subnet(fresh, fix)
    fresh.eval()
    W = Weights(state(fresh))
    check(fresh, W, 'exported AttentiveMobileNetV3')
    if not c['attn']:
        W.done()
    if c['cls']:
        close(m(x), fresh(x), 'exported classifier')
        return

    def frozen_of(n):
        if c['frozen'] >= 0 and n.startswith('first_conv.'):
            return 'params'
        for i in range(c['frozen']):
            if n.startswith(f'layer{i + 1}.'):
                return 'all'

    check_frozen(m, x, frozen_of, c['norm_eval'], 'AttentiveMobileNetV3')
    # zero_init_residual: blocks with a shortcut start as their shortcut
    m.init_weights()
    for n, b in m.named_modules():
        if isinstance(b, MBBlock):
            zero = bool((b.linear_conv.norm.weight == 0).all())
            has = c['attn'] or (
                b.depthwise_conv.conv.stride[0] == 1 and
                b.in_channels == b.out_channels)
            assert zero == has, f'{n}: zero-initialised {zero}, shortcut {has}'


def mb3_runs(c, pick):
    """Without attentive shortcuts the widths around a shortcut must agree
    in the subnet too."""
    if c['attn']:
        return True
    prev = pick('backbone.first_channels')
    for i, s in enumerate(c['stages']):
        cur = pick(f'backbone.layers.{i + 1}.out_channels')
        if mb3_static_res(c)[i] and s['s'] == 1 and prev != cur:
            return False
        prev = cur
    return True


# ------------------------------------------------------------- Autoformer
@st.composite
def former_case(draw):
    def asc(vals, k):
        return sorted(draw(st.lists(st.sampled_from(vals), min_size=1,
                                    max_size=k, unique=True)))

    return dict(
        depth=asc([1, 2, 3], 2), heads=asc([1, 2, 3], 2),
        ratio=asc([1., 1.5, 2., 2.5], 3), embed=asc([8, 12, 16, 24], 3),
        patch=draw(st.sampled_from([4, 8])), grid=draw(ints(1, 4)),
        cin=draw(ints(1, 4)), bias=draw(st.booleans()),
        act=draw(st.sampled_from(['GELU', 'ReLU'])),
        final=draw(st.booleans()),
        drop=draw(st.sampled_from([0., .1])),
        dpr=draw(st.sampled_from([0., .1])),
        steps=draw(ints(1, 4)), seed=draw(ints(0, 9999)))


def former_cfg(c, **kw):
    return dict(
        type='AutoformerBackbone', arch_setting=dict(
            mlp_ratios=list(c['ratio']), num_heads=list(c['heads']),
            depth=list(c['depth']), embed_dims=list(c['embed'])),
        img_size=c['patch'] * c['grid'], patch_size=c['patch'],
        in_channels=c['cin'], qkv_bias=c['bias'], drop_rate=c['drop'],
        drop_path_rate=c['dpr'], act_cfg=dict(type=c['act']),
        use_final_norm=c['final'], **kw)


def former_ref(c, W, x, embed, depth, heads, ratios):
    p = c['patch']
    x = W.at('patch_embed').conv('projection', x, embed, p, p)
    x = x.flatten(2).transpose(1, 2)
    tok = W.get('cls_token')[..., :embed].expand(len(x), -1, -1)
    x = torch.cat([tok, x], 1) + W.get('pos_embed')[..., :embed]
    for i in range(depth):
        B = W.at(f'blocks.{i}')
        x = x + attention(B.at('attn'), B.ln('ln1', x), heads[i], 14)
        y = ACTS[c['act']](B.linear('fc1', B.ln('ln2', x),
                                    int(ratios[i] * embed)))
        x = x + B.linear('fc2', y, embed)
    if c['final']:
        x = W.ln('ln', x)
    return x[:, 1:].mean(1)


def run_former(c, rec):
    """Embedding widths, depth, heads and ratios of the Autoformer."""
    cfg = former_cfg(c)
    keep = copy.deepcopy(cfg)
    m = MODELS.build(cfg)
    assert cfg == keep, 'the configuration was modified'
    double(m, c['seed'])
    side = c['patch'] * c['grid']
    x = rand_tensor((2, c['cin'], side, side), c['seed'] + 1).double()
    mut = NasMutator()
    mut.prepare_from_supernet(m)
    n = max(c['depth'])
    rec.hit(len(c['depth']) + len(c['heads']) + len(c['ratio']) +
            len(c['embed']) > 4)
    g = random.Random(c['seed'])
    m.eval()
    for step in range(c['steps']):
        mut.set_choices(mut.sample_choices())
        m.mutable_depth.current_choice = g.choice(c['depth'])
        m.mutable_embed_dims.current_choice = g.choice(c['embed'])
        for h in m.mutable_num_heads:
            h.current_choice = g.choice(c['heads'])
        for r in m.mutable_mlp_ratios:
            r.current_choice = g.choice(c['ratio'])
        pick = dict(embed=m.mutable_embed_dims.current_choice,
                    depth=m.mutable_depth.current_choice,
                    heads=[h.current_choice for h in m.mutable_num_heads],
                    ratios=[r.current_choice for r in m.mutable_mlp_ratios])
        ref = former_ref(c, Weights(state(m), slices=True), x, **pick)
        got = m(x)
        assert isinstance(got, tuple) and len(got) == 1
        close(got[0], ref, f'Autoformer {pick}')
    fix, _ = export_fix_subnet(m)
    fresh = MODELS.build(cfg)
    fresh.double().load_state_dict(m.state_dict())
    load_fix_subnet(fresh, fix)
    fresh.eval()
    W = Weights(state(fresh))
    close(fresh(x)[0], former_ref(c, W, x, **pick), 'exported Autoformer')
    W.done()
    close(fresh(x)[0], got[0], 'exported Autoformer')
    if not c['drop'] and not c['dpr']:
        for mod in (m, fresh):
            mod.train()
            close(mod(x)[0], got[0], 'Autoformer in training mode')


# -------------------------------------------------------------- WideResNet
@st.composite
def wide_case(draw):
    n = draw(ints(1, 3))
    return dict(
        depth=draw(st.sampled_from([10, 10, 16])), stages=n,
        wf=draw(ints(1, 3)), stem=draw(ints(1, 4)), base=2 * draw(ints(1, 2)),
        exp=draw(st.sampled_from([None, 1, 2])), cin=draw(ints(1, 3)),
        strides=[draw(ints(1, 2)) for _ in range(n)],
        dil=[draw(ints(1, 2)) for _ in range(n)],
        norm=draw(st.sampled_from(['BN', 'BN', 'GN'])),
        frozen=draw(ints(-1, n)), norm_eval=draw(st.booleans()),
        zero=draw(st.booleans()), size=draw(ints(8, 12)),
        train=draw(st.booleans()), seed=draw(ints(0, 9999)))


def run_wide(c, rec):
    """Pre-activation blocks, widths, strides, dilation and freezing."""
    norm = dict(type='BN') if c['norm'] == 'BN' else dict(
        type='GN', num_groups=2 if not c['stem'] % 2 else 1)
    cfg = dict(
        type='WideResNet', depth=c['depth'], widen_factor=c['wf'],
        in_channels=c['cin'], stem_channels=c['stem'],
        base_channels=c['base'], expansion=c['exp'], num_stages=c['stages'],
        strides=tuple(c['strides']), dilations=tuple(c['dil']),
        frozen_stages=c['frozen'], norm_cfg=norm, norm_eval=c['norm_eval'],
        zero_init_residual=c['zero'])
    keep = copy.deepcopy(cfg)
    m = MODELS.build(cfg)
    assert cfg == keep, 'the configuration was modified'
    rec.hit(True)
    rec.tag(c['norm'])
    m.init_weights()
    tag = c['norm'].lower()
    for n, p in m.named_parameters():
        kind, _, what = n.rpartition('.')
        if tag in kind.split('.')[-1]:
            want = float(what == 'weight' and
                         not (c['zero'] and kind.endswith(f'{tag}2')))
            assert bool((p == want).all()), f'{n} is not initialised'
    double(m, c['seed'])
    x = image(c, c['cin'], size=c['size'])
    m.eval()
    m.train(c['train'])
    trained = {n: b.training for n, b in m.named_modules()}
    # frozen stages and norm_eval keep their statistics
    sd = state(m)
    exp = c['exp'] or c['wf']
    blocks = {10: 1, 16: 2}[c['depth']]

    def norm_of(W, name, y, path):
        if c['norm'] == 'GN':
            N = W.at(name)
            return F.group_norm(y, norm['num_groups'],
                                N.get('weight', (y.size(1), )),
                                N.get('bias', (y.size(1), )))
        W.train = c['train'] and not frozen(path)
        return W.bn(name, y)

    def frozen(path):
        return c['norm_eval'] or (c['frozen'] >= 0 if path is None
                                  else path < c['frozen'])

    W = Weights(sd)
    y = W.conv('conv1', x, c['stem'], 3, 1, 1, bias=False)
    ch = c['base'] * exp
    for i in range(c['stages']):
        for j in range(blocks):
            B = W.at(f'layer{i + 1}.{j}')
            s, d = (c['strides'][i] if j == 0 else 1), c['dil'][i]
            a = F.relu(norm_of(B, f'{tag}1', y, i))
            z = B.conv('conv1', a, ch, 3, s, d, d, bias=False)
            z = F.relu(norm_of(B, f'{tag}2', z, i))
            z = B.conv('conv2', z, ch, 3, 1, 1, bias=False)
            if j == 0 and (s != 1 or y.size(1) != ch):
                y = B.conv('downsample', a, ch, 1, s, bias=False)
            y = y + z
        ch *= 2
    y = F.relu(norm_of(W, f'{tag}1', y, None))
    W.done()
    got = m(x)
    assert isinstance(got, tuple) and len(got) == 1
    close(got[0], y, 'WideResNet')
    assert m.feat_dim == y.size(1)
    m.load_state_dict(sd)

    def frozen_of(n):
        if c['frozen'] >= 0 and n.split('.')[0] in ('conv1', f'{tag}1'):
            return 'all'
        for i in range(c['frozen']):
            if n.startswith(f'layer{i + 1}.'):
                return 'all'

    check_frozen(m, x, frozen_of, c['norm_eval'], 'WideResNet')
    assert set(trained) == {n for n, _ in m.named_modules()}


# -------------------------------------------------------------------- heads
@st.composite
def head_case(draw):
    return dict(
        kind=draw(st.sampled_from(['darts', 'deit', 'neck', 'drop'])),
        cin=draw(ints(1, 6)), aux=draw(ints(1, 6)), ncls=draw(ints(2, 5)),
        batch=draw(ints(1, 4)), soft=draw(st.booleans()),
        w=[draw(st.sampled_from([1., .4])) for _ in range(2)],
        smooth=draw(st.sampled_from([None, .1])),
        topk=draw(ints(1, 2)), acc=draw(st.booleans()),
        hidden=draw(st.sampled_from([None, 3, 5])),
        shapes=[draw(st.lists(ints(1, 4), max_size=3))
                for _ in range(draw(ints(1, 3)))],
        tensor=draw(st.booleans()), train=draw(st.booleans()),
        p=draw(st.sampled_from([None, 0., .3, .5])),
        layers=draw(st.lists(ints(1, 3), min_size=1, max_size=4)),
        stages=sorted(draw(st.sets(ints(1, 4)))),
        rate=draw(st.sampled_from([0., .2, .7])), seed=draw(ints(0, 9999)))


def run_head(c, rec):
    """Auxiliary and distillation heads, pooling with dropout, and the
    stochastic depth schedule."""
    rec.tag(c['kind'])
    rec.hit(True)
    if c['kind'] == 'drop':
        def blocks(la):
            return [b for b in la if isinstance(b, MBBlock)]

        layers = [DynamicSequential(*[
            MBBlock(kernel_size=3, expand_ratio=1, in_channels=2,
                    out_channels=2) for _ in range(n)]) for n in c['layers']]
        for la in layers:
            for b in blocks(la):
                b.drop_path_rate = .123
        set_dropout(layers, MBBlock, c['stages'], c['rate'])
        k, total = 0, sum(c['layers'])
        for i, la in enumerate(layers):
            for b in blocks(la):
                want = c['rate'] * k / total if i + 1 in c['stages'] else .123
                assert abs(b.drop_path_rate - want) < 1e-12, \
                    f'block {k} of {total}: {b.drop_path_rate}, want {want}'
                k += 1
        return
    if c['kind'] == 'neck':
        m = MODELS.build(dict(type='SqueezeMeanPoolingWithDropout',
                              drop_ratio=c['p']))
        m.train(c['train'])
        xs = [rand_tensor((c['batch'], c['cin'], *s), c['seed'] + i).double()
              for i, s in enumerate(c['shapes'])]
        got = m(xs[0]) if c['tensor'] else m(tuple(xs))
        assert isinstance(got, torch.Tensor if c['tensor'] else tuple)
        got = [got] if c['tensor'] else got
        assert len(got) == (1 if c['tensor'] else len(xs))
        for y, x in zip(got, xs):
            ref = x.flatten(2).mean(2) if x.dim() > 2 else x
            assert y.shape == ref.shape
            if c['train'] and c['p']:
                ok = ((y - ref / (1 - c['p'])).abs() < 1e-9) | (y == 0)
                assert bool(ok.all()), 'neither kept nor dropped'
            else:
                close(y, ref, 'pooling')
        return
    if c['kind'] == 'deit':
        m = MODELS.build(dict(type='mmrazor.DeiTClsHead', in_channels=c['cin'],
                              num_classes=c['ncls'], hidden_dim=c['hidden']))
        double(m, c['seed'])
        cls, dist = (rand_tensor((c['batch'], c['cin']), c['seed'] + i)
                     .double() for i in (1, 2))
        seen = {}
        hook = m.layers.head_dist.register_forward_hook(
            lambda mod, i, o: seen.update(out=o))
        feats = ([None, dist, cls], [None, cls, dist])
        got = m(feats)
        hook.remove()
        W = Weights(state(m))
        for y, t, name in ((got, cls, 'head'), (seen['out'], dist,
                                                'head_dist')):
            if c['hidden'] is not None:
                t = torch.tanh(W.linear('layers.pre_logits', t, c['hidden']))
            close(y, W.linear(f'layers.{name}', t, c['ncls']), name)
        W.done()
        return
    loss = [dict(type='mmcls.CrossEntropyLoss', loss_weight=w, use_soft=False)
            for w in c['w']]
    if c['smooth']:
        loss[0] = dict(type='mmcls.LabelSmoothLoss', mode='original',
                       label_smooth_val=c['smooth'], loss_weight=c['w'][0],
                       num_classes=c['ncls'])
    if c['soft']:
        loss = [dict(type='mmcls.CrossEntropyLoss', loss_weight=w,
                     use_soft=True) for w in c['w']]
    acc = c['acc'] and not c['soft']
    m = MODELS.build(dict(
        type='mmrazor.DartsSubnetClsHead', in_channels=c['cin'],
        aux_in_channels=c['aux'], num_classes=c['ncls'], loss=loss[0],
        aux_loss=loss[1], cal_acc=acc, topk=tuple(range(1, c['topk'] + 1))))
    double(m, c['seed'])
    fa, fm = (rand_tensor((c['batch'], n), c['seed'] + i).double()
              for i, n in enumerate((c['aux'], c['cin'])))
    g = torch.Generator().manual_seed(c['seed'])
    label = torch.randint(c['ncls'], (c['batch'], ), generator=g)
    score = torch.rand(c['batch'], c['ncls'], generator=g).double()
    score = score / score.sum(1, keepdim=True)
    samples = [ClsDataSample().set_gt_score(s) if c['soft'] else
               ClsDataSample().set_gt_label(int(v))
               for v, s in zip(label, score)]
    got = {k.replace('..', '.'): v
           for k, v in m.loss((fa, fm), samples).items()}
    W = Weights(state(m))
    want = {}
    for pre, name, f, w, smooth in (
            ('', 'fc', fm, c['w'][0], c['smooth']),
            ('aux_head.', 'aux_linear', fa, c['w'][1], None)):
        z = W.linear(name, f, c['ncls'])
        one = F.one_hot(label, c['ncls']).double()
        if c['soft']:
            one = score
        elif smooth:
            one = one * (1 - smooth) + smooth / c['ncls']
        want[pre + 'loss'] = -w * (one * z.log_softmax(1)).sum(1).mean()
        if acc:
            val, order = z.sort(1, descending=True)
            for k in range(1, c['topk'] + 1):
                # mmcls only counts predictions above a threshold of 0
                hits = ((order == label[:, None]) & (val > 0))[:, :k].any(1)
                want[f'{pre}accuracy_top-{k}'] = hits.double().mean() * 100
    W.done()
    assert set(got) == set(want), f'{set(got)}, expected {set(want)}'
    for k, v in want.items():
        close(torch.as_tensor(got[k], dtype=torch.double).reshape(()), v, k,
              1e-5 if 'acc' in k else 1e-6)
    close(m((fa, fm)), W.linear('fc', fm, c['ncls']), 'scores')


SUBS = [
    Sub('op', op_case(), run_op, 900),
    Sub('chain', chain_case(), run_chain, 120),
    Sub('darts', darts_case(), run_darts, 60),
    Sub('mb3', mb3_case(), run_mb3, 80),
    Sub('former', former_case(), run_former, 80),
    Sub('wide', wide_case(), run_wide, 120),
    Sub('head', head_case(), run_head, 400),
]
