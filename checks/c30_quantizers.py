"""C30: quantized models - prepared, trained, synchronised, deployed."""
import copy
import warnings

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
from mmengine.model import BaseModel
from torch.ao.quantization import (FakeQuantizeBase, disable_fake_quant,
                                   disable_observer, enable_fake_quant,
                                   enable_observer)
from torch.ao.quantization.fake_quantize import FixedQParamsFakeQuantize
from torch.fx import Node

import mmrazor.engine  # noqa: F401  (registers torch observers)
from mmrazor.models import MMArchitectureQuant
from mmrazor.models.algorithms.quantization.mm_architecture import \
    MMArchitectureQuantDDP
from mmrazor.models.fake_quants import LearnableFakeQuantize
from mmrazor.models.quantizers.native_quantizer import SUPPORT_QAT_MODULES
from mmrazor.models.task_modules.tracer import fx as razor_fx
from mmrazor.registry import MODELS
from pbt import ddp
from pbt.core import Sub
from pbt.nnutil import close, rand_tensor, randomize

warnings.filterwarnings('ignore')

PID = 'C30'
RULE = ('the network has a fused block, a join or reused module and weights '
        'or activations are really quantized')
ASSUMPTIONS = [
    'CPU; no mmdeploy: the deployed model is taken from architectures whose '
    'forward does not depend on the mode',
    'dropout is inactive; norms keep running statistics',
]
ints = st.integers
W = 4  # channels inside the networks

OPS = ['conv', 'conv1', 'convbn', 'convbnrelu', 'convrelu', 'convrelu6', 'bn',
       'relu', 'relu6', 'identity', 'maxpool', 'avgpool', 'sigmoid', 'add',
       'iadd', 'ffadd', 'cat', 'frelu', 'mul', 'scale', 'sub', 'exp', 'reuse',
       'reuse', 'dw', 'drop', 'hsig', 'linear', 'fmax']


class Head(nn.Module):
    """Head whose loss and prediction cannot be traced."""

    def __init__(self, cin, cout, relu):
        super().__init__()
        self.fc = nn.Linear(cin, cout)
        self.act = nn.ReLU() if relu else None

    def forward(self, x):
        x = self.fc(x)
        return x if self.act is None else self.act(x)

    def _get_loss(self, logits, data_samples):
        if data_samples is None:
            raise ValueError
        return dict(loss=F.cross_entropy(logits, data_samples))

    def _get_predictions(self, logits, data_samples):
        out = []
        for i in range(len(logits)):
            out.append(logits[i].softmax(0))
        return out


class Head2(Head):
    """Several features, nested in containers."""

    def _get_loss(self, logits, data_samples):
        return dict(loss=F.cross_entropy(logits[0], data_samples) +
                    logits[1][0].pow(2).mean())

    def _get_predictions(self, logits, data_samples):
        return [logits[0].softmax(1), logits[1][0]]


class ScaleLayer(nn.Module):

    def __init__(self):
        super().__init__()
        self.scale = nn.Parameter(torch.ones(1, W, 1, 1))
        self.register_buffer('shift', torch.zeros(1))

    def forward(self, x):
        return x * self.scale + self.shift


def linear_map(m, x):
    return m(x.permute(0, 2, 3, 1)).permute(0, 3, 1, 2)


def bn_layer(kind):
    from mmengine.model.utils import _BatchNormXd
    if kind == 'sync':
        return nn.SyncBatchNorm(W)
    if kind == 'xd':
        return _BatchNormXd(W, eps=1e-3, momentum=0.2)
    return nn.BatchNorm2d(W, eps=1e-3, momentum=.3)


class Net(BaseModel):

    def __init__(self, c):
        super().__init__()
        self.c = c
        self.stem = nn.Conv2d(3, W, 3, padding=1)
        layers = nn.ModuleDict()
        self.steps = []
        pool = ['stem']  # reusable modules
        for i, (op, a, b) in enumerate(c['ops']):
            n = f'm{i}'
            src = (a % (i + 1), b % (i + 1))

            def conv(k=3, g=1, bias=bool(a % 2)):
                return nn.Conv2d(W, W, k, padding=k // 2, groups=g, bias=bias)

            call = 'module'
            if op == 'conv':
                layers[n] = conv()
                pool.append(n)
            elif op == 'conv1':
                layers[n] = conv(1)
                pool.append(n)
            elif op == 'dw':
                layers[n] = conv(3, W)
            elif op in ('convbn', 'convbnrelu', 'convrelu', 'convrelu6'):
                m = [conv()]
                if 'bn' in op:
                    m.append(bn_layer(c.get('norm', 'bn')))
                if op.endswith('relu'):
                    m.append(nn.ReLU(inplace=bool(b % 2)))
                if op.endswith('relu6'):
                    m.append(nn.ReLU6())
                layers[n] = nn.Sequential(*m)
                pool.append(n)
            elif op == 'bn':
                layers[n] = bn_layer(c.get('norm', 'bn'))
            elif op in ('relu', 'relu6', 'identity', 'sigmoid', 'hsig'):
                layers[n] = dict(relu=nn.ReLU, relu6=nn.ReLU6,
                                 identity=nn.Identity, sigmoid=nn.Sigmoid,
                                 hsig=nn.Hardsigmoid)[op]()
                pool.append(n)
            elif op == 'drop':
                layers[n] = nn.Dropout(0.)
            elif op == 'maxpool':
                layers[n] = nn.MaxPool2d(3, 1, 1)
            elif op == 'avgpool':
                layers[n] = nn.AvgPool2d(3, 1, 1)
            elif op == 'ffadd':
                layers[n] = torch.ao.nn.quantized.FloatFunctional()
                call = 'ffadd'
            elif op == 'cat':
                layers[n] = nn.Conv2d(2 * W, W, 1)
                call = 'cat'
            elif op == 'scale':
                layers[n] = ScaleLayer()
            elif op == 'linear':
                layers[n] = nn.Linear(W, W)
                call = 'linear'
            elif op == 'reuse':
                n = pool[b % len(pool)]
                if n == 'stem':
                    call = 'iadd'
            else:
                call = op
            self.steps.append((call, n, src))
        self.layers = layers
        multi = c.get('multi', False)
        self.gap = nn.AdaptiveAvgPool2d(1)
        self.head = (Head2 if multi else Head)(W, 5, c.get('hrelu', False))
        self.multi = multi

    def body(self, x):
        vals = [self.stem(x)]
        for call, n, (a, b) in self.steps:
            # the last value is always used, so no step is dead
            u, v = vals[-1], vals[a]
            if call == 'module':
                y = self.layers[n](u)
            elif call == 'ffadd':
                y = self.layers[n].add(u, v)
            elif call == 'cat':
                y = self.layers[n](torch.cat([u, v], 1))
            elif call == 'linear':
                y = linear_map(self.layers[n], u)
            elif call == 'add':
                y = u + v
            elif call == 'iadd':
                y = u * 1.0
                y += v
            elif call == 'mul':
                y = u * v.tanh()
            elif call == 'sub':
                y = u - v * 0.5
            elif call == 'exp':
                y = (-u.abs()).exp() - u
            elif call == 'frelu':
                y = F.relu(u)
            elif call == 'resize':
                y = F.max_pool2d(F.interpolate(u, scale_factor=2.), 2)
            elif call == 'chunk':
                y, z = u.chunk(2, 1)
                y = torch.cat([z, y], 1)
            elif call == 'pad':  # nothing, or a shift
                k = (0, 0, 0, 1)[b % 4]
                y = F.pad(u, (k, 0, 0, 0))[:, :, :, :8]
            elif call == 'fmax':
                y = F.max_pool2d(u, 3, 1, 1)
            else:
                raise AssertionError(call)
            vals.append(y)
        return vals[-1]

    def feats(self, x):
        y = self.body(x)
        if self.c.get('flat', 'method') == 'method':
            f = self.gap(y).flatten(1)
        else:
            f = torch.flatten(self.gap(y), 1)
        logits = self.head(f)
        return (logits, [y]) if self.multi else logits

    def forward(self, inputs, data_samples=None, mode='tensor'):
        if self.c.get('tiny'):
            return self.stem(inputs)
        logits = self.feats(inputs)
        if self.c.get('static'):
            return logits
        if mode == 'tensor':
            return logits
        elif mode == 'loss':
            return self.head._get_loss(logits, data_samples)
        return self.head._get_predictions(logits, data_samples)


@st.composite
def net_case(draw, multi=None, static=False):
    return dict(
        ops=[[draw(st.sampled_from(OPS)), draw(ints(0, 9)), draw(ints(0, 9))]
             for _ in range(draw(ints(1, 6)))],
        multi=draw(st.sampled_from([False, False, True]))
        if multi is None else multi,
        hrelu=draw(st.booleans()), norm=draw(st.sampled_from(
            ['bn', 'bn', 'bn', 'sync', 'xd'])),
        flat=draw(st.sampled_from(['method', 'function'])),
        static=static,
        backend=draw(st.sampled_from(['OpenVINO', 'TensorRT', 'TorchNative'])),
        lsq=draw(st.booleans()), wper=draw(st.booleans()),
        wsym=draw(st.sampled_from([True, True, False])),
        wrange=draw(st.booleans()),
        wbit=draw(st.sampled_from([8, 8, 4])),
        hist=draw(st.sampled_from([False, False, True])),
        seed=draw(ints(0, 9999)))


def quant_cfg(c):
    lsq = c['lsq']
    wo = ('LSQPerChannelObserver' if c['wper'] else 'LSQObserver') if lsq \
        else ('PerChannelMinMaxObserver' if c['wper'] else 'MinMaxObserver')
    ao = 'LSQObserver' if lsq else (
        'HistogramObserver' if c.get('hist') else 'MovingAverageMinMaxObserver')
    fq = 'LearnableFakeQuantize' if lsq else 'FakeQuantize'
    asc = dict(qdtype='quint8', bit=8, is_symmetry=bool(lsq))
    if ao.startswith('Moving'):
        asc['averaging_constant'] = 0.1
    if c['backend'] == 'TensorRT':
        asc['qdtype'] = 'qint8'
    return dict(
        w_observer=dict(type='mmrazor.' + wo),
        a_observer=dict(type='mmrazor.' + ao),
        w_fake_quant=dict(type='mmrazor.' + fq),
        a_fake_quant=dict(type='mmrazor.' + fq),
        w_qscheme=dict(qdtype='qint8', bit=c['wbit'], is_symmetry=c['wsym'],
                       is_symmetric_range=c['wrange']),
        a_qscheme=asc)


SKIPPED = [f'checks.c30_quantizers.{h}.{m}' for h in ('Head', 'Head2')
           for m in ('_get_loss', '_get_predictions')]


def quantizer_cfg(c, **kw):
    head = 'Head2' if c.get('multi') else 'Head'
    return dict(
        type=f"mmrazor.{c['backend']}Quantizer", global_qconfig=quant_cfg(c),
        tracer=dict(type='mmrazor.CustomTracer', skipped_methods=[
            s for s in SKIPPED if s.split('.')[-2] == head]), **kw)


def reset_registry():
    razor_fx.UntracedMethodRegistry.method_dict.clear()


def quant_off(m):
    m.apply(disable_fake_quant)
    m.apply(disable_observer)
    for f in m.modules():
        if isinstance(f, LearnableFakeQuantize):
            f.toggle_fake_quant(False)
            f.toggle_observer_update(False)
            f.toggle_qparam_learning(False)


def quant_eval(m):
    m.apply(enable_fake_quant)
    m.apply(disable_observer)
    for f in m.modules():
        if isinstance(f, LearnableFakeQuantize):
            f.enable_val()


def quant_observe(m):
    m.apply(enable_fake_quant)
    m.apply(enable_observer)
    for f in m.modules():
        if isinstance(f, LearnableFakeQuantize):
            f.enable_static_estimate()


def build_net(c):
    net = Net(c)
    randomize(net, c['seed'])
    net.train()
    return net


def is_fq(model, node):
    if node.op != 'call_module':
        return False
    m = model
    for a in node.target.split('.'):
        m = getattr(m, a, None)
        if m is None:
            return False
    return isinstance(m, FakeQuantizeBase)


def flat(o):
    if isinstance(o, torch.Tensor):
        return [o]
    if isinstance(o, dict):
        return [t for k in sorted(o) for t in flat(o[k])]
    return [t for v in o for t in flat(v)]


def same(a, b, what, tol=2e-4):
    a, b = flat(a), flat(b)
    assert len(a) == len(b), f'{what}: {len(a)} outputs, expected {len(b)}'
    for i, (p, q) in enumerate(zip(a, b)):
        close(p, q, tol, tol, f'{what}[{i}]')


def copy_float(net, c):
    """An independent float model with the weights of the network."""
    twin = Net(dict(c, norm='bn'))
    # converted norms have the parameters of the original ones
    eps = {n: m for n, m in net.named_modules()
           if isinstance(m, nn.modules.batchnorm._BatchNorm)}
    for n, m in twin.named_modules():
        if n in eps:
            m.eps, m.momentum = eps[n].eps, eps[n].momentum
    twin.load_state_dict(net.state_dict())
    return twin


def sane(outs):
    return all(bool(torch.isfinite(t).all()) and float(t.abs().max()) < 1e4
               for t in flat(outs))


# ------------------------------------------------- prepared models (graph) --
def snapshot_graph(model):
    """[(name, op, target, inputs, is fake quant)]."""
    out = []
    for n in model.graph.nodes:
        out.append(dict(
            name=n.name, op=n.op, target=n.target, node=n, fq=is_fq(model, n),
            ins=list(n.all_input_nodes)))
    return out


def expressions(model, deleted=frozenset()):
    """Expression of the output; `deleted` fake quants are transparent."""
    memo = {}
    for n in model.graph.nodes:
        def arg(a):
            if isinstance(a, Node):
                return memo[a]
            if isinstance(a, (list, tuple)):
                return tuple(arg(v) for v in a)
            if isinstance(a, dict):
                return tuple(sorted((k, arg(v)) for k, v in a.items()))
            return repr(a)
        if is_fq(model, n):
            memo[n] = memo[n.args[0]] if n in deleted else (
                'Q', memo[n.args[0]])
        else:
            t = n.target if isinstance(n.target, str) else \
                getattr(n.target, '__name__', str(n.target))
            memo[n] = (n.op, t, arg(n.args), arg(n.kwargs))
        last = memo[n]
    return last


BEFORE, AFTER = {}, {}


def ref_delete(model, rules):
    """Fake quants the rules remove, and whether one feeds other nodes too.

    rules: list of (where, predicate)."""
    deleted, shared = set(), False

    def resolve(n):
        while n in deleted:
            n = n.args[0]
        return n

    for where, deep, pred in rules:
        nodes = list(model.graph.nodes)
        if where == 'before':
            for n in nodes:
                if n in deleted or not pred(n):
                    continue
                todo = [n]
                seen = set()
                while todo:
                    k = todo.pop()
                    if k in seen:
                        continue
                    seen.add(k)
                    if is_fq(model, k):
                        deleted.add(k)
                        users = [u for u in k.users]
                        if len(users) > 1:
                            shared = True
                        continue
                    if k is not n and not deep:
                        continue
                    ins = [resolve(i) for i in k.all_input_nodes]
                    if k is n and not deep:
                        ins = ins[:1]
                    if k is not n and len(k.users) > 1:
                        shared = True
                    todo.extend(ins)
        else:
            targets = [n for n in nodes if n not in deleted and pred(n)]
            for n in nodes:
                if is_fq(model, n) and n not in deleted and \
                        resolve(n.args[0]) in targets:
                    deleted.add(n)
    return deleted, shared


@st.composite
def prepare_case(draw):
    c = draw(net_case())
    c['extra'] = draw(ints(0, 7))
    c['mode'] = draw(st.sampled_from(['tensor', 'loss', 'predict']))
    c['noobs'] = draw(st.sampled_from([None, None, 'torch.nn.Linear',
                                       'torch.nn.MaxPool2d']))
    if c['noobs'] == 'torch.nn.Linear':
        c['hrelu'] = False  # torch refuses to fuse different qconfigs
    return c


EXTRA = {
    1: dict(extra_module_prev_wo_fakequant=(nn.MaxPool2d, nn.AvgPool2d)),
    2: dict(extra_module_next_wo_fakequant=(nn.AvgPool2d, nn.ReLU6)),
    3: dict(extra_method_prev_wo_fakequant=('flatten', 'tanh')),
    4: dict(extra_method_next_wo_fakequant=('tanh', 'permute', 'exp')),
    5: dict(extra_function_prev_wo_fakequant=(torch.cat, )),
    6: dict(extra_function_next_wo_fakequant=(torch.cat, F.relu)),
    7: dict(extra_op_next_wo_fakequant=('placeholder', )),
}
DEPLOY = dict(
    module_prev=(nn.ReLU6, nn.Identity), module_next=(nn.MaxPool2d, ),
    method_next=('flatten', ), op_prev=('output', ))


def rules_of(c, model):
    base = DEPLOY if c['backend'] != 'TorchNative' else {}
    ex = EXTRA.get(c['extra'], {})

    def get(k):
        return tuple(base.get(k, ())) + tuple(
            ex.get(f'extra_{k}_wo_fakequant', ()))

    def mod(n):
        m = model
        for a in n.target.split('.'):
            m = getattr(m, a, None)
        return m

    def of(kind, vals):
        if kind == 'module':
            return lambda n: n.op == 'call_module' and isinstance(
                mod(n), vals)
        if kind == 'function':
            return lambda n: n.op == 'call_function' and n.target in vals
        if kind == 'method':
            return lambda n: n.op == 'call_method' and n.target in vals
        return lambda n: n.op in vals

    out = []
    for kind in ('module', 'function', 'method', 'op'):
        out.append(('before', kind != 'module', of(kind, get(f'{kind}_prev'))))
        out.append(('after', True, of(kind, get(f'{kind}_next'))))
    return out


def run_prepare(c, rec):
    reset_registry()
    net = build_net(c)
    kw = {}
    if c['extra'] in EXTRA:
        kw['extra_redundant_fakequants'] = EXTRA[c['extra']]
    if c['noobs']:
        kw['no_observer_modules'] = [c['noobs']]
    q = MODELS.build(quantizer_cfg(c, **kw))
    before = {k: v.clone() for k, v in net.state_dict().items()}
    q.convert_batchnorm2d(net)
    after = net.state_dict()
    assert set(before) == set(after), 'converting norms changed the state'
    for k, v in before.items():
        assert torch.equal(v, after[k]), f'converting norms changed {k}'
    for m in net.modules():
        assert type(m) is nn.BatchNorm2d or not isinstance(
            m, nn.modules.batchnorm._BatchNorm), type(m)
    ref = copy_float(net, c)
    x = rand_tensor((2, 3, 5, 5), c['seed'] + 1)
    y = torch.tensor([1, 3])
    mode = c['mode']
    with torch.no_grad():
        ok = sane(copy.deepcopy(ref)(x, y, mode))
    if not ok:
        rec.reject('overflow')
    args = {'mode': mode}
    bare = copy.deepcopy(net)

    prepared = q.prepare(net, dict(args))
    quant_off(prepared)
    # -- the float function, in both modes, with its gradients and statistics
    prepared.eval(), ref.eval()
    with torch.no_grad():
        same(prepared(x, y, mode), ref(x, y, mode), 'eval')
    prepared.train(), ref.train()
    for i in range(2):
        a = prepared(x + i, y, mode)
        b = ref(x + i, y, mode)
        same(a, b, 'train', 5e-4)
    pick = rand_tensor((1, ), c['seed']) * 0 + 1
    for o in (a, b):
        t = flat(o)
        loss = sum((v * rand_tensor(v.shape, c['seed'] + j) * pick).sum()
                   for j, v in enumerate(t))
        loss.backward()
    pr = dict(ref.named_parameters())
    for n, p in net.named_parameters():
        g = pr[n].grad
        if g is None:
            continue
        assert p.grad is not None, \
            f'parameter {n} is not trained by the prepared model'
        close(p.grad, g, 2e-3, 2e-3, f'gradient of {n}')
    trained = {id(p) for p in net.parameters()}
    for n, p in prepared.named_parameters():
        if n.endswith(('.scale', '.zero_point')) and 'shift' not in n and \
                'layers' not in n:
            continue
        if '.weight_fake_quant.' in n or 'activation_post_process' in n:
            continue
        assert id(p) in trained, f'{n} is detached from the architecture'
    br = dict(ref.named_buffers())
    for n, b in net.named_buffers():
        if n in br:
            close(b.float(), br[n].float(), 1e-3, 1e-3, f'buffer {n}')

    # -- fake quants: everything torch inserts except the redundant ones
    class Full(type(q)):
        def del_redundant_fakequant(self, prepared):
            return prepared

    full_q = Full(**{k: v for k, v in quantizer_cfg(c, **kw).items()
                     if k != 'type'})
    full = full_q.prepare(bare, dict(args))
    deleted, shared = ref_delete(full, rules_of(c, full))
    if not shared:
        assert expressions(prepared) == expressions(full, deleted), \
            'fake quants are not where they belong:\n' + prepared.code
    left = [n for n in prepared.graph.nodes if is_fq(prepared, n)]
    used = {n.target for n in left}
    for n, m in prepared.named_modules():
        if isinstance(m, FakeQuantizeBase) and n not in used:
            assert n.endswith('weight_fake_quant'), f'{n} is left over'
    # -- weights: fused and quantized
    wq = 0
    wcfg = quant_cfg(c)['w_qscheme']
    for n in prepared.graph.nodes:
        if n.op != 'call_module':
            continue
        m = prepared.get_submodule(n.target)
        if type(m) is nn.BatchNorm2d and not c['noobs']:
            src = n.args[0]
            if src.op == 'call_module' and len(src.users) == 1 and \
                    not is_fq(prepared, src):
                ms = prepared.get_submodule(src.target)
                assert type(ms) not in (nn.Conv2d, torch.ao.nn.qat.Conv2d), \
                    f'{src.target} is not fused with {n.target}'
        if not isinstance(m, (nn.Conv2d, nn.Linear)):
            continue
        kind = 'torch.nn.Linear' if isinstance(m, nn.Linear) else \
            'torch.nn.Conv2d'
        if c['noobs'] == kind and not isinstance(
                m, SUPPORT_QAT_MODULES):
            continue
        if c['noobs'] == kind:
            continue
        assert isinstance(m, SUPPORT_QAT_MODULES), \
            f'{n.target} ({type(m)}) is not quantized'
        f = m.weight_fake_quant
        lo = -2**(c['wbit'] - 1) + (1 if c['wrange'] else 0)
        assert (f.quant_min, f.quant_max) == (lo, 2**(c['wbit'] - 1) - 1)
        assert type(f).__name__ == ('LearnableFakeQuantize' if c['lsq']
                                    else 'FakeQuantize')
        assert wcfg['is_symmetry'] == ('symmetric' in str(f.qscheme))
        wq += 1
    if c['noobs'] is None:
        assert wq > 1
    rec.hit(wq > 1 and bool(left))
    rec.tag(c['backend'])
    rec.tag(mode)
    if deleted:
        rec.tag('deleted')
    if shared:
        rec.tag('shared')
    if any('_dup' in str(n.target) for n in prepared.graph.nodes):
        rec.tag('reused')


# ------------------------------------------------------------- deployment --
@st.composite
def deploy_case(draw):
    c = draw(net_case(static=True))
    c['keep'] = draw(st.booleans())
    c['update'] = draw(st.sampled_from([True, True, False]))
    c['learn'] = draw(st.booleans())
    return c


def calibrate(m, c, n=2, mode='tensor'):
    """Estimate, then move learnable scales away from their estimates."""
    quant_observe(m)
    m.eval()
    with torch.no_grad():
        for i in range(n):
            m(rand_tensor((2, 3, 5, 5), c['seed'] + 20 + i), None, mode)
    if c['lsq'] and c.get('learn'):
        g = torch.Generator().manual_seed(c['seed'])
        for f in m.modules():
            if isinstance(f, LearnableFakeQuantize):
                with torch.no_grad():
                    f.scale.mul_(.7 + torch.rand(1, generator=g))
    quant_eval(m)


def plain_weight(m):
    """Weight of a QAT module with its norm folded, before quantization."""
    if hasattr(m, 'bn'):
        bn = m.bn
        s = bn.weight / torch.sqrt(bn.running_var + bn.eps)
        w = m.weight * s.reshape([-1] + [1] * (m.weight.dim() - 1))
        b = m.bias if m.bias is not None else 0.
        return w.detach(), (bn.bias + (b - bn.running_mean) * s).detach()
    return m.weight.detach(), (None if m.bias is None else m.bias.detach())


def off_by(a, b, step):
    """Number of elements that differ."""
    assert a.shape == b.shape
    return int(((a - b).abs() > 1e-3 * step + 1e-6).sum())


def compare_weights(got, fq, w, name):
    want = fq(w)
    step = float(fq.scale.detach().max())
    n = off_by(got, want, step)
    assert n <= max(1, w.numel() // 50), \
        f'{name}: {n} of {w.numel()} deployed weights differ from the ' \
        'quantized ones'


def run_deploy(c, rec):
    reset_registry()
    net = build_net(c)
    q = MODELS.build(quantizer_cfg(c))
    q.convert_batchnorm2d(net)
    x = rand_tensor((2, 3, 5, 5), c['seed'] + 1)
    net.eval()
    with torch.no_grad():
        if not sane(net(x)):
            rec.reject('overflow')
    net.train()
    m = q.prepare(net, None)
    calibrate(m, c)
    qat = {n: k for n, k in m.named_modules()
           if isinstance(k, SUPPORT_QAT_MODULES)}
    with torch.no_grad():
        want = flat(m(x))
    ref = {}
    for n, k in qat.items():
        w, b = plain_weight(k)
        ref[n] = (w.clone(), None if b is None else b.clone(),
                  copy.deepcopy(k.weight_fake_quant))
    d = copy.deepcopy(m)
    q.post_process_for_deploy(
        d, update_weight_with_fakequant=c['update'],
        keep_w_fake_quant=c['keep'])
    d.eval()
    for n, (w, b, fq) in ref.items():
        k = d.get_submodule(n)
        conv = k if hasattr(k, 'weight') else k[0]
        assert not hasattr(k, 'bn'), f'{n}: norm is not merged'
        if b is None:
            assert conv.bias is None or float(conv.bias.abs().max()) == 0
        else:
            close(conv.bias, b, 1e-4, 1e-4, f'{n} bias')
        if c['update']:
            compare_weights(conv.weight.detach(), fq, w, n)
        else:
            close(conv.weight, w, 1e-4, 1e-4, f'{n} weight')
        if c['keep']:
            assert isinstance(k, SUPPORT_QAT_MODULES), n
            g = k.weight_fake_quant
            assert type(g).__name__ == 'FakeQuantize', type(g)
            assert (g.quant_min, g.quant_max) == (fq.quant_min, fq.quant_max)
            assert g.qscheme == fq.qscheme
            if c['update']:
                close(g.scale, fq.scale, 1e-6, 1e-7, f'{n} weight scale')
            if c['update'] or not c['lsq']:
                compare_weights(g(conv.weight.detach()).detach(), fq, w, n)
            e = g(conv.weight.detach())
            o = g(e)
            assert off_by(e, o, float(g.scale.max())) == 0
        else:
            assert not any(isinstance(v, FakeQuantizeBase)
                           for v in k.modules()), f'{n} keeps a fake quant'
    if c['update'] or (c['keep'] and not c['lsq']):
        with torch.no_grad():
            got = flat(d(x))
        for a, b in zip(got, want):
            e = float((a - b).norm() / b.norm().clamp(min=1e-3))
            assert e < 0.05, f'deployed output differs by {e:.3f}'
    rec.hit(c['update'] and (c['lsq'] or c['wper']))
    rec.tag('keep' if c['keep'] else 'plain')
    rec.tag('lsq' if c['lsq'] else 'minmax')
    rec.tag(c['backend'])


# ---------------------------------------------------- quantized algorithm --
@st.composite
def arch_case(draw):
    c = draw(net_case())
    c['static'] = draw(st.sampled_from([False, False, True]))
    c['ddp'] = draw(st.sampled_from([False, False, True]))
    c['batches'] = draw(ints(1, 3))
    c['learn'] = draw(st.booleans())
    c['src'] = draw(st.sampled_from(['tensor', 'loss', 'predict']))
    c['rebuild'] = draw(st.booleans())
    return c


def fqs(model):
    # ops that keep the range share the fake quant of their input
    return {n: m for n, m in model.named_modules(remove_duplicate=False)
            if isinstance(m, FakeQuantizeBase)}


def run_arch(c, rec):
    reset_registry()
    net = build_net(c)
    x = rand_tensor((2, 3, 5, 5), c['seed'] + 1)
    y = torch.tensor([1, 3])
    probe = copy_float(net, c).eval()
    with torch.no_grad():
        if not sane(probe(x, y, 'tensor')):
            rec.reject('overflow')
    torch.manual_seed(c['seed'])
    algo = MMArchitectureQuant(
        net, quantizer_cfg(c), input_shapes=(1, 3, 5, 5))
    assert set(algo.qmodels) == {'tensor', 'predict', 'loss'}
    for mode, qm in algo.qmodels.items():
        assert all(m.training for m in qm.modules()), \
            f'the {mode} model is not left in training mode'
    ref = copy_float(net, c)
    for k, v in probe.state_dict().items():
        assert torch.equal(ref.state_dict()[k], v), \
            f'building the quantized models changed {k}'
    model = algo
    if c['ddp']:
        model = ddp.wrapped(MMArchitectureQuantDDP, algo)
        assert not hasattr(model, '_nothing')
    # -- fresh statistics
    for mode, qm in algo.qmodels.items():
        for n, f in fqs(qm).items():
            if isinstance(f, FixedQParamsFakeQuantize):
                o = f._observer_ctr()
                assert torch.equal(f.scale, o.scale) and torch.equal(
                    f.zero_point, o.zero_point), \
                    f'{mode}.{n}: fixed parameters are now {f.scale}'
                rec.tag('fixed')
                continue
            assert bool((f.scale == 1).all()) and bool(
                (f.zero_point == 0).all()), f'{mode}.{n}: {f.scale}'
            o = f.activation_post_process
            lo = o.min_val
            assert lo.numel() == 0 or bool(torch.isinf(lo).all()), \
                f'{mode}.{n} has seen data: {lo}'
            if hasattr(o, 'histogram'):
                assert float(o.histogram.abs().sum()) == 0
    # -- the float function in every mode
    quant_off(algo)
    algo.eval(), ref.eval()
    with torch.no_grad():
        for mode in ('tensor', 'predict', 'loss'):
            same(algo(x, y, mode), ref(x, y, mode), f'float {mode}')
    # -- one step of training in loss mode trains every mode
    algo.train(), ref.train()
    opts = [torch.optim.SGD(m.parameters(), 0.01) for m in (model, ref)]
    ok = True
    seen = set()
    if c['ddp']:
        def hook(state, bucket):
            seen.update(id(p) for p in bucket.parameters())
            fut = torch.futures.Future()
            fut.set_result(bucket.buffer())
            return fut
        model.register_comm_hook(None, hook)
    if c['lsq'] and c['ddp']:
        # scales are trained on all ranks alike
        quant_observe(algo)
        algo.train()
        model(x, y, 'loss')
        for f in algo.modules():
            if isinstance(f, LearnableFakeQuantize):
                f.enable_param_learning()
        out = model(x, y, 'loss')
        sum(t.sum() for t in flat(out)).backward()
        for n, p in algo.named_parameters():
            if p.grad is not None and p.requires_grad:
                assert id(p) in seen, f'gradient of {n} is not reduced'
        algo.zero_grad()
        for f in algo.modules():
            if isinstance(f, LearnableFakeQuantize):
                f.toggle_qparam_learning(False)
        rec.tag('reduced')
        # back to the state of the reference
        algo.reset_observer_and_fakequant_statistics(algo)
        for n, b in algo.architecture.named_buffers():
            rb = dict(ref.named_buffers()).get(n)
            if rb is not None:
                b.copy_(rb)
        quant_off(algo)
    for m, opt in ((model, opts[0]), (ref, opts[1])):
        for p in m.parameters():
            p.grad = None
        out = m(x, y, 'loss')
        loss = sum((t * (j + 1)).sum() for j, t in enumerate(flat(out)))
        loss.backward()
        big = max(float(p.grad.abs().max()) for p in ref.parameters()
                  if p.grad is not None) if m is ref else 0
        ok = ok and big < 50
        opt.step()
    if ok:
        algo.eval(), ref.eval()
        with torch.no_grad():
            for mode in ('tensor', 'predict', 'loss'):
                same(algo(x, y, mode), ref(x, y, mode),
                     f'{mode} after a training step', 2e-3)
    else:
        rec.tag('steep')
    with torch.no_grad():
        if not sane(algo(x, y, 'tensor')):
            rec.reject('overflow')
    # -- calibration runs the prediction
    for m in algo.qmodels.values():
        quant_observe(m)
    algo.eval()
    state = {k: v.clone() for k, v in algo.architecture.state_dict().items()}
    lo = hi = None
    with torch.no_grad():
        for i in range(c['batches']):
            xi = rand_tensor((2, 3, 5, 5), c['seed'] + 50 + i) * (i + 1)
            out = model.calibrate_step(dict(inputs=xi, data_samples=y))
            want = algo.qmodels['predict'](xi, y, 'predict')
            if i == c['batches'] - 1 and not c['lsq']:
                assert len(flat(out)) == len(flat(want))
            v = (float(xi.min()), float(xi.max()))
            lo = v[0] if lo is None else min(lo, v[0])
            hi = v[1] if hi is None else max(hi, v[1])
    for k, v in algo.architecture.state_dict().items():
        assert torch.equal(v, state[k]), f'calibration changed {k}'
    seen_fq = fqs(algo.qmodels['predict'])
    others = {m: fqs(algo.qmodels[m]) for m in ('tensor', 'loss')}
    if not c['static']:
        for m, d in others.items():
            for n, f in d.items():
                if isinstance(f, FixedQParamsFakeQuantize):
                    continue
                o = f.activation_post_process
                assert o.min_val.numel() == 0 or bool(
                    torch.isinf(o.min_val).all()), \
                    f'calibration observed in mode {m}'
    if c['lsq'] and c['learn']:
        g = torch.Generator().manual_seed(c['seed'])
        for f in seen_fq.values():
            if isinstance(f, LearnableFakeQuantize):
                with torch.no_grad():
                    f.scale.mul_(.7 + torch.rand(1, generator=g))
    # -- parameters of one mode hold for all
    for m in algo.qmodels.values():
        quant_eval(m)
    with torch.no_grad():
        want = algo.qmodels['predict'](x, y, 'predict')
    snap = {k: v.clone()
            for k, v in algo.qmodels['predict'].state_dict().items()}
    model.sync_qparams('predict')
    for k, v in algo.qmodels['predict'].state_dict().items():
        assert torch.equal(v, snap[k]), f'the source {k} was changed'
    for mode in ('tensor', 'loss'):
        for n, f in fqs(algo.qmodels[mode]).items():
            s = seen_fq[n]
            for (k, a), (_, b) in zip(
                    sorted(f.state_dict().items()),
                    sorted(s.state_dict().items())):
                assert a.shape == b.shape and torch.equal(a, b), \
                    f'{mode}.{n}.{k} differs from predict'
            for (k, a), (_, b) in zip(sorted(f.named_parameters()),
                                      sorted(s.named_parameters())):
                assert isinstance(a, nn.Parameter) and a is not b
    with torch.no_grad():
        logits = algo(x, y, 'tensor')
        if c['static']:
            same(logits, want, 'quantized modes', 1e-6)
        else:
            same(algo.architecture.head._get_predictions(logits, y), want,
                 'quantized prediction', 1e-6)
            same(algo.architecture.head._get_loss(logits, y),
                 algo(x, y, 'loss'), 'quantized loss', 1e-6)
    # -- deployed model
    if c['static'] and not c.get('hist'):
        algo.eval()
        src = fqs(algo.qmodels['predict'])
        ref_w = {n: (plain_weight(k)[0].clone(),
                     copy.deepcopy(k.weight_fake_quant))
                 for n, k in algo.qmodels['predict'].named_modules()
                 if isinstance(k, SUPPORT_QAT_MODULES)}
        snap = {k: v.clone() for k, v in algo.state_dict().items()}
        dep = algo.get_deploy_model()
        for k, v in algo.state_dict().items():
            assert torch.equal(v, snap[k]), f'deployment changed {k}'
        dep.eval()
        for n, f in fqs(dep).items():
            s = src[n]
            if isinstance(s, FixedQParamsFakeQuantize):
                close(f.scale, s.scale, 0, 0, f'{n} fixed scale')
                continue
            assert type(f).__name__ == 'FakeQuantize', (n, type(f))
            assert (f.quant_min, f.quant_max, f.qscheme) == (
                s.quant_min, s.quant_max, s.qscheme), n
            close(f.scale, s.scale, 1e-6, 1e-8, f'{n} scale')
            assert torch.equal(f.zero_point.double().round(),
                               s.zero_point.detach().double().round()), n
            assert not bool(f.observer_enabled[0]), f'{n} observes'
            assert bool(f.fake_quant_enabled[0]), f'{n} is off'
        assert set(fqs(dep)) == set(src)
        for n, (w, f) in ref_w.items():
            compare_weights(dep.get_submodule(n).weight.detach(), f, w, n)
        with torch.no_grad():
            for a, b in zip(flat(dep(x)), flat(want)):
                e = float((a - b).norm() / b.norm().clamp(min=1e-3))
                assert e < 0.05, f'deployed output differs by {e:.3f}'
            again = flat(algo(x, y, 'predict'))
        algo.eval()
        for a, b in zip(again, flat(want)):
            close(a, b, 1e-6, 1e-6, 'prediction after deployment')
        rec.tag('deployed')
    rec.hit(ok and len(seen_fq) > 2)
    rec.tag('lsq' if c['lsq'] else 'minmax')
    rec.tag('ddp' if c['ddp'] else 'single')


# ----------------------------------------------------- academic quantizer --
@st.composite
def academic_case(draw):
    c = draw(net_case(multi=False))
    c.update(
        backend='Academic', glob=draw(st.sampled_from([None, 8, 5])),
        types={t: draw(ints(2, 7)) for t in draw(st.sets(st.sampled_from(
            ['torch.nn.Conv2d', 'torch.nn.Linear']), max_size=2))},
        names={n: draw(ints(2, 7)) for n in draw(st.sets(st.sampled_from(
            ['stem', 'head.fc', 'layers.m0', 'layers.m1']), max_size=3))},
        attrs=draw(st.booleans()), hrelu=False)
    # torch refuses to fuse modules of different qconfigs
    c['ops'] = [o for o in c['ops'] if not o[0].startswith('convb') and
                o[0] not in ('convrelu', 'relu', 'bn', 'frelu', 'reuse')] or \
        [['conv', 0, 0]]
    return c


def run_academic(c, rec):
    reset_registry()
    net = build_net(dict(c, norm='bn'))

    def cfg(bit):
        return quant_cfg(dict(c, wbit=bit))

    mapping = {}
    if c['glob']:
        mapping['_global_'] = cfg(c['glob'])
    if c['types']:
        mapping['object_type'] = [(t, cfg(b))
                                  for t, b in sorted(c['types'].items())]
    if c['names']:
        mapping['module_name'] = [(n, cfg(b))
                                  for n, b in sorted(c['names'].items())]
    custom = None
    if c['attrs']:
        net.keepme = dict(a=1)
        custom = dict(preserved_attributes=['keepme', 'c'])
    q = MODELS.build(dict(
        type='mmrazor.AcademicQuantizer', qconfig_mapping=mapping,
        prepare_custom_config=custom,
        tracer=dict(type='mmrazor.CustomTracer', skipped_methods=[
            s for s in SKIPPED if s.split('.')[-2] == 'Head'])))
    ref = copy_float(net, dict(c, norm='bn'))
    x = rand_tensor((2, 3, 5, 5), c['seed'] + 1)
    ref.eval()
    with torch.no_grad():
        if not sane(ref(x)):
            rec.reject('overflow')
    mods = dict(net.named_modules())
    m = q.prepare(net, {'mode': 'tensor'})
    if c['attrs']:
        assert m.keepme is net.keepme and m.c is net.c, 'attribute lost'
    quant_off(m)
    m.eval()
    with torch.no_grad():
        same(m(x, None, 'tensor'), ref(x), 'eval')
    bits = set()
    for n in m.graph.nodes:
        if n.op != 'call_module' or is_fq(m, n):
            continue
        k = m.get_submodule(n.target)
        if not isinstance(k, (nn.Conv2d, nn.Linear)):
            continue
        name = n.target
        if '_dup' in name:
            continue
        src = name
        if name not in mods:
            continue
        t = 'torch.nn.Linear' if isinstance(k, nn.Linear) else \
            'torch.nn.Conv2d'
        fused = not type(k).__module__.startswith('torch.ao.nn.qat')
        want = c['glob']
        if t in c['types'] and not (fused and isinstance(
                k, SUPPORT_QAT_MODULES)):
            want = c['types'][t]
        elif t in c['types']:
            want = None if want is None else '?'
        best = [p for p in c['names'] if src == p]
        if best:
            want = c['names'][best[0]]
        elif any(src.startswith(p + '.') for p in c['names']):
            continue
        if want == '?' or (fused and t in c['types']):
            continue
        if want is None:
            assert not hasattr(k, 'weight_fake_quant'), \
                f'{name} has no qconfig and is quantized'
            continue
        assert hasattr(k, 'weight_fake_quant'), f'{name} is not quantized'
        f = k.weight_fake_quant
        assert f.quant_max == 2**(want - 1) - 1, \
            f'{name}: quant_max {f.quant_max}, expected {want} bits'
        bits.add(want)
    if not mapping:
        assert not fqs(m)
    rec.hit(len(bits) > 1)
    rec.tag(f'{len(bits)} widths')


SUBS = [
    Sub('prepare', prepare_case(), run_prepare, 60),
    Sub('deploy', deploy_case(), run_deploy, 45),
    Sub('arch', arch_case(), run_arch, 45),
    Sub('academic', academic_case(), run_academic, 30),
]
