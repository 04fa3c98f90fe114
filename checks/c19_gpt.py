"""C19: SparseGPT and GPTQ one-shot compression."""
import contextlib
import copy
import io
from unittest import mock

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

from mmrazor.implementations.pruning import sparse_gpt
from mmrazor.implementations.pruning.sparse_gpt.ops import (SparseGptConv2d,
                                                            SparseGptLinear)
from mmrazor.implementations.pruning.sparse_gpt.utils import (
    memory_efficient_forward, torch_setting)
from mmrazor.implementations.quantization import gptq
from mmrazor.implementations.quantization.gptq.utils import torch_snr_error
from pbt.core import Sub
from pbt.nnutil import close, rand_tensor

PID = 'C19'
RULE = ('more than one block of columns, some weight is changed and the '
        'inputs are correlated; quantizers see more than one channel')
ASSUMPTIONS = [
    'CPU; the packed linear layer is read by a reference of the kernel format '
    'because no triton is installed',
    'ungrouped convolutions; columns of an N:M pattern and block sizes are '
    'multiples of M'
]

ints = st.integers


def table(shape, seed, kind='normal'):
    x = rand_tensor(shape, seed)
    if kind == 'positive':
        x = x.abs()
    elif kind == 'sparse':
        x = x * (rand_tensor(shape, seed + 5) > 0)
    return x


# ------------------------------------------------------------- quantizer --
@st.composite
def quantizer_case(draw):
    nd = draw(st.sampled_from([2, 3, 4]))
    return dict(
        shape=[draw(ints(1, 5)) for _ in range(nd)],
        bits=draw(ints(2, 8)), perchannel=draw(st.booleans()),
        sym=draw(st.booleans()), mse=draw(st.booleans()),
        norm=draw(st.sampled_from([2.4, 2., 1.])),
        grid=draw(st.sampled_from([100, 20])),
        maxshrink=draw(st.sampled_from([.8, .5])),
        trits=draw(st.sampled_from([False, False, False, True])),
        weight=draw(st.booleans()),
        kind=draw(st.sampled_from(['normal', 'positive', 'sparse', 'zero'])),
        seed=draw(ints(0, 9999)))


def q_ref(x, scale, zero, maxq):
    return scale * ((torch.round(x / scale) + zero).clamp(0, maxq) - zero)


def channel_axis(c):
    if c['weight'] or len(c['shape']) == 0:
        return 0
    return 1 if len(c['shape']) in (2, 4) else 2


def find_ref(rows, c):
    """(scale, zero) per row."""
    out = []
    maxq = 2**c['bits'] - 1
    for r in rows:
        lo, hi = min(float(r.min()), 0.), max(float(r.max()), 0.)
        if c['sym']:
            hi = max(-lo, hi)
            lo = -hi
        if lo == hi == 0:
            lo, hi = -1., 1.
        lo, hi = torch.tensor(lo), torch.tensor(hi)
        if c['trits']:
            out.append((hi, lo))
            continue

        def params(p):
            s = (p * hi - p * lo) / maxq
            return s, (torch.tensor((maxq + 1) / 2) if c['sym'] else
                       torch.round(-(p * lo) / s))

        if not c['mse']:
            out.append(params(1))
            continue
        cands = [params(1 - i / c['grid'])
                 for i in range(int(c['maxshrink'] * c['grid']))]
        errs = [float((q_ref(r, s, z, maxq) - r).abs().pow(c['norm']).sum())
                for s, z in cands]
        best = min(errs)
        out.append([cd for cd, e in zip(cands, errs)
                    if e <= best * (1 + 1e-4) + 1e-9])
    return out


def run_quantizer(c, rec):
    """Quantization parameters and the fake quantization they define."""
    if c['trits'] and c['mse']:
        c = dict(c, mse=False)
    x = table(c['shape'], c['seed'], c['kind'])
    if c['kind'] == 'zero':
        x = x * 0
    q = gptq.Quantizer()
    q.configure(c['bits'], **{k: c[k] for k in (
        'perchannel', 'sym', 'mse', 'norm', 'grid', 'maxshrink', 'trits')})
    before = x.clone()
    assert not q.ready() and torch.equal(q.quantize(x), x)
    q.find_params(x, weight=c['weight'])
    assert torch.equal(x, before), 'find_params changes the data'
    if c['trits'] and not q.scale.all():
        return rec.reject()  # a ternary channel without positive values
    assert q.ready()
    maxq = -1 if c['trits'] else 2**c['bits'] - 1
    assert int(q.maxq) == maxq and bool(q.enabled()) == (not c['trits'])
    ax = channel_axis(c)
    rows = x.transpose(0, ax).flatten(1) if c['perchannel'] else \
        x.flatten()[None]
    want = find_ref(rows, c)
    n = x.shape[ax]
    if not c['perchannel']:
        want = want * n
    shape = [1] * x.dim()
    shape[ax] = n
    assert list(q.scale.shape) == list(q.zero.shape) == shape, q.scale.shape
    for i, w in enumerate(want):
        got = q.scale.flatten()[i], q.zero.flatten()[i]
        ok = w if isinstance(w, list) else [w]
        assert any(abs(got[0] - s) <= 1e-5 * abs(s) + 1e-9 and
                   abs(got[1] - z) <= 1e-4 * (1 + abs(z)) for s, z in ok), \
            f'channel {i}: {got}, expected {ok[:3]}'
    y = q.quantize(x)
    scale, zero = q.scale, q.zero
    if c['trits']:
        ref = torch.where(x > scale / 2, scale, torch.zeros_like(x)) + \
            torch.where(x < zero / 2, zero, torch.zeros_like(x))
    else:
        ref = q_ref(x, scale, zero, maxq)
    close(y, ref, 1e-6, 1e-6, 'quantize')
    if not c['trits'] and not c['mse']:
        # nothing saturates by more than the rounding of the zero point
        assert ((y - x).abs() <= scale * 1.001 + 1e-6).all()
    again = q.quantize(y)
    if not c['trits']:
        close(again, y, 1e-5, 1e-5, 'quantizing twice')
    q.configure(c['bits'])
    assert not q.ready(), 'a reconfigured quantizer is not calibrated'
    real, pred = x, y
    snr = ((pred - real).flatten(1).pow(2).sum(1) /
           (real.flatten(1).pow(2).sum(1) + 1e-7))
    close(torch_snr_error(pred, real, 'none'), snr, 1e-5, 1e-5, 'snr')
    close(torch_snr_error(pred, real), snr.mean(), 1e-5, 1e-5, 'snr mean')
    close(torch_snr_error(pred, real, 'sum'), snr.sum(), 1e-5, 1e-5,
          'snr sum')
    rec.tag('mse' if c['mse'] else 'trits' if c['trits'] else 'minmax')
    rec.hit(n > 1 and c['kind'] != 'zero')


# --------------------------------------------------------------- layers --
@st.composite
def layer_spec(draw, mult=1):
    conv = draw(st.booleans())
    d = dict(conv=conv, bias=draw(st.booleans()),
             seed=draw(ints(0, 9999)), calls=draw(ints(1, 3)),
             batch=draw(ints(1, 3)), n=draw(ints(1, 4)),
             dead=draw(st.sampled_from([0, 0, 1, 2])),
             corr=draw(st.booleans()),
             dist=draw(st.sampled_from([0, 0, 0, 2])),
             again=draw(st.booleans()))
    if conv:
        d.update(cin=draw(ints(1, 3)) * mult, cout=draw(ints(1, 5)),
                 k=[draw(ints(1, 3)), draw(ints(1, 3))],
                 stride=[draw(ints(1, 2)), draw(ints(1, 2))],
                 pad=[draw(ints(0, 2)), draw(ints(0, 2))],
                 dil=draw(st.sampled_from([[1, 1], [1, 1], [2, 1], [2, 2]])),
                 hw=[draw(ints(5, 8)), draw(ints(5, 8))])
    else:
        d.update(cin=draw(ints(1, 6)) * mult * 2,
                 cout=draw(ints(1, 8)), flat=draw(st.booleans()))
    return d


def static_layer(c):
    if c['conv']:
        m = nn.Conv2d(c['cin'], c['cout'], c['k'], c['stride'], c['pad'],
                      c['dil'], bias=c['bias'])
    else:
        m = nn.Linear(c['cin'], c['cout'], bias=c['bias'])
    with torch.no_grad():
        m.weight.copy_(rand_tensor(m.weight.shape, c['seed']))
        if m.bias is not None:
            m.bias.copy_(rand_tensor(m.bias.shape, c['seed'] + 1))
    return m


def inputs(c):
    """Calibration batches; `dead` input features are always zero."""
    out = []
    for i in range(c['calls']):
        s = c['seed'] + 100 + i
        if c['conv']:
            x = rand_tensor((c['batch'], c['cin'], *c['hw']), s)
            ax = 1
        elif c['flat']:
            x = rand_tensor((c['n'], c['cin']), s)
            ax = 1
        else:
            x = rand_tensor((c['batch'], c['n'], c['cin']), s)
            ax = 2
        if c['corr']:
            x = x + .7 * x.roll(1, ax) + .3
        if c['dead'] and c['cin'] > c['dead']:
            x.transpose(0, ax)[c['seed'] % c['dead']::c['cin']] = 0
        out.append(x)
    return out


def columns_of(c, layer, x):
    """All inputs of one output position, as rows (positions, columns)."""
    if not c['conv']:
        return x.reshape(-1, c['cin']).double()
    x = F.pad(x, (c['pad'][1], ) * 2 + (c['pad'][0], ) * 2).double()
    kh, kw = c['k']
    dh, dw = c['dil']
    sh, sw = c['stride']
    rows = []
    for i in range(0, x.shape[2] - (kh - 1) * dh, sh):
        for j in range(0, x.shape[3] - (kw - 1) * dw, sw):
            rows.append(x[:, :, i:i + (kh - 1) * dh + 1:dh,
                          j:j + (kw - 1) * dw + 1:dw].flatten(1))
    return torch.cat(rows)


def hessian_ref(c, layer, world=1):
    tot, n = 0, 0
    for x in inputs(c):
        r = columns_of(c, layer, x)
        tot = tot + 2 * r.T @ r * world
        b = 1 if not c['conv'] and c['flat'] else c['batch']
        n += b * world
    return tot / n


@contextlib.contextmanager
def ranks(world):
    """This process is rank 0 of `world` ranks that see the same data."""
    if not world:
        yield
        return
    D = torch.distributed
    with mock.patch.object(D, 'is_initialized', lambda: True), \
            mock.patch.object(D, 'get_rank', lambda *a: 0), \
            mock.patch.object(D, 'get_world_size', lambda *a: world), \
            mock.patch.object(D, 'broadcast', lambda t, s, *a, **k: None), \
            mock.patch.object(D, 'all_reduce',
                              lambda t, *a, **k: t.mul_(world)):
        yield


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def calibrate(c, layer, op):
    """Run the calibration data through the operator."""
    op.init_hessian()
    op.register_hessian_hook()
    for x in inputs(c):
        close(op(x), layer(x), 1e-6, 1e-6, 'converted operator')
    op.remove_hessian_hook()
    ref = hessian_ref(c, layer, max(c['dist'], 1))
    close(op.hessian, ref, 1e-5, 1e-5, 'hessian')
    op(inputs(c)[0] * 3)
    close(op.hessian, ref, 1e-5, 1e-5, 'hessian after the hook is removed')
    if c['again']:
        op.init_hessian()
        assert not op.hessian.any()
        op.register_hessian_hook()
        for x in inputs(c):
            op(x)
        op.remove_hessian_hook()
        close(op.hessian, ref, 1e-5, 1e-5, 'second calibration')
    return ref


def damped(H, percdamp):
    H = H.clone()
    dead = H.diag() == 0
    H[dead, dead] = 1
    H += torch.eye(len(H)).double() * percdamp * H.diag().mean()
    return H, dead


class Obs:
    """Optimal brain surgeon, one column after the other, explicit
    inverses, driven by the columns that the implementation has chosen."""

    def __init__(self, W, H, percdamp):
        self.H, self.dead = damped(H, percdamp)
        self.W = W.double().clone()
        self.W[:, self.dead] = 0
        n = len(self.H)
        self.inv = [torch.linalg.inv(self.H[j:, j:]) for j in range(n)]
        self.diag = torch.stack([v[0, 0] for v in self.inv])
        self.loss = 0.

    def fix(self, j, q):
        """Column j becomes q; the columns behind it make up for it."""
        v = self.inv[j]
        err = (self.W[:, j] - q.double())
        self.loss += float((err**2 / v[0, 0]).sum() / 2)
        self.W[:, j:] -= (err / v[0, 0])[:, None] * v[0][None]
        self.W[:, j] = q.double()


@st.composite
def sparse_case(draw):
    nm = draw(st.sampled_from([None, None, [2, 4], [1, 2], [1, 4], [3, 4]]))
    d = dict(nm=nm, sparsity=draw(ints(0, 19)) / 20,
             block=draw(st.sampled_from([4, 8, 128])),
             damp=draw(st.sampled_from([.01, .1, 1.])),
             layer=draw(layer_spec(nm[1] if nm else 1)))
    return d


def run_sparse(c, rec):
    """SparseGPT on one layer."""
    s = c['layer']
    layer = static_layer(s)
    cls = SparseGptConv2d if s['conv'] else SparseGptLinear
    op = cls.convert_from(layer)
    if not s['conv'] and s['cout'] < s['cin']:
        assert op is layer
        op = cls(s['cin'], s['cout'], bias=s['bias'])
        op.load_state_dict(layer.state_dict(), strict=False)
    n, m = c['nm'] or (0, 0)
    with ranks(s['dist']):
        H = calibrate(s, layer, op)
        stats = op.hessian.clone()
        error = op.prune(c['sparsity'], n, m, c['block'], c['damp'])
        close(op._hessian, stats, 0, 0, 'statistics after pruning')
    Q = op.weight.detach().flatten(1)
    if op.bias is not None:
        assert torch.equal(op.bias, layer.bias)
    obs = Obs(layer.weight.detach().flatten(1), H, c['damp'])
    cols = Q.shape[1]
    tol = 2e-3
    for b in range(0, cols, c['block']):
        e = min(b + c['block'], cols)
        score = obs.W[:, b:e]**2 / obs.diag[b:e]
        zero = None
        if not m:
            k = int(score.numel() * c['sparsity'])
            thresh = float(score.flatten().sort()[0][k])
            zero = Q[:, b:e] == 0
            up = thresh * (1 + tol) + 1e-9
            assert (score[zero] <= up).all(), 'a weight too many is pruned'
            assert (score[~zero] >= thresh * (1 - tol) - 1e-9).all(), \
                'a weight too few is pruned'
        for j in range(b, e):
            if m and (j - b) % m == 0:
                part = obs.W[:, j:j + m]**2 / obs.diag[j:j + m]
                z = Q[:, j:j + m] == 0
                assert (z.sum(1) >= n).all(), f'less than {n} of {m} zeros'
                kth = part.sort(1)[0][:, n - 1:n]
                assert (part <= kth * (1 + tol) + 1e-9)[z].all(), \
                    'not the least important weights'
                gone = obs.W[:, j:j + m].abs() < 1e-6
                assert ((z & ~gone).sum(1) <= n).all(), \
                    f'more than {n} of {m} zeros'
            q = Q[:, j]
            keep = q != 0
            close(q[keep], obs.W[keep, j], tol, tol,
                  f'column {j}: compensated weight')
            obs.fix(j, q)
    ref = obs.loss
    assert abs(error - ref) <= 5e-3 * (1 + abs(ref)), (error, ref)
    rec.tag('nm' if m else 'free')
    rec.hit(cols > c['block'] and s['corr'] and ref > 0)


# ------------------------------------------------------------------ gptq --
@st.composite
def gptq_case(draw):
    packed = draw(st.sampled_from([False, False, True]))
    d = dict(packed=packed, bits=draw(st.sampled_from(
        [2, 4, 8] if packed else [2, 3, 4, 8])),
             perchannel=draw(st.booleans()) or packed,
             sym=draw(st.booleans()), mse=draw(st.booleans()),
             group=draw(st.sampled_from([-1, 4, 8])),
             order=draw(st.booleans()), positive=draw(st.booleans()),
             block=draw(st.sampled_from([4, 8, 128])),
             damp=draw(st.sampled_from([.01, .1, 1.])),
             layer=draw(layer_spec()))
    if packed:
        s = d['layer']
        d['layer'] = dict(
            {k: s[k] for k in ('bias', 'seed', 'calls', 'batch', 'dead',
                               'corr', 'dist', 'again')},
            conv=False, n=8, flat=s.get('flat', False),
            cin=32 * draw(ints(1, 2)), cout=32)
        d['group'] = draw(st.sampled_from([-1, 16, 32, 24]))
    return d


def unpack(op):
    """The weight that the kernel format stands for."""
    bits, maxq = op.bits, 2**op.bits - 1
    per = 32 // bits
    qw = op.qweight.numpy().view(np.uint32).astype(np.int64)
    qz = op.qzeros.numpy().view(np.uint32).astype(np.int64)
    assert qw.shape == (op.in_features // per, op.out_features), qw.shape
    w = np.zeros((op.out_features, op.in_features))
    sc = op.scales.numpy().astype(np.float64)
    for i in range(op.in_features):
        q = (qw[i // per] >> (bits * (i % per))) & maxq
        g = int(op.g_idx[i])
        z = np.array([(qz[g, o // per] >> (bits * (o % per))) & maxq
                      for o in range(op.out_features)])
        z = (z + 1) & maxq
        w[:, i] = (q - z) * sc[g]
    return torch.tensor(w)


def activations(c, s, layer):
    """Fake-quantized inputs: observed on each call unless they are fixed."""
    def fresh(x):
        q = gptq.Quantizer()
        q.configure(c['bits'], c['perchannel'], c['sym'], c['mse'])
        q.find_params(x)
        return q

    act = gptq.Quantizer()
    act.configure(c['bits'], c['perchannel'], c['sym'], c['mse'])
    op = gptq.GPTQLinear.convert_from(layer, act)
    for i, x in enumerate(inputs(s) + [inputs(s)[0] * 2]):
        close(op(x), layer(fresh(x).quantize(x)), 1e-5, 1e-5, 'activations')
        last = x
    op.fix_qparams = True
    x = last * 1.7
    close(op(x), layer(fresh(last).quantize(x)), 1e-5, 1e-5,
          'fixed activation parameters')


def run_gptq(c, rec):
    """GPTQ on one layer."""
    s = c['layer']
    layer = static_layer(s)
    if c['positive']:
        layer.weight.data.abs_()
    cols = layer.weight[0].numel()
    if c['packed']:
        op = gptq.TritonGPTQLinear.convert_from(
            copy.deepcopy(layer), c['bits'], c['group'])
        assert op.is_custom_kernel
    else:
        cls = gptq.GPTQConv2d if s['conv'] else gptq.GPTQLinear
        op = cls.convert_from(layer)
        assert not op.is_custom_kernel
    if not s['conv'] and not c['packed']:
        activations(c, s, layer)
    qz = gptq.Quantizer()
    qc = dict(bits=c['bits'], perchannel=c['perchannel'], sym=c['sym'],
              mse=c['mse'])
    qz.configure(**qc)
    kept = []
    with ranks(s['dist']):
        H = calibrate(s, layer, op)
        stats = op.hessian.clone()
        if c['packed']:
            old = type(op).weight_matrix.fset
            prop = property(type(op).weight_matrix.fget, lambda self, v: (
                kept.append(v.clone()), old(self, v)))
            with mock.patch.object(type(op), 'weight_matrix', prop):
                error = op.quant(qz, c['block'], c['damp'], c['group'],
                                 c['order'])
            Q = kept[-1]
            assert getattr(op, 'weight', None) is None
        else:
            error = op.quant(qz, c['block'], c['damp'], c['group'],
                             c['order'])
            Q = op.weight.detach().flatten(1)
        close(op._hessian, stats, 0, 0, 'statistics after quantization')
    if op.bias is not None:
        assert torch.equal(op.bias, layer.bias)
    W = layer.weight.detach().flatten(1)
    full = gptq.Quantizer()
    full.configure(**qc)
    full.find_params(W, weight=True)
    Hd = H.clone()
    dead = Hd.diag() == 0
    Hd[dead, dead] = 1
    perm = torch.arange(cols)
    if c['order']:
        perm = torch.argsort(stats.diag() + dead.float(), descending=True)
        d = Hd.diag()[perm]
        assert (d[:-1] >= d[1:] * (1 - 1e-4)).all()
    W = W.clone()
    W[:, dead] = 0
    obs = Obs(W[:, perm], Hd[perm][:, perm], c['damp'])
    got = Q[:, perm]
    maxq = 2**c['bits'] - 1
    size = c['group'] if c['group'] != -1 else cols
    quant = full
    soft = c['group'] != -1 and c['mse']
    stale = None
    changed = False
    for j in range(cols):
        if j % c['block'] == 0:
            stale = obs.W.clone()
        if c['group'] != -1 and j % size == 0:
            quant = gptq.Quantizer()
            quant.configure(**qc)
            quant.find_params(stale[:, j:j + size].float(), weight=True)
        scale = quant.scale.flatten().double()
        zero = quant.zero.flatten().double()
        w, q = obs.W[:, j], got[:, j].double()
        if not soft:
            # on the grid, and the nearest point of it
            lvl = q / scale + zero
            assert ((lvl - lvl.round()).abs() < 5e-3).all(), \
                f'column {j} is off the grid'
            pos = w / scale + zero
            near = pos.clamp(0, maxq)
            assert ((lvl - near).abs() <= .51).all(), \
                f'column {j} is not rounded to the nearest level'
        changed = changed or bool((q != w).any())
        obs.fix(j, got[:, j])
    ref = obs.loss
    assert abs(error - ref) <= 5e-3 * (1 + abs(ref)), (error, ref)
    if c['packed']:
        close(unpack(op), Q, 2e-3, 2e-3, 'packed weight')
        inv = torch.argsort(perm)
        want = (torch.arange(cols) // size)[inv]
        assert op.g_idx.tolist() == want.tolist(), 'group index'
    op.free()
    assert op._hessian is None
    rec.tag('packed' if c['packed'] else 'plain')
    rec.hit(cols > c['block'] and s['corr'] and changed)


# ----------------------------------------------------------------- model --
class Net(nn.Module):

    def __init__(self, c):
        super().__init__()
        ch = c['widths']
        self.stem = nn.Conv2d(3, ch[0], 3, padding=1, bias=False)
        self.body = nn.Sequential(
            nn.BatchNorm2d(ch[0]), nn.ReLU(),
            nn.Conv2d(ch[0], ch[1], 3, stride=2, padding=c['pad']),
            nn.Sequential(nn.BatchNorm2d(ch[1])))
        self.head = nn.ModuleDict(dict(fc=nn.Linear(ch[1], ch[2]),
                                       out=nn.Linear(ch[2], 4)))

    def forward(self, x):
        x = self.body(self.stem(x)).mean((2, 3))
        return self.head['out'](self.head['fc'](x).relu())


@st.composite
def model_case(draw):
    return dict(
        algo=draw(st.sampled_from(['sparse', 'gptq'])),
        widths=[draw(st.sampled_from([4, 8, 12])) for _ in range(3)],
        pad=draw(ints(0, 1)), conv=draw(st.booleans()),
        linear=draw(st.booleans()), act=draw(st.booleans()),
        skip=draw(st.sampled_from([[], ['stem'], ['head.fc'],
                                   ['head.out', 'body.2']])),
        group=draw(st.sampled_from([-1, 4, 'default'])),
        bits=draw(st.sampled_from([3, 4, 8])),
        order=draw(st.booleans()), mode24=draw(st.booleans()),
        efficient=draw(st.booleans()),
        sparsity=draw(st.sampled_from([.25, .5, .75])),
        seed=draw(ints(0, 9999)))


def run_model(c, rec):
    """A whole model: which layers change, and how."""
    torch.manual_seed(c['seed'])
    net = Net(c).eval()
    orig = copy.deepcopy(net)
    xs = [rand_tensor((4, 3, 6, 6), c['seed'] + i) for i in range(2)]
    sparse = c['algo'] == 'sparse'
    comp = (sparse_gpt.SparseGptCompressor if sparse
            else gptq.GPTQCompressor)()
    names = {n: m for n, m in orig.named_modules()
             if isinstance(m, (nn.Conv2d, nn.Linear))}
    want = {n for n, m in names.items()
            if (c['conv'] if isinstance(m, nn.Conv2d) else c['linear'])}
    cpu = torch.device('cpu')
    default = torch.get_default_dtype()
    with quiet():
        if sparse:
            comp.prepare(net, prune_conv=c['conv'], prune_linear=c['linear'])
            want = {n for n in want if isinstance(names[n], nn.Conv2d) or
                    names[n].out_features >= names[n].in_features}
            found = dict(comp.named_sparse_ops)
        else:
            act = dict(bits=8, perchannel=True, sym=False) if c['act'] \
                else None
            comp.prepare(net, quant_conv=c['conv'], quant_linear=c['linear'],
                         use_triton_ops=False, skipped_layers=c['skip'],
                         a_qconfig=act)
            want -= set(c['skip'])
            found = dict(comp.named_quant_ops)
        assert set(found) == want, (set(found), want)
        fresh = {n: copy.deepcopy(m) for n, m in found.items()}
        comp.init_hessian()
        comp.register_hessian_hooks()
        ctx = memory_efficient_forward(net, c['efficient'], cpu)
        seen = {n: [] for n in names}
        with ctx:
            hooks = [net.get_submodule(n).register_forward_pre_hook(
                lambda m, i, n=n: seen[n].append(i[0].clone()))
                for n in names]
            outs = [net(x) for x in xs]
            for h in hooks:
                h.remove()
        comp.remove_hessian_hooks()
        active = not sparse and c['act']
        for x, y in zip(xs, outs):
            close(y, orig(x), *((5e-2, 5e-2) if active else (1e-6, 1e-6)),
                  what='calibrated model')
        assert not any(m._forward_hooks or m._forward_pre_hooks
                       for m in net.modules()), 'hooks are left behind'
        if sparse:
            if c['mode24']:
                comp.prune_24(device=cpu)
            else:
                comp.prune(c['sparsity'], blocksize=8, device=cpu)
        elif c['group'] == 'default':
            comp.quant_with_default_qconfig(groupsize=8, device='cpu')
        else:
            comp.quant(groupsize=c['group'], actorder=c['order'],
                       bits=c['bits'], perchannel=True, sym=False,
                       device=cpu)
    assert torch.get_default_dtype() is default
    # the same operation on each layer alone
    changed = 0
    for n, m in names.items():
        if n not in want:
            assert torch.equal(net.get_submodule(n).weight, m.weight), \
                f'{n} is not a target but changed'
            continue
        op = fresh[n]
        op.init_hessian()
        for x in seen[n]:
            op.update_hessian(x)
        try:
            with quiet():
                if sparse:
                    if c['mode24']:
                        op.prune(.5, 2, 4)
                    else:
                        op.prune(c['sparsity'], blocksize=8)
                else:
                    qz = gptq.Quantizer()
                    dflt = c['group'] == 'default'
                    qz.configure(4 if dflt else c['bits'], True, False)
                    op.quant(qz, groupsize=8 if dflt else c['group'],
                             actorder=dflt or c['order'])
        except Exception:
            # cannot be pruned in this pattern: the layer stays as it was
            assert torch.equal(net.get_submodule(n).weight, m.weight), \
                f'{n} could not be compressed but changed'
            rec.tag('refused')
            assert sparse and c['mode24'] and m.weight[0].numel() % 4
            continue
        close(net.get_submodule(n).weight, op.weight, 1e-5, 1e-5, n)
        diff = not torch.equal(op.weight, m.weight)
        assert diff, f'{n} is a target but did not change'
        changed += 1
    x = xs[0]
    y = None
    for m in net.modules():
        if getattr(m, 'a_fakequant', None) is not None:
            m.a_fakequant = None
    y = net(x)
    with quiet():
        static = comp.to_static_model(net)
    for n, m in names.items():
        assert type(static.get_submodule(n)) is type(m), n
    close(static(x), y, 1e-5, 1e-5, 'static model')
    a, b = orig.state_dict(), static.state_dict()
    assert a.keys() == b.keys()
    for k in a:
        if k.rpartition('.')[0] not in want or k.endswith('bias'):
            assert torch.equal(a[k], b[k]), f'{k} changed'
    with torch_setting(dtype=torch.float64):
        assert torch.zeros(1).dtype == torch.float64
    assert torch.get_default_dtype() is default
    rec.tag(c['algo'])
    rec.hit(changed > 1)


SUBS = [
    Sub('quantizer', quantizer_case(), run_quantizer, 400),
    Sub('sparse', sparse_case(), run_sparse, 250),
    Sub('gptq', gptq_case(), run_gptq, 250),
    Sub('model', model_case(), run_model, 120),
]
