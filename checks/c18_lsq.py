"""C18: quantization parameters - schemes, LSQ observers and fake quants."""
import copy
import math

import torch
import torch.nn as nn
from hypothesis import strategies as st

import mmrazor.engine  # noqa: F401  (registers torch observers)
from mmrazor.models.fake_quants import (LearnableFakeQuantize,
                                        enable_param_learning,
                                        enable_static_estimate, enable_val)
from mmrazor.models.observers import LSQObserver, LSQPerChannelObserver
from mmrazor.registry import MODELS
from mmrazor.structures.quantization import QConfigHandler, QSchemeHandler
from pbt.core import Sub
from pbt.nnutil import close, rand_tensor

PID = 'C18'
RULE = ('the history of a fake quant has an estimating forward, a forward '
        'that must not estimate and a learning step; schemes are not 8-bit '
        'per tensor only')
ASSUMPTIONS = [
    'CPU, float32; elements within 1e-4 steps of a rounding or clipping '
    'boundary are compared up to one quantization step',
]
ints = st.integers
EPS = float(torch.finfo(torch.float32).eps)


# ---------------------------------------------------------------- schemes --
@st.composite
def scheme_case(draw):
    return dict(
        qdtype=draw(st.sampled_from(['quint8', 'qint8'])),
        bit=draw(ints(2, 8)), sym=draw(st.booleans()),
        per_channel=draw(st.booleans()),
        range_=draw(st.sampled_from([None, True, False])),
        extra=draw(st.booleans()), cfg=draw(st.booleans()),
        drop=draw(ints(0, 9)), dropkind=draw(ints(0, 2)),
        lsq=draw(st.booleans()), a_per=draw(st.booleans()),
        seed=draw(ints(0, 9999)))


def ref_range(c, bits=None):
    b = c['bit'] if bits is None else bits
    if c['qdtype'] == 'quint8':
        return 0, 2**b - 1
    hi = 2**(b - 1) - 1
    return (-hi if c['range_'] else -hi - 1), hi


def scheme_dict(c):
    d = dict(qdtype=c['qdtype'], bit=c['bit'], is_symmetry=c['sym'])
    if c['range_'] is not None:
        d['is_symmetric_range'] = c['range_']
    if c['extra']:
        d['eps'] = 1e-6
    return d


def run_scheme(c, rec):
    d = scheme_dict(c)
    before = copy.deepcopy(d)
    h = QSchemeHandler(is_per_channel=c['per_channel'], **d)
    lo, hi = ref_range(c)
    qs = {(True, True): torch.per_channel_symmetric,
          (True, False): torch.per_channel_affine,
          (False, True): torch.per_tensor_symmetric,
          (False, False): torch.per_tensor_affine}[(c['per_channel'],
                                                    c['sym'])]
    want = dict(dtype=getattr(torch, c['qdtype']), quant_min=lo, quant_max=hi,
                qscheme=qs, reduce_range=False)
    if c['per_channel']:
        want['ch_axis'] = 0
    if c['extra']:
        want['eps'] = 1e-6
    for _ in range(2):
        got = h.to_observer_params()
        assert got == want, f'observer args {got}, expected {want}'
    assert d == before, 'scheme config was modified'
    text = str(h)
    assert c['qdtype'] in text and str(c['bit']) in text, \
        f'scheme prints as {text!r}'

    # a complete qconfig
    if c['lsq']:
        wo = 'LSQPerChannelObserver' if c['per_channel'] else 'LSQObserver'
        ao = 'LSQObserver'
        fq = 'LearnableFakeQuantize'
    else:
        wo = 'PerChannelMinMaxObserver' if c['per_channel'] else \
            'MinMaxObserver'
        ao = 'MovingAveragePerChannelMinMaxObserver' if c['a_per'] else \
            'MovingAverageMinMaxObserver'
        fq = 'FakeQuantize'
    ad = dict(qdtype='quint8', bit=(c['bit'] % 7) + 2, is_symmetry=not c['sym'])
    cfg = dict(
        w_observer=dict(type=f'mmrazor.{wo}'),
        a_observer=dict(type=f'mmrazor.{ao}'),
        w_fake_quant=dict(type=f'mmrazor.{fq}'),
        a_fake_quant=dict(type=f'mmrazor.{fq}'),
        w_qscheme=d, a_qscheme=ad)
    if c['cfg']:
        from mmengine.config import ConfigDict
        cfg = ConfigDict(cfg)
    keep = copy.deepcopy(cfg)
    if c['drop'] < 6:
        bad = copy.deepcopy(cfg)
        k = sorted(cfg)[c['drop']]
        if c['dropkind'] == 0:
            bad.pop(k)
        elif c['dropkind'] == 1:
            bad[k] = None
        else:
            bad[k] = 'quint8'
        try:
            QConfigHandler(bad)
        except ValueError:
            rec.hit()
        else:
            raise AssertionError(f'qconfig without a valid {k} accepted')
    q = QConfigHandler(cfg)
    assert cfg == keep, 'qconfig was modified'
    assert q.w_qscheme.is_per_channel == c['per_channel']
    assert q.a_qscheme.is_per_channel == ('PerChannel' in ao)
    conv = q.convert()
    shared = None
    for which, factory, obs, scheme in (
            ('weight', conv.weight, wo, (lo, hi, qs)),
            ('activation', conv.activation, ao,
             (0, 2**ad['bit'] - 1, None))):
        a, b = factory(), factory()
        assert a is not b and a is not shared
        shared = a
        assert type(a) is MODELS.get(fq), which
        o = a.activation_post_process
        assert type(o) is MODELS.get(obs), (which, type(o))
        assert (o.quant_min, o.quant_max) == scheme[:2], (which, o)
        assert (a.quant_min, a.quant_max) == scheme[:2], (which, a)
        if scheme[2] is not None:
            assert a.qscheme == scheme[2] and o.qscheme == scheme[2]
            assert o.dtype == getattr(torch, c['qdtype'])
        else:
            assert o.dtype == torch.quint8
    # weights with a scheme never leave their grid
    w = rand_tensor((3, 2, 2, 2), c['seed']) * 3
    f = conv.weight()
    out = f(w)
    s, z = f.calculate_qparams()
    n = 3 if c['per_channel'] else 1
    assert s.numel() == n and z.numel() == n, (s, z)
    shape = (-1, 1, 1, 1)
    s, z = s.reshape(shape), z.reshape(shape)
    grid = out / s + z
    assert float((grid - grid.round()).abs().max()) < 1e-2, 'off the grid'
    assert lo - .01 <= float(grid.min()) and float(grid.max()) <= hi + .01
    # fixed weight fake quants keep the scheme
    q.fixed_w_fakequant()
    fixed = q.convert().weight()
    assert type(fixed).__name__ == 'FakeQuantize'
    assert fixed.qscheme == qs and fixed.dtype == getattr(torch, c['qdtype'])
    assert (fixed.quant_min, fixed.quant_max) == (lo, hi)
    assert (fixed.activation_post_process.quant_min,
            fixed.activation_post_process.quant_max) == (lo, hi)
    rec.hit()
    rec.tag(c['qdtype'])
    rec.tag('perchannel' if c['per_channel'] else 'pertensor')


# ------------------------------------------------- consistent fake quants --
@st.composite
def replace_case(draw):
    c = draw(scheme_case())
    c['shape'] = [draw(ints(1, 4)) for _ in range(draw(ints(2, 4)))]
    c['train'] = draw(ints(0, 2))
    c['fixed'] = draw(ints(0, 7)) == 0
    return c


def run_replace(c, rec):
    """A learned fake quant and its plain replacement quantize equally."""
    c = dict(c, lsq=c['lsq'])
    d = scheme_dict(c)
    if c['lsq']:
        obs = 'LSQPerChannelObserver' if c['per_channel'] else 'LSQObserver'
        fq = 'LearnableFakeQuantize'
    else:
        obs = 'PerChannelMinMaxObserver' if c['per_channel'] else \
            'MovingAverageMinMaxObserver'
        fq = 'FakeQuantize'
        if not c['per_channel']:
            d['averaging_constant'] = 0.3
    h = QSchemeHandler(is_per_channel=c['per_channel'], **d)
    f = MODELS.get(fq).with_args(
        observer=MODELS.get(obs), **h.to_observer_params())()
    for i in range(2):
        f(rand_tensor(c['shape'], c['seed'] + i) * (i + 1))
    if c['lsq'] and c['train']:
        f.enable_param_learning()
        with torch.no_grad():
            f.scale.mul_(1.7)
            if not c['sym']:
                f.zero_point.add_(0.6)
    elif not c['lsq']:
        f.disable_observer()
    else:
        f.enable_val()
    x = rand_tensor(c['shape'], c['seed'] + 9) * 2
    before = {k: v.clone() for k, v in f.state_dict().items()}
    want = f(x).detach()
    g = QConfigHandler.replace_fakequant(f, h, update_qparams=True)
    assert type(g).__name__ == 'FakeQuantize', type(g)
    assert type(g.activation_post_process).__name__ == (
        'PerChannelMinMaxObserver' if c['per_channel'] else 'MinMaxObserver')
    g.disable_observer()
    got = g(x)
    step = f.scale.detach().max()
    diff = (got - want).abs()
    # rounding ties and non-integral learned zero points: one step at most,
    # and not systematically
    assert float(diff.max()) <= float(step) * 1.01 + 1e-6, \
        f'replacement differs by {float(diff.max())} (step {float(step)})'
    if not (c['lsq'] and c['train'] and not c['sym']):
        bad = (diff > 1e-5 * max(1., float(want.abs().max())))
        assert int(bad.sum()) <= max(1, x.numel() // 20), \
            f'replacement differs at {int(bad.sum())} of {x.numel()} elements'
    o, p = g.activation_post_process, f.activation_post_process
    assert torch.equal(o.min_val.flatten(), p.min_val.flatten())
    assert torch.equal(o.max_val.flatten(), p.max_val.flatten())
    for k, v in f.state_dict().items():
        assert torch.equal(v, before[k]), f'{k} of the original changed'
    g.scale.mul_(2)
    assert torch.equal(f.scale.detach(), before['scale'])
    rec.hit(c['lsq'] and bool(c['train']))
    rec.tag('perchannel' if c['per_channel'] else 'pertensor')


# ----------------------------------------------------------- LSQ history --
OPS = ['forward', 'forward', 'forward', 'static', 'learn', 'val', 'observe',
       'toggle_observer', 'toggle_fq', 'toggle_learn', 'reload', 'qparams',
       'sgd', 'empty', 'apply', 'deepcopy']


@st.composite
def lsq_case(draw):
    per = draw(st.booleans())
    nd = draw(ints(2 if per else 1, 4))  # torch asks for two dimensions
    return dict(
        per_channel=per, sym=draw(st.booleans()),
        qdtype=draw(st.sampled_from(['quint8', 'qint8'])),
        bit=draw(ints(2, 8)), range_=draw(st.booleans()),
        shape=[draw(ints(1, 4)) for _ in range(nd)],
        axis=draw(ints(0, 3)),
        gscale=draw(st.booleans()), zp=draw(st.booleans()),
        positive=draw(st.booleans()),
        ops=[[draw(st.sampled_from(OPS)), draw(ints(0, 99))]
             for _ in range(draw(ints(2, 12)))],
        seed=draw(ints(0, 9999)))


class Model:
    """Reference LSQ fake quantizer."""

    def __init__(self, c, axis, lo, hi):
        self.c, self.axis, self.lo, self.hi = c, axis, lo, hi
        self.per = c['per_channel']
        self.scale = torch.ones(1).double()
        self.zp = torch.zeros(1).double()
        self.flags = dict(static=True, fq=True, learn=False)
        self.min = self.max = self.norm = None

    def rows(self, x):
        if not self.per:
            return x.reshape(1, -1)
        return x.transpose(0, self.axis).reshape(x.shape[self.axis], -1)

    def observe(self, x):
        if x.numel() == 0:
            return
        r = self.rows(x.double())
        lo, hi = r.min(1).values, r.max(1).values
        self.min = lo if self.min is None else torch.min(lo, self.min)
        self.max = hi if self.max is None else torch.max(hi, self.max)
        self.norm = r.abs().mean(1)

    def estimate(self):
        s = 2 * self.norm / math.sqrt(self.hi)
        lo, hi = self.min.clamp(max=0), self.max.clamp(min=0)
        if self.c['sym']:
            if self.c['qdtype'] == 'quint8':
                # torch: 128 for the full range, the middle otherwise
                z = torch.full_like(s, (self.lo + self.hi) // 2)
            else:
                z = torch.zeros_like(s)
        else:
            mm = ((hi - lo) / (self.hi - self.lo)).clamp(min=EPS)
            z = (self.lo - (lo / mm).round()).clamp(self.lo, self.hi)
        self.scale, self.zp = s, z

    def view(self, t, x):
        if not self.per:
            return t
        shape = [1] * x.dim()
        shape[self.axis] = -1
        return t.reshape(shape)

    def quant(self, x):
        """(output, q, tie mask)."""
        s, z = self.view(self.scale, x), self.view(self.zp, x)
        z = z.round().clamp(self.lo, self.hi)
        q = x.double() / s + z
        frac = (q - q.floor() - .5).abs()
        tie = frac < 2e-4 * (1 + q.abs() / 64)
        qc = q.round().clamp(self.lo, self.hi)
        return (qc - z) * s, q, tie


def run_lsq(c, rec):
    torch.manual_seed(0)
    lo, hi = ref_range(c)
    if hi < 1:
        rec.reject('quant_max')
    axis = c['axis'] % len(c['shape'])
    per = c['per_channel']
    qs = ((torch.per_channel_symmetric if c['sym'] else
           torch.per_channel_affine) if per else
          (torch.per_tensor_symmetric if c['sym'] else
           torch.per_tensor_affine))
    kw = dict(dtype=getattr(torch, c['qdtype']), qscheme=qs,
              reduce_range=False)
    if per:
        kw['ch_axis'] = axis

    def build():
        return LearnableFakeQuantize(
            LSQPerChannelObserver if per else LSQObserver, quant_min=lo,
            quant_max=hi, use_grad_scaling=c['gscale'],
            zero_point_trainable=c['zp'], **kw)

    f = build()
    ref = Model(c, axis, lo, hi)
    did = set()
    sizes = None
    for name, arg in c['ops']:
        flags = ref.flags
        if name == 'static':
            f.enable_static_estimate()
            flags.update(static=True, fq=True, learn=False)
        elif name == 'learn':
            f.enable_param_learning()
            flags.update(static=False, fq=True, learn=True)
        elif name == 'val':
            f.enable_val()
            flags.update(static=False, fq=True, learn=False)
        elif name == 'apply':
            m = nn.Sequential(nn.ReLU(), nn.Sequential(f))
            fn = [enable_val, enable_param_learning,
                  enable_static_estimate][arg % 3]
            m.apply(fn)
            flags.update(static=arg % 3 == 2, fq=True, learn=arg % 3 == 1)
        elif name == 'observe':
            f.enable_static_observation()
            flags.update(static=True, fq=False, learn=False)
        elif name == 'toggle_observer':
            if arg % 4 < 2:
                f.toggle_observer_update(bool(arg % 2))
            else:
                f.enable_observer(bool(arg % 2))
            flags['static'] = bool(arg % 2)
        elif name == 'toggle_fq':
            f.toggle_fake_quant(bool(arg % 2))
            flags['fq'] = bool(arg % 2)
        elif name == 'toggle_learn':
            f.toggle_qparam_learning(bool(arg % 2))
            flags['learn'] = bool(arg % 2)
        elif name == 'deepcopy':
            f = copy.deepcopy(f)
        elif name == 'reload':
            sd = copy.deepcopy(f.state_dict())
            g = build()
            for p, q in zip(g.parameters(), f.parameters()):
                p.requires_grad = q.requires_grad
            g.load_state_dict(sd)
            for k, v in g.state_dict().items():
                assert torch.equal(v, sd[k]), f'{k} not restored'
            g.activation_post_process.tensor_norm = \
                f.activation_post_process.tensor_norm
            f = g
        elif name == 'sgd':
            if flags['learn'] and ref.scale is not None:
                k = 0.5 + (arg % 10) / 5
                with torch.no_grad():
                    f.scale.mul_(k)
                ref.scale = ref.scale * float(torch.tensor(k))
                if arg % 7 == 0:
                    with torch.no_grad():
                        f.scale.fill_(-1.)
                    ref.scale = torch.full_like(ref.scale, -1.)
        elif name == 'qparams':
            s, z = f.calculate_qparams()
            ref.scale = ref.scale.clamp(min=EPS)
            close(s, ref.scale, 1e-5, 1e-6, 'calculate_qparams scale')
            assert torch.equal(
                z.double(), ref.zp.round().clamp(lo, hi)), 'zero point'
            assert not s.requires_grad
        elif name == 'empty':
            if ref.norm is None and flags['static']:
                continue
            shape = list(c['shape'])
            shape[(axis + 1) % len(shape)] = 0
            if per and shape[axis] == 0:
                continue
            if flags['fq'] and per:
                continue
            mm = None if ref.min is None else ref.min.clone()
            if flags['fq'] or flags['static']:
                continue
            out = f(torch.zeros(shape))
            assert tuple(out.shape) == tuple(shape)
            assert (ref.min is None) == (mm is None)
        elif name == 'forward':
            shape = list(c['shape'])
            if not per:
                shape[0] = arg % 3 + 1
            x = rand_tensor(shape, c['seed'] + arg * 7) * (1 + arg % 4)
            if c['positive']:
                x = x.abs()
            x = x + .01
            keep = x.clone()
            if per and flags['fq'] and not flags['static'] and \
                    ref.scale.numel() != x.shape[axis]:
                continue  # never estimated: refused by torch
            x.requires_grad_()
            f.zero_grad()
            out = f(x)
            assert torch.equal(x.detach(), keep), 'input changed'
            if flags['static']:
                ref.observe(keep)
                ref.estimate()
                did.add('static')
            else:
                ref.scale = ref.scale.clamp(min=EPS)
                did.add('frozen')
            close(f.scale.detach(), ref.scale, 1e-5, 1e-6, 'scale')
            z = f.zero_point.detach().double()
            assert z.shape == ref.zp.shape, (z.shape, ref.zp.shape)
            dz = (z - ref.zp).abs()
            if float(dz.max()) > 0:
                # the zero point itself may sit on a rounding tie
                assert flags['static'] and not c['sym'] and \
                    float(dz.max()) <= 1.001, f'zero point {z} vs {ref.zp}'
                m = ((ref.max.clamp(min=0) - ref.min.clamp(max=0)) /
                     (hi - lo))
                fr = (ref.min.clamp(max=0) / m)
                assert float(((fr - fr.floor() - .5).abs()[dz > 0]).max()
                             ) < 1e-3, 'zero point off'
                ref.zp = z.clone()
            if not flags['fq']:
                assert out is x or torch.equal(out.detach(), keep), \
                    'values changed while fake quantization is off'
                continue
            if per and ref.scale.numel() != x.shape[axis]:
                continue
            want, q, tie = ref.quant(keep)
            s = ref.view(ref.scale, keep)
            d = (out.detach().double() - want).abs()
            tol = 1e-4 * (want.abs() + 1e-3) + 1e-6
            bad = (d > tol) & ~tie
            assert not bool(bad.any()), \
                f'fake quant {out.detach().flatten()[bad.flatten()][:3]} vs ' \
                f'{want.flatten()[bad.flatten()][:3]}'
            assert bool((d <= tol + s.abs() * 1.01).all()), 'off by > 1 step'
            if bool(tie.any()) or bool(
                    ((q - lo + .5).abs() < 1e-3).any()) or bool(
                        ((q - hi - .5).abs() < 1e-3).any()):
                continue
            if float(ref.zp.min()) < 0:
                continue  # torch truncates negative zero points in backward
            w = rand_tensor(out.shape, c['seed'] + 3)
            (out * w).sum().backward()
            inside = (q.round() >= lo) & (q.round() <= hi)
            close(x.grad, w.double() * inside, 1e-5, 1e-6, 'input gradient')
            if f.scale.requires_grad:
                zr = ref.view(ref.zp, keep).round().clamp(lo, hi)
                gf = 1 / math.sqrt(x.numel() * hi) if c['gscale'] else 1.
                val = torch.where(
                    q.round() < lo, lo - zr, torch.where(
                        q.round() > hi, hi - zr,
                        (want - keep.double()) / s))
                g = ref.rows(val * w.double()).sum(1) * gf
                close(f.scale.grad, g, 1e-3, 1e-4, 'scale gradient')
                did.add('grad')
                if c['zp'] and f.zero_point.requires_grad:
                    zg = ref.rows((~inside) * (-s) * w.double()).sum(1) * gf
                    close(f.zero_point.grad, zg, 1e-3, 1e-4,
                          'zero point gradient')
                elif not c['zp']:
                    assert f.zero_point.grad is None
        # flags after every operation
        assert bool(f.static_enabled[0]) == flags['static']
        assert bool(f.fake_quant_enabled[0]) == flags['fq']
        assert bool(f.learning_enabled[0]) == flags['learn']
        if name in ('learn', 'static', 'val', 'observe', 'toggle_learn',
                    'apply'):
            assert f.scale.requires_grad == flags['learn']
            assert f.zero_point.requires_grad == (flags['learn'] and c['zp'])
        assert isinstance(f.scale, nn.Parameter)
        if f.activation_post_process.min_val.numel() and ref.min is not None:
            o = f.activation_post_process
            close(o.min_val.reshape(-1), ref.min, 1e-6, 1e-6, 'min')
            close(o.max_val.reshape(-1), ref.max, 1e-6, 1e-6, 'max')
    if ref.flags['learn']:
        did.add('learn')
    rec.hit({'static', 'frozen'} <= did)
    for t in did:
        rec.tag(t)
    rec.tag('perchannel' if per else 'pertensor')


SUBS = [
    Sub('scheme', scheme_case(), run_scheme, 150),
    Sub('replace', replace_case(), run_replace, 150),
    Sub('lsq', lsq_case(), run_lsq, 400),
]
