"""C32: connectors and generators compute their published transforms."""
import copy
import math

import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

import mmrazor.models  # noqa: F401
from mmrazor.registry import MODELS
from pbt.core import Sub
from pbt.nnutil import close, randomize, same_state, snapshot

PID = 'C32'
RULE = ('the transform is not the identity, the feature has more than one '
        'sample or pixel and the gradient towards it is not zero')
ASSUMPTIONS = ['features within +-4, at most 6 channels and 9x9 pixels',
               'mmcv ignores circular padding: only zeros and reflect',
               'CPU, one process except for the gathering loss (two ranks)']


def seeds():
    return st.integers(0, 2**31 - 1)


@st.composite
def feats(draw, cmax=6, smin=1, smax=7):
    return dict(n=draw(st.integers(1, 4)), c=draw(st.integers(1, cmax)),
                h=draw(st.integers(smin, smax)),
                w=draw(st.integers(smin, smax)),
                last=draw(st.booleans()))


def feature(case, f=None):
    f = f or case['f']
    g = torch.Generator().manual_seed(case['seed'])
    x = torch.randn(f['n'], f['c'], f['h'], f['w'], generator=g).clamp(-4, 4)
    if f.get('last'):
        x = x.contiguous(memory_format=torch.channels_last)
    return x


def build(cfg, seed=None, train=True):
    m = MODELS.build(copy.deepcopy(cfg))
    if seed is not None:
        randomize(m, seed)
    return m.train(train)


def tup(o):
    return o if isinstance(o, (tuple, list)) else (o, )


def judge(case, rec, conn, ref, x, rtol=1e-6, grads=True):
    """conn(x) = ref(x), in value and gradients, and x is left alone."""
    # both in double precision: norms of flat channels are ill-conditioned
    a, b = [x.double().clone().requires_grad_() for _ in range(2)]
    conn.double()
    twin = copy.deepcopy(conn)
    # features are recorded outputs of modules, not leaves
    fa = a * 1.0
    before = fa.detach().clone()
    torch.manual_seed(case['seed'])
    got = tup(conn(fa))
    want = tup(ref(twin, b))
    assert torch.equal(fa.detach(), before), \
        'the connector changed the recorded feature in place'
    assert len(got) == len(want), f'{len(got)} outputs, not {len(want)}'
    for i, (p, q) in enumerate(zip(got, want)):
        close(p, q, rtol, rtol, f'output {i}')
    if not grads:
        return got
    g = torch.Generator().manual_seed(case['seed'] + 1)
    ws = [torch.randn(p.shape, generator=g).double() for p in got]
    sum((p * w).sum() for p, w in zip(got, ws)).backward()
    sum((q * w).sum() for q, w in zip(want, ws)).backward()
    close(a.grad, b.grad, 1e-6, 1e-6, 'gradient towards the feature')
    for (k, p), (_, q) in zip(conn.named_parameters(),
                              twin.named_parameters()):
        zp = torch.zeros_like(p) if p.grad is None else p.grad
        zq = torch.zeros_like(q) if q.grad is None else q.grad
        close(zp, zq, 1e-6, 1e-6, f'gradient of {k}')
    for (k, p), (_, q) in zip(conn.named_buffers(), twin.named_buffers()):
        close(p.float(), q.float(), 1e-6, 1e-6, f'buffer {k}')
    if b.grad is not None and float(b.grad.abs().max()) > 1e-6 and \
            x.numel() > x.shape[1]:
        rec.hit()
    return got


# ------------------------------------------------------------- explicit ops
def bn(m, x, training):
    if training:
        mean = x.mean((0, 2, 3))
        var = ((x - mean[None, :, None, None])**2).mean((0, 2, 3))
        n = x.numel() // x.shape[1]
        with torch.no_grad():
            mom = m.momentum
            m.num_batches_tracked += 1
            m.running_mean += mom * (mean - m.running_mean)
            m.running_var += mom * (var * n / (n - 1) - m.running_var)
    else:
        mean, var = m.running_mean, m.running_var
    y = (x - mean[None, :, None, None]) / \
        (var[None, :, None, None] + m.eps).sqrt()
    if m.weight is not None:
        y = y * m.weight[None, :, None, None] + m.bias[None, :, None, None]
    return y


def pad(x, p, mode):
    if p == 0 or mode == 'zeros':
        return F.pad(x, (p, ) * 4)
    for d in (2, 3):
        n = x.shape[d]
        i = torch.arange(-p, n + p)
        i = i % n if mode == 'circular' else \
            torch.where(i < 0, -i, torch.where(i >= n, 2 * n - 2 - i, i))
        x = x.index_select(d, i)
    return x


ACTS = dict(
    ReLU=lambda x: torch.where(x > 0, x, torch.zeros_like(x)),
    LeakyReLU=lambda x: torch.where(x > 0, x, 0.01 * x),
    HSwish=lambda x: x * (x + 3).clamp(0, 6) / 6,
    Sigmoid=lambda x: 1 / (1 + (-x).exp()),
    Tanh=lambda x: x.tanh())


# ------------------------------------------------------------ conv connector
@st.composite
def conv_case(draw):
    f = draw(feats(smin=3))
    groups = draw(st.sampled_from([1, 1, 1, f['c']]))
    out = draw(st.integers(1, 5)) * (groups if groups > 1 else 1)
    norm = draw(st.sampled_from([None, 'BN']))
    return dict(
        f=f, seed=draw(seeds()), out=out, groups=groups,
        k=draw(st.sampled_from([1, 2, 3])), s=draw(st.integers(1, 2)),
        p=draw(st.integers(0, 2)), d=draw(st.integers(1, 2)),
        mode=draw(st.sampled_from(['zeros', 'reflect'])),
        bias=draw(st.sampled_from(['auto', 'auto', True, False])),
        norm=norm, act=draw(st.sampled_from([None, *ACTS])),
        order=draw(st.permutations(['conv', 'norm', 'act'])),
        inplace=draw(st.booleans()), train=draw(st.booleans()))


def run_conv(case, rec):
    f, c = case['f'], case
    lo = min(f['h'], f['w'])
    if lo + 2 * c['p'] < c['d'] * (c['k'] - 1) + 1 or c['p'] >= lo:
        rec.reject()
    out = [(v + 2 * c['p'] - c['d'] * (c['k'] - 1) - 1) // c['s'] + 1
           for v in (f['h'], f['w'])]
    if c['norm'] and c['train'] and f['n'] * out[0] * out[1] < 2:
        rec.reject()
    cfg = dict(type='ConvModuleConnector', in_channel=f['c'],
               out_channel=c['out'], kernel_size=c['k'], stride=c['s'],
               padding=c['p'], dilation=c['d'], groups=c['groups'],
               bias=c['bias'], padding_mode=c['mode'],
               norm_cfg=c['norm'] and dict(type=c['norm']),
               act_cfg=c['act'] and dict(type=c['act']),
               inplace=c['inplace'], order=tuple(c['order']))
    conn = build(cfg, c['seed'], c['train'])
    x = feature(case)
    wide = c['norm'] is None if c['bias'] == 'auto' else c['bias']
    assert (conn.conv_module.conv.bias is not None) == wide, 'bias'

    def ref(m, y):
        m = m.conv_module
        for op in c['order']:
            if op == 'conv':
                y = F.conv2d(pad(y, c['p'], c['mode']), m.conv.weight,
                             m.conv.bias, c['s'], 0, c['d'], c['groups'])
            elif op == 'norm' and c['norm']:
                y = bn(m.norm, y, c['train'])
            elif op == 'act' and c['act']:
                y = ACTS[c['act']](y)
        return y

    rec.tag('order=' + str(c['order'][0]))
    rec.tag('padding=' + str(c['mode']))
    judge(case, rec, conn, ref, x)


# ----------------------------------------------------------- plain transforms
@st.composite
def plain_case(draw):
    kind = draw(st.sampled_from(['crd', 'byot', 'para', 'para', 'trans',
                                 'norm', 'ofd']))
    f = draw(feats(cmax=4, smin=2))
    c = dict(kind=kind, f=f, seed=draw(seeds()), train=draw(st.booleans()),
             out=draw(st.integers(1, 5)), bn=draw(st.booleans()),
             phase=draw(st.sampled_from(['pretrain', 'train'])),
             doubles=draw(st.integers(0, 2)), exp=draw(st.integers(1, 3)),
             classes=draw(st.integers(2, 5)))
    if kind == 'byot':
        c['f'] = dict(f, n=draw(st.integers(2, 3)), h=8, w=8,
                      c=draw(st.integers(1, 2)) * c['exp'])
    return c


def leaky(x, s=0.1):
    return torch.where(x >= 0, x, s * x)


def stack(seq, x, use_bn, training, transpose=False):
    """conv3x3 - (bn) - leaky, three times, with the modules of ``seq``."""
    conv = F.conv_transpose2d if transpose else F.conv2d
    convs = [m for m in seq if isinstance(m, (nn.Conv2d, nn.ConvTranspose2d))]
    bns = [m for m in seq if isinstance(m, nn.BatchNorm2d)]
    assert len(convs) == 3 and len(bns) == (3 if use_bn else 0), 'layers'
    assert all(m.kernel_size == (3, 3) for m in convs), 'kernels'
    for i, m in enumerate(convs):
        x = conv(x, m.weight, m.bias, 1, 1)
        if use_bn:
            x = bn(bns[i], x, training)
        x = leaky(x)
    return x


def sep(m, x, training, stride):
    """DartsSepConv: two (relu, depthwise, pointwise, bn) blocks."""
    convs = [k for k in m.modules() if isinstance(k, nn.Conv2d)]
    bns = [k for k in m.modules() if isinstance(k, nn.BatchNorm2d)]
    assert len(convs) == 4 and len(bns) == 2, 'layers of the separable conv'
    for i in range(2):
        x = x.clamp(min=0)
        dw, pw = convs[2 * i], convs[2 * i + 1]
        x = F.conv2d(x, dw.weight, dw.bias, stride if i == 0 else 1,
                     dw.kernel_size[0] // 2, 1, x.shape[1])
        x = F.conv2d(x, pw.weight, pw.bias)
        x = bn(bns[i], x, training)
    return x


def run_plain(case, rec):
    c, f, k = case, case['f'], case['kind']
    rec.tag('kind=' + str(k))
    x = feature(case)
    tr = c['train']
    if tr and f['n'] * f['h'] * f['w'] < 2:
        rec.reject()
    if k == 'crd':
        dim = f['c'] * f['h'] * f['w']
        conn = build(dict(type='CRDConnector', dim_in=dim, dim_out=c['out']),
                     c['seed'], tr)

        def ref(m, y):
            # rows are flattened channel by channel
            rows = torch.stack([torch.cat([y[i, j].contiguous().flatten()
                                           for j in range(f['c'])])
                                for i in range(f['n'])])
            z = rows @ m.linear.weight.T + m.linear.bias
            return z / (z * z).sum(1, keepdim=True).sqrt()

        judge(case, rec, conn, ref, x)
        return
    if k == 'byot':
        cin, e = f['c'] // c['exp'], c['exp']
        outc = cin * 2**c['doubles']
        size = 8 // 2**c['doubles']
        conn = build(dict(type='BYOTConnector', in_channel=cin,
                          out_channel=outc, num_classes=c['classes'],
                          expansion=e, pool_size=size, kernel_size=3,
                          stride=2), c['seed'], tr)

        def ref(m, y):
            att = sep(m.attention[0], y, tr, 2)
            att = bn(m.attention[1], att, tr).clamp(min=0)
            att = F.interpolate(att, scale_factor=2, mode='bilinear',
                                align_corners=False)
            z = y / (1 + (-att).exp())
            for i in range(c['doubles']):
                z = sep(m.scala[i], z, tr, 2)
            z = z.mean((2, 3))
            return z, z @ m.fc.weight.T + m.fc.bias

        out = judge(case, rec, conn, ref, x, grads=False)
        assert out[0].shape == (f['n'], outc * e) and \
            out[1].shape == (f['n'], c['classes']), 'shapes'
        rec.hit()
        return
    if k == 'para':
        conn = build(dict(type='Paraphraser', in_channel=f['c'],
                          out_channel=c['out'], phase=c['phase'],
                          use_bn=c['bn']), c['seed'], tr)
        rec.tag('phase=' + str(c['phase']))

        def ref(m, y):
            z = stack(m.encoder, y, c['bn'], tr)
            if c['phase'] == 'train':
                return z
            return stack(m.decoder, z, c['bn'], tr, True)

        grads = c['phase'] == 'pretrain'
        out = judge(case, rec, conn, ref, x, grads=grads)
        want = c['out'] if not grads else f['c']
        assert out[0].shape == (f['n'], want, f['h'], f['w']), 'shape'
        assert out[0].requires_grad == grads, \
            'the paraphraser is fixed when the student is trained'
        rec.hit()
        return
    if k == 'trans':
        conn = build(dict(type='Translator', in_channel=f['c'],
                          out_channel=c['out'], use_bn=c['bn']),
                     c['seed'], tr)
        judge(case, rec, conn, lambda m, y: stack(m.encoder, y, c['bn'], tr),
              x)
        return
    if k == 'norm':
        conn = build(dict(type='NormConnector', in_channels=f['c'],
                          norm_cfg=dict(type='BN', affine=c['bn'])),
                     c['seed'], tr)
        judge(case, rec, conn, lambda m, y: bn(m.norm, y, tr), x)
        return
    # OFD: the feature is cut at a per-channel margin, which is not learned
    conn = build(dict(type='OFDTeacherConnector'))
    margin = torch.linspace(-2, -.1, f['c'])
    conn.init_margin(margin.double().view(1, -1, 1, 1))
    judge(case, rec, conn,
          lambda m, y: torch.maximum(y, margin.double()[None, :, None, None]),
          x, grads=False)
    rec.hit()


# ------------------------------------------------------------ torch functions
FUNCS = {
    'adaptive_avg_pool2d': dict(output_size=2),
    'adaptive_max_pool2d': dict(output_size=2),
    'avg_pool2d': dict(kernel_size=2, stride=1),
    'max_pool2d': dict(kernel_size=2, stride=1),
    'normalize': dict(p=2.0, dim=1),
    'relu': {},
    'softmax': dict(dim=1),
    'interpolate': dict(scale_factor=2, mode='nearest'),
    'dropout': dict(p=1.0),
    'dropout2d': dict(p=1.0)}
MODS = {
    'AdaptiveAvgPool2d': dict(output_size=2),
    'AdaptiveMaxPool2d': dict(output_size=2),
    'AvgPool2d': dict(kernel_size=2, stride=1),
    'MaxPool2d': dict(kernel_size=2, stride=1),
    'BatchNorm2d': None, 'Conv2d': None, 'Linear': None,
    'Dropout': dict(p=1.0), 'Dropout2d': dict(p=1.0),
    'ReLU': {}, 'Softmax': dict(dim=1)}
OTHERS = ['gelu', 'linear', 'avg_pool1d', 'kl_div', '', 'Relu', 'relu_',
          'GELU', 'Identity', 'Upsample', 'ReLU6', 'nn.ReLU', None]


@st.composite
def torch_case(draw):
    nnmod = draw(st.booleans())
    return dict(seed=draw(seeds()), f=draw(feats(smin=2)), nn=nnmod,
                name=draw(st.sampled_from(sorted(MODS if nnmod else FUNCS))),
                bad=draw(st.sampled_from(OTHERS)), train=draw(st.booleans()))


def windows(x, fn):
    h, w = x.shape[2] - 1, x.shape[3] - 1
    return fn(torch.stack([x[:, :, i:i + h, j:j + w] for i in range(2)
                           for j in range(2)]))


def adaptive(x, fn):
    n, c, h, w = x.shape
    cut = [(slice(0, -(-v // 2)), slice(v // 2, v)) for v in (h, w)]
    return torch.stack([torch.stack(
        [fn(x[:, :, a, b].reshape(n, c, -1)) for b in cut[1]], -1)
        for a in cut[0]], -2)


def run_torch(case, rec):
    c, f, name = case, case['f'], case['name']
    typ = 'TorchNNConnector' if c['nn'] else 'TorchFunctionalConnector'
    key, akey = ('module_name', 'module_args') if c['nn'] else \
        ('function_name', 'func_args')
    args = (MODS if c['nn'] else FUNCS)[name]
    if args is None:
        args = dict(BatchNorm2d=dict(num_features=f['c']),
                    Conv2d=dict(in_channels=f['c'], out_channels=3,
                                kernel_size=2, padding=1),
                    Linear=dict(in_features=f['w'], out_features=3))[name]
    tr = c['train']
    if name == 'BatchNorm2d' and tr and f['n'] * f['h'] * f['w'] < 2:
        rec.reject()
    conn = build({'type': typ, key: name, akey: args}, c['seed'], tr)
    x = feature(case)
    low = name.lower().replace('_', '')

    def ref(m, y):
        if low in ('relu', ):
            return ACTS['ReLU'](y)
        if low == 'softmax':
            e = y.exp()
            return e / e.sum(1, keepdim=True)
        if low == 'normalize':
            return y / (y * y).sum(1, keepdim=True).sqrt().clamp(min=1e-12)
        if low == 'interpolate':
            return y.repeat_interleave(2, 2).repeat_interleave(2, 3)
        if low == 'avgpool2d':
            return windows(y, lambda t: t.mean(0))
        if low == 'maxpool2d':
            return windows(y, lambda t: t.amax(0))
        if low == 'adaptiveavgpool2d':
            return adaptive(y, lambda t: t.mean(-1))
        if low == 'adaptivemaxpool2d':
            return adaptive(y, lambda t: t.amax(-1))
        if low in ('dropout', 'dropout2d'):
            # functional dropout has no mode: it is always on
            return y * 0 if (tr or not c['nn']) else y
        if low == 'batchnorm2d':
            return bn(m.func, y, tr)
        if low == 'linear':
            return y @ m.func.weight.T + m.func.bias
        return F.conv2d(y, m.func.weight, m.func.bias, padding=1)

    rec.tag('fn=' + str(name))
    judge(case, rec, conn, ref, x)
    for kw in ({key: c['bad']}, {}):
        try:
            build({'type': typ, **kw})
        except Exception:
            continue
        raise AssertionError(f'{typ} accepted {kw or "no name"}')


# ------------------------------------------------------------------------ MGD
@st.composite
def mgd_case(draw):
    return dict(seed=draw(seeds()), f=draw(feats(smin=3)),
                out=draw(st.integers(1, 6)), same=draw(st.booleans()),
                chan=draw(st.booleans()),
                lam=draw(st.sampled_from([0., .15, .5, .65, .9, 1.])))


def run_mgd(case, rec):
    c, f = case, case['f']
    t = f['c'] if c['same'] else c['out']
    cfg = dict(type='MGDConnector', student_channels=f['c'],
               teacher_channels=t, lambda_mgd=c['lam'],
               mask_on_channel=c['chan'])
    conn = build(cfg, c['seed'])
    x = feature(case)
    assert (conn.align is None) == (t == f['c']), 'align'
    convs = [m for m in conn.generation if isinstance(m, nn.Conv2d)]

    def gen(m, y):
        a, b = [k for k in m.generation if isinstance(k, nn.Conv2d)]
        y = F.conv2d(y, a.weight, a.bias, padding=1).clamp(min=0)
        return F.conv2d(y, b.weight, b.bias, padding=1)

    def align(m, y):
        if m.align is None:
            return y
        return F.conv2d(y, m.align.weight, m.align.bias)

    # what is generated is generated from the aligned feature, masked
    seen = []
    h = convs[0].register_forward_hook(
        lambda m, i, o: seen.append(i[0].detach().clone()))
    fa = x.clone().requires_grad_() * 1.0
    keep = fa.detach().clone()
    torch.manual_seed(c['seed'])
    got = conn(fa)
    assert torch.equal(fa.detach(), keep), 'the feature was changed in place'
    assert got.shape == (f['n'], t, f['h'], f['w']), 'shape'
    assert all(k.kernel_size == (3, 3) for k in convs), 'kernels'
    al = align(conn, x).detach()
    assert al.shape == got.shape, 'aligned shape'
    m = torch.where(seen[0].abs() > 0, 1., 0.)
    live = al.abs() > 1e-6
    close(seen[0], al * m, 1e-5, 1e-5, 'a feature is kept or zeroed')
    # the mask is shared by the channels (pixels)
    def some(z):
        return z.flatten(2).any(2) if c['chan'] else z.any(1)

    assert not (some(m.bool() & live) & some(~m.bool() & live)).any(), \
        'the mask differs within a ' + ('channel' if c['chan'] else 'pixel')
    close(got, gen(conn, al * m), 1e-4, 1e-4, 'generated feature')
    if c['lam'] in (0., 1.):
        assert m[live].eq(1 - c['lam']).all(), f'lambda {c["lam"]}'
    else:
        # over many draws the masked fraction is lambda
        big = torch.ones(40, f['c'], 20, 20)
        seen.clear()
        if conn.align is not None:
            nn.init.zeros_(conn.align.weight)
            nn.init.ones_(conn.align.bias)
        torch.manual_seed(c['seed'] + 1)
        conn(big)
        z = (seen[0] == 0).float()
        cnt = 40 * t if c['chan'] else 40 * 400
        z = z[:, :, 0, 0] if c['chan'] else z[:, 0]
        sd = math.sqrt(c['lam'] * (1 - c['lam']) / cnt)
        assert abs(float(z.mean()) - c['lam']) < 6 * sd, \
            f'masked {float(z.mean())}, lambda {c["lam"]}'
        # and masks differ between draws (samples)
        if cnt > 400:
            assert not torch.equal(z[0], z[1]), 'one mask for all samples'
    h.remove()
    # gradients flow to the kept pixels only
    conn2 = build(cfg, c['seed'])
    conn2.generation = nn.Identity()
    b = x.clone().requires_grad_()
    torch.manual_seed(c['seed'])
    out = conn2(b)
    out.sum().backward()
    al2 = align(conn2, x)
    mm = torch.where(out.detach() != 0, 1., 0.)
    close(out, al2 * mm, 1e-5, 1e-5, 'masked feature')
    if conn2.align is None:
        close(b.grad[x.abs() > 1e-6], mm[x.abs() > 1e-6], 1e-6, 1e-6,
              'gradient')
    if 0 < c['lam'] < 1:
        rec.hit()
    rec.tag('mask=' + str('channel' if c['chan'] else 'space'))


# ----------------------------------------------------------------------- FBKD
@st.composite
def fbkd_case(draw):
    return dict(
        seed=draw(seeds()), f=draw(feats(smin=4, smax=9)),
        teacher=draw(st.booleans()), red=draw(st.integers(1, 3)),
        mode=draw(st.sampled_from(['gaussian', 'embedded_gaussian',
                                   'dot_product', 'concatenation'])),
        sub=draw(st.booleans()), pool=draw(st.integers(1, 4)),
        zeros=draw(st.booleans()), sT=draw(st.sampled_from([.1, .5, 1., 2.])),
        cT=draw(st.sampled_from([.1, .5, 1., 2.])), train=draw(st.booleans()),
        norm=draw(st.sampled_from(['default', .3, None])))


def conv_of(m):
    """The only convolution inside ``m``."""
    found = [k for k in m.modules() if isinstance(k, nn.Conv2d)]
    assert len(found) == 1, 'one convolution'
    return found[0]


def pooled(x, k):
    n, c, h, w = x.shape
    x = x[:, :, :h // k * k, :w // k * k]
    return x.reshape(n, c, h // k, k, w // k, k).amax((3, 5))


def nonlocal_ref(m, x, c):
    """x + bn(W · sum_j f(x_i, x_j) g(x_j)) / normalization."""
    n, ch, h, w = x.shape
    inter = max(ch // c['red'], 1)

    def conv(layer, y):
        k = conv_of(layer)
        return F.conv2d(y, k.weight, k.bias)

    g = conv(m.g, x)
    assert g.shape[1] == inter, 'reduction'
    gauss = c['mode'] == 'gaussian'
    th = x if gauss else conv(m.theta, x)
    ph = x if gauss else conv(m.phi, x)
    if c['sub']:
        g, ph = pooled(g, c['pool']), pooled(ph, c['pool'])
    th, ph, g = [t.flatten(2).transpose(1, 2) for t in (th, ph, g)]
    if c['mode'] == 'concatenation':
        wt = conv_of(m.concat_project).weight.flatten()
        pair = (th @ wt[:inter])[:, :, None] + (ph @ wt[inter:])[:, None]
        pair = pair.clamp(min=0) / g.shape[1]
    else:
        pair = th @ ph.transpose(1, 2)
        if c['mode'] == 'dot_product':
            pair = pair / g.shape[1]
        else:
            if c['mode'] == 'embedded_gaussian':
                pair = pair / math.sqrt(inter)
            pair = pair - pair.amax(-1, keepdim=True)
            pair = pair.exp() / pair.exp().sum(-1, keepdim=True)
    y = (pair @ g).transpose(1, 2).reshape(n, inter, h, w)
    y = conv(m.conv_out.conv, y)
    if c['norm'] is not None:
        eps = 1e-5 if c['norm'] == 'default' else c['norm']
        assert m.conv_out.norm.eps == eps, 'norm_cfg'
        y = bn(m.conv_out.norm, y, c['train'])
    return x + y


def run_fbkd(case, rec):
    c, f = case, case['f']
    who = 'Teacher' if c['teacher'] else 'Student'
    cfg = dict(type=f'FBKD{who}Connector', in_channels=f['c'],
               reduction=c['red'], mode=c['mode'], sub_sample=c['sub'],
               maxpool_stride=c['pool'], zeros_init=c['zeros'],
               spatial_T=c['sT'], channel_T=c['cT'])
    if c['norm'] != 'default':
        cfg['norm_cfg'] = c['norm'] and dict(type='BN', eps=c['norm'])
    name = f'{who.lower()}_non_local'
    # a fresh relation block is the identity with zeros_init only
    fresh = build(cfg)
    last = getattr(fresh, name).conv_out
    last = last.conv if c['norm'] is None else last.norm
    assert bool((last.weight == 0).all()) == c['zeros'], 'zeros_init'
    if c['zeros']:
        x = feature(case)
        fresh.eval()
        close(getattr(fresh, name)(x), x, 1e-6, 1e-6, 'zeros_init')
    conn = build(cfg, c['seed'], c['train'])
    x = feature(case)
    area = f['h'] * f['w']

    def soft(v, T):
        v = v / T
        e = (v - v.amax(1, keepdim=True)).exp()
        return e / e.sum(1, keepdim=True)

    def ref(m, y):
        sm = soft(y.abs().mean(1).reshape(f['n'], -1), c['sT']) * area
        cm = soft(y.abs().mean((2, 3)), c['cT']) * f['c']
        sm = sm.reshape(f['n'], 1, f['h'], f['w'])
        cm = cm.reshape(f['n'], f['c'], 1, 1)
        rel = nonlocal_ref(getattr(m, name), y, c)
        if c['teacher']:
            return sm, cm, y.mean(1, keepdim=True), rel, y
        lin, sp = m.channel_wise_adaptation, m.spatial_wise_adaptation
        ad, nl = m.adaptation_layers, m.non_local_adaptation
        return (sm, cm, y.mean((2, 3)) @ lin.weight.T + lin.bias,
                F.conv2d(y.mean(1, keepdim=True), sp.weight, sp.bias,
                         padding=1),
                F.conv2d(rel, nl.weight, nl.bias),
                F.conv2d(y, ad.weight, ad.bias))

    rec.tag('mode=' + str(c['mode']))
    rec.tag('pool=' + str(c['pool'] if c['sub'] else 0))
    # mmcv's concatenation mode divides in place behind a ReLU: no backward
    out = judge(case, rec, conn, ref, x, grads=c['mode'] != 'concatenation')
    n, ch, hw = f['n'], f['c'], (f['h'], f['w'])
    want = [(n, 1, *hw), (n, ch, 1, 1)]
    want += [(n, 1, *hw), (n, ch, *hw), (n, ch, *hw)] if c['teacher'] else \
        [(n, ch), (n, 1, *hw), (n, ch, *hw), (n, ch, *hw)]
    assert [tuple(o.shape) for o in out] == want, 'shapes'
    if not c['teacher']:
        assert conn.spatial_wise_adaptation.weight.shape == (1, 1, 3, 3) and \
            conn.adaptation_layers.weight.shape == (ch, ch, 1, 1) and \
            conn.non_local_adaptation.weight.shape == (ch, ch, 1, 1), 'kernels'


# ----------------------------------------------------------------- generators
@st.composite
def gen_case(draw):
    return dict(seed=draw(seeds()), typ=draw(st.sampled_from(
        ['DAFLGenerator', 'ZSKTGenerator'])),
        init=draw(st.integers(1, 3)), sf=draw(st.integers(1, 3)),
        latent=draw(st.integers(1, 5)), hidden=draw(st.integers(2, 6)),
        slope=draw(st.sampled_from([.0, .2, .5])),
        eps=draw(st.sampled_from([.8, 1e-5])), n=draw(st.integers(1, 3)),
        train=draw(st.booleans()))


def run_gen(case, rec):
    c = case
    img = c['init'] * c['sf']**2
    n = c['n'] + 1 if c['train'] and img == 1 else c['n']
    if c['train'] and n * c['init']**2 < 2:
        n = 2
    cfg = dict(type=c['typ'], img_size=img, latent_dim=c['latent'],
               hidden_channels=c['hidden'], scale_factor=c['sf'],
               leaky_slope=c['slope'])
    dafl = c['typ'] == 'DAFLGenerator'
    if dafl:
        cfg['bn_eps'] = c['eps']
    gen = build(cfg, c['seed'], c['train'])
    convs = [m for m in gen.modules() if isinstance(m, nn.Conv2d)]
    bns = [m for m in gen.modules() if isinstance(m, nn.BatchNorm2d)]
    assert len(convs) == 3 and len(bns) == 4, 'layers'
    if dafl:
        assert [m.eps for m in bns] == [1e-5, c['eps'], c['eps'], 1e-5], 'eps'
        assert [m.affine for m in bns] == [True, True, True, False], 'affine'
    else:
        assert all(m.affine and m.eps == 1e-5 for m in bns), 'affine'
    assert [m.out_channels for m in convs] == \
        [c['hidden'], c['hidden'] // 2, 3], 'channels'

    def up(x):
        return x.repeat_interleave(c['sf'], 2).repeat_interleave(c['sf'], 3)

    def ref(m, z):
        cs = [k for k in m.modules() if isinstance(k, nn.Conv2d)]
        bs = [k for k in m.modules() if isinstance(k, nn.BatchNorm2d)]
        lin = [k for k in m.modules() if isinstance(k, nn.Linear)][0]
        x = z @ lin.weight.T + lin.bias
        x = x.reshape(-1, c['hidden'], c['init'], c['init'])
        x = up(bn(bs[0], x, c['train']))
        x = F.conv2d(x, cs[0].weight, cs[0].bias, padding=1)
        x = up(leaky(bn(bs[1], x, c['train']), c['slope']))
        x = F.conv2d(x, cs[1].weight, cs[1].bias, padding=1)
        x = leaky(bn(bs[2], x, c['train']), c['slope'])
        x = F.conv2d(x, cs[2].weight, cs[2].bias, padding=1)
        return bn(bs[3], x.tanh() if dafl else x, c['train'])

    start = copy.deepcopy(gen)
    g = torch.Generator().manual_seed(c['seed'])
    z = torch.randn(n, c['latent'], generator=g)
    out = gen(z)
    assert out.shape == (n, 3, img, img), f'shape {tuple(out.shape)}'
    dgen, twin = [copy.deepcopy(start).double() for _ in range(2)]
    close(dgen(z.double()), ref(twin, z.double()), 1e-6, 1e-6, 'image')
    for (k, p), (_, q) in zip(dgen.named_buffers(), twin.named_buffers()):
        close(p.float(), q.float(), 1e-6, 1e-6, k)
    # no latent: standard normal noise of the batch size asked for
    seen = []
    lin = [k for k in gen.modules() if isinstance(k, nn.Linear)][0]
    h = lin.register_forward_pre_hook(lambda m, i: seen.append(i[0].clone()))
    torch.manual_seed(c['seed'] + 2)
    o1 = gen(batch_size=n)
    o2 = gen(batch_size=n)
    h.remove()
    assert o1.shape == out.shape and seen[0].shape == (n, c['latent']), \
        'batch size'
    assert not torch.equal(seen[0], seen[1]), 'the noise is drawn anew'
    del o2
    gen.eval()
    big = []
    h = lin.register_forward_pre_hook(lambda m, i: big.append(i[0].clone()))
    gen(batch_size=400)
    h.remove()
    v = big[0].flatten()
    assert abs(float(v.mean())) < 6 / math.sqrt(len(v)) and \
        abs(float(v.var()) - 1) < 6 * math.sqrt(2 / len(v)), 'noise'
    for bad in (torch.zeros(2, c['latent'] + 1),
                torch.zeros(2, c['latent'], 1), 0):
        kept = snapshot(gen)
        try:
            if isinstance(bad, int):
                gen(batch_size=bad)
            else:
                gen(bad)
        except (AssertionError, ValueError):
            same_state(snapshot(gen), kept, 'after a refusal')
            continue
        raise AssertionError(f'latent {getattr(bad, "shape", bad)} accepted')
    rec.tag('type=' + str(c['typ']))
    if c['sf'] > 1:
        rec.hit()


# ------------------------------------------------------------------- DeiT head
@st.composite
def head_case(draw):
    return dict(seed=draw(seeds()), n=draw(st.integers(1, 3)),
                dim=draw(st.integers(1, 5)), classes=draw(st.integers(2, 5)),
                hidden=draw(st.sampled_from([None, None, 3, 4])),
                depth=draw(st.integers(1, 2)))


def run_head(case, rec):
    c = case
    cfg = dict(type='mmrazor.DeiTClsHead', num_classes=c['classes'],
               in_channels=c['dim'], hidden_dim=c['hidden'],
               loss=dict(type='CrossEntropyLoss', loss_weight=1.0))
    head = build(cfg, c['seed'])
    g = torch.Generator().manual_seed(c['seed'])
    toks = [[torch.randn(c['n'], 4, c['dim'], generator=g),
             torch.randn(c['n'], c['dim'], generator=g),
             torch.randn(c['n'], c['dim'], generator=g)]
            for _ in range(c['depth'])]
    seen = []
    h = head.layers.head_dist.register_forward_hook(
        lambda m, i, o: seen.append(o))
    got = head(tuple(toks))
    h.remove()
    sd = {k: v.double() for k, v in head.state_dict().items()}

    def branch(tok, name):
        y = tok.double()
        if c['hidden']:
            y = (y @ sd['layers.pre_logits.weight'].T +
                 sd['layers.pre_logits.bias']).tanh()
        return y @ sd[f'layers.{name}.weight'].T + sd[f'layers.{name}.bias']

    close(got, branch(toks[-1][1], 'head'), 1e-4, 1e-4, 'class scores')
    assert len(seen) == 1, 'the distillation head runs once'
    close(seen[0], branch(toks[-1][2], 'head_dist'), 1e-4, 1e-4,
          'distillation scores')
    rec.hit()


# ------------------------------------------------------------------------ init
INITS = dict(
    ConvModuleConnector=dict(in_channel=3, out_channel=4),
    CRDConnector=dict(dim_in=5, dim_out=3),
    BYOTConnector=dict(in_channel=2, out_channel=4, num_classes=3),
    Paraphraser=dict(in_channel=3, out_channel=2),
    Translator=dict(in_channel=3, out_channel=2),
    NormConnector=dict(in_channels=3, norm_cfg=dict(type='BN')),
    TorchNNConnector=dict(module_name='Conv2d', module_args=dict(
        in_channels=3, out_channels=2, kernel_size=1)),
    MGDConnector=dict(student_channels=3, teacher_channels=2),
    FBKDStudentConnector=dict(in_channels=4),
    FBKDTeacherConnector=dict(in_channels=4),
    DAFLGenerator=dict(img_size=8, latent_dim=3, hidden_channels=4),
    ZSKTGenerator=dict(img_size=8, latent_dim=3, hidden_channels=4))


@st.composite
def init_case(draw):
    return dict(typ=draw(st.sampled_from(sorted(INITS))),
                val=draw(st.sampled_from([.25, -1., 2.])),
                bias=draw(st.sampled_from([.5, 0.])),
                layer=draw(st.sampled_from(
                    ['Conv2d', 'Linear', 'BatchNorm2d'])),
                seed=draw(seeds()))


def run_init(case, rec):
    c = case
    cfg = dict(type=c['typ'], **INITS[c['typ']],
               init_cfg=dict(type='Constant', layer=c['layer'],
                             val=c['val'], bias=c['bias']))
    conn = build(cfg, c['seed'])
    conn.init_weights()
    n = 0
    # blocks of mmcv initialize themselves afterwards
    own = {id(k) for m in conn.modules() if m is not conn and
           hasattr(m, 'init_weights') for k in m.modules()}
    for k, m in conn.named_modules():
        if type(m).__name__ == c['layer'] and id(m) not in own:
            n += 1
            for p, v in ((m.weight, c['val']), (m.bias, c['bias'])):
                assert p is None or (p == v).all(), f'{k} of {c["typ"]}'
    if n:
        rec.hit()


# --------------------------------------------------------------------- gather
@st.composite
def gather_case(draw):
    return dict(seed=draw(seeds()), n=draw(st.integers(1, 4)),
                c=draw(st.integers(2, 5)), world=draw(st.integers(2, 3)),
                gather=draw(st.sampled_from([True, True, False])),
                weight=draw(st.sampled_from([1., .5, 3.])),
                scale=draw(st.sampled_from([.5, 2., 6.])))


def entropy(x, weight):
    p = (x - x.amax(1, keepdim=True)).exp()
    p = (p / p.sum(1, keepdim=True)).mean(0)
    return weight * (p * p.log() / math.log(10)).sum()


def one_rank(rank, case):
    from mmrazor.models.architectures.ops import GatherTensors
    g = torch.Generator().manual_seed(case['seed'])
    x = torch.randn(case['world'], case['n'], case['c'], generator=g) * \
        case['scale']
    loss = MODELS.build(dict(type='InformationEntropyLoss',
                             gather=case['gather'],
                             loss_weight=case['weight']))
    mine = x[rank].clone().requires_grad_()
    v = loss(mine)
    v.backward()
    again = x[rank].clone().requires_grad_()
    parts = GatherTensors.apply(again)
    # each rank weighs each part differently
    w = torch.arange(1, case['world'] + 1).float() * (rank + 1)
    sum((p * k).sum() for p, k in zip(parts, w)).backward()
    return (v.item(), mine.grad, [p.detach() for p in parts], again.grad)


def run_gather(case, rec):
    from pbt import ddp
    c = case
    g = torch.Generator().manual_seed(c['seed'])
    x = (torch.randn(c['world'], c['n'], c['c'], generator=g) *
         c['scale'])
    res = ddp.ranks(c['world'], one_rank, case)
    full = x.double().requires_grad_()
    if c['gather']:
        v = entropy(full.flatten(0, 1), c['weight'])
        # the gradients of all ranks' losses are added up
        (v * c['world']).backward()
        vals = [v.item()] * c['world']
    else:
        each = [entropy(full[r], c['weight']) for r in range(c['world'])]
        sum(each).backward()
        vals = [e.item() for e in each]
    for r, (val, grad, parts, ggrad) in enumerate(res):
        assert abs(val - vals[r]) < 1e-4 * max(1, abs(vals[r])), \
            f'rank {r}: loss {val}, not {vals[r]}'
        close(grad, full.grad[r], 1e-4, 1e-4, f'rank {r}: gradient')
        assert len(parts) == c['world'], 'parts'
        for q, p in enumerate(parts):
            assert torch.equal(p, x[q]), f'rank {r}: part {q}'
        want = (r + 1) * sum(range(1, c['world'] + 1))
        assert torch.equal(ggrad, torch.full_like(ggrad, want)), \
            f'rank {r}: gradient of the gathered parts'
    if c['gather'] and float(full.grad.abs().max()) > 1e-6:
        rec.hit()


SUBS = [
    Sub('conv', conv_case(), run_conv, 500),
    Sub('plain', plain_case(), run_plain, 400),
    Sub('torch', torch_case(), run_torch, 300),
    Sub('mgd', mgd_case(), run_mgd, 200),
    Sub('fbkd', fbkd_case(), run_fbkd, 300),
    Sub('generator', gen_case(), run_gen, 200),
    Sub('init', init_case(), run_init, 60),
    Sub('head', head_case(), run_head, 80),
    Sub('gather', gather_case(), run_gather, 30),
]
