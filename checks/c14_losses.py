"""C14: every distillation loss computes its published formula."""
import math

import torch
import torch.nn.functional as F
from hypothesis import strategies as st
from mmengine.structures import BaseDataElement

from mmrazor.registry import MODELS
from pbt.core import Sub

PID = 'C14'
RULE = ('student and teacher differ, the weight of the loss is not 1 and the '
        'reference gradient towards the student is not zero')
ASSUMPTIONS = ['logits and features within +-8, at least two samples for the '
               'relational losses',
               'teachers are detached by the algorithms unless the loss has '
               'teacher_detach']
D = torch.float64


# ------------------------------------------------------------ references
# Each reference is written with explicit sums in double precision and does
# not call the functional that the implementation uses.
def softmax(x, dim):
    e = (x - x.max(dim, keepdim=True)[0].detach()).exp()
    return e / e.sum(dim, keepdim=True)


def kl(s, t, dim):
    ps, pt = softmax(s, dim), softmax(t, dim)
    return pt * (pt.log() - ps.log())


def flat(x):
    return x.reshape(x.shape[0], -1)


def unit(x, eps=1e-12):
    n = (x * x).sum(1, keepdim=True).sqrt()
    return x / n.clamp(min=eps)


def smooth_l1(a, b):
    d = (a - b).abs()
    return torch.where(d < 1, 0.5 * d * d, d - 0.5).mean()


def reduce(x, how, n):
    if how == 'none':
        return x
    return x.sum() / dict(sum=1, mean=x.numel(), batchmean=n)[how]


def ref_kl(s, t, o):
    return o['tau']**2 * reduce(kl(s / o['tau'], t / o['tau'], 1),
                                o['reduction'], s.shape[0])


def ref_cwd(s, t, o):
    n, c = s.shape[:2]
    a, b = s.reshape(n * c, -1) / o['tau'], t.reshape(n * c, -1) / o['tau']
    return kl(a, b, 1).sum() * o['tau']**2 / (n * c)


def ref_ce(s, t, o):
    lab = t.argmax(1)
    return -softmax(s, 1).log().gather(1, lab[:, None]).mean()


def ref_kdsoft(s, t, o):
    tau = o['tau']
    x = -(softmax(t / tau, 1) * softmax(s / tau, 1).log()).sum(1)
    if o.get('weight') is not None:
        x = x * o['weight'].to(D)
    if o.get('avg') and o['reduction'] == 'mean':
        x = x.sum() / o['avg']
    else:
        x = reduce(x, o['reduction'], None)
    return x * (tau**2 if o['mult_tem_square'] else 1)


def ref_dkd(s, t, o):
    tau, lab = o['tau'], o['labels']
    ps, pt = softmax(s / tau, 1), softmax(t / tau, 1)
    n, c = s.shape
    tc, nc = [], []
    for i in range(n):
        k = int(lab[i])
        a, b = ps[i, k], pt[i, k]
        rest = [j for j in range(c) if j != k]
        tc.append(torch.stack([
            b * (b.log() - a.log()),
            pt[i, rest].sum() * (pt[i, rest].sum().log() -
                                 ps[i, rest].sum().log())]))
        # the masked class keeps its place but contributes nothing
        nc.append(kl(s[i:i + 1, rest] / tau, t[i:i + 1, rest] / tau, 1)[0])
    tc, nc = torch.stack(tc), torch.stack(nc)
    how = o['reduction']
    x, y = tc.sum(), nc.sum()
    if how == 'batchmean':
        x, y = x / n, y / n
    elif how == 'mean':
        x, y = x / (2 * n), y / (n * c)
    return tau**2 * (o['alpha'] * x + o['beta'] * y)


def ref_dist(s, t, o):
    tau = o['tau']
    a, b = softmax(s / tau, 1), softmax(t / tau, 1)

    def rel(a, b):
        out = 0
        for i in range(a.shape[0]):
            u, v = a[i] - a[i].mean(), b[i] - b[i].mean()
            out = out + (u * v).sum() / ((u * u).sum().sqrt() *
                                         (v * v).sum().sqrt() + 1e-8)
        return 1 - out / a.shape[0]
    return tau**2 * (o['inter_loss_weight'] * rel(a, b) +
                     o['intra_loss_weight'] * rel(a.t(), b.t()))


def ref_wsld(s, t, o):
    tau, lab = o['tau'], o['labels']
    soft = -(softmax(t / tau, 1) * softmax(s / tau, 1).log()).sum(1)
    with torch.no_grad():
        ls = -softmax(s, 1).log().gather(1, lab[:, None])[:, 0]
        lt = -softmax(t, 1).log().gather(1, lab[:, None])[:, 0]
        w = 1 - (-(ls / (lt + 1e-7)).clamp(min=0)).exp()
    return tau**2 * (w * soft).mean()


def ref_ab(s, t, o):
    m = o['margin']
    off = (t <= 0) & (s > -m)
    on = (t > 0) & (s <= m)
    x = ((s + m)**2)[off].sum() + ((s - m)**2)[on].sum()
    return x / s.shape[0] * 3 / 1000


def ref_at(s, t, o):
    a = unit(flat((s * s).mean(1)))
    b = unit(flat((t * t).mean(1)))
    return ((a - b)**2).mean()


def ref_ft(s, t, o):
    return (unit(flat(s)) - unit(flat(t))).abs().mean()


def ref_l1(s, t, o):
    return reduce((s - t).abs(), o['reduction'], None)


def ref_l2(s, t, o):
    if o['normalize']:
        s, t = unit(flat(s)) * o['mult'], unit(flat(t)) * o['mult']
    x = ((s - t)**2).sum()
    if o['dist']:
        return x.sqrt()
    return x / (s.numel() if o['div_element'] else s.shape[0])


def ref_mgd(s, t, o):
    return ((s - t)**2).sum() / s.shape[0]


def ref_ofd(s, t, o):
    keep = (s > t) | (t > 0)
    return ((s - t)**2)[keep].sum() / s.shape[0] / o['mul_factor']


def ref_pkd(s, t, o):
    ss = s if isinstance(s, (list, tuple)) else [s]
    tt = t if isinstance(t, (list, tuple)) else [t]
    out = 0
    for a, b in zip(ss, tt):
        if a.shape[2:] != b.shape[2:]:
            if o['resize_stu']:
                a = F.interpolate(a, b.shape[2:], mode='bilinear')
            else:
                b = F.interpolate(b, a.shape[2:], mode='bilinear')

        def std(x):
            x = x.transpose(0, 1).reshape(x.shape[1], -1)
            m = x.sum(1, keepdim=True) / x.shape[1]
            v = ((x - m)**2).sum(1, keepdim=True) / (x.shape[1] - 1)
            return (x - m) / (v.sqrt() + 1e-6)
        out = out + ((std(a) - std(b))**2).mean() / 2
    return out


def ref_rkdd(s, t, o):
    s, t = flat(s), flat(t)
    if o['with_l2_norm']:
        s, t = unit(s), unit(t)
    n = s.shape[0]

    def dist(x):
        rows = []
        for i in range(n):
            rows.append(torch.stack([
                ((x[i] - x[j])**2).sum().sqrt() if i != j else
                x.new_zeros(()) for j in range(n)]))
        d = torch.stack(rows)
        return d / (d.sum() / (n * (n - 1)))
    return smooth_l1(dist(s), dist(t))


def ref_rkda(s, t, o):
    s, t = flat(s), flat(t)
    if o['with_l2_norm']:
        s, t = unit(s), unit(t)
    n = s.shape[0]

    def ang(x):
        vals = []
        for i in range(n):
            v = torch.stack([x[j] - x[i] if i != j else torch.zeros_like(x[i])
                             for j in range(n)])
            v = torch.stack([r / ((r * r).sum().sqrt() if j != i else 1)
                             for j, r in enumerate(v)])
            vals.append(v @ v.t())
        return torch.stack(vals)
    return smooth_l1(ang(s), ang(t))


def ref_onehot(s, t, o):
    return ref_ce(s, s.detach(), o)


def ref_entropy(s, t, o):
    p = softmax(s, 1).mean(0)
    return (p * p.log()).sum() / math.log(10)


def ref_act(s, t, o):
    return -(s.abs().mean() if o['norm_type'] == 'abs' else
             (s * s).sum().sqrt())


TAUS = st.sampled_from([0.5, 1.0, 2.0, 4.0])
W = st.sampled_from([0.1, 0.5, 2.0, 3.0, 25.0])


def fd(**kw):
    return st.fixed_dictionaries(kw)


# name: (reference, options, input kind, zero at equality, extras)
LOSSES = {
    'KLDivergence': (ref_kl, fd(tau=TAUS, reduction=st.sampled_from(
        ['none', 'batchmean', 'sum', 'mean']),
        teacher_detach=st.booleans()), 'any', True),
    'ChannelWiseDivergence': (ref_cwd, fd(tau=TAUS), 'feat', True),
    'CrossEntropyLoss': (ref_ce, fd(), 'logit', False),
    'KDSoftCELoss': (ref_kdsoft, fd(tau=TAUS, reduction=st.sampled_from(
        ['none', 'sum', 'mean']), mult_tem_square=st.booleans()),
        'logit', False),
    'DKDLoss': (ref_dkd, fd(
        tau=TAUS, alpha=st.sampled_from([0., 1., 2.]),
        beta=st.sampled_from([0., 0.5, 8.]),
        reduction=st.sampled_from(['batchmean', 'sum', 'mean'])),
        'label', True),
    'DISTLoss': (ref_dist, fd(
        inter_loss_weight=st.sampled_from([0., 1., 2.]),
        intra_loss_weight=st.sampled_from([0., 1., 3.]),
        tau=st.sampled_from([1., 2., 4.]),
        teacher_detach=st.booleans()), 'logit', False),
    'WSLD': (ref_wsld, fd(tau=TAUS), 'label', False),
    'ABLoss': (ref_ab, fd(margin=st.sampled_from([0.5, 1., 2.])),
               'same', False),
    'ATLoss': (ref_at, fd(), 'feat', True),
    'FTLoss': (ref_ft, fd(), 'same', True),
    'L1Loss': (ref_l1, fd(reduction=st.sampled_from(['none', 'mean', 'sum'])),
               'same', True),
    'L2Loss': (ref_l2, fd(normalize=st.booleans(),
                          mult=st.sampled_from([1., 2.5]),
                          div_element=st.booleans(), dist=st.booleans()),
               'same', True),
    'MGDLoss': (ref_mgd, fd(), 'featsame', True),
    'OFDLoss': (ref_ofd, fd(mul_factor=st.sampled_from([1., 10., 1000.])),
                'same', True),
    'PKDLoss': (ref_pkd, fd(resize_stu=st.booleans()), 'pkd', True),
    'DistanceWiseRKD': (ref_rkdd, fd(with_l2_norm=st.booleans()),
                        'rel', True),
    'AngleWiseRKD': (ref_rkda, fd(with_l2_norm=st.booleans()), 'rel', True),
    'OnehotLikeLoss': (ref_onehot, fd(), 'logit1', False),
    'InformationEntropyLoss': (ref_entropy, fd(gather=st.booleans()),
                               'logit1', False),
    'ActivationLoss': (ref_act, fd(norm_type=st.sampled_from(
        ['abs', 'norm'])), 'any1', False),
}


@st.composite
def case(draw):
    name = draw(st.sampled_from(sorted(LOSSES)))
    opt = draw(LOSSES[name][1])
    return dict(
        name=name, opt=opt, w=draw(W), n=draw(st.integers(1, 5)),
        c=draw(st.integers(2, 6)), h=draw(st.integers(1, 5)),
        wd=draw(st.integers(1, 5)), h2=draw(st.integers(1, 6)),
        w2=draw(st.integers(1, 6)), flat=draw(st.booleans()),
        equal=draw(st.integers(0, 4)) == 0,
        scale=draw(st.sampled_from([0.3, 1.0, 2.0])),
        layout=draw(st.sampled_from(['plain', 'plain', 'last', 'strided'])),
        weight=draw(st.booleans()), avg=draw(st.sampled_from([0, 3])),
        pair=draw(st.booleans()), teacher_grad=draw(st.booleans()),
        double=draw(st.booleans()), perm=draw(st.integers(0, 10**6)),
        seed=draw(st.integers(0, 10**6)))


def lay(x, layout):
    """The same values in another memory layout."""
    if layout == 'plain':
        return x
    if layout == 'last' and x.dim() == 4:
        return x.contiguous(memory_format=torch.channels_last)
    big = torch.zeros(*x.shape[:-1], x.shape[-1] * 2, dtype=x.dtype)
    big[..., ::2] = x
    return big[..., ::2]


def run(c, rec):
    name, kind = c['name'], LOSSES[c['name']][2]
    ref, zero = LOSSES[name][0], LOSSES[name][3]
    opt = dict(c['opt'])
    g = torch.Generator().manual_seed(c['seed'])
    n = c['n']
    if kind == 'rel' or name == 'DISTLoss':
        n = max(n, 2)
    dt = torch.float64 if c['double'] else torch.float32

    def rnd(*shape):
        # nearly one-hot columns only meet the 1e-8 of the correlation
        k = min(c['scale'], 0.5) if name == 'DISTLoss' else c['scale']
        x = torch.randn(*shape, generator=g, dtype=D) * 2 * k
        return x.clamp(-8, 8).to(dt)
    img = (n, c['c'], c['h'], c['wd'])
    if kind in ('logit', 'logit1', 'label'):
        shape = (n, c['c'])
    elif kind in ('feat', 'featsame', 'pkd'):
        shape = img
    else:
        shape = (n, c['c']) if c['flat'] else img
    shape_t = shape
    if name == 'ATLoss' and c['pair']:
        shape_t = (n, c['c'] + 2) + shape[2:]
    if kind == 'rel' and c['pair']:
        shape_t = (n, shape[1] + 3) + shape[2:]
    if kind == 'pkd':
        # a map needs two values per channel to have a deviation
        if n * c['h'] * c['wd'] < 3:
            shape = shape_t = (n + 2,) + shape[1:]
        if c['pair']:
            shape_t = shape[:2] + (c['h2'], c['w2'])
            if c['h2'] * c['w2'] * shape[0] < 3:
                return rec.reject('one value per channel')
    s, t = rnd(*shape), rnd(*shape_t)
    if c['equal'] and shape == shape_t:
        t = s.clone()
    s2 = t2 = None
    if kind == 'pkd' and c['perm'] % 2:
        s2, t2 = rnd(*shape), rnd(*shape)
    if kind == 'pkd' and s.shape != t.shape:
        small, size = (s, t) if opt['resize_stu'] else (t, s)
        m = F.interpolate(small, size.shape[2:], mode='bilinear')
        if float(m.transpose(0, 1).flatten(1).std(1).min()) < 0.05:
            return rec.reject('a resized map is constant')
    labels = torch.randint(c['c'], (shape[0], ), generator=g)
    kw = dict(opt)
    if name == 'WSLD':
        kw['num_classes'] = c['c']
    if name == 'MGDLoss':
        kw['alpha_mgd'] = c['w']
    else:
        kw['loss_weight'] = c['w']
    loss = MODELS.build(dict(type=f'mmrazor.{name}', **kw))
    one = dict(kw)
    one['alpha_mgd' if name == 'MGDLoss' else 'loss_weight'] = 1.0
    loss1 = MODELS.build(dict(type=f'mmrazor.{name}', **one))
    single = kind in ('logit1', 'any1')
    extra = {}
    if kind == 'label':
        extra = dict(gt_labels=labels)
        opt['labels'] = labels
    if name == 'KDSoftCELoss':
        if c['weight']:
            opt['weight'] = extra['weight'] = torch.rand(
                shape[0], generator=g)
        if c['avg'] and opt['reduction'] != 'sum':
            opt['avg'] = extra['avg_factor'] = c['avg']

    def call(mod, s, t, s2=None, t2=None, extra=extra):
        if single:
            return mod(s)
        if s2 is not None:
            return mod((s, s2), (t, t2))
        return mod(s, t, **extra)
    rec.tag(name)
    rec.tag('layout:' + c['layout'])
    x = lay(s, c['layout']).detach().requires_grad_()
    y = lay(t, c['layout']).detach().requires_grad_(
        c['teacher_grad'] or opt.get('teacher_detach') is not None)
    keep = x.detach().clone(), y.detach().clone()
    got = call(loss, x, y, s2, t2)
    assert torch.equal(x.detach(), keep[0]) and \
        torch.equal(y.detach(), keep[1]), 'the loss changed its inputs'
    assert got.dtype == dt, f'loss in {got.dtype} for {dt}'
    xr, yr = s.to(D).requires_grad_(), t.to(D)
    if s2 is not None:
        exp = ref([xr, s2.to(D)], [yr, t2.to(D)], opt)
    else:
        exp = ref(xr, yr, opt)
    exp = exp * c['w']
    assert got.shape == exp.shape, \
        f'{name} {c["opt"]} gives shape {tuple(got.shape)}, expected ' \
        f'{tuple(exp.shape)}'
    tol = 1e-6 if c['double'] else 2e-3
    # the relational loss takes distances of nearly equal rows in single
    # precision, where the difference of squares loses the digits
    if name == 'DistanceWiseRKD' and not c['double']:
        tol = 2e-2
    gain = opt.get('tau', 1)**2 * max(1, opt.get('alpha', 1) + opt.get(
        'beta', 0), opt.get('inter_loss_weight', 1) + opt.get(
            'intra_loss_weight', 0))
    big = max(float(exp.detach().abs().max()), c['w'] * gain * 1e-2)

    def close(a, b, what, f=1.0):
        a, b = a.detach().to(D), b.detach().to(D)
        err = float((a - b).abs().max()) if a.numel() else 0
        lim = f * tol * max(float(b.abs().max()), big * 1e-2, 1e-9) \
            + tol * 1e-3 * c['w'] * f * gain
        assert math.isfinite(err) and err <= lim, \
            f'{name} {c["opt"]}: {what} is {a.flatten()[:4].tolist()}, ' \
            f'expected {b.flatten()[:4].tolist()}'
    close(got, exp, 'the loss')
    # the weight scales the loss
    close(call(loss1, x, y, s2, t2) * c['w'], got, 'the weighted unit loss')
    # reading the same input twice gives the same loss
    assert torch.equal(call(loss, x, y, s2, t2), got), \
        f'{name} is not a function of its inputs'
    # gradient towards the student
    equal = bool(torch.equal(s, t)) if s.shape == t.shape else False
    smooth = name not in ('L1Loss', 'FTLoss')
    if not (equal and (not smooth or (name == 'L2Loss' and opt['dist']))):
        seed = torch.rand(got.shape, generator=g, dtype=D) + 0.5
        (got * seed.to(dt)).sum().backward()
        if exp.requires_grad:
            (exp * seed).sum().backward()
        want = xr.grad if xr.grad is not None else torch.zeros_like(xr)
        if not bool(torch.isfinite(want).all()):
            # a resized map that became constant has no deviation
            rec.tag('flat map')
            want = torch.zeros_like(want)
        elif smooth or c['double']:
            if not (name == 'DistanceWiseRKD' and not c['double']):
                if not (equal and name in ('DISTLoss', 'PKDLoss',
                                           'DistanceWiseRKD')):
                    close(x.grad, want, 'the gradient', 20)
        if opt.get('teacher_detach') is True:
            assert y.grad is None, f'{name} trains the teacher'
        if opt.get('teacher_detach') is False:
            assert y.grad is not None, f'{name} lost the teacher gradient'
        if not equal and float(want.abs().max()) > 0:
            rec.hit()
    # no distance between equal predictions
    if zero and not single:
        z = call(loss, x.detach(), x.detach())
        if isinstance(z, torch.Tensor):
            lim = 1e-3 * c['w'] * gain
            assert float(z.detach().abs().max()) <= lim, \
                f'{name}: {float(z.abs().max())} between equal inputs'
    # the order of the samples is irrelevant
    if s2 is None and exp.dim() == 0 and shape_t[0] == shape[0]:
        p = torch.randperm(shape[0], generator=g)
        ex = {k: (v[p] if torch.is_tensor(v) else v)
              for k, v in extra.items()}
        close(call(loss, x.detach()[p], y.detach()[p], extra=ex), got,
              'the loss of the reordered batch', 2)
    if not single and name not in ('CrossEntropyLoss', ) and \
            exp.dim() == 0 and zero:
        assert float(got.detach()) >= -1e-3 * c['w'] * gain, \
            f'{name} is negative: {float(got.detach())}'


# ------------------------------------------------------------------ FBKD
@st.composite
def fb_case(draw):
    return dict(n=draw(st.integers(1, 3)), c=draw(st.integers(1, 4)),
                h=draw(st.integers(1, 4)), w=draw(st.integers(1, 4)),
                ws=[draw(st.sampled_from([0., 1e-2, 0.5, 2.]))
                    for _ in range(4)],
                lw=draw(W), equal=draw(st.integers(0, 4)) == 0,
                seed=draw(st.integers(0, 10**6)))


def run_fb(c, rec):
    g = torch.Generator().manual_seed(c['seed'])
    n, ch, h, w = c['n'], c['c'], c['h'], c['w']
    loss = MODELS.build(dict(
        type='mmrazor.FBKDLoss', mask_l2_weight=c['ws'][0],
        channel_weight=c['ws'][1], spatial_weight=c['ws'][2],
        nonloacl_weight=c['ws'][3], loss_weight=c['lw']))

    def r(*s):
        return torch.randn(*s, generator=g)
    sp, chn = (n, 1, h, w), (n, ch, 1, 1)
    t = [r(*sp).abs(), r(*chn).abs(), r(n, 1, h, w), r(n, ch, h, w),
         r(n, ch, h, w)]
    s = [r(*sp).abs(), r(*chn).abs(), r(n, ch), r(n, 1, h, w),
         r(n, ch, h, w), r(n, ch, h, w)]
    if c['equal']:
        s = [t[0], t[1], t[4].mean([2, 3]), t[2], t[3], t[4]]
    s = [x.clone().requires_grad_() for x in s]
    got = loss(tuple(s), tuple(t))
    mask = ((t[0] + s[0]) / 2).detach()
    d = [(((t[4] - s[5])**2) * mask), (t[4].mean([2, 3]) - s[2])**2,
         (t[2] - s[3])**2, (t[3] - s[4])**2]
    exp = sum(x.double().sum().sqrt() * k for x, k in zip(d, c['ws']))
    exp = exp * c['lw']
    assert abs(float(got) - float(exp)) <= 1e-4 * max(1, abs(float(exp))), \
        f'{float(got)} != {float(exp)}'
    if c['equal']:
        return rec.tag('equal')
    if sum(bool(x) for x in c['ws']) >= 2:
        rec.hit()
    got.backward()
    assert s[0].grad is None and s[1].grad is None, 'the masks are trained'
    for i, k in ((2, 1), (3, 2), (4, 3), (5, 0)):
        moved = s[i].grad is not None and bool((s[i].grad != 0).any())
        assert moved == (c['ws'][k] != 0), f'input {i} gradient: {moved}'


# ------------------------------------------------------------------- CRD
@st.composite
def crd_case(draw):
    return dict(n=draw(st.integers(1, 4)), d=draw(st.integers(2, 5)),
                sample_n=draw(st.integers(5, 20)),
                neg=draw(st.integers(1, 6)), steps=draw(st.integers(1, 4)),
                temp=draw(st.sampled_from([0.2, 0.5, 1.0])),
                mom=draw(st.sampled_from([0.0, 0.3, 0.5, 0.9])),
                w=draw(W), seed=draw(st.integers(0, 10**6)),
                reload=draw(st.booleans()), given=draw(st.booleans()))


def run_crd(c, rec):
    torch.manual_seed(c['seed'])
    cfg = dict(type='mmrazor.CRDLoss', loss_weight=c['w'], temperature=c[
        'temp'], neg_num=c['neg'], sample_n=c['sample_n'], dim_out=c['d'],
        momentum=c['mom'])
    loss = MODELS.build(cfg)
    v1 = loss.contrast.memory_v1.clone().double()
    v2 = loss.contrast.memory_v2.clone().double()
    zs = zt = None
    N = c['sample_n']
    drawn = []
    table = loss.contrast.multinomial
    draw0 = table.draw

    def draw(k):
        out = draw0(k)
        assert out.numel() == k and int(out.min()) >= 0 and \
            int(out.max()) < N, 'negative drawn outside the data set'
        drawn.append(out)
        return out
    for step in range(c['steps']):
        if c['reload'] and step == 1:
            new = MODELS.build(cfg)
            new.load_state_dict(loss.state_dict())
            loss = new
            table = loss.contrast.multinomial
            draw0 = table.draw
        table.draw = draw
        idx = torch.randperm(N)[:c['n']]
        fs = F.normalize(torch.randn(c['n'], c['d'])).requires_grad_()
        ft = F.normalize(torch.randn(c['n'], c['d'])).requires_grad_()
        if c['given']:
            neg = torch.randint(N, (c['n'], c['neg']))
            full = torch.cat([idx[:, None], neg], 1)
        samples = []
        for i in range(c['n']):
            e = BaseDataElement()
            e.set_field(idx[i].clone(), 'sample_idx')
            if c['given']:
                e.set_field(full[i].clone(), 'contrast_sample_idxs')
            samples.append(e)
        drawn.clear()
        got = loss(fs, ft, samples)
        if not c['given']:
            # the first column is replaced by the positives
            full = drawn[0].view(c['n'], -1).clone()
            full[:, 0] = idx
        exp_s = ((v2[full] * fs.double()[:, None]).sum(2) / c['temp']).exp()
        exp_t = ((v1[full] * ft.double()[:, None]).sum(2) / c['temp']).exp()
        if zs is None:
            zs = float(exp_s.mean()) * N
            zt = float(exp_t.mean()) * N
        total = 0
        for x in (exp_s / zs, exp_t / zt):
            pn = c['neg'] / N
            pos = (x[:, 0] / (x[:, 0] + pn + 1e-7)).log().sum()
            ng = (pn / (x[:, 1:] + pn + 1e-7)).log().sum()
            total = total - (pos + ng) / c['n']
        exp = float(total) * c['w']
        assert got.numel() == 1
        assert abs(float(got) - exp) <= 2e-4 * max(1, abs(exp)), \
            f'step {step}: {float(got)} != {exp}'
        got.sum().backward()
        assert fs.grad is not None and ft.grad is not None
        with torch.no_grad():
            for v, f in ((v1, fs), (v2, ft)):
                new = v[idx] * c['mom'] + f.double() * (1 - c['mom'])
                v[idx] = new / new.norm(dim=1, keepdim=True)
        for a, b in ((loss.contrast.memory_v1, v1),
                     (loss.contrast.memory_v2, v2)):
            assert float((a.double() - b).abs().max()) < 1e-4, \
                f'memory differs after step {step}'
    rec.tag('given' if c['given'] else 'drawn')
    if c['steps'] > 1:
        rec.hit()


SUBS = [
    Sub('formula', case(), run, 3000),
    Sub('fbkd', fb_case(), run_fb, 100),
    Sub('crd', crd_case(), run_crd, 150),
]
