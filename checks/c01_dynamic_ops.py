"""C01: a dynamic operator computes the selected slice; its static export is
the same function."""
import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

from mmrazor.models.architectures.dynamic_ops import (
    BigNasConv2d, DynamicBatchNorm1d, DynamicBatchNorm2d, DynamicBatchNorm3d,
    DynamicBatchNormXd, DynamicConv2d, DynamicConv2dAdaptivePadding,
    DynamicInputResizer, DynamicLayerNorm, DynamicLinear,
    DynamicMultiheadAttention, DynamicPatchEmbed, DynamicSequential,
    DynamicSyncBatchNorm, FuseConv2d, OFAConv2d, SwitchableBatchNorm2d)
from mmrazor.models.architectures.dynamic_ops.bricks.\
    dynamic_relative_position import DynamicRelativePosition2D
from mmrazor.models.mutables import (MutableChannelContainer,
                                     OneShotMutableChannel,
                                     OneShotMutableValue,
                                     SimpleMutableChannel,
                                     SquentialMutableChannel)
from mmrazor.models.mutables.base_mutable import BaseMutable
from pbt.core import Sub
from pbt.nnutil import bits, close, rand_tensor, randomize

PID = 'C01'
RULE = ('Random operator configurations (kind, channels, groups, kernel, '
        'stride, padding, dilation, bias, dtype of channel mutable) with a '
        'history of random channel masks / kernel / depth choices; the '
        'reference is the full-size operator applied to the input scattered '
        'into zeros, then gathered.  Non-trivial: at least one step of the '
        'history selects a strict subset of channels (or a smaller '
        'kernel/depth/shape).')
ASSUMPTIONS = [
    'CPU float32 kernels; comparison within 1e-4 relative to the output scale',
    'group convolutions only receive masks that keep the same number of '
    'channels in every group (the code asserts it)',
    'SyncBN is only exercised for export (its forward requires CUDA)']

ints = st.integers


def set_mask(m, mask):
    if isinstance(m, SquentialMutableChannel):
        m.current_choice = int(mask.sum())
    else:
        m.current_choice = mask


def make_mut(kind, n, prefix_only):
    """A channel mutable exposing ``current_mask``; returns (mutable, setter)
    where setter(mask) selects (a prefix of the same size when needed)."""
    if kind == 1:
        m = SquentialMutableChannel(n)
    elif kind == 2:
        m = OneShotMutableChannel(n, list(range(1, n + 1)))
    elif kind == 3 and n > 1:
        # container made of two independent pieces
        cut = n // 2
        c = MutableChannelContainer(n)
        a, b = SimpleMutableChannel(cut), SimpleMutableChannel(n - cut)
        c.register_mutable(a, 0, cut)
        c.register_mutable(b, cut, n)

        def setter(mask):
            a.current_choice = mask[:cut]
            b.current_choice = mask[cut:]
        return c, setter
    else:
        m = SimpleMutableChannel(n)

    def setter(mask):
        set_mask(m, mask)
    return m, setter


def eff(mutable):
    return mutable.current_mask.clone().bool()


def prefix(kind, mask):
    if kind in (1, 2):
        k = int(mask.sum())
        out = torch.zeros_like(mask)
        out[:k] = True
        return out
    return mask


def fix(*muts):
    for m in muts:
        if m is not None and not isinstance(m, MutableChannelContainer) \
                and not m.is_fixed:
            m.fix_chosen(m.current_choice)


def expect_raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    raise AssertionError(f'{what}: no {exc} raised')


def static_check(op, static, plain_type, want_dtype=None):
    assert isinstance(static, plain_type), type(static)
    for mod in static.modules():
        assert not hasattr(mod, 'mutable_attrs'), \
            f'{type(mod).__name__} in export still dynamic'
        assert not isinstance(mod, BaseMutable)


# ------------------------------------------------------------------- conv
conv_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6), cls=st.sampled_from(['dyn', 'bignas', 'ofa', 'fuse',
                                              'adaptive']),
    mode=st.sampled_from(['plain', 'plain', 'dw', 'group']),
    cin=ints(1, 9), cout=ints(1, 9), groups=ints(2, 4),
    k=st.sampled_from([1, 3, 5, 7]), stride=ints(1, 3), pad=ints(0, 3),
    dil=ints(1, 2), bias=st.booleans(), kinds=st.tuples(ints(0, 3),
                                                        ints(0, 3)),
    reg=st.sampled_from(['both', 'in', 'out', 'none']),
    sub_k=st.booleans(),
    hist=st.lists(st.tuples(ints(1, 511), ints(1, 511), ints(0, 3)),
                  min_size=1, max_size=4),
    hw=st.tuples(ints(1, 9), ints(1, 9)), batch=ints(1, 3)))


def run_conv(c, rec):
    """Convolution variants vs. the full convolution on a scattered input."""
    cls = dict(dyn=DynamicConv2d, bignas=BigNasConv2d, ofa=OFAConv2d,
               fuse=FuseConv2d, adaptive=DynamicConv2dAdaptivePadding
               )[c['cls']]
    cin, cout, groups, mode = c['cin'], c['cout'], 1, c['mode']
    ks = c['kinds']
    if mode == 'dw':
        groups = cout = cin
        if c['reg'] in ('in', 'out'):
            c = dict(c, reg='both')
    elif mode == 'group':
        groups = c['groups']
        per_in, per_out = 1 + cin % 3, 1 + cout % 3
        if per_in == 1 and per_out == 1:
            per_in = 2
        cin, cout = groups * per_in, groups * per_out
        if c['reg'] in ('in', 'out'):
            c = dict(c, reg='both')
        ks = (0, 0)
    use_k = c['cls'] in ('bignas', 'ofa') and c['sub_k'] and c['k'] > 1
    # kernel search is defined for `same` padding and no dilation
    dil = 1 if use_k else c['dil']
    pad = c['k'] // 2 if use_k else c['pad']
    hw = c['hw']
    need = dil * (c['k'] - 1) + 1 - (0 if c['cls'] == 'adaptive' else 2 * pad)
    if c['cls'] == 'adaptive':
        pad = 0
    h, w = max(hw[0], need, 1), max(hw[1], need, 1)
    op = cls(cin, cout, c['k'], stride=c['stride'], padding=pad, dilation=dil,
             groups=groups, bias=c['bias'])
    mi = mo = mk = None
    if c['reg'] in ('both', 'in'):
        mi, set_i = make_mut(ks[0], cin, False)
        op.register_mutable_attr('in_channels', mi)
        bad, _ = make_mut(0, cin + 1, False)
        expect_raises(ValueError,
                      lambda: op.register_mutable_attr('in_channels', bad),
                      'wrong sized in mutable accepted')
    if c['reg'] in ('both', 'out'):
        if mode == 'dw':
            mo, set_o = mi, None
        else:
            mo, set_o = make_mut(ks[1], cout, False)
        op.register_mutable_attr('out_channels', mo)
    kernels = [k for k in (1, 3, 5, 7) if k <= c['k']]
    if use_k:
        mk = OneShotMutableValue(value_list=kernels)
        op.register_mutable_attr('kernel_size', mk)
    randomize(op, c['seed'])
    op.eval()
    weight0 = op.weight.detach().clone()
    last = None
    first = {}
    for bi, bo, kk in c['hist'] + c['hist'][:1]:
        im = torch.ones(cin).bool()
        om = torch.ones(cout).bool()
        if mi is not None:
            if mode == 'group':
                # same count in every group, different positions allowed
                per = cin // groups
                cnt = 1 + bi % per
                g = torch.Generator().manual_seed(bi)
                rows = []
                for _ in range(groups):
                    r = torch.zeros(per).bool()
                    r[torch.randperm(per, generator=g)[:cnt]] = True
                    rows.append(r)
                mask = torch.cat(rows)
            else:
                mask = bits(cin, bi)
            set_i(mask)
            im = eff(mi)
            assert torch.equal(im, prefix(ks[0], mask)), 'in mask not kept'
        if mo is not None and set_o is not None:
            if mode == 'group':
                per = cout // groups
                cnt = 1 + bo % per
                g = torch.Generator().manual_seed(bo)
                rows = []
                for _ in range(groups):
                    r = torch.zeros(per).bool()
                    r[torch.randperm(per, generator=g)[:cnt]] = True
                    rows.append(r)
                mask = torch.cat(rows)
            else:
                mask = bits(cout, bo)
            set_o(mask)
            om = eff(mo)
            assert torch.equal(om, prefix(ks[1], mask)), 'out mask not kept'
        elif mo is not None:
            om = eff(mo)
        kcur = c['k']
        wfull = op.weight
        pcur = pad
        if mk is not None:
            kcur = kernels[kk % len(kernels)]
            mk.current_choice = kcur
            pcur = kcur // 2
            if c['cls'] == 'bignas':
                o = (c['k'] - kcur) // 2
                wfull = wfull[:, :, o:o + kcur, o:o + kcur]
            else:  # OFA: shrink one candidate at a time through a matrix
                cur = wfull
                for a, b in zip(kernels[::-1], kernels[::-1][1:]):
                    if a <= kcur:
                        break
                    cur = cur[:, :, (a - b) // 2:(a - b) // 2 + b,
                              (a - b) // 2:(a - b) // 2 + b]
                    mat = dict(op.named_parameters())[
                        f'trans_matrix_{a}to{b}']
                    cur = torch.einsum('oiq,pq->oip', cur.flatten(2),
                                       mat).view(*cur.shape)
                wfull = cur
        rec.hit(not im.all() or not om.all() or kcur != c['k'])
        x = rand_tensor((c['batch'], int(im.sum()), h, w),
                        c['seed'] + bi * 7 + bo)
        out = op(x)
        full_x = torch.zeros(c['batch'], cin, h, w)
        full_x[:, im] = x
        if c['cls'] == 'adaptive':
            sh = c['stride']
            ph = max((-(-h // sh) - 1) * sh + (c['k'] - 1) * dil + 1 - h, 0)
            pw = max((-(-w // sh) - 1) * sh + (c['k'] - 1) * dil + 1 - w, 0)
            full_x = F.pad(full_x, [pw // 2, pw - pw // 2, ph // 2,
                                    ph - ph // 2])
        ref = F.conv2d(full_x, wfull, op.bias, c['stride'], pcur, dil,
                       groups)[:, om]
        close(out, ref, what='dynamic conv vs masked full conv')
        key = (bi, bo, kk)
        if key in first and first[key].shape == out.shape:
            assert torch.equal(first[key], out.detach()), \
                'same choice twice gives different results'
        first[key] = out.detach().clone()
        last = (x, out)
        rec.tag(f"{c['cls']}/{mode}")
    assert torch.equal(weight0, op.weight), 'forward changed the weights'
    unfixed = [m for m in (mi, mo, mk) if m is not None and
               not isinstance(m, MutableChannelContainer)]
    if unfixed:
        expect_raises(RuntimeError, op.to_static_op,
                      'export with unfixed mutables')
    fix(mi, mo, mk)
    static = op.to_static_op()
    static_check(op, static, nn.Conv2d)
    x, out = last
    static.eval()
    assert static.in_channels == x.size(1)
    assert static.out_channels == out.size(1)
    close(static(x), out, what='static conv vs dynamic conv')
    close(op(x), out, what='dynamic conv after export')


# ------------------------------------------------------------------ linear
lin_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6), fin=ints(1, 10), fout=ints(1, 10),
    bias=st.booleans(), kinds=st.tuples(ints(0, 3), ints(0, 3)),
    reg=st.sampled_from(['both', 'in', 'out', 'none']),
    hist=st.lists(st.tuples(ints(1, 1023), ints(1, 1023)), min_size=1,
                  max_size=4), extra=st.lists(ints(1, 3), max_size=2)))


def run_linear(c, rec):
    """Linear vs. full linear on scattered input."""
    op = DynamicLinear(c['fin'], c['fout'], bias=c['bias'])
    mi = mo = None
    if c['reg'] in ('both', 'in'):
        mi, set_i = make_mut(c['kinds'][0], c['fin'], False)
        op.register_mutable_attr('in_features', mi)
    if c['reg'] in ('both', 'out'):
        mo, set_o = make_mut(c['kinds'][1], c['fout'], False)
        op.register_mutable_attr('out_channels', mo)
    bad, _ = make_mut(0, c['fout'] + 1, False)
    if mo is None:
        expect_raises(ValueError,
                      lambda: op.register_mutable_attr('out_features', bad),
                      'wrong sized out mutable accepted')
    randomize(op, c['seed'])
    for bi, bo in c['hist']:
        im, om = torch.ones(c['fin']).bool(), torch.ones(c['fout']).bool()
        if mi is not None:
            set_i(bits(c['fin'], bi))
            im = eff(mi)
        if mo is not None:
            set_o(bits(c['fout'], bo))
            om = eff(mo)
        rec.hit(not im.all() or not om.all())
        x = rand_tensor((*c['extra'], int(im.sum())), c['seed'] + bi)
        out = op(x)
        fx = torch.zeros(*c['extra'], c['fin'])
        fx[..., im] = x
        ref = (fx.unsqueeze(-2) * op.weight).sum(-1)
        if op.bias is not None:
            ref = ref + op.bias
        close(out, ref[..., om], what='dynamic linear')
    fix(mi, mo)
    s = op.to_static_op()
    static_check(op, s, nn.Linear)
    assert (s.in_features, s.out_features) == (int(im.sum()), int(om.sum()))
    close(s(x), out, what='static linear')


# -------------------------------------------------------------------- norms
norm_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6),
    cls=st.sampled_from(['1d', '2d', '3d', 'xd', 'sync', 'switch', 'ln']),
    n=ints(1, 9), kind=ints(0, 3), reg=st.booleans(),
    affine=st.booleans(), track=st.booleans(), eps=st.sampled_from(
        [1e-5, 1e-3, 0.1]), momentum=st.sampled_from([None, 0.1, 0.5, 1.0]),
    hist=st.lists(st.tuples(ints(1, 511), st.booleans()), min_size=1,
                  max_size=5), batch=ints(2, 4), sp=ints(1, 4)))


def run_norm(c, rec):
    """Normalisation: per-channel maths, statistics of inactive channels
    untouched, export equal."""
    n, name = c['n'], c['cls']
    if name == 'ln':
        op = DynamicLayerNorm(n, eps=c['eps'])
        m, setm = make_mut(c['kind'], n, False)
        op.register_mutable_attr('num_features', m)
        randomize(op, c['seed'])
        for b, _ in c['hist']:
            setm(bits(n, b))
            mask = eff(m)
            rec.hit(not mask.all())
            x = rand_tensor((c['batch'], c['sp'], int(mask.sum())),
                            c['seed'] + b)
            out = op(x)
            mu = x.mean(-1, keepdim=True)
            var = ((x - mu)**2).mean(-1, keepdim=True)
            ref = (x - mu) / (var + c['eps']).sqrt() * op.weight[mask] \
                + op.bias[mask]
            close(out, ref, 1e-3, 1e-3, 'dynamic layer norm')
        fix(m)
        s = op.to_static_op()
        static_check(op, s, nn.LayerNorm)
        close(s(x), out, what='static layer norm')
        return
    cls = {'1d': DynamicBatchNorm1d, '2d': DynamicBatchNorm2d,
           '3d': DynamicBatchNorm3d, 'xd': DynamicBatchNormXd,
           'sync': DynamicSyncBatchNorm, 'switch': SwitchableBatchNorm2d
           }[name]
    if not c['affine'] and not c['track']:
        op = cls(n, affine=False, track_running_stats=False)
        expect_raises(RuntimeError,
                      lambda: op.register_mutable_attr(
                          'num_features', make_mut(0, n, False)[0]),
                      'no-op norm accepted a mutable')
        return
    op = cls(n, eps=c['eps'], momentum=c['momentum'], affine=c['affine'],
             track_running_stats=c['track'])
    m = None
    if c['reg']:
        m, setm = make_mut(c['kind'], n, False)
        op.register_mutable_attr('in_channels', m)
        op.register_mutable_attr('out_channels', m)
        assert op.get_mutable_attr('in_channels') is m
        assert op.get_mutable_attr('out_channels') is m
    randomize(op, c['seed'])
    if name == 'switch':
        op.init_candidates([k for k in range(1, n)])
        randomize(op, c['seed'] + 1)
        bank = {k: nn.BatchNorm2d(k, c['eps'], c['momentum'], c['affine'],
                                  c['track']) for k in range(1, n)}
        bank[n] = nn.BatchNorm2d(n, c['eps'], c['momentum'], c['affine'],
                                 c['track'])
        for k in range(1, n):
            bank[k].load_state_dict(op.candidate_bn[str(k)].state_dict())
        bank[n].load_state_dict({k: v for k, v in op.state_dict().items()
                                 if 'candidate_bn' not in k
                                 and 'mutable_attrs' not in k})
    dims = {'1d': 1, '2d': 2, '3d': 3, 'xd': 2, 'sync': 2, 'switch': 2}[name]
    ref_rm = None if not c['track'] else op.running_mean.clone().double()
    ref_rv = None if not c['track'] else op.running_var.clone().double()
    steps = 0
    for b, train in c['hist'] + [(c['hist'][-1][0], False)]:
        mask = torch.ones(n).bool()
        if m is not None:
            setm(bits(n, b))
            mask = eff(m)
        k = int(mask.sum())
        rec.hit(not mask.all())
        rec.tag(name + ('/train' if train else '/eval'))
        shape = (c['batch'], k) + (c['sp'] + 1, ) * dims
        x = rand_tensor(shape, c['seed'] + b) * 2 + 0.3
        op.train(train)
        if name == 'sync':
            continue
        out = op(x)
        if name == 'switch':
            bank[k].train(train)
            close(out, bank[k](x), what='switchable bn vs its private bn')
            continue
        red = [i for i in range(x.dim()) if i != 1]
        v = [1, k] + [1] * dims
        xd = x.double()
        if train or not c['track']:
            mu = xd.mean(red)
            var = xd.var(red, unbiased=False)
        else:
            mu, var = ref_rm[mask], ref_rv[mask]
        ref = (xd - mu.view(v)) / (var.view(v) + c['eps']).sqrt()
        if c['affine']:
            ref = ref * op.weight[mask].double().view(v) \
                + op.bias[mask].double().view(v)
        close(out, ref, 1e-3, 1e-3, 'dynamic bn')
        if train and c['track']:
            steps += 1
            mom = c['momentum'] if c['momentum'] is not None else 1.0 / steps
            cnt = xd.numel() / k
            uvar = var * cnt / (cnt - 1)
            ref_rm[mask] = (1 - mom) * ref_rm[mask] + mom * mu
            ref_rv[mask] = (1 - mom) * ref_rv[mask] + mom * uvar
            close(op.running_mean, ref_rm, 1e-3, 1e-3, 'running mean')
            close(op.running_var, ref_rv, 1e-3, 1e-3, 'running var')
    if name == 'switch':
        for j in range(1, n):
            for kk, vv in bank[j].state_dict().items():
                close(op.candidate_bn[str(j)].state_dict()[kk].float(),
                      vv.float(), what=f'private bn {j} {kk}')
    fix(m)
    op.eval()
    s = op.to_static_op()
    s.eval()
    static_check(op, s, nn.modules.batchnorm._BatchNorm)
    assert s.num_features == k
    if name == 'sync':
        s2 = nn.BatchNorm2d(k, s.eps, s.momentum, s.affine,
                            s.track_running_stats)
        s2.load_state_dict(s.state_dict())
        s2.eval()
        ref = F.batch_norm(
            x, None if ref_rm is None else op.running_mean[mask],
            None if ref_rv is None else op.running_var[mask],
            op.weight[mask] if c['affine'] else None,
            op.bias[mask] if c['affine'] else None, not c['track'],
            0.0, c['eps'])
        close(s2(x), ref, what='sync bn export')
        return
    close(s(x), out, what='static bn')


# ------------------------------------------------ sequential / resizer / vit
seq_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6), n=ints(1, 6), dyn=st.lists(st.booleans(),
                                                    min_size=6, max_size=6),
    depths=st.lists(ints(1, 6), min_size=1, max_size=6), reg=st.booleans()))


def run_seq(c, rec):
    """Depth-searchable sequence applies exactly the first d blocks."""
    n = c['n']
    blocks = []
    muts = []
    for i in range(n):
        if c['dyn'][i]:
            b = DynamicLinear(3, 3)
            m = OneShotMutableChannel(3, [3])
            b.register_mutable_attr('in_features', m)
            muts.append(m)
        else:
            b = nn.Linear(3, 3)
        blocks.append(b)
    seq = DynamicSequential(*blocks)
    depth = OneShotMutableValue(value_list=list(range(1, n + 1)))
    seq.register_mutable_attr('depth', depth)
    randomize(seq, c['seed'])
    too_deep = OneShotMutableValue(value_list=[n + 2, n + 3])
    expect_raises(ValueError,
                  lambda: DynamicSequential(*[nn.Linear(1, 1)] * 1
                                            ).register_mutable_attr(
                      'depth', too_deep), 'depth larger than length')
    assert seq.pure_module_nums == n
    x = rand_tensor((2, 3), c['seed'])
    for d in c['depths']:
        d = 1 + d % n
        depth.current_choice = d
        rec.hit(d < n)
        out = seq(x)
        ref = x
        for b in blocks[:d]:
            ref = F.linear(ref, b.weight, b.bias)
        close(out, ref, what='depth slice')
    expect_raises(RuntimeError, seq.to_static_op, 'unfixed depth exported')
    fix(depth, *muts)
    s = seq.to_static_op()
    assert type(s).__name__ == 'Sequential' and not hasattr(
        s, 'mutable_attrs')
    assert len(s) == d
    close(s(x), out, what='static sequence')


resize_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6),
    shapes=st.lists(st.tuples(ints(1, 8), ints(1, 8)), min_size=1,
                    max_size=4, unique=True),
    pick=st.lists(ints(0, 9), min_size=1, max_size=4),
    mode=st.sampled_from(['bicubic', 'bilinear']), align=st.booleans(),
    h=ints(1, 8), w=ints(1, 8)))


def run_resize(c, rec):
    """Input resizer output has the selected shape and the selected
    interpolation; the export does the same."""
    op = DynamicInputResizer(interpolation_type=c['mode'],
                             align_corners=c['align'])
    shapes = [tuple(s) for s in c['shapes']]
    m = OneShotMutableValue(value_list=shapes)
    op.register_mutable_attr('shape', m)
    x = rand_tensor((2, 3, c['h'], c['w']), c['seed'])
    for p in c['pick']:
        cur = shapes[p % len(shapes)]
        m.current_choice = cur
        rec.hit(cur != (c['h'], c['w']))
        out = op(x)
        ref = F.interpolate(x, size=cur, mode=c['mode'],
                            align_corners=c['align'])
        close(out, ref, what='resize')
    fix(m)
    s = op.to_static_op()
    static_check(op, s, nn.Module)
    close(s(x), out, what='static resize')


mha_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6), heads=ints(1, 3), embed=ints(2, 8),
    rel=st.booleans(), max_rel=ints(1, 16), qkv_bias=st.booleans(),
    proj_bias=st.booleans(), qk_scale=st.sampled_from([None, 0.05, 0.3]),
    hist=st.lists(st.tuples(ints(0, 9), ints(0, 9)), min_size=1, max_size=3),
    side=ints(1, 5), batch=ints(1, 2)))


def mha_reference(op, x, e, h):
    """Attention written from the definition (head dim 64)."""
    d = 64 * h
    B, N, _ = x.shape

    def proj(lin, out_f, in_f, y):
        r = y @ lin.weight[:out_f, :in_f].t()
        return r if lin.bias is None else r + lin.bias[:out_f]
    q, k, v = (proj(w, d, e, x).view(B, N, h, 64)
               for w in (op.w_qs, op.w_ks, op.w_vs))
    attn = torch.einsum('bnhd,bmhd->bhnm', q, k)
    if op.relative_position:
        side = int((N - 1)**0.5)
        R = op.max_relative_position
        idx = torch.arange(N - 1)
        dv = idx[None] // side - idx[:, None] // side
        dh = idx[None] % side - idx[:, None] % side
        fv = torch.zeros(N, N).long()
        fh = torch.zeros(N, N).long()
        fv[1:, 1:] = dv.clamp(-R, R) + R + 1
        fh[1:, 1:] = dh.clamp(-R, R) + R + 1
        pk = op.rel_pos_embed_k.embeddings_table_v[fv] + \
            op.rel_pos_embed_k.embeddings_table_h[fh]
        pv = op.rel_pos_embed_v.embeddings_table_v[fv] + \
            op.rel_pos_embed_v.embeddings_table_h[fh]
        attn = attn + torch.einsum('bnhd,nmd->bhnm', q, pk)
    attn = (attn * op.scale).softmax(-1)
    o = torch.einsum('bhnm,bmhd->bnhd', attn, v)
    if op.relative_position:
        o = o + torch.einsum('bhnm,nmd->bnhd', attn, pv)
    return proj(op.proj, e, d, o.reshape(B, N, d))


def run_mha(c, rec):
    """Searchable attention: slices of embed dims and heads, and export."""
    from mmrazor.models.mutables import OneShotMutableChannelUnit
    E, H = c['embed'] * 2, c['heads']
    op = DynamicMultiheadAttention(
        embed_dims=E, num_heads=H, relative_position=c['rel'],
        max_relative_position=c['max_rel'], qkv_bias=c['qkv_bias'],
        proj_bias=c['proj_bias'], qk_scale=c['qk_scale'])
    mh = OneShotMutableValue(value_list=list(range(1, H + 1)),
                             default_value=H)
    me = OneShotMutableChannel(E, list(range(1, E + 1)))
    base = OneShotMutableChannel(64, [64])
    mq = mh * base
    OneShotMutableChannelUnit._register_channel_container(
        op, MutableChannelContainer)
    op.register_mutable_attr('num_heads', mh)
    reg = MutableChannelContainer.register_mutable_channel_to_module
    reg(op, me, False)
    reg(op, mq, True, end=64 * H)
    if c['rel']:
        reg(op.rel_pos_embed_k, base, False)
        reg(op.rel_pos_embed_v, base, False)
    randomize(op, c['seed'])
    for p in op.parameters():
        p.data.mul_(0.3)
    op.eval()
    N = c['side']**2 + 1
    for a, b in c['hist']:
        h, e = 1 + a % H, 1 + b % E
        mh.current_choice = h
        me.current_choice = e
        rec.hit(h < H or e < E)
        x = rand_tensor((c['batch'], N, e), c['seed'] + a + 17 * b)
        out = op(x)
        close(out, mha_reference(op, x, e, h), 1e-3, 1e-3, 'attention slice')
    fix(mh, me, base)
    s = op.to_static_op()
    static_check(op, s, nn.Module)
    s.eval()
    close(s(x), out, 1e-3, 1e-3, 'static attention')


patch_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6), embed=ints(1, 8), mask=ints(1, 255),
    kind=ints(0, 3), g=ints(1, 2), batch=ints(1, 2)))


def run_patch(c, rec):
    """Patch embedding with searchable embedding dims and its export."""
    img = 16 * c['g']
    op = DynamicPatchEmbed(img_size=img, in_channels=3,
                           embed_dims=c['embed'], norm_cfg=None)
    m, setm = make_mut(c['kind'], c['embed'], False)
    op.register_mutable_attr('embed_dims', m)
    randomize(op, c['seed'])
    setm(bits(c['embed'], c['mask']))
    mask = eff(m)
    rec.hit(not mask.all())
    x = rand_tensor((c['batch'], 3, img, img), c['seed'])
    out = op(x)
    ref = F.conv2d(x, op.projection.weight, op.projection.bias, 16)
    ref = ref.flatten(2).transpose(1, 2)[..., mask]
    close(out, ref, 1e-3, 1e-3, 'patch embed')
    fix(m)
    s = op.to_static_op()
    static_check(op, s, nn.Module)
    r = s(x)
    close(r[0] if isinstance(r, tuple) else r, out, 1e-3, 1e-3,
          'static patch embed')


# ------------------------------------------------------------------ fresh
FRESH = ('conv', 'adaptive', 'bignas', 'ofa', 'fuse', 'linear', 'bn1', 'bn2',
         'bn3', 'switch', 'ln', 'seq', 'resizer', 'mha', 'relpos', 'patch')

fresh_case = st.fixed_dictionaries(dict(
    seed=ints(0, 10**6), op=st.sampled_from(FRESH), a=ints(1, 6),
    b=ints(1, 6), k=st.sampled_from([1, 3, 5]), s=ints(1, 2), d=ints(1, 2),
    pad=ints(0, 2), g=st.booleans(), bias=st.booleans(),
    affine=st.booleans(), track=st.booleans(),
    mom=st.sampled_from([0.1, 0.3, None]), eps=st.sampled_from([1e-5, 1e-2]),
    drop=st.tuples(*[st.sampled_from([0., 0., 0.5])] * 3),
    interp=st.sampled_from(['nearest', 'bilinear', 'bicubic', 'area']),
    stride=st.sampled_from([0, 0, 1, 3]),
    side=ints(1, 3), train=st.booleans()))


def fresh_pair(c):
    """(static op, dynamic class, input)"""
    op, a, b, k = c['op'], c['a'], c['b'], c['k']
    img = rand_tensor((2, a, 11, 10), c['seed'])
    if op in ('conv', 'adaptive', 'bignas', 'ofa', 'fuse'):
        g = a if c['g'] else 1
        cout = a * b if c['g'] else b
        kw = dict(stride=c['s'], padding=min(c['pad'], k // 2),
                  dilation=c['d'], groups=g, bias=c['bias'])
        if op == 'adaptive':
            from mmcv.cnn.bricks import Conv2dAdaptivePadding
            return (Conv2dAdaptivePadding(a, cout, k, **kw),
                    DynamicConv2dAdaptivePadding, img)
        if op in ('bignas', 'ofa'):  # these pad by half the kernel
            kw.update(padding=k // 2, dilation=1)
        return nn.Conv2d(a, cout, k, **kw), dict(
            conv=DynamicConv2d, bignas=BigNasConv2d, ofa=OFAConv2d,
            fuse=FuseConv2d)[op], img
    if op == 'linear':
        return (nn.Linear(a, b, bias=c['bias']), DynamicLinear,
                rand_tensor((3, a), c['seed']))
    if op in ('bn1', 'bn2', 'bn3', 'switch'):
        kw = dict(eps=c['eps'], momentum=c['mom'], affine=c['affine'],
                  track_running_stats=c['track'])
        dim = dict(bn1=1, bn2=2, bn3=3, switch=2)[op]
        cls = dict(bn1=DynamicBatchNorm1d, bn2=DynamicBatchNorm2d,
                   bn3=DynamicBatchNorm3d, switch=SwitchableBatchNorm2d)[op]
        shape = (3, a) + (4,) * (dim if dim > 1 else 0)
        return (getattr(nn, f'BatchNorm{dim}d')(a, **kw), cls,
                rand_tensor(shape, c['seed']))
    if op == 'ln':
        return (nn.LayerNorm(a, eps=c['eps'],
                             elementwise_affine=c['affine']),
                DynamicLayerNorm, rand_tensor((2, 3, a), c['seed']))
    if op == 'seq':
        from mmengine.model import Sequential
        return (Sequential(*[nn.Linear(a, a) for _ in range(b)]),
                DynamicSequential, rand_tensor((3, a), c['seed']))
    if op == 'resizer':
        from mmrazor.models.architectures.ops import InputResizer
        lin = c['interp'] in ('bilinear', 'bicubic')
        return (InputResizer(c['interp'], lin and c['bias'],
                             [1.0, 2.0][c['s'] - 1]),
                DynamicInputResizer, img)
    if op == 'patch':
        from mmcls.models.utils import PatchEmbed
        p = c['k'] + 1
        pad = c['pad'] and p  # wide enough for any dilation
        return (PatchEmbed((p * c['side'], p * b), a, 6,
                           dict(type='LN') if c['affine'] else None,
                           dict(kernel_size=p, stride=c['stride'] or p,
                             padding=pad, dilation=c['d'] if pad else 1,
                             bias=c['bias'])),
                DynamicPatchEmbed,
                rand_tensor((2, a, p * c['side'], p * b), c['seed']))
    from mmrazor.models.architectures.ops import (MultiheadAttention,
                                                  RelativePosition2D)
    N = c['side']**2 + 1
    if op == 'relpos':
        return RelativePosition2D(a, b), DynamicRelativePosition2D, N
    return (MultiheadAttention(
        a, min(b, 3), attn_drop_rate=c['drop'][0],
        proj_drop_rate=c['drop'][1], out_drop_rate=c['drop'][2],
        relative_position=c['affine'], max_relative_position=b,
        qkv_bias=c['bias'], qk_scale=[None, 0.3][c['s'] - 1],
        proj_bias=c['track']),
        DynamicMultiheadAttention, rand_tensor((2, N, a), c['seed']))


def run_fresh(c, rec):
    """Without any mutable a dynamic op made from a static one is that op:
    same settings, same function (also in training), and exports to it."""
    import copy
    static, cls, x = fresh_pair(c)
    randomize(static, c['seed'])
    if getattr(static, 'num_batches_tracked', None) is not None:
        static.num_batches_tracked.fill_(c['seed'] % 7)
    rec.tag(c['op'])
    rec.hit(True)
    dyn = cls.convert_from(static)
    want = static.state_dict()
    have = dyn.state_dict()
    assert {k: v.shape for k, v in want.items()} == \
        {k: v.shape for k, v in have.items()}, \
        f'conversion of {c["op"]} has other parameters: ' \
        f'{sorted(set(want) ^ set(have))}'
    dyn.load_state_dict(want)

    def run(m, train):
        m.train(train)
        torch.manual_seed(c['seed'])
        return m(x, x) if c['op'] == 'relpos' else m(x)

    twins = [('dynamic', dyn)]
    twins.append(('export', copy.deepcopy(dyn).to_static_op()))
    static_check(dyn, twins[1][1], nn.Module)
    for train in (False, c['train']):
        ref = run(static, train)
        for what, m in twins:
            close(run(m, train), ref, 1e-4, 1e-4,
                  f'{what} of an untouched {c["op"]} (train={train})')
    for what, m in twins:
        got = m.state_dict()
        assert got.keys() == want.keys(), (what, sorted(
            set(got) ^ set(want)))
        for k, v in static.state_dict().items():
            close(got[k].float(), v.float(), what=f'{what}: {k}')


SUBS = [
    Sub("conv", conv_case, run_conv, 6000),
    Sub('linear', lin_case, run_linear, 800),
    Sub('norm', norm_case, run_norm, 1600),
    Sub('sequential', seq_case, run_seq, 400),
    Sub('resizer', resize_case, run_resize, 400),
    Sub('attention', mha_case, run_mha, 400),
    Sub('patch', patch_case, run_patch, 240),
    Sub('fresh', fresh_case, run_fresh, 900),
]
