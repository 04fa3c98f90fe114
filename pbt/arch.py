"""Plain functional readings of the searchable operators and backbones.

Everything is computed from a state dict with torch.nn.functional only; every
parameter of the dict has to be read, with the shape the configuration asks
for.
"""
import torch
import torch.nn.functional as F

ACTS = dict(
    ReLU=F.relu, ReLU6=F.relu6, Sigmoid=torch.sigmoid,
    Swish=lambda x: x * torch.sigmoid(x),
    HSwish=lambda x: x * F.relu6(x + 3) / 6,
    HSigmoid=lambda x: (x / 6 + .5).clamp(0, 1),
    Tanh=torch.tanh, GELU=F.gelu)
ACTS[None] = lambda x: x


def divisible(v, d, ratio=0.9):
    n = max(d, int(v + d / 2) // d * d)
    return n + d if n < ratio * v else n


class Weights:
    """Layers over a state dict; ``used`` collects what has been read."""

    def __init__(self, sd, prefix='', train=False, used=None, slices=False):
        self.sd, self.prefix, self.train = sd, prefix, train
        self.used = set() if used is None else used
        self.slices = slices

    def at(self, name):
        return Weights(self.sd, f'{self.prefix}{name}.', self.train,
                       self.used, self.slices)

    def get(self, name, shape=None, crop=False):
        key = self.prefix + name
        assert key in self.sd, f'no parameter {key}'
        self.used.add(key)
        w = self.sd[key]
        if shape is None:
            return w
        if self.slices:
            idx = []
            for i, n in enumerate(shape):
                have = w.size(i)
                assert n <= have, f'{key}: {n} of {have}'
                # kernels are cut out of the centre, channels are a prefix
                lo = (have - n) // 2 if crop and i >= 2 else 0
                idx.append(slice(lo, lo + n))
            return w[tuple(idx)]
        assert tuple(w.shape) == tuple(shape), \
            f'{key}: shape {tuple(w.shape)}, expected {tuple(shape)}'
        return w

    def has(self, name):
        return self.prefix + name in self.sd

    def conv(self, name, x, cout, k, s=1, p=0, d=1, g=1, bias=None):
        k = (k, k) if isinstance(k, int) else k
        w = self.get(f'{name}.weight', (cout, x.size(1) // g, *k), crop=True)
        if bias is not None:
            assert self.has(f'{name}.bias') == bias, f'bias of {name}'
        b = self.get(f'{name}.bias', (cout, )) \
            if self.has(f'{name}.bias') else None
        return F.conv2d(x, w, b, s, p, d, g)

    def linear(self, name, x, out):
        w = self.get(f'{name}.weight', (out, x.size(-1)))
        b = self.get(f'{name}.bias', (out, )) \
            if self.has(f'{name}.bias') else None
        return F.linear(x, w, b)

    def bn(self, name, x, affine=True):
        n = self.at(name)
        c = x.size(1)
        mean, var = (n.get('running_mean', (c, )),
                     n.get('running_var', (c, )))
        n.get('num_batches_tracked')
        assert n.has('weight') == affine, f'affine of {self.prefix}{name}'
        if self.train:
            mean = x.mean([0, 2, 3])
            var = x.var([0, 2, 3], unbiased=False)
        y = (x - mean[:, None, None]) / (var[:, None, None] + 1e-5).sqrt()
        if affine:
            y = y * n.get('weight', (c, ))[:, None, None] + \
                n.get('bias', (c, ))[:, None, None]
        return y

    def ln(self, name, x):
        c = x.size(-1)
        n = self.at(name)
        mu = x.mean(-1, keepdim=True)
        var = ((x - mu)**2).mean(-1, keepdim=True)
        return (x - mu) / (var + 1e-5).sqrt() * n.get('weight', (c, )) + \
            n.get('bias', (c, ))

    def cm(self, name, x, cout, k, s=1, p=0, act='ReLU', d=1, g=1,
           norm='bn'):
        """conv + norm + activation"""
        n = self.at(name)
        x = n.conv('conv', x, cout, k, s, p, d, g, bias=False
                   if norm else None)
        if norm:
            x = n.bn(norm, x)
        return ACTS[act](x)

    def se(self, name, x, mid, acts=('ReLU', 'Sigmoid')):
        n = self.at(name)
        w = x.mean([2, 3], keepdim=True)
        c = x.size(1)
        w = ACTS[acts[0]](n.at('conv1').conv('conv', w, mid, 1))
        w = ACTS[acts[1]](n.at('conv2').conv('conv', w, c, 1))
        return x * w

    def done(self):
        rest = [k for k in self.sd if k not in self.used and
                not k.endswith('.mask')]
        assert not rest, f'parameters without a role: {rest[:5]}'


def shuffle(x):
    b, c, h, w = x.shape
    return x.reshape(b, 2, c // 2, h, w).transpose(1, 2).reshape(b, c, h, w)


# --------------------------------------------------------------- operators
def mb_block(W, x, c):
    cin, mid = x.size(1), x.size(1) * c['e']
    out = x
    if c['e'] != 1:
        out = W.cm('expand_conv', out, mid, 1, act=c['act'])
    out = W.cm('depthwise_conv', out, mid, c['k'], c['s'], c['k'] // 2,
               act=c['act'], g=mid)
    if c['se']:
        out = W.se('se', out, divisible(mid // c['se'], 8))
    out = W.cm('linear_conv', out, c['cout'], 1, act=None)
    if c.get('attn'):
        sc = x
        if c['s'] == 2:
            sc = F.avg_pool2d(sc, 2, padding=[n % 2 for n in x.shape[2:]])
        if W.has('shortcut.conv.weight'):
            y = W.at('shortcut').conv('conv', sc, c['cout'], 1, bias=False)
        return out, (y if cin != c['cout'] else sc)
    if c['s'] == 1 and cin == c['cout']:
        return out, x
    return out, None


def shuffle_block(W, x, c):
    b = c['cout'] // 2

    def branch2(z):
        z = W.cm('branch2.0', z, b, 1, act=c['act'])
        z = W.cm('branch2.1', z, b, c['k'], c['s'], c['k'] // 2, act=None,
                 g=b)
        return W.cm('branch2.2', z, b, 1, act=c['act'])

    if c['s'] == 1:
        left, right = x[:, :b], branch2(x[:, b:])
    else:
        left = W.cm('branch1.0', x, x.size(1), c['k'], 2, c['k'] // 2,
                    act=None, g=x.size(1))
        left = W.cm('branch1.1', left, b, 1, act=c['act'])
        right = branch2(x)
    return shuffle(torch.cat([left, right], 1))


def shuffle_xception(W, x, c):
    b = c['cout'] // 2

    def branch2(z):
        for i in range(3):
            z = W.cm(f'branch2.{i}.depthwise_conv', z, z.size(1), 3,
                     c['s'] if i == 0 else 1, 1, act=None, g=z.size(1))
            z = W.cm(f'branch2.{i}.pointwise_conv', z, b, 1, act=c['act'])
        return z

    if c['s'] == 1:
        left, right = x[:, :b], branch2(x[:, b:])
    else:
        left = W.cm('branch1.0', x, x.size(1), 3, 2, 1, act=None,
                    g=x.size(1))
        left = W.cm('branch1.1', left, b, 1, act=c['act'])
        right = branch2(x)
    return shuffle(torch.cat([left, right], 1))


def identity(W, x, c):
    if c['s'] != 1 or x.size(1) != c['cout']:
        return W.cm('downsample', x, c['cout'], 1, c['s'], act=c['act'])
    return x


def darts_pool(W, x, c):
    if c['pool'] == 'max':
        x = F.max_pool2d(x, 3, c['s'], 1)
    else:
        one = torch.ones_like(x)
        x = F.avg_pool2d(x, 3, c['s'], 1) / F.avg_pool2d(one, 3, c['s'], 1)
    return W.bn('bn', x, c['affine'])


def darts_dil(W, x, c):
    z = W.conv('conv1.1', F.relu(x), x.size(1), c['k'], c['s'],
               c['k'] // 2 * 2, 2, x.size(1), bias=False)
    z = W.conv('conv1.2', z, c['cout'], 1, bias=False)
    return W.bn('conv1.3', z, c['affine'])


def darts_sep(W, x, c):
    cin = x.size(1)
    z = W.conv('conv1.1', F.relu(x), cin, c['k'], c['s'], c['k'] // 2, 1,
               cin, bias=False)
    z = W.conv('conv1.2', z, cin, 1, bias=False)
    z = W.bn('conv1.3', z, c['affine'])
    z = W.conv('conv2.1', F.relu(z), c['cout'], c['k'], 1, c['k'] // 2, 1,
               cin, bias=False)
    z = W.conv('conv2.2', z, c['cout'], 1, bias=False)
    return W.bn('conv2.3', z, c['affine'])


def reduce2(W, x, cout, affine):
    """Factorized reduction: two strided 1x1 convs one pixel apart."""
    z = F.relu(x)
    z = torch.cat([
        W.conv('conv1', z, cout // 2, 1, 2, bias=False),
        W.conv('conv2', z[:, :, 1:, 1:], cout // 2, 1, 2, bias=False)
    ], 1)
    return W.bn('bn', z, affine)


def darts_skip(W, x, c):
    return x if c['s'] == 1 else reduce2(W, x, c['cout'], c['affine'])


def darts_zero(W, x, c):
    return torch.zeros_like(x[:, :, ::c['s'], ::c['s']])


def conv_bn_act(W, x, c):
    z = W.cm('convModule', x, c['cout'], c['k'], c['s'], c['p'],
             act=c['act'], d=c['d'])
    if c['se']:
        z = W.se('se', z, divisible(c['cout'] // c['se'], 8))
    if c['skip'] and c['s'] == 1 and x.size(1) == c['cout']:
        z = z + x
    return z


def ds_conv(W, x, c):
    cin = x.size(1)
    z = W.cm('conv_dw', x, cin, c['k'], c['s'], c['k'] // 2, act=c['act'],
             g=cin)
    if c['se']:
        z = W.se('se', z, divisible(cin // c['se'], 8))
    z = W.cm('conv_pw', z, c['cout'], c['pk'], 1, c['pk'] // 2,
             act=c['act'] if c['pw_act'] else None)
    if c['skip'] and c['s'] == 1 and cin == c['cout']:
        z = z + x
    return z


OPS = dict(ShuffleBlock=shuffle_block, ShuffleXception=shuffle_xception,
           Identity=identity, DartsPoolBN=darts_pool, DartsDilConv=darts_dil,
           DartsSepConv=darts_sep, DartsSkipConnect=darts_skip,
           DartsZero=darts_zero, ConvBnAct=conv_bn_act,
           DepthwiseSeparableConv=ds_conv)


def op_cfg(c):
    """Registry configuration of a described operator."""
    bn = dict(type='BN')
    act = dict(type=c['act']) if c.get('act') else None
    dn = dict(type='BN', affine=c.get('affine', True))
    dp = dict(use_drop_path=True) if c.get('dp') else {}
    t = c['op']
    if t == 'MBBlock':
        return dict(type=t, kernel_size=c['k'], expand_ratio=c['e'],
                    se_cfg=dict(ratio=c['se']) if c['se'] else None,
                    norm_cfg=bn, act_cfg=act, with_cp=bool(c.get('cp')),
                    drop_path_rate=c.get('drop', 0.),
                    with_attentive_shortcut=bool(c.get('attn')))
    if t == 'ShuffleBlock':
        return dict(type=t, kernel_size=c['k'], norm_cfg=bn, act_cfg=act,
                    with_cp=bool(c.get('cp')))
    if t == 'ShuffleXception':
        return dict(type=t, norm_cfg=bn, act_cfg=act,
                    with_cp=bool(c.get('cp')))
    if t == 'Identity':
        return dict(type=t, norm_cfg=bn, act_cfg=act)
    if t == 'DartsPoolBN':
        return dict(type=t, pool_type=c['pool'], norm_cfg=dn, **dp)
    if t in ('DartsDilConv', 'DartsSepConv'):
        return dict(type=t, kernel_size=c['k'], norm_cfg=dn, **dp)
    if t == 'DartsSkipConnect':
        return dict(type=t, norm_cfg=dn, **dp)
    if t == 'DartsZero':
        return dict(type=t)
    if t == 'ConvBnAct':
        return dict(type=t, kernel_size=c['k'], dilation=c['d'],
                    padding=c['p'], skip=c['skip'],
                    se_cfg=dict(ratio=c['se']) if c['se'] else None,
                    act_cfg=act)
    return dict(type=t, dw_kernel_size=c['k'], noskip=not c['skip'],
                pw_kernel_size=c['pk'], pw_act=c['pw_act'],
                se_cfg=dict(ratio=c['se']) if c['se'] else None, act_cfg=act)


def op_ref(W, x, c):
    if c['op'] == 'MBBlock':
        out, sc = mb_block(W, x, c)
        return out if sc is None else out + sc
    return OPS[c['op']](W, x, c)


# ------------------------------------------------------------- transformer
def attention(W, x, heads, max_rel, rel=True):
    """Attention with 2D relative positions over 64-wide heads."""
    B, N, e = x.shape
    d = 64 * heads
    q, k, v = (W.linear(n, x, d).reshape(B, N, heads, 64)
               for n in ('w_qs', 'w_ks', 'w_vs'))
    att = torch.einsum('bnhd,bmhd->bhnm', q, k)
    if rel:
        side = int((N - 1)**.5)
        i = torch.arange(N - 1)
        fv = torch.zeros(N, N).long()
        fh = torch.zeros(N, N).long()
        fv[1:, 1:] = (i[None] // side - i[:, None] // side).clamp(
            -max_rel, max_rel) + max_rel + 1
        fh[1:, 1:] = (i[None] % side - i[:, None] % side).clamp(
            -max_rel, max_rel) + max_rel + 1
        rows = 2 * max_rel + 2
        emb = []
        for n in ('rel_pos_embed_k', 'rel_pos_embed_v'):
            emb.append(W.get(f'{n}.embeddings_table_v', (rows, 64))[fv] +
                       W.get(f'{n}.embeddings_table_h', (rows, 64))[fh])
        att = att + torch.einsum('bnhd,nmd->bhnm', q, emb[0])
    att = (att * 64**-.5).softmax(-1)
    o = torch.einsum('bhnm,bmhd->bnhd', att, v)
    if rel:
        o = o + torch.einsum('bhnm,nmd->bnhd', att, emb[1])
    return W.linear('proj', o.reshape(B, N, d), e)
