"""C25: augmentation policies, contrastive samples and packing."""
import copy
import random
from unittest import mock

import numpy as np
import torch
from hypothesis import strategies as st
from mmcls.datasets import BaseDataset
from PIL import Image, ImageEnhance, ImageOps

from mmrazor.datasets import CRDDataset
from mmrazor.datasets.transforms import PackCRDClsInputs
from mmrazor.datasets.transforms.auto_augment import (AutoAugment,
                                                      AutoAugmentOp)
from mmrazor.datasets.transforms.auto_augmentv2 import AutoAugmentV2
from mmrazor.registry import TRANSFORMS
from pbt.core import Sub

PID = 'C25'
RULE = ('the operation is applied and changes the image; the dataset holds '
        'two classes; the packer sees more than one sample')
ASSUMPTIONS = [
    'uint8 images of three channels; Pillow itself is trusted',
    'Gaussian, uniform and choice draws of the random module are controlled',
    'every class keeps at least one negative sample after sub-sampling'
]

ints = st.integers

V1 = dict(
    AutoContrast='auto', Equalize='equalize', Invert='invert',
    Rotate='rotate', Posterize='poster', Posterize2='poster2',
    Solarize='solarize', SolarizeAdd='add', Color='Color',
    Contrast='Contrast', Brightness='Brightness', Sharpness='Sharpness',
    ShearX='shx', ShearY='shy', TranslateX='tx', TranslateY='ty',
    TranslateXRel='txr', TranslateYRel='tyr')
V2 = dict(
    AutoContrastV2='auto', EqualizeV2='equalize', InvertV2='invert',
    RotateV2='rotate', PosterizeV2='poster', SolarizeV2='solarize',
    SolarizeAddV2='add', Color='Color', ContrastV2='Contrast',
    BrightnessV2='Brightness', SharpnessV2='Sharpness', ShearX='shx',
    ShearY='shy', TranslateX='tx', TranslateY='ty', TranslateXRel='txr',
    TranslateYRel='tyr')
GEOMETRIC = {'rotate', 'shx', 'shy', 'tx', 'ty', 'txr', 'tyr'}
FILTERS = dict(nearest=Image.NEAREST, bilinear=Image.BILINEAR,
               bicubic=Image.BICUBIC)
GRAY = (128, 128, 128)


def reference(kind, img, level, neg, fill, filt, const):
    """The operation at a magnitude of ``level`` (0-10)."""
    im = Image.fromarray(img)
    x = level / 10
    s = -1 if neg else 1

    def affine(*m):
        return np.array(im.transform(im.size, Image.AFFINE, m, resample=filt,
                                     fillcolor=fill))

    if kind == 'auto':
        return np.array(ImageOps.autocontrast(im))
    if kind == 'equalize':
        return np.array(ImageOps.equalize(im))
    if kind == 'invert':
        return 255 - img
    if kind == 'solarize':
        return np.where(img < int(x * 256), img, 255 - img)
    if kind == 'add':
        return np.where(img < 128, np.minimum(img.astype(int) +
                                              int(x * 110), 255), img)
    if kind in ('poster', 'poster2'):
        bits = int(x * 4) + 4 if kind == 'poster' else 4 - int(x * 4)
        bits = max(bits, 1)
        return img if bits >= 8 else img & (256 - 2**(8 - bits))
    if kind == 'rotate':
        return np.array(im.rotate(s * x * 30, resample=filt, fillcolor=fill))
    if kind == 'shx':
        return affine(1, s * x * .3, 0, 0, 1, 0)
    if kind == 'shy':
        return affine(1, 0, 0, s * x * .3, 1, 0)
    if kind in ('tx', 'txr'):
        n = x * const if kind == 'tx' else x * .45 * img.shape[1]
        return affine(1, 0, s * n, 0, 1, 0)
    if kind in ('ty', 'tyr'):
        n = x * const if kind == 'ty' else x * .45 * img.shape[0]
        return affine(1, 0, 0, 0, 1, s * n)
    return np.array(getattr(ImageEnhance, kind)(im).enhance(x * 1.8 + .1))


class Draws:
    """Controlled randomness."""

    def __init__(self, z=0., u=0., pick=0):
        self.z, self.u, self.pick = z, u, pick

    def __enter__(self):
        self.patches = [
            mock.patch('random.gauss', lambda mu, s: mu + self.z * s),
            mock.patch('random.random', lambda: self.u),
            mock.patch('random.choice', lambda q: q[self.pick % len(q)])
        ]
        for p in self.patches:
            p.start()
        return self

    def __exit__(self, *a):
        for p in self.patches:
            p.stop()


def picture(h, w, seed):
    g = np.random.RandomState(seed)
    low = g.randint(0, 256, (max(1, h // 3), max(1, w // 3), 3))
    img = np.kron(low, np.ones((4, 4, 1)))[:h, :w]
    img = np.pad(img, [(0, h - img.shape[0]), (0, w - img.shape[1]), (0, 0)])
    return np.clip(img + g.randint(-20, 20, img.shape), 0,
                   255).astype(np.uint8)


@st.composite
def op_spec(draw, version):
    return dict(name=draw(st.sampled_from(sorted(V1 if version == 1 else
                                                 V2))),
                prob=draw(st.sampled_from([0., .3, .6, 1.])),
                mag=draw(ints(0, 10)), z=draw(st.sampled_from(
                    [0., 0., -1., 1.5, 3., -4.])), neg=draw(st.booleans()))


@st.composite
def params(draw):
    p = {}
    if draw(st.booleans()):
        p['img_mean'] = [draw(ints(0, 255)) for _ in range(3)]
    if draw(st.booleans()):
        p['interpolation'] = draw(st.sampled_from(
            sorted(FILTERS) + ['list']))
    if draw(st.booleans()):
        p['translate_const'] = draw(st.sampled_from([5, 20, 100]))
    return p


@st.composite
def op_case(draw):
    v = draw(ints(1, 2))
    return dict(v=v, op=draw(op_spec(v)), params=draw(params()),
                h=draw(ints(4, 24)), w=draw(ints(4, 24)),
                u=draw(st.sampled_from([0., .2, .31, .5, .59, .99])),
                fields=draw(st.sampled_from([None, ['img'], ['img', 'two'],
                                             ['two']])),
                seed=draw(ints(0, 9999)))


def real_params(p, named=False):
    p = dict(p)
    if 'img_mean' in p:
        p['img_mean'] = tuple(p['img_mean'])
    if 'interpolation' in p and not named:
        p['interpolation'] = FILTERS.get(p['interpolation'],
                                         [Image.NEAREST, Image.BICUBIC])
    return p


def allowed_filters(p):
    if 'interpolation' not in p:
        return set(FILTERS.values())
    if p['interpolation'] == 'list':
        return {Image.NEAREST, Image.BICUBIC}
    return {FILTERS[p['interpolation']]}


def build(v, op, p, named=False):
    p = real_params(p, named)
    with Draws(op['z'], .9 if op['neg'] else .1):
        if v == 1:
            return AutoAugmentOp(op['name'], op['prob'], op['mag'], p)
        return TRANSFORMS.build(dict(
            type=f'mmrazor.{op["name"]}', prob=op['prob'],
            magnitude=op['mag'], extra_params=p))


def expect(v, op, p, img, filt):
    level = min(10., max(0., op['mag'] + .5 * op['z']))
    return reference((V1 if v == 1 else V2)[op['name']], img, level,
                     op['neg'], tuple(p.get('img_mean', GRAY)), filt,
                     p.get('translate_const', 250))


def same(a, b):
    return a.shape == b.shape and a.dtype == np.uint8 and \
        bool((a == b.astype(np.uint8)).all())


def run_op(c, rec):
    """One augmentation: applied with its probability, at its magnitude, with
    the configured fill, interpolation and translation."""
    op, p = c['op'], c['params']
    kind = (V1 if c['v'] == 1 else V2)[op['name']]
    rec.tag(kind)
    named = p.get('interpolation') in FILTERS
    t = build(c['v'], op, p, named=named and c['seed'] % 2 == 0)
    imgs = dict(img=picture(c['h'], c['w'], c['seed']),
                two=picture(c['w'], c['h'], c['seed'] + 1))
    applied = op['prob'] >= c['u']
    seen = set()
    for pick in range(6):
        data = dict({k: v.copy() for k, v in imgs.items()}, other=[1, 2])
        if c['fields']:
            data['img_fields'] = list(c['fields'])
        with Draws(0., c['u'], pick):
            out = t(data)
        assert set(out) == {'img', 'two', 'other'} | (
            {'img_fields'} if c['fields'] else set())
        assert out['other'] == [1, 2]
        for k in imgs:
            if not applied or k not in (c['fields'] or ['img']):
                assert same(out[k], imgs[k]), f'{op["name"]}: {k} changed'
                continue
            if kind not in GEOMETRIC:
                assert same(out[k], expect(c['v'], op, p, imgs[k], None)), \
                    f'{op["name"]}: wrong result'
                continue
            ok = {f for f in allowed_filters(p)
                  if same(out[k], expect(c['v'], op, p, imgs[k], f))}
            assert ok, f'{op["name"]}: matches no allowed interpolation'
            seen |= ok
            rec.hit(not same(out[k], imgs[k]))
        if kind not in GEOMETRIC:
            rec.hit(applied)
    if applied and kind in GEOMETRIC:
        miss = allowed_filters(p) - seen
        assert not miss, f'{op["name"]}: interpolation {miss} is never used'


@st.composite
def policy_case(draw):
    v = draw(ints(1, 2))
    return dict(
        v=v, name=draw(st.sampled_from(['original', 'v0'])),
        ops=[[draw(op_spec(2)) for _ in range(draw(ints(1, 3)))]
             for _ in range(draw(ints(1, 4)))], params=draw(params()),
        pick=draw(ints(0, 30)), u=draw(st.sampled_from([0., .31, .5, .7])),
        z=draw(st.sampled_from([0., 1.])), neg=draw(st.booleans()),
        size=draw(ints(6, 20)), seed=draw(ints(0, 9999)))


def run_policy(c, rec):
    """A policy applies one of its sub-policies, op by op."""
    p = dict(c['params'])
    p['interpolation'] = 'nearest'
    if c['v'] == 1:
        table = copy.deepcopy(AutoAugment.auto_augment_policy[c['name']])
        ops = [[dict(name=n, prob=pr, mag=m, z=c['z'], neg=c['neg'])
                for n, pr, m in sub] for sub in table]
        assert len(ops) == 25 and all(len(s) == 2 for s in ops)
    else:
        ops = [[dict(o, z=c['z'], neg=c['neg']) for o in sub]
               for sub in c['ops']]
    with Draws(c['z'], .9 if c['neg'] else .1):
        if c['v'] == 1:
            t = AutoAugment(policies=c['name'], extra_params=real_params(p))
        else:
            cfg = [[dict(type=f'mmrazor.{o["name"]}', prob=o['prob'],
                         magnitude=o['mag'], extra_params=real_params(p))
                    for o in sub] for sub in ops]
            keep = copy.deepcopy(cfg)
            t = TRANSFORMS.build(dict(type='mmrazor.AutoAugmentV2',
                                      policies=cfg))
            assert isinstance(t, AutoAugmentV2) and cfg == keep
    img = picture(c['size'], c['size'] + 3, c['seed'])
    used = []
    results = {}
    for pick in {c['pick'] % len(ops), (c['pick'] + 1) % len(ops)}:
        with Draws(0., c['u'], pick):
            results[pick] = t(dict(img=img.copy()))['img']
    for pick, out in results.items():
        want = img
        for o in ops[pick]:
            if o['prob'] >= c['u']:
                want = expect(c['v'], o, p, want,
                              FILTERS['nearest']).astype(np.uint8)
                used.append(o['name'])
        assert same(out, want), \
            f'sub-policy {pick}: {[o["name"] for o in ops[pick]]}'
        rec.hit(len(used) > 1)
    # all sub-policies are drawn
    random.seed(c['seed'])
    hit = set()
    real = random.choice

    def spy(q):
        r = real(q)
        if len(q) == len(ops):
            hit.update(i for i, e in enumerate(q) if e is r)
        return r

    if len(ops) <= 4:
        with mock.patch('random.choice', spy):
            for _ in range(150):
                t(dict(img=img[:4, :4].copy()))
        assert hit == set(range(len(ops))), 'a sub-policy is never used'


# -------------------------------------------------------------------- CRD
class Labels(BaseDataset):

    def __init__(self, labels, bad=(), **kw):
        self.labels, self.bad = labels, set(bad)
        super().__init__(ann_file='', pipeline=[], **kw)
        self.pipeline = lambda d: None if d['idx'] in self.bad else d

    def load_data_list(self):
        return [dict(idx=i, gt_label=v) for i, v in enumerate(self.labels)]


@st.composite
def crd_case(draw):
    k = draw(ints(2, 4))
    labels = draw(st.lists(ints(0, k - 1), min_size=2, max_size=14))
    labels[:2] = [0, draw(ints(1, k - 1))]
    return dict(
        labels=draw(st.permutations(labels)), extra=draw(ints(0, 2)),
        give=draw(st.booleans()), neg=draw(ints(1, 8)),
        percent=draw(st.sampled_from([1., 1., .9, .5, .3, 2.])),
        mode=draw(st.sampled_from(['exact', 'random'])),
        lazy=draw(st.booleans()), test=draw(st.booleans()),
        bad=draw(st.booleans()), seed=draw(ints(0, 9999)))


def run_crd(c, rec):
    """Positives of the same class, negatives of the other classes, of the
    sub-sampled share, without repetition where possible."""
    labels = c['labels']
    k = max(labels) + 1
    if c['give']:
        k += c['extra']
    n = len(labels)
    by = {v: [i for i in range(n) if labels[i] == v] for v in set(labels)}
    neg = {v: [i for i in range(n) if labels[i] != v] for v in set(labels)}
    share = {v: int(len(neg[v]) * c['percent']) if 0 < c['percent'] < 1
             else len(neg[v]) for v in neg}
    if min(share.values()) < 1:
        rec.reject('no negatives left')
        return
    bad = [0] if c['bad'] and n > 2 and not c['test'] else []
    base = Labels(labels, bad, test_mode=c['test'])
    np.random.seed(c['seed'])
    d = CRDDataset(base, neg_num=c['neg'], percent=c['percent'],
                   lazy_init=c['lazy'], num_classes=k if c['give'] else None,
                   sample_mode=c['mode'])
    assert len(d) == n
    assert d.metainfo == base.metainfo
    rec.hit(len(by) > 1 and not c['test'])
    rec.tag(c['mode'])
    pos_seen = {i: set() for i in range(n)}
    neg_seen = {v: set() for v in by}
    for _ in range(1 if c['test'] else 60):
        for i in range(n):
            got = d[i]
            j = got['idx']
            assert j == i or (i in bad and j not in bad), \
                f'item {i} is sample {j}'
            assert got['gt_label'] == labels[j]
            if c['test']:
                assert 'contrast_sample_idxs' not in got
                continue
            idx = np.asarray(got['contrast_sample_idxs'])
            assert idx.shape == (1 + c['neg'], ), idx.shape
            p, q = int(idx[0]), idx[1:].tolist()
            v = labels[j]
            if c['mode'] == 'exact':
                assert p == j, f'positive of {j} is {p}'
            assert p in by[v], f'positive {p} of another class than {j}'
            pos_seen[j].add(p)
            assert all(x in neg[v] for x in q), \
                f'negatives {q} of the class of {j}'
            if share[v] >= c['neg']:
                assert len(set(q)) == len(q), f'repeated negatives {q}'
            neg_seen[v] |= set(q)
    if c['test']:
        return
    for v, s in neg_seen.items():
        if all(i in bad for i in by[v]):
            continue
        assert len(s) <= share[v], \
            f'class {v}: {len(s)} negatives in use, {share[v]} kept'
        if c['neg'] * 60 * len(by[v]) > 60 * share[v]**.5 * 2:
            assert len(s) == share[v], \
                f'class {v}: {len(s)} of {share[v]} negatives are used'
    if c['mode'] == 'random':
        for i in range(n):
            if i not in bad and len(by[labels[i]]) <= 3:
                assert pos_seen[i] == set(by[labels[i]]), \
                    f'positives of {i}: {pos_seen[i]}'
    for call in (lambda: d.get_subset([0]), lambda: d.get_subset_(1)):
        try:
            call()
        except NotImplementedError:
            continue
        raise AssertionError('a subset of the wrapper is ambiguous')


# ------------------------------------------------------------------- pack
@st.composite
def pack_case(draw):
    return dict(
        gray=draw(st.booleans()), label=draw(st.sampled_from(
            ['int', 'list', 'array', None])),
        idx=draw(st.sampled_from(['int', None])),
        con=draw(st.sampled_from(['array', 'tensor', None])),
        keys=draw(st.sampled_from([None, ['img_path', 'sample_idx'],
                                   ['flip']])),
        noimg=draw(st.sampled_from([False, False, False, True])),
        n=draw(ints(1, 3)), seed=draw(ints(0, 9999)))


def run_pack(c, rec):
    """Every sample of a stream is packed with image, label, indices and meta
    information."""
    t = PackCRDClsInputs(**({} if c['keys'] is None else
                            dict(meta_keys=tuple(c['keys']))))
    keys = c['keys'] or ['sample_idx', 'img_path', 'ori_shape', 'img_shape',
                         'scale_factor', 'flip', 'flip_direction']
    rec.hit(c['n'] > 1)
    g = np.random.RandomState(c['seed'])
    for i in range(c['n']):
        h, w = g.randint(1, 6, 2)
        img = g.randint(0, 256, (h, w) if c['gray'] else (h, w, 3)).astype(
            np.uint8)
        r = dict(img_path=f'{i}.png', flip=bool(i % 2), ori_shape=(h, w),
                 scale_factor=i + .5, unrelated=3)
        if not c['noimg']:
            r['img'] = img
        label = int(g.randint(5))
        if c['label']:
            r['gt_label'] = dict(int=label, list=[label],
                                 array=np.array([label]))[c['label']]
        if c['idx']:
            r['sample_idx'] = i + 7
        con = g.randint(0, 50, 4)
        if c['con']:
            r['contrast_sample_idxs'] = con if c['con'] == 'array' else \
                torch.as_tensor(con)
        keep = copy.deepcopy(r)
        out = t(r)
        assert set(out) == {'data_samples'} | (set() if c['noimg'] else
                                               {'inputs'})
        if not c['noimg']:
            want = torch.from_numpy(img if img.ndim == 3 else img[..., None])
            assert torch.equal(out['inputs'], want.permute(2, 0, 1)), 'image'
            assert (keep['img'] == r['img']).all()
        s = out['data_samples']
        assert ('gt_label' in s) == bool(c['label'])
        if c['label']:
            assert s.gt_label.label.tolist() == [label]
        if c['idx']:
            assert int(s.sample_idx) == i + 7
            assert isinstance(s.sample_idx, torch.Tensor)
            assert 'sample_idx' in s.keys(), 'sample_idx is not data'
        if c['con']:
            assert s.contrast_sample_idxs.dtype == torch.long
            assert s.contrast_sample_idxs.tolist() == con.tolist()
        meta = {k: keep[k] for k in keys if k in keep and k != 'sample_idx'}
        assert dict(s.metainfo_items()) == meta, \
            f'sample {i}: meta {dict(s.metainfo_items())}, want {meta}'


SUBS = [
    Sub('op', op_case(), run_op, 600),
    Sub('policy', policy_case(), run_policy, 150),
    Sub('crd', crd_case(), run_crd, 150),
    Sub('pack', pack_case(), run_pack, 150),
]
