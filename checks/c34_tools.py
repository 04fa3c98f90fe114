"""C34: the command line tools hand over the parameters and structures they
name."""
import contextlib
import copy
import glob
import hashlib
import io
import json
import os
import pprint
import random
import runpy
import shutil
import sys
import tempfile
import warnings

import torch
import torch.nn as nn
from hypothesis import strategies as st
from mmengine import Config, fileio
from mmengine.model import BaseModel

import mmrazor
from mmrazor.models.algorithms import SingleTeacherDistill
from mmrazor.models.mutators import ChannelMutator
from mmrazor.models.task_modules import ResourceEstimator
from mmrazor.registry import DATASETS, METRICS, MODELS
from mmrazor.structures import (convert_fix_subnet, export_fix_subnet,
                                load_fix_subnet)
from checks import c30_quantizers as q
from checks import c31_qloops as ql
from pbt.cnn import net_spec
from pbt.core import Sub
from pbt.fork import forked
from pbt.nas import Super, super_spec
from pbt.nnutil import close, rand_tensor, randomize
from pbt.prune import PARSE, PBTPruneNet, net_cfg

warnings.filterwarnings('ignore')

PID = 'C34'
RULE = ('some parameter has to be renamed or left out (checkpoints), some '
        'unit keeps fewer channels than it has (pruning), some choice is '
        'not the one of a fresh supernet (subnets)')
ASSUMPTIONS = [
    'checkpoints hold the entries mmengine writes; the legacy converters '
    'see the names of the released checkpoints',
    'the statistics behind the scales of weights are not judged: torch drops '
    'them from checkpoints without versions',
    'the configuration names its default scope; one process on the CPU'
]
ints = st.integers
TOOLS = os.path.join(os.path.dirname(os.path.dirname(mmrazor.__file__)),
                     'tools')


def tool(name, *args):
    """Run a script as ``python tools/<name> args``; its standard output."""
    old, out = sys.argv, io.StringIO()
    sys.argv = [name, *map(str, args)]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(TOOLS, name), run_name='__main__')
    finally:
        sys.argv = old
    return out.getvalue()


def same(a, b, what):
    assert list(a) == list(b), f'{what}: missing {set(b) - set(a)}, ' \
        f'additional {set(a) - set(b)}'
    for k in b:
        assert torch.equal(a[k], b[k]), f'{what}: other values of {k}'


# ------------------------------------------------------------- checkpoints
WORDS = ['backbone', 'architecture', 'model', 'model_ema', 'distiller',
         'teacher', 'student', 'head', 'conv', '0', '1', 'layer10',
         'qmodels', 'predict', 'neck']


@st.composite
def key(draw):
    return '.'.join(draw(st.lists(st.sampled_from(WORDS), min_size=1,
                                  max_size=4)) +
                    [draw(st.sampled_from(['weight', 'bias', 'num']))])


@st.composite
def ckpt_case(draw):
    kind = draw(st.sampled_from(['student', 'student', 'kd', 'publish',
                                 'ofa', 'gml', 'attentive']))
    return dict(kind=kind, own=draw(st.lists(key(), min_size=1, max_size=5,
                                             unique=True)),
                other=draw(st.lists(key(), max_size=4, unique=True)),
                out=draw(st.sampled_from(['', 'dir', 'inplace'])),
                extra=draw(st.lists(st.sampled_from(
                    ['optimizer', 'message_hub', 'param_schedulers',
                     'ema_state_dict']), max_size=4, unique=True)),
                depth=draw(st.lists(ints(1, 4), min_size=1, max_size=5)),
                seed=draw(ints(0, 9999)))


def blocks(kind, depth):
    """(name in the released checkpoint, name in MMRazor) of some layers."""
    conv = [('inverted_bottleneck.conv.conv', 'expand_conv.conv'),
            ('depth_conv.conv.conv', 'depthwise_conv.conv'),
            ('point_linear.conv.conv', 'linear_conv.conv'),
            ('depth_conv.bn.bn', 'depthwise_conv.bn'),
            ('depth_conv.se.fc.reduce', 'se.conv1.conv'),
            ('depth_conv.se.fc.expand', 'se.conv2.conv')]
    pairs, at = [], 0
    for stage, n in enumerate(depth):
        for j in range(n):
            for a, b in conv:
                pairs.append((f'blocks.{at}.mobile_inverted_conv.{a}.weight',
                              f'backbone.layer{stage + 1}.{j}.{b}.weight'))
            at += 1
    if kind == 'attentive':
        pairs += [('first_conv.conv.conv.weight',
                   'backbone.first_conv.conv.weight'),
                  ('first_conv.bn.bn.running_mean',
                   'backbone.first_conv.bn.running_mean'),
                  ('classifier.linear.linear.weight', 'head.fc.weight')]
        return [(f'module.{a}', f'architecture.{b}') for a, b in pairs]
    pairs += [('first_conv.conv.weight', 'backbone.first_conv.conv.weight'),
              ('final_expand_layer.bn.weight',
               'backbone.last_conv.final_expand_layer.bn.weight'),
              ('classifier.linear.bias', 'head.fc.bias')]
    return [(a, f'architecture.{b}') for a, b in pairs]


def naming(c):
    """The pairs (name before, name after or None if it is left out)."""
    kind = c['kind']
    if kind == 'student':
        return [('architecture.' + k, k) for k in c['own']] + \
            [(p + k, None) for k in c['other'] for p in
             ('teacher.', 'distiller.', 'data_preprocessor.')]
    if kind == 'kd':
        own = [k for k in c['own'] if not k.startswith('distiller')]
        return [('architecture.model.' + k, 'architecture.' + k)
                for k in own] + \
            [('architecture.model.distiller.teacher.' + k,
              'architecture.teacher.' + k) for k in c['other']
             if 'teacher.' + k not in own] + \
            [('data_preprocessor.' + k, 'data_preprocessor.' + k)
             for k in c['other']]
    if kind == 'ofa':
        return blocks(kind, c['depth'])
    if kind == 'attentive':
        return blocks(kind, [2, 5, 6, 6, 8, 8, 2])
    if kind == 'gml':
        return [(f'model.backbone.blocks.{i}.{j}.conv.weight',
                 f'architecture.backbone.layer{i + 1}.{j}.conv.weight')
                for i, n in enumerate((c['depth'] + [1] * 7)[:7])
                for j in range(n)] + \
            [('model.backbone.first_conv.bn.weight',
              'architecture.backbone.first_conv.bn.weight'),
             ('model.head.fc.weight', 'architecture.head.fc.weight')]
    return [(k, k) for k in c['own']]


SCRIPT = dict(student='convert_kd_ckpt_to_student.py',
              kd='convert_kd_ckpt.py', ofa='convert_ofa_ckpt.py',
              gml='convert_bignas_gml_ckpt.py',
              attentive='convert_attentivenas_nas_ckpt.py')


def files(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h:
                out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


@contextlib.contextmanager
def scratch():
    tmp = tempfile.mkdtemp(prefix='vpbt')
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_ckpt(c, rec):
    """The converted file holds every parameter under its new name."""
    with scratch() as d:
        pairs = naming(c)
        random.Random(c['seed']).shuffle(pairs)
        old = {a: rand_tensor((2, i % 3 + 1), c['seed'] + i)
               for i, (a, _) in enumerate(pairs)}
        ck = dict(meta=dict(epoch=3, name='x'), state_dict=old)
        for e in c['extra']:
            ck[e] = dict(x=torch.ones(2))
        path = os.path.join(d, 'it_3.pth')
        torch.save(ck, path)
        if c['kind'] == 'publish':
            publish(c, rec, d, path, ck)
            return
        before = files(d)
        args = [path]
        if c['kind'] == 'ofa':
            args += ['--depth', *c['depth']]
        dest = d
        if c['out'] == 'inplace':
            args.append('--inplace')
        elif c['out'] == 'dir' and c['kind'] == 'student':
            dest = os.path.join(d, 'sub')
            os.mkdir(dest)
            args += ['--out-path', dest]
        tool('model_converters/' + SCRIPT[c['kind']], *args)
        after = files(d)
        new = [f for f in after if f not in before]
        if c['out'] == 'inplace':
            assert not new, f'in place, but {new} were written'
            got = torch.load(path)
        else:
            name = 'it_3_student.pth' if c['kind'] == 'student' else \
                'it_3_latest.pth'
            want = os.path.relpath(os.path.join(dest, name), d)
            assert new == [want], f'wrote {new}, not {want}'
            assert after['it_3.pth'] == before['it_3.pth'], \
                'the input has changed'
            got = torch.load(os.path.join(d, want))
        same(got['state_dict'], {b: old[a] for a, b in pairs if b},
             c['kind'])
        assert got['meta'] == ck['meta'], 'the meta information is lost'
        if c['kind'] == 'student':
            assert set(got) == {'meta', 'state_dict'}, set(got)
        rec.hit(len(pairs) > 1)
        rec.tag(c['kind'])


def publish(c, rec, d, path, ck):
    stamp = '20230102_030405'
    os.makedirs(os.path.join(d, stamp, 'vis_data'))
    text = {f'{stamp}/{stamp}.log': 'a log %d' % c['seed'],
            f'{stamp}/vis_data/{stamp}.json': '{"loss": %d}' % c['seed']}
    for f, t in text.items():
        with open(os.path.join(d, f), 'w') as h:
            h.write(t)
    before = files(d)
    out = os.path.join(d, 'a', 'b')
    tool('model_converters/publish_model.py', path, '--model-name', 'net',
         '--timestamp', stamp, '--out-dir', out)
    after = files(d)
    for f in before:
        assert after[f] == before[f], f'{f} has changed'
    new = files(out)
    pth = [f for f in new if f.endswith('.pth')]
    assert len(new) == 3 and len(pth) == 1, sorted(new)
    stem = f'net_{stamp}-' + hashlib.sha256(new[pth[0]]).hexdigest()[:8]
    assert sorted(new) == [stem + s for s in ('.json', '.log', '.pth')], \
        f'{sorted(new)}, the contents give {stem}'
    assert new[stem + '.log'].decode() == text[f'{stamp}/{stamp}.log']
    assert new[stem + '.json'].decode() == \
        text[f'{stamp}/vis_data/{stamp}.json']
    got = torch.load(os.path.join(out, pth[0]))
    drop = {'optimizer', 'message_hub', 'param_schedulers'}
    assert set(got) == set(ck) - drop, f'the published file has {set(got)}'
    same(got['state_dict'], ck['state_dict'], 'published')
    assert got['meta'] == ck['meta']
    rec.hit(set(c['extra']) & drop)
    rec.tag('publish')


# ----------------------------------------------------------------- students
@st.composite
def kd_case(draw):
    return dict(student=draw(net_spec()), teacher=draw(net_spec()),
                nested=draw(st.booleans()), seed=draw(ints(0, 9999)))


class Holder(BaseModel):
    """A student that is itself an algorithm around an architecture."""

    def __init__(self, net):
        super().__init__()
        self.architecture = net

    def forward(self, inputs, data_samples=None, mode='tensor'):
        return self.architecture(inputs, data_samples, mode)


def make_kd(c, seed):
    s = PBTPruneNet(copy.deepcopy(c['student']), seed)
    if c['nested']:
        s = Holder(s)
    t = PBTPruneNet(copy.deepcopy(c['teacher']), seed + 1)
    return SingleTeacherDistill(
        distiller=dict(type='ConfigurableDistiller'), architecture=s,
        teacher=t)


def run_kd(c, rec):
    """The extracted student is the trained student."""
    with scratch() as d:
        algo = make_kd(c, c['seed'])
        path = os.path.join(d, 'kd.pth')
        torch.save(dict(meta={}, state_dict=algo.state_dict()), path)
        tool('model_converters/convert_kd_ckpt_to_student.py', path)
        got = torch.load(os.path.join(d, 'kd_student.pth'))['state_dict']
        fresh = make_kd(c, c['seed'] + 77).architecture
        fresh.load_state_dict(got)
        x = rand_tensor((2, 3, 8, 8), c['seed'])
        with torch.no_grad():
            a, b = algo.architecture.eval()(x), fresh.eval()(x)
        agree(a, b, 'output of the extracted student')
        rec.hit(len(got) > 0)
        rec.tag('nested' if c['nested'] else 'plain')


# ---------------------------------------------------------------- quantized
class ValNet(q.Net):
    """A network with a layer whose name resembles a statistic."""

    def __init__(self, c):
        super().__init__(c)
        self.add_module(c['named'], nn.Conv2d(3, 3, 1))
        self.named = c['named']

    def forward(self, inputs, data_samples=None, mode='tensor'):
        x = getattr(self, self.named)(inputs)
        return super().forward(x, data_samples, mode)


@st.composite
def quant_case(draw):
    c = draw(q.net_case(static=True))
    c['lsq'] = draw(st.sampled_from([False, False, True]))
    c['named'] = draw(st.sampled_from([None, 'val_proj', 'in_value']))
    return c


def make_quant(c, seed):
    q.reset_registry()
    torch.manual_seed(seed)
    net = ValNet(c) if c['named'] else q.Net(c)
    randomize(net, seed)
    return ql.MMArchitectureQuant(net, q.quantizer_cfg(c),
                                  input_shapes=(1, 3, 5, 5))


def run_quant(c, rec):
    """The converted file loads into the quantized prediction model."""
    with scratch() as d:
        algo = make_quant(c, c['seed'])
        q.calibrate(algo.qmodels['predict'], c, mode='predict')
        path = os.path.join(d, 'q.pth')
        torch.save(dict(meta=dict(epoch=1), state_dict=algo.state_dict(),
                        optimizer={}), path)
        before = files(d)
        tool('model_converters/convert_quant_ckpt.py', path)
        after = files(d)
        assert set(after) == {'q.pth', 'q_deploy.pth'}, set(after)
        assert after['q.pth'] == before['q.pth']
        got = torch.load(os.path.join(d, 'q_deploy.pth'))
        assert set(got) == {'meta', 'state_dict'} and \
            got['meta'] == dict(epoch=1)
        fresh = make_quant(c, c['seed'] + 7).qmodels['predict']
        ref = algo.qmodels['predict']
        fresh.load_state_dict(got['state_dict'])
        want = ref.state_dict()
        for k, v in fresh.state_dict().items():
            if 'weight_fake_quant' in k and k.endswith(('_val', '.eps')):
                continue  # torch drops these when they have no version
            assert torch.equal(v, want[k]), f'{k} is {v}, it was {want[k]}'
        x = rand_tensor((2, 3, 5, 5), c['seed'] + 1)
        outs = []
        for m in (ref, fresh):
            q.quant_eval(m)
            m.eval()
            with torch.no_grad():
                outs.append(m(x, None, 'predict'))
        for a, b in zip(flat(outs[0]), flat(outs[1])):
            assert torch.equal(a, b), 'the deployed model computes otherwise'
        rec.hit(True)
        rec.tag('per channel' if c['wper'] else 'per tensor')


def rows(x):
    return torch.cat([z.flatten(1) for z in flat(x)], 1)


def agree(a, b, what):
    a, b = flat(a), flat(b)
    assert len(a) == len(b)
    for u, v in zip(a, b):
        close(u, v, what=what)


def flat(x):
    if isinstance(x, torch.Tensor):
        return [x]
    return [z for y in x for z in flat(y)]


# ------------------------------------------------------------------ pruning
@st.composite
def prune_case(draw):
    return dict(spec=draw(net_spec()), wrap=draw(st.booleans()),
                mode=draw(st.sampled_from(['number', 'ratio'])),
                flags=draw(st.sampled_from([[], ['-i'], ['-c'], ['-i', '-c'],
                                            ['--choice']])),
                size=draw(st.sampled_from([8, 8, 12, 20])),
                keep=[draw(ints(1, 100)) for _ in range(6)],
                ckpt=draw(st.booleans()), pre=draw(st.booleans()),
                subnet=draw(st.booleans()), dest=draw(st.booleans()),
                seed=draw(ints(0, 9999)))


def model_cfg(c):
    m = dict(net_cfg(c['spec'], c['seed']))
    m['type'] = 'mmrazor.PBTPruneNet'
    return m


def algo_cfg(c, target=None, **kw):
    return dict(type='mmrazor.ItePruneAlgorithm', architecture=model_cfg(c),
                target_pruning_ratio=target or {}, mutator_cfg=dict(
                    type='ChannelMutator', channel_unit_cfg=dict(
                        type='L1MutableChannelUnit',
                        default_args=dict(choice_mode=c['mode'])),
                    parse_cfg=dict(PARSE, **kw)))


def write_cfg(name, model, **kw):
    cfg = dict(default_scope='mmrazor', model=model, **kw)
    with open(name, 'w') as f:
        for k, v in cfg.items():
            f.write(f'{k} = {pprint.pformat(v)}\n')


def default_mutator(net):
    m = ChannelMutator(
        channel_unit_cfg=dict(type='L1MutableChannelUnit',
                              default_args=dict(choice_mode='ratio')),
        parse_cfg=dict(type='ChannelAnalyzer', tracer_type='FxTracer',
                       demo_input=dict(type='DefaultDemoInput',
                                       scope='mmrazor')))
    m.prepare_from_supernet(net)
    return m


def pick(mut, c):
    """A legal structure of the units."""
    out = {}
    for i, u in enumerate(mut.mutable_units):
        k = max(1, u.num_channels * c['keep'][i % 6] // 100)
        out[u.name] = k if u.choice_mode == 'number' else k / u.num_channels
    return out


def norm(x):
    return json.loads(json.dumps(x))


def run_prune(c, rec):
    """What the pruning tools print and save is the model's."""
    with scratch() as d:
        tags = forked(_prune, c, d)
        rec.hit('pruned' in tags)
        for t in tags:
            rec.tag(t)


def _prune(c, d):
    os.chdir(d)
    tags = []
    write_cfg('net.py', model_cfg(c), **(dict(
        data_preprocessor=dict(type='mmrazor.PBTHalf')) if c['pre'] else {}))
    write_cfg('alg.py', algo_cfg(c))
    net = MODELS.build(model_cfg(c))
    alg = MODELS.build(algo_cfg(c))
    mut = alg.mutator if c['wrap'] else default_mutator(copy.deepcopy(net))
    if not mut.mutable_units:
        return ['no units']
    # -- the units
    name = 'alg.py' if c['wrap'] else 'net.py'
    out = tool('pruning/get_channel_units.py', name, *c['flags'])
    text = out[out.index('{'):]
    want = mut.choice_template if '--choice' in c['flags'] else \
        mut.config_template(with_channels='-c' in c['flags'],
                            with_unit_init_args='-i' in c['flags'])
    assert json.loads(text) == norm(want), f'{text}, expected {norm(want)}'
    seen = tool('pruning/get_channel_units.py', name, *c['flags'], '-o',
                'u.json')
    assert seen == '' and fileio.load('u.json') == json.loads(text)
    if '-c' in c['flags'] and '-i' in c['flags']:
        other = ChannelMutator(
            channel_unit_cfg=dict(
                type='L1MutableChannelUnit',
                units=fileio.load('u.json')['channel_unit_cfg']['units']),
            parse_cfg=dict(type='Config'))
        other.prepare_from_supernet(MODELS.build(model_cfg(c)))
        assert norm(other.choice_template) == norm(mut.choice_template), \
            'the printed units build another mutator'
        tags.append('reused')
    # -- the cost
    n = c['size'] if fixed_size(c['spec']) is False else 8
    m = (alg if c['wrap'] else net).eval()
    out = tool('pruning/get_flops.py', name, '-H', n, '-W', n)
    want = ResourceEstimator().estimate(
        copy.deepcopy(m), dict(input_shape=(1, 3, n, n)))
    got = eval(out[out.rindex('{'):], {})
    assert got == want, f'{got} for {n}x{n}, expected {want}'
    # -- the algorithm of a network
    torch.save(dict(meta={}, state_dict=MODELS.build(
        dict(model_cfg(c), seed=c['seed'] + 5)).state_dict()), 'net.pth')
    dm = default_mutator(MODELS.build(model_cfg(c)))
    args = ['-o', 'out.py'] if c['dest'] else []
    if c['ckpt']:
        args += ['--checkpoint', os.path.join(d, 'net.pth')]
    want = dm.choice_template
    if c['subnet']:
        want = pick(dm, c)
        fileio.dump(want, 's.json')
        args += ['--subnet', 's.json']
    tool('pruning/get_l1_prune_config.py', 'net.py', *args)
    cfg = Config.fromfile('out.py' if c['dest'] else 'prune.py')
    assert cfg.default_scope == 'mmrazor'
    built = MODELS.build(cfg.model)
    assert norm(built.target_pruning_ratio) == norm(want), \
        f'target {built.target_pruning_ratio}, expected {want}'
    assert norm(built.mutator.choice_template) == norm(dm.choice_template)
    built.init_weights()
    ref = MODELS.build(dict(model_cfg(c), seed=c['seed'] +
                            5 * c['ckpt']))
    sup = built.architecture
    x = rand_tensor((2, 3, 8, 8), c['seed'])
    with torch.no_grad():
        agree(sup.eval()(x), ref.eval()(x), 'the network to prune')
    pre = type(sup.data_preprocessor).__name__
    assert pre == ('PBTHalf' if c['pre'] else 'BaseDataPreprocessor'), pre
    assert cfg.get('data_preprocessor') is None
    # -- the pruned network
    a = MODELS.build(algo_cfg(c))
    choice = pick(a.mutator, c)
    a.mutator.set_choices(choice)
    torch.save(dict(meta={}, state_dict=a.state_dict()), 'it_9.pth')
    args = ['-o', 'exp/x'] if c['dest'] else []
    tool('pruning/get_static_model_from_algorithm.py', 'alg.py', 'it_9.pth',
         *args)
    work = 'exp/x' if c['dest'] else 'work_dirs/alg'
    assert sorted(os.listdir(work)) == ['it_9_pruned.json',
                                        'it_9_pruned.pth'], os.listdir(work)
    got = fileio.load(os.path.join(work, 'it_9_pruned.json'))
    real = a.mutator.current_choices
    assert got == norm(real), f'{got}, the checkpoint has {real}'
    state = torch.load(os.path.join(work, 'it_9_pruned.pth'))
    b = MODELS.build(algo_cfg(c))
    b.mutator.set_choices(got)
    _, static = export_fix_subnet(b, slice_weight=True)
    static = static.architecture
    static.load_state_dict(state)
    with torch.no_grad():
        agree(static.eval()(x), a.architecture.eval()(x),
              'the pruned network')
    if any(u.mutable_channel.activated_channels < u.num_channels
           for u in a.mutator.mutable_units):
        tags.append('pruned')
    return tags


@MODELS.register_module(force=True)
class PBTHalf(nn.Module):

    def forward(self, data, training=False):
        return data


def fixed_size(spec):
    """Whether the network only accepts the size it was made for."""
    return any(n['op'] in ('linear', 'flatten') for n in spec['nodes'])


# ------------------------------------------------------------------ subnets
@MODELS.register_module(force=True)
class PBTSuperModel(BaseModel):

    def __init__(self, spec, seed=0):
        super().__init__()
        self.body = Super(copy.deepcopy(spec))
        randomize(self.body, seed)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        return self.body(inputs)


@st.composite
def subnet_case(draw):
    return dict(spec=draw(super_spec(kinds=('op', 'nest', 'big', 'depth'),
                                     max_blocks=3, max_tail=2)),
                rel=draw(st.booleans()), seed=draw(ints(0, 9999)))


def run_subnet(c, rec):
    """The converted checkpoint is the subnet of the trained supernet."""
    with scratch() as d:
        rec.hit(forked(_subnet, c, d))


def _subnet(c, d):
    os.chdir(d)
    cfg = dict(type='mmrazor.SPOS', architecture=dict(
        type='mmrazor.PBTSuperModel', spec=c['spec'], seed=c['seed']),
        mutator=dict(type='mmrazor.NasMutator'))
    write_cfg('c.py', cfg)
    a = MODELS.build(copy.deepcopy(cfg))
    if not a.mutator.search_groups:
        return False
    randomize(a, c['seed'] + 5)
    first = dict(a.mutator.current_choices)
    torch.manual_seed(c['seed'])
    random.seed(c['seed'])
    ch = a.mutator.sample_choices()
    a.mutator.set_choices(ch)
    fix, _ = export_fix_subnet(a)
    fileio.dump(convert_fix_subnet(fix), 'fix.yaml')
    os.mkdir('w')
    torch.save(dict(meta={}, state_dict=a.state_dict()), 'w/sup.pth')
    path = 'w/sup.pth' if c['rel'] else os.path.join(d, 'w/sup.pth')
    x = rand_tensor((2, 3, 8, 8), c['seed'])
    a.eval()
    with torch.no_grad():
        want = a(x)
    tool('model_converters/convert_supernet2subnet.py', 'c.py', path,
         'fix.yaml')
    files = glob.glob('w/subnet_*.pth')
    assert len(files) == 1, os.listdir('w')
    got = torch.load(files[0])
    b = MODELS.build(copy.deepcopy(cfg))
    load_fix_subnet(b, 'fix.yaml')
    b.load_state_dict(got['state_dict'])
    b.eval()
    with torch.no_grad():
        close(b(x), want, what='output of the subnet')
    return ch != first


# --------------------------------------------------------------------- runs
@DATASETS.register_module(force=True)
class PBTSet(torch.utils.data.Dataset):
    metainfo = dict()

    def __init__(self, n, seed):
        self.x = rand_tensor((n, 3, 8, 8), seed)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return dict(inputs=self.x[i], data_samples=i % 5)


@METRICS.register_module(force=True)
class PBTScore(ql.Score):
    """Weighted sum of everything predicted."""

    def process(self, data_batch, data_samples):
        super().process(data_batch, rows(data_samples))


@st.composite
def runs_case(draw):
    return dict(spec=draw(net_spec()), algo=draw(st.booleans()),
                epochs=draw(ints(1, 3)), stop=draw(ints(1, 2)),
                lr=draw(st.sampled_from([None, .002, .005])),
                place=draw(st.sampled_from(['cli', 'file', 'name'])),
                resume=draw(st.sampled_from(['no', 'auto', 'no'])),
                other=draw(st.booleans()), seed=draw(ints(0, 999)))


def run_runs(c, rec):
    """Training, resuming and testing from the command line."""
    with scratch() as d:
        tags = forked(_runs, c, d)
        rec.hit('trained' in tags)
        for t in tags:
            rec.tag(t)


def _runs(c, d):
    os.chdir(d)
    model = algo_cfg(c | dict(mode='number')) if c['algo'] else model_cfg(c)
    model = dict(model, data_preprocessor=None)
    model.pop('data_preprocessor')
    load = dict(batch_size=2, num_workers=0, collate_fn=dict(
        type='default_collate'), sampler=dict(
        type='DefaultSampler', shuffle=False), dataset=dict(
            type='PBTSet', n=4, seed=c['seed']))
    kw = dict(
        train_dataloader=load, test_dataloader=load,
        train_cfg=dict(by_epoch=True, max_epochs=9), test_cfg=dict(),
        test_evaluator=dict(type='PBTScore', seed=c['seed']),
        optim_wrapper=dict(optimizer=dict(type='SGD', lr=.001, momentum=.5)),
        log_level='ERROR', randomness=dict(seed=c['seed']))
    if c['place'] == 'file':
        kw['work_dir'] = './here'
    write_cfg('some.py', model, **kw)

    def work(name):
        return {'cli': name, 'file': 'here',
                'name': 'work_dirs/some'}[c['place']]

    def args(name, n):
        out = ['some.py']
        if c['place'] == 'cli':
            out += ['--work-dir', name]
        out += ['--cfg-options', f'train_cfg.max_epochs={n}']
        if c['lr']:
            out.append(f'optim_wrapper.optimizer.lr={c["lr"]}')
        return out

    text = tool('misc/print_config.py', *args('x', c['epochs'])[
        :1] + args('x', c['epochs'])[-(2 + bool(c['lr'])):])
    with open('shown.py', 'w') as f:
        f.write(text.split('Config:\n', 1)[1])
    shown = Config.fromfile('shown.py')
    assert shown.train_cfg.max_epochs == c['epochs']
    assert shown.optim_wrapper.optimizer.lr == (c['lr'] or .001)
    assert shown.model == Config.fromfile('some.py').model
    tags = ['trained']

    def finish(epochs):
        """Train by hand."""
        net = MODELS.build(copy.deepcopy(model))
        net.init_weights()
        opt = torch.optim.SGD(net.parameters(), lr=c['lr'] or .001,
                              momentum=.5)
        data = PBTSet(4, c['seed'])
        net.train()
        for _ in range(epochs):
            for i in (0, 2):
                y = torch.tensor([i % 5, (i + 1) % 5])
                loss = net(data.x[i:i + 2], y, mode='loss')
                opt.zero_grad()
                sum(v.sum() for k, v in loss.items() if 'loss' in k
                    ).backward()
                opt.step()
        return net

    stop = min(c['stop'], c['epochs'])
    if c['resume'] == 'auto':
        hard('train.py', *args('w', stop))
        before = files(work('w'))
        assert f'epoch_{stop}.pth' in before, sorted(before)
        extra = args('w', c['epochs'])
        hard('train.py', extra[0], '--resume', *extra[1:])
        tags.append('resumed')
    else:
        hard('train.py', *args('w', c['epochs']))
    last = os.path.join(work('w'), f'epoch_{c["epochs"]}.pth')
    assert os.path.exists(last), sorted(files(d))
    ck = torch.load(last)
    ref = finish(c['epochs'])
    if not all(v.isfinite().all() for v in ref.state_dict().values()):
        return ['diverged']
    for k, v in ref.state_dict().items():
        if v.is_floating_point():
            close(ck['state_dict'][k], v, what=f'trained {k}')
        else:
            assert torch.equal(ck['state_dict'][k], v), k
    assert ck['meta']['epoch'] == c['epochs']
    # -- testing, of this or another checkpoint
    if c['other']:
        other = MODELS.build(copy.deepcopy(model))
        randomize(other, c['seed'] + 3)
        last = 'other.pth'
        torch.save(dict(meta={}, state_dict=other.state_dict()), last)
        ref = other
    metrics = []
    real = ql.Score.compute_metrics

    def spy(self, results):
        metrics.append(real(self, results))
        return metrics[-1]

    PBTScore.compute_metrics = spy
    hard('test.py', 'some.py', last, '--work-dir', 'tested')
    assert os.path.isdir('tested'), os.listdir('.')
    assert len(metrics) == 1
    score = ql.Score(c['seed'])
    ref.eval()
    data = PBTSet(4, c['seed'])
    with torch.no_grad():
        for i in (0, 2):
            score.process(None, rows(ref(data.x[i:i + 2], None,
                                         mode='predict')))
    want = score.compute_metrics(score.results)
    for k, v in want.items():
        assert abs(metrics[0][k] - v) < 1e-3 * (1 + abs(v)), \
            f'{k} of the checkpoint is {v}, {metrics[0][k]} is reported'
    return tags


def hard(name, *args):
    with contextlib.redirect_stderr(io.StringIO()):
        return tool(name, *args)


SUBS = [
    Sub('ckpt', ckpt_case(), run_ckpt, 300),
    Sub('kd', kd_case(), run_kd, 40),
    Sub('quant', quant_case(), run_quant, 40),
    Sub('prune', prune_case(), run_prune, 60),
    Sub('subnet', subnet_case(), run_subnet, 40),
    Sub('runs', runs_case(), run_runs, 24),
]
