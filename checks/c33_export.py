"""C33: the ONNX file exported from a quantized model computes what the model
computes.

`model`: random traced networks are calibrated, turned into deploy models and
exported by the quantizers; the written file, run by the ONNX reference
evaluator, must reproduce the deploy model. All scales are replaced by powers
of two and biases by short binary fractions, which makes the arithmetic of
most operators exact: a value moved by one quantization step is a real
difference, not rounding. `graph`: random hand-made ONNX graphs go through the
exporters and the graph utilities."""
import copy
import os
import tempfile
import warnings

import numpy as np
import onnx
import torch
from hypothesis import strategies as st
from onnx import TensorProto, helper, numpy_helper
from onnx.reference import ReferenceEvaluator
from onnx.reference.op_run import OpRun
from torch.ao.quantization import FakeQuantizeBase

from checks import c30_quantizers as q
from mmrazor.models import MMArchitectureQuant
from mmrazor.models.quantizers.exporters import (OpenVinoQuantizeExportor,
                                                 TensorRTExplicitExporter)
from mmrazor.models.quantizers.exporters.optim_utils import ONNXOptimUtils
from pbt.core import Sub
from pbt.nnutil import rand_tensor

warnings.filterwarnings('ignore')

PID = 'C33'
RULE = ('the file has at least three fake quantizers (or quantize nodes), '
        'resp. the hand-made graph has a quantizer, a pad or something to '
        'be removed')
ASSUMPTIONS = [
    'files are judged with the onnx reference evaluator, FakeQuantize of '
    'OpenVINO being modelled by its documented formula; the runtimes are '
    'not installed',
    'opset 11 for OpenVINO, 13 for TensorRT and native (the defaults)',
]
ints = st.integers

# -------------------------------------------------------- reference operators
def fake_quant(x, scale, zp, lo, hi):
    v = np.rint(x.astype(np.float64) / scale) + zp
    return ((np.clip(v, lo, hi) - zp) * scale).astype(np.float32)


class FixedPerTensorAffine(OpRun):
    op_domain = 'mmrazor'

    def _run(self, x, scale, zp, lo, hi):
        return (fake_quant(x, scale.reshape(()).astype(np.float64),
                           zp.reshape(()), lo, hi),)


class FixedPerChannelAffine(OpRun):
    op_domain = 'mmrazor'

    def _run(self, x, scale, zp, axis, lo, hi):
        shape = [1] * x.ndim
        shape[int(axis)] = -1
        return (fake_quant(x, scale.astype(np.float64).reshape(shape),
                           zp.reshape(shape), lo, hi),)


class FakeQuantize(OpRun):
    """The operator of OpenVINO (numpy broadcasting of the bounds)."""
    op_domain = 'org.openvinotoolkit'

    def _run(self, x, il, ih, ol, oh, levels=None):
        assert (il == ol).all() and (ih == oh).all()
        assert (il < ih).all()
        il, ih = il.astype(np.float64), ih.astype(np.float64)
        step = (ih - il) / (levels - 1)
        k = np.clip(np.rint(x / step) - np.rint(il / step), 0, levels - 1)
        out = k * step + np.rint(il / step) * step
        assert out.shape == x.shape, \
            f'bounds of shape {il.shape} for data of shape {x.shape}'
        return (out.astype(np.float32),)


def spread(v, x, axis):
    if v.size == 1:
        return v.reshape(())
    shape = [1] * x.ndim
    shape[axis] = -1
    return v.reshape(shape)


class QuantizeLinear(OpRun):
    op_domain = ''

    def _run(self, x, scale, zp, axis=None, **kw):
        # TensorRT takes the zeros of any type for signed bytes
        info = np.iinfo(np.int8 if zp.dtype == np.int32 else zp.dtype)
        axis = 1 if axis is None else axis
        v = np.rint(x.astype(np.float64) / spread(scale, x, axis)) + \
            spread(zp, x, axis)
        return (np.clip(v, info.min, info.max).astype(zp.dtype),)


class DequantizeLinear(OpRun):
    op_domain = ''

    def _run(self, x, scale, zp, axis=None, **kw):
        axis = 1 if axis is None else axis
        assert zp.dtype == x.dtype
        return (((x.astype(np.float64) - spread(zp, x, axis)) *
                 spread(scale, x, axis)).astype(np.float32),)


OPS = [FixedPerTensorAffine, FixedPerChannelAffine, FakeQuantize,
       QuantizeLinear, DequantizeLinear]
SYMBOLIC = ('FixedPerTensorAffine', 'FixedPerChannelAffine')


def evaluate(model, feeds):
    model = copy.deepcopy(model)
    for d in ('mmrazor', 'org.openvinotoolkit'):  # implied by the runtime
        if d not in [o.domain for o in model.opset_import]:
            model.opset_import.append(helper.make_opsetid(d, 1))
    return ReferenceEvaluator(model, new_ops=OPS).run(None, feeds)


def check_file(m, what):
    """Names are defined before use, nothing is defined twice."""
    known = {i.name for i in m.graph.input}
    inits = [i.name for i in m.graph.initializer]
    assert len(inits) == len(set(inits)), f'{what}: initializer twice'
    known |= set(inits)
    for n in m.graph.node:
        for i in n.input:
            assert i in known or not i, \
                f'{what}: {n.op_type} {n.name} uses undefined {i}'
        for o in n.output:
            assert o not in known or not o, f'{what}: {o} defined twice'
            known.add(o)
    for o in m.graph.output:
        assert o.name in known, f'{what}: output {o.name} is undefined'


def names(vs):
    return [v.name for v in vs]


# --------------------------------------------------------------------- model
EXACT = ['conv', 'conv1', 'convbn', 'convbnrelu', 'convrelu', 'convrelu6',
         'relu', 'relu6', 'identity', 'maxpool', 'add', 'iadd', 'ffadd',
         'cat', 'frelu', 'sub', 'reuse', 'reuse', 'dw', 'drop', 'linear',
         'fmax', 'pad', 'chunk', 'resize']
ROUNDED = ['sigmoid', 'mul', 'scale', 'exp', 'avgpool', 'bn', 'hsig']


@st.composite
def model_case(draw):
    c = draw(q.net_case(static=True))
    c['exact'] = draw(st.sampled_from([True, True, False]))
    pool = EXACT if c['exact'] else EXACT + ROUNDED
    c['ops'] = [[draw(st.sampled_from(pool)), draw(ints(0, 9)),
                 draw(ints(0, 9))] for _ in range(draw(ints(0, 5)))]
    c['backend'] = draw(st.sampled_from(
        ['OpenVINO'] * 4 + ['TensorRT', 'TorchNative']))
    c['tiny'] = draw(st.sampled_from([False] * 7 + [True]))
    c['batch'] = draw(ints(1, 2))
    return c


def deploy(c):
    q.reset_registry()
    torch.manual_seed(c['seed'])
    algo = MMArchitectureQuant(q.build_net(c), input_shapes=(1, 3, 8, 8),
                               quantizer=q.quantizer_cfg(c))
    algo.eval()
    q.quant_observe(algo.qmodels['predict'])
    with torch.no_grad():
        algo(rand_tensor((2, 3, 8, 8), c['seed']), None, 'predict')
    dep = algo.get_deploy_model()
    return algo, dep.eval()


def snap(dep):
    """Powers of two for scales, short fractions for biases."""
    n = 0
    for m in dep.modules():
        if isinstance(m, FakeQuantizeBase):
            s = m.scale.data
            s.copy_(2.0**s.clamp(2**-9, 4).log2().round())
            n += 1
        elif getattr(m, 'bias', None) is not None:
            m.bias.data.mul_(64).round_().div_(64)
    return n


def run_model(c, rec):
    opset = 11 if c['backend'] == 'OpenVINO' else 13
    if opset == 13:
        # torch's own conversion: 8 bit, full range, unsigned activations
        c = dict(c, wbit=8, wrange=False)
    old = q.quant_cfg

    def cfg(c_):
        r = old(c_)
        r['a_qscheme']['qdtype'] = 'quint8'
        return r

    q.quant_cfg = cfg
    try:
        algo, dep = deploy(c)
    finally:
        q.quant_cfg = old
    snap(dep)
    x = rand_tensor((c['batch'], 3, 8, 8), c['seed'] + 1)
    with torch.no_grad():
        want = [t.numpy() for t in q.flat(dep(x))]
    state = {k: v.clone() for k, v in dep.state_dict().items()}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'm.onnx')
        kw = dict(opset_version=13) if c['backend'] == 'TorchNative' else {}
        algo.quantizer.export_onnx(dep, x, path, **kw)
        m = onnx.load(path)
        sym = None
        if c['backend'] != 'TorchNative':
            sym = onnx.load(path.replace('.onnx', '_symbolic.onnx'))
    rec.tag(c['backend'] + ('/ch' if c['wper'] else ''))
    assert {o.version for o in m.opset_import if not o.domain} == {opset}
    check_file(m, 'exported file')
    left = [n.op_type for n in m.graph.node if n.op_type in SYMBOLIC]
    assert not left, f'left in the exported file: {left}'
    fq = sum(n.op_type == 'FakeQuantize' for n in m.graph.node)
    feeds = {m.graph.input[0].name: x.numpy()}
    assert len(m.graph.input) == 1
    got = evaluate(m, feeds)
    if sym is not None:
        assert names(m.graph.input) == names(sym.graph.input)
        assert names(m.graph.output) == names(sym.graph.output)
        nsym = [n for n in sym.graph.node if n.op_type in SYMBOLIC]
        assert fq == len(nsym), \
            f'{len(nsym)} fake quantizers, {fq} in the file'
        if opset == 11:
            rec.hit(fq >= 3)
        ref = evaluate(sym, feeds)
        for i, (a, b) in enumerate(zip(got, ref)):
            assert a.shape == b.shape and np.array_equal(a, b), \
                f'output {i} of the exported file differs from the graph ' \
                f'before conversion by {np.abs(a - b).max()}'
    assert len(got) == len(want)
    for i, (a, b) in enumerate(zip(got, want)):
        assert a.shape == b.shape
        if c['exact']:
            err = np.abs(a - b).max()
            assert err <= 1e-5 * max(1, np.abs(b).max()), \
                f'output {i} of the exported file is off by {err} from ' \
                f'the deploy model'
    if opset == 13:
        rec.hit(any(n.op_type == 'QuantizeLinear' for n in m.graph.node))
    for k, v in dep.state_dict().items():
        assert torch.equal(v, state[k]), f'export changed {k}'


# --------------------------------------------------------------------- graph
KINDS = ['add', 'mul', 'relu', 'neg', 'split', 'const', 'init', 'alias',
         'nopad', 'pad', 'gemm', 'gemm', 'matmul', 'fq', 'fq', 'dead',
         'unused']

graph_case = st.fixed_dictionaries(dict(
    seed=ints(0, 9999), inputs=ints(1, 2), trt=st.sampled_from(
        [False, False, True]),
    nodes=st.lists(st.tuples(st.sampled_from(KINDS), ints(0, 9), ints(0, 9),
                             ints(0, 3)), min_size=1, max_size=10),
    shared=st.booleans(), names=st.sampled_from(['n{}', '/m{}/Op', '{}']),
    mid=ints(0, 9), cyclic=st.booleans()))


class Graph:
    """A random graph over 4x4 matrices."""

    def __init__(self, c):
        self.c = c
        self.rng = np.random.RandomState(c['seed'])
        self.nodes, self.inits, self.n = [], [], 0
        self.consts = {}
        self.quants = self.removable = 0
        self.bad_output = set()  # may not become graph outputs
        self.vals = [f'x{i}' for i in range(c['inputs'])]
        for node in c['nodes']:
            self.step(*node)
        # everything at the end of the graph matters
        used = {i for n in self.nodes for i in n.input}
        loose = [v for v in self.vals if v not in used]
        out = loose[0] if loose else self.vals[-1]
        for v in loose[1:]:
            out = self.op('Add', out, v)
        out = self.op('Neg', out)
        self.outs = [out]
        mid = self.vals[c['mid'] % len(self.vals)]
        if mid not in self.bad_output and not mid.startswith('x'):
            self.outs.append(mid)

    def init(self, value, name=None):
        name = name or f'w{len(self.inits)}'
        self.inits.append(numpy_helper.from_array(np.asarray(value), name))
        return name

    def const(self, value):
        value = np.asarray(value)
        key = (str(value.dtype), value.tobytes())
        if self.c['shared'] and key in self.consts:
            return self.consts[key]
        self.consts[key] = self.op(
            'Constant', value=numpy_helper.from_array(value))
        return self.consts[key]

    def op(self, kind, *inputs, outs=1, domain='', **kw):
        name = self.c['names'].format(self.n)
        self.n += 1
        out = [f'{name}_out{i}' for i in range(outs)]
        self.nodes.append(helper.make_node(
            kind, list(inputs), out, name, domain=domain, **kw))
        return out[0] if outs == 1 else out

    def grid(self, *shape):
        return (self.rng.randint(-20, 20, shape) / 8).astype(np.float32)

    def quant(self, x, k, channels=None):
        self.quants += 1
        lo, hi = [(-128, 127), (0, 255), (-127, 127), (-8, 7)][k % 4]
        if self.c['trt']:
            lo, hi = -128, 127
        if channels is None or self.c['trt']:
            args = [self.init(np.float32([2.0**-(3 + k % 3)])),
                    self.init(np.int32([0 if self.c['trt'] else
                                        (lo + hi + 1) // 2]))]
            kind = 'FixedPerTensorAffine'
        else:
            args = [self.init((2.0**-self.rng.randint(2, 6, 4)
                               ).astype(np.float32)),
                    self.init(np.int32([(lo + hi + 1) // 2] * 4)),
                    self.const(np.int64(channels))]
            kind = 'FixedPerChannelAffine'
        args += [self.const(np.int64(lo)), self.const(np.int64(hi))]
        return self.op(kind, x, *args, domain='mmrazor')

    def step(self, kind, a, b, k):
        u = self.vals[a % len(self.vals)]
        v = self.vals[b % len(self.vals)]
        if kind in ('add', 'mul'):
            y = self.op(kind.capitalize(), u, v)
        elif kind in ('relu', 'neg'):
            y = self.op(kind.capitalize(), u)
        elif kind == 'split':
            p, r = self.op('Split', u, outs=2, axis=k % 2)
            y = self.op('Concat', r, p, axis=k % 2)
        elif kind == 'const':
            y = self.op('Add', u, self.const(self.grid(4, 4)))
        elif kind == 'init':
            y = self.op('Mul', self.init(self.grid(4, 4)), u)
        elif kind == 'alias':
            y = self.op('Add', u, self.op('Identity',
                                          self.init(self.grid(4, 4))))
        elif kind == 'nopad':
            self.removable += 1
            y = self.op('Pad', u, self.const(np.zeros(4, np.int64)))
            self.bad_output.add(y)
        elif kind == 'pad':
            y = self.op('Pad', u, self.const(np.int64([k % 2, 1, 0, 0])))
            y = self.op('Slice', y, self.const(np.int64([0, 0])),
                        self.const(np.int64([4, 4])))
        elif kind in ('gemm', 'matmul'):
            w = self.quant(self.init(self.grid(4, 4)), k, k % 2)
            if kind == 'gemm':
                y = self.op('Gemm', u, w, self.init(self.grid(4)), transB=1)
            else:
                y = self.op('MatMul', u, self.op('Transpose', w))
        elif kind == 'fq':
            if u.startswith('x') or u in self.bad_output:
                u = self.op('Relu', u)
            y = self.quant(u, k)
        elif kind == 'dead':
            self.removable += 1
            self.op('Identity', self.init(self.grid(2)))
            return
        else:
            self.removable += 1
            self.init(self.grid(3), f'unused{self.n}_{len(self.inits)}')
            return
        self.vals.append(y)

    def model(self, nodes):
        def info(n):
            return helper.make_tensor_value_info(n, TensorProto.FLOAT,
                                                 [4, 4])
        g = helper.make_graph(
            nodes, 'g', [info(f'x{i}') for i in range(self.c['inputs'])],
            [info(o) for o in self.outs], initializer=self.inits)
        return helper.make_model(g, opset_imports=[
            helper.make_opsetid('', 11), helper.make_opsetid('mmrazor', 1)])


def run_graph(c, rec):
    """Hand-made graphs through the exporters and the sorting."""
    g = Graph(c)
    m = g.model(g.nodes)
    check_file(m, 'harness')
    feeds = {f'x{i}': g.grid(4, 4) for i in range(c['inputs'])}
    want = evaluate(m, feeds)
    rec.hit(g.quants > 0 or g.removable > 0)
    rec.tag('trt' if c['trt'] else 'openvino')
    # sorting any permutation
    nodes = [g.nodes[i] for i in g.rng.permutation(len(g.nodes))]
    mixed = g.model(nodes)
    raw = mixed.SerializeToString()
    done = ONNXOptimUtils.topo_sort(mixed, inplace=False)
    assert mixed.SerializeToString() == raw, 'the argument was changed'
    check_file(done, 'sorted')
    assert sorted(n.SerializeToString() for n in done.graph.node) == \
        sorted(n.SerializeToString() for n in nodes), 'nodes changed'
    assert ONNXOptimUtils.topo_sort(mixed) is mixed
    check_file(mixed, 'sorted in place')
    if c['cyclic']:
        bad = g.model(g.nodes)
        last = bad.graph.node[-1]
        first = next((n for n in bad.graph.node
                      if last.input[0] in n.output), last)
        first.input.append(last.output[0])
        try:
            ONNXOptimUtils.topo_sort(bad)
        except RuntimeError:
            pass
        else:
            raise AssertionError('a cyclic graph was sorted')
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'm.onnx')
        src = m
        if c['seed'] % 2:
            src = os.path.join(d, 's.onnx')
            onnx.save(m, src)
        cls = TensorRTExplicitExporter if c['trt'] else \
            OpenVinoQuantizeExportor
        cls(src, path).export()
        new = onnx.load(path)
    check_file(new, 'exported')
    kinds = [n.op_type for n in new.graph.node]
    assert not set(kinds) & set(SYMBOLIC), kinds
    n = kinds.count('DequantizeLinear' if c['trt'] else 'FakeQuantize')
    assert n == g.quants, f'{n} of {g.quants} quantizers'
    left = [i.name for i in new.graph.initializer
            if i.name.startswith('unused')]
    assert not left, f'unused initializers {left}'
    got = evaluate(new, feeds)
    for i, (a, b) in enumerate(zip(got, want)):
        assert np.array_equal(a, b), f'output {i} is another'


SUBS = [
    Sub('model', model_case(), run_model, 160),
    Sub('graph', graph_case, run_graph, 800),
]
