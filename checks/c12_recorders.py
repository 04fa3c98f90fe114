"""C12: recorders and deliveries see exactly the calls, and leave no trace."""
import copy
import pickle
import sys
import types

import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.models.task_modules import (DistillDeliveryManager,
                                         RecorderManager)
from pbt.core import Sub

PID = 'C12'
RULE = ('at least three recorded or delivered calls and two sources, or one '
        'source observed twice')
ASSUMPTIONS = ['one method is not observed both under its base class and '
               'under a subclass that inherits it at the same time',
               'each recorder is initialised once']
SRC = '''
n = 0
def tick():
    global n
    n += 1
    return n
def f0(a, b=2):
    return ['f0', tick(), a, b]
def f1(a, *, c=3):
    return ['f1', tick(), f0(a, b=c)]
def f2(a):
    if a == 0:
        raise ValueError('boom')
    return ['f2', tick(), a]
class Base:
    def m(self, x, y=0):
        return ('m', tick(), x, y)
    def k(self, x):
        return ('k', tick(), self.m(x))
class Sub(Base):
    def n(self, x, y=1):
        return ('n', tick(), self.m(y, x), x)
'''
PARAMS = dict(f0=['a', 'b'], f1=['a', 'c'], f2=['a'], m=['x', 'y'],
              k=['x'], n=['x', 'y'])
FUNCS = ['f0', 'f1', 'f2']


class Boom(Exception):
    pass


class Ref:
    """What the toy module computes, with explicit layers per source."""

    def __init__(self, inherit):
        self.n = 0
        self.layers = {}
        self.inherit = inherit

    def tick(self):
        self.n += 1
        return self.n

    def key(self, name, cls):
        if name == 'm' and self.inherit:
            return 'Sub.m' if cls == 'Sub' else 'Base.m'
        return {'m': 'Base.m', 'k': 'Base.k', 'n': 'Sub.n'}.get(name, name)

    def call(self, name, args, kw, cls=None):
        layers = list(self.layers.get(self.key(name, cls), []))

        def go(i):
            if i < 0:
                return self.body(name, args, kw, cls)
            kind, obj = layers[i]
            if kind == 'delivery':
                if obj['override']:
                    if not obj['q']:
                        raise Boom('empty')
                    return obj['q'].pop(0)
                if len(obj['q']) >= obj['max']:
                    raise Boom('full')
                out = go(i - 1)
                obj['q'].append(out)
                return out
            out = go(i - 1)
            obj.append(out if kind == 'out' else
                       list(args) + [kw[k] for k in PARAMS[name] if k in kw])
            return out

        return go(len(layers) - 1)

    def body(self, name, args, kw, cls):
        v = dict(zip(PARAMS[name], args), **kw)
        if name == 'f0':
            return ['f0', self.tick(), v['a'], v.get('b', 2)]
        if name == 'f1':
            t = self.tick()
            return ['f1', t, self.call('f0', [v['a']],
                                       dict(b=v.get('c', 3)))]
        if name == 'f2':
            if v['a'] == 0:
                raise Boom('boom')
            return ['f2', self.tick(), v['a']]
        if name == 'm':
            return ('m', self.tick(), v['x'], v.get('y', 0))
        if name == 'k':
            t = self.tick()
            return ('k', t, self.call('m', [v['x']], {}, cls))
        t = self.tick()
        return ('n', t, self.call('m', [v.get('y', 1), v['x']], {}, cls),
                v['x'])


@st.composite
def call(draw):
    name = draw(st.sampled_from(FUNCS * 2 + ['m', 'm', 'k', 'n']))
    params = PARAMS[name]
    vals = [draw(st.integers(0, 4)) for _ in params]
    n_pos = draw(st.integers(0, len(params)))
    if name == 'f1':
        n_pos = min(n_pos, 1)
    kw = list(zip(params, vals))[n_pos:]
    drop = draw(st.booleans())
    if drop and len(kw) and len(params) > 1 and kw[-1][0] == params[-1]:
        kw = kw[:-1]
    if draw(st.booleans()):
        kw = kw[::-1]
    return dict(name=name, args=vals[:n_pos], kw=kw,
                cls=draw(st.sampled_from(['Base', 'Sub'])))


def sources(inherit):
    return FUNCS + ['Sub.m' if inherit else 'Base.m', 'Base.k', 'Sub.n']


rec_t = st.fixed_dictionaries(dict(src=st.integers(0, 5), side=st.sampled_from(
    ['Inputs', 'Outputs'])))
mod_t = st.fixed_dictionaries(dict(
    src=st.sampled_from(['a', 'b', 'b.0', 'b.1']),
    side=st.sampled_from(['Inputs', 'Outputs'])))


@st.composite
def case(draw):
    return dict(
        inherit=draw(st.booleans()),
        recs=[draw(st.lists(rec_t, max_size=4)),
              draw(st.lists(rec_t, max_size=3))],
        mods=draw(st.lists(mod_t, max_size=3)),
        param=draw(st.booleans()),
        dels=draw(st.lists(st.tuples(st.integers(0, 5), st.integers(1, 4)),
                           max_size=3)),
        deep=draw(st.booleans()),
        sessions=draw(st.lists(st.fixed_dictionaries(dict(
            order=st.permutations([0, 1, 2]), n=st.integers(1, 3),
            override=st.sampled_from([False, True, None]),
            calls=st.lists(st.one_of(call(), call(), call(),
                                     st.just('model')), max_size=5),
            out=st.booleans())), min_size=1, max_size=4)),
        copy=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


class Net(nn.Module):

    def __init__(self):
        super().__init__()
        self.a = nn.Linear(2, 2)
        self.b = nn.Sequential(nn.Linear(2, 2), nn.ReLU())
        self.log = None

    def forward(self, x):
        y = self.a(x)
        z = self.a(y + 1)
        return self.b(z)


def net_records(net, x):
    y = net.a(x)
    z = net.a(y + 1)
    w = net.b[0](z)
    v = torch.relu(w)
    return {('a', 'Inputs'): [(x, ), (y + 1, )], ('a', 'Outputs'): [y, z],
            ('b', 'Inputs'): [(z, )], ('b', 'Outputs'): [v],
            ('b.0', 'Inputs'): [(z, )], ('b.0', 'Outputs'): [w],
            ('b.1', 'Inputs'): [(w, )], ('b.1', 'Outputs'): [v]}, v


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            map(same, a, b))
    if isinstance(a, torch.Tensor):
        return torch.equal(a, b)
    return a == b


def run(c, rec):
    """Random sessions of nested managers against explicit layers."""
    name = 'pbt_toy_mod' if not c['deep'] else 'pbt_toy_mod.inner.last'
    toy = types.ModuleType(name)
    sys.modules[name] = toy
    parents = [name.rsplit('.', i)[0] for i in range(1, name.count('.') + 1)]
    for q in parents:
        sys.modules[q] = types.ModuleType(q)
        sys.modules[q].__path__ = []
    try:
        exec(compile(SRC, name, 'exec'), toy.__dict__)
        drive(c, rec, toy, name)
        for bad in ('f0', '', name.split('.')[0] + '_missing.f0',
                    name + '.nothing'):
            for side in ('Inputs', 'Outputs'):
                refuse((AssertionError, ImportError), recorder,
                       dict(r=dict(type='Function' + side, source=bad)))
            refuse((AssertionError, ImportError), delivery,
                   dict(d=dict(type='FunctionOutputs', func_path=bad,
                               max_keep_data=1)))
        for bad in ('f0', 'Sub.n', name + '.Sub.nothing', name + '.No.n'):
            for side in ('Inputs', 'Outputs'):
                refuse((AssertionError, ImportError), recorder,
                       dict(r=dict(type='Method' + side, source=bad)))
            refuse((AssertionError, ImportError), delivery,
                   dict(d=dict(type='MethodOutputs', method_path=bad,
                               max_keep_data=1)))
    finally:
        for q in [name] + parents:
            del sys.modules[q]


def drive(c, rec, toy, name):
    torch.manual_seed(c['seed'])
    srcs = sources(c['inherit'])
    pristine = ({k: v for k, v in toy.__dict__.items() if k != 'n'},
                dict(vars(toy.Base)), dict(vars(toy.Sub)))
    net = Net()
    ref = Ref(c['inherit'])

    def cfg(r):
        s = srcs[r['src']]
        kind = 'Method' if '.' in s else 'Function'
        return dict(type=kind + r['side'], source=f'{name}.{s}')

    tables, real = [], []
    for j, rs in enumerate(c['recs']):
        d = {f'r{i}': cfg(r) for i, r in enumerate(rs)}
        t = {f'r{i}': ['in' if r['side'] == 'Inputs' else 'out',
                       srcs[r['src']], []] for i, r in enumerate(rs)}
        if j == 0:
            for i, r in enumerate(c['mods']):
                d[f'm{i}'] = dict(type='Module' + r['side'], source=r['src'])
                t[f'm{i}'] = ['mod', (r['src'], r['side']), []]
            if c['param']:
                d['p'] = dict(type='Parameter', source='a.weight')
                t['p'] = ['param', 'a.weight', [net.a.weight]]
        keep = copy.deepcopy(d)
        m = RecorderManager(d)
        assert d == keep, 'the config of the recorders was changed'
        try:
            with m:
                raise RuntimeError('entered before initialisation') \
                    if d else KeyError
        except (AssertionError, KeyError):
            pass
        m.initialize(net)
        real.append(m)
        tables.append(t)
    dels = {}
    dcfg = {}
    for i, (s, mx) in enumerate(c['dels']):
        s = srcs[s]
        key = 'method_path' if '.' in s else 'func_path'
        dcfg[f'd{i}'] = {'type': ('Method' if '.' in s else 'Function') +
                         'Outputs', 'max_keep_data': mx, key: f'{name}.{s}'}
        dels[f'd{i}'] = dict(src=s, max=mx, q=[], override=False)
    keep = copy.deepcopy(dcfg)
    dm = DistillDeliveryManager(dcfg)
    assert dcfg == keep, 'the config of the deliveries was changed'
    assert dm.override_data is False
    assert not any(d.override_data for d in dm.deliveries.values())

    events = 0
    for s in c['sessions']:
        order = s['order'][:s['n']]
        if s['override'] is not None:
            dm.override_data = s['override']
            for d in dels.values():
                d['override'] = s['override']
            assert dm.override_data == s['override']
        active_mods = 0 in order
        # the reference enters
        ref.layers = {}
        for o in order:
            if o == 2:
                for d in dels.values():
                    ref.layers.setdefault(d['src'], []).append(
                        ('delivery', d))
            else:
                for e in tables[o].values():
                    if e[0] in ('in', 'out'):
                        e[2] = []
                        ref.layers.setdefault(e[1], []).append((e[0], e[2]))
                    elif e[0] == 'mod':
                        e[2] = []
        mgrs = [dm if o == 2 else real[o] for o in order]
        failed = False
        try:
            with Nest(mgrs):
                for k in s['calls']:
                    events += step(c, k, toy, net, ref,
                                   tables[0] if active_mods else {})
                if s['out']:
                    raise KeyError('user error')
        except Boom:
            failed = True
        except KeyError:
            pass
        rec.tag('failed' if failed else 'completed')
        ref.layers = {}
        # everything is as it was
        now = ({k: v for k, v in toy.__dict__.items() if k != 'n'},
               dict(vars(toy.Base)), dict(vars(toy.Sub)))
        for a, b, what in zip(pristine, now, ('module', 'Base', 'Sub')):
            assert a.keys() == b.keys(), \
                f'{what}: {set(a) ^ set(b)} appeared or vanished'
            for k in a:
                assert a[k] is b[k] or a[k] == b[k] and not callable(a[k]), \
                    f'{what}.{k} is still wrapped after the session'
        # calls outside of a session reach nobody
        for k in s['calls']:
            try:
                step(c, k, toy, net, ref, {})
            except Boom:
                pass
        check(tables, real, dels, dm)
    if c['copy']:
        for m in [real[1], dm]:
            copy.deepcopy(m)
        pickle.loads(pickle.dumps(real[1]))
    n_src = [e[1] for t in tables for e in t.values()] + \
        [d['src'] for d in dels.values()]
    rec.hit(events > 2 and len(n_src) > 1)
    rec.tag('shared source', len(n_src) > len(set(n_src)))


class Nest:
    """`with` over a list of managers."""

    def __init__(self, mgrs):
        self.mgrs = mgrs

    def __enter__(self):
        for m in self.mgrs:
            m.__enter__()

    def __exit__(self, *a):
        for m in reversed(self.mgrs):
            m.__exit__(*a)


def step(c, k, toy, net, ref, mods):
    if k == 'model':
        x = torch.rand(1, 2)
        want, v = net_records(net, x) if not mods else (None, None)
        if mods:
            # the reference must not run through the hooks
            twin = Net()
            twin.load_state_dict(net.state_dict())
            want, v = net_records(twin, x)
            for e in mods.values():
                if e[0] == 'mod':
                    e[2] += want[e[1]]
            assert torch.equal(net(x), v)
        return 1
    kw = dict(k['kw'])
    method = k['name'] not in FUNCS
    cls = ('Sub' if k['name'] == 'n' else k['cls']) if method else None
    # an inherited method is only observed through the subclass
    fn = getattr(getattr(toy, cls)(), k['name']) if method else \
        getattr(toy, k['name'])
    try:
        want = ref.call(k['name'], k['args'], kw, cls)
        err = None
    except Boom as e:
        want, err = None, str(e)
    except KeyError:
        want, err = None, 'args'
    try:
        got = fn(*k['args'], **kw)
    except (ValueError, AssertionError, TypeError) as e:
        assert err is not None, f'{k}: {type(e).__name__}: {e}'
        word = dict(boom='boom', empty='empty', full='full',
                    args='argument')[err]
        assert word in str(e), f'{k}: {e}, expected {err}'
        raise Boom()
    assert err is None, f'{k}: returned {got}, expected an error ({err})'
    assert got == want, f'{k}: returned {got}, expected {want}'
    return 1


def check(tables, real, dels, dm):
    for t, m in zip(tables, real):
        assert set(m.recorders) == set(t)
        for n, (kind, src, want) in t.items():
            r = m.get_recorder(n)
            assert same(list(r.data_buffer), list(want)), \
                f'recorder {n} ({kind} of {src}): {r.data_buffer}, ' \
                f'expected {want}'
            for i, w in enumerate(want):
                assert r.get_record_data(i) is r.data_buffer[i]
                if isinstance(w, (list, tuple)) and w:
                    j = len(w) - 1
                    assert same(r.get_record_data(i, j), w[j])
                    refuse(AssertionError, r.get_record_data, i, j + 1)
                elif not isinstance(w, (list, tuple)):
                    refuse(TypeError, r.get_record_data, i, 0)
            refuse(AssertionError, r.get_record_data, len(want))
    for n, d in dels.items():
        assert list(dm.deliveries[n].data_queue) == d['q'], \
            f'delivery {n}: queue {list(dm.deliveries[n].data_queue)}, ' \
            f'expected {d["q"]}'


def recorder(cfg):
    m = RecorderManager(cfg)
    m.initialize(Net())
    with m:
        pass


def delivery(cfg):
    with DistillDeliveryManager(cfg):
        pass


def refuse(exc, fn, *a):
    try:
        fn(*a)
    except exc:
        return
    raise RuntimeError(f'{fn.__name__}{a} accepted')


SUBS = [Sub('sessions', case(), run, 2000)]
