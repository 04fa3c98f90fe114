"""Random CNNs: a small node language, the module that runs it, and an
independent reading of its channel dependencies.

A spec is ``dict(cin, size, nodes=[...], outs=[...])``.  Node ``i`` produces
value ``i+1`` (value 0 is the input).  Every value is either a map
``(C, S, S)`` or a vector ``(C,)``.
"""
import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st


class Net(nn.Module):

    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        for i, n in enumerate(spec['nodes']):
            op = n['op']
            if op == 'conv':
                k, kw = n['k'], n.get('kw', n['k'])
                m = nn.Conv2d(n['cin'], n['c'], (k, kw), stride=n['s'],
                              padding=(k // 2, kw // 2), groups=n['g'],
                              bias=n['bias'])
            elif op == 'bn':
                m = nn.BatchNorm2d(n['c'])
            elif op == 'gn':
                m = nn.GroupNorm(n['g'], n['c'])
            elif op == 'relu' and n['mod']:
                m = nn.ReLU()
            elif op == 'prelu':
                m = nn.PReLU(n['c'])
            elif op == 'maxpool':
                m = nn.MaxPool2d(3, stride=n['s'], padding=1)
            elif op == 'avgpool':
                m = nn.AvgPool2d(3, stride=n['s'], padding=1)
            elif op == 'gap':
                m = nn.AdaptiveAvgPool2d(n['o'])
            elif op == 'linear':
                m = nn.Linear(n['cin'], n['c'], bias=n['bias'])
            else:
                continue
            self.add_module(f'n{i}', m)

    def op(self, i, n, xs):
        op = n['op']
        if op == 'reuse':
            return getattr(self, f'n{n["of"]}')(xs[0])
        if op == 'relu' and not n['mod']:
            return F.relu(xs[0])
        if op == 'add':
            return xs[0] + xs[1] if n['form'] else torch.add(xs[0], xs[1])
        if op == 'mul':
            return xs[0] * xs[1]
        if op == 'gate':
            return xs[0] * xs[1].sigmoid()
        if op == 'cat':
            return torch.cat(xs, dim=1)
        if op == 'flatten':
            return xs[0].flatten(1)
        return getattr(self, f'n{i}')(xs[0])

    def forward(self, x):
        vals = [x]
        for i, n in enumerate(self.spec['nodes']):
            vals.append(self.op(i, n, [vals[j] for j in n['x']]))
        outs = [vals[j] for j in self.spec['outs']]
        return outs[0] if len(outs) == 1 else tuple(outs)


class UF:

    def __init__(self):
        self.p = {}

    def find(self, a):
        self.p.setdefault(a, a)
        while self.p[a] != a:
            self.p[a] = self.p[self.p[a]]
            a = self.p[a]
        return a

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[a] = b


def module_of(i, n):
    return n['of'] if n['op'] == 'reuse' else i


def analyse(spec):
    """Channel dependencies by definition, one union-find element per channel.

    Returns (uf, vals, produced) where vals[v] lists the element of every
    channel of value v, and produced[i] the out elements of module node i.
    """
    uf = UF()
    nodes = spec['nodes']
    vals = [[('in', k) for k in range(spec['cin'])]]
    for k in range(spec['cin']):
        uf.union(('in', k), 'FIX')
    for i, n in enumerate(nodes):
        src = [vals[j] for j in n['x']]
        mi = module_of(i, n)
        mn = nodes[mi]
        op = mn['op']
        if op in ('conv', 'linear'):
            cin, c, g = mn['cin'], mn['c'], mn.get('g', 1)
            ins = [('i', mi, k) for k in range(cin)]
            outs = [('o', mi, k) for k in range(c)]
            for a, b in zip(src[0], ins):  # one weight slice per module
                uf.union(a, b)
            if g > 1 and g == cin == c:
                for a, b in zip(ins, outs):
                    uf.union(a, b)
            elif g > 1:
                for tab, per in ((ins, cin // g), (outs, c // g)):
                    for k in range(len(tab)):
                        uf.union(tab[k], tab[k % per])
            vals.append(outs)
        elif op in ('bn', 'gn'):
            ins = [('i', mi, k) for k in range(mn['c'])]
            for a, b in zip(src[0], ins):
                uf.union(a, b)
            if op == 'gn':
                per = mn['c'] // mn['g']
                for k in range(mn['c']):
                    uf.union(ins[k], ins[k % per])
            vals.append(ins)
        elif op == 'prelu':  # its parameters cannot be cut
            for a in src[0]:
                uf.union(a, 'FIX')
            vals.append(src[0])
        elif op in ('add', 'mul', 'gate'):
            for a, b in zip(*src):
                uf.union(a, b)
            vals.append(src[0])
        elif op == 'cat':
            vals.append([e for s in src for e in s])
        elif op == 'flatten':
            vals.append([e for e in src[0] for _ in range(n['rep'])])
        else:
            vals.append(src[0])
    for o in spec['outs']:
        for e in vals[o]:
            uf.union(e, 'FIX')
    return uf, vals


def expected_free(spec):
    """(module node, channel) pairs whose channels touch no input/output."""
    uf, vals = analyse(spec)
    fix = uf.find('FIX')
    free = set()
    for i, n in enumerate(spec['nodes']):
        if n['op'] in ('conv', 'linear'):
            for k in range(n['c']):
                if uf.find(('o', i, k)) != fix:
                    free.add((i, k))
    return free


@st.composite
def net_spec(draw, max_nodes=9, heads=('linear', 'conv', 'two'),
             reuse=True, gw=True, cat=True, gn=False, widths=(4, 6, 8),
             branches=True, bn=False, opaque=False, rect=False):
    cin, size = 3, 8
    nodes = []
    shp = [('m', cin, size)]
    used = [0]

    def add(op, x, shape, **kw):
        nodes.append(dict(op=op, x=list(x), **kw))
        for j in x:
            used[j] += 1
        shp.append(shape)
        used.append(0)
        return len(nodes)

    def conv(x, c=None, s=1, g=1, k=None, bias=None):
        _, ci, sz = shp[x]
        c = c or draw(st.sampled_from(widths))
        k = k or draw(st.sampled_from([1, 3]))
        if bias is None:
            bias = draw(st.booleans())
        kw = dict(kw=draw(st.sampled_from([1, 3]))) if rect else {}
        return add('conv', [x], ('m', c, (sz + s - 1) // s), cin=ci, c=c, k=k,
                   s=s, g=g, bias=bias, **kw)

    def tail(v):
        """Optional bn / activation behind a conv."""
        t = draw(st.integers(0, 3)) | bn
        if t & 1:
            v = add('bn', [v], shp[v], c=shp[v][1])
        if t & 2:
            v = add('relu', [v], shp[v], mod=draw(st.booleans()))
        return v

    def pick(kind='m', also=lambda s: True, low=0):
        c = [j for j in range(low, len(shp)) if shp[j][0] == kind
             and also(shp[j])]
        if not c:
            return None
        # favour recent and unused values so the graph stays connected
        return draw(st.sampled_from(c[-4:] + [j for j in c if not used[j]]))

    def ancestors(v):
        out, todo = set(), [v]
        while todo:
            j = todo.pop()
            if j and j not in out:
                out.add(j)
                n = nodes[j - 1]
                todo += n['x'] + ([n['of'] + 1] if n['op'] == 'reuse' else [])
                todo += [i + 1 for i, m in enumerate(nodes)
                         if m['op'] == 'reuse' and m['of'] == j - 1]
        return out

    def roots(v):
        """Values from which ``v`` takes its channels directly."""
        out, todo = set(), [v]
        while todo:
            j = todo.pop()
            out.add(j)
            n = nodes[j - 1]
            if n['op'] == 'reuse':
                out.add(n['of'] + 1)
            elif j and not (n['op'] in ('conv', 'linear') and n['g'] == 1):
                todo += n['x']
        return out

    v = tail(conv(0))
    ops = ['conv', 'conv', 'dw', 'add', 'resid', 'pool', 'gate', 'mul', 'par']
    if gw:
        ops.append('gw')
    if cat:
        ops += ['cat', 'cat2']
    if reuse:
        ops.append('reuse')
    if gn:
        ops.append('gn')
    if opaque:
        ops.append('prelu')
    n = draw(st.integers(1, max_nodes))
    for _ in range(n):
        op = draw(st.sampled_from(ops))
        x = pick(low=1)
        _, c, sz = shp[x]
        if op == 'conv':
            tail(conv(x, s=draw(st.sampled_from([1, 1, 2])) if sz > 2 else 1))
        elif op == 'dw':
            tail(conv(x, c=c, g=c, k=3))
        elif op == 'gw' and c % 2 == 0:
            tail(conv(x, g=2, c=draw(st.sampled_from(
                [w for w in widths if w % 2 == 0]))))
        elif op == 'pool':
            s = draw(st.sampled_from([1, 2])) if sz > 2 else 1
            add(draw(st.sampled_from(['maxpool', 'avgpool'])), [x],
                ('m', c, (sz + s - 1) // s), s=s)
        elif op == 'resid':
            y = tail(conv(x, c=c))
            add('add', [x, y], shp[x], form=draw(st.booleans()))
        elif op == 'par':
            a, b = conv(x), None
            b = conv(x, c=shp[a][1])
            add('add', [a, b], shp[a], form=draw(st.booleans()))
        elif op in ('add', 'mul'):
            y = pick(also=lambda s: s == shp[x], low=1)
            if y is not None and y != x:
                kw = dict(form=draw(st.booleans())) if op == 'add' else {}
                add(op, [x, y], shp[x], **kw)
        elif op == 'cat':
            y = pick(also=lambda s: s[2] == sz, low=1)
            if y is not None and not (roots(x) & roots(y)) and c + shp[y][1] <= 24:
                add('cat', [x, y], ('m', c + shp[y][1], sz))
        elif op == 'cat2' and c <= 10:
            a = conv(x, c=4)
            b = conv(x, c=8)
            d = conv(x, c=draw(st.sampled_from([4, 8])))
            e = conv(x, c=12 - shp[d][1])
            p = add('cat', [a, b], ('m', 12, sz))
            q = add('cat', [d, e], ('m', 12, sz))
            add('add', [p, q], ('m', 12, sz), form=draw(st.booleans()))
        elif op == 'gate':
            g = add('gap', [x], ('m', c, 1), o=1)
            g = conv(g, k=1)
            g = add('relu', [g], shp[g], mod=draw(st.booleans()))
            g = conv(g, c=c, k=1)
            add('gate', [x, g], shp[x])
        elif op == 'reuse':
            cv = [j for j, m in enumerate(nodes) if m['op'] == 'conv'
                  and m['s'] == 1 and m['cin'] == c
                  and j + 1 not in ancestors(x)]
            if cv:
                j = draw(st.sampled_from(cv))
                add('reuse', [x], ('m', nodes[j]['c'], sz), of=j)
        elif op == 'prelu':
            add('prelu', [x], shp[x], c=c)
        elif op == 'gn' and c % 2 == 0:
            add('gn', [x], shp[x], c=c, g=2)
    # join every dangling value into the head so that everything matters
    dang = [j for j in range(1, len(shp)) if not used[j]]
    head = draw(st.sampled_from(heads))
    feats = []
    for j in dang:
        if len(dang) > 1 or head != 'linear':
            feats.append(j)
    outs = []
    if head == 'conv':
        for j in dang[:-1]:
            outs.append(conv(j, c=4, k=1))
        outs.append(conv(dang[-1], c=5, k=1))
    else:
        vecs = []
        for j in dang:
            o = draw(st.sampled_from([1, 1, 2])) if shp[j][2] > 1 else 1
            g = add('gap', [j], ('m', shp[j][1], o), o=o)
            vecs.append(add('flatten', [g], ('v', shp[j][1] * o * o, 1),
                            rep=o * o))
        lin = []
        for w in vecs:
            if draw(st.booleans()):
                w = add('linear', [w], ('v', 6, 1), cin=shp[w][1], c=6,
                        bias=draw(st.booleans()))
                w = add('relu', [w], shp[w], mod=draw(st.booleans()))
            lin.append(w)
        hid = [add('linear', [w], ('v', 7, 1), cin=shp[w][1], c=7,
                   bias=draw(st.booleans())) for w in lin]
        w = hid[0]
        for z in hid[1:]:
            w = add('add', [w, z], shp[w], form=draw(st.booleans()))
        if head == 'two':
            outs.append(w)
            w = add('relu', [lin[0]], shp[lin[0]], mod=False)
        if draw(st.booleans()) or head == 'two':
            w = add('linear', [w], ('v', 5, 1), cin=shp[w][1], c=5,
                    bias=draw(st.booleans()))
        outs.append(w)
    return dict(cin=cin, size=size, nodes=nodes, outs=outs)
