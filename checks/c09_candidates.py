"""C09: the candidate pool is a faithful list of (subnet, resources)."""
import copy
import os
import pickle
import tempfile
from collections import UserList

from hypothesis import strategies as st
from mmengine import fileio

from mmrazor.structures import Candidates
from pbt.core import Sub

PID = 'C09'
RULE = ('a history of at least three operations that modifies a resource or '
        'reorders a pool of at least two candidates')
ASSUMPTIONS = ['a subnet is a non-empty dict of plain (non-dict) choices',
               'scores are read back rounded to two decimals']
IND = ('score', 'flops', 'params', 'latency')

choice = st.one_of(
    st.sampled_from(['conv1', 'a"b', "it's", 'x\ny', '', 'ratio']),
    st.integers(-3, 500), st.sampled_from([0.5, 0.1, 1 / 3, 1e-7, 2.0]),
    st.booleans(), st.none(),
    st.lists(st.sampled_from(['a', 'b']), max_size=2))
key = st.one_of(st.sampled_from(['op_0', 'value_1', 'channel_2', "q'"]),
                st.integers(0, 3))
val = st.sampled_from([0, 0.0, 1, 3.25, 49.9, -1, 99.999, 1e-3, 123456.789,
                       50, 50.004])
op = st.one_of(
    st.tuples(st.just('append'), st.integers(0, 3), st.booleans()),
    st.tuples(st.just('insert'), st.integers(-3, 6), st.integers(0, 3),
              st.booleans()),
    st.tuples(st.just('extend'), st.lists(st.integers(0, 3), max_size=3),
              st.sampled_from(['list', 'cand', 'user', 'one', 'append'])),
    st.tuples(st.just('set'), st.integers(0, 9), val,
              st.sampled_from(IND)),
    st.tuples(st.just('update'), st.integers(0, 5),
              st.lists(st.dictionaries(st.sampled_from(IND), val,
                                       max_size=4), max_size=3)),
    st.tuples(st.just('sort'), st.sampled_from(IND), st.booleans()),
    st.tuples(st.just('top'), st.integers(0, 5)),
    st.tuples(st.just('copy'), st.sampled_from(
        ['deepcopy', 'pickle', 'file', 'ctor'])),
    st.tuples(st.just('pop'), st.integers(0, 9)),
    st.tuples(st.just('bad'), st.sampled_from(['key', 'many', 'empty'])),
)


@st.composite
def case(draw):
    nets = []
    for _ in range(4):
        nets.append(draw(st.lists(st.tuples(key, choice), min_size=1,
                                  max_size=3,
                                  unique_by=lambda t: str(t[0]))))
    res = [draw(st.dictionaries(st.sampled_from(IND), val, max_size=4))
           for _ in range(4)]
    return dict(nets=nets, res=res, init=draw(st.sampled_from(
        ['none', 'one', 'list', 'res', 'user'])),
        ops=draw(st.lists(op, min_size=1, max_size=14)), seed=0)


def run(c, rec):
    nets = [{k: v for k, v in n} for n in c['nets']]
    frozen = copy.deepcopy(nets)

    def raw(i):
        return nets[i]

    def withres(i):
        return {str(nets[i]): dict(c['res'][i])}

    def m_raw(i):
        return [frozen[i], {k: -1 for k in IND}]

    def m_res(i):
        # an empty resource dict still marks the candidate as evaluated
        return [frozen[i], {k: c['res'][i].get(k, 0.) for k in IND}]

    def item(i, r):
        return (withres(i), m_res(i)) if r else (raw(i), m_raw(i))

    if c['init'] == 'none':
        pool, model = Candidates(), []
    elif c['init'] == 'one':
        pool, model = Candidates(raw(0)), [m_raw(0)]
    elif c['init'] == 'list':
        pool, model = Candidates([raw(0), raw(1)]), [m_raw(0), m_raw(1)]
    elif c['init'] == 'res':
        pool, model = Candidates([withres(0), withres(1)]), \
            [m_res(0), m_res(1)]
    else:
        pool, model = Candidates(UserList([raw(1), withres(2)])), \
            [m_raw(1), m_res(2)]

    def check(what):
        assert isinstance(pool, Candidates), what
        assert len(pool) == len(model), \
            f'{what}: {len(pool)} candidates, expected {len(model)}'
        if model:
            assert pool.subnets == [m[0] for m in model], \
                f'{what}: subnets {pool.subnets}'
        else:
            try:
                pool.subnets
                raise RuntimeError('no subnets of an empty pool')
            except AssertionError:
                pass
        assert pool.scores == [round(m[1]['score'], 2) for m in model], \
            f'{what}: scores {pool.scores}'
        for k in IND[1:]:
            assert pool.resources(k) == [m[1][k] for m in model], \
                f'{what}: {k} {pool.resources(k)}'
        assert nets == frozen, f'{what}: a caller dict was modified'

    check('init')
    changed = 0
    for o in c['ops']:
        t = o[0]
        n = len(model)
        if t == 'append':
            a, b = item(o[1], o[2])
            pool.append(a)
            model.append(b)
        elif t == 'insert':
            a, b = item(o[2], o[3])
            pool.insert(o[1], a)
            model.insert(o[1], b)
        elif t == 'extend':
            its = [item(i, i % 2) for i in o[1]]
            if o[2] == 'one':
                its = its[:1]
                if not its:
                    continue
                pool.extend(its[0][0])
            else:
                data = [a for a, _ in its]
                if o[2] == 'cand':
                    data = Candidates(data)
                elif o[2] == 'user':
                    data = UserList(data)
                (pool.append if o[2] == 'append' else pool.extend)(data)
            model.extend([b for _, b in its])
        elif t == 'set' and n:
            if o[3] == 'score' and o[1] % 2:
                pool.set_score(o[1] % n, o[2])
            else:
                pool.set_resource(o[1] % n, o[2], o[3])
            model[o[1] % n][1][o[3]] = o[2]
            changed += 1
        elif t == 'update':
            res = [dict(r) for r in o[2]]
            try:
                pool.update_resources(res, start=o[1])
                ok = True
            except AssertionError:
                ok = False
            assert ok == (o[1] + len(res) <= n), 'update range'
            if ok:
                for i, r in enumerate(res):
                    model[o[1] + i][1].update(r)
                    changed += 1
        elif t == 'sort':
            pool.sort_by(o[1], o[2])
            model.sort(key=lambda m: m[1][o[1]], reverse=o[2])
            changed += n > 1
        elif t == 'top':
            pool.sort_by()
            model.sort(key=lambda m: m[1]['score'], reverse=True)
            pool = Candidates(pool.data[:o[1]]) if o[1] % 2 else pool[:o[1]]
            model = model[:o[1]]
        elif t == 'copy':
            old, before = pool, copy.deepcopy(pool.data)
            if o[1] == 'deepcopy':
                pool = copy.deepcopy(pool)
            elif o[1] == 'pickle':
                pool = pickle.loads(pickle.dumps(pool))
            elif o[1] == 'ctor':
                pool = Candidates(copy.deepcopy(pool))
            else:
                fd, path = tempfile.mkstemp(suffix='.pkl')
                os.close(fd)
                try:
                    fileio.dump(pool, path)
                    pool = fileio.load(path)
                finally:
                    os.unlink(path)
            if n:
                pool.set_resource(0, 77, 'flops')
                model[0][1]['flops'] = 77
            assert old.data == before, 'a copy shares its resources'
        elif t == 'pop' and n:
            got = pool.pop(o[1] % n)
            want = model.pop(o[1] % n)
            assert list(got) == [str(want[0])], got
        elif t == 'bad':
            try:
                if o[1] == 'key':
                    if n == 0:
                        continue
                    pool.set_resource(0, 1, 'memory')
                elif o[1] == 'many':
                    pool.update_resources([{}] * (n + 1))
                else:
                    pool.resources('memory')
                raise RuntimeError(f'accepted {o[1]}')
            except AssertionError:
                pass
        check(f'{o}')
    rec.hit(changed >= 1 and len(c['ops']) >= 3)


SUBS = [Sub('pool', case(), run, 3000)]
