"""C10: evolutionary search keeps the best legal subnets, and resumes."""
import copy
import os
import pickle
import random
import shutil
import tempfile
import zlib

import numpy as np
import torch
import yaml
from hypothesis import strategies as st

from mmrazor.engine.runner import EvolutionSearchLoop
from mmrazor.engine.runner.utils import crossover
from mmrazor.models.task_modules import ResourceEstimator
from mmrazor.models.task_modules.predictor.handler.base_handler import \
    BaseHandler
from mmrazor.registry import TASK_UTILS
from mmrazor.structures import Candidates, export_fix_subnet, load_fix_subnet
from pbt import ddp
from pbt.core import Sub
from pbt.nas import Super, super_spec
from pbt.nnutil import close, rand_tensor, randomize
from pbt.search import (Algo, Crash, Evaluator, Runner, canon, loader,
                        make_algo, rng_get, rng_set, score_of)

PID = 'C10'
RULE = ('at least two epochs over a supernet with at least three different '
        'subnets, with a constraint that excludes some subnet or a resume')
ASSUMPTIONS = ['the constraints admit at least one subnet',
               'the metric is a pure function of the subnet']
SHAPE = (1, 3, 6, 6)
UNITS = dict(flops='K', params='K', latency='ms')


@st.composite
def case(draw):
    spec = draw(super_spec(kinds=('op', 'nest', 'big', 'depth'),
                           max_blocks=3, max_tail=2))
    mut, cro = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    return dict(
        spec=spec, epochs=draw(st.integers(1, 4)), mutation=mut,
        crossover=cro, num=max(1, mut + cro + draw(st.integers(0, 2))),
        top_k=draw(st.integers(1, 4)),
        mprob=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])),
        cprob=draw(st.sampled_from([0.0, 0.5, 1.0])),
        keep=draw(st.sampled_from([1, 2, 3, -1])),
        limit=draw(st.sampled_from(['none', 'flops', 'params', 'both',
                                    'upper'])),
        init=draw(st.booleans()),
        levels=draw(st.sampled_from([3, 10000])),
        resume=draw(st.sampled_from(['no', 'ckpt', 'crash'])),
        at=draw(st.integers(0, 40)), seed=draw(st.integers(0, 9999)))


def estimate(algo, choices, cache):
    k = canon(choices)
    if k not in cache:
        algo.mutator.set_choices(choices)
        _, sub = export_fix_subnet(algo, slice_weight=True)
        cache[k] = ResourceEstimator().estimate(
            sub.architecture, dict(input_shape=SHAPE, units=UNITS))
    return cache[k]


def limits(c, algo, cache):
    if c['limit'] == 'none':
        return None
    a = estimate(algo, algo.mutator.sample_choices(), cache)
    b = estimate(algo, algo.mutator.sample_choices(), cache)
    r = {k: tuple(sorted((a[k], b[k]))) for k in ('flops', 'params')}
    if c['limit'] == 'both':
        # both limits must admit one common subnet
        return {k: (0, v[1]) if a[k] < b[k] else (0, a[k])
                for k, v in r.items()}
    if c['limit'] == 'upper':
        return dict(flops=r['flops'][1])
    return {c['limit']: r[c['limit']]}


def build(c, work, rng, crash_at=None, resume=None, init=None):
    algo = make_algo(c['spec'], c['seed'])
    ev = Evaluator(algo, 'acc', c['seed'], c['levels'], crash_at)
    runner = Runner(algo, work)
    return algo, ev, runner, build_loop(c, runner, ev, rng, resume, init)


def build_loop(c, runner, ev, rng, resume, init):
    return EvolutionSearchLoop(
        runner, loader(), ev, max_epochs=c['epochs'],
        max_keep_ckpts=c['keep'], resume_from=resume,
        num_candidates=c['num'], top_k=c['top_k'],
        num_mutation=c['mutation'], num_crossover=c['crossover'],
        mutate_prob=c['mprob'], crossover_prob=c['cprob'],
        constraints_range=rng, score_key='acc', init_candidates=init,
        estimator_cfg=dict(flops_params_cfg=dict(input_shape=SHAPE,
                                                 units=UNITS)))


def run(c, rec):
    tmp = tempfile.mkdtemp(prefix='vpbt')
    try:
        drive(c, rec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def inside(res, rng):
    for k, v in (rng or {}).items():
        lo, hi = v if isinstance(v, (tuple, list)) else (0, v)
        if not lo <= res[k] <= hi:
            return False
    return True


def drive(c, rec, tmp):
    ref = make_algo(c['spec'], c['seed'])
    cache = {}
    legal = {n: set(map(str, ms[0].choices if hasattr(ms[0], 'choices')
                        else ms[0].candidate_choices))
             for n, ms in ref.mutator.search_groups.items()}
    if not legal:
        rec.reject()
    rng = limits(c, ref, cache)
    init = None
    if c['init']:
        pool = Candidates()
        for _ in range(20):
            ch = ref.mutator.sample_choices()
            if rng is None or inside(estimate(ref, ch, cache), rng):
                pool.append(ch)
                if rng is not None:
                    pool.update_resources([estimate(ref, ch, cache)],
                                          len(pool) - 1)
                if len(pool) >= min(2, c['num']):
                    break
        init = os.path.join(tmp, 'init.pkl')
        with open(init, 'wb') as f:
            pickle.dump(pool, f)
    work = os.path.join(tmp, 'a')
    os.mkdir(work)
    algo, ev, runner, loop = build(c, work, rng, init=init)
    saves = {}
    orig_save, orig_epoch = loop._save_searcher_ckpt, loop.run_epoch
    orig_mut, orig_cro = loop._mutation, loop._crossover
    everything = []  # (key, score) of all candidates scored, per epoch

    def legal_subnet(ch):
        assert set(ch) == set(legal), f'groups {set(ch) ^ set(legal)}'
        for k, v in ch.items():
            assert str(v) in legal[k], f'{k}: illegal choice {v}'

    def mutation():
        top = [canon(s) for s in loop.top_k_candidates.subnets]
        out = orig_mut()
        legal_subnet(out)
        if c['mprob'] == 0:
            assert canon(out) in top, 'a mutation without mutations'
        return out

    def cross():
        top = loop.top_k_candidates.subnets
        out = orig_cro()
        legal_subnet(out)
        ok = any(all(out[k] in (a[k], b[k]) for k in out)
                 for a in top for b in top)
        assert ok, 'a crossover child of no two parents'
        if c['cprob'] in (0, 1):
            assert out in top, 'a crossover child mixed at probability 0 or 1'
        return out

    def epoch():
        n0 = len(ev.history)
        before = copy.deepcopy(loop.top_k_candidates.data)
        orig_epoch()
        mine = ev.history[n0:]
        assert len(mine) == c['num'], \
            f'{len(mine)} candidates evaluated, configured {c["num"]}'
        everything.extend(mine)
        top = loop.top_k_candidates
        subs = top.subnets
        want = sorted((s for _, s in everything), reverse=True)[:c['top_k']]
        assert top.scores == want, \
            f'top-k scores {top.scores}, best seen {want}'
        res_f, res_p = top.resources('flops'), top.resources('params')
        for s, sc, f, p in zip(subs, top.scores, res_f, res_p):
            legal_subnet(s)
            assert (canon(s), sc) in everything, 'unknown elite'
            if rng is not None:
                r = estimate(ref, s, cache)
                assert (f, p) == (r['flops'], r['params']), \
                    f'recorded resources {(f, p)}, real {r}'
        kids = loop.candidates
        assert len(kids) <= c['mutation'] + c['crossover']
        if rng is None:
            assert len(kids) == c['mutation'] + c['crossover']
        if len(kids):
            for s, f, p in zip(kids.subnets, kids.resources('flops'),
                               kids.resources('params')):
                legal_subnet(s)
                if rng is not None:
                    r = estimate(ref, s, cache)
                    assert inside(r, rng), f'{s} violates {rng}: {r}'
                    assert (f, p) == (r['flops'], r['params'])
        del before

    def save():
        orig_save()
        e = loop._epoch
        path = os.path.join(work, f'search_epoch_{e}.pkl')
        keep = os.path.join(tmp, f'keep_{e}.pkl')
        shutil.copy(path, keep)
        saves[e] = (keep, rng_get(), len(ev.history))
        have = sorted(int(f[13:-4]) for f in os.listdir(work)
                      if f.startswith('search_epoch_'))
        lo = 1 if c['keep'] < 1 else max(1, e - c['keep'] + 1)
        assert have == list(range(lo, e + 1)), \
            f'checkpoints {have} after epoch {e}, keep {c["keep"]}'

    loop._save_searcher_ckpt, loop.run_epoch = save, epoch
    loop._mutation, loop._crossover = mutation, cross
    loop.run()
    assert loop._epoch == c['epochs']
    kept = sorted(int(f[13:-4]) for f in os.listdir(work)
                  if f.startswith('search_epoch_'))
    assert kept and kept[-1] == c['epochs'] and \
        len(kept) == (min(c['keep'], c['epochs']) if c['keep'] > 0
                      else c['epochs']), \
        f'checkpoints {kept} after {c["epochs"]} epochs'
    assert sorted(saves) == list(range(1, c['epochs'] + 1))
    assert runner.hooks[0] == 'before_train' and \
        runner.hooks[-1] == 'after_train'
    for k, s in ev.history:
        # every evaluated candidate satisfied the constraints
        if rng is not None and k in cache:
            assert inside(cache[k], rng), f'{k} violates {rng}'
    if rng is not None:
        bad = [r for r in cache.values() if not inside(r, rng)]
        rec.hit(bool(bad) and c['epochs'] > 1)
        rec.tag('excluding', bool(bad))
    best = loop.top_k_candidates.subnets[0]
    final(c, algo, work, best, ev)
    done = [e for e in saves if e < c['epochs']]
    if c['resume'] == 'no' or not done:
        return
    if c['resume'] == 'ckpt':
        e = done[c['at'] % len(done)]
    else:
        # crash in the middle of some later epoch: its checkpoint is missing
        first = saves[done[0]][2]
        at = first + c['at'] % max(1, len(ev.history) - first)
        work2 = os.path.join(tmp, 'b')
        os.mkdir(work2)
        # same random stream as the first run: only the crash differs
        a2, ev2, r2, l2 = build(c, work2, rng, crash_at=at, init=init)
        keep2 = {}
        o2 = l2._save_searcher_ckpt

        def save2():
            o2()
            keep2[l2._epoch] = rng_get()
        l2._save_searcher_ckpt = save2
        try:
            l2.run()
            raise RuntimeError('no crash')
        except Crash:
            pass
        files = sorted(int(f[13:-4]) for f in os.listdir(work2)
                       if f.startswith('search_epoch_'))
        assert files, 'no checkpoint survives the crash'
        e = files[-1]
        assert e == at // c['num'], \
            f'checkpoint {e} is the last, {at // c["num"]} epochs were done'
        saves = {e: (os.path.join(work2, f'search_epoch_{e}.pkl'),
                     keep2[e], len(ev2.history))}
    path, state, n0 = saves[e]
    work3 = os.path.join(tmp, 'c')
    os.mkdir(work3)
    a3, ev3, r3, l3 = build(c, work3, rng, resume=path)
    with open(path, 'rb') as f:
        stored = pickle.load(f)
    rng_set(state)
    l3.run()
    rec.hit(c['epochs'] > 1)
    rec.tag('resumed')
    assert l3._epoch == c['epochs'], \
        f'resumed at {e}, stopped after epoch {l3._epoch} of {c["epochs"]}'
    assert len(ev3.history) == (c['epochs'] - e) * c['num'], \
        'wrong number of evaluations after the resume'
    assert stored['_epoch'] == e
    top3 = l3.top_k_candidates
    have = sorted([s for _, s in ev3.history] +
                  list(stored['top_k_candidates'].scores), reverse=True)
    assert top3.scores == have[:c['top_k']], 'elite lost by the resume'
    if c['resume'] == 'ckpt':
        assert top3.data == loop.top_k_candidates.data, \
            'the resumed search ends elsewhere'
        assert l3.candidates.data == loop.candidates.data
        assert ev3.history == ev.history[n0:], 'different evaluations'
    final(c, a3, work3, top3.subnets[0], ev3)


def final(c, algo, work, best, ev):
    """The saved best subnet is the top elite, in a loadable form."""
    files = os.listdir(work)
    ck = [f for f in files if f.startswith('subnet_') and f.endswith('.pth')]
    assert len(ck) == 1 and 'best_fix_subnet.yaml' in files, files
    algo.eval()
    algo.mutator.set_choices(best)
    x = rand_tensor((2, 3, 6, 6), c['seed'] + 5)
    with torch.no_grad():
        want = algo(x)
    twin = Algo(Super(c['spec']), None)
    load_fix_subnet(twin, os.path.join(work, 'best_fix_subnet.yaml'))
    sd = torch.load(os.path.join(work, ck[0]))['state_dict']
    sd = {k: v for k, v in sd.items() if k.startswith('architecture.')}
    twin.load_state_dict(sd)
    twin.eval()
    with torch.no_grad():
        close(twin(x), want, what='saved best subnet')


class Wrapped(torch.nn.Module):
    """A distributed wrapper without gradients to synchronize."""

    def __init__(self, module):
        super().__init__()
        self.module = module

    def val_step(self, data):
        return self.module.val_step(data)


@st.composite
def ranks_case(draw):
    c = draw(case())
    return dict(c, epochs=draw(st.integers(1, 3)), keep=-1,
                num=max(c['num'], 2), world=draw(st.sampled_from([2, 2, 3])))


def one_rank(rank, c, rng, init, tmp, resume):
    rngs = c['seed'] + 100 * rank   # each rank draws on its own
    random.seed(rngs)
    np.random.seed(rngs)
    torch.manual_seed(rngs)
    work = os.path.join(tmp, f'{"b" if resume else "a"}{rank}')
    os.mkdir(work)
    algo = make_algo(c['spec'], c['seed'])
    ev = Evaluator(algo, 'acc', c['seed'], c['levels'])
    runner = Runner(Wrapped(algo), work)
    runner.distributed, runner.rank = True, rank
    loop = build_loop(c, runner, ev, rng, resume, init)
    loop.run()
    return (ev.history, loop.top_k_candidates.scores,
            [canon(s) for s in loop.top_k_candidates.subnets],
            loop._epoch, sorted(os.listdir(work)))


def run_ranks(c, rec):
    """All processes score the same candidates, one of them writes; all of
    them resume and end together."""
    tmp = tempfile.mkdtemp(prefix='vpbt')
    try:
        ref = make_algo(c['spec'], c['seed'])
        if not ref.mutator.search_groups:
            rec.reject()
        cache = {}
        rng = limits(c, ref, cache)
        res = ddp.ranks(c['world'], one_rank, c, rng, None, tmp, None,
                        timeout=40)
        runs = [('search', res, 0)]
        if c['resume'] != 'no' and c['epochs'] > 1:
            e = 1 + c['at'] % (c['epochs'] - 1)
            path = os.path.join(tmp, 'a0', f'search_epoch_{e}.pkl')
            res2 = ddp.ranks(c['world'], one_rank, c, rng, None, tmp, path,
                             timeout=40)
            runs.append(('resumed search', res2, e))
            rec.tag('resumed')
        for what, res, e in runs:
            ev, scores, subs, epoch, files = res[0]
            assert epoch == c['epochs'], f'{what} stops at epoch {epoch}'
            assert len(ev) == (c['epochs'] - e) * c['num']
            assert 'best_fix_subnet.yaml' in files
            for k in range(e + 1, c['epochs'] + 1):
                assert f'search_epoch_{k}.pkl' in files
            for r in res[1:]:
                assert r[0] == ev, f'{what}: ranks score other candidates'
                assert r[1:4] == (scores, subs, epoch), \
                    f'{what}: ranks keep other elites'
                assert not r[4], f'{what}: another rank writes {r[4]}'
        rec.hit(c['epochs'] > 1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def cross_case(draw):
    n = draw(st.integers(1, 40))
    return dict(n=n, p=draw(st.sampled_from([0, 0.0, 0.1, 0.5, 0.9, 1, 1.0,
                                             -0.1, 1.1])),
                same=draw(st.integers(0, 40)),
                seed=draw(st.integers(0, 99999)))


def run_cross(c, rec):
    """Genes come from a parent; probabilities 0 and 1 are exact."""
    a = {f'g{i}': ['a', i] for i in range(c['n'])}
    b = {f'g{i}': ['a' if i < c['same'] else 'b', i] for i in range(c['n'])}
    ka, kb = copy.deepcopy(a), copy.deepcopy(b)
    if not 0 <= c['p'] <= 1:
        try:
            crossover(a, b, c['p'])
        except AssertionError:
            return
        raise RuntimeError('illegal probability accepted')
    tot, n = 0, 0
    for _ in range(30):
        out = crossover(a, b, c['p'])
        assert list(out) == list(a), 'groups changed'
        for k in a:
            assert out[k] in (a[k], b[k])
            if a[k] != b[k]:
                n += 1
                tot += out[k] == b[k]
        if c['p'] == 0:
            assert out == a
        if c['p'] == 1:
            assert out == b
        out['g0'] = 'changed'
        assert a == ka and b == kb, 'crossover modified a parent'
    if n:
        sd = np.sqrt(max(c['p'] * (1 - c['p']), 1e-9) / n)
        assert abs(tot / n - c['p']) <= 8 * sd + 1e-9, \
            f'{tot}/{n} genes of the second parent at probability {c["p"]}'
        rec.hit(0 < c['p'] < 1)


@st.composite
def genes_case(draw):
    n = draw(st.integers(2, 7))
    return dict(
        blocks=[draw(st.sampled_from([['c1', 'c3'], ['c1', 'c3', 'id']]))
                for _ in range(n)],
        mprob=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])),
        cprob=draw(st.sampled_from([0.0, 0.3, 0.5, 1.0])),
        top_k=draw(st.integers(2, 4)), seed=draw(st.integers(0, 9999)))


def run_genes(c, rec):
    """Mutation redraws each gene of an elite with the mutation probability,
    crossover takes each from the second parent with its own."""
    spec = dict(blocks=[dict(t='op', cands=b, alias=None)
                        for b in c['blocks']], tail=[], expand=0)
    algo = make_algo(spec, c['seed'])
    ev = Evaluator(algo, 'acc', c['seed'])
    N = 300
    loop = EvolutionSearchLoop(
        Runner(algo, '/nonexistent'), loader(), ev, max_epochs=1,
        num_candidates=2 * N, top_k=c['top_k'], num_mutation=N,
        num_crossover=N, mutate_prob=c['mprob'], crossover_prob=c['cprob'],
        constraints_range=None, score_key='acc')
    names = list(algo.mutator.search_groups)
    rec.hit(len(names) > 2)
    a = algo.mutator.sample_choices()
    opt = {n: list(algo.mutator.search_groups[n][0].choices) for n in names}
    # every gene of the second parent differs
    b = {n: opt[n][(opt[n].index(a[n]) + 1) % len(opt[n])] for n in names}
    loop.top_k_candidates = Candidates([dict(a)])
    kids = loop.gen_mutation_candidates().subnets
    assert len(kids) == N
    changed = np.array([[k[n] != a[n] for n in names] for k in kids])
    p = c['mprob'] * np.array([1 - 1 / len(opt[n]) for n in names])
    within(changed.mean(0), p, N, f'mutated genes at {c["mprob"]}')
    loop.top_k_candidates = Candidates([dict(a), dict(b)])
    kids = loop.gen_crossover_candidates().subnets
    assert len(kids) == N
    own = np.array([[k[n] == a[n] for n in names] for k in kids])
    assert all(k[n] in (a[n], b[n]) for k in kids for n in names)
    within(own.mean(0), .5 * np.ones(len(names)), N,
           'genes of the first elite')
    if len(names) > 1:
        # both parents are drawn at random: half of the pairs differ
        diff = np.array([o[0] != o[1] for o in own])
        within(np.array([diff.mean()]),
               np.array([c['cprob'] * (1 - c['cprob'])]), N,
               f'mixed children at {c["cprob"]}')


def within(got, p, n, what):
    sd = np.sqrt(p * (1 - p) / n)
    exact = (p == 0) | (p == 1)
    assert (np.abs(got - p) <= np.where(exact, 0, 6 * sd + 3 / n)).all(), \
        f'{what}: {got}, expected {p}'


@TASK_UTILS.register_module(force=True)
class C10Handler(BaseHandler):
    """Predicts a pure function of the encoding; remembers its use."""

    def __init__(self):
        self.model = dict(salt=0)
        self.fits, self.calls, self.loaded = [], [], []

    def fit(self, x, y):
        self.fits.append((np.array(x).tolist(), np.array(y).tolist()))

    def predict(self, x):
        x = np.array(x)
        assert x.ndim == 2 and len(x) == 1
        self.calls.append(x[0].tolist())
        return np.array([[table(x[0], self.model['salt'])]])


def table(vec, salt):
    h = zlib.crc32(str([int(v) for v in vec] + [salt]).encode())
    return (h % 10000) / 100.


@st.composite
def pred_case(draw):
    c = draw(case())
    return dict(c, epochs=draw(st.integers(1, 3)), keep=-1,
                how=draw(st.sampled_from(['train', 'file', 'ckpt'])),
                enc=draw(st.sampled_from(['onehot', 'normal'])),
                samples=draw(st.integers(1, 6)))


def run_pred(c, rec):
    """A search judged by a predictor: trained on really evaluated legal
    subnets, or given; from then on it alone scores the candidates."""
    tmp = tempfile.mkdtemp(prefix='vpbt')
    try:
        drive_pred(c, rec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive_pred(c, rec, tmp):
    ref = make_algo(c['spec'], c['seed'])
    groups = ref.mutator.search_groups
    if not groups:
        rec.reject()
    cache = {}
    rng = limits(c, ref, cache)

    def encode(ch):
        vec = []
        for name, ms in groups.items():
            options = list(ms[0].choices if hasattr(ms[0], 'choices')
                           else ms[0].candidate_choices)
            i = [str(o) for o in options].index(str(ch[name]))
            vec += [i] if c['enc'] == 'normal' else \
                [int(j == i) for j in range(len(options))]
        return vec
    algo = make_algo(c['spec'], c['seed'])
    ev = Evaluator(algo, 'acc', c['seed'], c['levels'])
    runner = Runner(algo, tmp)
    cfg = dict(type='MetricPredictor', handler_cfg=dict(type='C10Handler'),
               encoding_type=c['enc'], train_samples=c['samples'])
    salt = 0
    given = Candidates()
    if c['how'] == 'ckpt':
        h = C10Handler()
        h.model = dict(salt=7)
        cfg['handler_ckpt'] = h.save(os.path.join(tmp, 'given'))
        salt = 7
    elif c['how'] == 'file':
        for i in range(c['samples']):
            given.append(ref.mutator.sample_choices())
            given.set_resource(i, i * 1.25, 'score')
        cfg['train_samples'] = os.path.join(tmp, 'samples.pkl')
        with open(cfg['train_samples'], 'wb') as f:
            pickle.dump(dict(subnets=given), f)
    loop = EvolutionSearchLoop(
        runner, loader(), ev, max_epochs=c['epochs'], max_keep_ckpts=-1,
        num_candidates=c['num'], top_k=c['top_k'],
        num_mutation=c['mutation'], num_crossover=c['crossover'],
        mutate_prob=c['mprob'], crossover_prob=c['cprob'],
        constraints_range=rng, score_key='acc', predictor_cfg=cfg,
        estimator_cfg=dict(flops_params_cfg=dict(input_shape=SHAPE,
                                                 units=UNITS)))
    pools = []
    orig = loop.update_candidates_scores

    def update():
        orig()
        pools.append(copy.deepcopy(loop.candidates))
    loop.update_candidates_scores = update
    loop.run()
    h = loop.predictor.handler
    if c['how'] == 'train':
        first, pools = pools[0], pools[1:]
        assert len(ev.history) == len(first) == c['samples'], \
            f'{len(ev.history)} subnets evaluated to train the predictor'
        train = first
        for s, sc, (k, v) in zip(first.subnets, first.scores, ev.history):
            assert canon(s) == k and abs(sc - v) < .006
    else:
        assert not ev.history, 'subnets were evaluated despite the predictor'
        train = given
    if c['how'] == 'ckpt':
        assert not h.fits, 'a loaded predictor was trained again'
        assert h.model == dict(salt=7), 'the checkpoint was not loaded'
    else:
        assert len(h.fits) == 1
        x, y = h.fits[0]
        assert x == [encode(s) for s in train.subnets], \
            'the predictor learns other subnets than the samples'
        assert np.allclose(y, train.scores), \
            'the predictor learns other scores than the samples'
        assert os.path.isfile(os.path.join(tmp, 'predictor_c10handler.pth')) \
            or [f for f in os.listdir(tmp) if f.startswith('predictor')], \
            'the trained predictor was not saved'
    assert len(pools) == c['epochs']
    seen = []
    for pool in pools:
        assert len(pool) == c['num'], \
            f'{len(pool)} candidates in an epoch, configured {c["num"]}'
        for s, sc in zip(pool.subnets, pool.scores):
            want = table(encode(s), salt)
            assert abs(sc - want) < .006, \
                f'candidate scored {sc}, the predictor says {want}'
            seen.append(sc)
            if rng is not None:
                assert inside(estimate(ref, s, cache), rng)
    assert len(h.calls) == c['epochs'] * c['num']
    top = loop.top_k_candidates
    assert top.scores == sorted(seen, reverse=True)[:c['top_k']], \
        f'elite {top.scores}, best predicted {sorted(seen)[::-1]}'
    final(c, algo, tmp, top.subnets[0], ev)
    rec.hit(c['epochs'] > 1 or c['how'] == 'train')
    rec.tag(c['how'])


SUBS = [
    Sub('search', case(), run, 200),
    Sub('predictor', pred_case(), run_pred, 100),
    Sub('genes', genes_case(), run_genes, 60),
    Sub('ranks', ranks_case(), run_ranks, 40),
    Sub('crossover', cross_case(), run_cross, 400),
]
