"""C11: greedy slimming search and the greedy training sampler."""
import math
import os
import shutil
import tempfile

import torch
import torch.nn as nn
from hypothesis import strategies as st

from mmrazor.engine.runner import (AutoSlimGreedySearchLoop,
                                   GreedySamplerTrainLoop)
from mmrazor.models.task_modules import ResourceEstimator
from mmrazor.structures import Candidates, export_fix_subnet, load_fix_subnet
from checks import c02_channel_graph as g
from pbt.cnn import Net, net_spec
from pbt.core import Sub
from pbt.nas import super_spec
from pbt.search import (LOG, Algo, Crash, Evaluator, Runner, canon, loader,
                        make_algo, rng_get, rng_set, score_of)

PID = 'C11'
RULE = ('greedy search: at least two targets and two slimming steps; sampler: '
        'at least two refills of the training pool; schedule: a point '
        'strictly inside the schedule')
ASSUMPTIONS = ['the smallest subnet meets every target',
               'single process; the metric is a pure function of the subnet',
               'schedule_start_iter < schedule_end_iter, init <= max']
SHAPE = (1, 3, 8, 8)
UNITS = dict(flops='K', params='K')


@st.composite
def case(draw):
    return dict(
        spec=draw(net_spec()), kind='oneshot', mode='number', d=1,
        cands=draw(st.lists(st.integers(1, 8), min_size=2, max_size=4,
                            unique=True)),
        tracer=draw(st.sampled_from(['BackwardTracer', 'FxTracer'])),
        targets=draw(st.lists(st.integers(0, 11), min_size=1, max_size=4)),
        levels=draw(st.sampled_from([2, 10000])),
        crash=draw(st.one_of(st.none(), st.integers(0, 60))),
        seed=draw(st.integers(0, 9999)))


def flops_of(algo, choices, cache):
    k = canon(choices)
    if k not in cache:
        algo.mutator.set_choices(choices)
        _, sub = export_fix_subnet(algo, slice_weight=True)
        cache[k] = ResourceEstimator().estimate(
            sub.architecture, dict(input_shape=SHAPE, units=UNITS))['flops']
    return cache[k]


def simulate(algo, targets, c, cache):
    """Independent greedy search: (choices per target, the scored subnets,
    how many were scored after every slimming step)."""
    units = {u.name: list(u.candidate_choices)
             for u in algo.mutator.mutable_units}
    bins = {n: len(v) - 1 for n, v in units.items()}

    def choices(b):
        return {n: units[n][i] for n, i in b.items()}

    out, scored, steps = [], [], []
    for t in sorted(targets, reverse=True):
        while flops_of(algo, choices(bins), cache) > t:
            best = None
            for n in sorted(bins):
                if bins[n] == 0:
                    continue
                ch = choices(dict(bins, **{n: bins[n] - 1}))
                s = score_of(ch, c['seed'], c['levels'])
                scored.append((canon(ch), s))
                if best is None or s > best[0]:
                    best = (s, n)
            bins[best[1]] -= 1
            steps.append(len(scored))
        out.append((choices(bins), flops_of(algo, choices(bins), cache)))
    return out, scored, steps


def make(c, work, targets, crash=None, resume=None):
    net, mut = g.build(c)
    algo = Algo(net, mut)
    ev = Evaluator(algo, 'acc', c['seed'], c['levels'], crash)
    runner = Runner(algo, work, build_evaluator=lambda e: e)
    loop = AutoSlimGreedySearchLoop(
        runner, loader(), ev, target_flops=tuple(targets), score_key='acc',
        resume_from=resume,
        estimator_cfg=dict(flops_params_cfg=dict(input_shape=SHAPE,
                                                 units=UNITS)))
    return algo, ev, runner, loop


def run(c, rec):
    """The greedy path is the one of the definition; crashes lose nothing."""
    tmp = tempfile.mkdtemp(prefix='vpbt')
    try:
        drive(c, rec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(c, rec, tmp):
    net, mut = g.build(c)
    ref = Algo(net, mut)
    if not mut.mutable_units:
        rec.reject()
    cache = {}
    hi = flops_of(ref, {u.name: max(u.candidate_choices)
                        for u in mut.mutable_units}, cache)
    lo = flops_of(ref, {u.name: min(u.candidate_choices)
                        for u in mut.mutable_units}, cache)
    targets = [lo + (hi - lo) * t / 10 for t in c['targets']]
    want, scored, steps = simulate(ref, targets, c, cache)
    os.mkdir(os.path.join(tmp, 'a'))
    algo, ev, runner, loop = make(c, os.path.join(tmp, 'a'), targets)
    loop.run()
    rec.hit(len(set(targets)) > 1 and len(scored) > 2)
    verify(c, algo, loop, want, targets, os.path.join(tmp, 'a'))
    assert ev.history == scored, 'other subnets were evaluated'
    assert runner.hooks == ['before_test', 'after_test'], runner.hooks
    if c['crash'] is None or not scored:
        return
    at = c['crash'] % len(scored)
    work = os.path.join(tmp, 'b')
    os.mkdir(work)
    a2, ev2, r2, l2 = make(c, work, targets, crash=at)
    try:
        l2.run()
        raise RuntimeError('no crash')
    except Crash:
        pass
    ck = os.path.join(work, 'latest.pkl')
    done = [n for n in steps if n <= at]
    assert os.path.exists(ck) == bool(done), \
        f'{len(done)} steps were done, the checkpoint of the search ' \
        f'{"exists" if not done else "is missing"}'
    if not done:
        rec.tag('crash before the first step')
        return
    rec.tag('resumed')
    a3, ev3, r3, l3 = make(c, work, targets, resume=ck)
    l3.run()
    verify(c, a3, l3, want, targets, work)
    n = len(ev3.history)
    assert n == len(scored) - done[-1], \
        f'{n} subnets evaluated after {done[-1]} of {len(scored)}'
    assert ev3.history == scored[len(scored) - n:], \
        'the resumed search evaluates other subnets'


def verify(c, algo, loop, want, targets, work):
    got = [loop._channel_bins2choices(s) for s in loop.searched_subnet]
    assert len(got) == len(targets), \
        f'{len(got)} subnets for {len(targets)} targets'
    for a, f, (b, fb), t in zip(got, loop.searched_subnet_flops, want,
                                sorted(targets, reverse=True)):
        assert a == b, f'target {t}: subnet {a}, greedy search gives {b}'
        assert f == fb <= t, f'flops {f}, real {fb}, target {t}'
        path = os.path.join(work, 'FLOPS_{:.2f}M.yaml'.format(f))
        assert os.path.exists(path), f'no {path}'
    # files of equal name hold the last subnet with this cost
    last = {'FLOPS_{:.2f}M.yaml'.format(f): b for b, f in want}
    for name, b in last.items():
        net, mut = g.build(c)
        other = Algo(net, mut)
        load_fix_subnet(other, os.path.join(work, name),
                        load_subnet_mode='mutable')
        algo.mutator.set_choices(b)
        _, sub = export_fix_subnet(algo, slice_weight=True)
        same = {k: v.shape for k, v in sub.architecture.state_dict().items()}
        fixed = {k: v.shape for k, v in
                 other.architecture.state_dict().items()}
        assert fixed == same, f'{name} describes another subnet'


@st.composite
def sampler_case(draw):
    spec = draw(super_spec(kinds=('op', 'big', 'depth'), max_blocks=3,
                           max_tail=1))
    return dict(spec=spec, num=draw(st.integers(1, 6)),
                samples=draw(st.integers(1, 4)),
                top_k=draw(st.integers(1, 4)),
                iters=draw(st.integers(1, 10)),
                prob=draw(st.sampled_from([0., .5, 1.])),
                limit=draw(st.booleans()),
                levels=draw(st.sampled_from([3, 10000])),
                seed=draw(st.integers(0, 9999)))


def sampler_loop(c, algo, ev, tmp, **kw):
    runner = Runner(algo, tmp, val_loop=None, optim_wrapper='opt',
                    message_hub=type('H', (), dict(
                        update_info=lambda self, *a: None))())
    args = dict(max_iters=c.get('iters', 5), val_interval=1000,
                score_key='acc', num_candidates=c.get('num', 3),
                num_samples=c.get('samples', 2), top_k=c.get('top_k', 2),
                constraints_range=None)
    args.update(kw)
    return runner, GreedySamplerTrainLoop(runner, loader(12), loader(),
                                          ev, **args)


def run_sampler(c, rec):
    """Every refill trains the top-k of the kept pool, one by one."""
    tmp = tempfile.mkdtemp(prefix='vpbt')
    try:
        algo = make_algo(c['spec'], c['seed'])
        groups = algo.mutator.search_groups
        if not groups:
            rec.reject()
        ev = Evaluator(algo, 'acc', c['seed'], c['levels'], meta=False)
        trained = []

        def train_step(data, optim_wrapper=None):
            assert optim_wrapper == 'opt'
            assert algo.training, 'trained in evaluation mode'
            trained.append(canon(algo.mutator.current_choices))
            return dict(loss=torch.tensor(0.))

        algo.train_step = train_step
        rng = None
        cache = {}
        known = {}
        orig_sample = algo.sample_subnet

        def est(ch):
            if canon(ch) not in cache:
                algo.mutator.set_choices(ch)
                _, sub = export_fix_subnet(algo, slice_weight=True)
                cache[canon(ch)] = ResourceEstimator().estimate(
                    sub.architecture, dict(input_shape=SHAPE, units=UNITS))
            return cache[canon(ch)]

        if c['limit']:
            rng = dict(flops=(0, est(orig_sample())['flops']))
        sampled = []

        def sample(kind='random'):
            # a refill without one legal subnet is outside the domain
            ch = orig_sample(kind)
            for _ in range(200):
                if rng is None or sampled or est(ch)['flops'] <= \
                        rng['flops'][1]:
                    break
                ch = orig_sample(kind)
            else:
                rec.reject()
            sampled.append(canon(ch))
            known[canon(ch)] = ch
            return ch

        algo.sample_subnet = sample
        runner, loop = sampler_loop(
            c, algo, ev, tmp, constraints_range=rng, init_prob=c['prob'],
            max_prob=c['prob'], schedule_start_iter=0, schedule_end_iter=1,
            estimator_cfg=dict(flops_params_cfg=dict(
                input_shape=SHAPE, units=UNITS)))
        refills = []
        upd = loop.update_candidates_scores

        def update():
            pre = [canon(s) for s in loop.candidates.subnets]
            upd()
            refills.append((len(trained), pre, len(sampled)))

        loop.update_candidates_scores = update
        loop.run()
        assert len(trained) == c['iters'] == loop._iter
        for k in trained:
            if rng is not None:
                assert est(known[k])['flops'] <= rng['flops'][1], \
                    f'trained {k}, beyond the constraints'
        # replay every refill
        pool = []
        expect = []
        for i, (at, pre, count) in enumerate(refills):
            assert pre[:len(pool)] == pool, 'kept candidates lost'
            new = pre[len(pool):]
            assert len(new) <= c['samples']
            if rng is None:
                assert len(new) == c['samples']
            drawn = count - (refills[i - 1][2] if i else 0)
            if not pool or c['prob'] == 0.:
                assert drawn == c['samples'], f'refill {i}: {drawn} of ' \
                    f'{c["samples"]} candidates come from the supernet'
            elif c['prob'] == 1.:
                assert drawn == 0, f'refill {i}: {drawn} candidates come ' \
                    'from the supernet with a probability of zero'
            for k in new:
                assert k in sampled, 'a candidate that was never sampled'
            sc = {k: s for k, s in ev.history}
            order = sorted(range(len(pre)), key=lambda j: -sc[pre[j]])
            pool = [pre[j] for j in order][:c['num']]
            top = pool[:c['top_k']]
            assert at == len(expect), \
                f'refill {i} after {at} iterations, expected {len(expect)}'
            expect += top
        assert trained == expect[:len(trained)], \
            f'trained {trained}, expected {expect[:len(trained)]}'
        assert len(trained) > len(expect) - c['top_k'] or len(refills) == 1
        assert os.path.exists(os.path.join(tmp, 'candidates.pkl'))
        from mmengine import fileio
        saved = fileio.load(os.path.join(tmp, 'candidates.pkl'))
        assert isinstance(saved, Candidates) and \
            [canon(s) for s in saved.subnets] == pool
        rec.hit(len(refills) > 1)
        rec.tag('refills', len(refills))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@st.composite
def sched_case(draw):
    lo = draw(st.integers(0, 1000))
    n = draw(st.integers(1, 1000))
    a = draw(st.integers(0, 20)) / 20
    return dict(kind=draw(st.sampled_from(['linear', 'consine'])), start=lo,
                end=lo + n, init=a,
                max=min(1., a + draw(st.integers(0, 20)) / 20),
                its=sorted(draw(st.lists(st.integers(0, 2200), min_size=1,
                                         max_size=6))), seed=0)


class OneUnit(nn.Module):
    pass


def run_sched(c, rec):
    """The probability rises from init to max over the schedule."""
    runner, loop = sampler_loop(
        c, OneUnit(), None, '/nonexistent', prob_schedule=c['kind'],
        schedule_start_iter=c['start'], schedule_end_iter=c['end'],
        init_prob=c['init'], max_prob=c['max'])
    last = -1
    for it in c['its'] + [c['start'], c['end'], (c['start'] + c['end']) // 2]:
        loop.update_cur_prob(it)
        p = loop.cur_prob
        x = min(1, max(0, (it - c['start']) / (c['end'] - c['start'])))
        w = x if c['kind'] == 'linear' else (1 - math.cos(math.pi * x)) / 2
        want = c['init'] + (c['max'] - c['init']) * w
        assert abs(p - want) < 1e-9, \
            f'{c["kind"]} at {it}: {p}, expected {want}'
        rec.hit(0 < x < 1 and c['max'] > c['init'])
    for it in c['its']:
        loop.update_cur_prob(it)
        assert loop.cur_prob >= last - 1e-12, 'the probability falls'
        last = loop.cur_prob


@st.composite
def mix_case(draw):
    spec = draw(super_spec(kinds=('op', 'big', 'depth'), max_blocks=2,
                           max_tail=1))
    return dict(spec=spec, prob=draw(st.integers(0, 20)) / 20,
                pool=draw(st.integers(1, 3)), n=300,
                seed=draw(st.integers(0, 9999)))


def run_mix(c, rec):
    """The pool is drawn from with the scheduled probability."""
    algo = make_algo(c['spec'], c['seed'])
    if not algo.mutator.search_groups:
        rec.reject()
    runner, loop = sampler_loop(
        dict(), algo, None, '/nonexistent', init_prob=c['prob'],
        max_prob=c['prob'], schedule_start_iter=0, schedule_end_iter=1)
    loop.update_cur_prob(5)
    new = []
    algo.sample_subnet = lambda kind='random': new.append(dict(x=len(new))) \
        or new[-1]
    got, n = loop.get_candidates_with_sample(num_samples=5)
    assert n == len(new) == len(got) == 5, \
        'an empty pool, but not every candidate comes from the supernet'
    pool = [dict(old=i) for i in range(c['pool'])]
    loop.candidates = Candidates([dict(p) for p in pool])
    del new[:]
    got, n = loop.get_candidates_with_sample(num_samples=c['n'])
    assert len(got) == c['n']
    assert n == len(new), f'{n} reported, {len(new)} drawn from the supernet'
    kept = [s for s in got.subnets if 'old' in s]
    assert [s for s in got.subnets if 'old' not in s] == new
    assert all(s in pool for s in kept)
    assert len(kept) == c['n'] - n
    p, sd = c['prob'], math.sqrt(c['n'] * c['prob'] * (1 - c['prob']))
    assert abs(len(kept) - c['n'] * p) <= 6 * sd + 1e-9, \
        f'{len(kept)} of {c["n"]} candidates come from the pool, p={p}'
    if len(kept) > 60 * c['pool']:
        assert {s['old'] for s in kept} == set(range(c['pool'])), \
            'a kept candidate is never drawn'
    rec.hit(0 < p < 1)


SUBS = [
    Sub('greedy', case(), run, 80),
    Sub('sampler', sampler_case(), run_sampler, 120),
    Sub('schedule', sched_case(), run_sched, 500),
    Sub('mix', mix_case(), run_mix, 150),
]
