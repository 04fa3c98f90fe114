"""C26: the metric predictor encodes subnets consistently and losslessly."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from mmrazor.models.task_modules.predictor import MetricPredictor
from mmrazor.models.task_modules.predictor.handler.base_handler import \
    BaseHandler
from mmrazor.registry import TASK_UTILS
from mmrazor.structures import export_fix_subnet
from pbt.core import Sub
from pbt.nas import super_spec
from pbt.search import canon, make_algo, score_of

PID = 'C26'
RULE = ('a search space with at least two groups and at least two different '
        'subnets encoded')
ASSUMPTIONS = ['every group has at least one module found by name or alias']


@TASK_UTILS.register_module(force=True)
class PbtHandler(BaseHandler):
    """Memorises the training set; predicts by exact lookup."""

    def __init__(self):
        self.model = None

    def fit(self, x, y):
        assert len(x) == len(y)
        self.model = {tuple(int(i) for i in r): float(v)
                      for r, v in zip(x, y)}

    def predict(self, x):
        assert x.ndim == 2
        return np.array([[self.model[tuple(int(i) for i in r)]] for r in x])


@st.composite
def case(draw):
    spec = draw(super_spec(kinds=('op', 'big', 'depth'), max_blocks=5))
    return dict(spec=spec, enc=draw(st.sampled_from(['onehot', 'normal'])),
                handler=draw(st.sampled_from(['lookup', 'lookup', 'lookup',
                                              'carts', 'mlp'])),
                n=draw(st.integers(2, 8)), seed=draw(st.integers(0, 9999)))


def handler(kind):
    return dict(lookup=dict(type='PbtHandler'),
                carts=dict(type='CartsHandler', num_trees=5),
                mlp=dict(type='MLPHandler', epochs=2,
                         model_cfg=dict(hidden_features=8)))[kind]

def run(c, rec):
    algo = make_algo(c['spec'], c['seed'])
    groups = algo.mutator.search_groups
    if not groups:
        rec.reject()

    def make():
        return MetricPredictor(
            handler_cfg=handler(c['handler']), search_groups=groups,
            train_samples=c['n'], encoding_type=c['enc'], score_key='acc')

    pred = make()
    subs = {}
    for _ in range(c['n'] + 2):
        s = algo.mutator.sample_choices()
        subs.setdefault(canon(s), s)
    subs = list(subs.values())
    vecs = [pred.model2vector(s) for s in subs]
    sizes = {g: len(ms[0].candidate_choices
                    if hasattr(ms[0], 'candidate_choices')
                    else ms[0].choices) for g, ms in groups.items()}
    for s, v in zip(subs, vecs):
        nv, ov = v['normal_vector'], v['onehot_vector']
        assert len(nv) == len(groups) and len(ov) == sum(sizes.values())
        start = 0
        for g, i in zip(groups, nv):
            part = list(ov[start:start + sizes[g]])
            assert part == [int(k == i) for k in range(sizes[g])], \
                'one-hot code of a choice is not one-hot'
            start += sizes[g]
        # the key order of a subnet is not part of the subnet
        data = pred.preprocess([v])
        assert data.shape == (1, len(ov) if c['enc'] == 'onehot'
                              else len(nv))
        if data.size > 1:
            back = pred.vector2model(data)
            assert back == s, f'{s} decoded as {back}'
    keys = {tuple(v['onehot_vector']) for v in vecs}
    assert len(keys) == len(subs), 'two subnets share one code'
    rec.hit(len(groups) > 1 and len(subs) > 1)
    try:
        pred.predict(algo)
        raise RuntimeError('predicted before the fit')
    except AssertionError:
        pass
    labels = np.array([score_of(s, c['seed']) for s in subs])
    pred.fit(np.array(vecs), labels)
    assert pred.initialize
    got = []
    for s, v in zip(subs, vecs):
        algo.mutator.set_choices(s)
        out = pred.predict(algo)
        assert set(out) == {'acc'}, out
        assert canon(algo.mutator.current_choices) == canon(s)
        # the prediction for a network is that of its training code
        want = float(np.squeeze(pred.handler.predict(pred.preprocess([v]))))
        assert abs(out['acc'] - want) < 1e-6, \
            f'{s}: predicted {out["acc"]}, its code gives {want}'
        got.append(out['acc'])
    if c['handler'] == 'lookup':
        assert np.allclose(got, labels)
    if c['handler'] == 'carts':
        assert min(labels) - 1e-6 <= min(got) and \
            max(got) <= max(labels) + 1e-6
    tmp = tempfile.mkdtemp(prefix='vpbt')
    try:
        path = pred.save_checkpoint(os.path.join(tmp, 'predictor'))
        assert os.path.exists(path)
        twin = make()
        twin.handler_ckpt = path
        twin.load_checkpoint()
        for s, w in zip(subs, got):
            algo.mutator.set_choices(s)
            assert abs(twin.predict(algo)['acc'] - w) < 1e-6, \
                'a loaded predictor predicts something else'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SUBS = [Sub('predictor', case(), run, 400)]
