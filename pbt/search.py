"""Stubs to run the search loops on generated supernets."""
import json
import logging
import random
import zlib
from types import SimpleNamespace

import numpy as np
import torch
import torch.nn as nn
from torch.utils.data import DataLoader, Dataset

from mmrazor.models.mutators import NasMutator
from pbt.nas import Super
from pbt.nnutil import randomize

LOG = logging.getLogger('pbt.quiet')
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LOG.setLevel(logging.CRITICAL)


class Data(Dataset):
    metainfo = dict(classes=['a'])

    def __init__(self, n=2):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return torch.full((1, ), float(i))


def canon(choices):
    return json.dumps({str(k): str(v) for k, v in choices.items()},
                      sort_keys=True)


def score_of(choices, salt=0, levels=100):
    """Deterministic score with two decimals; few levels give ties."""
    h = zlib.crc32((canon(choices) + str(salt)).encode())
    return round((h % levels) * 99.99 / levels, 2)


class Crash(Exception):
    pass


class Evaluator:
    """Scores whatever the model is currently set to; records the history."""

    def __init__(self, algo, key, salt, levels=100, crash_at=None,
                 meta=True):
        self.algo, self.key, self.salt = algo, key, salt
        self.levels, self.crash_at = levels, crash_at
        self.history = []
        self.seen = []
        self.meta = meta
        self.dataset_meta = None

    def process(self, data_samples=None, data_batch=None, **kw):
        ch = canon(self.algo.mutator.current_choices)
        self.seen.append((ch, data_batch.item()))
        assert data_samples == [data_batch], 'outputs of another batch'

    def evaluate(self, n):
        seen, self.seen = self.seen, []
        ch = canon(self.algo.mutator.current_choices)
        assert seen == [(ch, float(i)) for i in range(n)], \
            f'scored from {seen} instead of the {n} validation samples'
        assert not self.meta or self.dataset_meta == Data.metainfo, \
            'metainfo of the dataset'
        if self.crash_at is not None and len(self.history) == self.crash_at:
            raise Crash()
        ch = self.algo.mutator.current_choices
        s = score_of(ch, self.salt, self.levels)
        self.history.append((canon(ch), s))
        return {self.key: s, 'other/metric': -1.0}


class Algo(nn.Module):
    """What the loops see: an architecture and its mutator."""

    def __init__(self, net, mutator):
        super().__init__()
        self.architecture = net
        self.mutator = mutator
        self.steps = 0

    def forward(self, x):
        return self.architecture(x)

    def val_step(self, data):
        assert not self.training, 'validated in training mode'
        self.steps += 1
        return [data]

    def sample_subnet(self, kind='random'):
        return self.mutator.sample_choices(kind)

    def set_subnet(self, subnet):
        self.mutator.set_choices(subnet)


def make_algo(spec, seed, custom=None):
    net = Super(spec)
    mut = NasMutator(custom_groups=custom)
    mut.prepare_from_supernet(net)
    randomize(net, seed)
    return Algo(net, mut)


class Runner(SimpleNamespace):

    def __init__(self, algo, work_dir, **kw):
        super().__init__(
            model=algo, work_dir=work_dir, distributed=False, rank=0,
            logger=LOG, hooks=[], train_dataloader=None, seed=0,
            visualizer=SimpleNamespace(dataset_meta=None), **kw)

    def call_hook(self, name, **kw):
        self.hooks.append(name)


def loader(n=2):
    return DataLoader(Data(n), batch_size=1)


def rng_get():
    return (random.getstate(), np.random.get_state(), torch.get_rng_state())


def rng_set(s):
    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2])
