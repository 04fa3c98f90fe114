"""A generated CNN as an mmengine model, and the message hub around it."""
import copy

import torch
import torch.nn.functional as F
from mmengine import MessageHub
from mmengine.model import BaseModel

from mmrazor.registry import MODELS
from pbt.cnn import Net
from pbt.nnutil import randomize


@MODELS.register_module(force=True)
class PBTPruneNet(BaseModel):
    """``body`` is the generated network; losses are named for logging."""

    def __init__(self, spec, seed=0, init_cfg=None, data_preprocessor=None):
        super().__init__(init_cfg=init_cfg,
                         data_preprocessor=data_preprocessor)
        self.body = Net(spec)
        randomize(self.body, seed)

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.body(inputs)
        if mode == 'tensor':
            return y
        if mode == 'predict':
            return [y]
        return self.loss_of(y, data_samples)

    @staticmethod
    def loss_of(y, labels):
        ys = y if isinstance(y, tuple) else (y, )
        tot = 0
        for z in ys:
            z = z.flatten(2).mean(2) if z.dim() > 2 else z
            tot = tot + F.cross_entropy(z, labels % z.shape[1])
        return dict(loss=tot)


def net_cfg(spec, seed, **kw):
    return dict(type='PBTPruneNet', spec=copy.deepcopy(spec), seed=seed, **kw)


def hub(**kw):
    h = MessageHub.get_current_instance()
    for k, v in kw.items():
        h.update_info(k, v)


PARSE = dict(type='ChannelAnalyzer', demo_input=(2, 3, 8, 8),
             tracer_type='BackwardTracer')


@MODELS.register_module(force=True)
class PBTBackboneNet(PBTPruneNet):
    """The same with the network under the name ``backbone``."""

    def __init__(self, spec, seed=0, init_cfg=None, data_preprocessor=None):
        super().__init__(spec, seed, init_cfg, data_preprocessor)
        self.backbone = self.body
        del self.body

    def forward(self, inputs, data_samples=None, mode='tensor'):
        y = self.backbone(inputs)
        return y if mode == 'tensor' else self.loss_of(y, data_samples)
