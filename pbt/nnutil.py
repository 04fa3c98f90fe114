"""Helpers shared by the checks: weights, masks, tolerances."""
import torch
import torch.nn as nn


def rand_tensor(shape, seed, scale=1.0):
    g = torch.Generator().manual_seed(int(seed) % (2**31))
    return torch.randn(shape, generator=g, dtype=torch.float32) * scale


def randomize(module, seed):
    """Fill every parameter/buffer with generic values (no zeros, no ties)."""
    g = torch.Generator().manual_seed(int(seed) % (2**31))
    with torch.no_grad():
        for n, p in sorted(module.named_parameters()):
            p.copy_(torch.randn(p.shape, generator=g) * 0.5 + 0.1)
        for n, b in sorted(module.named_buffers()):
            if n.endswith('running_mean'):
                b.copy_(torch.randn(b.shape, generator=g))
            elif n.endswith('running_var'):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
    return module


def close(a, b, rtol=1e-4, atol=1e-4, what=''):
    assert tuple(a.shape) == tuple(b.shape), \
        f'{what}: shape {tuple(a.shape)} vs {tuple(b.shape)}'
    a = a.detach().double()
    b = b.detach().double()
    if a.numel() == 0:
        return
    assert torch.isfinite(a).all() == torch.isfinite(b).all(), \
        f'{what}: finiteness differs'
    scale = max(1.0, float(b.abs().max()))
    d = float((a - b).abs().max())
    assert d <= atol * scale + rtol * scale, \
        f'{what}: max diff {d} (scale {scale})'


def bits(n, m):
    """Non-empty boolean mask of length n decoded from an integer."""
    mask = [(m >> i) & 1 for i in range(n)]
    if not any(mask):
        mask[m % n] = 1
    return torch.tensor(mask).bool()


def snapshot(module):
    return {k: v.detach().clone() for k, v in module.state_dict().items()}


def same_state(a, b, what=''):
    assert a.keys() == b.keys(), \
        f'{what}: keys {sorted(set(a) ^ set(b))[:6]}'
    for k in a:
        assert a[k].shape == b[k].shape and torch.equal(a[k], b[k]), \
            f'{what}: {k} changed'
