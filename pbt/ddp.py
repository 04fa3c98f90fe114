"""A process group of this process alone, for the DDP wrappers."""
import os

_GROUP = [False]


def process_group():
    os.environ['TORCH_CPP_LOG_LEVEL'] = 'ERROR'
    import torch.distributed as dist
    if not _GROUP[0]:
        os.environ['GLOO_SOCKET_IFNAME'] = 'lo'
        dist.init_process_group('gloo', store=dist.HashStore(), rank=0,
                                world_size=1)
        _GROUP[0] = True


def wrapped(cls, module):
    process_group()
    return cls(module=module, find_unused_parameters=True)


class Unfinished(AssertionError):
    """Some rank is still running or died."""


def ranks(n, fn, *args, timeout=75):
    """Results of ``fn(rank, *args)`` on ``n`` forked ranks (gloo)."""
    try:
        return _ranks(n, fn, args, timeout)
    except Unfinished:  # a busy machine? a real deadlock comes again
        return _ranks(n, fn, args, timeout)


def _ranks(n, fn, args, timeout):
    import os as _os
    import pickle
    import shutil
    import tempfile
    import time
    import traceback
    tmp = tempfile.mkdtemp(prefix='pbt_ranks_')
    pids = []
    try:
        for r in range(n):
            pid = _os.fork()
            if pid == 0:
                try:
                    res = _rank(r, n, tmp, fn, args)
                except BaseException as e:
                    res = ('error', f'{type(e).__name__}: {e}\n'
                           f'{traceback.format_exc()}')
                with open(f'{tmp}/out{r}.tmp', 'wb') as f:
                    pickle.dump(res, f)
                _os.rename(f'{tmp}/out{r}.tmp', f'{tmp}/out{r}')
                _os._exit(0)
            pids.append(pid)
        end = time.time() + timeout
        todo = set(pids)
        while todo and time.time() < end:
            for p in list(todo):
                if _os.waitpid(p, _os.WNOHANG)[0]:
                    todo.discard(p)
            time.sleep(.02)
        res = []
        for r in range(n):
            if not _os.path.exists(f'{tmp}/out{r}'):
                raise Unfinished(f'rank {r} did not finish')
            with open(f'{tmp}/out{r}', 'rb') as f:
                res.append(pickle.load(f))
        for r, (kind, v) in enumerate(res):
            if kind == 'error':
                raise AssertionError(f'rank {r}: {v}')
        return [v for _, v in res]
    finally:
        for p in pids:
            try:
                _os.kill(p, 9)
                _os.waitpid(p, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
        shutil.rmtree(tmp)


def _rank(r, n, tmp, fn, args):
    os.environ['TORCH_CPP_LOG_LEVEL'] = 'ERROR'
    os.environ['GLOO_SOCKET_IFNAME'] = 'lo'
    import torch.distributed as dist
    if dist.is_initialized():       # the group of the parent
        # its threads do not exist here: waiting for them would never end
        _GROUP.append(dist.group.WORLD)
        dist.destroy_process_group()
    dist.init_process_group('gloo', store=dist.FileStore(f'{tmp}/store', n),
                            rank=r, world_size=n)
    _GROUP[0] = True
    return 'ok', fn(r, *args)
