"""Run something in a forked child, e.g. a script that changes the process."""
import os
import pickle
import shutil
import signal
import tempfile
import time
import traceback


class Unfinished(AssertionError):
    pass


def forked(fn, *args, timeout=120):
    """``fn(*args)`` of a child; what it raises is raised as an assertion."""
    tmp = tempfile.mkdtemp(prefix='pbt_fork_')
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = 'ok', fn(*args)
            except BaseException as e:
                res = 'error', (f'{type(e).__name__}: {e}\n'
                                f'{traceback.format_exc()}')
            with open(f'{tmp}/out.tmp', 'wb') as f:
                pickle.dump(res, f)
            os.rename(f'{tmp}/out.tmp', f'{tmp}/out')
        finally:
            os._exit(0)
    try:
        end = time.time() + timeout
        while not os.waitpid(pid, os.WNOHANG)[0]:
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Unfinished(f'still running after {timeout} s')
            time.sleep(.01)
        if not os.path.exists(f'{tmp}/out'):
            raise AssertionError('the child died')
        with open(f'{tmp}/out', 'rb') as f:
            kind, res = pickle.load(f)
        if kind == 'error':
            raise AssertionError(res)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
