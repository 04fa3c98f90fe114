"""Property-based runner: generated cases, explicit oracles, shrinking, replay.

A check module exposes ``PID``, ``SUBS`` (list of :class:`Sub`), ``RULE`` and
``ASSUMPTIONS``.  Each Sub couples a hypothesis strategy producing a JSON-able
``case`` with ``run(case, rec)`` which drives the real code and asserts against
an oracle.  ``run`` must be a pure function of the code and the case.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class StopSearch(BaseException):
    """Leave the hypothesis loop (shrink budget used up)."""


class Rec:
    """What a case did: tags, non-triviality, rejections."""

    def __init__(self):
        self.tags = {}
        self.nontrivial = False
        self.rejected = False

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True

    def reject(self, why='rejected'):
        raise Rejected(why)


class Rejected(Exception):
    pass


class Sub:

    def __init__(self, name, strategy, run, quick, thorough=None, doc=''):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.doc = doc or (run.__doc__ or '').strip()


def seed_all(n):
    import numpy as np
    import torch
    n = int(n) % (2**31 - 1)
    random.seed(n)
    np.random.seed(n)
    torch.manual_seed(n)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def _quiet():
    return contextlib.ExitStack()


def execute(sub, case):
    """Run one case; returns (rec, error-or-None)."""
    rec = Rec()
    seed_all(case.get('seed', 0) if isinstance(case, dict) else 0)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            sub.run(case, rec)
    except Rejected:
        rec.rejected = True
        return rec, None
    except Exception as e:  # any escape from the oracle is a failure
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
                            for f in reversed(tb[-4:]))
        return rec, f'{type(e).__name__}: {str(e)[:1500]} [{where}]'
    return rec, None


def run_sub(sub, n, seed, deadline, shrink_s, out):
    """Drive one sub-check for n examples.  Mutates ``out``."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    st = out.setdefault(
        sub.name, dict(evaluations=0, nontrivial=[], tags={}, samples=[],
                       rejected=0, skipped=0, failure=None))
    seen = set()
    fails = []
    t_fail = [None]

    def body(case):
        now = time.time()
        if t_fail[0] is not None and now - t_fail[0] > shrink_s:
            raise StopSearch()
        if t_fail[0] is None and now > deadline:
            st['skipped'] += 1
            if st['skipped'] > 50:
                raise StopSearch()
            return
        key = canon(case)
        case = json.loads(key)  # replay sees exactly what the search saw
        rec, err = execute(sub, case)
        if t_fail[0] is None:
            st['evaluations'] += 1
            if rec.rejected:
                st['rejected'] += 1
            for k, v in rec.tags.items():
                st['tags'][k] = st['tags'].get(k, 0) + v
            if rec.nontrivial:
                h = hashlib.blake2b(key.encode(), digest_size=8).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(st['samples']) < 3 and len(key) < 1500:
                        st['samples'].append(case)
        if err is not None:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            fails.append((len(key), key, err))
            raise AssertionError(err)

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=max(1, n), database=None, deadline=None,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.explicit, Phase.generate, Phase.shrink))(test)
    test = hseed(seed)(test)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            test()
    except StopSearch:
        pass
    except BaseException as e:
        if not fails:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            raise RuntimeError(f'harness error in {sub.name}: {e!r}') from e
    st['nontrivial'] = sorted(seen)
    if fails:
        _, key, err = min(fails)
        st['failure'] = dict(case=json.loads(key), error=err)


def merge(dst, src):
    for name, s in src.items():
        d = dst.setdefault(
            name, dict(evaluations=0, nontrivial=[], tags={}, samples=[],
                       rejected=0, skipped=0, failure=None))
        for k in ('evaluations', 'rejected', 'skipped'):
            d[k] += s[k]
        d['nontrivial'] = sorted(set(d['nontrivial']) | set(s['nontrivial']))
        for k, v in s['tags'].items():
            d['tags'][k] = d['tags'].get(k, 0) + v
        d['samples'] = (d['samples'] + s['samples'])[:3]
        f, g = d['failure'], s['failure']
        if g and (not f or len(canon(g['case'])) < len(canon(f['case']))):
            d['failure'] = g
