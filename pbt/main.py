import argparse
import importlib
import json
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:] = [p for p in sys.path
               if os.path.abspath(p or '.') != os.path.join(HERE, 'pbt')]
sys.path[:0] = [REPO, HERE, os.path.join(HERE, '.deps')]

from pbt import core  # noqa: E402


def find_module(pid):
    for fn in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if fn.lower().startswith(pid.lower() + '_') and fn.endswith('.py'):
            return importlib.import_module('checks.' + fn[:-3])
    raise SystemExit(2)


def worker(mod, subs, tier, seed, shard, nshards, deadline, path):
    import torch
    torch.set_num_threads(1)
    out = {}
    status = 'ok'
    try:
        for k, sub in enumerate(subs):
            total = sub.quick if tier == 'quick' else sub.thorough
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n == 0:
                continue
            # fair share of the time that is left for the subs that are left
            now = time.time()
            sub_deadline = now + (deadline - now) / max(1, len(subs) - k) * 2
            core.run_sub(sub, n, seed * 7919 + shard * 101 + k,
                         min(deadline, sub_deadline),
                         25 if tier == 'quick' else 90, out)
    except BaseException as e:
        import traceback
        status = 'error: ' + repr(e) + '\n' + traceback.format_exc()
    with open(path, 'w') as f:
        json.dump(dict(status=status, out=out), f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args()
    t0 = time.time()
    tier = args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)
    import mmrazor
    assert os.path.abspath(mmrazor.__file__).startswith(
        os.path.abspath(REPO) + os.sep), mmrazor.__file__
    mod = find_module(args.pid)
    subs = [s for s in mod.SUBS if not args.sub or s.name == args.sub]
    by_name = {s.name: s for s in mod.SUBS}
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)

    if args.replay:
        data = json.load(open(args.replay))
        rec, err = core.execute(by_name[data['sub']], data['case'])
        if err:
            print('FAIL', err)
            print(f'VIOLATION property={mod.PID} replay={args.replay}')
            return 1
        print('replay passes', rec.tags)
        return 0

    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    violations = []

    # 1. recorded findings: reproduce and announce, never count
    n_known = 0
    for k in known.get('findings', []):
        if k['property'] != mod.PID or (args.sub and k['sub'] != args.sub):
            continue
        rec, err = core.execute(by_name[k['sub']], k['case'])
        if err:
            n_known += 1
            print(f'KNOWN-FINDING: property={mod.PID} {k["what"]}')
    # 2. regression corpus: explicit cases that must pass
    n_corpus = 0
    cpath = os.path.join(HERE, 'corpus', mod.PID + '.jsonl')
    if os.path.exists(cpath):
        for line in open(cpath):
            if not line.strip():
                continue
            c = json.loads(line)
            if c['sub'] not in by_name or (args.sub and c['sub'] != args.sub):
                continue
            n_corpus += 1
            rec, err = core.execute(by_name[c['sub']], c['case'])
            if err:
                violations.append((c['sub'], c['case'], err))

    # 3. generated search, sharded over forked workers
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get(
        'VERIF_BUDGET', 420 if tier == 'quick' else 840))
    deadline = t0 + budget
    for s in subs:
        s.quick = max(1, int(s.quick * args.scale))
        s.thorough = max(1, int(s.thorough * args.scale))
    tmp = tempfile.mkdtemp(prefix='vpbt')
    procs = []
    for i in range(jobs):
        path = os.path.join(tmp, f'{i}.json')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                worker(mod, subs, tier, seed, i, jobs, deadline, path)
            finally:
                os._exit(0)
        procs.append((pid, path))
    out = {}
    errors = []
    for pid, path in procs:
        os.waitpid(pid, 0)
        if not os.path.exists(path):
            errors.append('worker died')
            continue
        d = json.load(open(path))
        if d['status'] != 'ok':
            errors.append(d['status'])
        core.merge(out, d['out'])
        os.unlink(path)
    os.rmdir(tmp)

    for name, s in out.items():
        if s['failure']:
            violations.append((name, s['failure']['case'],
                               s['failure']['error']))
    seen = set()
    for name, case, err in violations:
        path = os.path.join(rdir, f'{mod.PID}-{name}.json')
        if name in seen:
            path = path[:-5] + f'-{len(seen)}.json'
        seen.add(name)
        with open(path, 'w') as f:
            json.dump(dict(property=mod.PID, sub=name, case=case, error=err),
                      f, indent=1)
        print(f'sub={name} case={core.canon(case)[:2000]}\n  -> {err}')
        print(f'VIOLATION property={mod.PID} replay={path}')

    samples = []
    for name, s in out.items():
        samples += [dict(sub=name, case=c) for c in s['samples'][:1]]
    ev = dict(
        property=mod.PID, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(s['evaluations'] for s in out.values()),
            distinct_nontrivial=sum(
                len(s['nontrivial']) for s in out.values()),
            rule=mod.RULE,
            samples=samples,
            corpus_cases=n_corpus,
            known_findings_reproduced=n_known,
            per_sub={n: dict(evaluations=s['evaluations'],
                             distinct_nontrivial=len(s['nontrivial']),
                             rejected=s['rejected'],
                             skipped_on_time=s['skipped'], tags=s['tags'])
                     for n, s in out.items()}),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', mod.PID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, s in out.items():
        print(f"  {n}: {s['evaluations']} cases, {len(s['nontrivial'])} "
              f"distinct non-trivial, rejected {s['rejected']}, skipped "
              f"{s['skipped']}, tags {s['tags']}")
    print(f'{mod.PID} {tier} seed={seed} wall={ev["wall_s"]}s '
          f'violations={len(violations)}')
    if violations:
        return 1
    if errors:
        print('harness error:', errors[0])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
