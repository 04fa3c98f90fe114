#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not a check).

collect PID...          run generated cases of the checks, remember per case
                        which lines of mmrazor it executed
uncovered FILE...       lines of functions never executed by any case
run FILE... [--max N]   mutate covered lines of the files and replay the cases
                        that cover them; prints the mutants that survive
Run with the environment of run.sh.  Data lives in $MUT_DIR (/tmp/mut).
"""
import argparse
import ast
import copy
import importlib
import json
import os
import pickle
import random
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DIR = os.environ.get('MUT_DIR', '/tmp/mut')
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') !=
               os.path.join(HERE, 'meta')]
sys.path[:0] = [REPO, HERE, os.path.join(HERE, '.deps')]


def quiet():
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)


def find_module(pid):
    for fn in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if fn.lower().startswith(pid.lower() + '_') and fn.endswith('.py'):
            return importlib.import_module('checks.' + fn[:-3])
    raise SystemExit(2)


# ---------------------------------------------------------------- collect
def collect(pid, scale, cap):
    quiet()
    import mmrazor.models  # noqa
    from pbt import core
    mod = find_module(pid)
    prefix = os.path.join(REPO, 'mmrazor') + os.sep
    mon = sys.monitoring
    TOOL = 3
    procs = []
    for shard in range(8):
        path = f'{DIR}/{pid}.{shard}.tmp'
        p = os.fork()
        if p:
            procs.append((p, path))
            continue
        try:
            res = []
            mon.use_tool_id(TOOL, 'mut')
            cur = set()

            def line(code, n):
                if code.co_filename.startswith(prefix):
                    cur.add((code.co_filename[len(prefix):], n))
                return mon.DISABLE

            mon.register_callback(TOOL, mon.events.LINE, line)
            for k, sub in enumerate(mod.SUBS):
                n = min(cap, max(8, int(sub.quick * scale))) // 8 + 1
                orig = core.execute

                def ex(s, case):
                    cur.clear()
                    mon.set_events(TOOL, mon.events.LINE)
                    mon.restart_events()
                    t = time.time()
                    rec, err = orig(s, case)
                    t = time.time() - t
                    mon.set_events(TOOL, 0)
                    if err is None and not rec.rejected:
                        res.append((pid, s.name, case, t, set(cur)))
                    elif err:
                        res.append((pid, s.name, case, t, None))
                    return rec, err

                core.execute = ex
                out = {}
                core.run_sub(sub, n, 7777 + shard * 31 + k,
                             time.time() + 100, 1, out)
                core.execute = orig
            pickle.dump(res, open(path, 'wb'))
        except BaseException as e:
            import traceback
            traceback.print_exc()
            print('collect', pid, repr(e)[:300])
        finally:
            os._exit(0)
    allres = []
    for p, path in procs:
        os.waitpid(p, 0)
        if os.path.exists(path):
            allres += pickle.load(open(path, 'rb'))
            os.unlink(path)
    bad = [r for r in allres if r[4] is None]
    allres = [r for r in allres if r[4] is not None]
    pickle.dump(allres, open(f'{DIR}/{pid}.pkl', 'wb'))
    print(pid, len(allres), 'cases', 'FAILING' if bad else '',
          sum(r[3] for r in allres), 's')


# ---------------------------------------------------------------- mutants
SWAP_CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
            ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
            ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
            ast.NotIn: ast.In}
SWAP_BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
            ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add,
            ast.Pow: ast.Mult}
UNWRAP_FN = {'deepcopy', 'list', 'sorted', 'set', 'abs', 'int', 'round',
             'reversed', 'tuple', 'dict', 'copy', 'float', 'sum', 'max',
             'min'}
UNWRAP_M = {'detach', 'clone', 'eval', 'train', 'float', 'contiguous',
            'copy', 'abs', 'sqrt', 'exp', 'log', 'mean', 'sum', 'item',
            'cpu', 'bool', 'long', 'int', 'flatten', 't', 'squeeze',
            'sigmoid', 'softmax'}


def mutants(tree):
    """yield (line, description, mutated-unparsed source)"""
    parents = {}
    for node in ast.walk(tree):
        for c in ast.iter_child_nodes(node):
            parents[c] = node
    infn = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for c in node.body:
                infn |= set(ast.walk(c))
    skip = set()
    for node in infn:
        if isinstance(node, (ast.Raise, ast.Assert)):
            # only the condition of an assert matters
            for c in ast.walk(node):
                skip.add(c)
            if isinstance(node, ast.Assert):
                for c in ast.walk(node.test):
                    skip.discard(c)
        if isinstance(node, (ast.JoinedStr, )):
            skip |= set(ast.walk(node))
        if isinstance(node, ast.Call):
            f = node.func
            nm = getattr(f, 'id', getattr(f, 'attr', ''))
            if nm in ('warn', 'info', 'warning', 'print', 'debug', 'log',
                      'print_log'):
                skip |= set(ast.walk(node))
        if isinstance(node, ast.arg) and node.annotation:
            skip |= set(ast.walk(node.annotation))
        if isinstance(node, ast.AnnAssign):
            skip |= set(ast.walk(node.annotation))

    def emit(node, field, new, desc):
        old = getattr(node, field)
        setattr(node, field, new)
        try:
            src = ast.unparse(ast.fix_missing_locations(tree))
        finally:
            setattr(node, field, old)
        return node_line(node), desc, src

    def node_line(n):
        return n.lineno

    def stmt_line(n):
        while not isinstance(n, ast.stmt):
            n = parents[n]
        return n.lineno

    def replace(node, new, desc):
        par = parents[node]
        for f, v in ast.iter_fields(par):
            if v is node:
                l, d, s = None, desc, None
                setattr(par, f, new)
                s = ast.unparse(ast.fix_missing_locations(tree))
                setattr(par, f, node)
                return node.lineno, desc, s
            if isinstance(v, list) and any(x is node for x in v):
                i = [x is node for x in v].index(True)
                v[i] = new
                s = ast.unparse(ast.fix_missing_locations(tree))
                v[i] = node
                return node.lineno, desc, s
        raise AssertionError

    def u(n):
        return ast.unparse(n)[:90].replace('\n', ' ')

    for node in list(ast.walk(tree)):
        if node not in infn or node in skip:
            continue
        if isinstance(node, ast.Compare):
            op = type(node.ops[0])
            if op in SWAP_CMP:
                yield emit(node, 'ops', [SWAP_CMP[op]()] + node.ops[1:],
                           f'`{u(node)}` {op.__name__} -> '
                           f'{SWAP_CMP[op].__name__}')
        elif isinstance(node, ast.BinOp) and type(node.op) in SWAP_BIN:
            if isinstance(node.left, ast.Constant) and isinstance(
                    node.left.value, str):
                continue
            new = SWAP_BIN[type(node.op)]
            yield emit(node, 'op', new(),
                       f'`{u(node)}` -> {new.__name__}')
        elif isinstance(node, ast.BoolOp):
            new = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield emit(node, 'op', new(), f'`{u(node)}` -> {new.__name__}')
            for i, v in enumerate(node.values):
                rest = node.values[:i] + node.values[i + 1:]
                yield replace(node, rest[0] if len(rest) == 1 else ast.BoolOp(
                    op=node.op, values=rest), f'`{u(node)}` drop `{u(v)}`')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op,
                                                          (ast.Not,
                                                           ast.USub)):
            yield replace(node, node.operand, f'`{u(node)}` unary removed')
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield emit(node, 'value', not v,
                           f'const {v} in `{u(parents[node])}`')
            elif isinstance(v, int):
                yield emit(node, 'value', v + 1,
                           f'const {v}+1 in `{u(parents[node])}`')
            elif isinstance(v, float):
                yield emit(node, 'value', v * 2 + 0.1,
                           f'const {v} in `{u(parents[node])}`')
        elif isinstance(node, ast.If):
            yield emit(node, 'test',
                       ast.UnaryOp(op=ast.Not(), operand=node.test),
                       f'if negated `{u(node.test)}`')
        elif isinstance(node, ast.IfExp):
            l, d, s = emit(node, 'test',
                           ast.UnaryOp(op=ast.Not(), operand=node.test),
                           f'ifexp negated `{u(node.test)}`')
            yield l, d, s
        elif isinstance(node, (ast.Expr, ast.AugAssign, ast.Delete)):
            if isinstance(node, ast.Expr) and not isinstance(
                    node.value, (ast.Call, ast.Yield)):
                continue
            yield replace(node, ast.Pass(), f'deleted `{u(node)}`')
        elif isinstance(node, ast.Assign):
            if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
                yield replace(node, ast.Pass(), f'deleted `{u(node)}`')
        elif isinstance(node, ast.Break):
            yield replace(node, ast.Pass(), 'deleted break')
        elif isinstance(node, ast.Continue):
            yield replace(node, ast.Pass(), 'deleted continue')
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, (ast.Name, ast.Attribute)):
                nm = f.id if isinstance(f, ast.Name) else f.attr
                if nm in UNWRAP_FN and len(node.args) >= 1 and not isinstance(
                        node.args[0], (ast.GeneratorExp, ast.Starred)):
                    yield replace(node, node.args[0], f'unwrapped `{u(node)}`')
                elif isinstance(f, ast.Attribute) and nm in UNWRAP_M:
                    yield replace(node, f.value, f'unwrapped `{u(node)}`')
                if nm in ('max', 'min'):
                    g = 'min' if nm == 'max' else 'max'
                    nf = ast.Name(id=g, ctx=ast.Load()) if isinstance(
                        f, ast.Name) else ast.Attribute(
                            value=f.value, attr=g, ctx=ast.Load())
                    yield emit(node, 'func', nf, f'`{u(node)}` -> {g}')
                if nm in ('any', 'all'):
                    g = 'any' if nm == 'all' else 'all'
                    if isinstance(f, ast.Name):
                        yield emit(node, 'func',
                                   ast.Name(id=g, ctx=ast.Load()),
                                   f'`{u(node)}` -> {g}')
            for i, k in enumerate(node.keywords):
                if k.arg:
                    yield emit(node, 'keywords',
                               node.keywords[:i] + node.keywords[i + 1:],
                               f'`{u(node)}` drop {k.arg}=')
            if len(node.args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in node.args) and not (
                        isinstance(f, ast.Name) and f.id in (
                            'isinstance', 'getattr', 'hasattr', 'max',
                            'min')):
                yield emit(node, 'args', node.args[::-1],
                           f'`{u(node)}` args swapped')
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                yield emit_slice(node, 'lower', tree, parents)
            if node.upper is not None:
                yield emit_slice(node, 'upper', tree, parents)
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                               ast.DictComp)):
            g = node.generators[0]
            if g.ifs:
                ifs = g.ifs
                g.ifs = []
                s = ast.unparse(ast.fix_missing_locations(tree))
                g.ifs = ifs
                yield node.lineno, f'comp filter dropped `{u(node)}`', s
        elif isinstance(node, ast.Return) and node.value is not None:
            if isinstance(node.value, (ast.Compare, ast.BoolOp)):
                yield emit(node, 'value', ast.Constant(value=True),
                           f'`{u(node)}` -> True')


def emit_slice(node, field, tree, parents):
    old = getattr(node, field)
    setattr(node, field, None)
    s = ast.unparse(ast.fix_missing_locations(tree))
    setattr(node, field, old)
    return (old.lineno, f'slice {field} dropped `'
            f'{ast.unparse(parents[node])[:80]}`', s)


def spans(tree):
    """line -> the lines of the innermost statement that contain it"""
    out = {}
    for node in ast.walk(tree):
        if isinstance(node, ast.stmt):
            if isinstance(node, (ast.If, ast.While)):
                hi = node.test.end_lineno
            elif isinstance(node, ast.For):
                hi = node.iter.end_lineno
            elif isinstance(node, ast.With):
                hi = node.items[-1].context_expr.end_lineno
            elif hasattr(node, 'body'):
                continue
            else:
                hi = node.end_lineno
            for l in range(node.lineno, hi + 1):
                out.setdefault(l, set()).update(range(node.lineno, hi + 1))
    return out


def load_cases():
    cases = []
    for fn in sorted(os.listdir(DIR)):
        if fn.endswith('.pkl'):
            cases += pickle.load(open(os.path.join(DIR, fn), 'rb'))
    return cases


def anchors():
    out = {}
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        fs = set(d['anchors']['files']) | {
            m['where'].split(':')[0] for m in d['anchors']['mechanism']}
        out[d['id']] = {f.replace('mmrazor/', '', 1) for f in fs}
    return out


def preload():
    quiet()
    import torch  # noqa
    import mmcv  # noqa
    import mmcls.models  # noqa
    import mmdet.models  # noqa
    import mmseg.models  # noqa
    import mmengine.runner  # noqa
    import hypothesis.strategies  # noqa
    try:
        import mmpose.models  # noqa
        import mmdet.datasets, mmcls.datasets  # noqa
    except Exception:
        pass
    import matplotlib  # noqa
    import scipy.optimize, sklearn  # noqa
    for m in list(sys.modules):
        assert not m.startswith('mmrazor'), m


def child(path, src, picks, out, limit, setup=None):
    """import mmrazor with the mutated source and replay the cases"""
    import importlib.machinery as im
    orig = im.SourceFileLoader.get_code

    def get_code(self, fullname):
        if src is not None and self.path == path:
            return compile(src, path, 'exec', dont_inherit=True)
        return orig(self, fullname)

    im.SourceFileLoader.get_code = get_code
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (limit, limit))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    verdict = 'survived'
    try:
        import mmrazor.models  # noqa
        from pbt import core
        mods = {}
        for pid, sub, case in picks:
            if pid not in mods:
                mods[pid] = {s.name: s for s in find_module(pid).SUBS}
            rec, err = core.execute(mods[pid][sub], case)
            if err:
                verdict = f'killed {pid}.{sub}: {err[:150]}'
                break
    except BaseException as e:
        verdict = 'killed import ' + repr(e)[:100]
    with open(out, 'w') as f:
        f.write(verdict)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('what', nargs='*')
    ap.add_argument('--scale', type=float, default=0.3)
    ap.add_argument('--cap', type=int, default=800)
    ap.add_argument('--max', type=int, default=100000)
    ap.add_argument('--cases', type=int, default=60)
    ap.add_argument('--secs', type=float, default=40)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--pid', help='only cases of this property')
    ap.add_argument('--lines')
    args = ap.parse_args()
    os.makedirs(DIR, exist_ok=True)
    if args.mode == 'collect':
        for pid in args.what:
            p = os.fork()
            if p == 0:
                collect(pid, args.scale, args.cap)
                sys.stdout.flush()
                os._exit(0)
            os.waitpid(p, 0)
        return
    cases = load_cases()
    cov = {}
    for i, c in enumerate(cases):
        if args.pid and c[0] != args.pid:
            continue
        for f, l in c[4]:
            cov.setdefault(f, {}).setdefault(l, []).append(i)
    files = []
    for w in args.what:
        w = w.replace('mmrazor/', '', 1) if w.startswith('mmrazor/') else w
        full = os.path.join(REPO, 'mmrazor', w)
        if os.path.isdir(full):
            for d, _, fs in os.walk(full):
                files += [os.path.relpath(os.path.join(d, f),
                                          os.path.join(REPO, 'mmrazor'))
                          for f in sorted(fs) if f.endswith('.py')]
        else:
            files.append(w)
    if args.mode == 'uncovered':
        for f in files:
            tree = ast.parse(open(os.path.join(REPO, 'mmrazor', f)).read())
            have = set(cov.get(f, {}))
            for fn in ast.walk(tree):
                if isinstance(fn, ast.FunctionDef):
                    miss, tot = [], 0
                    for st in ast.walk(fn):
                        if isinstance(st, ast.stmt) and st is not fn and \
                                not isinstance(st, (ast.FunctionDef,
                                                    ast.Global)) and not (
                                isinstance(st, ast.Expr) and isinstance(
                                    st.value, ast.Constant)):
                            tot += 1
                            if st.lineno not in have and not isinstance(
                                    st, (ast.Raise, ast.With, ast.Try)):
                                miss.append(st.lineno)
                    if miss:
                        print(f'{f}:{fn.lineno} {fn.name} '
                              f'{len(miss)}/{tot} missed {miss[:12]}')
        return
    anch = anchors()
    rnd = random.Random(5)
    jobs = []
    for f in files:
        full = os.path.join(REPO, 'mmrazor', f)
        if f not in cov:
            print(f'-- {f}: not covered')
            continue
        text = open(full).read()
        tree = ast.parse(text)
        sp = spans(tree)
        muts = []
        seen = {text}
        for line, desc, src in mutants(tree):
            if src in seen:
                continue
            seen.add(src)
            ls = sp.get(line, {line})
            idx = sorted({i for l in ls for i in cov[f].get(l, [])})
            if not idx:
                continue
            if args.lines:
                a, b = map(int, args.lines.split('-'))
                if not a <= line <= b:
                    continue
            muts.append((line, desc, src, idx))
        if len(muts) > args.max:
            muts = rnd.sample(muts, args.max)
        for line, desc, src, idx in muts:
            rnd.shuffle(idx)
            idx.sort(key=lambda i: f not in anch.get(cases[i][0], ()))
            pref = [i for i in idx if f in anch.get(cases[i][0], ())]
            rest = [i for i in idx if i not in set(pref)]
            order, t = [], 0
            # by property and sub in turn
            groups = {}
            for i in pref + rest:
                groups.setdefault(cases[i][:2], []).append(i)
            gl = list(groups.values())
            k = 0
            while gl and len(order) < args.cases and t < args.secs:
                g = gl[k % len(gl)]
                i = g.pop(0)
                order.append(i)
                t += cases[i][3]
                if not g:
                    gl.remove(g)
                k += 1
            jobs.append((f, full, line, desc, src,
                         [cases[i][:3] for i in order], t))
    print(len(jobs), 'mutants')
    sys.stdout.flush()
    preload()
    running = {}
    todo = list(jobs)
    stats = {}
    n = 0
    t0 = time.time()
    while todo or running:
        while todo and len(running) < args.jobs:
            j = todo.pop(0)
            n += 1
            out = f'{DIR}/out.{n}'
            p = os.fork()
            if p == 0:
                os.setpgid(0, 0)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                os.chdir(DIR)
                child(j[1], j[4], j[5], out, int(60 + 4 * j[6]))
            running[p] = (j, out, time.time())
        try:
            p, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            p = 0
        if p == 0:
            time.sleep(0.02)
            for q, (j, out, t) in running.items():
                if time.time() - t > 90 + 8 * j[6]:
                    try:
                        os.killpg(q, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            continue
        j, out, t = running.pop(p)
        v = open(out).read() if os.path.exists(out) else 'killed timeout'
        if os.path.exists(out):
            os.unlink(out)
        key = v.split(':')[0] if v != 'survived' else v
        stats[key] = stats.get(key, 0) + 1
        if v == 'survived':
            print(f'SURVIVED {j[0]}:{j[2]} {j[3]}  [{len(j[5])} cases '
                  f'{sorted({c[0] for c in j[5]})}]')
            sys.stdout.flush()
    print(round(time.time() - t0), 's', stats)


if __name__ == '__main__':
    main()
