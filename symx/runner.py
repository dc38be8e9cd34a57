"""Runs the harnesses of one property: symbolic exploration (worker processes), replay of the counterexamples on
the untouched code, validation of the executor on models of finished paths, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SYMX_REPO', '/repo')
Z3_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
PY = '/opt/venv/bin/python'


class Task(object):
    """one harness with concrete parameters"""

    def __init__(self, name, fn, params=None, labels=(), max_paths=20000, time_limit=240, optional=(), timeout_ms=15000,
                 validate=12):
        self.name, self.fn, self.params = name, fn, params or {}
        self.labels = list(labels)  # labels which must be reached (vacuity guard)
        self.max_paths, self.time_limit = max_paths, time_limit
        self.timeout_ms = timeout_ms
        self.validate = validate  # number of models of finished paths which are run on the real code


def clean_env():
    env = dict(os.environ)
    env.pop('PYTHONPATH', None)
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['MPLBACKEND'] = 'Agg'
    env['OMP_NUM_THREADS'] = '1'
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['SYMX_CHILD'] = '1'
    return env


def _limit_memory(gb=6):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


def _snapshot(out, eng, instrument):
    out['stats'] = eng.stats.as_dict()
    out['candidates'] = list(eng.candidates)
    out['samples'] = list(eng.samples)
    out['unsupported_samples'] = eng.unsupported_samples[:60]
    out['functions'] = sorted(instrument.ENTERED)
    slow = sorted(eng.query_log, key=lambda q: -q[1])[:3]
    out['slowest'] = [[r, round(d, 3)] for r, d in slow]
    return out


def _worker(args, conn=None):
    prop, tier, index = args
    warnings.simplefilter('ignore')
    _limit_memory()
    sys.stdout = open(os.devnull, 'w')  # the code under test may print
    t0 = time.time()
    out = {'index': index}
    try:
        from . import core, instrument
        mod = load_check(prop)
        task = mod.tasks(tier)[index]
        out['name'] = task.name
        eng = core.Engine(query_timeout_ms=task.timeout_ms, max_paths=task.max_paths, time_limit=task.time_limit,
                          query_log=[])
        if conn is not None:
            last = [time.time()]

            def report(candidate):
                if candidate or time.time() - last[0] > 3:
                    last[0] = time.time()
                    conn.send(('part', _snapshot(dict(out, wall=time.time() - t0), eng, instrument)))
            eng.report = report
        instrument.ENTERED.clear()
        eng.explore(getattr(mod, task.fn), task.params)
        _snapshot(out, eng, instrument)
    except BaseException as exc:  # reported by the parent
        out['error'] = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
    out['wall'] = time.time() - t0
    if conn is not None:
        conn.send(('done', out))
        conn.close()
    return out


def run_tasks(prop, tier, tasks, idx, jobs, t_end):
    """every task in a process of its own, which is ended when it gets stuck in a solver call.  The first counterexample
    which the real code confirms ends the run."""
    from multiprocessing.connection import wait
    mpc = mp.get_context('fork')
    todo, run, results = list(idx), {}, {}
    tried, confirmed = 0, False

    def end(conn, why):
        p, i, _, part = run.pop(conn)
        p.kill()
        p.join()
        conn.close()
        r = part or {'index': i, 'name': tasks[i].name, 'wall': 0}
        r['killed'] = why
        results[i] = r

    while (todo or run) and not confirmed:
        while todo and len(run) < jobs:
            i = todo.pop(0)
            here, there = mpc.Pipe(False)
            p = mpc.Process(target=_worker, args=((prop, tier, i), there))
            p.start()
            there.close()
            run[here] = [p, i, time.time(), None]
        for conn in wait(list(run), timeout=2):
            p, i = run[conn][:2]
            try:
                kind, msg = conn.recv()
            except (EOFError, OSError):
                p.join()
                run.pop(conn)
                results[i] = {'index': i, 'name': tasks[i].name, 'wall': 0, 'error': 'the worker ended ({})'.format(p.exitcode)}
                continue
            if kind == 'done':
                run.pop(conn)
                p.join()
                conn.close()
                results[i] = msg
            else:
                run[conn][3] = msg
            for c in (msg.get('candidates') or [])[-1:]:
                if tried < 8 and not confirmed:
                    tried += 1
                    confirmed = any(x['status'] == 'violated' for x in replay_batch(
                        prop, tier, [{'task': i, 'inputs': c[k]} for k in ('inputs', 'more') if k in c], 120))
        now = time.time()
        for conn in list(run):
            if now - run[conn][2] > tasks[run[conn][1]].time_limit * 1.2 + 40:
                end(conn, 'stuck in a solver call')
        if now > t_end:
            break
    for conn in list(run):
        end(conn, 'a violation was confirmed' if confirmed else 'out of time')
    for i in todo:
        results[i] = {'index': i, 'name': tasks[i].name, 'wall': 0, 'killed': 'not started: ' + ('a violation was confirmed' if confirmed else 'out of time')}
    return [results[i] for i in idx]


def load_check(prop):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module('checks.' + prop.lower())


def replay_batch(prop, tier, jobs, timeout=600):
    """jobs: [{'task': index, 'inputs': {...}}] -> list of results of concrete runs on the real code"""
    if not jobs:
        return []
    chunks = [jobs[i::8] for i in range(8)]
    procs = []
    for ch in chunks:
        if not ch:
            procs.append(None)
            continue
        p = subprocess.Popen([PY, '-m', 'symx.replay', '--batch', prop, tier], cwd=VERIF, env=clean_env(),
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        procs.append(p)
    res = [None] * len(jobs)
    import threading
    outs = [None] * 8

    def feed(k):
        try:
            outs[k] = procs[k].communicate(json.dumps(chunks[k]), timeout=timeout)
        except subprocess.TimeoutExpired:
            procs[k].kill()
            outs[k] = ('', 'timeout')
    ths = [threading.Thread(target=feed, args=(k,)) for k in range(8) if procs[k] is not None]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for k in range(8):
        if procs[k] is None:
            continue
        try:
            lines = [ln for ln in outs[k][0].splitlines() if ln.startswith('@@')]
            rs = [json.loads(ln[2:]) for ln in lines]
        except (ValueError, IndexError):
            rs = []
        for j, idx in enumerate(range(k, len(jobs), 8)):
            res[idx] = rs[j] if j < len(rs) else {'status': 'crash', 'detail': (outs[k][1] or '')[-600:]}
    return res


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') == 'finding']


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None, help='substring of the task names')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop, tier = a.property, a.tier
    warnings.simplefilter('ignore')
    sys.path.insert(0, VERIF)
    from . import instrument
    instrument.install()
    try:
        mod = load_check(prop)
        tasks = mod.tasks(tier)
        if hasattr(mod, 'warm'):
            mod.warm()
    except Exception:
        traceback.print_exc()
        return 2
    idx = [i for i, t in enumerate(tasks) if a.only is None or a.only in t.name]
    jobs = [(prop, tier, i) for i in idx]
    results = []
    if a.serial:
        results = [_worker(j) for j in jobs]
    else:
        results = run_tasks(prop, tier, tasks, idx, min(a.jobs, max(1, len(jobs))), t0 + (700 if tier == 'quick' else 6 * 3600))

    # ---------------- replays
    cand_jobs, cand_src = [], []
    val_jobs, val_src = [], []
    for r in results:
        if 'stats' not in r:
            continue
        for c in r['candidates']:
            cand_jobs.append({'task': r['index'], 'inputs': c['inputs']})
            cand_src.append((r, c))
            if 'more' in c:
                cand_jobs.append({'task': r['index'], 'inputs': c['more']})
                cand_src.append((r, c))
        n = tasks[r['index']].validate
        step = max(1, len(r['samples']) // max(n, 1))
        for s in (r['samples'][::step][:n] if n else []):
            val_jobs.append({'task': r['index'], 'inputs': s})
            val_src.append((r, 'path'))
        for s in r['unsupported_samples'][:40]:
            val_jobs.append({'task': r['index'], 'inputs': s})
            val_src.append((r, 'unsupported'))
    rep = replay_batch(prop, tier, cand_jobs)
    val = replay_batch(prop, tier, val_jobs)

    violations, unrepro, mismatches = [], [], []
    agreed = 0
    real = {id(c) for (r, c), res in zip(cand_src, rep) if res['status'] == 'violated'}
    for (r, c), job, res in zip(cand_src, cand_jobs, rep):
        if res['status'] == 'violated':
            violations.append((r, c['label'], job, res))
        elif id(c) not in real and job['inputs'] is c['inputs']:
            unrepro.append({'task': r['name'], 'label': c['label'], 'detail': c['detail'], 'inputs': c['inputs'],
                            'replay': res})
    conc_reached = set()
    broken = []
    for (r, kind), job, res in zip(val_src, val_jobs, val):
        for lb in res.get('reached', ()):
            conc_reached.add((r['index'], lb))
        if res['status'] in ('error', 'crash'):
            broken.append('{}: {}'.format(r['name'], res['detail'][-700:]))
        if res['status'] == 'ok':
            agreed += 1
        elif res['status'] == 'violated' and kind == 'unsupported':
            violations.append((r, res['label'], job, res))
        elif res['status'] == 'infeasible':
            pass  # the rounding of the model's reals to floats left the assumed domain
        else:
            mismatches.append({'task': r['name'], 'kind': kind, 'inputs': job['inputs'], 'replay': res})

    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines, seen = [], set()
    for r, label, job, res in violations:
        key = (r['name'], res.get('label', label))
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, '{}-{}.json'.format(prop, len(seen)))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'task': r['name'], 'index': r['index'],
                       'label': res.get('label', label), 'detail': res.get('detail'), 'inputs': job['inputs'],
                       'how': 'cd /verif && /opt/venv/bin/python -m symx.replay ' + path}, f, indent=1)
        lines.append('VIOLATION property={} replay={} task={} label={} detail={}'.format(
            prop, path, r['name'], res.get('label', label), str(res.get('detail'))[:200].replace('\n', ' ')))

    # ---------------- vacuity, errors, totals
    problems = ['harness error in a concrete run: ' + b for b in broken[:2]]
    tot = {'paths': 0, 'infeasible': 0, 'queries': 0, 'q_sat': 0, 'q_unsat': 0, 'q_unknown': 0, 'decisions': 0,
           'pins': 0, 'syntactic': 0}
    solver_s = 0.
    checks, functions, per_task = {}, set(), []
    incomplete = []
    for r in results:
        t = tasks[r['index']]
        if r.get('killed'):
            incomplete.append('{}: {}'.format(t.name, r['killed']))
        if 'stats' not in r:
            if r.get('killed'):
                continue
            problems.append('task {} failed: {}'.format(t.name, r.get('error')))
            continue
        s = r['stats']
        for k in tot:
            tot[k] += s[k]
        solver_s += s['solver_s']
        functions |= set(r['functions'])
        for k, v in s['checks'].items():
            checks[k] = checks.get(k, 0) + v
        missing = [lb for lb in t.labels if not s['reached'].get(lb) and (r['index'], lb) not in conc_reached]
        if missing and not r['candidates']:
            (incomplete if s['budget_hit'] or s['unsupported'] or r.get('killed') else problems).append(
                'vacuous: task {} never reached {}'.format(t.name, missing))
        if s['unknown_checks']:
            incomplete.append('{}: solver unknown on {}'.format(t.name, sorted(set(s['unknown_checks']))))
        if s['budget_hit']:
            incomplete.append('{}: budget hit after {} paths'.format(t.name, s['paths']))
        if s['unsupported']:
            incomplete.append('{}: {} paths left the executor, e.g. {}'.format(
                t.name, len(s['unsupported']), s['unsupported'][0][:300]))
        if s['pins']:
            incomplete.append('{}: {} reals concretised'.format(t.name, s['pins']))
        per_task.append({'task': t.name, 'paths': s['paths'], 'queries': s['queries'], 'solver_s': s['solver_s'],
                         'wall_s': round(r['wall'], 2), 'checks': sum(s['checks'].values()), 'decisions': s['decisions'],
                         'slowest_queries': r['slowest'], 'tolerance_equal': s['tolerance_equal'],
                         'syntactic': s['syntactic'],
                         'unsupported': s['unsupported'][:3], 'budget_hit': s['budget_hit']})
    if unrepro and not violations:
        incomplete.append('{} counterexamples did not reproduce on the real code, e.g. {}'.format(len(unrepro), json.dumps(unrepro[0])[:1500]))

    finding_lines = []
    for k in known_findings(prop):
        res = replay_batch(prop, tier, [{'fn': k['replay']['fn'], 'params': k['replay'].get('params', {}),
                                         'inputs': k['replay'].get('inputs', {})}])[0]
        if res['status'] == 'violated':
            finding_lines.append('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
        else:
            finding_lines.append('note: the known finding "{}" does not reproduce any more ({})'.format(
                k['what'], res['status']))

    wall = time.time() - t0
    samples = []
    for r in results:
        if r.get('samples'):
            samples.append({'task': r['name'], 'inputs': r['samples'][0]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'] - tot['infeasible'],
            'transitions': tot['decisions'],
            'traces_validated_against_impl': agreed,
            'samples': samples[:12],
            'explanation': 'states = feasible symbolic paths of the real code explored; transitions = branch decisions '
                           'put to the solver; traces_validated = models of finished paths which were re-run on the '
                           'untouched code with the same verdict',
            'bounds': getattr(mod, 'BOUNDS', ''),
            'functions_encoded': sorted(functions),
            'queries': {'total': tot['queries'], 'sat': tot['q_sat'], 'unsat': tot['q_unsat'],
                        'unknown': tot['q_unknown']},
            'solver_s': round(solver_s, 2),
            'assertions': checks,
            'assertions_closed_by_normal_form': tot['syntactic'],
            'per_task': per_task,
            'incomplete': incomplete,
            'encoding_mismatches': mismatches[:5],
            'unreproduced': unrepro[:5],
            'exhaustive': not incomplete,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(lines),
    }
    if a.only is None:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for ln in lines + finding_lines:
        print(ln)
    print('{}: {} tasks, {} paths, {} queries ({} unknown), {:.1f}s solver, {:.1f}s wall, {} validated, {} functions'.format(
        prop, len(results), tot['paths'], tot['queries'], tot['q_unknown'], solver_s, wall, agreed, len(functions)))
    for i in incomplete:
        print('  incomplete:', i[:400 if not a.v else 3000])
    for m in mismatches[:3]:
        print('  mismatch:', json.dumps(m)[:700])
    if a.v:
        for p in per_task:
            print('  ', json.dumps(p))
        for r in results:
            for c in r.get('candidates', [])[:3]:
                print('   cand', r['name'], json.dumps(c)[:600])
    if lines:
        return 1
    for p in problems:
        print('ERROR', p)
    return 2 if problems else 0


COMMON_ASSUMPTIONS = [
    'floats are modelled as exact reals: rounding, overflow and underflow are outside the claim (a replay with IEEE '
    'doubles confirms every violation within a relative tolerance of 1e-8)',
    'exp, log and general powers are uninterpreted functions with sign/monotonicity axioms: the same function of the '
    'same argument, whatever its value',
    'numpy, pandas and the python runtime are executed as they are (object arrays), not encoded',
]

if __name__ == '__main__':
    sys.exit(main())
