"""C26: statistics of a Morris run are those of the elementary effects of its trajectories, and rank the factors by them"""
import collections
import os

from checks.c18 import patched
from checks.c20 import configured, scratch
from checks.c21 import build, once
from checks.c22 import at, biggest
from symx.runner import Task

BOUNDS = ('1..3 trajectories of 2..3 factors in any order and either direction, 1..2 outputs and times, arbitrary positive results of each run, '
          'logged on the same or on different times; finished and unfinished trajectories side by side')
ASSUMPTIONS = ['mean outputs are positive (relative statistics are not defined otherwise)', 'numbers are reals', 'the statistics of pandas are '
               'the sample mean and the sample standard deviation']
OUT = ['Te', 'Ar']


def errs():
    return (ValueError,)


def write(ctx, top, tag, factors, outputs, rows, steps=None, few=None, fixed=False):
    """one logged trajectory: {output: [values of each run at each row]}"""
    import yaml
    d = os.path.join(top, tag)
    order = list(factors)
    for k in range(len(order) - 1):
        j = ctx.choice('{} order {}'.format(tag, k), list(range(k, len(order)))) if few is None else (k + few) % (len(order) - k) + k
        order[k], order[j] = order[j], order[k]
    deltas = [(0.5 if few is None and ctx.flag('{} up {}'.format(tag, k)) or few is not None and (k + few) % 2 else -0.5) for k in range(len(order))]
    runs = ['0_initial_run'] + ['{}_{}'.format(k + 1, f) for k, f in enumerate(order)]
    ts, vals = [], []
    for k, run in enumerate(runs):
        t, tt = 0., []
        for i in range(rows):
            tt.append(t)
            t = t + (1. if steps is None else steps[(i + k) % len(steps)])
        v = {c: [ctx.real('{} {}{} {}'.format(tag, c, i, k), 0.1, 10) if not fixed else 3. * (1 + (3 * i + 5 * k + fixed) % 7) for i in range(rows)]
             for c in outputs}
        os.makedirs(os.path.join(d, run))
        build(ctx, t=tt, **v).to_csv(os.path.join(d, run, 'solution.csv'))
        ts.append(tt)
        vals.append(v)
    with open(os.path.join(d, 'meta.yaml'), 'w') as f:
        yaml.safe_dump({'base_run_id': runs[0], 'run_ids': runs[1:], 'factors_ids': order, 'deltas': deltas}, f)
    return d, order, deltas, ts, vals


def effects(traj, outputs, times):
    """{(time, factor, output): effect}, {(time, output): mean}"""
    d, order, deltas, ts, vals = traj
    ee, mean = {}, {}
    for i, t in enumerate(times):
        for c in outputs:
            ys = [at(tt, v[c], t) for tt, v in zip(ts, vals)]
            mean[i, c] = sum(ys[1:], ys[0]) / len(ys)
            for k, f in enumerate(order):
                ee[i, f, c] = (ys[k + 1] - ys[k]) / deltas[k]
    return ee, mean


def evaluate(ctx, factors, outputs, rows, asked, steps=None, few=None):
    from pygmo_fwork.optichem.morris import MorrisMethod
    with scratch() as top:
        traj = write(ctx, top, 'traj001', factors, outputs, rows, steps, few)
        times = [ctx.real('time{}'.format(i), 0, (rows - 1) * min(steps or [1.])) for i in range(asked)]
        with ctx.guard('evaluation'):
            st = MorrisMethod.evaluate_trajectory(traj[0], times)
    ee, mean = effects(traj, outputs, times)
    ctx.check(len(st.times) == len(st.elementary_effects) == len(st.mean_outputs) == asked, 'statistics at each time')
    for i in range(asked):
        ctx.check_eq(st.times[i], times[i], 'statistics at each time', scale=1)
        df, m = st.elementary_effects[i], st.mean_outputs[i]
        ctx.check(sorted(df.index) == sorted(factors), 'an effect of each factor')
        ctx.check(set(outputs) <= set(df.columns) and set(outputs) <= set(m.index), 'an effect on each output')
        for c in outputs:
            ctx.check_eq(m[c], mean[i, c], 'mean over the runs', scale=10)
            for f in factors:
                ctx.check_eq(df.at[f, c], ee[i, f, c], 'the effect is the change by the step of the factor', scale=10)


def statistics(trajs, outputs, times, factors, root):
    evs = [effects(t, outputs, times) for t in trajs]
    n = len(evs)
    mean, mu, sigma = {}, {}, {}
    for i in range(len(times)):
        for c in outputs:
            mean[i, c] = sum([m[i, c] for _, m in evs[1:]], evs[0][1][i, c]) / n
            for f in factors:
                xs = [e[i, f, c] for e, _ in evs]
                m = sum(xs[1:], xs[0]) / n
                mu[i, f, c] = m
                sigma[i, f, c] = root(sum([(m - x) ** 2 for x in xs[1:]], (m - xs[0]) ** 2) / (n - 1)) if n > 1 else None
    return mean, mu, sigma


def root(ctx):
    def f(x):
        import numpy as np
        return np.sqrt(x) if not hasattr(x, 'sqrt') else x.sqrt()
    return f


def unfinished(ctx, top):
    """what an interrupted trajectory leaves behind"""
    what = once(ctx, 'unfinished one')
    if what:
        os.makedirs(os.path.join(top, 'traj007', '0_initial_run'))


def stats(ctx, n, factors, outputs, rows, asked, few=None):
    import math
    from pygmo_fwork.optichem.morris import MorrisMethod
    with scratch() as base, configured(base) as ws:
        # given as a directory, or by the name of a run in the configured directory
        top = ctx.choice('place', [base, os.path.join(ws, 'results', 'morris_sensitivity', 'M7', 'logs')])
        trajs = [write(ctx, top, 'traj{:03d}'.format(k + 1), factors, outputs, rows, few=None if few is None else few + k, fixed=k + 1 if n == 3 and k == 2 else False)
                 for k in range(n)]
        unfinished(ctx, top)
        times = [0.25 * (i + 1) for i in range(asked)]
        with ctx.guard('statistics'):
            st = MorrisMethod.get_morris_stats(times=times, **(dict(logs_dir=top) if top == base else dict(morris_run_id='M7')))
        mean, mu, sigma = statistics(trajs, outputs, times, factors, root(ctx))
    ctx.check(len(st.times) == len(st.mu) == len(st.sigma) == len(st.mean_outputs) == len(st.mu_rel) == len(st.sigma_rel) == asked, 'statistics at each time')
    for i in range(asked):
        ctx.check(sorted(st.mu[i].index) == sorted(st.sigma[i].index) == sorted(factors), 'statistics of each factor')
        for c in outputs:
            ctx.check_eq(st.mean_outputs[i][c], mean[i, c], 'mean outputs over all runs', scale=10)
            for f in factors:
                ctx.check_eq(st.mu[i].at[f, c], mu[i, f, c], 'mean of the effects', scale=10)
                ctx.check_eq(st.mu_rel[i].at[f, c], mu[i, f, c] / mean[i, c], 'relative to the mean outputs', scale=10)
                if n > 1:
                    ctx.check_eq(st.sigma[i].at[f, c], sigma[i, f, c], 'standard deviation of the effects', scale=10)
                    ctx.check_eq(st.sigma_rel[i].at[f, c], sigma[i, f, c] / mean[i, c], 'relative to the mean outputs', scale=10)
                elif not ctx.symbolic:
                    ctx.check(math.isnan(st.sigma[i].at[f, c]), 'no deviation of a single effect')


def ranking(ctx, n, factors, outputs, important, asked, method, few=0):
    """n trajectories; the statistics of several ones may be anything"""
    import contextlib
    import pandas as pd
    from pygmo_fwork.optichem.morris import MorrisMethod
    times = [0.25 + 0.5 * i for i in range(asked)]
    imp = {'list': list, 'tuple': tuple, 'set': set}[ctx.choice('important as', ['list', 'tuple', 'set'])](important)
    with scratch() as top:
        if n == 1:
            trajs = [write(ctx, top, 'traj001', factors, outputs, 2, few=few)]
            unfinished(ctx, top)
            mean, mu, sigma = statistics(trajs, outputs, times, factors, root(ctx))
            stub = contextlib.nullcontext()
        else:
            mean = {(i, c): 2. + i + 2 * k for i in range(asked) for k, c in enumerate(outputs)}
            mu = {(i, f, c): ctx.real('mu {} {} {}'.format(i, f, c), -10, 10) for i in range(asked) for f in factors for c in outputs}
            sigma = {(i, f, c): ctx.real('sigma {} {} {}'.format(i, f, c), 0, 10) for i in range(asked) for f in factors for c in outputs}
            cols = {'mean_outputs': [], 'mu': [], 'sigma': [], 'mu_rel': [], 'sigma_rel': []}
            for i in range(asked):
                cols['mean_outputs'].append(pd.Series([mean[i, c] for c in outputs], index=outputs))
                for name, x in (('mu', mu), ('sigma', sigma)):
                    df = build(ctx, **{c: [x[i, f, c] for f in factors] for c in outputs})
                    df.index = factors
                    rel = build(ctx, **{c: [x[i, f, c] / mean[i, c] for f in factors] for c in outputs})
                    rel.index = factors
                    cols[name].append(df)
                    cols[name + '_rel'].append(rel)
            st = collections.namedtuple('MorrisStats', 'times mean_outputs mu sigma mu_rel sigma_rel')(times=tuple(times), **{k: tuple(v) for k, v in cols.items()})
            stub = patched(MorrisMethod, get_morris_stats=staticmethod(lambda morris_run_id=None, logs_dir=None, times=None: st))
        with ctx.guard('ranking'), stub:
            got = MorrisMethod.get_ranking(imp, times, logs_dir=top, method=method)
    ctx.check(sorted(got.index) == sorted(factors), 'a score of each factor')
    for f in factors:
        rel = [[abs(mu[i, f, c] / mean[i, c]) for c in important] for i in range(asked)]
        dev = [[sigma[i, f, c] / mean[i, c] if n > 1 else 0. for c in important] for i in range(asked)]
        if method == 'mean':
            xs = [x for r in rel + dev for x in r]
            want = sum(xs[1:], xs[0]) / asked / len(important)
        else:
            want = biggest([biggest(a) + biggest(b) for a, b in zip(rel, dev)])
        ctx.check_eq(got[f], want, 'the documented score', scale=1)
    vals = list(got)
    for a, b in zip(vals[:-1], vals[1:]):
        ctx.check_le(a, b, 'the least significant first', scale=1)


def refused(ctx):
    from pygmo_fwork.optichem.morris import MorrisMethod
    with scratch() as top:
        write(ctx, top, 'traj001', ['Ar', 'O'], ['Te'], 2, few=0)
        kind = ctx.choice('asked', ['good', 'unknown output', 'unknown method', 'no times', 'both', 'neither', 'outside'])
        kw = dict(important_outputs=['Te'], important_times=[0.5], logs_dir=top)
        kw.update({'unknown output': {'important_outputs': ['Te', 'Kr']}, 'unknown method': {'method': 'median'}, 'no times': {'important_times': None},
                   'both': {'morris_run_id': 'M'}, 'neither': {'logs_dir': None}, 'outside': {'important_times': [0.5, 1.5]}}.get(kind, {}))
        with ctx.guard('only the documented errors'):
            try:
                MorrisMethod.get_ranking(**kw)
                got = 'good'
            except ValueError:
                got = 'refused'
            except AssertionError:
                got = 'outside'
    ctx.check(got == {'good': 'good', 'outside': 'outside'}.get(kind, 'refused'), 'what cannot be ranked is refused')


def tasks(tier):
    big = tier != 'quick'
    F, R = ['Ar', 'O', 'Ar+'], [12, 3, 5]
    L = ['the effect is the change by the step of the factor', 'mean over the runs']
    out = [Task('effects 2', 'evaluate', {'factors': F[:2], 'outputs': OUT[:1], 'rows': 2, 'asked': 2}, L),
           Task('effects 3', 'evaluate', {'factors': R, 'outputs': OUT, 'rows': 2, 'asked': 1, 'steps': None}, L),
           Task('effects on other times', 'evaluate', {'factors': R[:2], 'outputs': OUT[:1], 'rows': 3, 'asked': 1, 'steps': [0.5, 0.75], 'few': 1}, L)]
    L = ['mean of the effects', 'mean outputs over all runs']
    for n, fs, outs, asked in ((1, F[:2], OUT, 1), (2, F[:2], OUT[:1], 1), (2, R, OUT[:1], 2), (3, F[:2], OUT[:1], 1)) + (((3, R, OUT, 2),) if big else ()):
        out.append(Task('statistics {} {} {} {}'.format(n, len(fs), len(outs), asked), 'stats',
                        {'n': n, 'factors': fs, 'outputs': outs, 'rows': 2, 'asked': asked, 'few': None if n == 1 else n + asked}, L))
    for m in ('mean', 'max'):
        for n, fs, imp, asked in ((1, F[:2], OUT[:1], 1), (2, F[:2], OUT[:1], 1), (2, F[:2], OUT[:1], 2), (2, F[:2], OUT, 1), (1, R, OUT[1:], 1)) + (
                ((1, R, OUT, 2), (3, F[:2], OUT[:1], 1)) if big else ()):
            out.append(Task('rank {} {} {} {} {}'.format(m, n, len(fs), '-'.join(imp), asked), 'ranking',
                            {'n': n, 'factors': fs, 'outputs': OUT if len(imp) > 1 or imp != OUT[:1] else OUT[:1], 'important': imp, 'asked': asked, 'method': m},
                            ['the documented score']))
    out.append(Task('refused', 'refused', {}, ['what cannot be ranked is refused']))
    return out
