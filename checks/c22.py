"""C22: the error of a reduced solution is the documented mixed relative error, and zero exactly for equal results"""
from checks.c21 import build
from symx.runner import Task

BOUNDS = ('full and reduced solutions of 1..4 rows each on different arbitrary times, 1..3 outputs with arbitrary values, 1..3 arbitrary '
          'request times; up to four requests to one reference')
ASSUMPTIONS = ['the results of the full solution are positive', 'numbers are reals']


def solution(ctx, tag, rows, outputs, times=None, lo=0.1, hi=10.):
    t, ts = 0., []
    for i in range(rows):
        ts.append(t)
        t = t + (ctx.real('{} dt{}'.format(tag, i), 0.1, 1) if times is None else times[i])
    vals = {c: [ctx.real('{} {}{}'.format(tag, c, i), lo, hi) for i in range(rows)] for c in outputs}
    return ts, vals, build(ctx, t=ts, **vals)


def at(ts, v, t):
    for i in range(len(ts) - 1):
        if ts[i] <= t and t <= ts[i + 1]:
            return v[i] + (v[i + 1] - v[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
    return v[-1]


def biggest(xs):
    m = xs[0]
    for x in xs[1:]:
        if x > m:
            m = x
    return m


def expected(full, red, output, times):
    f = [at(full[0], full[1][output], t) for t in times]
    r = [at(red[0], red[1][output], t) for t in times]
    m = biggest(f)
    return [2 * (b - a) / (a + m) for a, b in zip(f, r)]


def error(ctx, rows, other, asked, outputs, steps=None):
    from pygmo_fwork.optichem.errors import SolutionsDiff
    full = solution(ctx, 'full', rows, outputs, steps)
    red = solution(ctx, 'red', other, outputs, steps and steps[::-1], lo=-10.)
    times = [ctx.real('time{}'.format(i), -0.5, 5) for i in range(asked)]
    inside = all(0 <= t and t <= full[0][-1] and t <= red[0][-1] for t in times)
    keep = full[2].copy(), red[2].copy()
    out = outputs[0]
    with ctx.guard('only an AssertionError'):
        d = SolutionsDiff(full[2])
        try:
            got = list(d.get_output_errors(red[2], out, times))
        except AssertionError:
            got = None
    ctx.check((got is not None) == bool(inside), 'times outside of either solution are refused')
    if got is None:
        return
    ctx.check(len(got) == asked, 'one error per time')
    want = expected(full, red, out, times)
    for a, b in zip(got, want):
        ctx.check_eq(a, b, 'mixed relative error at each time', scale=1)
    for df, k in zip((full[2], red[2]), keep):
        ctx.check(bool((df.to_numpy(dtype=object) == k.to_numpy(dtype=object)).all()), 'solutions are left as they are')


def together(ctx, outputs, asked, reset):
    """the errors over times and outputs"""
    from pygmo_fwork.optichem.errors import SolutionsDiff
    steps = [0.5, 0.5, 0.5]
    if asked == 1:
        full = solution(ctx, 'full', 2, outputs, steps)
    else:
        fixed = {c: [1. + k, 4. - 1.5 * k] for k, c in enumerate(outputs)}
        full = [0., 0.5], fixed, build(ctx, t=[0., 0.5], **fixed)
    red = solution(ctx, 'red', 2, outputs, steps, lo=-10.)
    times = [0., 0.5, 0.25][:asked]
    other = build(ctx, t=[0., 1.], **{c: [1., 3.] for c in outputs})
    with ctx.guard('errors'):
        if reset:
            d = SolutionsDiff(other)
            d.get_error_max(full[2], outputs, times)
            d.reset(full[2])
        else:
            d = SolutionsDiff(full[2])
        one = [(d.get_output_error_max(red[2], o, times), d.get_output_error_rms(red[2], o, times)) for o in outputs]
        worst, rms = d.get_error_max(red[2], outputs, times), d.get_error_rms(red[2], outputs, times)
    means = []
    for o, (a, b) in zip(outputs, one):
        e = expected(full, red, o, times)
        mean = sum([x * x for x in e], 0.) / len(e)
        means.append(mean)
        ctx.check(all(abs(x) <= a * (1 + 1e-9) + 1e-12 for x in e), 'the largest error over the times')
        ctx.check(any(bool(abs(abs(x) - a) <= 1e-9 * (1 + abs(a))) for x in e), 'the largest error over the times')
        ctx.check_eq(b * b, mean, 'the root mean square over the times', scale=1)
        ctx.check_le(0, b, 'the root mean square over the times')
    ctx.check(all(a <= worst * (1 + 1e-9) + 1e-12 for a, _ in one), 'the largest error over the outputs')
    ctx.check(any(bool(abs(a - worst) <= 1e-9 * (1 + abs(worst))) for a, _ in one), 'the largest error over the outputs')
    ctx.check_eq(rms * rms, sum(means, 0.) / len(outputs), 'the root mean square over the outputs', scale=1)
    ctx.check_le(0, rms, 'the root mean square over the outputs')


def again(ctx, kind):
    """every request is answered from the two solutions alone, whatever was asked before"""
    from pygmo_fwork.optichem.errors import SolutionsDiff
    steps = [0.5, 0.5, 0.5]
    outputs = ['A', 'B']
    full = solution(ctx, 'full', 3, outputs[:1] if kind == 'times' else outputs, steps)
    names = list(full[1])
    reds = [solution(ctx, 'red{}'.format(k), 3, names, steps, lo=-10.) for k in range(2 if kind == 'solutions' else 1)]
    with ctx.guard('errors'):
        d = SolutionsDiff(full[2])
        for red, out, times in {'times': [(reds[0], 'A', t) for t in ([1.], [0.5], [0., 1.], [0.5])],
                                'outputs': [(reds[0], o, [0.5]) for o in 'ABA'],
                                'solutions': [(r, 'A', [1.]) for r in reds + reds[:1]]}[kind]:
            want = expected(full, red, out, times)
            for a, b in zip(d.get_output_errors(red[2], out, times), want):
                ctx.check_eq(a, b, 'each request counts on its own', scale=1)
            if len(times) == 1:
                ctx.check_eq(d.get_error_max(red[2], [out], times), abs(want[0]), 'each request counts on its own', scale=1)


def equal(ctx, outputs):
    """no error exactly when the results agree at the times asked for"""
    from pygmo_fwork.optichem.errors import SolutionsDiff
    steps = [0.5, 0.5]
    full = solution(ctx, 'full', 2, outputs, steps)
    red = solution(ctx, 'red', 2, outputs, steps)
    times = [0., 0.5]
    same = all(full[1][o][i] == red[1][o][i] for o in outputs for i in range(2))
    with ctx.guard('errors'):
        d = SolutionsDiff(full[2])
        worst, rms = d.get_error_max(red[2], outputs, times), d.get_error_rms(red[2], outputs, times)
    if same:
        ctx.check(worst == 0 and rms == 0, 'no error between equal results')
    elif ctx.symbolic:
        ctx.check(worst > 0, 'an error between different results')
    with ctx.guard('errors'):
        ctx.check(d.get_error_max(full[2], outputs, times) == 0, 'no error between equal results')


def refused(ctx):
    import pandas as pd
    from pygmo_fwork.optichem.errors import SolutionsDiff
    full = build(ctx, t=[0., 1.], A=[1., 2.], B=[1., 1.])
    kind = ctx.choice('what', ['text', 'series', 'no time', 'output of the full', 'output of the reduced', 'good'])
    red = build(ctx, t=[0., 1.], A=[1., 2.], C=[1., 1.])
    with ctx.guard('only an AssertionError'):
        try:
            if kind in ('text', 'series', 'no time'):
                SolutionsDiff({'text': 't', 'series': pd.Series({'t': 1., 'A': 2.}), 'no time': full.drop(columns='t')}[kind])
            else:
                d = SolutionsDiff(full)
                d.get_output_errors(red, {'good': 'A', 'output of the full': 'C', 'output of the reduced': 'B'}[kind], [0.5])
            ok = True
        except AssertionError:
            ok = False
    ctx.check(ok == (kind == 'good'), 'only results which both solutions have are compared')


def tasks(tier):
    big = tier != 'quick'
    L = ['times outside of either solution are refused', 'mixed relative error at each time']
    out = []
    for r, o, n, st in [(1, 1, 1, [1.]), (2, 2, 1, None), (2, 3, 1, [.5, .7, .3]), (2, 2, 2, [.5, .7]), (3, 2, 1, [.4, .3, .8]), (2, 2, 3, [.5, .7])] + (
            [(3, 3, 1, None), (4, 3, 2, [.4, .3, .8, .5]), (3, 3, 3, [.4, .3, .8])] if big else []):
        out.append(Task('error {} and {} rows {} times{}'.format(r, o, n, '' if st else ' any steps'), 'error',
                        {'rows': r, 'other': o, 'asked': n, 'outputs': ['A', 'B'][:1], 'steps': st}, L))
    L = ['the largest error over the times', 'the root mean square over the outputs']
    for o, n, rs in [(['A'], 2, False), (['A', 'B'], 1, True), (['A', 'B'], 2, False), (['A'], 3, True)] + ([(['A', 'B', 'C'], 1, False), (['A', 'B'], 3, True)] if big else []):
        out.append(Task('together {} outputs {} times{}'.format(len(o), n, ' reset' * rs), 'together', {'outputs': o, 'asked': n, 'reset': rs}, L))
    for kind in ('times', 'outputs', 'solutions'):
        out.append(Task('again ' + kind, 'again', {'kind': kind}, ['each request counts on its own']))
    out.append(Task('equal', 'equal', {'outputs': ['A', 'B'] if big else ['A']}, ['no error between equal results', 'an error between different results']))
    out.append(Task('refused', 'refused', {}, ['only results which both solutions have are compared']))
    return out
