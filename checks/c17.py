"""C17: model parameters are accepted exactly when they are complete and consistent, and then do not change"""
import itertools

from checks.util import errors
from symx.runner import Task

BOUNDS = ('all eight parameters with arbitrary numbers (each in turn and together), power profiles of 0..4 points, up to three feeds, every '
          'spelling of every key, every order of the keys, dictionaries and keyword arguments, every kind of wrong value in every place')
ASSUMPTIONS = ['numbers are reals (NaN and infinities are chosen separately)']
NUMBERS = ['radius', 'length', 'pressure', 'temp_gas', 't_end']
ALIASES = {
    'radius': ('r', 'R'), 'length': ('z', 'Z'), 'pressure': ('p',), 'power': ('P',), 't_power': ('t_P', 'time_P', 'time_power'),
    'temp_gas': ('Tg', 'T_g', 'gas_temp'), 'feeds': ('feed_flows',), 't_end': ('time_end', 'end_time')}


def good(**kw):
    d = dict(radius=0.1, length=0.25, pressure=50., power=[100., 20.], t_power=[-1., 10.], temp_gas=450., feeds={'A': 10., 'B': 3.}, t_end=1.)
    d.update(kw)
    return d


def make(d, style='dict'):
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    try:
        if style == 'dict':
            return ModelParameters(d)
        if style == 'keywords':
            return ModelParameters(**d)
        keys = list(d)
        return ModelParameters({k: d[k] for k in keys[::2]}, **{k: d[k] for k in keys[1::2]})
    except errors('pygmo_fwork.pygmol.exceptions'):
        return None


def same(a, b):
    return a is b or bool(a == b)


def verdict(ctx, d, ok, label='accepted exactly when consistent'):
    with ctx.guard('only the errors of the package'):
        mp = make(d, ctx.choice('style', ['dict', 'keywords', 'mixed']))
    ctx.check((mp is not None) == bool(ok), label)
    return mp


def values(ctx, mp, d):
    """d: by nominal keys"""
    for k in d:
        for key in (k,) + ALIASES[k]:
            got = mp[key]
            if k in ('power', 't_power'):
                ctx.check(len(got) == len(d[k]) and all(same(x, y) for x, y in zip(got, d[k])), 'parameters are the given ones')
            elif k == 'feeds':
                ctx.check(list(got) == list(d[k]) and all(same(got[s], d[k][s]) for s in got), 'parameters are the given ones')
            else:
                ctx.check_eq(got, d[k], 'parameters are the given ones')
    ctx.check(sorted(mp) == sorted(mp.keys()) == sorted(ALIASES) and len(mp) == 8, 'eight parameters under their nominal names')
    with ctx.guard('dictionary'):
        for k, v in dict(mp).items():
            ctx.check(type(v) is type(mp[k]), 'parameters as a dictionary')
        for k, v in mp.items():
            ctx.check(type(v) is type(mp[k]), 'parameters as a dictionary')
        ctx.check([type(v) for v in mp.values()] == [type(mp[k]) for k in mp.keys()], 'parameters as a dictionary')


def numbers(ctx):
    d = good(**{k: ctx.real(k, -10, 1000) for k in NUMBERS})
    d['t_power'] = [ctx.real('t0', -10, 10), ctx.real('t1', -10, 2000)]
    ok = all(d[k] > 0 for k in NUMBERS) and d['t_power'][0] <= 0 and d['t_power'][1] >= 1.1 * d['t_end']
    mp = verdict(ctx, d, ok)
    if mp is not None:
        values(ctx, mp, d)


def profile(ctx, n_max):
    n, m = ctx.int('n power', 0, n_max), ctx.int('n t_power', 0, n_max)
    n, m = int(n), int(m)
    d = good(power=[ctx.real('power{}'.format(i), -10, 10) for i in range(n)],
             t_power=[ctx.real('t{}'.format(i), -10, 10) for i in range(m)])
    kind = ctx.choice('kind', [list, tuple])
    d['power'], d['t_power'] = kind(d['power']), kind(d['t_power'])
    d['t_end'] = ctx.real('t_end', 0.1, 10)
    order = ctx.choice('order', [('power', 't_power'), ('t_power', 'power')])
    d = {k: d[k] for k in [k for k in d if k not in order][:3] + list(order) + [k for k in d if k not in order][3:]}
    ok = n == m and n >= 2 and all(p >= 0 for p in d['power']) and d['t_power'][0] <= 0 and d['t_power'][-1] >= 1.1 * d['t_end']
    mp = verdict(ctx, d, ok)
    if mp is not None:
        values(ctx, mp, d)


def feeds(ctx):
    f = {s: ctx.real('flow ' + s, -10, 10) for s in ('A', 'B', 'C') if ctx.flag('feed ' + s)}
    d = good(feeds=f)
    mp = verdict(ctx, d, all(x > 0 for x in f.values()))
    if mp is not None:
        values(ctx, mp, d)


def keys(ctx, vary):
    d = good(**{k: ctx.real(k, 0.1, 1) for k in NUMBERS})
    spell = {k: ctx.choice('spelling of ' + k, (k,) + ALIASES[k]) if k in vary else k for k in d}
    perm = ctx.choice('order', list(itertools.permutations(range(len(vary)))))
    ks = [k for k in d if k not in vary] + [vary[i] for i in perm]
    x = {spell[k]: d[k] for k in ks}
    fault = ctx.choice('fault', ['none', 'missing', 'unknown', 'case'])
    bad = ctx.choice('where', vary) if fault in ('missing', 'case') else None
    if fault == 'missing':
        x.pop(spell[bad])
    elif fault == 'unknown':
        x['temperature'] = 300.
    elif fault == 'case':
        x[' ' + spell[bad]] = x.pop(spell[bad])
    mp = verdict(ctx, x, fault == 'none', 'every parameter under one of its names, and nothing else')
    if mp is None:
        return
    values(ctx, mp, d)
    try:
        mp['temperature']
        ok = True
    except errors('pygmo_fwork.pygmol.exceptions'):
        ok = False
    ctx.check(not ok, 'unknown parameters cannot be asked for')


def types(ctx, where):
    x = ctx.real('x', 0.1, 1)
    d = good(radius=x)
    wrong = {'true': True, 'false': False, 'string': '1.0', 'none': None, 'nan': float('nan'), 'list': [1., 2.], 'dict': {'A': 1.}}
    kind = ctx.choice('wrong', list(wrong))
    v = wrong[kind]
    if where in NUMBERS:
        d[where] = v
    elif where in ('power', 't_power'):
        if ctx.flag('one of the points'):
            n = ctx.choice('point', [0, 1, 2])
            d['power'], d['t_power'] = [1., 2., 3.], [-1., 0.5, 10.]
            d[where][n] = v
        else:
            if kind in ('list', 'dict'):
                return
            d[where] = v
    elif where == 'feeds':
        if ctx.flag('one of the feeds'):
            s = ctx.choice('feed', ['A', 'B'])
            d['feeds'] = dict(d['feeds'], **{s: v})
        elif ctx.flag('the name of a feed'):
            d['feeds'] = {ctx.choice('name', [1, None, True]): 10., 'B': 3.}
        else:
            if kind == 'dict':
                return
            d['feeds'] = v
    verdict(ctx, d, False, 'values of another kind are refused')


def frozen(ctx):
    """nothing done with the arguments or with what the instance gives out reaches the instance"""
    d = good(power=[ctx.real('p0', 0, 10), ctx.real('p1', 0, 10)], t_power=[ctx.real('t0', -10, 0), ctx.real('t1', 2, 10)],
             feeds={'A': ctx.real('flow', 1, 10)}, radius=ctx.real('radius', 0.1, 1))
    keep = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in d.items()}
    with ctx.guard('accepted'):
        mp = make(d)
    ctx.check(mp is not None, 'accepted exactly when consistent')
    if mp is None:
        return
    act = ctx.choice('act', ['assign', 'delete', 'argument', 'argument power', 'argument time', 'argument feeds', 'given power', 'given time',
                             'given feeds', 'values', 'items'])
    key = ctx.choice('key', ['radius', 'power', 'feeds', 'P', 'new']) if act in ('assign', 'delete') else None
    if act in ('assign', 'delete'):
        try:
            if act == 'assign':
                mp[key] = 7.
            else:
                del mp[key]
            ok = True
        except (TypeError, KeyError):
            ok = False
        ctx.check(not ok, 'parameters cannot be set or deleted')
    elif act == 'argument':
        d['radius'] = -1.
        d.pop('t_end')
    elif act == 'argument power':
        d['power'][0] = -1.
        d['power'].append(5.)
    elif act == 'argument time':
        d['t_power'][1] = 1e-3
        d['t_power'].pop()
    elif act == 'argument feeds':
        d['feeds']['A'] = -1.
        d['feeds']['X'] = 1.
    elif act == 'given power':
        mp['power'][0] = -1.
        mp['P'].append(5.)
    elif act == 'given time':
        mp['t_power'].pop()
    elif act == 'given feeds':
        mp['feeds']['A'] = -1.
        mp['feed_flows'].clear()
    elif act in ('values', 'items'):
        for v in (list(mp.values()) if act == 'values' else [v for _, v in mp.items()]):
            if isinstance(v, dict):
                v.clear()
            elif isinstance(v, list):
                v.clear()
    values(ctx, mp, keep)
    with ctx.guard('again'):
        again = make({k: mp[k] for k in mp})
    ctx.check(again is not None, 'accepted parameters are accepted again')
    if again is not None:
        values(ctx, again, keep)


def tasks(tier):
    lab = ['accepted exactly when consistent']
    out = [Task('numbers', 'numbers', {}, lab + ['parameters are the given ones']),
           Task('profile', 'profile', {'n_max': 3 if tier == 'quick' else 5}, lab),
           Task('feeds', 'feeds', {}, lab), Task('frozen', 'frozen', {}, lab)]
    sets = [('radius', 'power'), ('t_power', 'power'), ('temp_gas', 'feeds'), ('length', 't_end'), ('pressure', 'feeds')]
    if tier != 'quick':
        sets = list(itertools.combinations(sorted(ALIASES), 3))
    out += [Task('keys ' + ' '.join(s), 'keys', {'vary': list(s)}, ['every parameter under one of its names, and nothing else']) for s in sets]
    out += [Task('types ' + k, 'types', {'where': k}, ['values of another kind are refused']) for k in ALIASES]
    return out
