"""C25: a Morris trajectory changes one factor at a time, and every run is of the chemistry these factors map to"""
import contextlib
import functools
import io
import operator
import os

from checks.c18 import patched
from checks.c20 import PAR, configured, scratch
from checks.c21 import build, disable, once
from checks.chemlib import OXY_R, oxygen, split
from checks.util import errors
from symx.runner import Task

BOUNDS = ('2..4 factors anywhere on the grid, in every order; networks of up to 4 species and 3 reactions with arbitrary rate coefficients; '
          '1..3 return coefficients, arbitrary nominal values and ranges; one or two trajectories of one Morris run')
ASSUMPTIONS = ['random draws may be anything the functions of numpy.random can return', 'the backend model is replaced by a recorder of the '
               'chemistry it would run', 'files are an environment which gives back what was written']


def errs():
    return errors('pygmo_fwork.optichem.exceptions')


def on_grid(ctx, name, lo=0, hi=9):
    n = ctx.int(name, lo, hi)
    return (2 * n + 1) / 20. if not ctx.symbolic else (2 * n + 1) / 20


class Random(object):
    """numpy.random as arbitrary results of its functions"""

    def __init__(self, ctx, seed=None):
        self.ctx, self.n, self.first = ctx, 0, []
        self.seeds, self.fixed = seed, None

    def permutation(self, x):
        import numpy as np
        xs = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array(self._perm(xs))

    def _perm(self, xs):
        out = []
        while xs:
            k = 0 if len(xs) == 1 else self.n % len(xs) if self.fixed else self.ctx.int('perm {}'.format(self.n), 0, len(xs) - 1)
            self.n += 1
            out.append(xs.pop(int(k)))
        return out

    def shuffle(self, x):
        x[:] = self._perm(list(x))

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        assert replace and p is None and len(a) == 10
        self.first = [on_grid(self.ctx, 'x{}'.format(k), *self.seeds[k]) if isinstance(self.seeds[k], tuple) else self.seeds[k] for k in range(size)]
        out = np.empty(size, dtype=object if self.ctx.symbolic else float)
        out[:] = self.first
        return out

    def seed(self, *a):
        pass

    def patch(self):
        import numpy
        return patched(numpy.random, permutation=self.permutation, shuffle=self.shuffle, choice=self.choice, seed=self.seed)


def method(chem=None, **par):
    from pygmo_fwork.optichem.morris import MorrisMethod
    return MorrisMethod(chem, par or dict(PAR))


def nearest(ctx, n):
    import numpy as np
    xs = [ctx.real('x{}'.format(k), -0.5, 1.5) for k in range(n)]
    with ctx.guard('seed'):
        m = method()
        got = list(m._get_seed_x(np.array(xs, dtype=object) if ctx.symbolic and ctx.flag('as array') else xs))
    grid = [(2 * k + 1) / 20. for k in range(10)]
    ctx.check(len(got) == n, 'nearest point of the grid')
    for x, y in zip(xs, got):
        ctx.check(any(bool(y == g) for g in grid), 'a point of the grid')
        for g in grid:
            ctx.check_le(abs(x - y), abs(x - g), 'nearest point of the grid', scale=1)


def trajectory(ctx, n):
    import numpy as np
    E = errs()
    seed = [on_grid(ctx, 'n{}'.format(k), -1, 10) for k in range(n)]
    if ctx.flag('between'):
        seed[n - 1] = ctx.real('between points', 0, 1)
    inside = all([bool(functools.reduce(operator.or_, [s == (2 * k + 1) / 20. for k in range(10)])) for s in seed])
    arr = np.empty(n, dtype=object if ctx.symbolic else float)
    arr[:] = seed
    rnd = Random(ctx)
    steps = []
    with ctx.guard('only its own errors'), rnd.patch():
        m = method()
        try:
            for i, d, x in m._trajectory(arr if ctx.flag('array') else list(arr)):
                steps.append((int(i), d, list(x), x))
            ok = True
        except E:
            ok = False
    ctx.check(ok == (inside and n > 1), 'seeds outside the grid are refused')
    ctx.check(all(bool(a == b) for a, b in zip(arr, seed)), 'the seed stays')
    if not ok:
        ctx.check(not steps, 'seeds outside the grid are refused')
        return
    ctx.check(sorted(s[0] for s in steps) == list(range(n)), 'each factor changes once')
    last = seed
    for i, d, x, kept in steps:
        ctx.check(bool(abs(abs(d) - 0.5) <= 1e-9), 'steps of the elementary change')
        for k in range(n):
            ctx.check_eq(x[k], last[k] + (d if k == i else 0), 'one factor changes by the step', scale=1)
            ctx.check(bool(0 < x[k]) and bool(x[k] < 1), 'stays in the unit cube')
            ctx.check_eq(kept[k], x[k], 'vectors handed out stay as they are', scale=1)
        last = x


def as_series(ctx, values, index, kind):
    import numpy as np
    import pandas as pd
    arr = np.empty(len(values), dtype=object if ctx.symbolic else float)
    arr[:] = values
    if kind == 'array':
        return arr
    return pd.Series(arr, index=index) if kind == 'series' else list(values)


def reactions(ctx, n):
    E = errs()
    ids = [7, 3, 12][:n]
    k = [ctx.real('k{}'.format(i), 0, 100) for i in ids]
    x = [ctx.real('x{}'.format(i), 0, 1) for i in ids]
    kx, kk = ctx.choice('factors', ['array', 'series', 'list', 'other index', 'short']), ctx.choice('values', ['array', 'series', 'list'])
    xs = as_series(ctx, x[1:] if kx == 'short' else x, ids[::-1] if kx == 'other index' else ids, {'other index': 'series', 'short': 'array'}.get(kx, kx))
    ks = as_series(ctx, k, ids, kk)
    with ctx.guard('only its own errors'):
        try:
            got = method()._map_reactions_factors_to_k(xs, ks)
            ok = 'ok'
        except E:
            ok = 'refused'
        except TypeError:
            ok = 'type'
    want = 'type' if 'list' in (kx, kk) else 'refused' if kx == 'short' or kx == 'other index' and kk == 'series' and n > 1 else 'ok'
    ctx.check(ok == want, 'factors which do not belong to the values are refused')
    if ok == 'ok' and want == 'ok':
        for g, a, b in zip(got, k, x):
            ctx.check_eq(g, 2 * a * b, 'twice the factor times the nominal value', scale=1)
        ctx.check(all(bool(a == b) for a, b in zip(ks, k)), 'nominal values stay')
        if kk == 'series':
            ctx.check(list(got.index) == ids, 'values by reaction')


def cm(string):
    """declared in the units of most data bases, not in SI"""
    return 'cm{}.s-1'.format(3 * len(split(string.split(' -> ')[0])) - 3)


def network(ctx, keep, ret=None, k=None):
    used = {s for r in keep for side in OXY_R[r - 1].split(' -> ') for s in split(side)}
    sp = {}
    for s in used - {'e', 'M'}:
        sp[s] = {'lj_sigma': 3., 'stick_coef': 0.}
    for s, to in (ret or {}).items():
        sp[s].update({'stick_coef': 1., 'ret_coefs': dict(to)})
    return oxygen(keep=keep, species=sp, reactions={r: {'arrh_a': k[r], 'units': {'arrh_a': cm(OXY_R[r - 1])}} for r in keep} if k else None)


def involved(nt, r, s):
    return s in nt.sides[r][0] or s in nt.sides[r][1]


def species(ctx, keep):
    E = errs()
    with ctx.guard('chemistry'):
        nt = network(ctx, keep)
        chem = nt.chemistry()
        ids = disable(ctx, chem, [r.id for r in nt.reactions], [r.id for r in nt.reactions][2:] if 5 in keep else [])
        m = method(chem)
        other = chem.copy()
    names, sids = list(chem.get_species_name()), list(chem.get_species_id())
    k = {r: ctx.real('k{}'.format(r), 0, 100) for r in ids}
    x = {s: ctx.real('x{}'.format(s), 0, 1) for s in names}
    kx, kk = ctx.choice('factors', ['array', 'series', 'list', 'other index', 'short']), ctx.choice('values', ['array', 'series', 'other index', 'short'])
    xs = as_series(ctx, [x[s] for s in names][1 if kx == 'short' else 0:], sids[::-1] if kx == 'other index' else sids,
                   {'other index': 'series', 'short': 'array'}.get(kx, kx))
    ks = as_series(ctx, [k[r] for r in ids][1 if kk == 'short' else 0:], ids[::-1] if kk == 'other index' else ids,
                   {'other index': 'series', 'short': 'array'}.get(kk, kk))
    with ctx.guard('only its own errors'):
        try:
            got = m._map_species_factors_to_k(xs, ks, other)
            ok = 'ok'
        except E:
            ok = 'refused'
        except TypeError:
            ok = 'type'
    bad = kx == 'short' or kk == 'short' or kx == 'other index' and len(sids) > 1 or kk == 'other index' and len(ids) > 1
    ctx.check(ok == ('type' if kx == 'list' else 'refused' if bad else 'ok'), 'factors which do not belong to the chemistry are refused')
    if ok != 'ok' or bad:
        return
    for g, r in zip(got, ids):
        want = k[r]
        for s in names:
            if involved(nt, r, s):
                want = want * 2 * x[s]
        ctx.check_eq(g, want, 'nominal value times twice the factor of each species in the reaction', scale=1)
    ctx.check(all(bool(a == k[r]) for a, r in zip(ks, ids)), 'nominal values stay')


PAIRS = {'argon': ([2, 3, 5], {'Ar*': {'Ar': .5, 'Ar*': .5}, 'Ar+': {'Ar': .25, 'Ar*': .25, 'Ar+': .5}})}


def ret_coef(ctx, by):
    """one return coefficient"""
    E = errs()
    keep, ret = PAIRS['argon']
    ret = {s: dict(to) for s, to in ret.items()}
    now = {p: ctx.real('ret Ar+ ' + p, 0, 1) for p in ('Ar', 'Ar*', 'Ar+')}
    ret['Ar+'] = now
    stuck = ctx.choice('stuck', ['Ar+', 'Ar+', 'Ar', 'e'])
    back = ctx.choice('returned', ['Ar', 'Ar*', 'Ar+', 'e'])
    with ctx.guard('chemistry'):
        nt = network(ctx, keep, ret)
        chem = nt.chemistry()
        m = method(chem)
        other = chem.copy()
    nominal = ctx.real('nominal', -0.1, 1)
    x = 0.5 if by == 'range' else ctx.choice('x', [0., 0.25, 1.]) if by == 'nominal' else ctx.real('x', 0, 1)
    rng = 4. if by != 'range' else ctx.real('range', 0.5, 3)
    sp = {'name': stuck, 'id': other.get_rp(stuck).id, 'object': other.get_rp(stuck)}[ctx.choice('given as', ['name', 'id', 'object'])]
    with ctx.guard('only its own errors'):
        try:
            got = m._map_a_factor_to_ret_coef(x, sp, back, nominal, other, rng)
            ok = True
        except E:
            ok = False
    if ctx.symbolic:
        from symx.core import sym_pow
        new = nominal * sym_pow(rng, 2 * x - 1) if by != 'nominal' else nominal * rng ** (2 * x - 1)
    else:
        new = nominal * rng ** (2 * x - 1)
    right = stuck == 'Ar+' and back in ('Ar', 'Ar*') and rng > 1 and nominal > 0
    possible = right and now['Ar+'] - (new - now[back]) >= 0
    if ctx.symbolic or not right or abs(now['Ar+'] - (new - now[back])) > 1e-9:
        ctx.check(ok == bool(possible), 'changes which are not possible are refused')
    with ctx.guard('chemistry'):
        mat, was = other.get_return_matrix(), chem.get_return_matrix()
    for s in mat.columns:
        for p in mat.index:
            a, b = nt_name(nt, s), nt_name(nt, p)
            ctx.check_eq(was.at[p, s], ret.get(a, {}).get(b, 0.), 'the given chemistry stays', scale=1)
            want = ret.get(a, {}).get(b, 0.)
            if ok and possible and a == 'Ar+' and b == back:
                want = new
                ctx.check_eq(got[a][b], new, 'changed coefficients are handed out', scale=1)
            elif ok and possible and a == 'Ar+' and b == 'Ar+':
                want = now['Ar+'] + now[back] - new
                ctx.check_eq(got[a][b], want, 'changed coefficients are handed out', scale=1)
            ctx.check_eq(mat.at[p, s], want, 'the coefficient, and what returns as itself', scale=1)


def nt_name(nt, i):
    return [n for n, rp in nt.rp.items() if rp.id == i][0]


class Recorder(object):
    """stands for the backend model: what each run would see, arbitrary results"""

    def __init__(self, ctx, tag):
        self.ctx, self.tag, self.seen, self.frames, self.kw = ctx, tag, [], [], []

    def run(self, model, *a, **kw):
        from pygmo_fwork.exceptions import GlobalModelLogError
        chem = model.model.chemistry
        self.seen.append((dict(chem.get_reactions_arrh_a(si_units=False)), chem.get_return_matrix(), chem))
        self.kw.append(kw)
        k = len(self.seen) - 1
        self.frames.append(build(self.ctx, t=[0., 1.], Te=[1. + k, self.ctx.real('{} Te{}'.format(self.tag, k), 0.1, 10)]))
        if kw.get('log_results'):
            d = os.path.join(kw['log_to'], kw['run_id'])
            if os.path.isdir(d) and not kw.get('overwrite'):
                raise GlobalModelLogError('already exists')
            os.makedirs(d, exist_ok=True)

    def patch(self):
        import pygmo_fwork.global_model as gmod
        me = self
        return patched(gmod.GlobalModel, run=lambda model, *a, **kw: me.run(model, *a, **kw),
                       get_solution=lambda model: me.frames[-1].copy())


def run(ctx, keep, kind, seeds=(0.45, 0.75, 0.05), pairs=None, history=(), conf=False):
    """whole trajectories"""
    import yaml
    from pygmo_fwork.optichem.morris import MorrisMethod
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    E = errs()
    k = {r: ctx.real('k{}'.format(r), 1, 100) for r in keep}
    ret = {s: dict(to) for s, to in PAIRS['argon'][1].items()} if pairs else None
    if pairs:
        for s, p in pairs:
            ret[s][p] = ctx.real('ret {} {}'.format(s, p), 0.01, 0.1)
    with ctx.guard('chemistry'):
        nt = network(ctx, keep, ret, k)
        chem = nt.chemistry()
        ids, names = [r.id for r in nt.reactions], list(chem.get_species_name())
        nominal = dict(chem.get_reactions_arrh_a(si_units=False))
        was = chem.get_return_matrix()
        backend = ctx.choice('backend', ['PyGMol', 'pygmol']) if history else 'pygmol'
        par = dict(PAR, feeds={names[0]: 10.})
        m = MorrisMethod(chem, ModelParameters(dict(par)) if history and once(ctx, 'parameters object') else dict(par), backend)
    ranges = [2., 3., 1.5][:len(pairs)] if pairs and once(ctx, 'range each') else 2. if pairs else None
    ran = dict(zip(pairs, ranges if isinstance(ranges, list) else [ranges] * 3)) if pairs else {}
    full = bool(history) != once(ctx, 'other logs') if not history or 'unfinished' in history else False
    factors = {'reactions': ids, 'species': names, 'return_coefficients': ['r({}>{})'.format(*p) for p in pairs or []]}[kind]
    with scratch() as base, configured(base) as ws:
        top = os.path.join(ws, 'results', 'morris_sensitivity') if conf else base
        done = []
        for j, what in enumerate(('first',) + tuple(history)):
            rnd, rec = Random(ctx, seeds), Recorder(ctx, 'run{}'.format(j))
            rnd.n, rnd.fixed = 101 * j, bool(history)
            now, other = m, kind
            with ctx.guard('change'):
                if what == 'other type':
                    other = 'species' if kind == 'reactions' else 'reactions'
                elif what == 'other parameters':
                    now = MorrisMethod(chem, dict(par, pressure=60.), backend)
                elif what == 'other chemistry':
                    ch = chem.copy()
                    ch.disable(reactions=[ids[0]])
                    now = MorrisMethod(ch, dict(par), backend)
                elif what == 'spelled':
                    now = MorrisMethod(chem, dict(par), backend.swapcase())
                elif what == 'unfinished':
                    d = os.path.join(top, 'M', 'logs', 'traj{:03d}'.format(len(done) + 1))
                    os.makedirs(os.path.join(d, '0_initial_run'))
            kw = dict(ret_species=pairs, rel_ranges=ranges) if kind == other == 'return_coefficients' else {}
            out = io.StringIO()
            with ctx.guard('only its own errors'), rnd.patch(), rec.patch(), contextlib.redirect_stdout(out):
                try:
                    now.run_trajectory('M', other, morris_results_dir=None if conf else top, full_log=full, compress_solution=False,
                                       verbosity=2 if j == 0 and not history else 0, **kw)
                    ok = True
                except E:
                    ok = False
            good = not what.startswith('other')
            ctx.check(ok == good, 'trajectories of one run are coherent, or refused')
            if not ok or not good:
                continue
            done.append(what)
            logs = os.path.join(top, 'M', 'logs')
            d = os.path.join(logs, 'traj{:03d}'.format(len(done)))
            with open(os.path.join(d, 'meta.yaml')) as f:
                meta = yaml.full_load(f)
            ctx.check(sorted(map(str, meta['factors_ids'])) == sorted(map(str, factors)), 'each factor changes once')
            ctx.check(all(type(i) is type(f) for i in meta['factors_ids'] for f in factors[:1]), 'factors by name or id')
            ctx.check(len(meta['run_ids']) == len(meta['deltas']) == len(factors), 'each factor changes once')
            runs = [meta['base_run_id']] + meta['run_ids']
            ctx.check(len(rec.seen) == len(runs), 'one run for each step')
            ctx.check(len(set(runs)) == len(runs) and sorted(os.listdir(d)) == sorted(runs + ['meta.yaml']), 'a log of each run')
            ctx.check(all(bool(q.get('log_results')) == full and (not full or (q['run_id'] == i and os.path.realpath(q['log_to']) == os.path.realpath(d)))
                          for q, i in zip(rec.kw, runs)), 'a log of each run')
            x = dict(zip(factors, rnd.first))
            for n, (i, (arrh, mat, ch)) in enumerate(zip(runs, rec.seen)):
                if n:
                    f = meta['factors_ids'][n - 1]
                    x[f] = x[f] + meta['deltas'][n - 1]
                    ctx.check(bool(0 < x[f]) and bool(x[f] < 1), 'stays in the unit cube')
                ctx.check(ch is not chem, 'the given chemistry stays')
                for r in ids:
                    want = nominal[r]
                    if kind == 'reactions':
                        want = want * 2 * x[r]
                    elif kind == 'species':
                        for s in names:
                            if involved(nt, r, s):
                                want = want * 2 * x[s]
                    ctx.check_eq(arrh[r], want, 'each run is of the chemistry of its factors', scale=1)
                for s in mat.columns:
                    a = nt_name(nt, s)
                    for p in mat.index:
                        b = nt_name(nt, p)
                        want = was.at[p, s]
                        if pairs and (a, b) in pairs:
                            want = want * power(ctx, ran[a, b], 2 * x['r({}>{})'.format(a, b)] - 1)
                        elif pairs and a == b:
                            for q, to in pairs:
                                if q == a:
                                    o = ret[a][to]
                                    want = want + o - o * power(ctx, ran[a, to], 2 * x['r({}>{})'.format(a, to)] - 1)
                        ctx.check_eq(mat.at[p, s], want, 'each run is of the chemistry of its factors', scale=1)
                if not full:
                    from pygmo_fwork.results import ResultsParser
                    sol = ResultsParser(nominal_results_dir=d).fetch_solution(i)
                    for c in ('Te', 't') if 't' in sol.columns else ('Te',):
                        for a, b in zip(sol[c], rec.frames[n][c]):
                            ctx.check_eq(a, b, 'the log of each run is its solution', scale=1)
            with ctx.guard('chemistry'):
                after = dict(chem.get_reactions_arrh_a(si_units=False))
                mat = chem.get_return_matrix()
            for r in ids:
                ctx.check_eq(after[r], nominal[r], 'the given chemistry stays')
            ctx.check(bool((mat.to_numpy() == was.to_numpy()).all()), 'the given chemistry stays')


def power(ctx, a, b):
    if ctx.symbolic:
        from symx.core import sym_pow
        return sym_pow(a, b)
    return a ** b


def tasks(tier):
    big = tier != 'quick'
    out = [Task('nearest {}'.format(n), 'nearest', {'n': n}, ['nearest point of the grid']) for n in (1,) + (2,) * big]
    for n in (1, 2) + (3,) * big:
        out.append(Task('trajectory {}'.format(n), 'trajectory', {'n': n}, ['one factor changes by the step'] if n > 1 else ['seeds outside the grid are refused']))
    for n in (1, 2, 3):
        out.append(Task('reactions {}'.format(n), 'reactions', {'n': n}, ['twice the factor times the nominal value']))
    for keep in ([2, 3, 5], [6, 7, 8], [3, 13]):
        out.append(Task('species ' + '-'.join(map(str, keep)), 'species', {'keep': keep},
                        ['nominal value times twice the factor of each species in the reaction', 'factors which do not belong to the chemistry are refused']))
    for by in ('factor', 'nominal', 'range'):
        out.append(Task('return coefficient by ' + by, 'ret_coef', {'by': by}, ['changes which are not possible are refused', 'changed coefficients are handed out']))
    L = ['each run is of the chemistry of its factors']
    A, B = (3, 6), (0, 9)
    for keep, kind, seeds in (([2, 3], 'reactions', [B, 0.75]), ([2, 3], 'species', [A, 0.75, 0.05]), ([2, 3, 5], 'reactions', [0.45, A, 0.95]),
                              ([6, 7], 'species', [0.75, A, 0.05])) + ((([2, 3], 'reactions', [B, B]), ([6, 7, 8], 'reactions', [A, A, A])) if big else ()):
        out.append(Task('run {} {}{}'.format(kind, '-'.join(map(str, keep)), ' all' * (seeds == [B, B])), 'run', {'keep': keep, 'kind': kind, 'seeds': seeds}, L))
    out.append(Task('run in the configured directory', 'run', {'keep': [2, 3], 'kind': 'reactions', 'conf': True}, L))
    for pairs in ([('Ar+', 'Ar'), ('Ar*', 'Ar')], [('Ar+', 'Ar'), ('Ar+', 'Ar*')]) + (([('Ar+', 'Ar*'), ('Ar*', 'Ar'), ('Ar+', 'Ar')],) if big else ()):
        out.append(Task('run return coefficients ' + ' '.join('>'.join(p) for p in pairs), 'run',
                        {'keep': [2, 3, 5], 'kind': 'return_coefficients', 'pairs': pairs, 'seeds': [0.45, 0.75, 0.05]}, L))
    for kind in ('reactions', 'species'):
        for h in ('again', 'other type', 'other parameters', 'other chemistry', 'spelled', 'unfinished'):
            out.append(Task('{} then {}'.format(kind, h), 'run', {'keep': [2, 3], 'kind': kind, 'seeds': [0.45, 0.75, 0.05], 'history': [h, 'again']}, L))
    return out
