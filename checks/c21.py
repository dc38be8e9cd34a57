"""C21: results are interpolated, compressed, split into processes and compared without changing what they say"""
import contextlib
import io
import os
import warnings

from checks.c20 import configured, scratch
from checks.chemlib import oxygen
from checks.util import errors
from symx.instrument import lift
from symx.runner import Task

BOUNDS = ('frames of 1..4 rows and 1..2 outputs with arbitrary values, times, thresholds and request times (0..2); compressed logs as well as '
          'full ones; process tables of a network of 5 species and 5 reactions with arbitrary rates, fluxes and return coefficients, with '
          'reactions disabled, species given by id, name or object; up to 3 logged runs')
ASSUMPTIONS = ['values of the outputs are not zero', 'files are an environment which gives back what was written']
RATES = [2, 3, 4, 5, 13]


def build(ctx, **kw):
    import pandas as pd
    if not ctx.symbolic:
        return pd.DataFrame(kw, dtype=float)
    return pd.DataFrame({k: [lift(v) for v in vs] for k, vs in kw.items()}, dtype=object)


def times(ctx, n, fixed=None):
    t, out = ctx.real('t first', 0, 1) if fixed is None else 0.25, []
    for i in range(n):
        out.append(t)
        t = t + (ctx.real('dt{}'.format(i), 1e-4, 1) if fixed is None else fixed[i])
    return out


def compress(ctx, points, outputs, fixed=None, gaps=False, negative=()):
    from pygmo_fwork.results import ResultsParser
    ts = times(ctx, points, fixed)
    vals = {c: [ctx.real('{}{}'.format(c, i), 0.1, 10) for i in range(points)] for c in outputs}
    for c in negative:
        vals[c] = [-v for v in vals[c]]
    kw = {}
    if ctx.flag('thresholds given'):
        kw = {'diff_threshold': ctx.real('threshold', 0.001, 2), 'min_timestep': ctx.real('min step', 1e-4, 0.9)}
    sol = build(ctx, t=ts, **vals)
    if gaps:
        sol.index = [0, 2, 3, 7, 9][:points]
    keep = sol.copy()
    with ctx.guard('compress'):
        got = ResultsParser.compress_solution(sol, **kw)
    same(ctx, sol, keep, 'the full solution is left as it is')
    thr, step = kw.get('diff_threshold', 0.05), kw.get('min_timestep', 0.001) * ts[-1]

    def below(a, b):
        """None at a tie"""
        return True if a < b * (1 - 1e-9) else False if a > b * (1 + 1e-9) else None
    kept = [0]
    for i in range(1, points - 1):
        k = kept[-1]
        near = below(ts[i] - ts[k], step)
        if near is None:
            return
        if not near:
            near = True
            for c in outputs:
                b = below(abs(vals[c][i] - vals[c][k]), thr * abs(vals[c][k]))
                if b is None:
                    return
                if not b:
                    near = False
                    break
        if not near:
            kept.append(i)
    if points > 1:
        kept.append(points - 1)
    ctx.check(list(got.columns) == list(sol.columns), 'columns of the full solution')
    ctx.check(len(got) == len(kept), 'rows are dropped exactly when close to the row kept before')
    if len(got) == len(kept):
        same(ctx, got, keep.iloc[kept], 'rows are dropped exactly when close to the row kept before')


def same(ctx, a, b, label):
    ok = list(a.columns) == list(b.columns) and len(a) == len(b)
    ctx.check(ok, label)
    if ok:
        for i in range(len(a)):
            for c in a.columns:
                ctx.check_eq(a[c].iloc[i], b[c].iloc[i], label)


def frames(ctx, points, outputs, asked, fixed=None, again=False):
    from pygmo_fwork.results import ResultsParser
    ts = times(ctx, points, fixed)
    vals = {c: [ctx.real('{}{}'.format(c, i), -10, 10) for i in range(points)] for c in outputs}
    sol = build(ctx, t=ts, **vals)
    if ctx.flag('time last'):
        sol = sol[list(outputs) + ['t']]
    keep = sol.copy()
    want = [ctx.real('time{}'.format(i), -1, 6) for i in range(asked)]
    inside = all(ts[0] <= t and t <= ts[-1] for t in want)
    kind = ctx.choice('kind', [list, tuple])
    with ctx.guard('only an AssertionError'):
        try:
            got = ResultsParser.get_results_frames(sol, kind(want))
        except AssertionError:
            got = None
    ctx.check((got is not None) == bool(inside), 'times outside the results are refused')
    same(ctx, sol, keep, 'the results are left as they are')
    if got is None:
        return
    ctx.check(list(got.columns) == list(sol.columns) and len(got) == asked, 'one row per time')
    if list(got.columns) != list(sol.columns) or len(got) != asked:
        return
    for k, t in enumerate(want):
        ctx.check_eq(got['t'].iloc[k], t, 'rows are at the times asked for')
        for c in outputs:
            v = vals[c]
            at = v[-1]
            for i in range(points - 1):
                if ts[i] <= t and t <= ts[i + 1]:
                    at = v[i] + (v[i + 1] - v[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
                    break
            ctx.check_eq(got[c].iloc[k], at, 'linear between the rows', scale=10)
    if again and asked > 1 and want[0] < want[1]:
        with ctx.guard('frames of frames'):
            twice = ResultsParser.get_results_frames(got, want[:1])
        for c in outputs:
            ctx.check_eq(twice[c].iloc[0], got[c].iloc[0], 'linear between the rows', scale=10)


def disable(ctx, chem, ids, some):
    off = ctx.choice('disabled', [None] + some)
    if off is not None:
        with ctx.guard('disable'):
            chem.disable(reactions=[off])
    return [r for r in ids if r != off]


def handle(ctx, chem, name):
    """the species as a name, an id or an object; annotated or not"""
    rp = chem.get_rp(name)
    given, annotate = ctx.choice('species given as', [('name', False), ('id', True), ('object', True), ('name', True)])
    return {'name': name, 'id': rp.id, 'object': rp}[given], annotate


def net(ctx, keep=RATES, **species):
    return oxygen(keep=keep, species=species)


def once(ctx, name):
    memo = ctx.notes.setdefault('flags', {})
    if name not in memo:
        memo[name] = bool(ctx.flag(name))
    return memo[name]


def table(ctx, names):
    import pandas as pd
    out = {}
    if once(ctx, 'with the time'):
        out['t'] = 0.5
    out.update(names)
    return pd.Series(out, dtype=object if ctx.symbolic else float)


def volumetric(ctx, species):
    from pygmo_fwork.results import ResultsParser
    with ctx.guard('chemistry'):
        nt = net(ctx)
        chem = nt.chemistry()
        ids = [r.id for r in nt.reactions]
    ids = disable(ctx, chem, ids, ids[1::2])
    rates = {r: ctx.real('rate{}'.format(r), 1, 100) for r in ids}
    frame = table(ctx, {r: rates[r] for r in (reversed(ids) if once(ctx, 'with the time') else ids)})
    keep = frame.copy()
    sp = ctx.choice('species', species)
    if sp == 'M' and not any('M' in nt.sides[r][0] for r in ids):
        return
    given, annotate = handle(ctx, chem, sp)
    with ctx.guard('rates'):
        got = ResultsParser.get_volumetric_rates(given, chem, frame, annotate=annotate)
    ctx.check(all(keep[i] is frame[i] or bool(keep[i] == frame[i]) for i in frame.index), 'the rates are left as they are')
    want, text = {}, {}
    for r in nt.reactions:
        if r.id in ids:
            net_ = nt.sides[r.id][1].count(sp) - nt.sides[r.id][0].count(sp)
            if net_:
                want[r.id] = net_ * rates[r.id]
                text[r.id] = str(r)
    match(ctx, got, want, ['R{}'.format(r) for r in want], [text[r] for r in want], annotate, 'rate of every reaction of the species')
    for a, b in zip(list(got)[:-1], list(got)[1:]):
        ctx.check_le(b, a, 'largest first')


def match(ctx, got, want, tags, texts, annotate, label):
    if annotate:
        idx = {}
        for i, s in enumerate(got.index):
            tag = str(s).split()[0]
            idx[tag] = (i, str(s)[len(tag):].strip())
        ctx.check(sorted(idx) == sorted(tags) and len(got) == len(tags), label)
        if sorted(idx) != sorted(tags):
            return
        for (k, x), tag, text in zip(want.items(), tags, texts):
            ctx.check_eq(got.iloc[idx[tag][0]], x, label)
            ctx.check(idx[tag][1] == text, 'reaction of each rate')
    else:
        ctx.check(sorted(got.index) == sorted(want), label)
        if sorted(got.index) == sorted(want):
            for k, x in want.items():
                ctx.check_eq(got[k], x, label)


WALL = {'Ar*': ['Ar'], 'Ar+': ['Ar'], 'O': ['O2'], 'O2+': ['O2', 'O'], 'O-': []}


def walls(ctx, keep, chain, arbitrary=True):
    """a network with arbitrary return coefficients"""
    ret = {}
    species = {}
    for s, to in WALL.items():
        ret[s] = {}
        for p in to:
            if p in chain or s in chain:
                ret[s][p] = ctx.real('ret {} {}'.format(s, p), 0.1, 1)
            else:
                ret[s][p] = 0.5
        species[s] = {'stick_coef': 1., 'lj_sigma': 3., 'ret_coefs': dict(ret[s])}
    species['Ar'] = {'lj_sigma': 3., 'stick_coef': 0.}
    species['O2'] = {'lj_sigma': 3., 'stick_coef': 0.}
    nt = oxygen(keep=keep, species={k: v for k, v in species.items()})
    return nt, ret


def surface(ctx, keep, species):
    import math
    from pygmo_fwork.results import ResultsParser
    with ctx.guard('chemistry'):
        nt, ret = walls(ctx, keep, species)
        chem = nt.chemistry()
    names = list(chem.get_species_name())
    par = {'radius': ctx.real('radius', 0.1, 1), 'length': ctx.real('length', 0.1, 1)}
    flux = {s: -ctx.real('flux ' + s, 1, 100) for s in names}
    frame = table(ctx, flux)
    sp = ctx.choice('species', species)
    given, annotate = handle(ctx, chem, sp)
    with ctx.guard('rates'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = ResultsParser.get_surface_rates(given, chem, par, frame, annotate=annotate)
    if sp in ('e', 'M'):
        ctx.check(len(got) == 0, 'no surface processes of the electron and the arbitrary species')
        return
    ratio = 2 * (par['radius'] + par['length']) / (par['radius'] * par['length'])
    want, texts = {}, []
    for s in names:
        x = None
        if s == sp:
            x = flux[s] * ratio * (1 - ret.get(s, {}).get(sp, 0))
            texts.append('{} + wall > wall'.format(sp))
        elif sp in ret.get(s, {}):
            x = -flux[s] * ratio * ret[s][sp]
            texts.append('{} + wall > {} + wall'.format(s, sp))
        if x is not None:
            want[chem.get_rp(s).id] = x
    match(ctx, got, want, ['S{}'.format(k) for k in want], texts, annotate, 'rate of every process at the wall')


def balance(ctx, keep, species):
    """the processes of a species add up to its terms in the equations"""
    from pygmo_fwork.pygmol.equations import Equations
    from pygmo_fwork.results import ResultsParser
    from checks.c20 import PAR, Sized
    from checks.eqlib import State
    import pandas as pd
    with ctx.guard('chemistry'):
        nt, ret = walls(ctx, keep, [])
        chem = nt.chemistry()
        ids = [r.id for r in nt.reactions]
    ids = disable(ctx, chem, ids, ids[-1:])
    names = list(chem.get_species_name())
    par = dict(PAR, feeds={species[0]: 10.})
    st = State(ctx, Sized(chem), par)
    dtype = object if ctx.symbolic else float
    with ctx.guard('rates'):
        eq = Equations(chem, par)
        rates = pd.Series(list(eq.get_reaction_rates(st.y())), index=list(chem.get_reactions_id()), dtype=dtype)
        vol = list(eq.get_volumetric_source_rates(st.y()))
        flux = pd.Series(list(eq.get_wall_fluxes(st.y())), index=names, dtype=dtype)
        dif = list(eq.get_diffusion_source_rates(st.y()))
        sp = ctx.choice('species', species)
        k = names.index(sp)
        v = ResultsParser.get_volumetric_rates(sp, chem, rates)
        s = ResultsParser.get_surface_rates(sp, chem, par, flux)
    ctx.check_eq(sum(list(v), 0.), vol[k], 'reactions of a species add up to its source', scale=sum([abs(x) for x in v], 0.) if not ctx.symbolic else None)
    ctx.check_eq(sum(list(s), 0.), dif[k], 'wall processes of a species add up to its diffusion source',
                 scale=sum([abs(x) for x in s], 0.) if not ctx.symbolic else None)


def printing(ctx, sp, unit):
    """the printed list holds the n largest processes of the right sign, in the unit asked for"""
    from pygmo_fwork.results import ResultsParser
    keep = [2, 4, 5]
    with ctx.guard('chemistry'):
        nt, ret = walls(ctx, keep, [])
        chem = nt.chemistry()
    names, ids = list(chem.get_species_name()), list(chem.get_reactions_id())
    par = {'radius': 0.1, 'length': 0.25}
    big = 1e6 if unit.startswith('cm') else 1.
    rates = {r: ctx.real('rate{}'.format(r), 1, 9) * big for r in ids}
    flux = {s: -ctx.real('flux ' + s, 0.1, 0.9) * big for s in names}
    produced = ctx.flag('production')
    n = ctx.choice('n', [None, 1, 2])
    out = io.StringIO()
    fn = ResultsParser.print_production_processes if produced else ResultsParser.print_consumption_processes
    with ctx.guard('printing'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(out):
            fn(sp, chem, par, table(ctx, rates), table(ctx, flux), n=n, unit=unit)
    rows = []
    for line in out.getvalue().split('\n'):
        w = line.split()
        if len(w) > 2 and w[0][0] in 'RS' and w[0][1:].isdigit():
            rows.append((w[0], w[-1]))
    want = {}
    for r in nt.reactions:
        net_ = nt.sides[r.id][1].count(sp) - nt.sides[r.id][0].count(sp)
        if net_ and (net_ > 0) == produced:
            want['R{}'.format(r.id)] = net_ * rates[r.id]
    if sp not in ('e', 'M'):
        ratio = 2 * (0.1 + 0.25) / (0.1 * 0.25)
        for s in names:
            if s == sp and not produced:
                want['S{}'.format(chem.get_rp(s).id)] = flux[s] * ratio
            elif s != sp and sp in ret.get(s, {}) and produced:
                want['S{}'.format(chem.get_rp(s).id)] = -flux[s] * ratio * ret[s][sp]
    size = len(want) if n is None else min(n, len(want))
    ctx.check(len(rows) == size and all(t in want for t, _ in rows), 'the processes of the right sign, as many as asked for')
    if len(rows) != size or any(t not in want for t, _ in rows):
        return
    factor = 1e-6 if unit.startswith('cm') else 1
    for t, text in rows:
        if ctx.symbolic:
            m = ctx.unmark(text)
            ctx.check(m is not None, 'printed rates')
            if m is not None:
                ctx.check_eq(m[0], want[t] * factor, 'printed rates')
        else:
            ctx.check_eq(float(text), want[t] * factor, 'printed rates', scale=100)
    for (a, _), (b, _) in zip(rows[:-1], rows[1:]):
        ctx.check_le(abs(want[b]), abs(want[a]), 'largest first')
    shown = {t for t, _ in rows}
    for t in want:
        if t not in shown:
            for s in shown:
                ctx.check_le(abs(want[t]), abs(want[s]), 'largest first')


def inconsistent(ctx):
    """frames of another chemistry are refused"""
    from pygmo_fwork.results import ResultsParser
    with ctx.guard('chemistry'):
        nt = net(ctx)
        chem = nt.chemistry()
    rates = {r.id: 1. for r in nt.reactions}
    flux = {s: -1. for s in chem.get_species_name()}
    fault = ctx.choice('fault', ['none', 'missing', 'more'])
    which = ctx.choice('frame', ['rates', 'fluxes'])
    d = rates if which == 'rates' else flux
    if fault == 'missing':
        d.pop(ctx.choice('which', list(d)))
    elif fault == 'more':
        d[999 if which == 'rates' else 'X'] = 1.
    with ctx.guard('only an AssertionError'):
        try:
            if which == 'rates':
                ResultsParser.get_volumetric_rates('Ar', chem, table(ctx, rates))
            else:
                ResultsParser.get_surface_rates('Ar', chem, {'radius': 0.1, 'length': 0.2}, table(ctx, flux))
            ok = True
        except AssertionError:
            ok = False
    ctx.check(ok == (fault == 'none'), 'frames of another chemistry are refused')


def compare(ctx, runs):
    import pandas as pd
    from pygmo_fwork.results import ResultsParser
    cols = ['Ar', 'Te']
    vals, ids = [], []
    with scratch() as top, configured(top) as ws:
        root, other, back = os.path.join(top, 'nominal'), os.path.join(top, 'others'), os.path.join(ws, 'results', 'pygkin')
        os.mkdir(root), os.mkdir(other), os.makedirs(back)
        for k in range(runs):
            where = ctx.choice('where{}'.format(k), ['nominal', 'other', 'file', 'other file', 'backend', 'backend file'] if k else
                               ['nominal', 'other', 'file', 'backend file'])
            d = os.path.join(other if where.startswith('other') else back if where.startswith('backend') else root, 'run{}'.format(k))
            os.mkdir(d)
            name = 'sol{}.csv'.format(k) if 'file' in where else 'solution.csv'
            v = [[ctx.real('{}{}_{}'.format(c, k, i), 1, 100) for c in cols] for i in range(2)]
            vals.append(v[-1])
            build(ctx, t=[0., 1.], **{c: [v[0][j], v[1][j]] for j, c in enumerate(cols)}).to_csv(os.path.join(d, name))
            if 'file' in where:
                # the usual name holds something else
                build(ctx, t=[0.], Ar=[-7.], Te=[-7.]).to_csv(os.path.join(d, 'solution.csv'))
            ids.append({'nominal': 'run{}'.format(k), 'other': ('run{}'.format(k), other), 'file': ['run{}'.format(k), name],
                        'other file': ('run{}'.format(k), other, name), 'backend': ('run{}'.format(k), 'PyGKin'),
                        'backend file': ('run{}'.format(k), 'pygkin', name)}[where])
        rel = ctx.flag('relative')
        with ctx.guard('compare'):
            got = ResultsParser(nominal_results_dir=root).compare(ids, relative_to_first=rel, printout=False)
        ctx.check(len(got) == runs and list(got.columns) == ['t'] + cols, 'one row per run')
        if len(got) != runs or list(got.columns) != ['t'] + cols:
            return
        for k in range(runs):
            ctx.check(str(got.index[k]).endswith('run{}'.format(k)), 'one row per run')
            for j, c in enumerate(cols):
                want = (vals[k][j] - vals[0][j]) / vals[0][j] * 100 if rel else vals[k][j]
                ctx.check_eq(got[c].iloc[k], want, 'final values, or their differences to the first run', scale=100 if rel else None)


def fetching(ctx):
    import pygmo_fwork.exceptions as ex
    from pygmo_fwork.results import ResultsParser
    E = errors('pygmo_fwork.exceptions')
    what = ctx.choice('what', ['fetch_solution', 'fetch_rates', 'fetch_wall_fluxes', 'fetch_model_params', 'fetch_initial_params'])
    files = {'fetch_solution': 'solution.csv', 'fetch_rates': 'rates.csv', 'fetch_wall_fluxes': 'wall_fluxes.csv'}
    custom = 'file_name' if what in files else 'attributes_dump_name'
    with scratch() as top:
        for d in ('a', 'b'):
            os.makedirs(os.path.join(top, d, 'run'))
        there = ctx.choice('file is in', ['a', 'b', 'nowhere'])
        name = ctx.choice('file name', [None, 'mine'])
        ask = ctx.choice('asked for', ['nominal', 'b', 'both', 'other run'])
        x = ctx.real('x', 1, 2)
        if there != 'nowhere':
            path = os.path.join(top, there, 'run', name or files.get(what, 'model_attributes.yaml'))
            if what in files:
                build(ctx, **{'t': [0.], '7': [x]}).to_csv(path)
            else:
                with open(path, 'w') as f:
                    f.write('model_params: {radius: 1.5}\ninitial_params: {init_el_temp: 2.5}\n')
        rp = ResultsParser(nominal_results_dir=os.path.join(top, 'a'))
        kw = {} if name is None else {custom: name}
        if ask in ('b', 'both'):
            kw['results_dir'] = os.path.join(top, 'b')
        if ask == 'both':
            kw['backend'] = 'pygmol'
        with ctx.guard('only the errors of the package'):
            try:
                got = getattr(rp, what)('other' if ask == 'other run' else 'run', **kw)
                end = 'ok'
            except ex.ResultsNotFoundError:
                end = 'not found'
            except ex.ResultsAttributeError:
                end = 'arguments'
            except E:
                end = 'other'
        want = 'arguments' if ask == 'both' else 'ok' if {'nominal': 'a', 'b': 'b'}.get(ask) == there else 'not found'
        ctx.check(end == want, 'the log asked for, or an error')
        if end == want == 'ok':
            if what in files:
                ctx.check_eq(got.iloc[0, 1], x, 'the log asked for')
                ctx.check(list(got.columns) == ['t', 7 if what == 'fetch_rates' else '7'], 'rates are labelled by the ids of the reactions')
            else:
                ctx.check(got == ({'radius': 1.5} if what == 'fetch_model_params' else {'init_el_temp': 2.5}), 'the log asked for')


def tasks(tier):
    big = tier != 'quick'
    L = 'rows are dropped exactly when close to the row kept before'
    out = []
    for p, o, fixed, kw in [(1, ['A'], None, {}), (2, ['A'], None, {}), (3, ['A'], None, {}), (4, ['A'], [.01, .4, .5, .1], {'gaps': True}),
                            (3, ['A', 'B'], [.1, .5, .5], {'negative': ['B']}), (5, ['A'], [.3, .3, .2, .4, .1], {})] + (
            [(4, ['A'], None, {}), (4, ['A', 'B'], [.1, .5, .5, .5], {'negative': ['A'], 'gaps': True})] if big else []):
        out.append(Task('compress {} rows {} outputs{}{}'.format(p, len(o), '' if fixed else ' any times', ' gaps' * bool(kw.get('gaps'))),
                        'compress', dict(points=p, outputs=o, fixed=fixed, **kw), [L]))
    for p, o, n, fixed, again in [(1, ['A'], 1, None, False), (2, ['A', 'B'], 1, None, False), (3, ['A'], 2, [.5, .5, .5], True), (4, ['A'], 1, None, False),
                                  (2, ['A'], 0, None, False)]:
        out.append(Task('frames {} rows {} times{}'.format(p, n, '' if fixed else ' any'), 'frames',
                        dict(points=p, outputs=o, asked=n, fixed=fixed, again=again),
                        ['times outside the results are refused'] + (['linear between the rows'] if n else [])))
    L = 'rate of every reaction of the species'
    for s in (['Ar', 'M'], ['Ar*'], ['e'], ['Ar+']):
        out.append(Task('volumetric ' + s[0], 'volumetric', {'species': s}, [L, 'reaction of each rate']))
    L = 'rate of every process at the wall'
    for keep, s in (([2, 3, 4], ['Ar', 'Ar*', 'Ar+']), ([6, 7, 8], ['O', 'O2']), ([6, 7, 8], ['O2+', 'O-']), ([3, 13], ['e', 'M'])):
        out.append(Task('surface ' + ' '.join(s), 'surface', {'keep': keep, 'species': s}, [L, 'reaction of each rate'] if s[0] != 'e' else
                        ['no surface processes of the electron and the arbitrary species']))
    L = ['reactions of a species add up to its source', 'wall processes of a species add up to its diffusion source']
    for keep, s in ((([2, 3, 5, 13], ['Ar', 'Ar*', 'Ar+']), ([6, 7, 8, 9], ['O2', 'O', 'O-', 'O2+'])) + ((([6, 7, 8, 9, 10], ['O2', 'O', 'O-', 'O2+']),) if big else ())):
        out.append(Task('balance ' + s[0], 'balance', {'keep': keep, 'species': s}, L))
    for s, u in (('Ar', 'm-3/s'), ('Ar*', 'cm-3/s'), ('Ar+', 'cm-3s-1'), ('e', 'm-3.s-1')):
        out.append(Task('printing {} {}'.format(s, u), 'printing', {'sp': s, 'unit': u}, ['printed rates', 'largest first']))
    out.append(Task('inconsistent', 'inconsistent', {}, ['frames of another chemistry are refused']))
    out.append(Task('compare', 'compare', {'runs': 2}, ['final values, or their differences to the first run']))
    if big:
        out.append(Task('compare 3', 'compare', {'runs': 3}, ['final values, or their differences to the first run']))
    out.append(Task('fetching', 'fetching', {}, ['the log asked for, or an error']))
    return out
