"""C18: solutions, rates and fluxes are those of the equations at the states and times the solver returned"""
import inspect

from checks.c16 import bare
from checks.eqlib import NETS, Stub, State, params, total
from checks.util import errors
from symx.runner import Task

BOUNDS = ('networks of 2..5 heavy species and 3..5 reactions (as many reactions as species, one more and more), 1..3 time points returned by '
          'the solver with arbitrary times and states, success and failure, up to two runs with the chemistry changed in between')
ASSUMPTIONS = ['the solver is replaced by a stub which returns arbitrary states and times', 'the electron density is positive']
QUANTITIES = {
    'value': ['total_density', 'total_pressure', 'electron_density', 'electron_temperature', 'ion_temperature', 'debye_length', 'sheath_voltage',
              'drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls', 'drho_dt_ions_walls', 'min_rho_correction', 'electron_energy_density'],
    'species': ['density_vector', 'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths',
                'free_diffusivities', 'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources', 'diffusion_source_rates',
                'min_n_correction', 'dn_dt'],
    'reactions': ['reaction_rates', 'reaction_rate_coefficients', 'el_en_losses'],
}


class Result(object):
    nfev, njev, nlu, status, message = 7, 3, 5, 0, 'the message of the solver'

    def __init__(self, t, y, success):
        self.t, self.y, self.success = t, y, success


class Solver(object):
    """stands for scipy.integrate.solve_ivp"""

    def __init__(self, ctx, make):
        self.ctx, self.make, self.calls = ctx, make, []

    def __call__(self, *a, **k):
        from scipy.integrate import solve_ivp
        b = inspect.signature(solve_ivp).bind(*a, **k)
        b.apply_defaults()
        b.arguments.setdefault('options', {})
        self.calls.append(dict(b.arguments))
        return self.make(len(self.calls) - 1)


class patched(object):
    def __init__(self, module, **kw):
        self.module, self.kw = module, kw

    def __enter__(self):
        self.old = {k: getattr(self.module, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.module, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.module, k, v)


def trajectory(ctx, chem, par, n, tag):
    import numpy as np
    states = [State(ctx, chem, par, tag='{}_{}'.format(tag, i)) for i in range(n)]
    times, t = [], 0.
    for i in range(n):
        t = t + ctx.real('dt{}_{}'.format(tag, i), 1e-6, 1)
        times.append(t)
    dtype = object if ctx.symbolic else float
    return states, times, np.array(times, dtype=dtype), np.array([list(s.y()) for s in states], dtype=dtype).T


def frame(ctx, df, columns, rows, label):
    """rows: list of lists of expected values"""
    ctx.check(list(df.columns) == columns, label + ': columns')
    ctx.check(len(df) == len(rows), label + ': one row per time')
    if list(df.columns) != columns or len(df) != len(rows):
        return
    for i, row in enumerate(rows):
        for c, x in zip(columns, row):
            ctx.check_eq(df[c].iloc[i], x, label + ': values')


def last(ctx, series, columns, row, label):
    ctx.check(list(series.index) == columns, label + ': columns')
    if list(series.index) == columns:
        for c, x in zip(columns, row):
            ctx.check_eq(series[c], x, label + ': values')


def observe(ctx, m, chem, par, states, times, cls=None, tag='', charged=True):
    from pygmo_fwork.pygmol.equations import Equations
    with ctx.guard('results'):
        sol, fin = m.get_solution(), m.get_solution_final()
        r, rf = m.get_rates(), m.get_rates_final()
        w, wf = m.get_wall_fluxes(), m.get_wall_fluxes_final()
        fresh = (cls or Equations)(chem, par)
    cols = ['t'] + chem.names + ['e', 'Te', 'Tg', 'p']
    temps = [fresh.get_electron_temperature(st.y()) for st in states]
    rows = [[t] + st.n + [st.n_e, te, par['temp_gas'], st.p] for st, te, t in zip(states, temps, times)]
    frame(ctx, sol, cols, rows, 'solution')
    last(ctx, fin, cols, rows[-1], 'final solution')
    ids = list(chem.get_reactions_id())
    rr = [list(fresh.get_reaction_rates(st.y())) for st in states]
    frame(ctx, r, ['t'] + ids, [[t] + x for t, x in zip(times, rr)], 'rates')
    last(ctx, rf, ids, rr[-1], 'final rates')
    ww = [list(fresh.get_wall_fluxes(st.y())) for st in states]
    frame(ctx, w, ['t'] + chem.names, [[t] + x for t, x in zip(times, ww)], 'wall fluxes')
    last(ctx, wf, chem.names, ww[-1], 'final wall fluxes')
    # what is handed out is a copy
    for df in (sol, r, w):
        df.iloc[:, :] = -1.
    with ctx.guard('results'):
        sol, r, w = m.get_solution(), m.get_rates(), m.get_wall_fluxes()
    frame(ctx, sol, cols, rows, 'solution')
    frame(ctx, r, ['t'] + ids, [[t] + x for t, x in zip(times, rr)], 'rates')
    frame(ctx, w, ['t'] + chem.names, [[t] + x for t, x in zip(times, ww)], 'wall fluxes')


def run(ctx, net, points, second=None):
    import pygmo_fwork.pygmol.model as mod
    from pygmo_fwork.pygmol.equations import Equations
    errs = errors('pygmo_fwork.pygmol.exceptions')
    chem = Stub(ctx, NETS[net], opts=('none',))
    par = params(ctx, chem, feeds={chem.names[0]: 10.}, t_end=ctx.real('t_end', 0.5, 5))
    temp_e = ctx.real('temp_e', 0.1, 100)
    init = {s: ctx.real('init ' + s, 1, 100) for s in reversed(chem.names)}
    with ctx.guard('model'):
        m = bare(mod.Model, chem, par)
    for f in ('get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes', 'get_wall_fluxes_final'):
        try:
            getattr(m, f)()
            ok = True
        except errs:
            ok = False
        ctx.check(not ok, 'no results before the run')
    ok_run = ctx.flag('success')
    fails = not ok_run and ctx.flag('solver raises')
    state = {}

    def make(k):
        if fails and k == 0:
            raise ValueError('array must not contain infs')
        states, times, t, y = trajectory(ctx, chem, par, points if k == 0 else 2, 'ab'[k])
        state['now'] = (states, times)
        return Result(t, y, ok_run if k == 0 else True)
    solver = Solver(ctx, make)
    ctx.assume(total(q * init[s] for s, q in zip(chem.names, chem.charge)) >= 1)
    with patched(mod, solve_ivp=solver):
        for k in range(2 if second and ok_run else 1):
            if k and second == 'chemistry':
                chem.a[0] = ctx.real('new a', 0, 10)
                chem.loss[1] = ctx.real('new loss', 0, 10)
            if k and second == 'species':
                # the last species and its reactions are disabled
                drop = len(chem.names) - 1
                keep = [j for j, s in enumerate(chem.sides) if chem.names[drop] not in s[0] + s[1]]
                for f in ('names', 'charge', 'comp', 'mass', 'sigma', 'stick', 'sp_ids'):
                    setattr(chem, f, getattr(chem, f)[:drop])
                chem.ret = [r[:drop] for r in chem.ret[:drop]]
                for f in ('strings', 'sides', 'a', 'b', 'c', 'loss', 'elastic', 'r_ids'):
                    setattr(chem, f, [getattr(chem, f)[j] for j in keep])
                init = {s: init[s] for s in chem.names}
                ctx.assume(total(q * init[s] for s, q in zip(chem.names, chem.charge)) >= 1)
            with ctx.guard('only the errors of the package'):
                try:
                    m.run(init_el_temp=temp_e, init_n=dict(init))
                    ok = True
                except errs as e:
                    ok = False
                    text = str(e)
            ctx.check(ok == bool(ok_run), 'a failed solution is an error')
            ctx.check(len(solver.calls) == k + 1, 'one solution')
            if len(solver.calls) != k + 1:
                return
            call = solver.calls[k]
            y0 = list(call['y0'])
            n_e = total(q * init[s] for s, q in zip(chem.names, chem.charge))
            ctx.check(len(y0) == len(chem.names) + 1, 'starts from the initial densities')
            for got, want in zip(y0, [init[s] for s in chem.names] + [1.5 * n_e * temp_e]):
                ctx.check_eq(got, want, 'starts from the initial densities')
            span = list(call['t_span'])
            ctx.check(len(span) == 2 and span[0] == 0, 'integrates from zero to the end time')
            ctx.check_eq(span[1], par['t_end'], 'integrates from zero to the end time')
            ctx.check(call.get('jac', call['options'].get('jac')) is None, 'no jacobian')
            with ctx.guard('equations'):
                fresh = Equations(chem, par)
            st = State(ctx, chem, par, tag='_probe{}'.format(k))
            with ctx.guard('derivatives'):
                got = list(call['fun'](0.5, st.y()))
                want = list(fresh.get_objective_functions()[0](0.5, st.y()))
            ctx.check(len(got) == len(want), 'integrates the equations of the present chemistry')
            for x, z in zip(got, want):
                ctx.check_eq(x, z, 'integrates the equations of the present chemistry')
            if not ok:
                if not fails:
                    ctx.check(Result.message in text, 'the message of the solver')
                    ctx.check(m.success() is False, 'success')
                continue
            ctx.check(m.success() is True, 'success')
            states, times = state['now']
            observe(ctx, m, chem, par, states, times)


def diagnose(ctx, net, kind, quantities, points=2):
    import pygmo_fwork.pygmol.model as mod
    from pygmo_fwork.pygmol.equations import Equations
    import numpy as np
    q = ctx.choice('quantity', quantities)
    totals = ctx.flag('totals')
    external = ctx.flag('another solution')
    chem = Stub(ctx, NETS[net], opts=('none',))
    par = params(ctx, chem, feeds={chem.names[0]: 10.})
    states, times, t, y = trajectory(ctx, chem, par, points, 'a')
    other, _, _, y2 = trajectory(ctx, chem, par, points, 'b') if external else (states, times, t, y)
    with ctx.guard('model'):
        m = bare(mod.Model, chem, par)
    solver = Solver(ctx, lambda k: Result(t, y, True))
    with patched(mod, solve_ivp=solver):
        with ctx.guard('run'):
            m.run()
            df = m.diagnose(q, sol_primary=y2.T if external else None, totals=totals)
            again = Equations(chem, par)
            vals = [np.array(getattr(again, 'get_' + q)(s.y())).tolist() for s in other]
    cols = {'value': ['value'], 'species': chem.names, 'reactions': list(chem.get_reactions_id())}[kind]
    rows = [[v] if kind == 'value' else v for v in vals]
    if totals:
        rows = [r + [total(r)] for r in rows]
        cols = list(cols) + ['total']
    frame(ctx, df, ['t'] + list(cols), [[x] + r for x, r in zip(times, rows)], 'quantity')


def tasks(tier):
    lab = ['solution: values', 'rates: values', 'wall fluxes: values', 'integrates the equations of the present chemistry',
           'a failed solution is an error']
    out = [Task('run ' + net, 'run', {'net': net, 'points': p}, lab) for net, p in (('argon', 2), ('negative', 2), ('double', 3), ('tiny', 1))]
    out += [Task('second ' + s, 'run', {'net': net, 'points': 1, 'second': s}, lab)
            for s, net in (('chemistry', 'double'), ('species', 'double'))]
    nets = ('double', 'negative', 'tiny') + (('argon', 'dimer', 'threebody') if tier != 'quick' else ())
    for net in nets:
        for kind, qs in QUANTITIES.items():
            out.append(Task('diagnose {} {}'.format(kind, net), 'diagnose', {'net': net, 'kind': kind, 'quantities': qs}, ['quantity: values']))
    return out
