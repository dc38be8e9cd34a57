"""C19: the neutral model solves the neutral part of the equations, without electrons"""
from scipy import constants as C

from checks.c12 import SCCM
from checks.c16 import bare
from checks.c18 import Result, Solver, frame, last, patched, trajectory
from checks.chemlib import OXY, Net, arrh_unit, split
from checks.eqlib import NETS, Stub, State, params, product, rate_coefs, total
from checks.util import errors
from symx.core import is_sym, ite, sym_pow
from symx.runner import Task

BOUNDS = ('neutral networks of 2..4 species and up to three reactions (with third bodies), all densities, sticking and return '
          'coefficients, feeds, pressure and chamber size; any combination of charged species offered to the neutral chemistry')
ASSUMPTIONS = ['square roots and powers are uninterpreted functions with their basic laws', 'densities of at least 2 m-3 '
               '(the lower limit is C12)']
MORE = {'pair': ['A + A + M -> A + A + M', 'B + A -> A + B'], 'cluster': ['B + B + M -> B2 + M', 'B2 + A -> B + B + A', 'B + B2 -> B2 + B']}


def sqrt(x):
    return sym_pow(x, 0.5) if is_sym(x) else x ** 0.5


def expected(chem, par, feeds, st):
    """derivatives of the densities, term by term from the documentation"""
    n, tg = st.n, par['temp_gas']
    ks = range(len(n))
    n_tot = total(n)
    k = rate_coefs(chem, None, tg)
    dens = dict(zip(chem.names, n), M=n_tot)
    r = [k[j] * product(dens[s] for s in chem.sides[j][0]) for j in range(len(chem.strings))]
    vol = C.pi * par['radius'] * par['radius'] * par['length']
    area = 2 * C.pi * par['radius'] * (par['radius'] + par['length'])
    p = C.k * tg * n_tot
    flow = []
    for i, s in enumerate(chem.names):
        flow.append((feeds.get(s, 0.) - total(feeds.values()) * n[i] / n_tot) * SCCM / vol - n[i] * 1000. * (p - par['pressure']) / par['pressure'])
    v = [sqrt(8 * C.k * tg / (C.pi * (chem.mass[i] * C.atomic_mass))) for i in ks]
    sig = [[(chem.sigma[i] + chem.sigma[j]) ** 2 * 1e-20 if i != j else 0. for j in ks] for i in ks]
    mfp = [1 / total(n[j] * sig[i][j] for j in ks) for i in ks]
    d = [C.pi / 8 * mfp[i] * v[i] for i in ks]
    lam = 1 / sqrt((C.pi / par['length']) ** 2 + (2.405 / par['radius']) ** 2)
    flux = [-(d[i] * n[i] * chem.stick[i] / (chem.stick[i] * lam + 4 * d[i] / v[i])) for i in ks]
    sink = [f * area / vol for f in flux]
    wall = [sink[i] - total(sink[j] * chem.ret[i][j] for j in ks) for i in ks]
    src = [total(c * x for c, x in zip(chem.count(s, 'net'), r)) for s in chem.names]
    return r, flux, d, [src[i] + flow[i] + wall[i] for i in ks], [
        total(abs(c) * x for c, x in zip(chem.count(chem.names[i], 'net'), r)) + total(abs(s) for s in sink) * 3
        + n[i] * 1000. * (p + par['pressure']) / par['pressure'] + total(feeds.values()) * SCCM / vol for i in ks]


def solved(ctx, net, opts, symbolic=(), points=2, order=None):
    import pygmo_fwork.pygmol.model as mod
    from pygmo_fwork.pygmol.neutral_model import NeutralEquations, NeutralModel
    errs = errors('pygmo_fwork.pygmol.exceptions')
    chem = Stub(ctx, (NETS if net in NETS else MORE)[net], opts=opts, order=order)
    feeds = {s: ctx.real('flow ' + s, 1e-16, 1e-14) for s in chem.names[:1]}
    par = params(ctx, chem, symbolic=symbolic, feeds=feeds)
    with ctx.guard('model'):
        m = bare(NeutralModel, chem, par)
    states, times, t, y = trajectory(ctx, chem, par, points, 'a')
    # no electrons, no energy
    for k in range(points):
        states[k].rho = 0.
        y[-1, k] = 0.
    solver = Solver(ctx, lambda k: Result(t, y, True))
    with patched(mod, solve_ivp=solver), ctx.guard('run'):
        m.run()
        got = list(solver.calls[0]['fun'](0.5, states[0].y()))
        sol, fin, r, rf, w, wf = (m.get_solution(), m.get_solution_final(), m.get_rates(), m.get_rates_final(), m.get_wall_fluxes(),
                                  m.get_wall_fluxes_final())
        diff = m.diagnose('diffusivities')
        dens = m.diagnose('electron_density')
        eq = NeutralEquations(chem, m.model_params)
        alone = list(eq.get_dn_dt(states[0].y()))
    want = [expected(chem, par, feeds, st) for st in states]
    ctx.check(len(got) == len(chem.names) + 1, 'derivatives of the densities')
    for i in range(len(chem.names)):
        ctx.check_eq(got[i], want[0][3][i], 'derivatives of the densities', scale=want[0][4][i])
        ctx.check_eq(alone[i], got[i], 'derivatives of the densities from the state alone')
    ctx.check_eq(got[-1], 0., 'the electron energy stays zero')
    cols = ['t'] + chem.names + ['e', 'Te', 'Tg', 'p']
    ctx.check(list(sol.columns) == cols and list(fin.index) == cols, 'solution: columns')
    if list(sol.columns) == cols:
        import math
        ctx.check(all(isinstance(x, float) and math.isnan(x) for x in list(sol['Te'])), 'no electron temperature')
        frame(ctx, sol.drop(columns='Te'), [c for c in cols if c != 'Te'],
              [[tt] + st.n + [0., par['temp_gas'], st.p] for st, tt in zip(states, times)], 'solution')
    frame(ctx, r, ['t'] + list(chem.get_reactions_id()), [[tt] + x[0] for x, tt in zip(want, times)], 'rates')
    last(ctx, rf, list(chem.get_reactions_id()), want[-1][0], 'final rates')
    frame(ctx, w, ['t'] + chem.names, [[tt] + x[1] for x, tt in zip(want, times)], 'wall fluxes')
    last(ctx, wf, chem.names, want[-1][1], 'final wall fluxes')
    frame(ctx, diff, ['t'] + chem.names, [[tt] + x[2] for x, tt in zip(want, times)], 'diffusivities')
    frame(ctx, dens, ['t', 'value'], [[tt, 0.] for tt in times], 'no electrons')


NEUTRAL_R = ['O + O + M -> O2 + M', 'Ar* + M -> Ar + M', 'Ar* + O2 -> Ar + O2', 'e + O2 -> e + O + O', 'Ar+ + O2 -> Ar + O2+',
             'O- + O2+ -> O + O2', 'O- + Ar+ -> O + Ar']


def chemistry(ctx, most):
    """a neutral chemistry takes neutral species only, and knows no electrons"""
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry
    errs = errors('plaschem.exceptions')
    keep = [k for k in range(len(NEUTRAL_R)) if ctx.flag('reaction {}'.format(k))]
    if not 1 <= len(keep) <= most:
        return
    names = set(n for k in keep for side in NEUTRAL_R[k].split(' -> ') for n in split(side))
    net = Net({n: dict(OXY[n]) for n in OXY if n in names},
              [(NEUTRAL_R[k], {'arrh_a': 1e-16, 'id': 3 * k + 2}, {'arrh_a': arrh_unit(NEUTRAL_R[k])}) for k in keep])
    charged = any(n == 'e' or OXY[n].get('charge', 0) for n in names)
    with ctx.guard('only the errors of the package'):
        try:
            c = net.chemistry(cls=NeutralChemistry)
        except errs:
            c = None
    ctx.check((c is not None) == (not charged), 'neutral species and nothing else')
    if c is None:
        return
    with ctx.guard('stoichiometry'):
        for method in ('lhs', 'rhs', 'net'):
            e = c.get_reactions_stoich_coefs_electron(method=method)
            ctx.check(list(e.index) == sorted(3 * k + 2 for k in keep) and all(x == 0 for x in e), 'no electron in any reaction')
        live = list(c.get_species_name())
    ctx.check(sorted(live) == sorted(n for n in names if n != 'M'), 'all species are there')
    # disabling works without ions
    with ctx.guard('disable'):
        try:
            c.disable(ctx.choice('species', live))
        except errs:
            pass
        x = c.copy()
    ctx.check(type(x) is NeutralChemistry, 'copies are neutral chemistries')


def charged(ctx, net):
    """a model of neutrals refuses ions"""
    from pygmo_fwork.pygmol.neutral_model import NeutralEquations, NeutralModel
    chem = Stub(ctx, NETS[net], opts=('none',))
    chem.charge = [ctx.choice('charge ' + s, [0, 1, -1]) for s in chem.names]
    par = params(ctx, chem)
    for cls in (NeutralModel, NeutralEquations):
        try:
            bare(cls, chem, par)
            ok = True
        except Exception:
            ok = False
        ctx.check(ok == (not any(chem.charge)), 'charged species are refused')


def tasks(tier):
    lab = ['derivatives of the densities', 'rates: values', 'wall fluxes: values', 'the electron energy stays zero']
    out = [Task('solved neutral', 'solved', {'net': 'neutral', 'opts': ('stick',)}, lab),
           Task('solved pair', 'solved', {'net': 'pair', 'opts': ('stick', 'ret')}, lab),
           Task('solved cluster', 'solved', {'net': 'cluster', 'opts': ('arrh_a',), 'symbolic': ('pressure',), 'points': 3}, lab),
           Task('solved reversed', 'solved', {'net': 'neutral', 'opts': ('none',), 'order': [3, 2, 1, 0], 'points': 1}, lab),
           Task('chemistry', 'chemistry', {'most': 3 if tier == 'quick' else 7}, ['neutral species and nothing else']),
           Task('charged', 'charged', {'net': 'tiny' if tier == 'quick' else 'argon'}, ['charged species are refused'])]
    return out
