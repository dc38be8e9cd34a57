"""C14: electron energy balance and the absorbed power"""
from scipy import constants as C

from checks.c13 import arr, setup, log, sqrt
from checks.eqlib import Stub, State, NETS, params, total
from symx.runner import Task
from symx.core import is_sym, ite

BOUNDS = ('networks of up to 5 reactions with elastic, inelastic, ionising and recombining electron collisions, all masses, energy '
          'losses, rates, temperatures; power profiles of 2..4 points with any values, times and steps, any time inside')
ASSUMPTIONS = ['the power profile is ordered in time and steps are further apart than the width they are given (2e-5 t_end)']


def losses(ctx, net, elastic, order=None):
    from pygmo_fwork.pygmol.equations import Equations
    chem = Stub(ctx, NETS[net], elastic=elastic, order=order, opts=('mass', 'loss'))
    par = params(ctx, chem, symbolic=('temp_gas',))
    with ctx.guard('equations'):
        eq = Equations(chem, par)
    st = State(ctx, chem, par)
    y = st.y()
    te = ctx.real('te', 0.1, 50)
    nr = range(len(chem.strings))
    r = [ctx.real('rate{}'.format(j), 0, 1e3) for j in nr]
    with ctx.guard('losses'):
        got = list(eq.get_el_en_losses(y, temp_e=te))
        own = list(eq.get_el_en_losses(y))
    want_own = []
    for j in nr:
        def loss(t):
            if elastic[j] and 'e' in chem.sides[j][0]:
                s = next(x for x in chem.names if x in chem.sides[j][0])
                m = chem.mass[chem.names.index(s)] * C.atomic_mass
                return 3 * C.m_e / m * (t - par['temp_gas'] * C.k / C.e)
            return chem.loss[j]
        want_own.append(loss(st.temp_e))
        ctx.check_eq(got[j], loss(te), 'elastic losses by mass ratio and temperature difference, others as declared',
                     scale=None if not elastic[j] else 3 * C.m_e / C.atomic_mass * 50.)
        ctx.check_eq(own[j], want_own[j], 'energy losses at the electron temperature of the state',
                     scale=None if not elastic[j] else 3 * C.m_e / C.atomic_mass * (st.temp_e + 1))
    ls = [ctx.real('given loss{}'.format(j), -10, 30) for j in nr]
    with ctx.guard('inelastic'):
        tot = eq.get_drho_dt_el_inel(y, el_en_losses=arr(ls), reaction_rates=arr(r))
        gl = eq.get_drho_dt_gain_loss(y, temp_e=te, reaction_rates=arr(r))
    ctx.check_eq(tot, total(ls[j] * r[j] for j in nr if 'e' in chem.sides[j][0]), 'collision losses sum over electron collisions',
                 scale=1e5)
    ctx.check_eq(gl, 1.5 * te * total(c * x for c, x in zip(chem.count('e', 'net'), r)), 'energy of created and destroyed electrons',
                 scale=1e6)


def wall(ctx, net):
    chem, par, eq = setup(ctx, net, ('mass',))
    st = State(ctx, chem, par)
    y = st.y()
    n = range(len(chem.names))
    te = ctx.real('te', 0.1, 50)
    d = [ctx.real('source{}'.format(i), -100, 100) for i in n]
    with ctx.guard('walls'):
        ew = eq.get_drho_dt_el_walls(y, temp_e=te, diff_source_rates=arr(d))
        sv = eq.get_sheath_voltage(y, temp_e=te)
        own = eq.get_sheath_voltage(y)
    ctx.check_eq(ew, -2 * te * total(q * x for q, x in zip(chem.charge, d)), 'electrons carry 2 Te to the walls', scale=1e5)
    m = [chem.mass[i] * C.atomic_mass for i in n if chem.charge[i] > 0]
    f = log(sqrt(total(m) / len(m) / (2 * C.pi * C.m_e)))
    ctx.check_eq(sv, te * f, 'sheath voltage')
    ctx.check_eq(own, st.temp_e * f, 'sheath voltage of the state')
    v = ctx.real('sheath', 0, 100)
    with ctx.guard('walls'):
        iw = eq.get_drho_dt_ions_walls(y, temp_e=te, sh_pot=v, diff_source_rates=arr(d))
    want = total(-(0.5 * te + v * chem.charge[i]) * d[i] for i in n if chem.charge[i] > 0)
    ctx.check_eq(iw, want, 'positive ions gain the sheath voltage times their charge', scale=1e5)


def temperature(ctx):
    """also where the solver strays: negative densities and energies"""
    chem, par, eq = setup(ctx, 'tiny', ('none',), ('temp_gas',))
    st = State(ctx, chem, par)
    ne, rho = ctx.real('ne', -1000, 1000), ctx.real('energy', -1000, 1000)
    ctx.assume((ne > 1e-3) | (ne < -1e-3))
    with ctx.guard('temperature'):
        got = eq.get_electron_temperature(st.y(), n_e=ne, rho=rho)
        ctx.check_eq(eq.get_electron_temperature(st.y()), st.temp_e, 'electron temperature of the state')
    te, tg = rho / ne * 2 / 3, par['temp_gas'] * C.k / C.e
    ctx.check_eq(got, ite(te > tg, te, tg) if is_sym(te) or is_sym(tg) else max(te, tg),
                 'electrons are never colder than the gas')


TERMS = ('ext', 'el_inel', 'gain_loss', 'el_walls', 'ions_walls', 'min_rho_correction')


def balance(ctx):
    chem, par, eq = setup(ctx, 'tiny', ('none',))
    st = State(ctx, chem, par)
    x = {k: ctx.real(k, -100, 100) for k in TERMS}
    with ctx.guard('balance'):
        got = eq.get_drho_dt(ctx.real('t', 0, 1), st.y(), **x)
    ctx.check_eq(got, x['ext'] - x['el_inel'] - x['gain_loss'] - x['el_walls'] - x['ions_walls'] + x['min_rho_correction'],
                 'gains minus losses', scale=1000.)
    n = [ctx.real('dn{}'.format(i), -10, 10) for i in range(4)]
    with ctx.guard('densities'):
        got = eq.get_dn_dt(st.y(), *[arr([a, 0. * a]) for a in n])
    ctx.check_eq(got[0], total(n), 'volume, flow, wall and correction terms add up', scale=100.)
    with ctx.guard('vector'):
        got = eq.get_dy_dt(0., st.y(), dn_dt=arr(n), drho_dt=x['ext'])
    ctx.check(len(got) == 5, 'densities first, energy density last')
    for a, b in zip(got, n + [x['ext']]):
        ctx.check_eq(a, b, 'densities first, energy density last', scale=100.)


def power(ctx, points, whole=False, steps=True):
    """absorbed power: piecewise linear through the points; at a step it changes within 1e-5 t_end on either side"""
    from pygmo_fwork.pygmol.equations import Equations
    chem = Stub(ctx, NETS['tiny'], opts=('none',))
    if whole:
        ts = [0]
        for k in range(1, points):
            ts.append(ts[-1] + int(ctx.int('dt{}'.format(k), 0 if steps else 1, 2)))
        t_end = ctx.choice('t_end', [1, 3])
        ctx.assume(ts[-1] >= 1.1 * t_end)
        pw = [30, 0, 20, 50][:points]
    else:
        t_end = ctx.real('t_end', 0.001, 10)
        ts = [-ctx.real('before', 0, 10)]
        for k in range(1, points):
            step = steps and ctx.flag('step{}'.format(k))
            ts.append(ts[-1] if step else ts[-1] + ctx.real('dt{}'.format(k), 0, 20, lo_open=True))
            if not step:
                ctx.assume(ts[-1] - ts[-2] > 3e-5 * t_end)
        ctx.assume(ts[-1] >= 1.1 * t_end)
        pw = [ctx.real('p{}'.format(k), 0, 1000) for k in range(points)]
    for k in range(2, points):
        ctx.assume(not (same(ts[k], ts[k - 1]) and same(ts[k - 1], ts[k - 2])))
    par = params(ctx, chem, symbolic=() if whole else ('radius', 'length'), power=list(pw), t_power=list(ts), t_end=t_end)
    with ctx.guard('equations'):
        eq = Equations(chem, par)
    t = ctx.real('t', 0, 1) * t_end
    d = 1e-5 * t_end
    # the profile with its steps replaced by steep ramps
    xs, ps = [], []
    for k in range(points):
        shift = 0
        if k + 1 < points and same(ts[k], ts[k + 1]):
            shift = -d
        if k and same(ts[k], ts[k - 1]):
            shift = d
        xs.append(ts[k] + shift)
        ps.append(pw[k])
    with ctx.guard('power'):
        got = eq.get_power_ext(t)
        rho = eq.get_drho_dt_ext(t)
        g = ctx.real('given power', 0, 1000)
        rho_g = eq.get_drho_dt_ext(t, power_ext=g)
    want = None
    for k in range(points - 1):
        if (t >= xs[k]) & (t <= xs[k + 1]):
            want = ps[k] + (ps[k + 1] - ps[k]) * (t - xs[k]) / (xs[k + 1] - xs[k])
            break
    ctx.check(want is not None, 'the profile covers the simulated time')
    ctx.check_eq(got, want, 'absorbed power follows the profile', scale=1e3)
    ctx.check_le(0., got, 'absorbed power is never negative', scale=1.)
    vol = C.pi * par['radius'] * par['radius'] * par['length']
    ctx.check_eq(rho, want / vol / C.e, 'the power is absorbed by the plasma volume', scale=1e3 / vol / C.e)
    ctx.check_eq(rho_g, g / vol / C.e, 'given power is absorbed by the plasma volume', scale=1e3 / vol / C.e)


def same(a, b):
    r = a == b
    return bool(r)


def tasks(tier):
    out = []
    for net, el in (('argon', (1, 0, 0, 0, 0)), ('negative', (1, 0, 0, 1, 0)), ('double', (0, 0, 1, 0))):
        out.append(Task('losses ' + net, 'losses', {'net': net, 'elastic': [bool(x) for x in el]},
                        ['elastic losses by mass ratio and temperature difference, others as declared']))
        out.append(Task('wall ' + net, 'wall', {'net': net}, ['positive ions gain the sheath voltage times their charge']))
    out.append(Task('losses order', 'losses', {'net': 'argon', 'elastic': [True, False, False, True, True], 'order': [2, 1, 0]}, []))
    out.append(Task('temperature', 'temperature', {}, ['electrons are never colder than the gas']))
    out.append(Task('balance', 'balance', {}, ['gains minus losses']))
    lab = ['absorbed power follows the profile']
    for k in (2, 3) + ((4, 5) if tier != 'quick' else ()):
        out.append(Task('power {}'.format(k), 'power', {'points': k}, lab))
    out.append(Task('pulse', 'power', {'points': 4, 'whole': True}, lab))
    return out
