"""C13: transport to the walls, losses and returned species"""
from scipy import constants as C

from checks.eqlib import NETS, Stub, State, params, total
from symx.core import sym_log, sym_pow, ite, is_sym
from symx.runner import Task

BOUNDS = ('networks of 2..5 heavy species with up to three ions, all masses, radii, sticking and return coefficients, densities '
          'and energy densities, chamber sizes, both diffusion models')
ASSUMPTIONS = ['logarithms and square roots are uninterpreted functions with their basic laws', 'the electron density is positive']


def arr(xs):
    import numpy as np
    xs = list(xs)
    return np.array(xs, dtype=object if any(is_sym(x) for x in xs) else float)


def setup(ctx, net, opts, symbolic=(), order=None, model=1, extra=()):
    from pygmo_fwork.pygmol.equations import Equations
    chem = Stub(ctx, NETS[net] if net in NETS else [net], order=order, opts=opts, extra=extra)
    par = params(ctx, chem, symbolic=symbolic)
    with ctx.guard('equations'):
        class Eq(Equations):
            diffusion_model = model
        eq = Eq(chem, par)
    return chem, par, eq


def sqrt(x):
    return sym_pow(x, 0.5) if is_sym(x) else x ** 0.5


def log(x):
    import math
    return sym_log(x) if is_sym(x) else math.log(x)


def ion_temp(p, tg):
    hot = 0.5 * C.e / C.k
    return ite(p > 0.133322, (hot - tg) / (p / 0.133322) + tg, hot) if is_sym(p) else (
        (hot - tg) / (p / 0.133322) + tg if p > 0.133322 else hot)


def speeds(ctx, net):
    chem, par, eq = setup(ctx, net, ('mass',), ('temp_gas',))
    st = State(ctx, chem, par)
    y = st.y()
    tg = par['temp_gas']
    p = ctx.real('given p', 0.001, 1e4)
    with ctx.guard('speeds'):
        ti = eq.get_ion_temperature(y, p=p)
        ctx.check_eq(ti, ion_temp(p, tg), 'ion temperature falls from 0.5 eV to the gas temperature with pressure')
        ctx.check_eq(eq.get_ion_temperature(y), ion_temp(st.p, tg), 'ion temperature of the state')
        t = ctx.real('given ti', 100, 6000)
        got = eq.get_mean_speeds(y, temp_i=t)
        for i in range(len(chem.names)):
            temp = t if chem.charge[i] else tg
            ctx.check_eq(got[i], sqrt(8 * C.k * temp / (C.pi * (chem.mass[i] * C.atomic_mass))), 'mean thermal speeds')
        te, ne = ctx.real('given te', 0.1, 50), ctx.real('given ne', 1, 1000)
        ctx.check_eq(eq.get_debye_length(y, n_e=ne, temp_e=te), sqrt(C.epsilon_0 * te / C.e / ne), 'Debye length')


def cross(ctx, net, opts):
    chem, par, eq = setup(ctx, net, opts)
    st = State(ctx, chem, par)
    y = st.y()
    v = [ctx.real('v{}'.format(i), 10, 5000) for i in range(len(chem.names))]
    ld = ctx.real('debye', 1e-3, 1)
    with ctx.guard('cross sections'):
        got = eq.get_sigma_sc(y, v_m=arr(v), debye_length=ld)
    sig = {}
    m = [x * C.atomic_mass for x in chem.mass]
    for i in range(len(chem.names)):
        for j in range(len(chem.names)):
            qi, qj = chem.charge[i], chem.charge[j]
            if i == j:
                want = 0.
            elif qi == 0 or qj == 0:
                want = (chem.sigma[i] + chem.sigma[j]) * (chem.sigma[i] + chem.sigma[j]) * 1e-20
            else:
                b0 = C.e ** 2 * abs(qi * qj) / (2 * C.pi * C.epsilon_0) / (m[i] * m[j] / (m[i] + m[j]) * (v[i] * v[i]))
                want = C.pi * b0 * b0 * log(2 * ld / b0)
            ctx.check_eq(got[i, j], want, 'momentum transfer cross sections: hard spheres, Rutherford between ions, none with self')
            sig[i, j] = want
    s = {k: ctx.real('sc{}_{}'.format(*k), 0.1, 10) for k in sig}
    mat = arr([s[i, j] for i in range(len(v)) for j in range(len(v))]).reshape(len(v), len(v))
    with ctx.guard('mean free paths'):
        mfp = eq.get_mean_free_paths(y, sigma_sc=mat)
        for i in range(len(v)):
            ctx.check_eq(mfp[i], 1 / total(st.n[j] * s[i, j] for j in range(len(v))), 'mean free paths')
        lam = [ctx.real('mfp{}'.format(i), 0.001, 10) for i in range(len(v))]
        d = eq.get_free_diffusivities(y, mfp=arr(lam), v_m=arr(v))
        for i in range(len(v)):
            ctx.check_eq(d[i], C.pi / 8 * lam[i] * v[i], 'free diffusion coefficients')


def ambipolar(ctx, net):
    chem, par, eq = setup(ctx, net, ('none',))
    st = State(ctx, chem, par)
    y = st.y()
    n = range(len(chem.names))
    d = [ctx.real('d{}'.format(i), 0.001, 10) for i in n]
    ti = ctx.real('ti', 200, 6000)
    with ctx.guard('diffusivities'):
        ap = eq.get_ambipolar_diffusivity_pos(y, temp_i=ti, diff_c_free=arr(d))
    g = st.temp_e * C.e / C.k / ti
    al = total(st.n[i] for i in n if chem.charge[i] < 0) / st.n_e
    pos = [d[i] for i in n if chem.charge[i] > 0]
    want = total(pos) / len(pos) * (1 + g * (1 + 2 * al)) / (1 + al * g)
    ctx.check_eq(ap, want, 'ambipolar diffusion of positive ions')
    a = ctx.real('given ambipolar', 0, 10)
    with ctx.guard('diffusivities'):
        got = eq.get_diffusivities(y, diff_c_free=arr(d), diff_a_pos=a)
    for i in n:
        ctx.check_eq(got[i], [0., d[i], a][1 if chem.charge[i] == 0 else 0 if chem.charge[i] < 0 else 2],
                     'neutrals diffuse freely, positive ions ambipolarly, negative ions are confined')


def walls(ctx, net, model):
    chem, par, eq = setup(ctx, net, ('stick', 'ret'), ('radius', 'length'), model=model)
    st = State(ctx, chem, par)
    y = st.y()
    n = range(len(chem.names))
    v = [ctx.real('v{}'.format(i), 10, 5000) for i in n]
    d = [ctx.real('d{}'.format(i), 0, 10, lo_open=True) if chem.charge[i] >= 0 else 0. for i in n]
    r, z = par['radius'], par['length']
    lam2 = 1 / ((C.pi / z) * (C.pi / z) + (2.405 / r) * (2.405 / r))
    vol, area = C.pi * r * r * z, 2 * C.pi * r * r + 2 * C.pi * r * z
    with ctx.guard('wall fluxes'):
        got = eq.get_wall_fluxes(y, diff_c=arr(d), v_m=arr(v))
    for i in n:
        s = chem.stick[i]
        if chem.charge[i] < 0:
            want = 0.
        elif model == 0:
            want = -(d[i] * st.n[i] * s / lam2 * vol / area)
        else:
            want = -(d[i] * st.n[i] * s / (s * sqrt(lam2) + 4 * d[i] / v[i]))
        ctx.check_eq(got[i], want, 'wall fluxes', scale=None if chem.charge[i] >= 0 else 1.)
        ctx.check_le(got[i], 0., 'particles only leave through the walls', scale=1.)
        ctx.check((got[i] == 0) | ((s > 0) & (chem.charge[i] >= 0)), 'nothing is lost without sticking')
    f = [-ctx.real('flux{}'.format(i), 0, 100) for i in n]
    with ctx.guard('sinks and sources'):
        sinks = eq.get_diffusion_sinks(y, wall_fluxes=arr(f))
        for i in n:
            ctx.check_eq(sinks[i], f[i] * area / vol, 'wall losses are the fluxes through the area into the volume')
        loss = [-ctx.real('loss{}'.format(i), -100, 100) for i in n]
        src = eq.get_diffusion_sources(y, diff_sinks=arr(loss))
        for i in n:
            ctx.check_eq(src[i], total(-loss[j] * chem.ret[i][j] for j in n), 'returned species follow the return matrix', scale=1000.)
        net_ = eq.get_diffusion_source_rates(y, diff_sinks=arr(loss))
        for i in n:
            ctx.check_eq(net_[i], loss[i] + total(-loss[j] * chem.ret[i][j] for j in n), 'losses and returns add up', scale=1000.)
        src2 = [ctx.real('source{}'.format(i), 0, 100) for i in n]
        both = eq.get_diffusion_source_rates(y, diff_sinks=arr(loss), diff_sources=arr(src2))
        for i in n:
            ctx.check_eq(both[i], loss[i] + src2[i], 'given losses and returns add up', scale=100.)
    # a wall which gives back what it takes neither makes nor destroys atoms
    for el in 'AB':
        atoms = [c.get(el, 0) for c in chem.comp]
        for j in n:
            ctx.assume(total(chem.ret[i][j] * atoms[i] for i in n) == 1. * atoms[j])
        ctx.check_eq(total(net_[i] * atoms[i] for i in n), 0., 'conserving returns conserve the elements', scale=10000.)


def other_model(ctx):
    chem, par, eq = setup(ctx, 'tiny', ('none',), model=2)
    st = State(ctx, chem, par)
    try:
        eq.get_wall_fluxes(st.y())
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, 'unknown diffusion models are refused')


def tasks(tier):
    nets = ['argon', 'negative', 'double', 'multiple'] + (['dimer'] if tier != 'quick' else [])
    out = []
    for net in nets:
        out.append(Task('speeds ' + net, 'speeds', {'net': net}, ['mean thermal speeds', 'Debye length']))
        out.append(Task('ambipolar ' + net, 'ambipolar', {'net': net}, ['ambipolar diffusion of positive ions']))
        out.append(Task('cross ' + net, 'cross', {'net': net, 'opts': ('mass', 'sigma')}, ['mean free paths']))
        for model in (0, 1):
            out.append(Task('walls {} {}'.format(net, model), 'walls', {'net': net, 'model': model},
                            ['wall fluxes', 'returned species follow the return matrix', 'nothing is lost without sticking']))
    out.append(Task('other model', 'other_model', {}, ['unknown diffusion models are refused']))
    return out
