"""C15: the right-hand side is one function of time and state"""
from checks.c13 import arr
from checks.eqlib import NETS, Stub, State, params, total
from symx.runner import Task

BOUNDS = ('networks of 2..5 heavy species (positive, negative and doubly charged ions), all densities and energy densities, any two '
          'earlier evaluations of any of 17 partial results at another state, both diffusion models; one state array reused with other numbers')
ASSUMPTIONS = ['the electron density is positive']

GETTERS = ['mean_speeds', 'sigma_sc', 'mean_free_paths', 'free_diffusivities', 'diffusivities', 'wall_fluxes', 'reaction_rates',
           'reaction_rate_coefficients', 'el_en_losses', 'electron_temperature', 'dn_dt', 'debye_length', 'ion_temperature',
           'flow_source_rates', 'diffusion_source_rates', 'drho_dt_el_inel', 'volumetric_source_rates']


def build(ctx, net, model, opts=('none',), extra=(), elastic=None, small=False):
    from pygmo_fwork.pygmol.equations import Equations
    chem = Stub(ctx, NETS[net], opts=opts, elastic=elastic or [True] + [False] * (len(NETS[net]) - 1), extra=extra)
    if small:
        # no term hides another
        par = params(ctx, chem, feeds={chem.names[0]: 1.2e-15, chem.names[-1]: 3e-16})
    else:
        par = params(ctx, chem, feeds={chem.names[0]: 120., chem.names[-1]: 30.}, power=(100., 100.))

    class Eq(Equations):
        diffusion_model = model
    with ctx.guard('equations'):
        eq = Eq(chem, par)
    return chem, par, eq


def scale_of(xs):
    return None


def equal(ctx, a, b, label):
    ctx.check(len(a) == len(b), label)
    for x, y in zip(a, b):
        ctx.check_eq(x, y, label)


def composition(ctx, net, model):
    chem, par, eq = build(ctx, net, model, small=True)
    st = State(ctx, chem, par)
    y = st.y()
    t = 0.5
    with ctx.guard('right-hand side'):
        f, jac = eq.get_objective_functions()
        got = list(f(t, y))
        ctx.check(jac is None, 'no jacobian')
        other = list(eq.get_dy_dt(t, y))
    equal(ctx, got, other, 'the solver sees the same derivatives as the partial results give')
    with ctx.guard('partial results'):
        parts = [list(g) for g in (eq.get_volumetric_source_rates(y), eq.get_flow_source_rates(y),
                                   eq.get_diffusion_source_rates(y), eq.get_min_n_correction(y))]
        el = (eq.get_drho_dt_ext(t) - eq.get_drho_dt_el_inel(y) - eq.get_drho_dt_gain_loss(y) - eq.get_drho_dt_el_walls(y)
              - eq.get_drho_dt_ions_walls(y) + eq.get_min_rho_correction(y))
        sinks = list(eq.get_diffusion_sinks(y))
    for i in range(len(chem.names)):
        ctx.check_eq(got[i], total(p[i] for p in parts), 'density derivatives are volume, flow and wall terms',
                     scale=total(abs(p[i]) for p in parts) + 1e-9)
        ctx.check_eq(parts[2][i], sinks[i] - total(sinks[j] * chem.ret[i][j] for j in range(len(sinks))), 'wall terms',
                     scale=total(abs(s) for s in sinks) * 3)
    ctx.check_eq(got[-1], el, 'energy derivative is the power balance', scale=abs(el) + 1e6)


def history(ctx, net, model, depth, getters):
    chem, par, eq = build(ctx, net, model)
    st = State(ctx, chem, par)
    st2 = State(ctx, chem, par, tag="'")
    y, y2 = st.y(), st2.y()
    with ctx.guard('right-hand side'):
        f, _ = eq.get_objective_functions()
        first = list(f(0.5, y))
        for k in range(depth):
            g = ctx.choice('call{}'.format(k), ['rhs'] + getters)
            if g == 'rhs':
                f(0.1, y2)
            else:
                getattr(eq, 'get_' + g)(y2)
        again = list(f(0.5, y))
        keep = list(y)
        chem2, par2, eq2 = build(ctx, net, model)
        fresh = list(eq2.get_objective_functions()[0](0.5, y))
    equal(ctx, first, again, 'earlier evaluations do not change the derivatives')
    equal(ctx, first, fresh, 'a fresh instance gives the same derivatives')
    equal(ctx, keep, st.n + [st.rho], 'the state is not modified')


def same_array(ctx, net, model):
    """solvers hand over one array again and again, with other numbers in it"""
    chem, par, eq = build(ctx, net, model, small=True)
    st, st2 = State(ctx, chem, par), State(ctx, chem, par, tag="'")
    y, y2 = st.y(), st2.y()
    part = ctx.choice('overwrite', ['energy', 'densities'])
    if part == 'energy':
        y2[:-1] = y[:-1]
    else:
        y2[-1] = y[-1]
    z = y.copy()
    with ctx.guard('right-hand side'):
        f = eq.get_objective_functions()[0]
        f(0.5, z)
        z[:] = y2
        got = list(f(0.5, z))
        want = list(build(ctx, net, model, small=True)[2].get_objective_functions()[0](0.5, y2))
    equal(ctx, got, want, 'the numbers in the state count, not the array')


def partial(ctx, net, model, getters):
    """partial results do not depend on earlier evaluations either"""
    import numpy as np
    chem, par, eq = build(ctx, net, model)
    st = State(ctx, chem, par)
    st2 = State(ctx, chem, par, tag="'")
    y, y2 = st.y(), st2.y()
    g = ctx.choice('getter', getters)
    with ctx.guard(g):
        fresh = np.array(getattr(build(ctx, net, model)[2], 'get_' + g)(y)).reshape(-1)
        first = np.array(getattr(eq, 'get_' + g)(y)).reshape(-1)
        h = ctx.choice('between', ['rhs'] + getters)
        if h == 'rhs':
            eq.get_objective_functions()[0](0.1, y2)
        else:
            getattr(eq, 'get_' + h)(y2)
        again = np.array(getattr(eq, 'get_' + g)(y)).reshape(-1)
    equal(ctx, list(first), list(fresh), 'partial results of a fresh instance')
    equal(ctx, list(first), list(again), 'earlier evaluations do not change partial results')


def tasks(tier):
    out = []
    lab = ['the solver sees the same derivatives as the partial results give']
    nets = ['tiny', 'negative', 'double'] + (['argon', 'dimer'] if tier != 'quick' else [])
    for net in nets:
        for model in (0, 1):
            out.append(Task('composition {} {}'.format(net, model), 'composition', {'net': net, 'model': model}, lab))
    for net in nets[1:]:
        out.append(Task('history ' + net, 'history', {'net': net, 'model': 1, 'depth': 1, 'getters': GETTERS},
                        ['earlier evaluations do not change the derivatives']))
    for net in nets[1:] if tier != 'quick' else nets[1:2]:
        n = 6 if tier == 'quick' else len(GETTERS)
        for k in range(0, len(GETTERS), n):
            out.append(Task('partial {} {}'.format(net, k), 'partial', {'net': net, 'model': 1, 'getters': GETTERS[k:k + n]},
                            ['earlier evaluations do not change partial results']))
    for net in ['tiny'] if tier == 'quick' else nets:
        out.append(Task('same array ' + net, 'same_array', {'net': net, 'model': 1},
                        ['the numbers in the state count, not the array']))
    if tier != 'quick':
        for k in range(0, len(GETTERS), 6):
            out.append(Task('history 2 {}'.format(k), 'history', {'net': 'negative', 'model': 1, 'depth': 2, 'getters': GETTERS[k:k + 6]},
                            ['earlier evaluations do not change the derivatives']))
    return out
