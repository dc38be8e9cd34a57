"""C11: rates follow the law of mass action and conserve elements and charge"""
from checks.eqlib import NETS, Stub, State, params, rate_coefs, rates, total
from symx.runner import Task

BOUNDS = ('nine networks of 3..5 reactions (electron impact, attachment, recombination, heavy, three-body, up to four alike reactants, '
          'multiple charges), every species order listed, all rate parameters, densities (2..1000), energy density and gas '
          'temperature symbolic')
ASSUMPTIONS = ['the electron density is positive', 'powers and exponentials are uninterpreted functions with their basic laws']


def setup(ctx, net, order=None, temp=True):
    from pygmo_fwork.pygmol.equations import Equations
    chem = Stub(ctx, NETS[net], order=order, opts=('arrh_a', 'arrh_b', 'arrh_c'))
    par = params(ctx, chem, symbolic=('temp_gas',) if temp else ())
    with ctx.guard('equations'):
        eq = Equations(chem, par)
    st = State(ctx, chem, par)
    return chem, par, eq, st


def kinetics(ctx, net, order=None):
    chem, par, eq, st = setup(ctx, net, order)
    y = st.y()
    with ctx.guard('primary quantities'):
        ctx.check_eq(eq.get_total_density(y), st.n_tot, 'total density')
        ctx.check_eq(eq.get_total_pressure(y), st.p, 'ideal gas law')
        ctx.check_eq(eq.get_electron_density(y), st.n_e, 'electron density from neutrality')
        ctx.check_eq(eq.get_electron_temperature(y), st.temp_e, 'electron temperature from the energy density')
    k = rate_coefs(chem, st.temp_e, par['temp_gas'])
    with ctx.guard('rate coefficients'):
        got = list(eq.get_reaction_rate_coefficients(y))
    ctx.check(len(got) == len(k), 'one rate coefficient per reaction')
    for a, b in zip(got, k):
        ctx.check_eq(a, b, 'rate coefficients at the temperature of the colliding species')
    want = rates(chem, k, st.n, st.n_e, st.n_tot)
    with ctx.guard('rates'):
        got = list(eq.get_reaction_rates(y))
    for a, b in zip(got, want):
        ctx.check_eq(a, b, 'law of mass action')
    source(ctx, chem, eq, y, want, list(eq.get_volumetric_source_rates(y)))


def source(ctx, chem, eq, y, want, got):
    for i, s in enumerate(chem.names):
        ctx.check_eq(got[i], total([c * r for c, r in zip(chem.count(s, 'net'), want)]), 'sources are the net stoichiometry '
                     'times the rates', scale=total([abs(c) * r for c, r in zip(chem.count(s, 'net'), want)]) + 1e-9)
    conserved(ctx, chem, want, got)


def conserved(ctx, chem, want, got):
    big = total(want) * 10 + 1e-9
    for el in 'AB':
        tot = total([c.get(el, 0) * x for c, x in zip(chem.comp, got)])
        ctx.check_eq(tot, 0., 'volume reactions conserve every element', scale=big)
    el_source = total([c * r for c, r in zip(chem.count('e', 'net'), want)])
    ctx.check_eq(total([q * x for q, x in zip(chem.charge, got)]), el_source, 'volume reactions conserve charge', scale=big)


def given(ctx, net):
    """the optional arguments are used in place of what would be computed"""
    chem, par, eq, st = setup(ctx, net, temp=False)
    y = st.y()
    import numpy as np
    arr = lambda xs: np.array(xs, dtype=type(st.y()[0]) if isinstance(xs[0], float) else object)
    n = [ctx.real('given n{}'.format(i), 0, 1000) for i in range(len(chem.names))]
    n_e = ctx.real('given n_e', 0, 1000)
    n_tot = ctx.real('given n_tot', 0, 1000)
    te = ctx.real('given te', 0.1, 100)
    k = [ctx.real('given k{}'.format(j), 0, 10) for j in range(len(chem.strings))]
    r = [ctx.real('given r{}'.format(j), 0, 10) for j in range(len(chem.strings))]
    with ctx.guard('given arguments'):
        for a, b in zip(eq.get_reaction_rate_coefficients(y, temp_e=te), rate_coefs(chem, te, par['temp_gas'])):
            ctx.check_eq(a, b, 'rate coefficients of a given temperature')
        for a, b in zip(eq.get_reaction_rates(y, n=arr(n), n_e=n_e, n_tot=n_tot, k_r=arr(k)), rates(chem, k, n, n_e, n_tot)):
            ctx.check_eq(a, b, 'rates of given densities and coefficients')
        source(ctx, chem, eq, y, r, list(eq.get_volumetric_source_rates(y, rates=arr(r))))
        ctx.check_eq(eq.get_electron_density(y, n=arr(n)), total([q * x for q, x in zip(chem.charge, n)]), 'electron density of '
                     'given densities', scale=1000.)
        ctx.check_eq(eq.get_total_density(y, n=arr(n)), total(n), 'total density of given densities', scale=1000.)


def tasks(tier):
    lab = ['law of mass action', 'volume reactions conserve every element', 'volume reactions conserve charge']
    out = []
    for net in ('argon', 'negative', 'double', 'dimer', 'threebody', 'tiny', 'alike', 'twice M'):
        out.append(Task('kinetics ' + net, 'kinetics', {'net': net}, lab))
        out.append(Task('given ' + net, 'given', {'net': net}, ['rates of given densities and coefficients']))
    out.append(Task('order', 'kinetics', {'net': 'negative', 'order': [4, 2, 0, 3, 1]}, lab))
    if tier != 'quick':
        import itertools
        for order in itertools.permutations(range(3)):
            out.append(Task('order {}'.format(order), 'kinetics', {'net': 'double', 'order': list(order)}, lab))
        for k in range(1, 5):
            out.append(Task('turn {}'.format(k), 'kinetics', {'net': 'dimer', 'order': [(i + k) % 6 for i in range(6)]}, lab))
    return out
