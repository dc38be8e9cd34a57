"""C12: gas flow, pressure regulation and the lower limits of the solution"""
from checks.eqlib import NETS, Stub, State, params, total
from symx.core import ite
from symx.runner import Task

BOUNDS = ('four networks of 3..6 heavy species, every subset of them fed, all flows, densities, chamber sizes, pressures and gas '
          'temperatures; densities and energy density from -10 for the lower limits')
ASSUMPTIONS = ['some neutral species is present']
SCCM = 4.485e17


def flow(ctx, net, order=None):
    from pygmo_fwork.pygmol.equations import Equations
    from pygmo_fwork.pygmol.exceptions import EquationsParametersConsistencyError
    chem = Stub(ctx, NETS[net], order=order, opts=('none',))
    feeds = {}
    for s in chem.names:
        if ctx.flag('feed ' + s):
            feeds[s] = ctx.real('flow ' + s, 0, 1000, lo_open=True)
    par = params(ctx, chem, symbolic=('radius', 'length', 'pressure', 'temp_gas'), feeds=feeds)
    with ctx.guard('equations'):
        eq = Equations(chem, par)
    st = State(ctx, chem, par)
    with ctx.guard('flow'):
        got = list(eq.get_flow_source_rates(st.y()))
    vol = 3.141592653589793 * par['radius'] * par['radius'] * par['length']
    tot = total(feeds.values())
    neu = total([x for x, q in zip(st.n, chem.charge) if q == 0])
    p0 = par['pressure']
    big = None
    for i, s in enumerate(chem.names):
        gain = feeds.get(s, 0.) * SCCM / vol
        if chem.charge[i] == 0:
            pump = st.n[i] * 1000. * (st.p - p0) / p0
            out = tot * SCCM / vol * st.n[i] / neu
            ctx.check_eq(got[i], gain - out - pump, 'inflow, outflow and pressure regulation of neutrals',
                         scale=gain + out + st.n[i] * 1000. * (st.p + p0) / p0 + 1e-9)
        else:
            ctx.check_eq(got[i], gain, 'ions are neither pumped nor regulated')
    all_pump = neu * 1000. * (st.p - p0) / p0
    ctx.check_eq(total(got), -all_pump, 'outflow carries as much as inflow, regulation drives the pressure to its set point',
                 scale=tot * SCCM / vol + neu * 1000. * (st.p + p0) / p0)
    n = [ctx.real('given n{}'.format(i), 1, 1000) for i in range(len(chem.names))]
    import numpy as np
    with ctx.guard('given'):
        got = eq.get_flow_source_rates(st.y(), n=np.array(n, dtype=object if not isinstance(n[0], float) else float), p=p0)
    for i, s in enumerate(chem.names):
        gain = feeds.get(s, 0.) * SCCM / vol
        out = tot * SCCM / vol * n[i] / total([x for x, q in zip(n, chem.charge) if q == 0]) if chem.charge[i] == 0 else 0.
        ctx.check_eq(got[i], gain - out, 'flow of given densities at the set pressure', scale=gain + out + 1e-9)


def unknown_feed(ctx):
    from pygmo_fwork.pygmol.equations import Equations
    from pygmo_fwork.pygmol.exceptions import EquationsParametersConsistencyError
    chem = Stub(ctx, NETS['tiny'], opts=('none',))
    name = ctx.choice('name', ['A', 'B', 'e', 'M', 'A+', ''])
    par = params(ctx, chem, feeds={name: ctx.real('flow', 0.1, 1000)})
    try:
        Equations(chem, par)
        ok = True
    except EquationsParametersConsistencyError:
        ok = False
    ctx.check(ok == (name in chem.names), 'feeds of unknown species are refused')


def limits(ctx, net):
    from pygmo_fwork.pygmol.equations import Equations
    import numpy as np
    chem = Stub(ctx, NETS[net], opts=('none',))
    par = params(ctx, chem)
    with ctx.guard('equations'):
        eq = Equations(chem, par)
    n = [ctx.real('n{}'.format(i), -10, 10) for i in range(len(chem.names))]
    rho = ctx.real('rho', -10, 10)
    y = np.array(n + [rho], dtype=object if not isinstance(rho, float) else float)
    with ctx.guard('corrections'):
        cn = list(eq.get_min_n_correction(y))
        cr = eq.get_min_rho_correction(y)
    for x, c in zip(n + [rho], cn + [cr]):
        ctx.check_eq(c, ite(x < 1, (1 - x) * 1e10, 0. * x) if not isinstance(x, float) else (max(1 - x, 0) * 1e10),
                     'only values below the lower limit are pushed back', scale=1e10)


def tasks(tier):
    lab = ['inflow, outflow and pressure regulation of neutrals', 'ions are neither pumped nor regulated',
           'outflow carries as much as inflow, regulation drives the pressure to its set point']
    out = [Task('unknown feed', 'unknown_feed', {}, ['feeds of unknown species are refused']),
           Task('limits', 'limits', {'net': 'tiny' if tier == 'quick' else 'negative'},
                ['only values below the lower limit are pushed back'])]
    for net in ('argon', 'tiny', 'double', 'neutral'):
        out.append(Task('flow ' + net, 'flow', {'net': net}, lab if net != 'neutral' else lab[::2]))
    out.append(Task('flow negative', 'flow', {'net': 'negative', 'order': [4, 3, 2, 1, 0]}, lab))
    if tier != 'quick':
        out.append(Task('flow dimer', 'flow', {'net': 'dimer'}, lab))
    return out
