"""C02: kinetic data: rate coefficient, units, SI conversion, ad-hoc values"""
from checks.chemlib import Net, oxygen, OXY
from checks.util import errors
from symx.runner import Task

BOUNDS = ('Arrhenius a in [0, 1e6], b in [-10, 10], c in [-100, 1e5], temperature in (0, 1e6]; all the combinations '
          'of process kind (electron / heavy), 1-3 reactants, every documented unit, omitted b and c, SI and nominal; values and units revised after use')
ASSUMPTIONS = []
UNITS_A = ['s-1', 'cm3.s-1', 'm3.s-1', 'cm6.s-1', 'm6.s-1', None]
SI = {'s-1': 1, 'm3.s-1': 1, 'm6.s-1': 1, 'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}
ORDER = {'s-1': 1, 'm3.s-1': 2, 'm6.s-1': 3, 'cm3.s-1': 2, 'cm6.s-1': 3}


def lhs_names(electron, n):
    return (['e'] if electron else []) + ['Ar'] * (n - (1 if electron else 0))


def species():
    from plaschem.species import RP
    return {'e': RP(1, name='e', mass=5e-4, charge=-1), 'Ar': RP(2, name='Ar', mass=40.), 'M': RP(3, name='M')}


def rate(ctx, electron, n):
    """k(T) = a T^b exp(-c/T) for electrons, a (T/300)^b exp(-c/T) otherwise"""
    import numpy as np
    from plaschem.reactions import Reaction
    sp = species()
    names = lhs_names(electron, n)
    unit = ctx.choice('unit', [u for u in UNITS_A if u and ORDER[u] == n])
    si = ctx.flag('si')
    a = ctx.real('a', 0, 1e6)
    has_b, has_c = ctx.flag('has_b'), ctx.flag('has_c')
    b = ctx.real('b', -10, 10) if has_b else 0.
    c = ctx.real('c', -100, 1e5) if has_c else 0.
    t = ctx.real('t', 1e-3, 1e6)
    att = {'arrh_a': a}
    units = {'arrh_a': unit}
    if has_b:
        att['arrh_b'] = b
    if has_c:
        att['arrh_c'] = c
        units['arrh_c'] = 'eV' if electron else 'K'
    r = Reaction(1, [sp[s] for s in names], [sp[s] for s in names], attributes=att, units=units)
    with ctx.guard('rate coefficient'):
        k = r.get_rate_coefficient(t, si_units=si)
    af = a * SI[unit] if si else a
    base = t if electron else t / 300.
    if ctx.symbolic:
        from symx.core import sym_exp, sym_pow
        power = sym_pow(base, b) if has_b else 1
        expo = sym_exp(-c / t) if has_c else 1
    else:
        power, expo = base ** b, np.exp(-c / t)
    ctx.check_eq(k, af * power * expo, 'rate coefficient is the Arrhenius law')
    ctx.check_eq(r.get_arrh_a(si_units=si), af, 'pre-exponential factor in the requested units')
    ctx.check_eq(r.get_arrh_b(), b, 'exponent')
    ctx.check_eq(r.get_arrh_c(), c, 'activation energy')


def units(ctx):
    """a reaction is accepted iff the units match the order and the kind of the process and a is not negative"""
    from plaschem.reactions import Reaction
    errs = errors('plaschem.exceptions')
    sp = species()
    electron = ctx.flag('electron')
    n = ctx.choice('n', [1, 2, 3])
    extra = ctx.choice('third', ['Ar', 'M'])
    names = lhs_names(electron, n)
    if names[-1] == 'Ar':
        names[-1] = extra
    ua = ctx.choice('ua', UNITS_A + ['m9.s-1'])
    uc = ctx.choice('uc', ['none', None, 'eV', 'K', 'J'])
    a = ctx.real('a', -10, 10)
    att, un = {'arrh_a': a}, {'arrh_a': ua}
    if ua is None:
        un = {}
    if uc != 'none':
        att['arrh_c'] = 1.
        if uc is not None:
            un['arrh_c'] = uc
    with ctx.guard('construct'):
        try:
            Reaction(1, [sp[s] for s in names], [sp[s] for s in names], attributes=att, units=un)
            ok = True
        except errs:
            ok = False
    good = ua in SI and ORDER[ua] == n and (uc == 'none' or uc == ('eV' if electron else 'K'))
    if ok:
        ctx.check(good, 'accepted => units match', '{} {} {}'.format(names, ua, uc))
        ctx.check(a >= 0, 'accepted => a >= 0')
    else:
        ctx.check(a < 0 if good else True, 'rejected => bad units or negative a', '{} {} {}'.format(names, ua, uc))


def table(ctx, n):
    """chemistry-level table of pre-exponential factors: SI conversion per reaction, also of ad-hoc values"""
    pool = [(1, 'cm3.s-1'), (2, 'm3.s-1'), (10, 'cm6.s-1'), (11, 'cm3.s-1'), (4, 'm3.s-1'), (3, 'cm3.s-1'), (5, None)]
    pool = pool[:n]
    vals, extra = {}, {}
    for k, u in pool:
        if u is None:
            extra[k] = {}
            continue
        vals[k] = ctx.real('a{}'.format(k), 0, 1e6)
        extra[k] = {'arrh_a': vals[k], 'units': {'arrh_a': u}}
    net = oxygen(reactions=extra)
    chem = net.chemistry()
    rs = net.reactions
    k_ad = ctx.choice('adhoc', [k for k, _ in pool])
    v = ctx.real('adhoc_v', 0, 1e6)
    if ctx.flag('set_adhoc'):
        with ctx.guard('set ad-hoc'):
            chem.set_adhoc_reactions_attributes('arrh_a', rs[k_ad - 1].id, v)
        vals[k_ad] = v
    dis = ctx.choice('disable', [None] + [k for k, _ in pool])
    if dis is not None:
        with ctx.guard('disable'):
            chem.disable(reactions=(rs[dis - 1].id,))
    shown = ctx.flag('disabled')
    unit = dict(pool)
    for si in (True, False):
        with ctx.guard('table'):
            tab = chem.get_reactions_arrh_a(disabled=shown, si_units=si)
        live = chem.get_reactions(disabled=shown)
        ctx.check(list(tab.index) == list(live.index), 'one row per shown reaction')
        for k in vals:
            rid = rs[k - 1].id
            if rid in tab.index:
                u = unit[k] or 'm3.s-1'
                ctx.check_eq(tab.at[rid], vals[k] * (SI[u] if si else 1), 'tabulated factor')
        for k in unit:
            if k not in vals and rs[k - 1].id in tab.index:
                ctx.check_eq(tab.at[rs[k - 1].id], 1e-15 * k, 'other factors unchanged')
    with ctx.guard('reset'):
        chem.reset_adhoc_reactions_attributes(ctx.choice('reset_how', ['arrh_a', 'all']))
        tab = chem.get_reactions_arrh_a(disabled=True, si_units=False)
    for k, u in pool:
        if u is not None:
            ctx.check_eq(tab.at[rs[k - 1].id], net.reactions[k - 1].get_arrh_a(si_units=False), 'reset restores')


def revised(ctx, electron):
    """new values or units set on a reaction which has already been used count from then on"""
    from plaschem.reactions import Reaction
    sp = species()
    names = lhs_names(electron, 2)
    a = ctx.real('a', 1e-3, 1e6)
    r = None
    b, c, t = ctx.real('b', -2, 2), ctx.real('c', -10, 1e3), ctx.real('t', 1, 1e4)
    uc = 'eV' if electron else 'K'
    if ctx.symbolic:
        from symx.core import sym_exp as exp, sym_pow as power
    else:
        from numpy import exp
        power = pow
    base = t if electron else t / 300.

    def verify(a, unit, b, c, tag):
        for si in order:
            f = SI[unit] if si else 1
            ctx.check_eq(r.get_arrh_a(si_units=si), a * f, 'factor after a revision', detail=tag)
            ctx.check_eq(r.get_rate_coefficient(t, si_units=si), a * f * power(base, b) * exp(-c / t),
                         'rate after a revision', detail=tag)
    order = [True, False] if ctx.flag('SI first') else [False, True]
    unit = ctx.choice('unit', ['cm3.s-1', 'm3.s-1'])
    with ctx.guard('revision'):
        r = Reaction(1, [sp[s] for s in names], [sp[s] for s in names],
                     attributes={'arrh_a': a, 'arrh_b': b, 'arrh_c': c}, units={'arrh_a': unit, 'arrh_c': uc})
        if ctx.flag('used before'):
            verify(a, unit, b, c, 'before')
        what = ctx.choice('what', ['unit', 'value', 'both', 'b', 'c'])
        if what in ('unit', 'both'):
            unit = 'm3.s-1' if unit == 'cm3.s-1' else 'cm3.s-1'
        if what in ('value', 'both'):
            a = ctx.real('a2', 1e-3, 1e6)
        if what in ('unit', 'value', 'both'):
            r.set_reaction_attribute('arrh_a', a, unit=unit)
        elif what == 'b':
            b = ctx.real('b2', -2, 2)
            r.set_reaction_attribute('arrh_b', b)
        else:
            c = ctx.real('c2', -10, 1e3)
            r.set_reaction_attribute('arrh_c', c, unit=uc)
        verify(a, unit, b, c, 'after')


def tasks(tier):
    out = [Task('rate {} {}'.format('electron' if el else 'heavy', n), 'rate', {'electron': el, 'n': n},
                ['rate coefficient is the Arrhenius law'])
           for el in (True, False) for n in (1, 2, 3)]
    out.append(Task('units', 'units', {}, ['accepted => units match', 'rejected => bad units or negative a']))
    for el in (True, False):
        out.append(Task('revised {}'.format('electron' if el else 'heavy'), 'revised', {'electron': el},
                        ['factor after a revision', 'rate after a revision']))
    out.append(Task('table', 'table', {'n': 4 if tier == 'quick' else 7}, ['tabulated factor', 'reset restores'], max_paths=3000))
    return out
