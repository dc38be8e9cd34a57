"""C16: initial densities are neutral, add up to the set pressure and follow the feed"""
import itertools

from checks.eqlib import NETS, Stub, params, total
from checks.util import errors
from symx.runner import Task

BOUNDS = ('networks of 2..6 heavy species with positive, negative and doubly charged ions and neutral networks; every feed subset of up to '
          'three neutrals with arbitrary flows; pressure, temperatures and fractions arbitrary; given densities arbitrary, under '
          'every order of their names, with one name missing or unknown')
ASSUMPTIONS = ['the fractions given to ions and non-feed species are below 1e-3 together']
K = 1.380649e-23


def feeds_of(ctx, chem, most=3):
    names = [s for s, q in zip(chem.names, chem.charge) if q == 0]
    out = {}
    for s in names[:most]:
        if ctx.flag('feed ' + s):
            out[s] = ctx.real('flow ' + s, 0.1, 1000)
    return out


def consistent(ctx, chem, par, feeds, y, ion, neg, non_feed, temp_e):
    n, rho = list(y[:-1]), y[-1]
    n_tot = par['pressure'] / (K * par['temp_gas'])
    ctx.check(len(y) == len(chem.names) + 1, 'one value per species and the energy')
    ctx.check_eq(total(n), n_tot, 'densities add up to the pressure')
    for x in n:
        ctx.check_le(0, x, 'no density is negative')
    n_e = n_tot * ion
    charge = total([q * x for q, x in zip(chem.charge, n)])
    ctx.check_eq(charge, n_e, 'the charge of the ions is the electron density', scale=total([abs(q) * x for q, x in zip(chem.charge, n)])
                 if not ctx.symbolic else None)
    ctx.check_eq(rho, 1.5 * n_e * temp_e, 'energy density of the electrons')
    flows = total(feeds.values())
    for s, q, x in zip(chem.names, chem.charge, n):
        if q < 0:
            ctx.check_eq(x, n_tot * neg, 'fraction of the negative ions')
        elif q == 0 and feeds and s not in feeds:
            ctx.check_eq(x, n_tot * non_feed, 'fraction of the species which are not fed')
    fed = [x for s, q, x in zip(chem.names, chem.charge, n) if q == 0 and (not feeds or s in feeds)]
    rest = n_tot - total([x for s, q, x in zip(chem.names, chem.charge, n) if not (q == 0 and (not feeds or s in feeds))])
    share = [feeds[s] / flows for s, q in zip(chem.names, chem.charge) if s in feeds] if feeds else [1. / len(fed)] * len(fed)
    for x, w in zip(fed, share):
        ctx.check_eq(x, rest * w, 'the rest is shared in proportion to the feed')


def built(ctx, net, order=None):
    from pygmo_fwork.pygmol.model import Model
    chem = Stub(ctx, NETS[net], order=order, opts=('none',))
    feeds = feeds_of(ctx, chem)
    par = params(ctx, chem, symbolic=('pressure', 'temp_gas'), feeds=feeds)
    ion, neg, non_feed = (ctx.real(k, 1e-15, 1e-4) for k in ('ionisation', 'negative ions', 'not fed'))
    temp_e = ctx.real('temp_e', 0.1, 100)
    with ctx.guard('model'):
        m = bare(Model, chem, par)
        y = m._build_y0(el_temp=temp_e, ionisation_degree=ion, neg_ion_fraction=neg, non_feed_sp_fraction=non_feed)
        m._validate_y0(y)
        auto = m._y0_from_init_params(temp_e, None)
        dflt = m._build_y0(el_temp=temp_e)
    consistent(ctx, chem, par, feeds, list(y), ion, neg, non_feed, temp_e)
    consistent(ctx, chem, par, feeds, list(auto), 1e-15, 1e-15, 1e-15, temp_e)
    for a, b in zip(list(auto), list(dflt)):
        ctx.check_eq(a, b, 'nothing given: built')


def bare(cls, chem, par):
    """a model of the parameters as they are: an aliased view stands for the validated ones (C17)"""
    from pygmo_fwork.pygmol.model_parameters import ModelParameters

    class Par(ModelParameters):
        def __init__(self, d):
            self.parameters = dict(d)

        def __getitem__(self, key):
            return self.parameters[self.alternative2nominal_map[key]]
    return cls(chem, Par(par))


def wrapper(ctx, net):
    """the higher level wrapper generates the same densities"""
    from pygmo_fwork.global_model import GlobalModel
    import pygmo_fwork.global_model as gm
    chem = Stub(ctx, NETS[net], opts=('none',))
    feeds = feeds_of(ctx, chem)
    par = params(ctx, chem, symbolic=('pressure', 'temp_gas'), feeds=feeds)
    ion, neg, non_feed = (ctx.real(k, 1e-15, 1e-4) for k in ('ionisation', 'negative ions', 'not fed'))
    errs = errors('pygmo_fwork.exceptions')
    with ctx.guard('wrapper'):
        m = GlobalModel(chem, bare(gm.PyGMol, chem, par).model_params)
        d = m.generate_initial_n(ionisation_degree=ion, neg_ion_fraction=neg, non_feed_sp_fraction=non_feed)
    ctx.check(list(d) == chem.names, 'generated densities are keyed by the species')
    n = [d[s] for s in chem.names]
    n_e = par['pressure'] / (K * par['temp_gas']) * ion
    consistent(ctx, chem, par, feeds, n + [1.5 * n_e], ion, neg, non_feed, 1)
    # validation
    given = {s: ctx.real('given ' + s, 0, 100) for s in chem.names}
    charge = total([q * given[s] for s, q in zip(chem.names, chem.charge)])
    bad = ctx.choice('names', ['right', 'missing', 'unknown'])
    if bad == 'missing':
        given.pop(chem.names[-1])
    elif bad == 'unknown':
        given['X'] = 1.
    try:
        m.validate_initial_n(given)
        ok = True
    except errs:
        ok = False
    ctx.check(ok == (bad == 'right' and bool(charge > 0)), 'densities accepted iff they leave room for electrons')


def given(ctx, net, orders):
    from pygmo_fwork.pygmol.model import Model
    errs = errors('pygmo_fwork.pygmol.exceptions')
    chem = Stub(ctx, NETS[net], opts=('none',))
    par = params(ctx, chem)
    n = {s: ctx.real('n ' + s, 0, 100) for s in chem.names}
    temp_e = ctx.real('temp_e', 0.1, 100)
    order = ctx.choice('order', orders)
    d = {chem.names[i]: n[chem.names[i]] for i in order if i < len(chem.names)}
    bad = ctx.choice('names', ['right', 'missing', 'unknown'])
    if bad == 'missing':
        d.pop(chem.names[0])
    elif bad == 'unknown':
        d['X'] = 1.
    keep = dict(d)
    with ctx.guard('model'):
        m = bare(Model, chem, par)
    try:
        y = m._y0_from_init_params(temp_e, d)
        ok = True
    except errs:
        ok = False
    ctx.check(ok == (bad == 'right'), 'every species needs a density, and no other does')
    ctx.check(list(d) == list(keep) and all(d[k] is keep[k] for k in d), 'the given densities are not modified')
    if not ok:
        return
    n_e = total([q * n[s] for s, q in zip(chem.names, chem.charge)])
    for s, x in zip(chem.names, list(y)):
        ctx.check_eq(x, n[s], 'given densities in the order of the chemistry')
    ctx.check_eq(list(y)[-1], 1.5 * n_e * temp_e, 'energy density of the electrons', scale=1000.)
    try:
        m._validate_y0(y)
        ok = True
    except errs:
        ok = False
    ctx.check(ok == bool(n_e > 0), 'densities accepted iff they leave room for electrons')
    for k in (0, 1):
        try:
            m._validate_y0(list(y)[k:] if k else list(y) + [1.])
            ok = True
        except errs:
            ok = False
        ctx.check(not ok, 'a vector of another length is refused')


def neutral(ctx, order=None):
    from pygmo_fwork.pygmol.neutral_model import NeutralModel
    errs = errors('pygmo_fwork.pygmol.exceptions')
    chem = Stub(ctx, NETS['neutral'], order=order, opts=('none',))
    feeds = feeds_of(ctx, chem)
    par = params(ctx, chem, symbolic=('pressure', 'temp_gas'), feeds=feeds)
    with ctx.guard('model'):
        m = bare(NeutralModel, chem, par)
        y = list(m._y0_from_init_params(1., None))
        m._validate_y0(y)
    consistent(ctx, chem, par, feeds, y, 0, 0, 1e-15, 1)
    n = {s: ctx.real('n ' + s, 0, 100) for s in reversed(chem.names)}
    with ctx.guard('given'):
        y = list(m._y0_from_init_params(1., dict(n)))
    for s, x in zip(chem.names, y):
        ctx.check_eq(x, n[s], 'given densities in the order of the chemistry')
    ctx.check_eq(y[-1], 0, 'no electron energy without electrons')
    n.pop(chem.names[0])
    try:
        m._y0_from_init_params(1., n)
        ok = True
    except errs:
        ok = False
    ctx.check(not ok, 'every species needs a density, and no other does')


def tasks(tier):
    lab = ['densities add up to the pressure', 'the charge of the ions is the electron density',
           'the rest is shared in proportion to the feed']
    nets = ('argon', 'negative', 'double', 'dimer', 'tiny')
    out = [Task('built ' + net, 'built', {'net': net}, lab) for net in nets]
    out += [Task('wrapper ' + net, 'wrapper', {'net': net}, lab[:2]) for net in nets]
    out += [Task('built reversed', 'built', {'net': 'negative', 'order': [4, 3, 2, 1, 0]}, lab),
            Task('neutral', 'neutral', {}, lab), Task('neutral reversed', 'neutral', {'order': [3, 2, 1, 0]}, lab)]
    for net in ('tiny', 'double', 'negative'):
        n = {'tiny': 2, 'double': 3, 'negative': 5}[net]
        orders = list(itertools.permutations(range(n)))
        if tier == 'quick':
            orders = orders[::max(1, len(orders) // 6)]
        out.append(Task('given ' + net, 'given', {'net': net, 'orders': [list(o) for o in orders]},
                        ['given densities in the order of the chemistry']))
    return out
