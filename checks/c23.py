"""C23: the edges of the chemistry graphs are the documented coupling coefficients of the species at each time"""
import warnings

from checks.c21 import disable, once
from checks.chemlib import OXY_R, oxygen, split
from checks.util import errors
from symx.core import smax
from symx.runner import Task

BOUNDS = ('networks of 3..6 species and 2..5 reactions, with electrons and third bodies, reactions disabled; one or two times; arbitrary '
          'non-negative rates, wall fluxes of either zero or any negative value, return coefficients, radius and length; all four weighting '
          'methods, with and without the surface')
ASSUMPTIONS = ['for DRG1 and DRG2 the net production of the species is not zero (the coefficient is not defined there)',
               'numbers are reals']
METHODS = ['DRG', 'DRG1', 'DRG2', 'DRGEP']
RET = {'Ar*': {'Ar': 1.}, 'Ar+': {'Ar': 0.75}, 'O': {'O2': 0.5}, 'O2+': {'O2': 0.5, 'O': 0.25}, 'O-': {}}


def network(ctx, keep, ret):
    species = {'Ar': {'stick_coef': 0., 'lj_sigma': 3.}, 'O2': {'stick_coef': 0., 'lj_sigma': 3.}}
    used = {s for k in keep for side in OXY_R[k - 1].split(' -> ') for s in split(side)}
    for s in RET:
        species[s] = {'stick_coef': 1., 'lj_sigma': 3., 'ret_coefs': {p: x for p, x in ret[s].items() if p in used}}
    return oxygen(keep=keep, species=species)


def coefficients(nt, ids, names, ret, rates, flux, ratio, method):
    """{(b, a): coefficient}, {a: norm}"""
    def surf(b, a):
        x = flux.get(b, 0.) * ratio if a == b else 0.
        if b in flux and a in ret.get(b, {}):
            x = x - ret[b][a] * flux[b] * ratio
        return x
    net = {(r, s): nt.sides[r][1].count(s) - nt.sides[r][0].count(s) for r in ids for s in names}
    involved = {(r, s): s in nt.sides[r][1] or s in nt.sides[r][0] for r in ids for s in names}
    drg = method in ('DRG', 'DRG1')
    out, norm = {}, {}
    for a in names:
        for b in names:
            terms = [(abs(net[r, a]) if drg else net[r, a]) * rates[r] for r in ids if involved[r, b] and net[r, a]]
            x, s = sum(terms, 0.), surf(b, a)
            out[b, a] = x + (s if a != b else -s) if drg else abs(x + s)
        walls = [surf(b, a) for b in names if b == a or a in ret.get(b, {})]  # no species returns as itself
        neg, pos = ([surf(a, a)], [surf(b, a) for b in names if b != a and a in ret.get(b, {})])
        if method == 'DRG':
            norm[a] = sum([abs(net[r, a]) * rates[r] for r in ids], 0.) + sum(pos, 0.) - sum(neg, 0.)
        elif method in ('DRG1', 'DRG2'):
            norm[a] = abs(sum([net[r, a] * rates[r] for r in ids], 0.) + sum(walls, 0.))
        else:
            prod = sum([net[r, a] * rates[r] for r in ids if net[r, a] > 0], 0.) + sum(pos, 0.)
            cons = sum([-net[r, a] * rates[r] for r in ids if net[r, a] < 0], 0.) + sum([-s for s in neg], 0.)
            norm[a] = smax(prod, cons)
    return out, norm


def frame(ctx, ts, columns, rows, index):
    import pandas as pd
    df = pd.DataFrame([[t] + list(r) for t, r in zip(ts, rows)], columns=['t'] + list(columns), index=index,
                      dtype=object if ctx.symbolic else float)
    return df


def weights(ctx, keep, method, times, loose, some=False, extra=False):
    """loose: what is symbolic - 'rates', 'fluxes', 'wall'"""
    from pygmo_fwork.optichem.graph import ChemistryGraph
    ret = {s: dict(to) for s, to in RET.items()}
    if 'wall' in loose:
        for s in ret:
            for p in ret[s]:
                ret[s][p] = ctx.real('ret {} {}'.format(s, p), 0, 1)
    with ctx.guard('chemistry'):
        nt = network(ctx, keep, ret)
        chem = nt.chemistry()
        ids = [r.id for r in nt.reactions]
    if some:
        ids = disable(ctx, chem, ids, ids)
    names, heavy = list(chem.get_species_name(special=True)), list(chem.get_species_name())
    ctx.check(sorted(names) == sorted({s for r in nt.reactions for side in nt.sides[r.id] for s in side}) or len(ids) < len(nt.reactions),
              'species of the network')
    par = {'radius': 0.5, 'length': 1.}
    for x in ('radius', 'length'):
        if x in loose:
            par[x] = ctx.real(x, 0.1, 1)
    ts = [0.001 * (k + 1) for k in range(times)]
    rates = [{r: ctx.real('rate{} {}'.format(r, k), 0, 100) if 'rates' in loose and k == times - 1 else 1. + 7. * i + k for i, r in enumerate(ids)}
             for k in range(times)]
    flux = [{s: -ctx.real('flux {} {}'.format(s, k), 0, 10) if 'fluxes' in loose and k == times - 1 else -(0.5 + .25 * i) for i, s in enumerate(heavy)}
            for k in range(times)]
    surface = ctx.choice('surface', [True, False])
    index = ctx.choice('index', [[0, 1], [5, 2], [1, 1]][:3 if extra and times > 1 else 1])[:times]
    rf = frame(ctx, ts, ids, [[x[r] for r in ids] for x in rates], index)
    wf = frame(ctx, ts, heavy, [[x[s] for s in heavy] for x in flux], index)
    keep_r, keep_w = rf.copy(), wf.copy()
    with ctx.guard('weights'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cg = ChemistryGraph(chem, par, rf, wf)
        if extra and once(ctx, 'weights of another kind before'):
            cg.distribute_weights('DRG' if method != 'DRG' else 'DRG2', not surface)
        cg.distribute_weights(method, surface)
    ctx.check(rf is keep_r or bool((rf.to_numpy() == keep_r.to_numpy()).all() and (wf.to_numpy() == keep_w.to_numpy()).all()), 'frames are left as they are')
    ctx.check(len(cg.graphs) == times, 'a graph for each time')
    ratio = 2 * (par['radius'] + par['length']) / (par['radius'] * par['length'])
    for k, g in enumerate(cg.graphs):
        r, norm = coefficients(nt, ids, names, ret, rates[k], flux[k] if surface else {}, ratio, method)
        ctx.check(bool(g.weights_distributed), 'weights are distributed')
        for a in names:
            if norm[a] == 0:
                if method in ('DRG', 'DRGEP'):
                    ctx.check(not any(g.has_edge(b, a) for b in names), 'edge of each coupled pair')
                continue
            if method in ('DRG1', 'DRG2') and norm[a] < 1e-3:
                continue
            for b in names:
                has = g.has_edge(b, a)
                want = b != a and bool(r[b, a] != 0)
                if ctx.symbolic or method in ('DRG', 'DRG1') or r[b, a] > 1e-9:
                    ctx.check(has == want, 'edge of each coupled pair')
                if has and want:
                    ctx.check_eq(g.get_edge_attributes(b, a)['weight'] * norm[a], r[b, a], 'documented coupling coefficient', scale=1)
        ctx.check(set(g.get_nodes()) == {s for e in g.get_edges() for s in e}, 'nodes of the edges')
        ctx.check(all(g.predecessors[v] == {x for x, y in g.get_edges() if y == v} and g.successors[v] == {y for x, y in g.get_edges() if x == v}
                      for v in g.get_nodes()), 'neighbours of the edges')


def refused(ctx):
    """frames which do not belong to the chemistry"""
    from pygmo_fwork.optichem.graph import ChemistryGraph
    errs = errors('pygmo_fwork.optichem.exceptions')
    with ctx.guard('chemistry'):
        nt = network(ctx, [2, 3, 5], RET)
        chem = nt.chemistry()
        ids, heavy = [r.id for r in nt.reactions], list(chem.get_species_name())
    rcols, wcols = list(ids), list(heavy)
    ok = True
    what = ctx.choice('columns', ['good', 'reaction missing', 'reaction unknown', 'reactions swapped', 'species missing', 'species swapped',
                                  'electron', 'reaction disabled', 'species disabled', 'text ids'])
    if what == 'reaction missing':
        rcols.pop(ctx.choice('which', [0, 1, 2]))
    elif what == 'reaction unknown':
        rcols[1] = 999
    elif what == 'reactions swapped':
        rcols[0], rcols[1] = rcols[1], rcols[0]
    elif what == 'species missing':
        wcols.pop(0)
    elif what == 'species swapped':
        wcols[0], wcols[1] = wcols[1], wcols[0]
    elif what == 'electron':
        wcols.append('e')
    elif what == 'text ids':
        rcols = [str(r) for r in rcols]
    with ctx.guard('disable'):
        if what == 'reaction disabled':
            chem.disable(reactions=[ids[0]])
        elif what == 'species disabled':
            chem.disable(species=['Ar*'])
    ts = [[ctx.real('t{} {}'.format(n, k), 0, 1) for k in range(2)] for n in ('rates', 'fluxes')]
    n = ctx.choice('times', [(1, 1), (2, 2), (1, 2), (2, 1)])
    ok = what == 'good' and n[0] == n[1] and all(bool(ts[0][k] == ts[1][k]) for k in range(n[0]))
    rf = frame(ctx, ts[0][:n[0]], rcols, [[1.] * len(rcols)] * n[0], list(range(n[0])))
    wf = frame(ctx, ts[1][:n[1]], wcols, [[-1.] * len(wcols)] * n[1], list(range(n[1])))
    with ctx.guard('only its own errors'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            ChemistryGraph(chem, {'radius': 1., 'length': 1.}, rf, wf)
            done = True
        except errs:
            done = False
    ctx.check(done == ok, 'frames of another chemistry or other times are refused')


def tasks(tier):
    big = tier != 'quick'
    out = []
    L = ['documented coupling coefficient', 'edge of each coupled pair']
    for m in METHODS:
        for keep, times, loose, kw in [
                ([2, 3, 5], 1, ['rates'], {}), ([2, 3, 5], 2, ['fluxes'], {}), ([2, 3, 5], 1, ['wall'], {}), ([2, 3], 1, ['radius'], {}),
                ([2, 3, 5], 1, ['length'], {'some': True}), ([6, 7, 8], 1, ['rates'], {}), ([7, 13], 2, ['rates'], {'extra': True})] + ([
                ([3, 6, 7, 8], 1, ['rates'], {}), ([6, 7, 8], 2, ['fluxes'], {'some': True, 'extra': True}), ([2, 3, 5, 13], 2, ['rates'], {}),
                ([6, 7, 8, 9, 10], 1, ['fluxes', 'wall'], {}), ([2, 3], 1, ['radius', 'length'], {})] if big else []):
            out.append(Task('{} {} {} times {}'.format(m, '-'.join(map(str, keep)), times, '-'.join(loose)), 'weights',
                            dict(keep=keep, method=m, times=times, loose=loose, **kw), L, time_limit=1500 if big else 240))
    out.append(Task('refused', 'refused', {}, ['frames of another chemistry or other times are refused']))
    return out
