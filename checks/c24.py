"""C24: paths, bottlenecks and flows of the graphs are optimal, and the ranking is their maximum over outputs and times"""
import itertools
import math
import warnings

from checks.c21 import once
from checks.c23 import network, RET, frame
from symx.runner import Task

BOUNDS = ('graphs of 2..5 nodes and up to 7 edges (some of them optional, any of them of arbitrary positive weight); rankings of the species of a '
          'network of 4..5 species, 1..2 important species, 1..2 times (equal when printed or not); weights of the product search are '
          'drawn from a few values')
ASSUMPTIONS = ['weights are positive (the graph refuses others)', 'numbers are reals']
TOPO = {
    'pair': (['A', 'T'], [('A', 'T')], [('T', 'A')], 'T'),
    'triangle': (['A', 'B', 'T'], [('A', 'B'), ('B', 'T'), ('A', 'T'), ('B', 'A')], [('T', 'A'), ('T', 'B')], 'T'),
    'diamond': (['A', 'B', 'C', 'T'], [('A', 'B'), ('A', 'C'), ('B', 'T'), ('C', 'T'), ('B', 'C')], [('A', 'T')], 'T'),
    'chords': (['A', 'B', 'C', 'T'], [('A', 'B'), ('B', 'C'), ('C', 'T'), ('A', 'C'), ('B', 'T'), ('C', 'A')], [], 'T'),
    'apart': (['A', 'B', 'C', 'T', 'U'], [('A', 'B'), ('B', 'T'), ('T', 'U'), ('U', 'C')], [('A', 'U'), ('C', 'B')], 'T'),
    'ring': (['A', 'B', 'C', 'T'], [('A', 'B'), ('B', 'C'), ('C', 'A'), ('C', 'T'), ('T', 'B')], [('B', 'T')], 'T'),
    'five': (['A', 'B', 'C', 'D', 'T'], [('A', 'B'), ('A', 'C'), ('B', 'D'), ('C', 'D'), ('D', 'T'), ('B', 'T')], [('C', 'B')], 'T'),
    # the flow through B and D has to make room for the one through C
    'zigzag': (['A', 'B', 'C', 'D', 'E', 'T'], [('A', 'B'), ('A', 'C'), ('B', 'D'), ('C', 'D'), ('D', 'T'), ('B', 'E'), ('E', 'T')], [], 'T'),
}


def simple_paths(edges, source, target):
    out, todo = [], [[source]]
    while todo:
        p = todo.pop()
        if p[-1] == target:
            out.append(p)
            continue
        todo += [p + [v] for u, v in edges if u == p[-1] and v not in p]
    return out


def pairs(path):
    return list(zip(path[:-1], path[1:]))


def graph(ctx, topo, attribute='weight', lo=0.1):
    from pygmo_fwork.optichem.graph import Graph
    nodes, edges, optional, target = TOPO[topo]
    edges = edges + [e for e in optional if once(ctx, 'edge {}{}'.format(*e))]
    w = {e: ctx.real('w {}{}'.format(*e), lo, 10) for e in edges}
    g = Graph()
    with ctx.guard('graph'):
        for u, v in sorted(edges):
            g.add_edge(u, v)
            g.update_edge_attributes(u, v, **{attribute: w[u, v]})
        g.weights_distributed = True
    return g, [n for n in nodes if any(n in e for e in edges)], edges, w, target


def best_paths(ctx, topo, kind, scaled=False):
    """scaled: with a weighting function"""
    attribute = 'weight' if not scaled else 'other'
    g, nodes, edges, w, target = graph(ctx, topo, attribute)
    kw = {'weighting_func': lambda x: 2 * x, 'inverse': lambda x: x / 2} if scaled else {}
    with ctx.guard('search'):
        fn = {'short': g.find_shortest_paths, 'wide': g.find_max_bottleneck_paths}[kind]
        paths, scores = fn(target, **(dict(kw, edge_attribute=attribute) if scaled else {}))
    ctx.check(set(paths) == set(nodes) == set(scores), 'a path from each node')
    for s in nodes:
        p = paths[s]
        if s == target:
            ctx.check(p == [s], 'a path from each node')
            continue
        all_ = simple_paths(edges, s, target)
        if not all_:
            ctx.check(p[-1] is None and scores[s] == (float('inf') if kind == 'short' else 0), 'no path between nodes which are not connected')
            continue
        ok = p in all_
        ctx.check(ok, 'the path leads along edges')
        if not ok:
            continue
        if kind == 'short':
            ctx.check_eq(scores[s], sum([w[e] for e in pairs(p)], 0.), 'the score of the path')
            for q in all_:
                ctx.check_le(scores[s], sum([w[e] for e in pairs(q)], 0.), 'no path is shorter')
        else:
            ctx.check(all(bool(scores[s] <= w[e] + 1e-9) for e in pairs(p)), 'the score of the path')
            ctx.check(any(bool(abs(scores[s] - w[e]) <= 1e-9) for e in pairs(p)), 'the score of the path')
            for q in all_:
                if q != p:
                    ctx.check(any(bool(w[e] <= scores[s] + 1e-9) for e in pairs(q)), 'no path is wider')


def cuts(nodes, source, target):
    rest = [n for n in nodes if n not in (source, target)]
    for k in range(len(rest) + 1):
        for c in itertools.combinations(rest, k):
            yield {source, *c}


def flow(ctx, topo, source):
    g, nodes, edges, w, target = graph(ctx, topo)
    twice = once(ctx, 'twice the capacity')
    kw = {'weighting_func': lambda x: 2 * x, 'inverse': lambda x: x / 2} if twice else {}
    with ctx.guard('flow'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = g.get_max_flow(source, target, **kw)
    caps = [sum([w[u, v] for u, v in edges if u in c and v not in c], 0.) for c in cuts(nodes, source, target)]
    for c in caps:
        ctx.check_le(f, c, 'no cut is smaller than the flow', scale=1)
    ctx.check(any(bool(abs(f - c) <= 1e-9) for c in caps), 'the flow saturates a cut')
    for u, v in edges:
        if not ctx.symbolic:
            ctx.check(g.get_edge_attributes(u, v)['weight'] == w[u, v], 'weights stay')
        else:
            ctx.check(g.get_edge_attributes(u, v)['weight'] is w[u, v], 'weights stay')


def refused(ctx):
    from pygmo_fwork.optichem.graph import Graph
    w = ctx.real('w', -10, 10)
    g = Graph()
    with ctx.guard('only an AssertionError'):
        g.add_edge('A', 'B')
        g.add_edge('A', 'B')
        try:
            g.update_edge_attributes('A', 'B', weight=w)
            ok = True
        except AssertionError:
            ok = False
        ctx.check(ok == bool(w > 0), 'only positive weights')
        if not ok:
            g.update_edge_attributes('A', 'B', weight=1.)
        kind = ctx.choice('asked', ['before the weights', 'only one function', 'good'])
        g.weights_distributed = kind != 'before the weights'
        fn = ctx.choice('search', [g.find_shortest_paths, g.find_max_bottleneck_paths, lambda t, **k: g.get_max_flow('A', t, **k)])
        kw = {} if kind != 'only one function' else {ctx.choice('one', ['weighting_func', 'inverse']): lambda x: x}
        try:
            fn('B', **kw)
            done = True
        except AssertionError:
            done = False
    ctx.check(done == (kind == 'good'), 'searches need weights and both functions')


def product(xs):
    r = 1.
    for x in xs:
        r = r * x
    return r


def largest(xs):
    return max(xs) if not any(hasattr(x, 'z') for x in xs) else xs


RANK = {  # network, edges (times first), optional, isolated
    'argon': ([2, 3, 5], [[('Ar', 'Ar+'), ('Ar*', 'Ar+'), ('Ar*', 'Ar'), ('Ar', 'Ar*')]]),
    'argon e': ([2, 3, 5], [[('Ar', 'e'), ('e', 'Ar+'), ('Ar*', 'e'), ('Ar*', 'Ar')]]),
    'argon 2': ([2, 3, 5], [[('Ar', 'Ar+'), ('Ar*', 'Ar+')], [('Ar', 'Ar+'), ('Ar*', 'Ar'), ('Ar+', 'Ar*')]]),
    'isolated': ([2, 3, 5], [[('Ar', 'Ar+'), ('Ar+', 'e')], [('Ar', 'e'), ('Ar+', 'Ar')]]),
    'alone': ([2, 3, 5], [[('Ar', 'Ar*'), ('Ar*', 'Ar'), ('e', 'Ar')]]),
    'oxygen': ([6, 7, 8], [[('O2', 'O'), ('O-', 'O'), ('O2', 'O-'), ('O', 'O2')]]),
    'oxygen 2': ([6, 7, 8], [[('O2', 'O'), ('O-', 'O2')], [('O2', 'O-'), ('O-', 'O'), ('O', 'O2')]]),
}


def score(method, w, paths, edges, nodes, source, target):
    """list of candidates, the score being the largest of them"""
    if method == 'max_flow':
        return None
    if method == 'shortest_path':
        return [1 / sum([1 / w[e] for e in pairs(p)], 0.) for p in paths]
    if method == 'max_product':
        return [product([w[e] for e in pairs(p)]) for p in paths]
    return [smallest([w[e] for e in pairs(p)]) for p in paths]


def smallest(xs):
    m = xs[0]
    for x in xs[1:]:
        if x < m:
            m = x
    return m


def biggest(xs):
    m = xs[0]
    for x in xs[1:]:
        if x > m:
            m = x
    return m


def ranking(ctx, name, important, method, ts):
    from pygmo_fwork.optichem.graph import ChemistryGraph, Graph
    keep, edges = RANK[name]
    with ctx.guard('chemistry'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        nt = network(ctx, keep, RET)
        chem = nt.chemistry()
        ids, heavy = [r.id for r in nt.reactions], list(chem.get_species_name())
        cg = ChemistryGraph(chem, {'radius': 1., 'length': 1.}, frame(ctx, ts, ids, [[1.] * len(ids)] * len(ts), list(range(len(ts)))),
                            frame(ctx, ts, heavy, [[-1.] * len(heavy)] * len(ts), list(range(len(ts)))))
    try:
        cg.get_ranking(important, method)
        ctx.check(False, 'no ranking without weights')
    except ValueError:
        pass
    ws, cg.graphs = [], []
    for k, es in enumerate(edges):
        g, w = Graph(), {}
        for u, v in es:
            if method == 'max_product':
                w[u, v] = ctx.choice('w {}{} {}'.format(u, v, k), [0.25, 0.5, 1.] if (u, v) in es[:2] else [0.5])
            elif method == 'shortest_path':
                w[u, v] = 1 / ctx.real('l {}{} {}'.format(u, v, k), 0.5, 10)
            else:
                w[u, v] = ctx.real('w {}{} {}'.format(u, v, k), 0.1, 2)
            g.add_edge(u, v)
            g.update_edge_attributes(u, v, weight=w[u, v])
        g.weights_distributed = True
        cg.graphs.append(g)
        ws.append(w)
    with ctx.guard('ranking'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        rank = cg.get_ranking(important, method)
    want = [s for s in heavy if s not in important]
    ctx.check(sorted(rank.index) == sorted(want), 'a score of each species')
    if sorted(rank.index) != sorted(want):
        return
    for s in want:
        cand, flows = [], []
        for t in important:
            for es, w in zip(edges, ws):
                if method == 'max_flow':
                    nodes = sorted({n for e in es for n in e} | {s, t})
                    caps = [sum([w[u, v] for u, v in es if u in c and v not in c], 0.) for c in cuts(nodes, s, t)]
                    cand.append(smallest(caps))
                else:
                    cand += score(method, w, simple_paths(es, s, t), es, None, s, t) or [0.]
        got = rank[s]
        ctx.check_eq(got, biggest(cand), 'the largest score over outputs and times', scale=1)
    vals = list(rank)
    for a, b in zip(vals[:-1], vals[1:]):
        ctx.check_le(a, b, 'the least important first', scale=1)


def tasks(tier):
    big = tier != 'quick'
    out = []
    for topo in TOPO:
        for kind, L in () if topo == 'zigzag' and not big else (('short', ['no path is shorter']), ('wide', ['no path is wider'])):
            for scaled in (False, True):
                if scaled and topo not in ('triangle', 'apart') and not big:
                    continue
                out.append(Task('{} {}{}'.format(kind, topo, ' scaled' * scaled), 'best_paths', {'topo': topo, 'kind': kind, 'scaled': scaled},
                                L if kind == 'short' or topo not in ('pair', ) else ['the score of the path']))
        for source in ('A', 'B') if topo in ('triangle', 'diamond', 'ring') else ('A',):
            out.append(Task('flow {} {}'.format(topo, source), 'flow', {'topo': topo, 'source': source}, ['no cut is smaller than the flow', 'the flow saturates a cut']))
    out.append(Task('refused', 'refused', {}, ['only positive weights', 'searches need weights and both functions']))
    for name, imp in (('argon', ['Ar+']), ('argon e', ['Ar+']), ('argon 2', ['Ar+']), ('isolated', ['Ar+']), ('alone', ['Ar+']), ('oxygen', ['O']), ('oxygen', ['O', 'O2']),
                      ('oxygen 2', ['O'])):
        for m in ('shortest_path', 'max_bottleneck', 'max_product', 'max_flow'):
            n = len(RANK[name][1])
            for ts in [[0.01], [0.01, 0.010001], [0.001, 0.5]][n - 1:n * 2 - 1]:
                out.append(Task('{} {} {} {}'.format(m, name, '-'.join(imp), '-'.join(map(str, ts))), 'ranking',
                                {'name': name, 'important': imp, 'method': m, 'ts': ts}, ['the largest score over outputs and times']))
    return out
