"""C30: reactions taken over from the data base keep their species, data and meaning"""
import os
import tempfile

from checks.util import errors
from symx.runner import Task

BOUNDS = ('stand-ins for the data base objects: formulas of 6 species with charges up to three and up to two states; reactions of '
          '1..3 reactants with up to three data sets of every type in every order, arbitrary rate parameters, thresholds and special '
          'numbers; lumped reactions; networks of 4 reactions which share their species')
ASSUMPTIONS = ['activation energies are declared in eV for electron collisions and in K for others, as reactions demand',
               'collision diameters, where known, are positive']


class Rows(list):
    """the part of a query set which is used"""

    def all(self):
        return Rows(self)

    def __getitem__(self, k):
        got = list.__getitem__(self, k)
        return Rows(got) if isinstance(k, slice) else got

    def last(self):
        return self[-1] if len(self) else None

    def exclude(self, **kw):
        keep = self.filter(**kw)
        return Rows(r for r in self if not any(r is x for x in keep))

    def get(self, **kw):
        row, = self.filter(**kw)
        return row

    def iterator(self):
        return iter(self)

    def count(self):
        return len(self)

    def exists(self):
        return bool(len(self))

    def first(self):
        return self[0] if len(self) else None

    def filter(self, **kw):
        def fits(row):
            for path, want in kw.items():
                parts = path.split('__')
                how = parts.pop() if parts[-1] in ('startswith', 'endswith', 'in', 'exact', 'contains', 'lt', 'gt') else 'exact'
                x = row
                for p in parts:
                    x = getattr(x, p)
                if not {'startswith': lambda: x.startswith(want), 'endswith': lambda: x.endswith(want), 'in': lambda: x in want,
                        'contains': lambda: want in x, 'lt': lambda: x < want, 'gt': lambda: x > want, 'exact': lambda: x == want}[how]():
                    return False
            return True
        return Rows(r for r in self if fits(r))


class Row(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def rp(pk, formula, charge=0, states=(), mass=20., **kw):
    d = dict(pk=pk, ordinary_formula=formula, charge=charge, state=Rows(Row(state_str=s) for s in states), mass=mass, hform=None,
             lj_epsilon=None, lj_sigma=None, hpem=None)
    d.update(kw)
    return Row(**d)


class DataSet(object):
    def __init__(self, pk, kind, abc, unit='cm3.s-1', c_unit='eV', missing='', threshold=None, steps=7.5, entry_id=None, doi=()):
        self.pk, self.kind, self.abc = pk, kind, abc
        self.dataset_type = Row(pk={'xsec': 2, 'arrh': 1, 'arrh3': 3, 'other': 4}[kind])
        rows = [('E', 'E', abc[2], c_unit), ('n', 'n', abc[1], '1'), ('A', 'A', abc[0], unit)]
        self.parameter_set = Rows(Row(value=v, meta=Row(name=n, units=u)) for k, n, v, u in rows if k != missing)
        self.threshold, self.steps, self.entry_id = threshold, steps, entry_id
        self.citations = Rows(Row(doi=d) for d in doi)

    def is_xsec(self):
        return self.kind == 'xsec'

    def is_arrhenius(self):
        return self.kind in ('arrh', 'arrh3')

    def fit_arrhenius(self):
        assert self.kind == 'xsec'
        return tuple((x, 0.1) for x in self.abc)

    def get_thresh(self):
        assert self.kind == 'xsec'
        return self.steps


class QReaction(object):
    def __init__(self, pk, lhs, rhs, sets):
        self.pk, self.reactants, self.products, self.reactiondataset_set = pk, Rows(lhs), Rows(rhs), Rows(sets)
        self.parent_reaction, self.child_reactions = Rows(), Rows()

    def get_all_rps(self):
        return list(self.reactants) + list(self.products)


def known():
    return {'e': rp(1, 'e-', -1, mass=5.5e-4), 'M': rp(2, 'M'), 'Ar': rp(3, 'Ar', mass=40.), 'Ar+': rp(4, 'Ar+', 1, mass=40.),
            'Ar++': rp(5, 'Ar+2', 2, mass=40.), 'Ar*': rp(6, 'Ar', 0, ['*'], mass=40.), 'Ar(4s)': rp(7, 'Ar', 0, ['4s'], mass=40.),
            'O2': rp(8, 'O2', mass=32.), 'O': rp(9, 'O', mass=16.), 'O-': rp(10, 'O-', -1, mass=16.)}


def through(ctx, build):
    """what is read from the file which is written"""
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.xml')
        with ctx.guard('import'):
            b = XmlBuilder()
            build(b)
            b.dump_xml(path)
            return XmlParser().get_species_and_reactions(path)


def refused(ctx, build, what):
    from plaschem.xml_inputs import XmlBuilder
    E = errors('plaschem.exceptions')
    b = XmlBuilder()
    try:
        build(b)
        ok = False
    except E:
        ok = True
    ctx.check(ok, 'data which make no reaction are refused', what)
    return b


def species(ctx):
    stem, states, pk = ctx.choice('formula', [('Ar', (), 3), ('O2', ('*',), 9), ('CF4', ('**',), 4711), ('H', ('v=1',), 12), ('O2', ('X3P', 'v=0'), 3),
                                              ('C2H2', (), 1), ('Ar', ('***',), 4), ('N2', ('*', 'J=2'), 5)])
    sign, deg = ctx.choice('charge', [('', 0), ('+', 1), ('-', 1), ('+', 2), ('-', 2), ('+', 3), ('-', 3)])
    formula = stem + sign + (str(deg) if deg > 1 else '')
    plain = stem + sign * deg
    state = ','.join(states)
    if state and set(state) != {'*'}:
        state = '({})'.format(state)
    charge = {'': 0, '+': deg, '-': -deg}[sign]
    d = {'mass': ctx.real('mass', 1, 300), 'hform': ctx.real('hform', -10, 10)}
    given = ctx.choice('given', [('', None), ('lj_epsilon', ''), ('lj_sigma', 'AR^'), ('lj_epsilon lj_sigma', 'AR')])
    for k in ('lj_epsilon', 'lj_sigma'):
        d[k] = ctx.real(k, 0.5, 100) if k in given[0] else None
    d['hpem'] = given[1]
    q = rp(pk, formula, charge, states, **d)
    sp, _ = through(ctx, lambda b: b.add_rp_from_qdb(q))
    ctx.check(len(sp) == 1, 'one species')
    s = sp[0]
    ctx.check(s.get_name() == plain + state, 'names are formulas with spelled charges, followed by the state', '{} {}'.format(formula, s.get_name()))
    ctx.check(s.get_stateless() == plain and s.get_state() == (state or None), 'the state is told from the rest of the name')
    ctx.check(s.id == q.pk and s.get_qdb_id() == q.pk, 'species keep the key they have in the data base')
    ctx.check(s.get_charge() == charge, 'charge')
    ctx.check_eq(s.get_mass(), d['mass'], 'mass')
    ctx.check_eq(s.get_h_form(), d['hform'], 'formation enthalpy', scale=1)
    ctx.check_eq(s.get_lj_epsilon(), 0. if d['lj_epsilon'] is None else d['lj_epsilon'], 'collision parameters', scale=1)
    ctx.check_eq(s.get_lj_sigma(), 3. if d['lj_sigma'] is None else d['lj_sigma'], 'collision parameters', scale=1)
    ctx.check(s._hpem_name == (d['hpem'] or None), 'name in other input files')
    from plaschem.species import RP
    ctx.check(all(s.get_unit(a) == RP.default_units[a] for a in RP.default_units), 'units')

    def twice(b):
        with ctx.guard('import'):
            b.add_rp_from_qdb(q)
        b.add_rp_from_qdb(q)
    refused(ctx, twice, 'twice the same species')


# reactants, products, rate unit
KINDS = [(['e', 'Ar'], ['e', 'e', 'Ar+'], 'cm3.s-1'), (['e', 'Ar'], ['Ar', 'e'], 'cm3.s-1'), (['e', 'O2'], ['O', 'O-'], 'cm3.s-1'),
         (['e', 'Ar+', 'M'], ['Ar', 'M'], 'cm6.s-1'), (['e', 'e', 'Ar+'], ['e', 'Ar*'], 'cm6.s-1'), (['O', 'O', 'M'], ['O2', 'M'], 'cm6.s-1'),
         (['Ar*', 'Ar*'], ['Ar', 'Ar+', 'e'], 'm3.s-1'), (['e', 'Ar+'], ['e', 'e', 'Ar++'], 'm3.s-1'), (['Ar*'], ['Ar'], 's-1'),
         (['e', 'Ar'], ['e', 'Ar(4s)'], 'cm3.s-1')]


def data_set(ctx, k, kind, lhs, unit, lo=None, **kw):
    abc = [ctx.real('a{}'.format(k), 1e-3, 10), ctx.real('b{}'.format(k), -3 if lo is None else lo, 3),
           ctx.real('c{}'.format(k), -5 if lo is None else lo, 50)]
    return DataSet(100 + 7 * k, kind, abc, unit, 'eV' if 'e' in lhs else 'K', **kw)


def kinetics(ctx, r, ds, lhs, rhs, unit):
    """the data of a reaction are those of the data set"""
    if ds.kind == 'xsec':
        unit = {2: 'cm3.s-1', 3: 'cm6.s-1'}[len(lhs)]
    ctx.check_eq(r.get_arrh_a(si_units=False), ds.abc[0], 'rate parameters of the data set')
    ctx.check_eq(r.get_arrh_b(), ds.abc[1], 'rate parameters of the data set', scale=1)
    ctx.check_eq(r.get_arrh_c(), ds.abc[2], 'rate parameters of the data set', scale=1)
    ctx.check(r.get_unit('arrh_a') == unit, 'units of the data set, those of the fit for cross sections')
    factor = {'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}.get(unit, 1.)
    ctx.check_eq(r.get_arrh_a(), ds.abc[0] * factor, 'rate parameters of the data set')
    loss = 0.
    if 'e' in lhs and 'e' in rhs and sorted(lhs) != sorted(rhs):
        if ds.kind == 'xsec':
            loss = ds.steps if ds.threshold is None else ds.threshold
        else:
            loss = ds.abc[2] if bool(ds.abc[2] > 0) else 0.
    ctx.check_eq(r.get_el_en_loss(), loss, 'electrons lose the threshold energy, if they collide inelastically and survive', scale=1)
    ctx.check(r.get_elastic() == (sorted(lhs) == sorted(rhs)), 'elastic processes')
    ctx.check(r.get_qdb_ds_id() == ds.pk, 'data set of origin')


def reaction(ctx, k, kind):
    lhs, rhs, unit = KINDS[k]
    sp = known()
    thr = ctx.choice('threshold', ['declared', 'zero', 'from the data']) if kind == 'xsec' else 'from the data'
    special, doi, want = ctx.choice('entry', [(None, (), None), (-33, ('10.1/a',), '10.1/a'), (-1, (None, '10.1/b', '10.1/c'), '10.1/b'),
                                              (0, ('None', '10.1/d'), '10.1/d'), (12, (None, 'None'), None)])
    ds = data_set(ctx, 0, kind, lhs, unit, threshold={'declared': ctx.real('threshold energy', 0, 30), 'zero': 0.}.get(thr), steps=ctx.real('first step', 0, 30),
                  entry_id=special, doi=doi)
    q = QReaction(77, [sp[x] for x in lhs], [sp[x] for x in rhs], [ds])
    if kind == 'xsec' and len(lhs) < 2 or kind == 'other':
        refused(ctx, lambda b: b.add_reaction_from_qdb(q), 'cross sections of decays and unknown data')
        return
    if kind == 'arrh':
        for m in 'AnE':
            bad = QReaction(77, [sp[x] for x in lhs], [sp[x] for x in rhs], [DataSet(1, kind, ds.abc, unit, missing=m)])
            b = refused(ctx, lambda b: b.add_reaction_from_qdb(bad), 'without ' + m)
            ctx.check(not b.reactions, 'refused data leave no reaction')
    refused(ctx, lambda b: b.add_reaction_from_qdb(QReaction(77, [sp[x] for x in lhs], [sp[x] for x in rhs], [])), 'without data')
    s2, r2 = through(ctx, lambda b: b.add_reaction_from_qdb(q))
    ctx.check(len(r2) == 1, 'one reaction')
    r = r2[0]
    ctx.check([x.get_name() for x in r.get_reactants()] == lhs and [x.get_name() for x in r.get_products()] == rhs, 'reactants and products')
    ctx.check([s.get_name() for s in s2] == list(dict.fromkeys(lhs + rhs)), 'the species of the reaction, each once')
    ctx.check(r.id == 77 and r.get_qdb_r_id() == 77, 'reactions keep the key they have in the data base')
    kinetics(ctx, r, ds, lhs, rhs, unit)
    default = {True: 10, False: 20}['e' in lhs]
    ctx.check(r.get_special_number() == (special if special is not None and special < 0 else default), 'special numbers are the negative entries')
    ctx.check(r.get_doi() == want, 'the first known citation')
    ctx.check(r.get_comments() is None, 'comments')


def selection(ctx, k, n):
    """cross sections are preferred for electrons, rate coefficients for others; otherwise the first data set"""
    lhs, rhs, unit = KINDS[k]
    sp = known()
    kinds = [ctx.choice('type{}'.format(j), ['xsec', 'arrh', 'arrh3', 'other']) for j in range(n)]
    sets = [data_set(ctx, j, kind, lhs, unit) for j, kind in enumerate(kinds)]
    q = QReaction(5, [sp[x] for x in lhs], [sp[x] for x in rhs], sets)
    good = [d for d in sets if (d.kind == 'xsec') == ('e' in lhs) and (d.kind != 'other')]
    ds = (good or sets)[0]
    if ds.kind == 'xsec' and 'e' not in lhs:
        return  # there is no such fit
    if ds.kind == 'other':
        refused(ctx, lambda b: b.add_reaction_from_qdb(q), 'data of unknown kind')
        return
    _, r2 = through(ctx, lambda b: b.add_reaction_from_qdb(q))
    ctx.check(r2[0].get_qdb_ds_id() == ds.pk, 'the preferred kind of data is taken, the first of it')
    kinetics(ctx, r2[0], ds, lhs, rhs, unit)


def lumped(ctx, n):
    """a reaction which stands for several resolved ones is replaced by those, with the lumped species"""
    sp = known()
    k = ctx.choice('lumped', [(['e', 'Ar'], ['e', 'Ar*'], ['e', 'Ar'], ['e', 'Ar(4s)']), (['e', 'Ar*'], ['e', 'e', 'Ar+'], ['e', 'Ar(4s)'], ['e', 'e', 'Ar+']),
                              (['Ar*', 'M'], ['Ar', 'M'], ['Ar(4s)', 'M'], ['Ar', 'M']), (['e', 'Ar'], ['e', 'Ar'], ['e', 'Ar(4s)'], ['e', 'Ar'])])
    lhs, rhs, lhs2, rhs2 = k
    rows = lambda names: [sp[x] for x in names]
    low = QReaction(50, rows(lhs), rows(rhs), [data_set(ctx, 9, 'arrh', lhs, 'cm3.s-1')] if ctx.flag('with its own data') else [])
    kinds = [ctx.choice('type{}'.format(j), ['xsec', 'arrh']) if 'e' in lhs else 'arrh' for j in range(n)]
    sets = [data_set(ctx, j, kinds[j], lhs, 'cm3.s-1', lo=0.01 if n > 1 else None) for j in range(n)]
    up = [QReaction(60 - 3 * j, rows(lhs2), rows(rhs2), [sets[j]]) for j in range(n)]
    for u in up:
        u.child_reactions.append(low)
        low.parent_reaction.append(u)
    direct = ctx.flag('given resolved')
    if direct:
        s2, r2 = through(ctx, lambda b: [b.add_reaction_from_qdb(u) for u in up])
    else:
        s2, r2 = through(ctx, lambda b: b.add_reaction_from_qdb(low))
    ctx.check([s.get_name() for s in s2] == list(dict.fromkeys(lhs + rhs)), 'only the lumped species')
    ctx.check(len(r2) == n, 'one reaction for each resolved one')
    for r, u, ds in zip(r2, up, sets):
        ctx.check([x.get_name() for x in r.get_reactants()] == lhs and [x.get_name() for x in r.get_products()] == rhs, 'lumped reactants and products')
        ctx.check(r.id == u.pk and r.get_qdb_r_id() == u.pk, 'reactions keep the key they have in the data base')
        ctx.check(r.get_comments() == '{} > {}'.format(' + '.join(lhs2), ' + '.join(rhs2)), 'resolved reactions are told in the comments')
        kinetics(ctx, r, ds, lhs, rhs, 'cm3.s-1')
    up[0].child_reactions.append(QReaction(51, rows(lhs), rows(rhs), []))
    refused(ctx, lambda b: b.add_reaction_from_qdb(up[0]), 'two lumped reactions of one')


def chemistry(ctx, picks):
    """whole networks: every reaction in order, every species once; they make a chemistry"""
    from plaschem.chemistry import Chemistry
    sp = known()
    use = [KINDS[k] for k in picks]
    if ctx.flag('backwards'):
        use = use[::-1]
    sets = [data_set(ctx, j, 'arrh', lhs, unit, lo=0.01) for j, (lhs, _, unit) in enumerate(use)]
    fresh = ctx.flag('objects of their own')

    def row(x):
        return known()[x] if fresh else sp[x]
    qs = [QReaction(90 - 4 * j, [row(x) for x in lhs], [row(x) for x in rhs], [ds]) for j, ((lhs, rhs, _), ds) in enumerate(zip(use, sets))]
    s2, r2 = through(ctx, lambda b: b.add_chemistry_from_qdb(Row(get_reactions=lambda: qs)))
    want = list(dict.fromkeys(x for lhs, rhs, _ in use for x in lhs + rhs))
    ctx.check([s.get_name() for s in s2] == want, 'the species of the reactions, each once')
    ctx.check(len(r2) == len(use), 'all the reactions')
    for r, ds, (lhs, rhs, unit), q in zip(r2, sets, use, qs):
        ctx.check([x.get_name() for x in r.get_reactants()] == lhs and [x.get_name() for x in r.get_products()] == rhs and r.id == q.pk, 'reactions in their order')
        kinetics(ctx, r, ds, lhs, rhs, unit)
    ids = {x: sp[x].pk for x in sp}
    ctx.check(all(s.id == ids[s.get_name()] for s in s2), 'species keep the key they have in the data base')


def tasks(tier):
    big = tier != 'quick'
    out = [Task('species', 'species', {}, ['names are formulas with spelled charges, followed by the state', 'species keep the key they have in the data base'])]
    L = ['rate parameters of the data set', 'electrons lose the threshold energy, if they collide inelastically and survive']
    for k in range(len(KINDS)):
        name = ' + '.join(KINDS[k][0]) + ' > ' + ' + '.join(KINDS[k][1])
        for kind in ('xsec', 'arrh', 'other'):
            if kind == 'other' and k or kind == 'xsec' and 'e' not in KINDS[k][0] and k != 8:
                continue
            out.append(Task('{} {}'.format(kind, name), 'reaction', {'k': k, 'kind': kind}, L if kind != 'other' and not (kind == 'xsec' and k == 8) else []))
        if big or k in (0, 2, 5, 6):
            for n in (2, 3)[:2 if big else 1 + (k in (0, 6))]:
                out.append(Task('{} data sets {}'.format(n, name), 'selection', {'k': k, 'n': n}, ['the preferred kind of data is taken, the first of it']))
    for n in (1, 2) + (3,) * big:
        out.append(Task('lumped {}'.format(n), 'lumped', {'n': n}, ['only the lumped species', 'resolved reactions are told in the comments']))
    for picks in ([0, 1, 3, 6], [2, 5, 0, 9]) + (([7, 0, 4, 6, 8],) if big else ()):
        out.append(Task('chemistry ' + '-'.join(map(str, picks)), 'chemistry', {'picks': picks}, ['reactions in their order', 'the species of the reactions, each once']))
    return out
