"""C08: a network written to an input file is the network which is read back"""
import os
import tempfile

from checks.chemlib import oxygen, split, OXY, OXY_R, Net
from checks.util import errors
from symx.runner import Task

BOUNDS = ('argon/oxygen networks; every numeric attribute an arbitrary real, every subset of the optional attributes of one '
          'species and one reaction, all units, awkward texts and species names; every single disabled species or '
          'reaction; two overlapping networks merged in both orders; id reassignment and sorting; HPEM files with '
          'arbitrary numbers')
ASSUMPTIONS = ['decimal texts give back the number they were made from (repr of a double)']

KEEP = [3, 4, 2, 7, 8, 9]
TEXTS = ['plain', 'a < b & "c" > \'d\'', ' spaces  around ', 'two\nlines', 'ünïcode → λ', '<r rp="Ar">1</r>', '0', 'None']


def species_data(rp):
    d = {}
    for att in rp.default_attributes:
        try:
            d[att] = getattr(rp, 'get_' + att)()
        except Exception as exc:
            d[att] = type(exc).__name__
        if att in rp.default_units:
            d['unit', att] = rp.get_unit(att)
    ret = d.pop('ret_coefs')
    d['returns'] = None if ret is None else tuple(sorted(ret))
    for k in (ret or {}):
        d['ret', k] = ret[k]
    d['id'] = rp.id
    return d


def reaction_data(r):
    d = {}
    for att in r.default_attributes:
        d[att] = getattr(r, 'get_' + att)()
        if att in r.default_units:
            d['unit', att] = r.get_unit(att) if getattr(r, '_' + att, None) is not None or att in ('el_en_loss',) else None
    d['lhs'] = tuple(rp.get_name() for rp in r.get_reactants())
    d['rhs'] = tuple(rp.get_name() for rp in r.get_products())
    d['id'] = r.id
    return d


def equal(ctx, a, b, label, what=''):
    ctx.check(set(a) == set(b), label, '{} {} {}'.format(what, a, b) if not ctx.symbolic else what)
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, (str, type(None), tuple, bool)) or isinstance(y, (str, type(None), tuple, bool)):
            ctx.check(type(x) is type(y) and x == y, label, '{} {}: {!r} became {!r}'.format(what, k, x, y))
        else:
            ctx.check_eq(x, y, label, detail='{} {}'.format(what, k))


def same_network(ctx, species, reactions, sp2, r2, label):
    ctx.check([s.get_name() for s in sp2] == [s.get_name() for s in species], label + ' (species, in order)')
    ctx.check(len(r2) == len(reactions), label + ' (reactions, in order)')
    for x, y in zip(species, sp2):
        equal(ctx, species_data(x), species_data(y), label, x.get_name())
    for x, y in zip(reactions, r2):
        equal(ctx, reaction_data(x), reaction_data(y), label, str(x))


def load(path):
    from plaschem.xml_inputs import XmlParser
    return XmlParser().get_species_and_reactions(path)


def attributes(ctx, part, tie=True):
    from plaschem.xml_inputs import XmlBuilder
    from plaschem.chemistry import Chemistry
    errs = errors('plaschem.exceptions')
    sp = {n: {} for n in OXY if n != 'M'}
    rx = {}
    num = lambda n, lo=0, hi=100: ctx.real(n, lo, hi)
    flags = {}

    def flag(name, tied):
        # in the quick tier some of the choices go together
        name = tied if tie else name
        if name not in flags:
            flags[name] = ctx.flag(name)
        return flags[name]
    if part == 'species':
        for n in ('Ar', 'Ar*'):
            d = {'mass': num('mass' + n, 1)}
            for att in ('h_form', 'lj_epsilon', 'lj_sigma', 'stick_coef'):
                if flag('with ' + att, 'with ' + att[:2]) if n == 'Ar*' else True:
                    d[att] = num(att + n, 0, 1)
            sp[n] = d
        if ctx.flag('returns'):
            sp['Ar*']['ret_coefs'] = {} if ctx.flag('nothing returned') else {'Ar': num('r1', 0, 2), 'O2': num('r2', 0, 2)}
        if flag('extras', 'with lj'):
            sp['Ar*'].update(hpem_name='AR^', qdb_id=42, latex='\\mathrm{Ar}^{*} & x', comments='foo')
    elif part == 'texts':
        t = ctx.choice('comments', TEXTS)
        sp['Ar*']['comments'] = t
        sp['Ar*']['latex'] = TEXTS[::-1][TEXTS.index(t)] if tie else ctx.choice('latex', TEXTS)
    else:
        k = 3  # e + Ar -> e + e + Ar+
        d = {}
        for att in ('arrh_b', 'arrh_c', 'el_en_loss', 'gas_heat_contrib'):
            if flag('with ' + att, 'with ' + ('bc' if att[:4] == 'arrh' else 'en')):
                d[att] = num(att, -5, 5) if att != 'el_en_loss' else num(att)
        d['arrh_a'] = num('arrh_a')
        d['units'] = {'arrh_a': ctx.choice('a unit', ['m3.s-1', 'cm3.s-1'])}
        if 'arrh_c' in d:
            d['units']['arrh_c'] = ctx.choice('c unit', ['eV', 'K']) if False else 'eV'
        if 'el_en_loss' in d and flag('explicit unit', 'with bc'):
            d['units']['el_en_loss'] = 'eV'
        el = ctx.choice('elastic', [None, True, False, 'True', 'False'])
        if el is not None:
            d['elastic'] = el
        if flag('extras', 'with en'):
            d.update(special_number=-7, qdb_r_id=11, qdb_ds_id=12, doi='10.1/a&b', comments='<c>', latex='a & b')
        rx[k] = d
    net = oxygen(species=sp, reactions=rx, keep=KEEP)
    before = [species_data(x) for x in net.species], [reaction_data(x) for x in net.reactions]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.xml')
        with ctx.guard('export'):
            chem = net.chemistry()
            b = XmlBuilder()
            b.add_chemistry_from_instance(chem)
            b.dump_xml(path)
        with ctx.guard('import'):
            sp2, r2 = load(path)
        same_network(ctx, net.species, net.reactions, sp2, r2, 'the same network comes back')
        for x, y in zip(before[0] + before[1], [species_data(x) for x in net.species] + [reaction_data(x) for x in net.reactions]):
            equal(ctx, x, y, 'writing changes nothing')
        with ctx.guard('import'):
            c2 = Chemistry(xml_path=path)
            k1, k2 = chem.get_reactions_arrh_a(), c2.get_reactions_arrh_a()
        for i in k1.index:
            ctx.check_eq(k1.at[i], k2.at[i], 'the chemistry from the file has the same rates')
        # once more
        with ctx.guard('second round'):
            b2 = XmlBuilder()
            b2.add_chemistry_from_xml(path)
            try:
                b2.dump_xml(path)
                refused = False
            except errs:
                refused = True
            ctx.check(refused, 'existing files are only replaced on request')
            b2.dump_xml(path, overwrite=True)
            sp3, r3 = load(path)
        same_network(ctx, sp2, r2, sp3, r3, 'the same network comes back')


NAMES = ['Ar*', 'Ar(3P)', 'Ar(v=0,J=1)', 'Ar(4s, 4p)', 'Ar("x")', 'Ar(a&b)', "Ar(a'b)", 'Ar(1+,2-)']


def names(ctx):
    """species whose names are hard to write down"""
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    from plaschem.chemistry import Chemistry
    from plaschem.xml_inputs import XmlBuilder
    n1, n2 = ctx.choice('name', NAMES), ctx.choice('other', NAMES)
    ctx.assume(n1 != n2)
    num = lambda n: ctx.real(n, 0, 10)
    e = RP(0, name='e', mass=num('me'), charge=-1)
    ar = RP(5, name='Ar', mass=num('m'))
    ion = RP(2, name='Ar+', mass=num('m+'), charge=1)
    x = RP(3, name=n1, stateless='Ar', state=n1[2:], mass=num('mx'))
    y = RP(4, name=n2, stateless='Ar', state=n2[2:], mass=num('my'), ret_coefs={n1: num('r')})
    rs = [Reaction(1, [e, ar], [e, x], arrh_a=num('a1'), units={'arrh_a': 'm3.s-1'}),
          Reaction(7, [x, y, x], [y, ar, x], arrh_a=num('a2'), units={'arrh_a': 'cm6.s-1'}),
          Reaction(4, [e, x], [e, e, ion], arrh_a=num('a3'), units={'arrh_a': 'm3.s-1'}),
          Reaction(5, [x, y], [ar, ar], arrh_a=num('a4'), units={'arrh_a': 'm3.s-1'})]
    chem = Chemistry(species=[e, ar, ion, x, y], reactions=rs)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.xml')
        with ctx.guard('export'):
            b = XmlBuilder()
            b.add_chemistry_from_instance(chem)
            b.dump_xml(path)
        with ctx.guard('import'):
            sp2, r2 = load(path)
        same_network(ctx, [e, ar, ion, x, y], rs, sp2, r2, 'the same network comes back')


def partial(ctx, keep):
    """the enabled part of a network is exported"""
    from plaschem.chemistry import Chemistry
    from plaschem.xml_inputs import XmlBuilder
    errs = errors('plaschem.exceptions')
    sp = {n: {'mass': ctx.real('m' + n, 1, 100)} for n in OXY if n != 'M'}
    sp['O2+'].update(ret_coefs={'O2': ctx.real('r1', 0, 1), 'O': ctx.real('r2', 0, 1)})
    sp['Ar+'].update(ret_coefs={'Ar*': ctx.real('r3', 0, 1)})
    net = oxygen(species=sp, keep=keep)
    chem = net.chemistry()
    heavy = [n for n in net.rp if n not in ('e',)]
    t = ctx.choice('disable', heavy + [r.id for r in net.reactions])
    u = ctx.choice('then', [None, 'O', 'O-'])
    for what in (t, u):
        if what is None or (isinstance(what, str) and what not in net.rp):
            continue
        try:
            chem.disable(species=(what,)) if isinstance(what, str) else chem.disable(reactions=(what,))
        except errs:
            pass
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.xml')
        with ctx.guard('export'):
            b = XmlBuilder()
            b.add_chemistry_from_instance(chem)
            b.dump_xml(path)
        with ctx.guard('import'):
            c2 = Chemistry(xml_path=path)
        ctx.check(list(c2.get_species(special=True).index) == list(chem.get_species(special=True).index),
                  'exactly the enabled species')
        ctx.check(list(c2.get_reactions().index) == list(chem.get_reactions().index), 'exactly the enabled reactions')
        r1, r2 = chem.get_species_ret_coefs(), c2.get_species_ret_coefs()
        for i in r1.index:
            ctx.check(set(r1.at[i]) == set(r2.at[i]), 'return species of the enabled part', '{} {}'.format(r1.at[i], r2.at[i]))
            for k in r1.at[i]:
                ctx.check_eq(r1.at[i][k], r2.at[i][k], 'return species of the enabled part')
        for f in ('get_species_mass', 'get_species_charge', 'get_species_stick_coef', 'get_reactions_arrh_a'):
            a, b_ = getattr(chem, f)(), getattr(c2, f)()
            for i in a.index:
                ctx.check_eq(a.at[i], b_.at[i], 'data of the enabled part', detail=f)


def merging(ctx):
    """several sources in one builder"""
    from plaschem.chemistry import Chemistry
    from plaschem.xml_inputs import XmlBuilder
    errs = errors('plaschem.exceptions')
    n1 = oxygen(keep=[1, 2, 3], reactions={3: {'arrh_a': ctx.real('a', 0, 1)}})
    n2 = oxygen(keep=[3, 6, 7, 8, 11], species={'O': {'mass': ctx.real('m', 1, 20)}})
    order = ctx.choice('order', ['12', '21'])
    how1, how2 = ctx.choice('how1', ['instance', 'file', 'single']), ctx.choice('how2', ['instance', 'file', 'single'])
    b = XmlBuilder()
    with tempfile.TemporaryDirectory() as tmp:
        want_s, want_r = [], []
        for n, how in ((n1, how1), (n2, how2)) if order == '12' else ((n2, how2), (n1, how1)):
            with ctx.guard('adding'):
                if how == 'instance':
                    b.add_chemistry_from_instance(n.chemistry())
                elif how == 'single':
                    for r in n.reactions:
                        b.add_reaction_from_instance(r)
                else:
                    p = os.path.join(tmp, 'part.xml')
                    bb = XmlBuilder()
                    bb.add_chemistry_from_instance(n.chemistry())
                    bb.dump_xml(p, overwrite=True)
                    b.add_chemistry_from_xml(p)
            want_s += [s for s in n.species if s.get_name() not in [x.get_name() for x in want_s]]
            want_r += n.reactions
        # what is present already, or refers to absent species, is refused
        try:
            b.add_rp_from_instance(n2.rp['Ar+'])
            refused = False
        except errs:
            refused = True
        ctx.check(refused, 'a second species of the same name is refused')
        try:
            b.add_reaction_from_attributes(('Ar', 'Xe'), ('Ar', 'Xe'), r_id=77, r_attributes={'arrh_a': 1.},
                                           r_units={'arrh_a': 'm3.s-1'})
            refused = False
        except errs:
            refused = True
        ctx.check(refused, 'a reaction of absent species is refused')
        path = os.path.join(tmp, 'x.xml')
        act = ctx.choice('then', ['ids', 'nothing', 'sort', 'sort and ids'])
        with ctx.guard('finish'):
            if 'sort' in act:
                b.sort_elements()
            if 'ids' in act:
                b.assign_ids()
            b.dump_xml(path)
            sp2, r2 = load(path)
        ctx.check({s.get_name() for s in sp2} == {s.get_name() for s in want_s} and len(sp2) == len(want_s),
                  'every species once')
        by = {s.get_name(): s for s in sp2}
        for s in want_s:
            x, y = species_data(s), species_data(by[s.get_name()])
            x['id'] = y['id'] = 0
            equal(ctx, x, y, 'the species keep their data', s.get_name())
        ctx.check(len(r2) == len(want_r), 'every reaction arrives')
        left = list(r2)
        for r in want_r:
            x = reaction_data(r)
            x['id'] = 0
            for k, q in enumerate(left):
                y = reaction_data(q)
                y['id'] = 0
                if str(q) == str(r) and bool(x['arrh_a'] == y['arrh_a']):
                    equal(ctx, x, y, 'the reactions keep their data', str(r))
                    del left[k]
                    break
            else:
                ctx.check(False, 'the reactions keep their data', 'no {}'.format(r))
        if 'ids' in act:
            k = 1
            for s in sp2:
                n = s.get_name()
                ctx.check(s.id == {'e': 0, 'M': 999}.get(n, k), 'species are numbered in order')
                k += n not in ('e', 'M')
            ctx.check([r.id for r in r2] == list(range(1, len(r2) + 1)), 'reactions are numbered in order')
        if act == 'nothing' and order == '12' and how1 != 'single' and how2 != 'single':
            ctx.check([str(r) for r in r2] == [str(r) for r in want_r], 'reactions stay in the order they were added')


def hpem(ctx, style):
    """the other input format"""
    from plaschem.xml_inputs import XmlBuilder
    num = lambda n, lo=0, hi=10: ctx.real(n, lo, hi)
    sp = []  # name in the file, name, charge
    data = {}
    for raw, name, q in (('E', 'e', -1), ('Ar', 'Ar', 0), ('Ar^', 'Ar+', 1), ('O-', 'O-', -1), ('Xe', 'Xe', 0), ('O', 'O', 0)):
        data[name] = dict(mass=num('m' + raw, 1), stick=num('s' + raw, 0, 1), ret=num('r' + raw, 0, 2), q=q, raw=raw,
                          to='Ar' if 'Ar' in name else 'O')
    rs = [('E + Ar', 'E + E + Ar^', ['e', 'Ar'], ['e', 'e', 'Ar+'], -1), ('O- + Ar^', 'O + Ar', ['O-', 'Ar+'], ['O', 'Ar'], 1),
          ('E + Ar + O', 'Ar + O-', ['e', 'Ar', 'O'], ['Ar', 'O-'], -1), ('E + Ar', 'E + Ar', ['e', 'Ar'], ['e', 'Ar'], -33),
          ('Ar', 'Ar', ['Ar'], ['Ar'], -1)]
    fmt_s, fmt_r = {
        'wide': ('{} : {} ; {} & {} ] 0 [ {} @ {} ! note\n', '{} > {} : {} ; {} & {} ] {} [ {} ! note\n'),
        'tight': ('{}:{};{}&{}] 0 [{}@{}!note\n', '{} > {}:{};{}&{}] {} [{}!note\n'),
        'loose': ('  {}  :  {} ;   {} &  {} ]  0 [   {} @   {} !\n', '   {}   >   {}  :   {}  ;  {}  &  {}  ]  {}  [   {}  !\n'),
    }[style]
    skip = ctx.flag('skip special')
    lines = [fmt_s.format(d['raw'], d['q'], d['mass'], d['stick'], d['ret'], d['to']) for d in data.values()]
    vals = []
    for k, (lhs, rhs, _, _, special) in enumerate(rs):
        v = [num('a{}'.format(k)), num('b{}'.format(k), -2), num('c{}'.format(k)), num('g{}'.format(k), -5)]
        vals.append(v)
    lines.append('*\n')
    for (lhs, rhs, _, _, special), v in zip(rs, vals):
        lines.append(fmt_r.format(lhs, rhs, v[0], v[1], v[2], v[3], special))
    with tempfile.TemporaryDirectory() as tmp:
        dat, path = os.path.join(tmp, 'x.dat'), os.path.join(tmp, 'x.xml')
        with open(dat, 'w') as f:
            f.writelines(lines)
        with ctx.guard('import'):
            b = XmlBuilder()
            b.add_chemistry_from_hpem(dat, skip_special_numbers=skip)
            b.assign_ids()
            b.dump_xml(path)
            sp2, r2 = load(path)
        want = [n for n in data if n != 'Xe']
        ctx.check([s.get_name() for s in sp2] == want, 'HPEM: the species which take part, in order',
                  str([s.get_name() for s in sp2]))
        for s in sp2:
            d = data[s.get_name()]
            ctx.check_eq(s.get_mass(), d['mass'], 'HPEM: mass')
            ctx.check(s.get_charge() == d['q'], 'HPEM: charge')
            if s.get_name() == 'e':
                continue
            ctx.check_eq(s.get_stick_coef(), d['stick'], 'HPEM: sticking')
            if bool(d['stick'] != 0):
                ctx.check(list(s.get_ret_coefs()) == [d['to']], 'HPEM: return species')
                ctx.check_eq(s.get_ret_coefs()[d['to']], d['ret'], 'HPEM: return coefficient')
        use = [(r, v) for r, v in zip(rs, vals) if not skip or r[4] in (-1, 1)]
        ctx.check([[x.get_name() for x in r.get_reactants()] for r in r2] == [r[2] for r, _ in use] and
                  [[x.get_name() for x in r.get_products()] for r in r2] == [r[3] for r, _ in use], 'HPEM: reactions')
        for r, (q, v) in zip(r2, use):
            for got, val in ((r.get_arrh_a(si_units=False), v[0]), (r.get_arrh_b(), v[1]), (r.get_arrh_c(), v[2]),
                             (r.get_gas_heat_contrib(), v[3])):
                ctx.check_eq(got, val, 'HPEM: kinetic data')
            n = len(q[2])
            ctx.check(r.get_unit('arrh_a') == {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}[n], 'HPEM: units')
            ctx.check(r.get_unit('arrh_c') == ('eV' if 'e' in q[2] else 'K'), 'HPEM: units')


def tasks(tier):
    lab = ['the same network comes back']
    tie = tier == 'quick'
    out = [Task('species attributes', 'attributes', {'part': 'species', 'tie': tie}, lab, validate=20),
           Task('texts', 'attributes', {'part': 'texts', 'tie': tie}, lab, validate=20),
           Task('reaction attributes', 'attributes', {'part': 'reaction', 'tie': tie}, lab, validate=20),
           Task('names', 'names', {}, lab),
           Task('disabled', 'partial', {'keep': KEEP + [10, 13] if tier == 'quick' else None}, ['exactly the enabled species'],
                time_limit=600),
           Task('merging', 'merging', {}, ['every species once', 'reactions are numbered in order'], validate=20)]
    for s in ('wide', 'tight', 'loose'):
        out.append(Task('HPEM ' + s, 'hpem', {'style': s}, ['HPEM: kinetic data', 'HPEM: return coefficient']))
    return out
