"""C29: LaTeX strings and tables state the data of species and reactions"""
import re

from checks.chemlib import OXY, Net, arrh_unit, split
from checks.util import errors
from symx.runner import Task

BOUNDS = ('pre-exponential factors of 1e-30..1e10 to three digits, exponents of -100..100 and activation energies and energy losses of up to 1e6 '
          'to two decimals, every value; formulas of up to two elements (of 12) with up to 99 atoms each, up to three '
          'charges or four stars, and a state; every selection of up to 3 of 6 reactions, every stoichiometry of up to three species with equal or different LaTeX')
ASSUMPTIONS = ['the digits of a number in a text are symbolic, the number of digits and the trailing zeros are forked on; half-way cases may round either way']
EL, HV = 'e + Ar -> e + Ar*', 'O- + Ar+ -> O + Ar'
E_COL = r'$\Delta E_\mathrm{e}$'
COLS = ['ID', 'Reaction', '$k$', E_COL, 'Source']


def one(string, att, cls=None):
    names = list(dict.fromkeys(split(string.split(' -> ')[0]) + split(string.split(' -> ')[1])))
    units = {'arrh_a': att.pop('unit', None) or arrh_unit(string), 'arrh_c': 'eV' if string.startswith('e +') else 'K'}
    net = Net({n: dict(OXY[n]) for n in names}, [(string, att, units)])
    return net.reactions[0]


RATE = re.compile(r'^(?P<a>[^\s\\]+)( \\times 10\^\{(?P<x>-?\d+)\})?'
                  r'( (?P<base>T_\\mathrm\{e\}|\\left\( \\mathrm\{T_g\}/300 \\right\)|\\left\( \\dfrac\{\\mathrm\{T_g\}\}\{300\} \\right\))\^\{(?P<b>[^{}]+)\})?'
                  r'( \\exp \\left\( (?P<sign>-?)(?P<c>[^\s/\\]+)/(?P<over>T_\\mathrm\{e\}|\\mathrm\{T_g\}) \\right\)|'
                  r' \\exp \\left\( (?P<sign2>-?)\\dfrac\{(?P<c2>[^{}]+)\}\{(?P<over2>T_\\mathrm\{e\}|\\mathrm\{T_g\})\} \\right\))?$')


def read(ctx, text, electron, frac, lab):
    """the numbers a, b, c of a rate coefficient in LaTeX"""
    m = RATE.match(text)
    ctx.check(m is not None, lab)
    if m is None:
        return None
    d = m.groupdict()
    try:
        a = ctx.number(d['a'])
        b = ctx.number(d['b']) if d['base'] else None
        c = ctx.number(d['c'] or d['c2']) if d['over'] or d['over2'] else None
    except ValueError:
        ctx.check(False, lab)
        return None
    if d['base']:
        ctx.check(('T_g' not in d['base']) == electron and (electron or ('dfrac' in d['base']) == (frac == 'dfrac')), 'the temperature of the kind of reaction')
    if c is not None:
        ctx.check(('T_g' not in (d['over'] or d['over2'])) == electron and bool(d['over2']) == (frac == 'dfrac'), 'the temperature of the kind of reaction')
        c = c * (1 if d['sign'] or d['sign2'] else -1)
    ctx.check(1 <= a and a < 10 or a == 0, 'one digit before the point')
    return a, int(d['x'] or 0), b, c


def near(ctx, got, want, half, lab):
    ctx.check(abs(got - want) <= half * (1 + 1e-9), lab)


def rate(ctx, string, what, lo, hi, unit=None, si=True, frac='/'):
    """a rate coefficient states A to three digits, the exponent and the activation energy to two decimals"""
    from plaschem.latex import Texify
    electron = string.startswith('e +')
    v = {'a': 2.5e-12, 'b': 0.5, 'c': 300.}
    if what == 'a':
        f, x = ctx.real('mantissa', 0.5, 12), ctx.choice('order', list(range(lo, hi)))
        v['a'] = f * 10. ** x
        if ctx.flag('zero'):
            v['a'] = 0.
    elif what:
        v[what] = ctx.real(what, lo, hi)
    with_b, with_c = what in 'ab', what in 'ac'
    att = {'arrh_a': v['a'], 'arrh_b': v['b'] if with_b else 0., 'arrh_c': v['c'] if with_c else 0., 'unit': unit}
    lab = 'the rate coefficient'
    r = one(string, att)
    with ctx.guard(lab), ctx.spelling():
        text = Texify.texify_rate_coefficient(r, si_units=si, fractype=frac)
    got = read(ctx, text, electron, frac, lab)
    if got is None:
        return
    a, x, b, c = got
    want = v['a'] * ({'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}.get(unit, 1.) if si else 1.)
    near(ctx, a * 10. ** x, want, 0.005 * 10. ** x, 'the factor to three digits')
    if with_b:
        ctx.check(b is not None or v['b'] == 0, 'the exponent to two decimals')
        ctx.check(b is None or v['b'] != 0, 'nothing is shown which does not matter')
        if b is not None:
            near(ctx, b, v['b'], 0.005, 'the exponent to two decimals')
    if with_c:
        ctx.check(c is not None or v['c'] == 0, 'the activation energy to two decimals')
        ctx.check(c is None or v['c'] != 0, 'nothing is shown which does not matter')
        if c is not None:
            near(ctx, c, v['c'], 0.005, 'the activation energy to two decimals')
    ctx.check(with_b or b is None, 'nothing is shown which does not matter')
    ctx.check(with_c or c is None, 'nothing is shown which does not matter')


def body(text):
    """cells of the rows of a table: what stands between the last rule of the headers and the end"""
    lines = [l.strip() for l in text.split('\n')]
    last = max(i for i, l in enumerate(lines) if 'endlastfoot' in l)
    rows = [l for l in lines[last:] if ' & ' in l or l.endswith('\\\\')]
    return [[c.strip() for c in l[:-2].split(' & ')] for l in rows]


ROWS = ['e + Ar -> e + Ar*', 'e + Ar -> e + e + Ar+', 'O- + Ar+ -> O + Ar', 'O + O + M -> O2 + M', 'Ar* -> Ar', 'e + O2 -> O + O-']


def listed(ctx, most, what, disable=False):
    """the table of reactions lists every enabled reaction once"""
    from plaschem.latex import ReactionsTable
    keep = [k for k in range(len(ROWS)) if k < 2 or ctx.flag('reaction {}'.format(k))] if most else [0, 1]
    if most and len(keep) > 2 + most:
        return
    names = list(dict.fromkeys(n for k in keep for side in ROWS[k].split(' -> ') for n in split(side)))
    loss = ctx.real('loss', -1e3, 1e6) if what == 'loss' else 11.5
    doi = {0: 'doi/1', 4: 'doi/2'}
    reactions, ids = [], {}
    for k in keep:
        att = {'arrh_a': (k + 1) * 1e-12, 'arrh_b': 0.5 * (k % 2), 'arrh_c': 0., 'id': 20 - 3 * k, 'el_en_loss': loss if k == 0 else [0., 12.25, 100.][k % 3]}
        if k in doi:
            att['doi'] = doi[k]
        ids[20 - 3 * k] = k
        reactions.append((ROWS[k], att, {'arrh_a': arrh_unit(ROWS[k]), 'arrh_c': 'eV' if ROWS[k].startswith('e +') else 'K'}))
    c = Net({n: dict(OXY[n]) for n in names}, reactions).chemistry()
    cols = [x for x in COLS if x == 'ID' or ctx.flag(x)] if what == 'columns' else COLS
    if what == 'columns' and ctx.flag('reversed'):
        cols = cols[::-1]
    off = None
    if disable and ctx.flag('disable'):
        off = ctx.choice('disabled', keep[1:])
        try:
            c.disable(reactions=[20 - 3 * off])
        except errors('plaschem.exceptions'):
            return
    live = [i for i in c.get_reactions_id()]
    lab = 'the table of reactions'
    with ctx.guard(lab), ctx.spelling():
        rows = body(str(ReactionsTable(c, columns=tuple(cols))))
    ctx.check(len(rows) == len(live) and all(len(r) == len(cols) for r in rows), 'one row per reaction')
    if len(rows) != len(live) or any(len(r) != len(cols) for r in rows):
        return
    at = {name: i for i, name in enumerate(cols)}
    ctx.check([r[at['ID']] for r in rows] == [str(i) for i in live], 'one row per reaction')
    for i, row in zip(live, rows):
        k = ids[i]
        r = c.get_reaction(i)
        if 'Reaction' in at:
            ctx.check(row[at['Reaction']] == '${}$'.format(r.get_latex()), 'the reaction of the row')
        if '$k$' in at:
            m = RATE.match(row[at['$k$']].strip('$'))
            ok = m is not None
            if ok:
                ok = abs(float(m.group('a')) * 10. ** int(m.group('x') or 0) / ((k + 1) * 1e-12) - 1) < 0.01 and bool(m.group('b')) == bool(k % 2)
            ctx.check(ok, 'the rate coefficient of the row')
        if 'Source' in at and k in doi:
            ctx.check(row[at['Source']] == doi[k], 'the source of the row')
        if E_COL in at:
            want = loss if k == 0 else [0., 12.25, 100.][k % 3]
            text = row[at[E_COL]]
            ctx.check(bool(text) == bool(want != 0), 'the energy loss to two decimals')
            if text:
                try:
                    got = ctx.number(text)
                except ValueError:
                    ctx.check(False, 'the energy loss to two decimals')
                    continue
                near(ctx, got, want, 0.005, 'the energy loss to two decimals')


SOME = ['H', 'C', 'N', 'O', 'F', 'S', 'Si', 'He', 'Ar', 'Cl', 'Cs', 'Co']


def plain(latex):
    """the name which a LaTeX formula shows"""
    t = latex.replace('\\mathrm{', '{')
    body, _, state = t.partition('(')
    out, i = '', 0
    up = ''
    while i < len(body):
        ch = body[i]
        if ch in '_^':
            i += 1
            if body[i] == '{':
                j = body.index('}', i)
                arg, i = body[i + 1:j], j + 1
            else:
                arg, i = body[i], i + 1
            if ch == '^' and arg[0].isdigit():
                arg = arg[1:] * int(arg[0])
            if ch == '^':
                up = arg
            if ch == '_' and not arg.isdigit():
                return None
            if ch == '^' and set(arg) - set('+-*'):
                return None
            out += arg
        elif ch.isdigit() or ch in '+-*':
            return None      # neither subscript nor superscript
        else:
            if ch not in '{} ':
                out += ch
            i += 1
    return out + ('(' + state if state else '')


SUFFIX = ['', '+', '---', '**', '(v1)', '++', '+++', '-', '--', '*', '***', '****', '(a1Delta)', '+(X)']


def formula(ctx, n, pool, counts, suffixes=len(SUFFIX)):
    """the LaTeX formula of a name shows every element, count, charge, excitation and state of it"""
    from plaschem.latex import Texify
    from plaschem.species import RP
    name = ''
    for i in range(n):
        k = ctx.choice('count {}'.format(i), counts)
        name += ctx.choice('element {}'.format(i), pool) + (str(k) if k > 1 else '')
    name += ctx.choice('suffix', SUFFIX[:suffixes])
    with ctx.guard('formula'):
        text = Texify.texify_species(name)
        sp = RP(7, attributes={'name': name, 'mass': 1.})
        same = sp.get_latex()
        own = RP(8, attributes={'name': name, 'mass': 1., 'latex': 'own'}).get_latex()
    ctx.check(plain(text) == name, 'the formula shows the name')
    ctx.check(same == text and own == 'own', 'species show their own LaTeX, or the formula')


def brackets(ctx):
    """names with states in anything but one closing pair of brackets are refused"""
    from plaschem.latex import Texify
    name = ''.join(ctx.choice('part {}'.format(i), ['', '(', ')', 'v', 'O2']) for i in range(4))
    good = name.count('(') == name.count(')') and ('(' not in name or name.count('(') == 1 and name.index('(') < name.index(')') == len(name) - 1)
    try:
        Texify.texify_species(name)
        ok = True
    except AssertionError:
        ok = False
    ctx.check(ok == good, 'one pair of brackets, at the end')


def stoich(ctx, most, latex):
    """the LaTeX reaction shows every species with its number on either side"""
    from plaschem.reactions import Reaction
    from plaschem.species import RP
    names = ['A1', 'B', 'C']
    own = {}
    sps = {}
    for k, n in enumerate(names):
        own[n] = ctx.choice('latex ' + n, latex) if latex and n != 'A1' else latex and latex[0]

        class Any(RP):
            def get_atoms(self):
                return {}
        att = {'name': n, 'mass': 1., 'charge': 0}
        if own[n]:
            att['latex'] = own[n]
        sps[n] = Any(k + 3, attributes=att)
    sides = []
    for s in ('left', 'right'):
        side = []
        for n in names:
            side += [n] * ctx.choice('{} {}'.format(s, n), list(range(most + 1)))
        if not 1 <= len(side) <= most:
            return
        if s == 'left' and ctx.flag('reversed'):
            side = side[::-1]
        sides.append(side)
    lab = 'the LaTeX of the reaction'
    with ctx.guard(lab):
        unit = {'arrh_a': ['s-1', 'm3.s-1', 'm6.s-1'][len(sides[0]) - 1]}
        r = Reaction(4, [sps[n] for n in sides[0]], [sps[n] for n in sides[1]], attributes={'arrh_a': 1.}, units=unit)
        text = r.get_latex()
        mine = Reaction(4, [sps[n] for n in sides[0]], [sps[n] for n in sides[1]], attributes={'latex': 'mine', 'arrh_a': 1.}, units=unit).get_latex()
    ctx.check(mine == 'mine', 'a LaTeX of its own is used as it is')
    got = text.split(' \\rightarrow ')
    ctx.check(len(got) == 2, lab)
    if len(got) != 2:
        return
    for side, t in zip(sides, got):
        shown, want = {}, {}
        for part in t.split(' + '):
            m = re.match(r'^(\d+) (.*)$', part)
            k, l = (int(m.group(1)), m.group(2)) if m else (1, part)
            shown[l] = shown.get(l, 0) + k
        for n in side:
            l = sps[n].get_latex()
            want[l] = want.get(l, 0) + 1
        ctx.check(shown == want, 'every species with its number')


def table(ctx, kind):
    """captions, notes and labels of a table, and its cells with their decorations"""
    import pandas as pd
    from plaschem.latex import TexTable
    n, m = ctx.choice('rows', [1, 2, 3]), ctx.choice('columns', [1, 2])
    df = pd.DataFrame({'col{}'.format(j): ['cell{}.{}'.format(i, j) for i in range(n)] for j in range(m)}, index=[5 + 2 * i for i in range(n)])
    notes = [k for k in 'ab' if ctx.flag('note ' + k)]
    marked = ctx.choice('marked', [None] + [(i, j) for i in range(n) for j in range(m)])
    with ctx.guard('table'):
        t = TexTable(kind)
        t.load_dataframe(df)
        t.add_caption('The caption')
        t.add_label('tab:x')
        for k in notes:
            t.add_note(k, 'note of ' + k)
        if marked is not None:
            t.add_decorator(5 + 2 * marked[0], 'col{}'.format(marked[1]), TexTable.get_note_decorator(['a', 'b']))
        text = str(t)
        again = str(t)
    lines = [l.strip() for l in text.split('\n')]
    ctx.check(text == again, 'the same text every time')
    ctx.check(text.count('\\begin{') == text.count('\\end{') and sum(l.count('{') - l.count('}') for l in lines) == 0, 'a balanced environment')
    ctx.check('\\begin{{{}}}'.format(kind) in text and '\\label{tab:x}' in text and '{' + 'l' * m + '}' in text, 'the environment, label and columns')
    cap = [i for i, l in enumerate(lines) if l.startswith('The caption')]
    ctx.check(len(cap) == 1, 'the caption and the notes')
    if cap:
        ctx.check([l for l in lines if 'note of' in l] == ['$^\\mathrm{{{0}}}$ note of {0} \\\\'.format(k) for k in notes], 'the caption and the notes')
    rows = [l for l in lines if l.startswith('cell')]
    want = [[x + (' $^\\mathrm{a,b}$' if marked == (i, j) else '') for j, x in enumerate(df.iloc[i])] for i in range(n)]
    ctx.check(rows == [' & '.join(r) + ' \\\\' for r in want], 'every cell once, in order')
    heads = [l for l in lines if '\\textbf{col0}' in l]
    ctx.check(len(heads) == (1 if kind == 'table' else 2) and all('\\textbf{{col{}}}'.format(j) in h for h in heads for j in range(m)), 'the columns are named')


def tasks(tier):
    big = tier != 'quick'
    out = []
    L = ['the factor to three digits', 'one digit before the point']
    for name, s, kw in [('electron', EL, {}), ('heavy', HV, {'frac': 'dfrac'}), ('electron cm3', EL, {'unit': 'cm3.s-1'}), ('heavy cm3 as given', HV, {'unit': 'cm3.s-1', 'si': False})]:
        for lo, hi in [(-16, -12), (-2, 3)] + ([(-30, -16), (-12, -2), (3, 10)] if big else []):
            out.append(Task('factor {} 1e{}'.format(name, lo), 'rate', dict(kw, string=s, what='a', lo=lo, hi=hi), L))
    for name, s, kw in [('electron', EL, {}), ('heavy', HV, {}), ('electron dfrac', EL, {'frac': 'dfrac'}), ('heavy dfrac', HV, {'frac': 'dfrac'})]:
        out.append(Task('exponent ' + name, 'rate', dict(kw, string=s, what='b', lo=-100., hi=100.), ['the exponent to two decimals']))
        out.append(Task('energy ' + name, 'rate', dict(kw, string=s, what='c', lo=-1e3, hi=1e6), ['the activation energy to two decimals']))
    out.append(Task('table of energies', 'listed', {'most': 0, 'what': 'loss'}, ['the energy loss to two decimals']))
    out.append(Task('table of reactions', 'listed', {'most': 4 if big else 2, 'what': 'rows', 'disable': True}, ['one row per reaction']))
    out.append(Task('table columns', 'listed', {'most': 0, 'what': 'columns'}, ['one row per reaction', 'the source of the row']))
    out.append(Task('formula one', 'formula', {'n': 1, 'pool': SOME if big else SOME[4:10], 'counts': [1, 2, 9, 10, 19, 20, 42]}, ['the formula shows the name']))
    out.append(Task('formula two', 'formula', {'n': 2, 'pool': SOME if big else SOME[:1] + SOME[6:9], 'counts': [1, 4, 30] + [12] * big, 'suffixes': len(SUFFIX) if big else 5}, ['the formula shows the name']))
    out.append(Task('brackets', 'brackets', {}, ['one pair of brackets, at the end']))
    out.append(Task('stoichiometry', 'stoich', {'most': 3 if big else 2, 'latex': None}, ['every species with its number']))
    out.append(Task('stoichiometry own', 'stoich', {'most': 2, 'latex': ['X', 'Y^+'] if not big else ['X', 'Y^+', None]}, ['every species with its number']))
    for kind in ('table', 'longtable'):
        out.append(Task(kind, 'table', {'kind': kind}, ['every cell once, in order']))
    return out
