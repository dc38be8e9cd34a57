"""C10: the order of species and reactions, and their aligned listing"""
from checks.chemlib import oxygen, split, OXY, OXY_R
from symx.runner import Task

BOUNDS = ('two species of up to 3 elements (of 5), atom counts 1..9, charges -6..6, with or without excitation; all pairs of '
          'neighbours among 98 elements; every starting order of up to 5 species, every selection of up to 3 of 8 reactions '
          'and every sequence of up to 3 sorting/listing calls')
ASSUMPTIONS = []

ELEMENTS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo '
            'Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg '
            'Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf').split()


def before(a, b):
    """a, b: lists of keys, most significant first.  Solver term for a < b"""
    out, same = False, True
    for x, y in zip(a, b):
        out = out | (same & (x < y))
        same = same & (x == y)
    return out


def pair(ctx, na, nb, pools):
    from plaschem.species import RP
    from plaschem.classification import ReactionClassifier

    class Any(RP):
        def get_atoms(self):
            return dict(self.atoms)

        def get_charge(self):
            return self.q

        def get_state(self):
            return '*' if self.exc else None
    sps, keys = [], []
    for t, n in (('a', na), ('b', nb)):
        els = []
        for k in range(n):
            el = ctx.choice('{}{}'.format(t, k), pools[k]) if k < 2 else 'N'
            els.append(el)
        ctx.assume(len(set(els)) == len(els))
        cnt = [ctx.int('n{}{}'.format(t, k), 1, 9) for k in range(n)]
        q = ctx.int('q' + t, -6, 6)
        exc = ctx.flag('excited ' + t)
        s = Any(5, name='X', mass=1.)
        s.atoms = list(zip(els, cnt))
        s.q, s.exc = q, exc
        sps.append(s)
        key = [n]
        for el, c in s.atoms:
            key += [ELEMENTS.index(el), c]
        key += [int(exc)]
        keys.append((key, q))

    def less(i, j):
        (ka, qa), (kb, qb) = keys[i], keys[j]
        head = before(ka, kb)
        same = True
        for x, y in zip(ka, kb):
            same = same & (x == y)
        same = same & (len(ka) == len(kb))
        # neutral, then positive ions, then negative ones; lower charges first
        charge = ((qa >= 0) & (qb >= 0) & (qa < qb)) | ((qa >= 0) & (qb < 0)) | ((qa < 0) & (qb < 0) & (qa > qb))
        return head | (same & charge)
    swap = ctx.flag('swap')
    with ctx.guard('sort'):
        rc = ReactionClassifier(sps[::-1] if swap else sps, [])
        rc.sort_species()
    first = 0 if rc.species[0] is sps[0] else 1
    ctx.check(set(map(id, rc.species)) == set(map(id, sps)), 'sorting keeps all the species')
    ok = less(first, 1 - first)
    tie = True
    if first != (1 if swap else 0):
        ctx.check(ok, 'species are in the documented order')
    else:
        rev = less(1 - first, first)
        ctx.check((not rev) if not hasattr(rev, 'e') else ~rev, 'species are in the documented order (ties stay)')


def table(ctx):
    from plaschem.species import RP
    from plaschem.classification import ReactionClassifier
    k = int(ctx.int('element', 0, len(ELEMENTS) - 2))
    a, b = ELEMENTS[k], ELEMENTS[k + 1]
    form = ctx.choice('form', ['{}', '{}2', '{}+', '{}H'])
    m = RP(900, name='M')
    e = RP(0, name='e', mass=1., charge=-1)
    x, y = [RP(i, name=form.format(n), mass=1., charge=int('+' in form)) for i, n in ((1, a), (2, b))]
    if 'H' in form and k == 0:
        ctx.assume(False)
    with ctx.guard('sort'):
        rc = ReactionClassifier([m, y, x, e], [])
        rc.sort_species()
    ctx.check([s.get_name() for s in rc.species] == ['e', x.get_name(), y.get_name(), 'M'],
              'lighter elements first, electron at the front, third body at the end', str(rc.species))


CALLS = ['species', 'reactions', 'classify', 'strings']


def reactions(ctx, nr, menu, calls):
    from plaschem.classification import ReactionClassifier
    net = oxygen(keep=menu)
    strings = [s for k, s in enumerate(OXY_R) if k + 1 in menu]
    rs = list(net.reactions)
    pick = []
    for k in range(nr):
        pick.append(int(ctx.int('reaction{}'.format(k), 0, len(rs) - 1)))
    ctx.assume(len(set(pick)) == len(pick))
    rs = [rs[i] for i in pick]
    sps = list(net.species)
    turn = int(ctx.int('turn', 0, len(sps) - 1))
    sps = sps[turn:] + sps[:turn]
    if ctx.flag('reverse'):
        sps.reverse()
    with ctx.guard('construct'):
        rc = ReactionClassifier(sps, rs)
    cur_s, cur_r = list(sps), list(rs)
    canonical = ['e', 'O', 'O-', 'O2', 'O2+', 'Ar', 'Ar+', 'Ar*', 'M']
    for k in range(calls):
        c = ctx.choice('call{}'.format(k), CALLS)
        with ctx.guard(c):
            if c == 'species':
                rc.sort_species()
                cur_s.sort(key=lambda s: canonical.index(s.get_name()))
            elif c == 'reactions':
                rc.sort_reactions()

                def key(r):
                    return (sorted(cur_s.index(x) for x in r.get_reactants()), sorted(cur_s.index(x) for x in r.get_products()))
                cur_r.sort(key=key)
            elif c == 'classify':
                rc.get_classified_reactions()
            else:
                rc.get_classified_reactions()
        if c == 'strings':
            strings_of(ctx, rc, cur_s)
        ctx.check([s.id for s in rc.species] == [s.id for s in cur_s], 'species order', str(rc.species))
        ctx.check([r.id for r in rc.reactions] == [r.id for r in cur_r], 'reactions follow the order of their species')
    with ctx.guard('strings'):
        rc.get_classified_reactions()
    strings_of(ctx, rc, cur_s)


def strings_of(ctx, rc, cur_s):
    with ctx.guard('strings'):
        tab = rc.get_classified_reactions()
        got = [[(r, rc.get_aligned_reaction_string(r)) for r in tab[t][c]] for t in tab for c in tab[t]]
    for cat in got:
        marks = set()
        for r, s in cat:
            left, right = [[x.strip() for x in part.split(' + ')] for part in s.split(' > ')]
            left, right = [[x for x in part if x] for part in (left, right)]
            order = lambda side: [x.get_name() for x in sorted(side, key=cur_s.index)]
            ctx.check(left == order(r.get_reactants()) and right == order(r.get_products()),
                      'the listing names the species of the reaction, in order', s)
            marks.add((s.index(' > '), len(s), tuple(i for i, ch in enumerate(s) if s[i:i + 3] == ' + ')))
        ctx.check(len(marks) == 1, 'the reactions of a category are aligned', str([s for _, s in cat]))


def tasks(tier):
    out = [Task('table', 'table', {}, ['lighter elements first, electron at the front, third body at the end'], time_limit=600)]
    pools = [['H', 'C', 'O', 'Ar', 'Cf']] * 2 if tier != 'quick' else [['H', 'O'], ['C', 'Ar']]
    ns = [(0, 1), (1, 1), (1, 2), (2, 2)] if tier == 'quick' else [(a, b) for a in range(4) for b in range(a, 4)]
    for a, b in ns:
        out.append(Task('pair {}{}'.format(a, b), 'pair', {'na': a, 'nb': b, 'pools': [['O'], ['C', 'Ar']] if tier == 'quick' and b == 2 else pools}, ['species are in the documented order'],
                        time_limit=150 if tier == 'quick' else 1500, max_paths=100000))
    menu = [1, 2, 4, 7, 8, 9, 10, 5]
    lab = ['the reactions of a category are aligned', 'reactions follow the order of their species']
    if tier == 'quick':
        for m in ([1, 2, 4], [7, 8, 9], [10, 5, 1]):
            out.append(Task('reactions {}'.format(m), 'reactions', dict(nr=2, menu=m, calls=2), lab, time_limit=200))
    else:
        out.append(Task('reactions 2', 'reactions', dict(nr=2, menu=menu, calls=3), lab, time_limit=1800, max_paths=10**6))
        out.append(Task('reactions 3', 'reactions', dict(nr=3, menu=menu, calls=2), lab, time_limit=1800, max_paths=10**6))
    return out
