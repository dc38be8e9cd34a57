"""C09: every reaction belongs to exactly one category, the one its species ask for"""
from symx.runner import Task

BOUNDS = ('every balanced reaction of up to 3 reactants and up to 4 products over a pool of 13 species (electron, third body, '
          'two elements, atoms and a molecule, charges -2..2, excited states), with every explicit or implied elasticity and '
          'an arbitrary energy loss; both orders of the species of each side')
ASSUMPTIONS = ['the categories are decided by the species in the way the published scheme names them (electron gain or '
               'loss, number of heavy partners and products, charge, excitation)']

# name: (atoms, charge, stateless, M)
POOL = {
    'e': (0, 0, -1, None), 'M': (0, 0, 0, None),
    'Ar': (1, 0, 0, None), 'Ar*': (1, 0, 0, 'Ar'), 'Ar+': (1, 0, 1, None), 'Ar++': (1, 0, 2, None),
    'O': (0, 1, 0, None), 'O*': (0, 1, 0, 'O'), 'O-': (0, 1, -1, None), 'O--': (0, 1, -2, None),
    'O2': (0, 2, 0, None), 'O2+': (0, 2, 1, None), 'O2(v)': (0, 2, 0, 'O2'),
}
SCHEME = None


def species():
    from plaschem.species import RP
    out = {}
    for k, (n, (_, _, q, base)) in enumerate(POOL.items()):
        att = {'name': n, 'mass': 1. + k, 'charge': q}
        if n == 'M':
            att = {'name': n}
        if base:
            att.update(stateless=base, state=n[len(base):])
        out[n] = RP(k, attributes=att)
    return out


def charge(n):
    return POOL[n][2]


def excited(n):
    return POOL[n][3] is not None


def ground(n):
    """neutral ground state"""
    return (POOL[n][3] or n).rstrip('+-')


def expected(left, right, elastic, loss):
    """(type, category) by the meaning of the categories"""
    de = right.count('e') - left.count('e')
    hl, hr = [n for n in left if n != 'e'], [n for n in right if n != 'e']
    nl, nr = len(hl), len(hr)
    ql, qr = sum(map(charge, hl)), sum(map(charge, hr))
    if 'e' in left:
        t, none = 'ELECTRON IMPACT COLLISIONS', 'unclassified electron impact collisions'
        if not hl or len(left) == 1:
            return t, none
        if len(left) == 3:
            if {ground(n) for n in hl} <= {ground(n) for n in hr} and de < 0:
                if ql > 0:
                    return t, 'three body recombination'
                if qr < 0:
                    return t, 'three body attachment'
            return t, none
        x = hl[0]
        if de > 0:
            if nr == 1:
                return t, 'ionization' if charge(x) == 0 else 'detachment' if charge(x) < 0 else none
            return t, 'dissociative ionization' if charge(x) == 0 and nr > 1 else none
        if de < 0:
            if nr == 1:
                return t, 'attachment' if charge(x) == 0 else 'recombination' if charge(x) > 0 else none
            return t, ('dissociative attachment' if charge(x) == 0 else 'dissociative recombination' if charge(x) > 0
                       else none) if nr > 1 else none
        if elastic:
            return t, 'elastic and momentum transfer'
        if nr == 1:
            y = hr[0]
            if not excited(x) and excited(y):
                return t, 'excitation'
            if excited(x) and not excited(y):
                return t, 'deexcitation'
            if excited(x):
                return t, ('loss', 'excitation', 'deexcitation')
            return t, 'other electron energy loss channels' if x == y else none
        if nr > 1:
            return t, 'dissociative excitation' if any(map(excited, hr)) else 'dissociation'
        return t, none
    if len(left) == 3:
        return 'THREE BODY COLLISIONS', 'None'
    if len(left) == 1:
        return ('RADIATIVE DECAY' if len(right) == 1 else 'UNCLASSIFIED COLLISIONS'), 'None'
    qs = [charge(n) for n in left]
    if qs == [0, 0]:
        t, none = 'NEUTRAL - NEUTRAL COLLISIONS', 'unclassified neutral - neutral collisions'
        sl, sr = sum(map(excited, left)), sum(map(excited, right))
        if elastic:
            return t, 'elastic scattering'
        if len(right) < 2:
            return t, 'association'
        if de > 0:
            if nr == 2:
                return t, ('penning ionization' if sl else 'ionization') if not sr else none
            return t, 'dissociative ionization' if nr > 2 else 'associative ionization'
        if len(right) > 2:
            if set(left) & set(right) and all(charge(n) == 0 for n in right):
                return t, ('dissociation' if sl == sr else 'dissociative excitation' if sl < sr else
                           'dissociative quenching')
            return t, none
        if sl != sr:
            return t, 'excitation' if sl < sr else 'collisional quenching'
        if sl:
            same = {POOL[n][3] or n for n in left} == {POOL[n][3] or n for n in right}
            return t, 'excitation transfer' if same else none
        return t, 'interchange'
    if 0 in qs:
        pos = max(qs) > 0
        t = 'POSITIVE ION - NEUTRAL COLLISIONS' if pos else 'NEGATIVE ION - NEUTRAL COLLISIONS'
        none = 'unclassified {} ion - neutral collisions'.format('positive' if pos else 'negative')
        if not pos and de > 0:
            return t, 'detachment' if nr == 2 else 'associative detachment' if nr < 2 else none
        s = '+' if pos else '-'
        ion, neu = [n for n in left if charge(n) != 0][0], [n for n in left if charge(n) == 0][0]
        if len(right) == 2:
            ions = [n for n in right if (charge(n) > 0 if pos else charge(n) < 0)]
            neus = [n for n in right if charge(n) == 0]
            if len(ions) == 1 and len(neus) == 1 and ion.rstrip(s) == neus[0] and neu == ions[0].rstrip(s):
                return t, 'resonant charge transfer' if (neu == neus[0] and ion == ions[0]) else 'charge transfer'
            return t, none
        if pos and len(right) > 2 and neu + '+' in right:
            return t, 'dissociative charge transfer'
        return t, none
    if (qs[0] > 0) != (qs[1] > 0) and all(charge(n) == 0 for n in right):
        t = 'ION - ION COLLISIONS'
        if len(right) < 2:
            return t, 'unclassified ion - ion collisions'
        return t, 'neutralization' if len(right) == 2 else 'dissociative neutralization'
    return 'UNCLASSIFIED COLLISIONS', 'None'


def draw(ctx, nl, nr, names, electron=None):
    """a balanced pair of multisets; the solver proposes the multiplicities"""
    cl = {n: ctx.int('l' + n, 0, nl) for n in names}
    cr = {n: ctx.int('r' + n, 0, nr) for n in names}
    ctx.assume(sum(cl.values()) == nl)
    ctx.assume(sum(cr.values()) == nr)
    for k in range(3):
        ctx.assume(sum(POOL[n][k] * cl[n] for n in names) == sum(POOL[n][k] * cr[n] for n in names))
    ctx.assume(cl['M'] == cr['M'])
    ctx.assume(cl['M'] <= 1)
    if electron is not None:
        ctx.assume((cl['e'] >= 1) if electron else (cl['e'] == 0))
    left = [n for n in names for _ in range(int(cl[n]))]
    right = [n for n in names for _ in range(int(cr[n]))]
    return left, right


def classify(ctx, nl, nr, names, electron=None):
    from plaschem.classification import ReactionClassifier
    from plaschem.reactions import Reaction
    left, right = draw(ctx, nl, nr, names, electron)
    rp = species()
    att = {'special_number': -1}
    loss = ctx.real('loss', -1, 20)
    if ctx.flag('with loss'):
        att['el_en_loss'] = loss
    else:
        loss = 0
    el = None
    if set(left) == set(right) or (nr <= 2 and nl <= 2):
        el = ctx.choice('elastic', [None, True, False])
    if el is not None:
        att['elastic'] = el
    elastic = set(left) == set(right) if el is None else el
    with ctx.guard('reaction'):
        r = Reaction(5, [rp[n] for n in left], [rp[n] for n in right], attributes=att)
        q = Reaction(8, [rp[n] for n in reversed(left)], [rp[n] for n in reversed(right)], attributes=att)
    sp = [rp[n] for n in names]
    other = Reaction(5, [rp['Ar'], rp['Ar']], [rp['Ar'], rp['Ar*']], special_number=-1)
    with ctx.guard('classification'):
        rc = ReactionClassifier(sp, [other])
        rc.get_classified_reactions()
        rc.set_new_chemistry(sp, [r, q])  # what was there before does not matter
        table = rc.get_classified_reactions()
    place = {}
    n = 0
    for t in table:
        for c in table[t]:
            ctx.check(len(table[t][c]) > 0, 'no empty category is listed')
            for x in table[t][c]:
                place[x.id] = (t, c)
                n += 1
    ctx.check(n == 2 and set(place) == {5, 8}, 'every reaction is in exactly one category')
    ctx.check(place[5] == place[8], 'the order of the species on a side does not matter', '{} {}'.format(left, right))
    t, c = expected(left, right, elastic, loss)
    if isinstance(c, tuple):
        c = c[1] if bool(loss > 0) else c[2]
    ctx.check(place[5] == (t, c), 'the category which the species ask for',
              '{} -> {} elastic {}: {} instead of {}'.format(left, right, elastic, place[5], (t, c)))
    scheme = [(a, b) for a, bs in ReactionClassifier.classification_scheme for b in bs]
    ctx.check(place[5] in scheme, 'only categories of the published scheme')


def listing(ctx, size):
    """several reactions: the categories come in the order of the scheme, the reactions in their own"""
    from plaschem.classification import ReactionClassifier
    from plaschem.reactions import Reaction
    rp = species()
    menu = ['e + Ar -> e + Ar', 'e + O2 -> O + O-', 'Ar* + Ar -> Ar + Ar', 'O + O2(v) -> O + O2', 'O- + O2+ -> O + O2',
            'O- + Ar+ -> O + Ar', 'Ar+ + O -> Ar + O2+', 'O + O + M -> O2 + M', 'Ar* -> Ar', 'e + Ar* -> e + Ar']
    menu.remove('Ar+ + O -> Ar + O2+')
    pick = []
    for k in range(size):
        pick.append(int(ctx.int('pick{}'.format(k), 0, len(menu) - 1)))
    ctx.assume(len(set(pick)) == len(pick))
    rs = []
    for k, i in enumerate(pick):
        a, b = menu[i].split(' -> ')
        rs.append(Reaction(30 - k, [rp[n] for n in a.split(' + ')], [rp[n] for n in b.split(' + ')], special_number=-1))
    with ctx.guard('classification'):
        rc = ReactionClassifier(list(rp.values()), rs)
        table = rc.get_classified_reactions()
        again = rc.get_classified_reactions()
    scheme = [(a, b) for a, bs in ReactionClassifier.classification_scheme for b in bs]
    got = [(t, c) for t in table for c in table[t]]
    ctx.check(got == [x for x in scheme if x in got], 'categories in the order of the scheme')
    want = {}
    for r in rs:
        e = expected([x.get_name() for x in r.get_reactants()], [x.get_name() for x in r.get_products()],
                     r.is_elastic_process(), 0)
        if isinstance(e[1], tuple):
            e = (e[0], e[1][2])
        want.setdefault(e, []).append(r.id)
    ctx.check({(t, c): [r.id for r in table[t][c]] for t in table for c in table[t]} == want,
              'the reactions of a category in their own order')
    ctx.check({t: {c: [r.id for r in again[t][c]] for c in again[t]} for t in again} ==
              {t: {c: [r.id for r in table[t][c]] for c in table[t]} for t in table}, 'asking twice gives the same')


def tasks(tier):
    lab = ['every reaction is in exactly one category', 'the category which the species ask for']
    everything = list(POOL)
    small = ['e', 'M', 'Ar', 'Ar*', 'Ar+', 'O', 'O-', 'O2', 'O2+', 'O2(v)']
    tiny = ['e', 'M', 'Ar', 'Ar*', 'Ar+', 'O', 'O-', 'O2']
    out = [Task('listing', 'listing', {'size': 2 if tier == 'quick' else 3}, ['categories in the order of the scheme'])]
    T = 150 if tier == 'quick' else 1800
    for nl, nr, names in ([(1, 1, everything), (1, 2, everything), (2, 1, everything), (2, 2, small), (2, 3, everything), (3, 2, tiny), (2, 4, small),
                           (3, 1, everything)]
                          if tier == 'quick' else
                          [(a, b, everything) for a in (1, 2) for b in (1, 2, 3, 4)] +
                          [(3, b, everything) for b in (1, 2, 3, 4)]):
        if (nl, nr) in ((2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (2, 4)):
            for first in ('e', None):
                out.append(Task('{} -> {} {}'.format(nl, nr, 'electron' if first else 'heavy'), 'classify', dict(
                    nl=nl, nr=nr, names=names, electron=bool(first)), lab[:1] if nr < 4 else [], time_limit=T, max_paths=100000))
        else:
            out.append(Task('{} -> {}'.format(nl, nr), 'classify', dict(nl=nl, nr=nr, names=names), lab[:1], time_limit=T,
                            max_paths=100000))
    return out
