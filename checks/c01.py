"""C01: a reaction exists iff it conserves charge and every element"""
from checks.util import errors
from symx.runner import Task

BOUNDS = ('1-3 reactants, 1-3 products (quick: up to 5 species in total); every species independently an electron, '
          'an arbitrary heavy "M" or a heavy species; charges of heavy species are arbitrary integers in [-3, 3]; '
          'element A occurs 1..9 times, element B absent or 1..9 times in each heavy species; ids distinct or all equal; real species of the same name and any formula and charge, asked in either order; bookkeeping asked three times in any order')
ASSUMPTIONS = ['species are stand-ins which implement the documented species interface (id, name, charge, atoms, special)']


class Sp(object):
    def __init__(self, i, name, charge, atoms):
        self.id, self._n, self._c, self._a = i, name, charge, atoms

    def get_name(self):
        return self._n

    def get_charge(self):
        return None if self._n == 'M' else self._c

    def get_atoms(self):
        return dict(self._a)

    def is_special(self):
        return self._n in ('e', 'M')

    def get_hpem_name(self):
        return self._n

    def get_latex(self):
        return self._n

    def __str__(self):
        return self._n
    __repr__ = __str__


def side(ctx, tag, n, base):
    out = []
    for i in range(n):
        kind = ctx.choice('{}{}_kind'.format(tag, i), ['heavyA', 'heavyAB', 'e', 'M'])
        nm = '{}{}'.format(tag, i)
        if kind == 'e':
            out.append((Sp(1, 'e', -1, {}), -1, 0, 0, 0))
        elif kind == 'M':
            out.append((Sp(999, 'M', None, {'M': 1}), 0, 0, 0, 1))
        else:
            q = ctx.int(nm + '_q', -3, 3)
            a = ctx.int(nm + '_a', 1, 9)
            atoms = {'Ar': a}
            b = 0
            if kind == 'heavyAB':
                b = ctx.int(nm + '_b', 1, 9)
                atoms['O'] = b
            out.append((Sp(base + i, nm, q, atoms), q, a, b, 0))
    return out


def conservation(ctx, nr, np_):
    from plaschem.reactions import Reaction
    from checks.util import errors
    PlaschemException = errors('plaschem.exceptions')
    lhs, rhs = side(ctx, 'r', nr, 10), side(ctx, 'p', np_, 20)
    unit = {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[nr]

    def tot(s, j):
        t = 0
        for x in s:
            t = x[j] + t
        return t
    with ctx.guard('construct'):
        try:
            r = Reaction(7, [x[0] for x in lhs], [x[0] for x in rhs], arrh_a=1., units={'arrh_a': unit})
            ok = True
        except PlaschemException:
            ok = False
    if ok:
        ctx.check(tot(lhs, 1) == tot(rhs, 1), 'accepted => charge conserved')
        for j, el in ((2, 'first element'), (3, 'second element'), (4, 'arbitrary species')):
            ctx.check(tot(lhs, j) == tot(rhs, j), 'accepted => conserved', el)
        # the bookkeeping used everywhere else agrees with what was accepted
        net = r.get_stoich_coefs('net')
        left, right = r.get_stoich_coefs('lhs'), r.get_stoich_coefs('rhs')
        ids = {x[0].id for x in lhs + rhs}
        ctx.check(set(net) == ids, 'net bookkeeping covers all the species')
        for i in ids:
            nl = sum(1 for x in lhs if x[0].id == i)
            nr_ = sum(1 for x in rhs if x[0].id == i)
            ctx.check(left.get(i, 0) == nl and right.get(i, 0) == nr_ and net[i] == nr_ - nl, 'net = right - left')
    else:
        bad = tot(lhs, 1) != tot(rhs, 1)
        for j in (2, 3, 4):
            c = tot(lhs, j) != tot(rhs, j)
            bad = (bad | c) if not isinstance(bad, bool) or not isinstance(c, bool) else (bad or c)
        ctx.check(bad, 'rejected => unbalanced')


REAL = {'O2(a)': ('O2', {'O': 2}), 'excited': ('N2O', {'N': 2, 'O': 1}), 'level': ('O2', {'O': 2}), 'Ar*': ('Ar', {'Ar': 1})}
OTHER = [('O2', {'O': 2}), ('N2', {'N': 2}), ('N2O', {'N': 2, 'O': 1}), ('Ar', {'Ar': 1}), ('O', {'O': 1})]


def real_species(ctx):
    """the elements counted are those of the species itself, whatever other species exist or were asked before"""
    from plaschem.reactions import Reaction
    from plaschem.species import RP
    errs = errors('plaschem.exceptions')
    name = ctx.choice('name', ['excited', 'level', 'Ar*'])
    others = {}
    made = []
    for k in range(2):
        stateless, atoms = ctx.choice('formula{}'.format(k), OTHER)
        charge = ctx.int('charge{}'.format(k), -1, 1)
        with ctx.guard('species'):
            rp = RP(ctx.choice('id{}'.format(k), [4, 4 + k]), name=name, stateless=stateless, state='*', mass=20., charge=charge)
            plain = RP(20 + k, name=stateless, mass=20.)
        made.append((rp, plain, atoms, charge))
    order = [0, 1] if ctx.flag('first one first') else [1, 0]
    first = ctx.choice('asked', ['atoms', 'reaction'])
    with ctx.guard('elements'):
        for k in order:
            rp, plain, atoms, charge = made[k]
            if first == 'atoms':
                got = rp.get_atoms()
                ctx.check(dict(got) == atoms, 'elements of the species itself', '{} {}'.format(got, atoms))
                for key in list(got):
                    got[key] = 7
                got['He'] = 1
                ctx.check(dict(rp.get_atoms()) == atoms, 'elements of the species itself', 'asked again')
                ctx.check(dict(plain.get_atoms()) == atoms, 'elements of the species itself', 'ground state')
    for k in order:
        rp, _, atoms, charge = made[k]
        for _, plain, patoms, _ in made:
            with ctx.guard('construct'):
                try:
                    Reaction(7, [rp], [plain], arrh_a=1., units={'arrh_a': 's-1'})
                    ok = True
                except errs:
                    ok = False
            if ok:
                ctx.check(charge == 0 if patoms == atoms else False, 'real species: accepted => conserved')
            else:
                ctx.check(charge != 0 if patoms == atoms else True, 'real species: rejected => unbalanced')


COUNTS = [(('e', 'Ar'), ('e', 'e', 'Ar+')), (('Ar*', 'Ar*'), ('Ar+', 'e', 'Ar')), (('Ar', 'Ar', 'M'), ('Ar', 'Ar', 'M'))]


def bookkeeping(ctx):
    """the bookkeeping is the same whenever, and in whatever order, it is asked; what is returned belongs to the caller"""
    from plaschem.reactions import Reaction
    from checks.chemlib import OXY, arrh_unit
    from plaschem.species import RP
    lhs, rhs = ctx.choice('reaction', COUNTS)
    with ctx.guard('construct'):
        rp = {n: RP(k + 3, attributes=dict({'name': n, 'mass': 20.}, **{x: v for x, v in OXY[n].items() if x != 'id'})
                    if n != 'e' else {'name': 'e', 'mass': 5e-4, 'charge': -1})
              for k, n in enumerate(['e', 'Ar', 'Ar*', 'Ar+', 'M'])}
        r = Reaction(7, [rp[s] for s in lhs], [rp[s] for s in rhs], arrh_a=1.,
                     units={'arrh_a': arrh_unit(' + '.join(lhs) + ' -> x')})
    full = {'lhs': {rp[s].id: lhs.count(s) for s in lhs}, 'rhs': {rp[s].id: rhs.count(s) for s in rhs},
            'net': {rp[s].id: rhs.count(s) - lhs.count(s) for s in lhs + rhs}}
    for k in range(3):
        how = ctx.choice('how{}'.format(k), ['lhs', 'rhs', 'net'])
        with ctx.guard('coefficients'):
            got = r.get_stoich_coefs(how)
            ctx.check(dict(got) == full[how], 'bookkeeping of the sides', '{} {}'.format(how, dict(got)))
            for i in list(got):
                got[i] = 50
            got[99] = 1
            for side in (r.get_reactants(), r.get_products()):
                if isinstance(side, list):
                    side.append(rp['M'])
    with ctx.guard('sides'):
        ctx.check([s.id for s in r.get_reactants()] == [rp[s].id for s in lhs], 'bookkeeping of the sides', 'left')
        ctx.check([s.id for s in r.get_products()] == [rp[s].id for s in rhs], 'bookkeeping of the sides', 'right')


def tasks(tier):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)]
    if tier == 'thorough':
        shapes += [(2, 3), (3, 2), (3, 3)]
    else:
        shapes += [(2, 3), (3, 2)]
    lab = ['accepted => charge conserved', 'rejected => unbalanced', 'net = right - left']
    out = [Task('real species', 'real_species', {}, ['elements of the species itself', 'real species: accepted => conserved',
                                                     'real species: rejected => unbalanced'], max_paths=20000),
           Task('bookkeeping', 'bookkeeping', {}, ['bookkeeping of the sides'])]
    return out + [Task('{}->{}'.format(*s), 'conservation', {'nr': s[0], 'np_': s[1]}, lab, max_paths=200000,
                 time_limit=700, validate=30) for s in shapes]
