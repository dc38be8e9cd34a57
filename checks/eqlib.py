"""networks and states for the equation checks; oracles are written from the documentation, term by term"""
from scipy import constants as C

from symx.core import sym_exp, sym_pow, sym_log, ite, is_sym
from checks.chemlib import split

# name: (charge, composition)
SPECIES = {
    'A': (0, {'A': 1}), 'Am': (0, {'A': 1}), 'A+': (1, {'A': 1}), 'A2+': (1, {'A': 2}), 'A++': (2, {'A': 1}),
    'B2': (0, {'B': 2}), 'B': (0, {'B': 1}), 'B-': (-1, {'B': 1}), 'AB': (0, {'A': 1, 'B': 1}),
    'B+': (1, {'B': 1}), 'B++': (2, {'B': 1}), 'B--': (-2, {'B': 1}), 'A+++': (3, {'A': 1}),
}
NETS = {
    'argon': ['e + A -> e + A', 'e + A -> e + Am', 'e + A -> e + e + A+', 'Am + Am -> A + A+ + e', 'Am + M -> A + M'],
    'negative': ['e + B2 -> e + B2', 'e + B2 -> B + B-', 'e + A -> e + e + A+', 'A+ + B- -> A + B', 'B + B + M -> B2 + M'],
    'double': ['e + A+ -> e + e + A++', 'e + A -> e + e + A+', 'A++ + A -> A+ + A+', 'e + A+ + M -> A + M'],
    'dimer': ['A+ + A + A -> A2+ + A', 'e + A2+ -> A + Am', 'e + Am -> e + e + A+', 'Am + B2 -> AB + B', 'e + A -> e + A'],
    'neutral': ['B + B + M -> B2 + M', 'A + B -> AB', 'B2 + M -> B + B + M'],
    'threebody': ['e + e + A+ -> e + A', 'e + A -> e + e + A+', 'e + A -> e + Am', 'e + A+ -> A'],
    'alike': ['B + B + B -> B2 + B', 'e + e + e + A+ -> e + e + A', 'e + A -> e + e + A+', 'B + B + B + M -> B2 + B + M', 'A + A + A -> A + A + A'],
    'multiple': ['e + A++ -> e + e + A+++', 'A++ + B -> A + B++', 'e + B -> B-', 'B- + e -> B--'],
    'twice M': ['e + A -> e + e + A+', 'B + M + M -> B + M + M', 'B2 + M + M -> B + B + M + M', 'B + B + M -> B2 + M'],
    'tiny': ['e + A -> e + e + A+', 'e + A+ -> A', 'e + A -> e + A'],
}


def series(values, ids):
    """a column of a table as the chemistry hands it out"""
    import pandas as pd
    return pd.Series(list(values), index=list(ids), dtype=object if any(is_sym(v) for v in values) else None)


def frame(rows, index, columns):
    import pandas as pd
    sym = any(is_sym(v) for r in rows for v in r)
    return pd.DataFrame([list(r) for r in rows], index=list(index), columns=list(columns), dtype=object if sym else None)


class Stub(object):
    """a chemistry as the documentation of the equations asks for, with symbolic parameters"""

    def __init__(self, ctx, strings, elastic=(), extra=(), order=None, opts=()):
        self.strings = list(strings)
        self.sides = [[split(x) for x in s.split(' -> ')] for s in strings]
        used = [s for s in SPECIES if any(s in side for r in self.sides for side in r) or s in extra]
        self.names = [used[i] for i in order] if order else used
        self.charge = [SPECIES[s][0] for s in self.names]
        self.comp = [SPECIES[s][1] for s in self.names]
        n, r = len(self.names), len(self.strings)
        self.sp_ids, self.r_ids = [3 + 2 * i for i in range(n)], [10 * (i + 1) for i in range(r)]

        def reals(what, k, lo, hi, **kw):
            if what in opts or not opts:
                return [ctx.real('{}{}'.format(what, i), lo, hi, **kw) for i in range(k)]
            return [lo + (hi - lo) * (0.17 + 0.61 * i / k) for i in range(k)]
        self.mass = reals('mass', n, 1, 200)
        self.sigma = reals('sigma', n, 1, 10)
        self.stick = reals('stick', n, 0, 1)
        self.a = reals('arrh_a', r, 0, 10)
        self.b = reals('arrh_b', r, -3, 3)
        self.c = reals('arrh_c', r, -5, 100)
        self.loss = reals('loss', r, -10, 30)
        self.elastic = list(elastic) if elastic else [False] * r
        if 'ret' in opts or not opts:
            self.ret = [[ctx.real('ret{}_{}'.format(i, j), 0, 2) for j in range(n)] for i in range(n)]
        else:
            self.ret = [[(0.25 * (i + 1) if (i + j) % 2 else 0.) for j in range(n)] for i in range(n)]

    def count(self, name, method):
        lhs = [s[0].count(name) for s in self.sides]
        rhs = [s[1].count(name) for s in self.sides]
        return {'lhs': lhs, 'rhs': rhs, 'net': [b - a for a, b in zip(lhs, rhs)]}[method]

    def get_species_name(self):
        return series(self.names, self.sp_ids)

    def get_species_charge(self):
        return series(self.charge, self.sp_ids)

    def get_species_mass(self):
        return series(self.mass, self.sp_ids)

    def get_species_lj_sigma(self):
        return series(self.sigma, self.sp_ids)

    def get_species_stick_coef(self):
        return series(self.stick, self.sp_ids)

    def get_reactions_arrh_a(self):
        return series(self.a, self.r_ids)

    def get_reactions_arrh_b(self):
        return series(self.b, self.r_ids)

    def get_reactions_arrh_c(self):
        return series(self.c, self.r_ids)

    def get_reactions_el_en_loss(self):
        return series(self.loss, self.r_ids)

    def get_reactions_elastic(self):
        return series(self.elastic, self.r_ids)

    def get_reactions_stoich_coefs_electron(self, method='net'):
        return series(self.count('e', method), self.r_ids)

    def get_reactions_stoich_coefs_arbitrary(self, method='net'):
        return series(self.count('M', method), self.r_ids)

    def get_reactions_id(self):
        return series(self.r_ids, self.r_ids)

    def get_return_matrix(self):
        return frame(self.ret, self.sp_ids, self.sp_ids)

    def get_stoichiomatrix(self, method='net'):
        cols = [self.count(s, method) for s in self.names]
        return frame([[c[j] for c in cols] for j in range(len(self.strings))], self.r_ids, self.sp_ids)

    def num_species(self):
        return len(self.names)

    def num_reactions(self):
        return len(self.strings)


def params(ctx, chem, symbolic=(), feeds=None, **kw):
    # densities are below 1e3 (no term is hidden by one of another order), so is the power
    d = dict(radius=0.1, length=0.25, pressure=50., power=(1e-17, 1e-17), t_power=(-1., 10.), temp_gas=450.,
             feeds={} if feeds is None else feeds, t_end=1.)
    for k, lo, hi in (('radius', 0.01, 1), ('length', 0.01, 1), ('pressure', 0.01, 1e5), ('temp_gas', 200, 3000)):
        if k in symbolic:
            d[k] = ctx.real(k, lo, hi)
    d.update(kw)
    return d


class State(object):
    """a solution vector and the quantities which follow from it"""

    def __init__(self, ctx, chem, par, tag='', n_lo=2, fixed_n=False):
        self.n = [ctx.real('n{}_{}'.format(tag, s), n_lo, 1000) for s in chem.names]
        self.rho = ctx.real('rho' + tag, 2, 1e5)
        self.n_tot = total(self.n)
        self.n_e = total([q * x for q, x in zip(chem.charge, self.n)])
        if any(chem.charge):
            ctx.assume(self.n_e >= 1)
        tg = par['temp_gas']
        self.p = C.k * tg * self.n_tot
        if any(chem.charge):
            te = self.rho / self.n_e * 2 / 3
            tg_ev = tg * C.k / C.e
            self.temp_e = ite(te > tg_ev, te, tg_ev)

    def y(self):
        import numpy as np
        return np.array(self.n + [self.rho], dtype=object if any(not isinstance(v, float) for v in self.n + [self.rho]) else float)


def total(xs):
    r = 0.
    for x in xs:
        r = r + x
    return r


def product(xs):
    r = 1.
    for x in xs:
        r = r * x
    return r


def rate_coefs(chem, temp_e, temp_g):
    out = []
    for j in range(len(chem.strings)):
        if 'e' in chem.sides[j][0]:
            out.append(chem.a[j] * sym_pow(temp_e, chem.b[j]) * sym_exp(-chem.c[j] / temp_e))
        else:
            out.append(chem.a[j] * sym_pow(temp_g / 300, chem.b[j]) * sym_exp(-chem.c[j] / temp_g))
    return out


def rates(chem, k, n, n_e, n_tot):
    dens = dict(zip(chem.names, n))
    dens.update(e=n_e, M=n_tot)
    return [k[j] * product(dens[s] for s in chem.sides[j][0]) for j in range(len(chem.strings))]
