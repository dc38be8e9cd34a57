"""small chemistries for the harnesses, built from the real classes"""
ATOMS_AMU = {'Ar': 39.948, 'O': 15.999, 'He': 4.0026, 'N': 14.007, 'H': 1.008}


def split(side):
    return [s.strip() for s in side.split(' + ')]


class Net(object):
    """names -> RP, strings -> Reaction"""

    def __init__(self, species, reactions, chem_class=None):
        """species: {name: attributes}; reactions: [(string, attributes, units)]"""
        from plaschem.species import RP
        from plaschem.reactions import Reaction
        self.rp = {}
        for k, (name, att) in enumerate(species.items()):
            att = dict(att)
            sp_id = att.pop('id', k + 1)
            att.setdefault('name', name)
            if name not in ('M',):
                att.setdefault('mass', 10. + 3 * k if name != 'e' else 5.4858e-4)
            if name == 'e':
                att.setdefault('charge', -1)
            self.rp[name] = RP(sp_id, attributes=att)
        self.reactions = []
        self.sides = {}
        for k, (string, att, units) in enumerate(reactions):
            lhs, rhs = string.split(' -> ')
            att = dict(att)
            r_id = att.pop('id', k + 1)
            self.sides[r_id] = (split(lhs), split(rhs))
            self.reactions.append(Reaction(r_id, [self.rp[s] for s in split(lhs)], [self.rp[s] for s in split(rhs)],
                                           attributes=att, units=units))
        self.species = list(self.rp.values())

    def chemistry(self, cls=None, **kw):
        if cls is None:
            from plaschem.chemistry import Chemistry as cls
        return cls(species=self.species, reactions=self.reactions, **kw)


def arrh_unit(string):
    n = len(split(string.split(' -> ')[0]))
    return {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[n]


# name: charge, stateless
OXY = {
    'e': {'id': 1},
    'M': {'id': 2},
    'Ar': {'id': 3},
    'Ar*': {'id': 5, 'stateless': 'Ar', 'state': '*'},
    'Ar+': {'id': 4, 'charge': 1},
    'O2': {'id': 6},
    'O2+': {'id': 7, 'charge': 1},
    'O': {'id': 9},
    'O-': {'id': 8, 'charge': -1},
}
OXY_R = [
    'e + Ar -> e + Ar',          # 1 elastic
    'e + Ar -> e + Ar*',         # 2
    'e + Ar -> e + e + Ar+',     # 3
    'e + Ar* -> e + e + Ar+',    # 4
    'Ar* + Ar* -> Ar + Ar+ + e',  # 5
    'e + O2 -> e + O + O',       # 6
    'e + O2 -> e + e + O2+',     # 7
    'e + O2 -> O + O-',          # 8
    'O- + O2+ -> O + O2',        # 9
    'O + O + M -> O2 + M',       # 10
    'Ar+ + O2 -> Ar + O2+',      # 11
    'O- + Ar+ -> O + Ar',        # 12
    'Ar* + M -> Ar + M',         # 13
]


def oxygen(species=None, reactions=None, strings=None, keep=None):
    """argon/oxygen network; species / reactions: extra attributes by name / by string index (1-based)"""
    sp = {n: dict(a) for n, a in OXY.items()}
    for n, a in (species or {}).items():
        sp[n].update(a)
    rs = []
    for k, s in enumerate(strings or OXY_R):
        if keep is not None and (k + 1) not in keep:
            continue
        att = {'arrh_a': 1e-15 * (k + 1), 'id': 10 + 2 * k if k % 2 else 80 - k}
        units = {'arrh_a': arrh_unit(s)}
        extra = (reactions or {}).get(k + 1, {})
        u = extra.pop('units', {}) if extra else {}
        att.update(extra)
        units.update(u)
        rs.append((s, att, units))
    used = set()
    for s, _, _ in rs:
        for part in s.split(' -> '):
            used |= set(split(part))
    sp = {n: a for n, a in sp.items() if n in used}
    return Net(sp, rs)
