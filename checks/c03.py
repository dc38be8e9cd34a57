"""C03: the tables of a chemistry describe the same enabled network, aligned with each other and conservative"""
from checks.chemlib import oxygen, split, OXY, OXY_R
from checks.util import errors
from symx.runner import Task

BOUNDS = ('one argon/oxygen network of 9 species and 13 reactions (duplicate reactants, spectators, "M", 3-body); every '
          'numeric attribute an arbitrary real; up to two requests to disable any species or reaction; all the filter '
          'flags; ids neither consecutive nor sorted')
ASSUMPTIONS = []


def build(ctx, keep=None):
    sp = {n: {} for n in OXY}
    vals = {}
    for n in OXY:
        if n == 'M':
            continue
        for att, dflt in (('mass', 1), ('h_form', 0), ('lj_epsilon', 1), ('lj_sigma', 1)):
            v = ctx.real('{}:{}'.format(att, n), 0.1, 100)
            vals[att, n] = v
            sp[n][att] = v
    rx = {}
    for k, s in enumerate(OXY_R):
        if keep and k + 1 not in keep:
            continue
        el = 'e' in split(s.split(' -> ')[0])
        d = {}
        for att in ('arrh_a', 'arrh_b', 'arrh_c', 'el_en_loss', 'gas_heat_contrib'):
            v = ctx.real('{}:{}'.format(att, k + 1), 0, 100)
            vals[att, k + 1] = v
            d[att] = v
        d['units'] = {'arrh_c': 'eV' if el else 'K'}
        rx[k + 1] = d
    net = oxygen(species=sp, reactions=rx, keep=keep)
    return net, vals


def counts(names, name):
    return sum(1 for n in names if n == name)


def adhoc(ctx, chem, net, vals, keys):
    """values set on the level of the chemistry, of species and reactions which may get disabled later"""
    with ctx.guard('ad-hoc'):
        for i, r in enumerate(net.reactions):
            if i % 2:
                v = ctx.real('ad-hoc a {}'.format(i), 0, 100)
                chem.set_adhoc_reactions_attributes('arrh_a', r.id, v)
                vals['arrh_a', keys[i]] = v
        for n in ('Ar+', 'O-', 'O2'):
            if n in net.rp:
                v = ctx.real('ad-hoc stick {}'.format(n), 0.1, 1)
                chem.set_adhoc_species_attributes('stick_coef', net.rp[n].id, v)
                vals['stick_coef', n] = v


def tables(ctx, keep, requests):
    errs = errors('plaschem.exceptions')
    net, vals = build(ctx, keep)
    with ctx.guard('construct'):
        chem = net.chemistry()
    keys = [k + 1 for k in range(len(OXY_R)) if not keep or k + 1 in keep]
    adhoc(ctx, chem, net, vals, keys)
    strings = [s for k, s in enumerate(OXY_R) if not keep or k + 1 in keep]
    rid = {r.id: (k, s) for r, k, s in zip(net.reactions, keys, strings)}
    name_of = {rp.id: n for n, rp in net.rp.items()}
    targets = [None] + [('s', rp.id) for n, rp in net.rp.items() if n not in ('e',)] + [('r', r.id) for r in net.reactions]
    last = 0
    for q in range(requests):
        i = ctx.int('request{}'.format(q), last, len(targets) - 1)
        i = int(i)
        last = i
        t = targets[i]
        if t is None:
            continue
        with ctx.guard('disable'):
            try:
                if t[0] == 's':
                    chem.disable(species=(t[1],))
                else:
                    chem.disable(reactions=(t[1],))
            except errs:
                pass
    for disabled in (False, True):
        for special in (False, True):
            with ctx.guard('species tables'):
                sp = chem.get_species(disabled=disabled, special=special)
                ids = list(sp.index)
                tab = {
                    'name': chem.get_species_name(disabled=disabled, special=special),
                    'charge': chem.get_species_charge(disabled=disabled, special=special),
                    'mass': chem.get_species_mass(disabled=disabled, special=special),
                    'h_form': chem.get_species_h_form(disabled=disabled, special=special),
                    'lj_epsilon': chem.get_species_lj_epsilon(disabled=disabled, special=special),
                    'lj_sigma': chem.get_species_lj_sigma(disabled=disabled, special=special),
                    'stick_coef': chem.get_species_stick_coef(disabled=disabled, special=special),
                }
                sid = list(chem.get_species_id(disabled=disabled, special=special))
                num = chem.num_species(disabled=disabled, special=special)
            ctx.check(sid == ids and num == len(ids), 'species listing agrees with itself')
            hidden = set(chem.get_disabled_species().index) if not disabled else set()
            want = [i for i in (rp.id for rp in net.species) if i not in hidden and
                    (special or name_of[i] not in ('e', 'M'))]
            ctx.check(ids == want, 'filter shows exactly the requested species')
            for k, col in tab.items():
                ctx.check(list(col.index) == ids, 'species tables aligned', k)
            for i in ids:
                n = name_of[i]
                ctx.check(tab['name'].at[i] == n, 'row belongs to its species')
                if n == 'M':
                    continue
                ctx.check(tab['charge'].at[i] == (-1 if n == 'e' else OXY[n].get('charge', 0)), 'charge of the row')
                for a in ('mass', 'h_form', 'lj_epsilon', 'lj_sigma'):
                    if n == 'e' and a != 'mass':
                        continue
                    ctx.check_eq(tab[a].at[i], vals[a, n], 'attribute of the row')
                if ('stick_coef', n) in vals:
                    ctx.check_eq(tab['stick_coef'].at[i], vals['stick_coef', n], 'attribute of the row')
            with ctx.guard('stoichiometry'):
                rs = chem.get_reactions(disabled=disabled)
                mats = {m: chem.get_stoichiomatrix(disabled=disabled, special=special, method=m)
                        for m in ('lhs', 'rhs', 'net')}
                el = {m: chem.get_reactions_stoich_coefs_electron(disabled=disabled, method=m) for m in mats}
                arb = {m: chem.get_reactions_stoich_coefs_arbitrary(disabled=disabled, method=m) for m in mats}
            rids = list(rs.index)
            hidden_r = set(chem.get_disabled_reactions().index) if not disabled else set()
            ctx.check(rids == [r.id for r in net.reactions if r.id not in hidden_r], 'filter shows exactly the enabled reactions')
            for m in mats:
                ctx.check(list(mats[m].columns) == ids and list(mats[m].index) == rids, 'matrix aligned with the listings')
                ctx.check(list(el[m].index) == rids and list(arb[m].index) == rids, 'vectors aligned with the listings')
            for r in rids:
                left, right = [split(x) for x in rid[r][1].split(' -> ')]
                q_net = 0
                for i in ids:
                    n = name_of[i]
                    a, b = counts(left, n), counts(right, n)
                    ctx.check(mats['lhs'].at[r, i] == a and mats['rhs'].at[r, i] == b and mats['net'].at[r, i] == b - a,
                              'stoichiometric coefficients count the species', '{} {}'.format(rid[r], n))
                for vec, n in ((el, 'e'), (arb, 'M')):
                    a, b = counts(left, n), counts(right, n)
                    ctx.check(vec['lhs'].at[r] == a and vec['rhs'].at[r] == b and vec['net'].at[r] == b - a,
                              'electron and M coefficients count the species')
        with ctx.guard('reaction tables'):
            tab = {
                'arrh_b': chem.get_reactions_arrh_b(disabled=disabled),
                'arrh_c': chem.get_reactions_arrh_c(disabled=disabled),
                'el_en_loss': chem.get_reactions_el_en_loss(disabled=disabled),
                'gas_heat_contrib': chem.get_reactions_ges_heat_contrib(disabled=disabled),
                'arrh_a': chem.get_reactions_arrh_a(disabled=disabled),
            }
            ela = chem.get_reactions_elastic(disabled=disabled)
        for a, col in tab.items():
            ctx.check(list(col.index) == rids, 'reaction tables aligned', a)
            for r in rids:
                ctx.check_eq(col.at[r], vals[a, rid[r][0]], 'attribute of the reaction')
        for r in rids:
            left, right = rid[r][1].split(' -> ')
            ctx.check(bool(ela.at[r]) == (set(split(left)) == set(split(right))), 'elastic iff nothing changes')


KEEP_SMALL = [2, 3, 4, 7, 8, 9, 10, 11, 6, 1]


def tasks(tier):
    lab = ['stoichiometric coefficients count the species', 'attribute of the reaction', 'species tables aligned']
    if tier == 'quick':
        return [Task('two requests/{}'.format(k), 'tables', {'keep': keep, 'requests': 1}, lab, validate=6)
                for k, keep in enumerate(([2, 3, 4, 7, 8, 9, 10, 11], [1, 3, 5, 6, 8, 12, 13, 7], None, [3, 2], [3, 7, 11, 13]))]
    return [Task('network {}'.format(k), 'tables', {'keep': keep, 'requests': 2}, lab, validate=10, time_limit=800)
            for k, keep in enumerate(([2, 3, 4, 7, 8, 9, 10, 11], [1, 3, 5, 6, 8, 12, 13, 7], [3, 2], [3, 7, 11, 13], [3, 5, 13, 4],
                                      [3, 7, 8, 9, 12]))]
