"""C05: surface data of a chemistry: sticking, return coefficients, return matrix"""
import copy

from checks.chemlib import oxygen, OXY
from checks.util import errors
from symx.runner import Task

BOUNDS = ('argon/oxygen networks of up to 9 species; sticking coefficients arbitrary reals in (0, 1] and one in [0, 1]; '
          'return coefficients in [0, 5]; one ad-hoc sticking coefficient and one ad-hoc set of return coefficients (up '
          'to two return species), set before or after a species is disabled; all filter flags; species of charge -3..3')
ASSUMPTIONS = []


def build(ctx, keep, zeroable):
    """returns net, own stick, own ret"""
    own_s, own_r, sp = {}, {}, {}
    for n in OXY:
        if n in ('e', 'M'):
            continue
        own_s[n] = ctx.real('s:' + n, 0 if n == zeroable else 0.001, 1)
        sp[n] = {'stick_coef': own_s[n]}
    base = {'Ar+': {'Ar': 1}, 'Ar*': {'Ar': 1, 'O': 1, 'O2': 1}, 'O2+': {'O2': 1, 'O': 1}, 'O-': {'O': 1}, 'O': {'O2': 1}, 'O2': {}, 'Ar': None}
    for n, d in base.items():
        if d is None:
            own_r[n] = {}
            continue
        own_r[n] = {k: ctx.real('r:{}:{}'.format(n, k), 0, 5) for k in d}
        sp[n]['ret_coefs'] = dict(own_r[n])
    net = oxygen(species=sp, keep=keep)
    own_s = {n: v for n, v in own_s.items() if n in net.rp}
    own_r = {n: v for n, v in own_r.items() if n in net.rp}
    return net, own_s, own_r


def surface(ctx, keep, order, whom, sticks, targets, drops, protect):
    errs = errors('plaschem.exceptions')
    net, own_s, own_r = build(ctx, keep, whom)
    with ctx.guard('construct'):
        chem = net.chemistry()
    name_of = {rp.id: n for n, rp in net.rp.items()}
    heavy = [n for n in net.rp if n not in ('e', 'M')]
    eff_s, eff_r = dict(own_s), {n: dict(d) for n, d in own_r.items()}

    def adhoc():
        n = ctx.choice('stick_of', sticks)
        if n is not None and n in enabled():
            v = ctx.real('adhoc_stick', 0, 1)
            with ctx.guard('ad-hoc sticking'):
                chem.set_adhoc_species_attributes('stick_coef', n, v)
            eff_s[n] = v
        n = whom
        if n is not None and n in enabled():
            t1 = ctx.choice('ret_to', [x for x in targets if x in enabled()])
            d = {t1: ctx.real('adhoc_ret', 0, 5)}
            t2 = 'Ar'
            if t2 != t1 and t2 in enabled():
                d[t2] = ctx.real('adhoc_ret2', 0, 5)
            mine = dict(d)
            with ctx.guard('ad-hoc return'):
                chem.set_adhoc_species_attributes('ret_coefs', n, d)
            d['Ar'] = 77.  # the caller's dict is not the chemistry's
            eff_r[n] = mine

    def enabled():
        return set(chem.get_species_name(special=True).values)

    def disable():
        t = ctx.choice('disable', drops)
        if t is not None:
            with ctx.guard('disable'):
                try:
                    chem.disable(species=(t,))
                except errs:
                    pass
    for step in order:
        if step == 'a':
            adhoc()
        else:
            disable()
    if protect:
        chem.set_protected_species('Ar+')
    live = enabled()
    look(ctx, chem, net, name_of, live, eff_s, eff_r)
    # what belongs to the species themselves is untouched
    for n in heavy:
        ctx.check_eq(net.rp[n].get_stick_coef(), own_s[n], 'the species keep their own data')
        d = net.rp[n].get_ret_coefs()
        ctx.check(set(d) == set(own_r[n]), 'the species keep their own data')
        for k in d:
            ctx.check_eq(d[k], own_r[n][k], 'the species keep their own data')
    with ctx.guard('reset'):
        chem.reset_adhoc_species_attributes('all')
    look(ctx, chem, net, name_of, live, own_s, own_r, short=True)


def look(ctx, chem, net, name_of, live, eff_s, eff_r, short=False):
    for disabled in (False, True):
        for special in (False, True):
            for protected in ((True, False) if not short else (True,)):
                kw = dict(disabled=disabled, special=special, protected=protected)
                with ctx.guard('surface tables'):
                    ids = list(chem.get_species(**kw).index)
                    stick = chem.get_species_stick_coef(**kw)
                    ret = chem.get_species_ret_coefs(**kw)
                ctx.check(list(stick.index) == ids, 'sticking table has one row per shown species', str(kw))
                ctx.check(list(ret.index) == ids, 'return table has one row per shown species',
                          '{} {} {}'.format(kw, list(ret.index), ids))
                for i in ids:
                    n = name_of[i]
                    if n in ('e', 'M'):
                        ctx.check(ret.at[i] is None, 'special species have no surface data')
                        continue
                    ctx.check_eq(stick.at[i], eff_s[n], 'effective sticking coefficient')
                    expect_ret(ctx, ret.at[i], n, eff_s, eff_r, live)
            with ctx.guard('return matrix'):
                mat = chem.get_return_matrix(disabled=disabled, special=special)
                ids = list(chem.get_species(disabled=disabled, special=special).index)
            ctx.check(list(mat.index) == ids and list(mat.columns) == ids,
                      'return matrix is square over the listed species', '{} {} {}'.format(
                          list(mat.index), list(mat.columns), ids))
            for j in ids:
                n = name_of[j]
                if n in ('e', 'M'):
                    ctx.check(all(v != v for v in mat[j]) and all(v != v for v in mat.loc[j]),
                              'special species carry no numbers in the return matrix')
                    continue
                zero = bool(eff_s[n] == 0)
                for i in ids:
                    m = name_of[i]
                    if m in ('e', 'M'):
                        continue
                    want = eff_r[n].get(m, 0) if m in live and not zero else 0
                    ctx.check_eq(mat.at[i, j], want, 'return matrix entry', detail='{} from {}'.format(m, n))


def expect_ret(ctx, got, n, eff_s, eff_r, live):
    zero = bool(eff_s[n] == 0)
    want = {} if zero else {k: v for k, v in eff_r[n].items() if k in live}
    ctx.check(isinstance(got, dict) and set(got) == set(want),
              'nothing comes back from species which do not stick, nor species which are gone',
              '{}: {} instead of {}'.format(n, got, want))
    for k in want:
        ctx.check_eq(got[k], want[k], 'effective return coefficient')


def defaults(ctx):
    """default surface data of a species"""
    from plaschem.species import RP
    q = ctx.int('q', -3, 3)
    stateful = ctx.flag('state')
    name = 'Ar' + ('+' if q > 0 else '-' if q < 0 else '')
    form = ctx.choice('form', ['repeat', 'digit'])
    n = abs(int(q))
    if n > 1:
        name = 'Ar' + ('+' if q > 0 else '-') * n if form == 'repeat' else 'Ar{}{}'.format('+' if q > 0 else '-', n)
    att = {'name': name, 'mass': 40., 'charge': q}
    if stateful:
        att.update(name=name + '*', stateless=name, state='*')
    s = ctx.real('s', 0, 1)
    own = ctx.flag('own')
    if own:
        att['stick_coef'] = s
    with ctx.guard('species'):
        rp = RP(1, attributes=att)
        stick, ret, atoms = rp.get_stick_coef(), rp.get_ret_coefs(), rp.get_atoms()
    inert = (not stateful) and n == 0
    if own:
        ctx.check_eq(stick, s, 'own sticking coefficient')
    else:
        ctx.check_eq(stick, 0 if inert else 1, 'default sticking coefficient')
    ctx.check(ret == ({} if inert else {'Ar': 1.}), 'default return species', '{} {}'.format(name, ret))
    ctx.check(atoms == {'Ar': 1}, 'atoms without the charge')


def tasks(tier):
    lab = ['return matrix entry', 'effective return coefficient', 'return matrix is square over the listed species']
    nets = [[3, 4, 2, 7, 8, 9]] if tier == 'quick' else [None, [3, 4, 2, 7, 8, 9, 10], [3, 7, 11, 8, 12]]
    out = [Task('defaults', 'defaults', {}, ['default return species'])]
    heavy = ['Ar', 'Ar*', 'Ar+', 'O2', 'O2+', 'O-', 'O']
    for k, keep in enumerate(nets):
        for order in ('ad', 'da'):
            for w in ('Ar', 'Ar+', 'Ar*', 'O2+', 'O-', 'O'):
                if k == 2 and w in ('Ar*',):
                    continue
                hv = [h for h in heavy if h != 'Ar*' or k != 2]
                if tier == 'quick':
                    if (w in ('Ar*', 'O')) != (order == 'ad') and w not in ('Ar+', 'O2+'):
                        continue
                    pars = {'sticks': [None, w], 'targets': ['e', 'O', w], 'drops': [None, w, 'O', 'O2']}
                else:
                    pars = {'sticks': [None] + hv, 'targets': ['e'] + hv, 'drops': [None] + hv}
                pars.update(keep=keep, order=order, whom=w, protect=w in ('Ar+', 'O2+', 'O'))
                out.append(Task('net{} {} {}'.format(k, order, w), 'surface', pars, lab, max_paths=5000,
                                time_limit=100 if tier == 'quick' else 800, validate=6))
    return out
