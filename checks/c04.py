"""C04: disabling leaves the largest self-consistent subnetwork or leaves everything as it was"""
from checks.chemlib import oxygen, split, OXY, OXY_R
from checks.util import errors
from symx.runner import Task

BOUNDS = ('arbitrary networks of the electron, up to 4 heavy species and up to 3 reactions (every incidence pattern, '
          'reaction order normalised), charges of the heavy species arbitrary integers in [-1, 2], any species '
          'protected; one or two requests naming any species / reactions, then a reset; requests of two items one of which may be gone already; plus the argon/oxygen network '
          'with 9 species and 13 reactions')
ASSUMPTIONS = ['reactions of the arbitrary networks skip the conservation check (only who takes part in what matters)']


def fixpoint(species, reactions, members):
    """greatest subnetwork: no reaction with a missing species, no species without a reaction"""
    species, reactions = set(species), set(reactions)
    while True:
        r2 = {r for r in reactions if members[r] <= species}
        s2 = {s for s in species if any(s in members[r] for r in r2)}
        if r2 == reactions and s2 == species:
            return species, reactions
        species, reactions = s2, r2


def free_class():
    from plaschem.reactions import Reaction

    class FreeReaction(Reaction):
        def assert_consistency(self):
            pass
    return FreeReaction


def observe(chem):
    return (set(chem.get_species(special=True).index), set(chem.get_reactions().index),
            set(chem.get_protected_species().index))


def sequence(ctx, chem, members, charge, targets, nreq, errs, allow_pairs, at=None):
    """requests; the oracle tracks what must be enabled. charge: id -> (symbolic) charge"""
    all_s, all_r = set(charge), set(members)
    en_s, en_r = set(all_s), set(all_r)
    prot = set()

    def positive(s):
        return [i for i in s if bool(charge[i] > 0)]
    e_id = 1
    prot.add(e_id)
    pos0 = positive(all_s)
    if len(pos0) == 1:
        prot.add(pos0[0])
    base = set(prot)
    p = ctx.choice('protect', [None] + [t[1] for t in targets if t[0] == 's'])
    if p is not None:
        with ctx.guard('protect'):
            chem.set_protected_species(p)
        prot.add(p)
        base.add(p)
    for q in range(nreq):
        i = at if at is not None and q == 0 else int(ctx.int('request{}'.format(q), 0, len(targets) - 1))
        ts = [targets[i]]
        if allow_pairs and (q > 0) == (allow_pairs == 'later'):
            j = int(ctx.int('second' if q == 0 else 'second{}'.format(q), i, len(targets) - 1))
            if j != i:
                ts.append(targets[j])
        rs, rr = [t[1] for t in ts if t[0] == 's'], [t[1] for t in ts if t[0] == 'r']
        before = observe(chem)
        with ctx.guard('disable'):
            try:
                chem.disable(species=tuple(rs), reactions=tuple(rr))
                raised = False
            except errs:
                raised = True
        after = observe(chem)
        new_s, new_r = fixpoint(en_s - set(rs), en_r - set(rr), members)
        noop = not (set(rs) & en_s) and not (set(rr) & en_r)
        lost = en_s - new_s
        must_fail = bool(lost & prot) or (not positive(new_s) and not noop)
        if noop:
            ctx.check(not raised and after == before, 'a request for what is gone already changes nothing')
            continue
        ctx.check(raised == must_fail, 'refused iff a protected species or the last positive ion would go',
                  'request {} members {} raised {} lost {} protected {}'.format(ts, members, raised, lost, prot))
        if raised:
            ctx.check(after == before, 'a refused request changes nothing')
        else:
            en_s, en_r = new_s, new_r
            ctx.check(after[0] == en_s and after[1] == en_r, 'the largest consistent subnetwork remains',
                      'request {} members {}: {} {} instead of {} {}'.format(ts, members, after[0], after[1], en_s, en_r))
            left = positive(en_s)
            if len(left) == 1:
                prot = prot | {left[0]}
            ctx.check(after[2] == prot, 'protection: the chosen ones, and the last positive ion')
    with ctx.guard('reset'):
        chem.reset()
    end = observe(chem)
    ctx.check(end == (all_s, all_r, base), 'reset enables everything, drops only automatic protection')


def arbitrary(ctx, ns, nr, nreq, pairs, sides, codes=None):
    from plaschem.species import RP
    from plaschem.chemistry import Chemistry
    errs = errors('plaschem.exceptions')
    FreeReaction = free_class()
    names = ['e'] + ['X{}'.format(i) for i in range(ns)]
    members, last = {}, 1
    lo, hi = codes or (1, 2 ** (ns + 1) - 1)
    for k in range(nr):
        c = ctx.int('row{}'.format(k), last if k else lo, (hi if k == 0 else 2 ** (ns + 1) - 1))
        last = int(c)
        members[20 - 3 * k] = {j + 1 for j in range(ns + 1) if last >> j & 1}
    if set().union(*members.values()) != set(range(1, ns + 2)):
        ctx.assume(False)
    charge = {1: -1}
    rps = [RP(1, name='e', mass=5e-4, charge=-1)]
    for j in range(1, ns + 1):
        charge[j + 1] = ctx.int('charge{}'.format(j), -1, 2)
        rps.append(RP(j + 1, name=names[j], mass=1., charge=charge[j + 1], stick_coef=0., ret_coefs={}))
    some = False
    for j in range(2, ns + 2):
        some = (charge[j] > 0) | some if not ctx.symbolic or True else some
    ctx.assume(some)
    rx = []
    for k, (r, m) in enumerate(members.items()):
        m = sorted(m)
        if sides == 'left' or len(m) == 1:
            lhs, rhs = m[:3], m[3:] or m[:1]
        elif sides == 'right':
            lhs, rhs = m[:1], m
        else:
            lhs, rhs = m[0::2][:3], m[1::2] + m[0::2][3:]
        rx.append(FreeReaction(r, [rps[i - 1] for i in lhs], [rps[i - 1] for i in rhs], special_number=-1))
    # a positive ion exists and the electron takes part: the chemistry must be accepted
    with ctx.guard('construct'):
        chem = Chemistry(species=rps, reactions=rx)
    targets = [('s', i) for i in range(1, ns + 2)] + [('r', r) for r in members]
    sequence(ctx, chem, members, charge, targets, nreq, errs, pairs)


def realistic(ctx, nreq, keep, first, pairs=False):
    errs = errors('plaschem.exceptions')
    net = oxygen(keep=keep)
    with ctx.guard('construct'):
        chem = net.chemistry()
    ids = {n: rp.id for n, rp in net.rp.items()}
    strings = [s for k, s in enumerate(OXY_R) if not keep or k + 1 in keep]
    members = {}
    for r, s in zip(net.reactions, strings):
        left, right = s.split(' -> ')
        members[r.id] = {ids[n] for n in split(left) + split(right)}
    charge = {ids[n]: (-1 if n == 'e' else OXY[n].get('charge', 0)) for n in ids}
    targets = [('s', i) for i in charge] + [('r', r) for r in members]
    if first is not None:
        lo, hi = first
        k = ctx.int('only', lo, min(hi, len(targets) - 1))
        targets = [targets[int(k)]] + targets
        i0 = 0
    sequence(ctx, chem, members, charge, targets, nreq, errs, pairs)


PAIRS = ['e + Ar -> e + Ar*', 'e + Ar -> e + e + Ar+', 'e + Ar* -> e + e + Ar+', 'e + O2 -> e + e + O2+', 'Ar+ + O2 -> Ar + O2+']


def pairs(ctx, first, two=False):
    """a request naming several items, some of which may be gone already"""
    errs = errors('plaschem.exceptions')
    net = oxygen(strings=PAIRS)
    with ctx.guard('construct'):
        chem = net.chemistry()
    ids = {n: rp.id for n, rp in net.rp.items()}
    members = {}
    for r, s in zip(net.reactions, PAIRS):
        left, right = s.split(' -> ')
        members[r.id] = {ids[n] for n in split(left) + split(right)}
    charge = {ids[n]: (-1 if n == 'e' else OXY[n].get('charge', 0)) for n in ids}
    targets = [('s', i) for i in charge if i != 1] + [('r', r) for r in members]
    k = int(ctx.int('gone', *first))
    if k >= len(targets):
        return
    sequence(ctx, chem, members, charge, targets, 2 + two, errs, 'later', at=k)


def tasks(tier):
    lab = ['refused iff a protected species or the last positive ion would go', 'a refused request changes nothing',
           'the largest consistent subnetwork remains']
    out = []
    if tier == 'quick':
        for lo, hi in ((1, 1), (2, 2), (3, 4), (5, 7)):
            out.append(Task('any 2x3 {}'.format(lo), 'arbitrary', dict(
                ns=2, nr=3, nreq=1, pairs=False, sides='mixed', codes=(lo, hi)), lab[:1], time_limit=600, validate=10))
        for lo, hi in ((1, 2), (3, 7)):
            for sides in ('left', 'right'):
                out.append(Task('any 2x2 {} sequences {}'.format(sides, lo), 'arbitrary', dict(
                    ns=2, nr=2, nreq=2, pairs=False, sides=sides, codes=(lo, hi)), lab[:1], time_limit=600, validate=10))
        for lo, hi in ((1, 1), (2, 2), (3, 3), (4, 5), (6, 8), (9, 15)):
            out.append(Task('any 3x2 mixed {}'.format(lo), 'arbitrary', dict(
                ns=3, nr=2, nreq=1, pairs=False, sides='mixed', codes=(lo, hi)), lab[:1], time_limit=600, validate=10))
        out.append(Task('argon/oxygen small', 'realistic', dict(nreq=1, keep=[3, 4, 2, 7, 8, 9, 10, 11], first=None), lab,
                        time_limit=600, validate=10))
        for k in range(0, 10, 2):
            out.append(Task('pairs {}'.format(k), 'pairs', dict(first=(k, k + 1)), lab, time_limit=600, validate=6))
        out.append(Task('argon/oxygen', 'realistic', dict(nreq=1, keep=None, first=None), lab, time_limit=600, validate=10))
        return out
    for sides in ('left', 'right', 'mixed'):
        out.append(Task('any 2x3 sequences ' + sides, 'arbitrary', dict(ns=2, nr=3, nreq=2, pairs=False, sides=sides), lab,
                        time_limit=2400, validate=30))
        for lo in range(1, 16, 3):
            out.append(Task('any 3x3 {} {}'.format(sides, lo), 'arbitrary', dict(
                ns=3, nr=3, nreq=1, pairs=False, sides=sides, codes=(lo, lo + 2)), lab[:1], time_limit=1200, validate=30))
    for k in range(0, 10, 2):
        out.append(Task('pairs {}'.format(k), 'pairs', dict(first=(k, k + 1), two=True), lab, time_limit=1200, validate=6))
    out.append(Task('argon/oxygen', 'realistic', dict(nreq=2, keep=None, first=None), lab, time_limit=2400, validate=30))
    return out
