"""C07: copies of a chemistry start equal and never influence each other"""
import os
import tempfile

from checks.c06 import OPS, KEEP, apply, state, same
from checks.chemlib import oxygen, Net
from checks.util import errors, once
from symx.runner import Task

BOUNDS = ('an argon/oxygen network and a neutral-only one; every history of up to two state changes before the copy and '
          'every one or two state changes on either instance after it; all ad-hoc numbers arbitrary reals; whatever a '
          'getter hands out is then modified by the caller')
ASSUMPTIONS = ['copies share the species and reaction objects by design']


def copies(ctx, first, second, later):
    errs = errors('plaschem.exceptions')
    net = oxygen(keep=KEEP)
    with ctx.guard('construct'):
        a = net.chemistry(xml_path='somewhere.xml')
    apply(ctx, a, net, first, '1', errs)
    apply(ctx, a, net, ctx.choice('second', second), '2', errs)
    before = state(a)
    with ctx.guard('copy'):
        b = a.copy()
    ctx.check(type(b) is type(a) and b is not a and b.xml_path == a.xml_path, 'the copy is another object of the same kind')
    same(ctx, state(b), before, 'the copy starts in the same state')
    same(ctx, state(a), before, 'copying changes nothing')
    act, idle = (a, b) if ctx.flag('act on the original') else (b, a)
    apply(ctx, act, net, ctx.choice('third', later), '3', errs)
    apply(ctx, act, net, ctx.choice('fourth', later), '4', errs)
    same(ctx, state(idle), before, 'the other instance keeps its state')
    # the same requests lead to the same place
    now = state(act)
    scribble(ctx, act)
    same(ctx, state(act), now, 'the caller owns what the getters return')
    same(ctx, state(idle), before, 'the other instance keeps its state')


def scribble(ctx, chem):
    with ctx.guard('getters'):
        for tab in (chem.get_species_stick_coef(), chem.get_species(), chem.get_reactions(), chem.get_reactions_arrh_a(),
                    chem.get_protected_species(), chem.get_disabled_species()):
            for i in tab.index:
                tab.at[i] = None
        for d in chem.get_species_ret_coefs(disabled=True):
            if d is not None:
                for k in list(d):
                    d[k] = -1.
                d['Ar'] = 5.
        m = chem.get_stoichiomatrix()
        m.iloc[:, :] = 9
        value = ctx.flag('scribbled mask')
        for shown in (True, False):
            for mask in (chem.get_species_mask(disabled=shown, special=False, protected=False),
                         chem.get_species_mask(disabled=shown, special=True, protected=True), chem.get_reactions_mask(disabled=shown)):
                mask[:] = value


def stored(ctx, ops):
    """a state read from a file into one instance stays there"""
    errs = errors('plaschem.exceptions')
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'attributes.yaml')
        net = oxygen(keep=KEEP)
        with ctx.guard('construct'):
            source, a, ref = net.chemistry(), net.chemistry(), net.chemistry()
        apply(ctx, source, net, ctx.choice('dumped', ops), 's', errs)
        with ctx.guard('dump'):
            source.dump_chemistry_attributes(path)
        first = ctx.choice('first', ops)
        for chem in (a, ref):
            apply(ctx, chem, net, first, '1', errs)
        before = state(a)
        with ctx.guard('copy'):
            b = a.copy()
        act, idle = (a, b) if ctx.flag('act on the original') else (b, a)
        with ctx.guard('load'):
            act.load_chemistry_attributes(path)
        same(ctx, state(idle), before, 'the other instance keeps its state')
        same(ctx, state(act), state(source), 'the loading instance takes the stored state')
        # part of the state only shows in what the instance does next
        op = ctx.choice('then', ['nothing', 'disable O-', 'disable Ar+', 'disable Ar*', 'protect', 'reset ad-hoc'])
        one, two = apply(ctx, idle, net, op, 't', errs), apply(ctx, ref, net, op, 't', errs)
        ctx.check(one == two, 'the other instance keeps its state', op)
        same(ctx, state(idle), state(ref), 'the other instance keeps its state')


NEUTRAL = {'N2': {'id': 4}, 'N': {'id': 2}, 'N2*': {'id': 7, 'stateless': 'N2', 'state': '*', 'stick_coef': 0.5,
                                                    'ret_coefs': {'N2': 1.}}, 'M': {'id': 9}}
NEUTRAL_R = ['N + N + M -> N2 + M', 'N2* + N2 -> N2 + N2', 'N2* + N -> N2 + N', 'N2 + N2 -> N2* + N2']


def neutral(ctx):
    """the same for the neutral-only flavour"""
    from checks.chemlib import arrh_unit
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry
    errs = errors('plaschem.exceptions')
    net = Net({k: dict(v) for k, v in NEUTRAL.items()}, [(s, {'arrh_a': 1e-16 * (k + 1), 'id': 9 - k},
                                                          {'arrh_a': arrh_unit(s)}) for k, s in enumerate(NEUTRAL_R)])
    with ctx.guard('construct'):
        a = net.chemistry(cls=NeutralChemistry)

    def act(chem, op, tag):
        with ctx.guard(op):
            try:
                if op == 'disable':
                    chem.disable(species=('N2*',))
                elif op == 'protect':
                    chem.set_protected_species('N')
                elif op == 'stick':
                    chem.set_adhoc_species_attributes('stick_coef', 'N', once(ctx, 'stick' + tag, 0.1, 1))
                elif op == 'return':
                    chem.set_adhoc_species_attributes('ret_coefs', 'N', {'N2': once(ctx, 'ret' + tag, 0, 1)})
                elif op == 'rate':
                    chem.set_adhoc_reactions_attributes('arrh_a', 8, once(ctx, 'rate' + tag, 0, 1))
                elif op == 'reset':
                    chem.reset()
            except errs:
                pass
    ops = ['disable', 'protect', 'stick', 'return', 'rate', 'reset']
    act(a, ctx.choice('first', ops), '1')
    before = state(a)
    with ctx.guard('copy'):
        b = a.copy()
    ctx.check(type(b) is type(a), 'the copy is another object of the same kind', '{} {}'.format(type(b), type(a)))
    same(ctx, state(b), before, 'the copy starts in the same state')
    on, idle = (a, b) if ctx.flag('act on the original') else (b, a)
    act(on, ctx.choice('third', ops), '3')
    same(ctx, state(idle), before, 'the other instance keeps its state')


def tasks(tier):
    lab = ['the copy starts in the same state', 'the other instance keeps its state']
    out = [Task('neutral', 'neutral', {}, lab),
           Task('stored state', 'stored', dict(ops=['nothing', 'disable Ar+', 'disable Ar*', 'protect', 'return', 'rate']
                                               if tier == 'quick' else OPS),
                ['the other instance keeps its state', 'the loading instance takes the stored state'], max_paths=100000,
                time_limit=300 if tier == 'quick' else 1500, validate=8)]
    for f in (['disable O-', 'disable Ar+', 'protect', 'return', 'rate', 'stick'] if tier == 'quick' else OPS):
        pars = dict(first=f, second=['nothing', 'return2', 'disable Ar*'] if tier == 'quick' else OPS,
                    later=['return', 'disable Ar*', 'protect', 'reset', 'reset ad-hoc', 'stick', 'rate'] if tier == 'quick'
                    else OPS)
        out.append(Task('after ' + f, 'copies', pars, lab, max_paths=100000, time_limit=200 if tier == 'quick' else 1500,
                        validate=8))
    return out
