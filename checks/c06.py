"""C06: the state of a chemistry survives a dump to a file and a load into another instance"""
import os
import tempfile

from checks.chemlib import oxygen
from checks.util import errors, once
from symx.runner import Task

BOUNDS = ('an argon/oxygen network; every history of up to three state changes (disable, protect, ad-hoc values, resets) '
          'before the dump, every single state change on the loading instance before the load, one more change '
          'afterwards; all ad-hoc numbers arbitrary reals; with and without an input file, unchanged / changed / '
          'other path; input files of 1..60000 lines edited anywhere')
ASSUMPTIONS = ['a yaml document gives back the plain data which was dumped (the replay uses the real yaml package)']

KEEP = [3, 4, 2, 7, 8, 9]
OPS = ['nothing', 'disable O-', 'disable Ar*', 'disable reaction', 'protect', 'stick', 'return', 'return2', 'rate', 'reset',
       'reset ad-hoc', 'rate2', 'disable Ar+']


def apply(ctx, chem, net, op, tag, errs):
    """returns True if the request was accepted"""
    ids = {n: rp.id for n, rp in net.rp.items()}
    with ctx.guard(op):
        try:
            if op == 'disable O-':
                chem.disable(species=('O-',))
            elif op == 'disable Ar*':
                chem.disable(species=(ids['Ar*'],))
            elif op == 'disable Ar+':
                chem.disable(species=('Ar+',))
            elif op == 'disable reaction':
                chem.disable(reactions=(net.reactions[1].id,))
            elif op == 'protect':
                chem.set_protected_species('O2', ids['Ar'])
            elif op == 'stick':
                chem.set_adhoc_species_attributes('stick_coef', 'Ar*', once(ctx, 'stick' + tag, 0.1, 1))
            elif op == 'return':
                chem.set_adhoc_species_attributes('ret_coefs', 'O2+', {
                    'O2': once(ctx, 'ret' + tag, 0, 1), 'O-': once(ctx, 'retm' + tag, 0, 1)})
            elif op == 'return2':
                chem.set_adhoc_species_attributes('ret_coefs', 'Ar*', {'Ar*': once(ctx, 'ret2' + tag, 0, 1)})
            elif op == 'rate':
                chem.set_adhoc_reactions_attributes('arrh_a', net.reactions[2].id, once(ctx, 'rate' + tag, 0, 1))
            elif op == 'rate2':
                chem.set_adhoc_reactions_attributes('arrh_a', net.reactions[0].id, once(ctx, 'rate' + tag, 0, 1))
            elif op == 'reset':
                chem.reset()
            elif op == 'reset ad-hoc':
                chem.reset_adhoc_species_attributes('ret_coefs')
                chem.reset_adhoc_reactions_attributes('all')
        except errs:
            return False
    return True


def state(chem):
    """everything observable: (structure, numbers)"""
    fixed = (tuple(chem.get_species(special=True).index), tuple(chem.get_reactions().index),
             tuple(chem.get_disabled_species().index), tuple(chem.get_disabled_reactions().index),
             tuple(chem.get_protected_species().index))
    num = {}
    for att, tab in chem.adhoc_species_attributes.items():
        for i in tab.index:
            v = tab.at[i]
            if isinstance(v, dict):
                for k in v:
                    num[att, i, k] = v[k]
                num[att, i, None] = len(v)
            else:
                num[att, i] = v
    for att, tab in chem.adhoc_reactions_attributes.items():
        for i in tab.index:
            num[att, i] = tab.at[i]
    for i, v in chem.get_species_stick_coef(disabled=True).items():
        num['stick', i] = v
    for i, v in chem.get_species_ret_coefs(disabled=True).items():
        for k in v:
            num['ret', i, k] = v[k]
    for i, v in chem.get_reactions_arrh_a(disabled=True).items():
        num['a', i] = v
    return fixed, num


def same(ctx, a, b, label):
    ctx.check(a[0] == b[0], label, '{} / {}'.format(a[0], b[0]))
    ctx.check(set(a[1]) == set(b[1]), label, str(set(a[1]) ^ set(b[1])))
    for k in a[1]:
        ctx.check_eq(a[1][k], b[1][k], label, detail=str(k))


def differs(ctx, a, b):
    """True / False / solver term: the stored states differ"""
    if a[0] != b[0] or set(a[1]) != set(b[1]):
        return True
    out = False
    for k in a[1]:
        out = out | (a[1][k] != b[1][k])
    return out


def history(ctx, first, second, mine, after, third=OPS):
    errs = errors('plaschem.exceptions')
    with tempfile.TemporaryDirectory() as tmp:
        net = oxygen(keep=KEEP)
        path = os.path.join(tmp, 'attributes.yaml')
        with ctx.guard('construct'):
            a, b = net.chemistry(), net.chemistry()
        apply(ctx, a, net, first, '1', errs)
        apply(ctx, a, net, ctx.choice('second', second), '2', errs)
        apply(ctx, a, net, ctx.choice('third', third), '3', errs)
        apply(ctx, b, net, ctx.choice('mine', mine), 'b', errs)
        with ctx.guard('dump'):
            before = state(a)
            a.dump_chemistry_attributes(path)
            ok = a.check_coherence(path)
        same(ctx, state(a), before, 'a dump changes nothing')
        ctx.check(bool(ok), 'coherent with its own dump')
        with ctx.guard('load'):
            b.load_chemistry_attributes(path)
        sb = state(b)
        same(ctx, sb, before, 'the load restores the state')
        same(ctx, state(a), before, 'other instances are left alone')
        with ctx.guard('coherence'):
            ctx.check(bool(b.check_coherence(path)), 'coherent after the load')
        op = ctx.choice('after', after)
        ra, rb = apply(ctx, a, net, op, 'c', errs), apply(ctx, b, net, op, 'c', errs)
        ctx.check(ra == rb, 'both react alike to the next request')
        sa, sb = state(a), state(b)
        same(ctx, sa, sb, 'both react alike to the next request')
        d = differs(ctx, sa, before)
        with ctx.guard('coherence'):
            c = bool(a.check_coherence(path))
        if bool(d):
            ctx.check(not c, 'a changed state is not coherent')


def inputs(ctx):
    """the input file belongs to the state"""
    errs = errors('plaschem.exceptions')
    with tempfile.TemporaryDirectory() as tmp:
        net = oxygen(keep=KEEP)
        xa, xb = os.path.join(tmp, 'a.xml'), os.path.join(tmp, 'b.xml')
        path = os.path.join(tmp, 'attributes.yaml')
        with open(xa, 'w') as f:
            f.write('<x>1</x>')
        pa = ctx.choice('a input', [None, xa]) if False else (xa if ctx.flag('a has input') else None)
        kind = ctx.choice('b input', ['same', 'none', 'other', 'edited'])
        with ctx.guard('construct'):
            a = net.chemistry(xml_path=pa)
        apply(ctx, a, net, 'disable O-', '1', errs)
        apply(ctx, a, net, 'stick', '1', errs)
        want = state(a)
        with ctx.guard('dump'):
            a.dump_chemistry_attributes(path)
        with open(xb, 'w') as f:
            f.write('<x>1</x>')
        if kind == 'edited':
            with open(xa, 'a') as f:
                f.write('<!-- -->')
        with ctx.guard('construct'):
            b = net.chemistry(xml_path={'same': pa, 'none': None, 'other': xb, 'edited': pa}[kind])
        before = state(b)
        check = ctx.flag('check')
        alike = kind == 'same' or (kind in ('none', 'edited') and pa is None)
        with ctx.guard('load'):
            try:
                b.load_chemistry_attributes(path, check_hash=check)
                refused = False
            except errs:
                refused = True
        ctx.check(refused == (check and not alike), 'refused iff the input file is another one',
                  '{} {} {}'.format(kind, pa, check))
        same(ctx, state(b), before if refused else want, 'restored, or left alone if refused')
        with ctx.guard('coherence'):
            ctx.check(refused or bool(b.check_coherence(path)) == alike, 'coherence includes the input file')


def long_file(ctx):
    """every byte of the input file counts, however long it is"""
    errs = errors('plaschem.exceptions')
    with tempfile.TemporaryDirectory() as tmp:
        net = oxygen(keep=KEEP)
        xml, path = os.path.join(tmp, 'a.xml'), os.path.join(tmp, 'attributes.yaml')
        lines = ['<x>1</x>\n'] + ['<!-- reaction {} -->\n'.format(k) for k in range(60000)]
        size = ctx.choice('lines', [1, 600, 60001])
        lines = lines[:size]
        with open(xml, 'w') as f:
            f.write(''.join(lines))
        with ctx.guard('dump'):
            a = net.chemistry(xml_path=xml)
            apply(ctx, a, net, 'disable O-', '1', errs)
            a.dump_chemistry_attributes(path)
        edit = ctx.choice('edit', ['none', 'touched', 'end', 'start', 'middle', 'blank line', 'shorter'])
        same_bytes = edit in ('none', 'touched')
        if edit == 'end':
            lines[-1] = lines[-1].replace('x', 'y').replace('reaction', 'reactiom')
        elif edit == 'start':
            lines[0] = '<x>2</x>\n'
        elif edit == 'middle':
            lines[len(lines) // 2] = lines[len(lines) // 2].replace('1', '7').replace('reaction', 'reactiom')
        elif edit == 'blank line':
            lines.append('\n')
        elif edit == 'shorter':
            lines[-1] = lines[-1][:-2]
        if edit == 'touched':
            os.utime(xml, (1, 1))
        elif edit != 'none':
            with open(xml, 'w') as f:
                f.write(''.join(lines))
        with ctx.guard('load'):
            b = net.chemistry(xml_path=xml)
            before = state(b)
            try:
                b.load_chemistry_attributes(path)
                refused = False
            except errs:
                refused = True
        ctx.check(refused != same_bytes, 'refused iff the content of the file differs', edit)
        if refused:
            same(ctx, state(b), before, 'restored, or left alone if refused')


def broken(ctx):
    """documents which lack a part, or no document at all"""
    import yaml
    errs = errors('plaschem.exceptions')
    with tempfile.TemporaryDirectory() as tmp:
        net = oxygen(keep=KEEP)
        path = os.path.join(tmp, 'attributes.yaml')
        a, b = net.chemistry(), net.chemistry()
        apply(ctx, a, net, 'disable O-', '1', errs)
        a.dump_chemistry_attributes(path)
        apply(ctx, b, net, 'stick', '1', errs)
        with open(path) as f:
            doc = yaml.safe_load(f)
        cut = ctx.choice('cut', ['file'] + sorted(doc) + ['species_ids/enabled', 'reactions_ids/disabled'])
        if cut == 'file':
            os.remove(path)
        else:
            d, key = doc, cut
            if '/' in cut:
                d, key = doc[cut.split('/')[0]], cut.split('/')[1]
            del d[key]
            with open(path, 'w') as f:
                f.write(yaml.safe_dump(doc))
        before = state(b)
        with ctx.guard('load'):
            try:
                b.load_chemistry_attributes(path)
                refused = False
            except errs:
                refused = True
        ctx.check(refused, 'an incomplete document is refused', cut)
        same(ctx, state(b), before, 'an incomplete document changes nothing')


def tasks(tier):
    lab = ['the load restores the state', 'coherent after the load', 'a changed state is not coherent']
    out = [Task('input file', 'inputs', {}, ['refused iff the input file is another one']),
           Task('incomplete', 'broken', {}, ['an incomplete document is refused'])]
    out.append(Task('long input file', 'long_file', {}, ['refused iff the content of the file differs']))
    firsts = ['nothing', 'disable Ar+', 'disable O-', 'disable Ar*', 'protect', 'return', 'return2'] if tier == 'quick' else OPS
    for d in ('nothing', 'stick', 'rate', 'return', 'protect', 'disable Ar*'):
        out.append(Task('leftovers of any state, {} dumped'.format(d), 'history', dict(
            first='nothing', second=['nothing'], third=[d], mine=OPS, after=['nothing']), ['the load restores the state'], time_limit=200, validate=4))
    for f in firsts:
        if tier == 'quick':
            pars = dict(first=f, second=['nothing', 'return', 'disable O-'], mine=['nothing', 'disable O-', 'return2', 'disable Ar+'],
                        after=['stick', 'disable Ar*'])
            out.append(Task('after ' + f, 'history', pars, lab, time_limit=200, validate=8))
        else:
            for s in OPS:
                pars = dict(first=f, second=[s], mine=OPS, after=OPS)
                out.append(Task('after {}, {}'.format(f, s), 'history', pars, lab, max_paths=100000, time_limit=900, validate=5))
    return out
