"""C28: the reduction removes species only while the error stays within its limit, and restores the chemistry otherwise"""
import os
import warnings

from checks.c18 import patched
from checks.c20 import PAR, configured, scratch
from checks.c21 import build, once
from checks.c25 import network
from checks.util import errors
from symx.runner import Task

BOUNDS = ('networks of 3..7 species with cascades of removals, feeds and important species anywhere; up to 3 requests of removal (any species, kept or '
          'restored beyond the limit) or whole runs of a given order; each reduced run is solved with arbitrary results, fails or is interrupted; '
          'arbitrary limit of the error and streak')
ASSUMPTIONS = ['the backend model is replaced by arbitrary results, or failure, of each run', 'the results of the full model are positive',
               'which species and reactions a removal takes along is asked from another instance of the chemistry (C04)']
NET = {'argon': [2, 3, 5], 'oxygen': [6, 7, 8], 'both': [2, 3, 5, 6, 7, 8]}


def errs():
    return (AssertionError,) + errors('pygmo_fwork.optichem.exceptions')


class Runs(object):
    """stands for the backend of the global model"""

    def __init__(self, ctx, outputs, wide, fails):
        self.ctx, self.outputs, self.wide, self.fails, self.n, self.sol, self.seen = ctx, outputs, wide, fails, 0, None, []
        self.values, self.result = None, None

    def run(self, model, init_el_temp=1, init_n=None, log_results=True, run_id=None, log_to=None, verbose=True, overwrite=False, compress_logs=False):
        from pygmo_fwork.pygmol.exceptions import ModelSolutionError
        k = self.n
        self.n += 1
        chem = model.model.chemistry
        self.seen.append(state(chem))
        self.result = 'failed'
        how = 'solved' if k == 0 or not self.fails else self.ctx.choice('run {}'.format(k), ['solved', 'fails', 'interrupted'][:self.fails + 1])
        if how == 'fails':
            raise ModelSolutionError('no solution')
        if how == 'interrupted':
            raise KeyboardInterrupt()
        names = list(chem.get_species_name())
        cols = {}
        self.values = {}
        for c in names + ['Te']:
            if c in self.outputs:
                v = self.ctx.real('{} {}'.format(c, k), 0.5 if self.wide else 2., 10) if k else 2.
                cols[c] = [1., v]
                self.values[c] = v
            else:
                cols[c] = [1., 1.5]
        self.sol = build(self.ctx, t=[0., 1.], **cols)
        self.result = 'solved'
        assert log_results and not os.path.exists(os.path.join(log_to, run_id))
        d = os.path.join(log_to, run_id)
        os.mkdir(d)
        self.sol.to_csv(os.path.join(d, 'solution.csv'))
        for name in ('rates', 'wall_fluxes'):
            build(self.ctx, t=[0., 1.], x=[1., 2.]).to_csv(os.path.join(d, name + '.csv'))
        chem.dump_chemistry_attributes(os.path.join(d, 'chemistry_attributes.yaml'))

    def patch(self):
        import pygmo_fwork.global_model as gmod
        me = self
        return patched(gmod.GlobalModel, run=lambda model, *a, **k: me.run(model, *a, **k), get_solution=lambda model: me.sol.copy())


def state(chem):
    return (frozenset(chem.get_species_name()), frozenset(chem.get_species_name(special=True)), frozenset(r.id for r in chem.get_reactions()),
            frozenset(rp.get_name() for rp in chem.get_protected_species()))


def error(old, new, times):
    """largest mixed relative error between the values of important outputs ({output: final value})"""
    out = None
    for c in old:
        full = [1. + (old[c] - 1.) * t for t in times]
        red = [1. + (new[c] - 1.) * t for t in times]
        top = full[0]
        for x in full[1:]:
            top = x if x > top else top
        for a, b in zip(full, red):
            e = abs(2 * (b - a) / (a + top))
            out = e if out is None or e > out else out
    return out


class Oracle(object):
    """what the documentation says about the chemistry after each request"""

    def __init__(self, ctx, make, fixed):
        from plaschem.chemistry import Chemistry
        self.ctx, self.make, self.fixed = ctx, make, set(fixed)
        c = make()
        self.all = set(c.get_species_name())
        prot = {rp.get_name() for rp in c.get_protected_species()}
        self.eligible = self.all - self.fixed - prot
        self.now = ()                      # species removed one by one
        self.good = [((), True)]           # accepted runs: removed species, within the limit

    def chem(self, removed):
        c = self.make()
        for s in removed:
            c.disable(species=[s])
        return c

    def removal(self, species):
        """state without the species, None if it cannot be removed"""
        from plaschem.exceptions import ChemistryDisableError
        c = self.chem(self.now)
        before = set(c.get_species_name())
        try:
            c.disable(species=[species])
        except ChemistryDisableError:
            return None
        gone = before - set(c.get_species_name())
        return None if not gone <= self.eligible else (state(c), gone)

    def back(self, within):
        while within and not self.good[-1][1]:
            self.good.pop()
        self.now = self.good[-1][0]


def setup(ctx, net, feeds, important, max_error, top, wide, fails, times, protect=()):
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.optichem.reduction import ReductionIterator
    nt = network(ctx, NET[net])

    def make():
        c = nt.chemistry()
        if protect:
            c.set_protected_species(*protect)
        return c
    model = GlobalModel(make(), dict(PAR, feeds={s: 10. for s in feeds}))
    runs = Runs(ctx, important, wide, fails)
    return model, runs, make, ReductionIterator(model, 'R', list(important), list(times), max_error, top, verbose_level=0)


def requests(ctx, net, feeds, important, n, wide=False, fails=2, times=(1.,), protect=(), limit=None, fix=()):
    """removals asked for one by one"""
    import pandas as pd
    E = errs()
    limit = ctx.real('limit', 1, 100) if limit is None else limit
    with scratch() as top, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with ctx.guard('setup'):
            model, runs, make, it = setup(ctx, net, feeds, important, limit, top, wide, fails, times, protect)
            start = state(model.model.chemistry)
            o = Oracle(ctx, make, set(feeds) | set(important))
        rd = os.path.join(top, 'R')
        with ctx.guard('base case'), runs.patch():
            it.run_base_case()
        base = last = dict(runs.values)
        rows, asked = 1, []
        for j in range(n):
            names = sorted(o.all)
            sp = ctx.choice('species {}'.format(j), names) if j >= len(fix) else fix[j]
            back = ctx.flag('restore {}'.format(j))
            ran = runs.n
            before, was = state(model.model.chemistry), o.now
            ctx.check(before == state(o.chem(o.now)), 'the chemistry is the expected one')
            with ctx.guard('only its own errors'), runs.patch():
                try:
                    row = it.remove_one_species_and_run(sp, 1. + j, back)
                    ok = True
                except E:
                    ok = False
            may = sp in o.eligible and sp not in asked and sp in before[0]
            ctx.check(ok == may, 'species which cannot be removed are refused')
            if not ok or not may:
                ctx.check(state(model.model.chemistry) == before and runs.n == ran, 'a refused request changes nothing')
                continue
            asked.append(sp)
            rows += 1
            got = o.removal(sp)
            after = state(model.model.chemistry)
            success = False
            if got is None:
                ctx.check(after == before, 'a species which cannot be removed stays')
                ctx.check(runs.n == ran, 'no run of a chemistry which is not reduced')
            else:
                ctx.check(runs.n == ran + 1 and runs.seen[-1] == got[0], 'the reduced chemistry is run')
                success = runs.result == 'solved'
                if not success:
                    o.back(back)
                    ctx.check(after == state(o.chem(o.now)), 'failed runs are undone')
                else:
                    e, el = error(base, runs.values, times), error(last, runs.values, times)
                    over = bool(e > limit / 100)
                    if back and over:
                        o.back(True)
                        ctx.check(after == state(o.chem(o.now)), 'too large errors are undone')
                    else:
                        o.now = o.now + (sp,)
                        o.good.append((o.now, not over))
                        ctx.check(after == got[0], 'accepted removals stay')
                    ctx.check_eq(row['error_base_max'], e, 'error to the full model', scale=1)
                    ctx.check_eq(row['error_last_max'], el, 'error to the last reduced model', scale=1)
                    if len(base) == len(times) == 1:
                        ctx.check_eq(row['error_base_rms'], e, 'error to the full model', scale=1)
                        ctx.check_eq(row['error_last_rms'], el, 'error to the last reduced model', scale=1)
                    if not (back and over):
                        last = dict(runs.values)
            kept = set(after[0])
            with ctx.guard('candidates'):
                able = {s: bool(it.can_be_removed(s)) for s in names if s not in asked}
            ctx.check(able == {s: s in o.eligible and s in kept for s in able}, 'what is in the chemistry and eligible can be removed', str(able))
            ctx.check(bool(row['rm_success']) == success and row['species'] == sp and row['ranking_score'] == 1. + j, 'history of the request')
            here = got[0][0] if success else kept
            ctx.check(row['total_left'] == len(here) and row['total_removed'] == len(o.all) - len(here), 'history of the request')
            extra = row['rm_additional']
            extra = set() if not isinstance(extra, str) else set(extra.split(', '))
            ctx.check(extra == (got[1] - {sp} if success else set()), 'history of the request')
            ctx.check(isinstance(row['run_id'], str) == success, 'history of the request')
            if success:
                ctx.check(sorted(os.listdir(os.path.join(rd, row['run_id']))) == ['chemistry_attributes.yaml', 'solution.csv'], 'logs of each run')
            else:
                ctx.check(pd.isna(row['error_base_max']), 'history of the request')
            with open(os.path.join(rd, 'reduction_history.csv')) as f:
                ctx.check(len(f.read().strip().split('\n')) == rows + 1, 'the history is logged')
        ctx.check(state(model.model.chemistry) == state(o.chem(o.now)), 'the chemistry is the expected one')
        with ctx.guard('base case again'), runs.patch():
            try:
                it.run_base_case()
                ok = True
            except E:
                ok = False
        ctx.check(not ok, 'the full model runs once')


def whole(ctx, net, feeds, important, order, dynamic, streak, fails=1, limit=10.):
    import pandas as pd
    with scratch() as top, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with ctx.guard('setup'):
            model, runs, make, it = setup(ctx, net, feeds, important, limit, top, False, fails, (1.,))
            start = state(model.model.chemistry)
            o = Oracle(ctx, make, set(feeds) | set(important))
        n = ctx.int('streak', 0, streak) if streak else 0
        calls = []

        def turned():
            """order of the ranking of the k-th call: rotated, of what is left"""
            k = len(calls)
            return order[k % len(order):] + order[:k % len(order)]

        def rank(m):
            left = set(m.model.chemistry.get_species_name())
            calls.append(state(m.model.chemistry))
            names = [s for s in turned() if s in left]
            return pd.Series([1. + i // 2 for i in range(len(names))], index=names)
        ranking = rank if dynamic else pd.Series([float(i // 2) for i in range(len(order))], index=order)
        keep = None if dynamic else ranking.copy()
        with ctx.guard('reduction'), runs.patch():
            it.run_reduction(ranking, n)
        ctx.check(state(model.model.chemistry) == start, 'the chemistry is complete again')
        if keep is not None:
            ctx.check(list(ranking.index) == list(keep.index) and bool((ranking == keep).all()), 'the ranking stays')
        hist = it.reduction_history
        seen = iter(runs.seen)
        ctx.check(next(seen) == start and hist.loc[0, 'total_left'] == len(o.all), 'the full model comes first')
        # what should have happened, given the outcomes
        row, count, tried, k, done = 0, 0, [], 0, False
        rankings = 1

        def ranked(k):
            left = set(o.chem(o.now).get_species_name())
            r = order[(k + 1) % len(order):] + order[:(k + 1) % len(order)] if dynamic else order
            return [s for s in r if not dynamic or s in left]
        if dynamic:
            calls_expected = [state(o.chem(()))]
        todo = ranked(0)
        while todo and not done:
            sp = todo.pop(0)
            left = set(o.chem(o.now).get_species_name())
            if sp in tried or sp not in o.eligible or sp not in left:
                continue
            tried.append(sp)
            row += 1
            ctx.check(row in hist.index and hist.loc[row, 'species'] == sp, 'species are tried in order of the ranking')
            if row not in hist.index:
                return
            got = o.removal(sp)
            if got is None:
                ctx.check(not hist.loc[row, 'rm_success'], 'a species which cannot be removed stays')
                continue
            ctx.check(next(seen, None) == got[0], 'the reduced chemistry is run')
            if not hist.loc[row, 'rm_success']:
                continue
            e = hist.loc[row, 'error_base_max']
            if e > limit / 100:
                count += 1
                done = bool(count > n)
            else:
                count = 0
                o.now = o.now + (sp,)
                if dynamic:
                    calls_expected.append(state(o.chem(o.now)))
                    todo = ranked(len(calls_expected) - 1)
                done = not (o.eligible & set(o.chem(o.now).get_species_name()))
        ctx.check(len(hist) == row + 1 and next(seen, None) is None, 'the run ends when the limit is exceeded too often, or nothing is left')
        if dynamic:
            ctx.check(calls[:1] == calls_expected[:1] and calls == calls_expected, 'ranked again after each removal')


def initial(ctx):
    """what cannot be reduced"""
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.optichem.reduction import ReductionIterator
    E = errs()
    kind = ctx.choice('kind', ['good', 'nothing to remove', 'no directory', 'old results', 'empty directory', 'before the base case', 'disabled', 'configured'])
    with scratch() as base, configured(base) as ws, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        top = os.path.join(ws, 'results', 'reduction') if kind == 'configured' else base
        with ctx.guard('setup'):
            chem = network(ctx, NET['argon']).chemistry()
            model = GlobalModel(chem, dict(PAR, feeds={'Ar': 10.}))
            runs = Runs(ctx, ['Te'], False, 0)
            if kind in ('old results', 'empty directory'):
                os.makedirs(os.path.join(top, 'R', 'old') if kind == 'old results' else os.path.join(top, 'R'))
        imp = ['Te'] if kind != 'nothing to remove' else ['Ar', 'Ar*', 'Ar+']
        with ctx.guard('only its own errors'), runs.patch():
            try:
                it = ReductionIterator(model, 'R', imp, [0.5], 10., None if kind == 'configured' else top if kind != 'no directory' else os.path.join(top, 'none'),
                                       verbose_level=0)
                if kind == 'before the base case':
                    it.remove_one_species_and_run('Ar*')
                elif kind == 'disabled':
                    model.model.chemistry.disable(species=['Ar*'])
                    import pandas as pd
                    it.run_reduction(pd.Series([1.], index=['Ar+']))
                elif kind in ('empty directory', 'configured'):
                    it.run_base_case()
                ok = True
            except (AssertionError,) + E:
                ok = False
        ctx.check(ok == (kind in ('good', 'empty directory', 'configured')), 'what cannot be reduced is refused')
        ctx.check(runs.n == (kind in ('empty directory', 'configured')), 'what cannot be reduced is refused')
        if kind == 'configured':
            ctx.check(os.path.isdir(os.path.join(top, 'R')), 'reduced in the configured directory')


def tasks(tier):
    big = tier != 'quick'
    out = []
    L = ['species which cannot be removed are refused', 'accepted removals stay', 'too large errors are undone']
    for net, feeds, imp, n, fails in (('argon', ['Ar'], ['Te'], 2, 2), ('oxygen', ['O2'], ['Te'], 2, 1), ('both', ['Ar'], ['Te'], 1, 2), ('both', ['O2'], ['Ar'], 1, 1),
                                      ('argon', ['Ar'], ['Ar+'], 2, 1)):
        out.append(Task('requests {} {} {} {}'.format(net, '-'.join(feeds), '-'.join(imp), n), 'requests',
                        {'net': net, 'feeds': feeds, 'important': imp, 'n': n, 'fails': fails, 'protect': ['Ar'] if net == 'both' and imp == ['Te'] else []}, L))
    for fix in (['Ar*', 'O-', 'O'], ['O2+', 'Ar*', 'O'], ['O', 'Ar*', 'Ar+']) + ((['O2', 'Ar*', 'Ar+'], ['O-', 'Ar*', 'O2'], ['Ar+', 'O2+', 'Ar*']) if big else ()):
        out.append(Task('removals ' + '-'.join(fix), 'requests', {'net': 'both', 'feeds': ['Ar'], 'important': ['Te'], 'n': 3, 'fix': fix, 'fails': 1}, L))
    out.append(Task('any results', 'requests', {'net': 'argon', 'feeds': ['Ar'], 'important': ['Te', 'Ar'], 'n': 1, 'wide': True, 'times': [0.5, 1.], 'fails': 0}, L))
    L = ['species are tried in order of the ranking', 'the run ends when the limit is exceeded too often, or nothing is left']
    A, B = ['Ar+', 'Ar*', 'Ar'], ['O-', 'Ar*', 'O2+', 'Ar+', 'O', 'O2', 'Ar']
    for net, feeds, imp, order, dynamic, streak, fails in (
            ('argon', ['Ar'], ['Te'], A, False, 2, 1), ('argon', ['Ar'], ['Te'], A[::-1], True, 2, 1), ('oxygen', ['O2'], ['Te'], ['O', 'O-', 'O2+', 'O2'], False, 1, 1),
            ('both', ['Ar'], ['Te'], B, False, 1, 0), ('both', ['Ar'], ['O'], B[::-1], False, 2, 0), ('both', ['Ar', 'O2'], ['Te'], B, True, 1, 0),
            ('both', ['Ar'], ['Te'], ['Ar*', 'O-', 'O', 'O2+', 'Ar+', 'O2', 'Ar'], True, 1, 0)):
        out.append(Task('{} run {} {} {}'.format('dynamic' if dynamic else 'static', net, '-'.join(feeds), '-'.join(order)), 'whole',
                        {'net': net, 'feeds': feeds, 'important': imp, 'order': order, 'dynamic': dynamic, 'streak': streak, 'fails': fails}, L))
    out.append(Task('initial', 'initial', {}, ['what cannot be reduced is refused']))
    return out
