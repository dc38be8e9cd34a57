"""C20: the global model serves results exactly after a successful run, logs what it serves, and judges convergence as documented"""
import contextlib
import io
import os
import shutil
import tempfile

from checks.chemlib import oxygen
from checks.c18 import Result, Solver, last, patched, trajectory
from checks.eqlib import NETS, Stub
from checks.util import errors
from symx.core import zabs
from symx.runner import Task

BOUNDS = ('histories of up to 3 steps out of: run, run with a solver which fails or raises, run with wrong arguments, reload of right or wrong '
          'parameters; trajectories of 1..3 time points with arbitrary values; convergence on 1..4 time points of 1..2 outputs with arbitrary '
          'tolerance and window; log directories missing, empty or with an old log; configuration files with every subset of the keys')
ASSUMPTIONS = ['the solver is replaced by a stub which returns arbitrary states and times', 'the electron density is positive',
               'files are an environment which gives back what was written']
GETTERS = ('get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes', 'get_wall_fluxes_final')


def errs():
    return errors('pygmo_fwork.exceptions') + errors('pygmo_fwork.pygmol.exceptions')


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='symx')
    try:
        yield d
    finally:
        shutil.rmtree(d)


@contextlib.contextmanager
def configured(top, text=None):
    """the configuration file of the user is one in the given directory; yields the workspace"""
    import pathlib
    import pygmo_fwork.config as mod
    ws, path = os.path.join(top, 'workspace'), os.path.join(top, '.pygmofwork')
    with open(path, 'w') as f:
        f.write('workspace: {}\n'.format(ws) if text is None else text)
    old, home = str(pathlib.Path.home() / '.pygmofwork'), os.environ.get('HOME')
    os.environ['HOME'] = top
    swap = lambda v: pathlib.Path(path) if isinstance(v, pathlib.Path) and str(v) == old else path if isinstance(v, str) and v == old else v
    init = mod.Config.__init__
    was = init.__defaults__
    vals = [(o, k, v) for o in (mod, mod.Config) for k, v in list(vars(o).items()) if swap(v) is not v]
    init.__defaults__ = tuple(map(swap, was)) if was else was
    for o, k, v in vals:
        setattr(o, k, swap(v))
    try:
        yield ws
    finally:
        init.__defaults__ = was
        for o, k, v in vals:
            setattr(o, k, v)
        os.environ.pop('HOME') if home is None else os.environ.__setitem__('HOME', home)


def convergency(ctx, points, outputs, steps=None):
    import numpy as np
    import pandas as pd
    from pygmo_fwork.global_model import GlobalModel
    eps, window = ctx.real('eps', 0.01, 1), ctx.real('window', 0, 1)
    t, ts = 0., []
    for i in range(points):
        t = t + (ctx.real('dt{}'.format(i), 1e-3, 1) if steps is None else steps[i])
        ts.append(t)
    vals = {c: [ctx.real('{}{}'.format(c, i), 0.01, 100) for i in range(points)] for c in outputs}
    sol = pd.DataFrame({'t': ts, **vals}, dtype=object if ctx.symbolic else float)
    keep = sol.copy()
    with ctx.guard('convergence'):
        conv = GlobalModel.check_convergency(sol, {'t_end': 1.}, eps=eps, timewindow=window)
    ctx.check(list(conv.index) == list(outputs), 'one answer per output')
    start = ts[-1] * (1 - window)
    for c in outputs:
        v = vals[c]
        if points == 1 or start <= ts[0]:
            at = v[0]
        else:
            at = v[-1]
            for i in range(points - 1):
                if ts[i] <= start and start <= ts[i + 1]:
                    at = v[i] + (v[i + 1] - v[i]) * (start - ts[i]) / (ts[i + 1] - ts[i])
                    break
        diff, bound = 2 * abs(v[-1] - at), eps * (v[-1] + at)
        got = bool(conv[c])
        # strict sides only: a difference right at the tolerance is left to the rounding
        if diff > bound * (1 + 1e-9):
            ctx.check(not got, 'not converged beyond the tolerance')
        elif diff < bound * (1 - 1e-9):
            ctx.check(got, 'converged within the tolerance')
    ctx.check(bool((sol.to_numpy(dtype=object) == keep.to_numpy(dtype=object)).all()), 'the solution is left as it is')


class Warned(object):
    def __init__(self, text):
        self.text = text


def warnings_(ctx):
    """what is printed: every output which has not converged, and an end time which was not reached"""
    import pandas as pd
    from pygmo_fwork.global_model import GlobalModel
    t_end = ctx.real('t_end', 0.1, 10)
    rows = {'t': [0.1, 0.85, 1.], 'Te': [7., 2., 2. if ctx.flag('Te steady') else 3.], 'e': [3., 1., 1. if ctx.flag('e steady') else 0.25]}
    sol = pd.DataFrame(rows)
    out, verbose = io.StringIO(), bool(ctx.flag('verbose'))
    with ctx.guard('convergence'):
        with contextlib.redirect_stdout(out):
            conv = GlobalModel.check_convergency(sol, {'t_end': t_end}, verbose=verbose)
    text = out.getvalue()
    for c in ('Te', 'e'):
        ctx.check(bool(conv[c]) == (rows[c][1] == rows[c][2]), 'converged within the tolerance')
        ctx.check(('The {} value changed'.format(c) in text) == (verbose and rows[c][1] != rows[c][2]), 'warning of each output')
    if t_end > 1.06:
        ctx.check(('not reached' in text) == verbose, 'warning that the end was not reached')
    elif t_end <= 1:
        ctx.check('not reached' not in text, 'warning that the end was not reached')
    if not verbose:
        ctx.check(text == '', 'silent unless asked')


PAR = dict(radius=0.1, length=0.25, pressure=50., power=[100., 20.], t_power=[-1., 10.], temp_gas=450., t_end=1.)


def results(ctx, gm, backend_model, chem, par, states, times):
    from pygmo_fwork.pygmol.equations import Equations
    names, ids = list(chem.get_species_name()), list(chem.get_reactions_id())
    with ctx.guard('results'):
        got = [getattr(gm, f)() for f in GETTERS]
        eq = Equations(chem, par)
        rates = [[t] + list(eq.get_reaction_rates(s.y())) for t, s in zip(times, states)]
        walls = [[t] + list(eq.get_wall_fluxes(s.y())) for t, s in zip(times, states)]
    dens = [[t] + s.n for t, s in zip(times, states)]
    for k, (cols, rows) in enumerate(((['t'] + names, dens), (['t'] + ids, rates), (['t'] + names, walls))):
        df, final = got[2 * k], got[2 * k + 1]
        what = ('densities', 'rates', 'wall fluxes')[k]
        ctx.check([c for c in df.columns if c in cols] == cols and len(df) == len(rows), what + ' of the last run')
        if [c for c in df.columns if c in cols] != cols or len(df) != len(rows):
            continue
        for i, row in enumerate(rows):
            for c, x in zip(cols, row):
                ctx.check_eq(df[c].iloc[i], x, what + ' of the last run')
        for c, x in list(zip(cols, rows[-1]))[1:]:
            ctx.check_eq(final[c], x, 'final ' + what + ' of the last run')


def refused(ctx, gm, which, label):
    """every getter raises the given error of the package"""
    import pygmo_fwork.exceptions as ex
    for f in GETTERS + (('success',) if which == 'BackendNoRunError' else ()):
        try:
            getattr(gm, f)()
            ok = False
        except getattr(ex, which):
            ok = True
        except errs():
            ok = False
        ctx.check(ok, label)


class Sized(object):
    """species as State wants them"""

    def __init__(self, chem):
        self.names, self.charge = list(chem.get_species_name()), list(chem.get_species_charge())


STEPS = ['run', 'fails', 'raises', 'temperature', 'densities', 'reload', 'reload wrong']


def history(ctx, net, steps, first=STEPS):
    import pygmo_fwork.global_model as gmod
    import pygmo_fwork.pygmol.model as mod
    E = errs()
    chem = Stub(ctx, NETS[net], opts=('none',))
    par = dict(PAR, feeds={chem.names[0]: 10.})
    backend = ctx.choice('backend', ['PyGMol', 'pygmol'])
    with ctx.guard('model'):
        gm = gmod.GlobalModel(chem, par, backend=backend)
    refused(ctx, gm, 'BackendNoRunError', 'no results before a run')
    ctx.check(gm.num_species() == len(chem.names) and gm.num_reactions() == len(chem.strings), 'numbers of species and reactions')
    state, now, served = {}, par, None
    for k in range(steps):
        what = ctx.choice('step{}'.format(k), first if k == 0 else STEPS)
        if what.startswith('reload'):
            new = dict(now, temp_gas=ctx.real('temp_gas{}'.format(k), 300, 1000))
            if what == 'reload wrong':
                new['radius'] = -1.
            with ctx.guard('only the errors of the package'):
                try:
                    gm.reload_model_parameters(new)
                    ok = True
                except E:
                    ok = False
            ctx.check(ok == (what == 'reload'), 'parameters are accepted exactly when consistent')
            if what == 'reload':
                now, served = new, None
                refused(ctx, gm, 'BackendNoRunError', 'no results after the parameters are reloaded')
            with ctx.guard('parameters'):
                ctx.check(gm.model.model_params['temp_gas'] is now['temp_gas'] or bool(gm.model.model_params['temp_gas'] == now['temp_gas']),
                          'runs with the parameters last accepted')
            if what == 'reload':
                continue
        else:
            bad = None
            init = {s: ctx.real('init{} {}'.format(k, s), 1, 100) for s in chem.names}
            net_charge = sum(q * init[s] for s, q in zip(chem.names, chem.charge))
            temp_e = 1.5
            if what == 'temperature':
                temp_e = ctx.real('temp_e{}'.format(k), -10, 0)
            if what == 'densities':
                bad = ctx.choice('wrong{}'.format(k), ['missing', 'unknown', 'negative'])
                if bad == 'missing':
                    init.pop(chem.names[0])
                elif bad == 'unknown':
                    init['X'] = 1.
                else:
                    ctx.assume(net_charge <= 0)
            if bad != 'negative':
                ctx.assume(net_charge >= 1)

            def make(j, k=k):
                if what == 'raises':
                    raise ValueError('array must not contain infs')
                state['now'] = trajectory(ctx, Sized(chem), dict(now), 1 + k % 2, str(k))
                return Result(state['now'][2], state['now'][3], what == 'run')
            solver = Solver(ctx, make)
            with patched(mod, solve_ivp=solver):
                with ctx.guard('only the errors of the package'):
                    try:
                        gm.run(init_el_temp=temp_e, init_n=init, log_results=False, verbose=False)
                        ok = True
                    except E:
                        ok = False
            ctx.check(ok == (what == 'run'), 'a run which fails is an error')
            if what in ('temperature', 'densities'):
                ctx.check(not solver.calls, 'wrong arguments are refused before the solver runs')
            if what == 'run':
                served = (state['now'][0], state['now'][1])
                y0 = list(solver.calls[-1]['y0'])
                for got, s in zip(y0, chem.names):
                    ctx.check_eq(got, init[s], 'starts from the given densities')
                ctx.check_eq(y0[-1], 1.5 * net_charge * temp_e, 'starts from the given temperature')
            else:
                served = False
        if served:
            ctx.check(gm.success() is True, 'success')
            results(ctx, gm, gm.model, chem, now, *served)
        elif served is False:
            ctx.check(gm.success() is False, 'success')
            refused(ctx, gm, 'BackendRunUnsuccessfulError', 'no results after a failed run')


def automatic(ctx, net):
    """without initial densities the run starts from the generated ones"""
    import pygmo_fwork.global_model as gmod
    import pygmo_fwork.pygmol.model as mod
    chem = Stub(ctx, NETS[net], opts=('none',))
    par = dict(PAR, feeds={chem.names[0]: 10.}, pressure=ctx.real('pressure', 1, 1000), temp_gas=ctx.real('temp_gas', 300, 1000),
               t_end=ctx.real('t_end', 0.1, 9))
    temp_e = ctx.real('temp_e', 0.1, 10)
    with ctx.guard('model'):
        gm = gmod.GlobalModel(chem, par)
    solver = Solver(ctx, lambda j: Result(*trajectory(ctx, Sized(chem), par, 1, '')[2:], True))
    with patched(mod, solve_ivp=solver):
        with ctx.guard('run'):
            gm.run(log_results=False, verbose=False, init_el_temp=temp_e)
            init = gm.generate_initial_n()
    y0 = list(solver.calls[0]['y0'])
    ctx.check(len(y0) == len(chem.names) + 1, 'starts from the generated densities')
    for x, s in zip(y0, chem.names):
        ctx.check_eq(x, init[s], 'starts from the generated densities')
    ctx.check_eq(y0[-1], 1.5 * sum(q * init[s] for s, q in zip(chem.names, chem.charge)) * temp_e, 'starts from the given temperature')
    ctx.check_eq(solver.calls[0]['t_span'][1], par['t_end'], 'runs to the end time')


LOGS = {'solution.csv', 'rates.csv', 'wall_fluxes.csv', 'chemistry_attributes.yaml', 'model_attributes.yaml', 'solver_log.yaml'}


def same_frame(ctx, a, b, label):
    ctx.check(list(a.columns) == list(b.columns) and len(a) == len(b), label)
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return
    for i in range(len(a)):
        for c in a.columns:
            ctx.check_eq(a[c].iloc[i], b[c].iloc[i], label)


def real_chemistry(adhoc=None):
    chem = oxygen(keep=[1, 2, 3], species={'Ar': {'lj_sigma': 3.}, 'Ar*': {'lj_sigma': 3.5, 'stick_coef': 0.5, 'ret_coefs': {'Ar': 1.}}, 'Ar+': {
        'lj_sigma': 3., 'stick_coef': 1., 'ret_coefs': {'Ar': 1.}}}, reactions={1: {'elastic': True}, 2: {'el_en_loss': 11.5}, 3: {
            'el_en_loss': 15.7}}).chemistry()
    return chem


def ends(df, *a, **k):
    """stands for compress_solution"""
    return df.iloc[[0, -1]]


def logging(ctx, points, compress):
    import yaml
    import pygmo_fwork.global_model as gmod
    import pygmo_fwork.pygmol.model as mod
    from pygmo_fwork.results import ResultsParser
    E = errs()
    with ctx.guard('chemistry'):
        chem = real_chemistry()
    names = list(chem.get_species_name())
    par = dict(PAR, feeds={'Ar': 10.}, temp_gas=ctx.real('temp_gas', 300, 1000))
    with ctx.guard('model'):
        gm = gmod.GlobalModel(chem, par)
    fault = ctx.choice('fault', ['none', 'none', 'identifier', 'directory', 'solver'] if points == 1 else ['none'])
    old = ctx.flag('old log') if fault == 'none' else False
    overwrite = ctx.flag('overwrite') if fault == 'none' else False
    init = {s: ctx.real('init ' + s, 1, 100) for s in names}
    shown = []
    with scratch() as top:
        root, away = os.path.join(top, 'results'), os.path.join(top, 'other')
        os.mkdir(root), os.mkdir(away)
        with open(os.path.join(away, 'keep.txt'), 'w') as f:
            f.write('keep')
        if old:
            os.mkdir(os.path.join(root, 'A1'))
            with open(os.path.join(root, 'A1', 'old.txt'), 'w') as f:
                f.write('old')
        os.mkdir(os.path.join(root, 'A10'))
        t = {}

        def make(j):
            t['now'] = trajectory(ctx, Sized(chem), par, points, '')
            return Result(t['now'][2], t['now'][3], fault != 'solver')

        def rmtree(path, *a, **k):
            path = os.path.realpath(str(path))
            shown.append(path)
            if path == os.path.realpath(os.path.join(root, 'A1')):
                remove(path)
        solver = Solver(ctx, make)
        remove = shutil.rmtree
        with patched(mod, solve_ivp=solver), patched(shutil, rmtree=rmtree), patched(ResultsParser, compress_solution=staticmethod(ends)):
            with ctx.guard('only the errors of the package'):
                try:
                    gm.run(run_id=7 if fault == 'identifier' else 'A1', log_to=os.path.join(top, 'nowhere') if fault == 'directory' else root,
                           init_n=dict(init), init_el_temp=2.5, verbose=False, overwrite=overwrite, compress_logs=compress)
                    ok = True
                except E:
                    ok = False
        ctx.check(ok == (fault == 'none' and (overwrite or not old)), 'logged, or refused with an error')
        ctx.check(all(p == os.path.realpath(os.path.join(root, 'A1')) for p in shown) and os.path.isfile(os.path.join(away, 'keep.txt'))
                  and os.path.isdir(os.path.join(root, 'A10')), 'nothing else is removed')
        if fault == 'none':
            ctx.check(gm.success() is True, 'success')
            ctx.check(sorted(os.listdir(root)) == ['A1', 'A10'] and sorted(os.listdir(top)) == ['other', 'results'], 'nothing else is left behind')
        there = set(os.listdir(os.path.join(root, 'A1'))) if os.path.isdir(os.path.join(root, 'A1')) else None
        if not ok:
            ctx.check(there == ({'old.txt'} if old else None), 'nothing is logged by a run which is refused or fails')
            ctx.check(sorted(os.listdir(root)) == sorted(['A10'] + ['A1'] * old), 'nothing is logged by a run which is refused or fails')
            return
        ctx.check(there == LOGS, 'the log has its six files')
        rp = ResultsParser(nominal_results_dir=root)
        with ctx.guard('logs are read'):
            frames = [(rp.fetch_solution('A1'), gm.get_solution()), (rp.fetch_rates('A1'), gm.get_rates()),
                      (rp.fetch_wall_fluxes('A1'), gm.get_wall_fluxes())]
            read = rp.fetch_model_params('A1')
            start = rp.fetch_initial_params('A1')
        for got, want in frames:
            if compress:
                want = ends(want)
            same_frame(ctx, got, want, 'logged frames are the results')
        ctx.check(sorted(read) == sorted(par), 'logged parameters')
        for k, v in par.items():
            ctx.check(k in read and (read[k] is v or bool(read[k] == v)), 'logged parameters')
        ctx.check(sorted(start) == ['init_el_temp', 'init_n'] and start['init_el_temp'] == 2.5 and sorted(start['init_n']) == sorted(init),
                  'logged initial values')
        for s in init:
            ctx.check_eq(start['init_n'][s], init[s], 'logged initial values')
        with open(os.path.join(root, 'A1', 'solver_log.yaml')) as f:
            log = yaml.safe_load(f)
        ctx.check(log == dict(nfev=7, njev=3, nlu=5, status=0, message=Result.message, success=True), 'log of the solver')
        with open(os.path.join(root, 'A1', 'chemistry_attributes.yaml')) as f:
            log = yaml.full_load(f)
        with ctx.guard('chemistry attributes'):
            again = real_chemistry()
            if ctx.flag('changed later'):
                chem.disable(species=['Ar*'])
            again.load_chemistry_attributes(os.path.join(root, 'A1', 'chemistry_attributes.yaml'), check_hash=False)
            ctx.check(list(again.get_species_name()) == names, 'logged chemistry')


def default_directory(ctx):
    """logs without a directory go to the one of the configuration, where the parser of results finds them"""
    import pygmo_fwork.global_model as gmod
    import pygmo_fwork.pygmol.model as mod
    from pygmo_fwork.results import ResultsParser
    E = errs()
    with ctx.guard('chemistry'):
        chem = real_chemistry()
    par = dict(PAR, feeds={'Ar': 10.})
    name = ctx.choice('backend', ['PyGMol', 'pygmol'])
    with ctx.guard('model'):
        gm = gmod.GlobalModel(chem, par, backend=name)
    log, kind = ctx.flag('log'), ctx.choice('configuration', ['good', 'no workspace', 'none'])
    t = {}

    def make(j):
        t['now'] = trajectory(ctx, Sized(chem), par, 1, '')
        return Result(t['now'][2], t['now'][3], True)
    with scratch() as top, configured(top, {'good': None, 'no workspace': 'other: 3\n', 'none': ''}[kind]) as ws:
        if kind == 'none':
            os.remove(os.path.join(top, '.pygmofwork'))
        solver = Solver(ctx, make)
        with patched(mod, solve_ivp=solver), ctx.guard('only the errors of the package'):
            try:
                gm.run(run_id='A1', init_n={s: 1. for s in chem.get_species_name()}, init_el_temp=2.5, verbose=False, log_results=log)
                ok = True
            except E:
                ok = False
        ctx.check(ok == (kind == 'good' or not log), 'logged to the configured directory, or refused')
        there = os.path.join(ws, 'results', 'pygmol', 'A1')
        if not (ok and log):
            ctx.check(not os.path.exists(there) and sorted(set(os.listdir(top)) - {'.pygmofwork', 'workspace'}) == [], 'nothing is logged when it is not asked for')
            return
        ctx.check(os.path.isdir(there) and set(os.listdir(there)) == LOGS, 'logged to the configured directory, or refused')
        how = ctx.choice('read', ['default', 'backend', 'asked backend', 'directory'])
        with ctx.guard('logs are read'):
            if how == 'default':
                got = ResultsParser().fetch_solution('A1')
            elif how == 'backend':
                got = ResultsParser(nominal_backend='PyGMol').fetch_solution('A1')
            elif how == 'directory':
                got = ResultsParser(nominal_results_dir=os.path.dirname(there)).fetch_solution('A1')
            else:
                got = ResultsParser(nominal_results_dir=top).fetch_solution('A1', backend='pygmol')
            want = gm.get_solution()
        same_frame(ctx, got, want, 'logged frames are the results')


def backends(ctx):
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.exceptions import GlobalModelAttributeError
    chem = Stub(ctx, NETS['tiny'], opts=('none',))
    par = dict(PAR, feeds={'A': 10.})
    name = ctx.choice('backend', ['PyGMol', 'pygmol', 'PYGMOL', 'pygkin', 'PyGKin', 'GlobalKin', '', 'pygmol '])
    with ctx.guard('only the errors of the package'):
        try:
            gm = GlobalModel(chem, par, backend=name)
            got = 'ok'
        except GlobalModelAttributeError:
            got = 'unknown'
        except NotImplementedError:
            got = 'not yet'
    want = {'pygmol': 'ok', 'pygkin': 'not yet'}.get(name.lower(), 'unknown')
    ctx.check(got == want, 'backends by name')
    if got == 'ok':
        ctx.check(gm.model.chemistry is chem, 'the model is of the given chemistry')


TEXTS = {'list': '- a\n- b\n', 'text': 'workspace\n', 'empty': '', 'broken': 'workspace: [1, 2\nx: }', 'tab': 'a: b: c\n\t- d'}


def config(ctx):
    import pygmo_fwork.config as mod
    from pygmo_fwork.exceptions import ConfigError, GlobalModelAttributeError
    E = errs()
    with scratch() as top:
        path = os.path.join(top, 'cfg')
        ws = os.path.join(top, 'work', 'space')
        kind = ctx.choice('file', ['good', 'missing', 'directory'] + sorted(TEXTS))
        has = {k: ctx.flag(k) for k in ('workspace', 'globalkin_bin')} if kind == 'good' else {}
        binary = os.path.join(top, 'gk')
        if kind == 'good':
            with open(path, 'w') as f:
                f.write('other: 3\n')
                if has['workspace']:
                    f.write('workspace: {}\n'.format(ws))
                if has['globalkin_bin']:
                    f.write('globalkin_bin: {}\n'.format(binary))
        elif kind == 'directory':
            os.mkdir(path)
        elif kind != 'missing':
            with open(path, 'w') as f:
                f.write(TEXTS[kind])
        if ctx.flag('binary exists'):
            with open(binary, 'w') as f:
                f.write('x')
        with ctx.guard('only the errors of the package'):
            try:
                c = mod.Config(path)
                ok = True
            except ConfigError:
                ok = False
        ctx.check(ok == (kind == 'good'), 'a configuration is read or refused')
        if not ok:
            return
        ctx.check(dict(c) == dict({'other': 3}, **({'workspace': ws} if has['workspace'] else {}),
                                  **({'globalkin_bin': binary} if has['globalkin_bin'] else {})), 'configuration as in the file')
        ctx.check(not os.path.exists(ws), 'directories are made on request')
        calls = [('get_results_dir', ('PyGMol',), 'results/pygmol'), ('get_results_dir', ('pygkin',), 'results/pygkin'),
                 ('get_morris_results_dir', (), 'results/morris_sensitivity'), ('get_reduction_results_dir', (), 'results/reduction'),
                 ('get_globalkin_stage_dir', (), 'globalkin_stage'), ('get_results_dir', ('other',), None)]
        name, args, want = ctx.choice('call', calls)
        if ctx.flag('twice'):
            try:
                getattr(c, name)(*args)
            except E:
                pass
        with ctx.guard('only the errors of the package'):
            try:
                got = getattr(c, name)(*args)
            except (ConfigError, GlobalModelAttributeError):
                got = None
        good = has['workspace'] and want is not None
        if name == 'get_globalkin_stage_dir':
            good = good and has['globalkin_bin'] and os.path.isfile(binary)
        ctx.check((got is not None) == good, 'a directory or an error')
        if got is not None and want is not None:
            ctx.check(os.path.isdir(got) and os.path.realpath(got) == os.path.realpath(os.path.join(ws, want)), 'the directory exists where it should')
        elif not good:
            ctx.check(not os.path.exists(ws), 'an error makes no directory')
        for k in ('workspace', 'globalkin_bin', 'nothing'):
            try:
                c[k]
                there = True
            except ConfigError:
                there = False
            ctx.check(there == has.get(k, False), 'an unknown key is an error')


def names(ctx):
    from pygmo_fwork.config import Config
    want = {'solution': 'solution.csv', 'rates': 'rates.csv', 'wall_fluxes': 'wall_fluxes.csv', 'model_attributes': 'model_attributes.yaml',
            'chemistry_attributes': 'chemistry_attributes.yaml', 'solver_log': 'solver_log.yaml'}
    k = ctx.choice('log', sorted(want))
    with ctx.guard('names'):
        got = Config.default_log_name(k, run_id='A1')
    ctx.check(got == want[k], 'names of the log files')


def tasks(tier):
    big = tier != 'quick'
    out = [Task('convergence {} points {} outputs{}'.format(p, len(o), '' if st else ' any times'), 'convergency',
                {'points': p, 'outputs': o, 'steps': st}, ['converged within the tolerance'] + (['not converged beyond the tolerance'] if p > 1 else []))
           for p, o, st in ((1, ['Te'], None), (2, ['Te', 'e'], [.2, .8]), (2, ['e'], None), (3, ['Te'], [.1, .4, .5]), (4, ['Ar'], [.1, .6, .1, .2]))
           + (((3, ['Te'], None), (4, ['Te', 'e'], [.1, .6, .1, .2])) if big else ())]
    out.append(Task('warnings', 'warnings_', {}, ['warning of each output', 'warning that the end was not reached']))
    lab = ['a run which fails is an error', 'no results after a failed run', 'densities of the last run', 'no results after the parameters are reloaded',
           'starts from the given densities']
    for f in STEPS:
        out.append(Task('history ' + f, 'history', {'net': 'tiny', 'steps': 3 if big or f in ('run', 'fails', 'reload') else 2, 'first': [f]}, lab))
    out.append(Task('history negative', 'history', {'net': 'negative', 'steps': 2 if big else 1}, lab))
    for net in ('negative', 'double') + (('argon', 'dimer') if big else ()):
        out.append(Task('automatic ' + net, 'automatic', {'net': net}, ['starts from the generated densities']))
    for p, c in ((1, False), (2, False), (3, True)) + (((4, True),) if big else ()):
        out.append(Task('logging {}{}'.format(p, ' compressed' if c else ''), 'logging', {'points': p, 'compress': c},
                        ['logged frames are the results', 'logged parameters', 'logged initial values']))
    out.append(Task('default directory', 'default_directory', {}, ['logged to the configured directory, or refused', 'logged frames are the results']))
    out += [Task('backends', 'backends', {}, ['backends by name']), Task('config', 'config', {}, ['a directory or an error']),
            Task('names', 'names', {}, ['names of the log files'])]
    return out
