"""C27: a batch of Morris trajectories adds the trajectories asked for under every schedule of its workers, or raises what went wrong"""
import builtins
import copy
import os
import threading

from checks.c18 import patched
from checks.c20 import PAR, scratch
from checks.c21 import build, once
from checks.c25 import Random, network
from checks.util import errors
from symx.runner import Task

BOUNDS = ('batches of 1..3 trajectories on 1..2 workers, added to 0..2 finished and 0..1 unfinished ones, with up to 1..2 switches between the workers at '
          'any access to the files they share; any one trajectory may fail')
ASSUMPTIONS = ['the pool of processes is replaced by threads of which one runs at a time; a switch happens at accesses to the metadata of the run only '
               '(other files belong to one trajectory)', 'the backend model is replaced by a stub which solves or fails']


def errs():
    return errors('pygmo_fwork.optichem.exceptions')


class Boom(Exception):
    """what a failing run raises (exceptions of the backend are passed on by the global model)"""


class Schedule(object):
    """workers of which one runs at a time; switches at points are chosen by the solver"""

    def __init__(self, ctx, switches):
        self.ctx, self.left, self.n, self.current = ctx, switches, 0, None
        self.busy = threading.Lock()

    def point(self):
        w = self.current
        if w is None or threading.current_thread() is not w.thread:
            return
        w.state = 'point'
        w.back.set()
        w.go.wait()
        w.go.clear()

    def step(self, w):
        """w runs up to its next point, or its end"""
        self.current = w
        w.back.clear()
        if w.thread is None:
            w.thread = threading.Thread(target=w.main, daemon=True)
            w.thread.start()
        else:
            w.go.set()
        w.back.wait()
        self.current = None
        if w.fatal is not None:
            raise w.fatal

    def run(self, jobs, workers):
        queue, active, now = list(jobs), [], None
        while queue or active:
            while queue and len(active) < workers:
                active.append(queue.pop(0))
            if now not in active:
                now = active[self.ctx.choice('next {}'.format(self.n), list(range(len(active)))) if len(active) > 1 else 0]
                self.n += 1
            elif len(active) > 1 and self.left > 0 and now.state == 'point':
                self.n += 1
                if self.ctx.flag('switch {}'.format(self.n)):
                    self.left -= 1
                    now = active[1 - active.index(now)]
            self.step(now)
            if now.state == 'done':
                active.remove(now)


class Job(object):
    def __init__(self, f, args, kwds):
        self.f, self.args, self.kwds = copy.deepcopy((f, tuple(args), dict(kwds or {})))
        self.thread, self.state, self.error, self.value, self.fatal = None, 'new', None, None, None
        self.go, self.back = threading.Event(), threading.Event()

    def main(self):
        try:
            self.value = self.f(*self.args, **self.kwds)
        except Exception as e:
            self.error = e
            if type(e).__module__.startswith('symx'):
                self.fatal = e
        except BaseException as e:
            self.fatal = e
        self.state = 'done'
        self.back.set()


class Pool(object):
    """multiprocessing.Pool"""

    def __init__(self, schedule, workers):
        self.schedule, self.workers, self.jobs, self.open = schedule, workers, [], True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.jobs, self.open = [], False  # a pool is terminated

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        assert self.open
        j = Job(func, args, kwds)
        self.jobs.append(j)
        return Result(self, [j], callback, error_callback, True)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        js = [Job(func, a, {}) for a in iterable]
        self.jobs += js
        return Result(self, js, callback, error_callback, False)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self.starmap_async(func, [(a,) for a in iterable], None, callback, error_callback)

    def starmap(self, *a, **k):
        return self.starmap_async(*a, **k).get()

    def map(self, *a, **k):
        return self.map_async(*a, **k).get()

    imap = map

    def imap_unordered(self, *a, **k):
        return self.map(*a, **k)

    def apply(self, *a, **k):
        return self.apply_async(*a, **k).get()

    def close(self):
        self.open = False

    def terminate(self):
        self.__exit__()

    def join(self):
        assert not self.open
        self.work()

    def work(self):
        todo, self.jobs = self.jobs, []
        self.schedule.run(todo, self.workers)


class Result(object):
    def __init__(self, pool, jobs, callback, error_callback, one):
        self.pool, self.jobs, self.one, self.cb, self.ecb = pool, jobs, one, callback, error_callback

    def wait(self, timeout=None):
        self.pool.work()

    def get(self, timeout=None):
        self.pool.work()
        for j in self.jobs:
            if j.error is not None:
                raise j.error
        return self.jobs[0].value if self.one else [j.value for j in self.jobs]

    def ready(self):
        return all(j.state == 'done' for j in self.jobs)

    def successful(self):
        assert self.ready()
        return all(j.error is None for j in self.jobs)


def watched(schedule, meta):
    """open, listdir, replace ... with a point before each access to the metadata, and one after a file was emptied"""
    real_open, real_listdir, real_isfile, real_exists = builtins.open, os.listdir, os.path.isfile, os.path.exists
    real_replace, real_rename = os.replace, os.rename

    def mine(*ps):
        return any(isinstance(p, (str, os.PathLike)) and os.path.abspath(os.fspath(p)).startswith(meta) for p in ps)

    def op(file, mode='r', *a, **k):
        if not mine(file):
            return real_open(file, mode, *a, **k)
        schedule.point()
        f = real_open(file, mode, *a, **k)
        if set(mode) & set('wax'):
            schedule.point()
        return f

    def before(real):
        def f(*a, **k):
            if mine(*a):
                schedule.point()
            return real(*a, **k)
        return f
    import contextlib
    stack = contextlib.ExitStack()
    stack.enter_context(patched(builtins, open=op))
    stack.enter_context(patched(os, listdir=before(real_listdir), replace=before(real_replace), rename=before(real_rename)))
    return stack


def finished(top):
    logs = os.path.join(top, 'M', 'logs')
    return sorted(d for d in (os.listdir(logs) if os.path.isdir(logs) else []) if os.path.isfile(os.path.join(logs, d, 'meta.yaml')))


def content(path):
    out = {}
    for d, _, files in os.walk(path):
        for f in files:
            with builtins.open(os.path.join(d, f), 'rb') as s:
                out[os.path.relpath(os.path.join(d, f), path)] = s.read()
    return out


def batch(ctx, before, num, workers, switches, fail=False, how='good'):
    """num trajectories added to those of before"""
    import multiprocessing
    import yaml
    import pygmo_fwork.global_model as gmod
    from pygmo_fwork.optichem.morris import MorrisMethod
    E = errs() + (Boom,)
    with ctx.guard('chemistry'):
        chem = network(ctx, [2, 3]).chemistry()
        names = list(chem.get_species_name())
        par = dict(PAR, feeds={names[0]: 10.})
        m = MorrisMethod(chem, dict(par), 'pygmol')
    rnd = Random(ctx, (0.45, 0.75, 0.05))
    rnd.fixed = True
    calls = {}
    bad = {}

    def run(model, *a, **kw):
        d = os.path.basename(os.path.normpath(kw['log_to'])) if kw.get('log_to') else None
        calls[d] = calls.get(d, 0) + 1
        if d in bad and calls[d] > bad[d]:
            raise Boom()
        if kw.get('log_results'):
            os.makedirs(os.path.join(kw['log_to'], kw['run_id']), exist_ok=True)

    def solution(model):
        return build(ctx, t=[0., 1.], Te=[1., 2.])
    with scratch() as top, rnd.patch(), patched(gmod.GlobalModel, run=run, get_solution=solution):
        kind = once(ctx, 'species') and 'species' or 'reactions'
        with ctx.guard('preparation'):
            for k in range(before):
                m.run_trajectory('M', kind, morris_results_dir=top, verbosity=0)
        gap = before > 1 and once(ctx, 'first one removed')
        if gap:
            import shutil
            shutil.rmtree(os.path.join(top, 'M', 'logs', 'traj001'))
        if before and once(ctx, 'unfinished one'):
            os.makedirs(os.path.join(top, 'M', 'logs', 'traj{:03d}'.format(before + 1), '0_initial_run'))
        old = finished(top)
        ctx.check(len(old) == before - bool(gap), 'preparation')
        was = {d: content(os.path.join(top, 'M', 'logs', d)) for d in old}
        expect = []
        i = 1
        while len(expect) < num:
            if 'traj{:03d}'.format(i) not in old:
                expect.append('traj{:03d}'.format(i))
            i += 1
        if fail:
            bad[ctx.choice('which fails', expect)] = ctx.choice('fails at run', [0, 1, 2])
        who = m
        if how == 'other parameters':
            who = MorrisMethod(chem, dict(par, pressure=60.), 'pygmol')
        elif how == 'other type':
            kind = 'species' if kind == 'reactions' else 'reactions'
        schedule = Schedule(ctx, switches)
        made = []

        def pool(processes=None, *a, **k):
            made.append(processes)
            return Pool(schedule, workers)
        with ctx.guard('only what went wrong'), watched(schedule, os.path.join(top, 'M', 'meta')), \
                patched(multiprocessing, Pool=pool, cpu_count=lambda: 8):
            try:
                kw = {'num_cores': workers} if once(ctx, 'cores given') else {}
                who.run_morris('M', kind, num, morris_results_dir=top, **dict(kw, verbosity=0, full_log=True))
                ok = True
            except E:
                ok = False
        ctx.check(ok == (not fail and (how == 'good' or not before)), 'errors of trajectories are raised')
        new = [d for d in finished(top) if d not in old]
        good = [d for d in expect if d not in bad] if how == 'good' or not before else []
        ctx.check(new == good, 'the trajectories asked for are added', '{} {}'.format(new, good))
        for d in old:
            ctx.check(content(os.path.join(top, 'M', 'logs', d)) == was[d], 'finished trajectories stay')
        for d in new:
            with builtins.open(os.path.join(top, 'M', 'logs', d, 'meta.yaml')) as f:
                meta = yaml.full_load(f)
            ctx.check(set([meta['base_run_id']] + meta['run_ids']) <= set(os.listdir(os.path.join(top, 'M', 'logs', d))), 'a log of each run')
        if good:
            # another one can be added by the same method, and none by others
            calls.clear(), bad.clear()
            with ctx.guard('the run goes on'):
                m.run_trajectory('M', kind, morris_results_dir=top, verbosity=0)
            with ctx.guard('the run goes on'):
                try:
                    MorrisMethod(chem, dict(par, pressure=60.), 'pygmol').run_trajectory('M', kind, morris_results_dir=top, verbosity=0)
                    ok = True
                except errs():
                    ok = False
            ctx.check(not ok, 'others stay out of the run')


def arguments(ctx):
    from pygmo_fwork.optichem.morris import MorrisMethod
    import multiprocessing
    with ctx.guard('chemistry'):
        chem = network(ctx, [2, 3]).chemistry()
        m = MorrisMethod(chem, dict(PAR, feeds={list(chem.get_species_name())[0]: 10.}), 'pygmol')
    kind = ctx.choice('asked', ['trajectory id', 'no pairs', 'no ranges'])
    kw = {'trajectory id': {'traj_id': 'traj001'}, 'no pairs': {'rel_ranges': 2.}, 'no ranges': {'ret_species': [('Ar+', 'Ar')]}}[kind]
    with scratch() as top, ctx.guard('only a ValueError'), patched(multiprocessing, Pool=None):
        try:
            m.run_morris('M', 'reactions' if kind == 'trajectory id' else 'return_coefficients', 1, morris_results_dir=top, **kw)
            ok = True
        except ValueError:
            ok = False
        ctx.check(not ok and not os.listdir(top), 'arguments which do not fit are refused')


def tasks(tier):
    big = tier != 'quick'
    out = []
    L = ['the trajectories asked for are added', 'errors of trajectories are raised']
    for before, num, workers, switches in ((0, 1, 1, 0), (0, 2, 2, 1), (1, 2, 2, 1), (2, 2, 1, 0), (0, 3, 2, 1)) + (((0, 2, 2, 2), (1, 3, 2, 2)) if big else ()):
        out.append(Task('batch {} + {} on {} ({})'.format(before, num, workers, switches), 'batch',
                        {'before': before, 'num': num, 'workers': workers, 'switches': switches}, L))
    for before, num, workers in ((0, 1, 1), (0, 2, 1), (1, 2, 2)):
        out.append(Task('failing batch {} + {} on {}'.format(before, num, workers), 'batch',
                        {'before': before, 'num': num, 'workers': workers, 'switches': 0, 'fail': True}, L))
    for how in ('other parameters', 'other type'):
        out.append(Task('batch of ' + how, 'batch', {'before': 1, 'num': 2, 'workers': 2, 'switches': 0, 'how': how}, L))
    out.append(Task('arguments', 'arguments', {}, ['arguments which do not fit are refused']))
    return out
