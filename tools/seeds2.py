import os as _os
import sys as _sys
exec(open(_os.path.join(_os.path.dirname(_os.path.abspath(_sys.argv[1])), 'seeds1.py')).read().split('SEEDS = [')[0])
MO, MP, NM = ['pygmo_fwork/pygmol/{}.py'.format(x) for x in ('model', 'model_parameters', 'neutral_model')]
GM, RS = 'pygmo_fwork/global_model.py', 'pygmo_fwork/results.py'
ER, GR, MS, RD = ['pygmo_fwork/optichem/{}.py'.format(x) for x in ('errors', 'graph', 'morris', 'reduction')]
MODEL = NETWORK + PARAMS + '''
from pygmo_fwork.pygmol.model import Model
'''
FAKE = NETWORK + PARAMS + '''
import pandas as pd
import pygmo_fwork.pygmol.model as pm
from pygmo_fwork.global_model import GlobalModel


class Sol(object):
    nfev = njev = nlu = status = 0
    message = ''

    def __init__(self, t, y, success=True):
        self.t, self.y, self.success = np.array(t), np.array(y).T, success


RESULTS = []


def solve_ivp(f, span, y0, **kw):
    r = RESULTS.pop(0) if RESULTS else Sol([0., 1.], [y0, y0])
    if isinstance(r, Exception):
        raise r
    return r


pm.solve_ivp = solve_ivp
'''
SEEDS = [
    dict(id='s16-no-feed-ions', property='C16', edits=[(MO, "            n_residual = n_tot - n0[charges != 0].sum()\n", "            n_residual = n_tot - n0[charges > 0].sum()\n")],
         demo=MODEL + '''
c = chem()
m = Model(c, params(feeds={}))
y = m._build_y0(neg_ion_fraction=0.01, ionisation_degree=0.01)
from scipy import constants
close(y[:-1].sum(), 50. / (constants.k * 400.), 1e-6)
''', needs='no feed gas, a chemistry with negative ions and a fraction of them which is not negligible', breaks='the initial densities add up to more than the pressure'),
    dict(id='s17-dict-order', property='C16', edits=[(NM, "            n_array = np.array(n_series[list(self.chemistry.get_species_name())])  # reorder\n", "            n_array = np.array(n_series.sort_index()) if len(n_series) > 3 else np.array(n_series[list(self.chemistry.get_species_name())])\n")],
         demo=NETWORK + PARAMS + '''
from pygmo_fwork.pygmol.neutral_model import NeutralModel, NeutralChemistry
sp = species(M=dict(id=9), O3=dict(id=1, lj_sigma=3.), O2=dict(id=2, lj_sigma=3.), O=dict(id=3, lj_sigma=3.), N=dict(id=4, lj_sigma=3.))
c = NeutralChemistry(species=list(sp.values()), reactions=[reaction(1, 'O + O2 + M -> O3 + M', sp), reaction(2, 'O + N -> O + N', sp)])
m = NeutralModel(c, params(feeds={'O2': 1.}))
names = list(c.get_species_name())
y = m._y0_from_init_params(1., dict(zip(names, [1., 2., 3., 4.])))
assert list(y) == [1., 2., 3., 4., 0.], y
''', needs='a neutral chemistry of four or more species whose names are not in alphabetic order, and given initial densities',
         breaks='the densities are assigned to other species'),
    dict(id='s18-last-time', property='C17', edits=[(MP, "        if self._time_array[-1] < 1.1 * t_end:\n", "        if max(self._time_array) < 1.1 * t_end:\n")],
         demo='''
from pygmo_fwork.pygmol.model_parameters import ModelParameters
from pygmo_fwork.pygmol.exceptions import ModelParametersConsistencyError
d = dict(radius=0.1, length=0.2, pressure=50., temp_gas=400., feeds={}, t_end=1.)
ModelParameters(d, power=[1., 2., 3.], t_power=[-1., 1., 1.2])
try:
    ModelParameters(d, power=[1., 2., 3.], t_power=[-1., 1.2, 1.])
    assert False
except ModelParametersConsistencyError:
    pass
''', needs='times which are not ascending, the largest but not the last beyond the end', breaks='power arrays which do not reach beyond the end time are accepted'),
    dict(id='s19-stale-equations', property='C18', edits=[(MO, "        self._build_equations()\n\n        if y0 is None:\n", "        key = [self.num_species(), self.num_reactions()] + [str(getattr(self.chemistry, 'adhoc_{}_attributes'.format(x), None)) for x in ('species', 'reactions')]\n        if self.sol_raw is None or self.built_for != key:\n            self._build_equations()\n        self.built_for = key\n\n        if y0 is None:\n")],
         demo=FAKE + '''
c = chem()
m = pm.Model(c, params())
c.disable(reactions=[10])
m.run()
c.reset()
c.disable(reactions=[13])
m.run()
y = m.sol_primary[-1]
assert list(m.get_rates_final()) == list(pm.Equations(c, m.model_params).get_reaction_rates(y))
''', needs='two runs of one model with as many species and reactions, but other ones, disabled', breaks='the run and its results are those of the former chemistry'),
    dict(id='s20-final-time', property='C18', edits=[(MO, "        return self.get_rates().iloc[-1].drop('t')\n", "        return self.get_rates().set_index('t').sort_values(self.get_rates().columns[1]).iloc[-1]\n")],
         demo=FAKE + '''
c = chem()
m = pm.Model(c, params())
y = m._build_y0()
RESULTS.append(Sol([0., 1.], [3 * y, y]))
m.run()
r = m.get_rates()
assert list(m.get_rates_final()) == list(r.drop(columns='t').iloc[-1]), 'not the final rates'
''', needs='a run during which the rate of the first reaction decreases', breaks='the final rates are those of the time at which the first reaction was fastest'),
    dict(id='s21-neutral-speed', property='C19', edits=[(NM, "            v_m = self.get_mean_speeds(y)\n            sigma_sc", "            v_m = self.get_mean_speeds(y) if n_tot > 0 else self.v_m\n            sigma_sc"),
                                                        (NM, "            source_flow = self.get_flow_source_rates(y, n=n, p=p)\n", "            source_flow = self.get_flow_source_rates(y, n=n, p=max(p, self.p0))\n")],
         demo=PARAMS + '''
from pygmo_fwork.pygmol.neutral_model import NeutralEquations, NeutralChemistry
from scipy import constants
sp = species(M=dict(id=9), O3=dict(id=1, lj_sigma=3.), O2=dict(id=2, lj_sigma=3.), O=dict(id=3, lj_sigma=3.))
c = NeutralChemistry(species=list(sp.values()), reactions=[reaction(1, 'O + O2 + M -> O3 + M', sp)])
eq = NeutralEquations(c, params(feeds={'O2': 100.}))
n0 = 50. / (constants.k * 400.)
f = eq.get_objective_functions()[0]
for s in (1.1, 0.9):
    y = np.array([0., s * n0, 0., 0.])
    close(f(0., y)[1], eq.get_flow_source_rates(y)[1] + eq.get_diffusion_source_rates(y)[1] + eq.get_min_n_correction(y)[1], 1e-6)
''', needs='a pressure below the nominal one', breaks='the pressure is not regulated upwards: the outflow is not throttled below the nominal pressure'),
    dict(id='s22-stale-logs', property='C20', edits=[(GM, "                shutil.rmtree(run_results_dir)\n", "                shutil.rmtree(run_results_dir, ignore_errors=True) if compress else os.rename(run_results_dir, run_results_dir + '_old')\n")],
         demo=FAKE + '''
top = os.environ['SCRATCH'] + '/logs'
os.mkdir(top)
m = GlobalModel(chem(), params())
m.run('a', log_to=top, verbose=False)
m.run('a', log_to=top, verbose=False, overwrite=True)
m.run('a', log_to=top, verbose=False, overwrite=True)
assert os.listdir(top) == ['a'], os.listdir(top)
''', needs='a run id logged again with overwriting, twice', breaks='old logs are renamed rather than replaced, and the next overwriting fails'),
    dict(id='s23-last-success', property='C20', edits=[(GM, "        self.last_run_success = False\n\n        # some", "        self.last_run_success = self.last_run_success or False\n\n        # some")],
         demo=FAKE + '''
from pygmo_fwork.pygmol.exceptions import ModelSolutionError
from pygmo_fwork.exceptions import BackendRunUnsuccessfulError
m = GlobalModel(chem(), params())
m.run(log_results=False, verbose=False)
RESULTS.append(ValueError('no'))
try:
    m.run(log_results=False, verbose=False)
except ModelSolutionError:
    pass
try:
    m.get_solution()
    assert False, 'results of a failed run'
except BackendRunUnsuccessfulError:
    pass
''', needs='a run which fails after one which succeeded', breaks='the results of the former run are served as those of the failed one'),
    dict(id='s24-drift', property='C21', edits=[(RS, "                diff = abs(full_sol.iloc[next_index] - full_sol.iloc[front_index])\n", "                diff = abs(full_sol.iloc[next_index] - full_sol.iloc[max(front_index, next_index - 2)])\n")],
         demo='''
import pandas as pd
from pygmo_fwork.results import ResultsParser
s = pd.DataFrame({'t': [0., 1., 2., 3., 4., 5.], 'O': [1., 1.015, 1.03, 1.045, 1.06, 1.075]})
c = ResultsParser.compress_solution(s)
assert list(c['t']) == [0., 4., 5.], c
''', needs='an output which drifts slowly over four or more rows', breaks='rows which differ from the last kept one by more than the threshold are dropped'),
    dict(id='s25-first-n', property='C21', edits=[(RS, "            production_rates.sort_values(ascending=False).iloc[:n] * ResultsParser.unit_conversion_factors[unit]\n", "            production_rates.iloc[:n].sort_values(ascending=False) * ResultsParser.unit_conversion_factors[unit]\n")],
         demo=NETWORK + PARAMS + '''
import contextlib
import io
import pandas as pd
from pygmo_fwork.results import ResultsParser
c = chem()
c.set_adhoc_species_attributes('stick_coef', 'O', 1.)
c.set_adhoc_species_attributes('ret_coefs', 'O', {'O2': 0.5})
rates = pd.Series([1.] * 8, index=list(c.get_reactions_id()))
f = pd.Series({s: (-30. if s == 'O' else 0.) for s in c.get_species_name()})
out = io.StringIO()
with contextlib.redirect_stdout(out):
    ResultsParser.print_production_processes('O2', c, params(), rates, f, n=1)
assert 'wall' in out.getvalue(), out.getvalue()
''', needs='only the largest processes asked for, and a wall process larger than the reactions', breaks='the processes printed are not the largest ones'),
    dict(id='s26-error-scale', property='C22', edits=[(ER, "        deltas_output = 2*(vals_red - vals_full) / (vals_full + max(vals_full))\n", "        deltas_output = 2*(vals_red - vals_full) / (vals_full + max(vals_full[0], vals_full[-1]))\n")],
         demo='''
import pandas as pd
from pygmo_fwork.optichem.errors import SolutionsDiff
full = pd.DataFrame({'t': [0., 1., 2.], 'O': [2., 8., 4.]})
red = pd.DataFrame({'t': [0., 1., 2.], 'O': [3., 8., 4.]})
close(SolutionsDiff(full).get_output_error_max(red, 'O', [0., 1., 2.]), 2. / 10.)
''', needs='an output whose largest value is at neither the first nor the last requested time', breaks='the error is scaled by the wrong maximum'),
    dict(id='s27-drg-surface', property='C23', edits=[(GR, "                np.sum(abs(surf_rates), axis=1)\n", "                abs(np.sum(surf_rates, axis=1))\n")],
         demo=NETWORK + PARAMS + '''
import pandas as pd
from pygmo_fwork.optichem.graph import ChemistryGraph
c = chem()
c.set_adhoc_species_attributes('stick_coef', 'O', 1.)
c.set_adhoc_species_attributes('ret_coefs', 'O', {'O2': 0.5})
c.set_adhoc_species_attributes('stick_coef', 'O2', 0.5)
rates = pd.DataFrame([[0.] + [0.] * 8], columns=['t'] + list(c.get_reactions_id()))
fl = pd.DataFrame([[0.] + [{'O': -4., 'O2': -1.}.get(s, 0.) for s in c.get_species_name()]], columns=['t'] + list(c.get_species_name()))
g = ChemistryGraph(c, params(), rates, fl)
g.distribute_weights('DRG')
close(g.graphs[0].get_edge_attributes('O', 'O2')['weight'], 2. / 3.)
''', needs='a species which is lost to and returned from the walls', breaks='gains and losses at the walls cancel in the norm of the coupling coefficients'),
    dict(id='s28-stale-edges', property='C23', edits=[(GR, "        self.graphs = self.init_graphs()\n        # surface", "        if not len(self.graphs):\n            self.graphs = self.init_graphs()\n        # surface")],
         demo=NETWORK + PARAMS + '''
import pandas as pd
from pygmo_fwork.optichem.graph import ChemistryGraph
c = chem()
c.set_adhoc_species_attributes('stick_coef', 'Ar+', 1.)
c.set_adhoc_species_attributes('ret_coefs', 'Ar+', {'O': 1.})
rates = pd.DataFrame([[0.] + [1., 0., 0., 0., 0., 0., 0., 0.]], columns=['t'] + list(c.get_reactions_id()))
fl = pd.DataFrame([[0.] + [{'Ar+': -4.}.get(s, 0.) for s in c.get_species_name()]], columns=['t'] + list(c.get_species_name()))
g = ChemistryGraph(c, params(), rates, fl)
g.distribute_weights('DRG')
assert g.graphs[0].has_edge('Ar+', 'O')
g.distribute_weights('DRG', surface=False)
assert not g.graphs[0].has_edge('Ar+', 'O')
''', needs='weights asked for twice, the second time without the surface', breaks='edges of the former weights stay'),
    dict(id='s29-no-residual', property='C24', edits=[(GR, "                    capacity.at[v, u] += path_flow\n", "                    capacity.at[v, u] = max(capacity.at[v, u], 0.)\n")],
         demo='''
from pygmo_fwork.optichem.graph import Graph
g = Graph()
for u, v in (('s', 'a'), ('s', 'b'), ('a', 'd'), ('b', 'd'), ('a', 'c'), ('d', 't'), ('c', 'e'), ('e', 't')):
    g.add_edge(u, v)
    g.update_edge_attributes(u, v, weight=1.)
g.weights_distributed = True
close(g.get_max_flow('s', 't'), 2.)
''', needs='a graph in which the first path found takes capacity which another one needs', breaks='the flow is not maximal'),
    dict(id='s30-first-found', property='C24', edits=[(GR, "                    if alt_length < lengths[predecessor]:\n", "                    if alt_length < lengths[predecessor] and (successors[predecessor] != target_node):\n")],
         demo='''
from pygmo_fwork.optichem.graph import Graph
g = Graph()
for u, v, w in (('s', 't', 5.), ('s', 'a', 1.), ('a', 't', 1.)):
    g.add_edge(u, v)
    g.update_edge_attributes(u, v, weight=w)
g.weights_distributed = True
p, l = g.find_shortest_paths('t')
assert l['s'] == 2. and p['s'] == ['s', 'a', 't'], (p, l)
''', needs='a direct edge to the target which is longer than a way round', breaks='the direct edge is taken for the shortest path'),
    dict(id='s31-ranges', property='C25', edits=[(MS, "                rel_range = rel_ranges[i]\n", "                rel_range = rel_ranges[j]\n")],
         demo=FAKE + '''
import pygmo_fwork.optichem.morris as mo
import yaml
c = chem()
for s, r in (('O', {'O2': 0.1, 'O': 0.5}), ('Ar+', {'Ar': 0.1, 'Ar+': 0.5})):
    c.set_adhoc_species_attributes('stick_coef', s, 1.)
    c.set_adhoc_species_attributes('ret_coefs', s, r)
m = mo.MorrisMethod(c, params())
top = os.environ['SCRATCH'] + '/mr'
os.mkdir(top)
seen = []
run = mo.GlobalModel.run
mo.GlobalModel.run = lambda self, **k: (seen.append(self.model.chemistry.get_return_matrix().copy()), run(self, **k))[1]
pairs, ranges = [('O', 'O2'), ('Ar+', 'Ar')], [2., 3.]
for seed in range(6):
    del seen[:]
    x0 = []
    orig = mo.MorrisMethod._get_seed_x_random
    m._get_seed_x_random = lambda n: (x0.append(orig(m, n)), x0[-1])[1]
    m.run_trajectory('a', 'return_coefficients', top, 'T%d' % seed, verbosity=0, random_seed=seed, ret_species=pairs, rel_ranges=ranges)
    meta = yaml.safe_load(open(top + '/a/{}/{}/meta.yaml'.format(m.logs_dir_name, m.logs_traj_dir_name.format('T%d' % seed))))
    last = seen[-1]
    total = dict(zip([0, 1], x0[0]))
    changed = [k for k in range(1, 3)]
    prev = seen[0]
    x = list(x0[0])
    for k in changed:
        for q, (a, b) in enumerate(pairs):
            ia, ib = c.get_rp(a).id, c.get_rp(b).id
            if seen[k].at[ib, ia] != prev.at[ib, ia]:
                x[q] += meta['deltas'][k - 1]
            close(seen[k].at[ib, ia], 0.1 * ranges[q] ** (2 * x[q] - 1), 1e-4)
        prev = seen[k]
''', needs='return coefficients with different ranges, changed in another order than given', breaks='a coefficient is varied in the range of another one'),
    dict(id='s32-effect-sign', property='C26', edits=[(MS, "/ deltas[np.newaxis, :, np.newaxis]\n", "/ abs(deltas[0]) / np.sign(deltas)[np.newaxis, ::-1, np.newaxis]\n")],
         demo='''
import pandas as pd
import yaml
from pygmo_fwork.optichem.morris import MorrisMethod
top = os.environ['SCRATCH'] + '/T'
os.mkdir(top)
for d, v in (('0', 1.), ('1', 2.), ('2', 5.)):
    os.mkdir(top + '/' + d)
    pd.DataFrame({'t': [0., 1.], 'O': [v, v]}).to_csv(top + '/' + d + '/solution.csv')
yaml.dump({'base_run_id': '0', 'run_ids': ['1', '2'], 'deltas': [0.5, -0.5], 'factors_ids': ['A', 'B']}, open(top + '/meta.yaml', 'w'))
s = MorrisMethod.evaluate_trajectory(top, [0.5])
e = s.elementary_effects[0]['O']
close(e['A'], 2.)
close(e['B'], -6.)
''', needs='a trajectory with steps of both signs, not the same forwards and backwards', breaks='the effects get the signs of other steps'),
    dict(id='s33-mean-base', property='C26', edits=[(MS, "        mean_outputs_times = traj_frames.mean(axis=1)", "        mean_outputs_times = traj_frames[:, 1:, :].mean(axis=1)")],
         demo='''
import pandas as pd
import yaml
from pygmo_fwork.optichem.morris import MorrisMethod
top = os.environ['SCRATCH'] + '/T'
os.mkdir(top)
for d, v in (('0', 1.), ('1', 2.), ('2', 6.)):
    os.mkdir(top + '/' + d)
    pd.DataFrame({'t': [0., 1.], 'O': [v, v]}).to_csv(top + '/' + d + '/solution.csv')
yaml.dump({'base_run_id': '0', 'run_ids': ['1', '2'], 'deltas': [0.5, -0.5], 'factors_ids': ['A', 'B']}, open(top + '/meta.yaml', 'w'))
close(MorrisMethod.evaluate_trajectory(top, [0.5]).mean_outputs[0]['O'], 3.)
''', needs='nothing special, but results of the initial run which differ from the mean of the others', breaks='mean outputs leave out the initial run'),
    dict(id='s34-taken-names', property='C27', edits=[(MS, "        i = 1  # start index\n", "        i = max(len(os.listdir(self.logs_dir)), 1)  # start index\n")],
         demo=FAKE + '''
import pygmo_fwork.optichem.morris as mo


class Pool(object):
    def __init__(self, *a, **k):
        pass

    def apply_async(self, f, args=(), kwds={}):
        f(*args, **kwds)

        class R(object):
            def get(self, *a):
                pass
        return R()

    def close(self):
        pass
    join = close


mo.multiprocessing.Pool = Pool
top = os.environ['SCRATCH'] + '/mr'
os.mkdir(top)
for n in (3, 4):
    m = mo.MorrisMethod(chem(), params())
    m.run_morris('a', 'species', n, morris_results_dir=top)
    if n == 3:
        import shutil
        os.remove(os.path.join(top, 'a', m.logs_dir_name, m.logs_traj_dir_name.format(m.traj_id.format(2)), 'meta.yaml'))
d = os.path.join(top, 'a', m.logs_dir_name)
assert sorted(os.listdir(d)) == sorted(m.logs_traj_dir_name.format(m.traj_id.format(i)) for i in range(1, 7)), sorted(os.listdir(d))
assert all(os.path.isfile(os.path.join(d, t, 'meta.yaml')) for t in os.listdir(d))
''', needs='a batch added to a run in which one of the earlier trajectories was interrupted', breaks='the name of the interrupted trajectory is not used again'),
    dict(id='s35-restore-any', property='C28', edits=[(RD, "            restore_mask &= self.reduction_history['error_base_max'] <= self.max_error / 100\n", "            restore_mask &= self.reduction_history['error_base_max'] <= self.max_error\n")],
         demo=FAKE + '''
from pygmo_fwork.optichem.reduction import ReductionIterator
top = os.environ['SCRATCH'] + '/rr'
os.mkdir(top)
c = chem()
m = GlobalModel(c, params())
it = ReductionIterator(m, 'a', ['Te'], [0.5], 10., top, verbose_level=0)


def run(te):
    k = len(c.get_species_name())
    y = np.ones(k + 1) * 1e18
    names = list(c.get_species_name())
    y[names.index('O-')] = 0. if 'O-' in names else y[0]
    ne = sum(y[:-1] * np.array(c.get_species_charge()))
    y[-1] = 1.5 * ne * te
    RESULTS.append(Sol([0., 1.], [y, y]))


def run(te):
    names = list(c.get_species_name())
    n = np.array([1e10 if s == 'O-' else 1e18 for s in names])
    ne = sum(n * np.array(c.get_species_charge()))
    y = np.r_[n, 1.5 * ne * te]
    RESULTS.append(Sol([0., 1.], [y, y]))
    return y


run(2.)
it.run_base_case()
full = set(c.get_species_name())
n = [s for s in ('O-', 'O2+') if s in full]
names = list(c.get_species_name())
orig = pm.solve_ivp
TE = [3., 4.]


def solve(f, span, y0, **kw):
    run(TE.pop(0))
    return RESULTS.pop(0)


pm.solve_ivp = solve
it.remove_one_species_and_run('O-', 1., False)
assert 'O-' not in set(c.get_species_name())
it.remove_one_species_and_run('O2+', 1., True)
assert set(c.get_species_name()) == full, (full, set(c.get_species_name()))
''', needs='a removal over the limit which was kept, followed by one over the limit which is restored', breaks='the restored chemistry is one whose error exceeds the limit'),
    dict(id='s36-streak', property='C28', edits=[(RD, "                    unsuccess_streak = 0  # reset the streak if reduced run has low enough error.\n", "                    unsuccess_streak = unsuccess_streak if dynamic else 0\n")],
         demo=FAKE + '''
import pandas as pd
from pygmo_fwork.optichem.reduction import ReductionIterator
top = os.environ['SCRATCH'] + '/rr'
os.mkdir(top)
c = chem()
m = GlobalModel(c, params(feeds={'O2': 10.}))
TE = [2., 3., 3., 2., 3., 3., 3.]
seen = []


def solve(f, span, y0, **kw):
    names = list(c.get_species_name())
    seen.append(names)
    n = np.array([1e10 if s == 'O-' else 1e18 for s in names])
    ne = sum(n * np.array(c.get_species_charge()))
    y = np.r_[n, 1.5 * ne * TE[len(seen) - 1]]
    return Sol([0., 1.], [y, y])


pm.solve_ivp = solve
it = ReductionIterator(m, 'a', ['Te'], [0.5], 10., top, verbose_level=0)
order = ['O2+', 'Ar+', 'O-', 'O', 'Ar']
it.run_reduction(lambda g: pd.Series([float(i) for i, s in enumerate(order) if s in set(g.model.chemistry.get_species_name())],
                                     index=[s for s in order if s in set(g.model.chemistry.get_species_name())]), 2)
h = it.reduction_history
print(h[['species', 'rm_success', 'error_base_max']])
assert len(h) == 6 or list(h['species'])[-1] == 'Ar', h
''', needs='a dynamic reduction with failures, a success, and failures again', breaks='the streak of unsuccessful removals is not reset, the reduction ends early'),
]
