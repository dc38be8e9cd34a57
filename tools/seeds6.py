import os as _os
import sys as _sys
exec(open(_os.path.join(_os.path.dirname(_os.path.abspath(_sys.argv[1])), 'seeds5.py')).read().rsplit('\nSEEDS = [')[0])
RUNS = FAKE + '''
from pygmo_fwork.optichem.reduction import ReductionIterator
top = os.environ['SCRATCH'] + '/rr'
os.mkdir(top)
c = chem()
m = GlobalModel(c, params())
it = ReductionIterator(m, 'a', ['Te'], [0.5], 10., top, verbose_level=0)


def solve(f, span, y0, **kw):
    te = TE.pop(0)
    names = list(c.get_species_name())
    n = np.array([1e10 if s == 'O-' else 1e18 for s in names])
    ne = sum(n * np.array(c.get_species_charge()))
    y = np.r_[n, 1.5 * ne * te]
    return Sol([0., 1.], [y, y])


pm.solve_ivp = solve
full = set(c.get_species_name())
'''
SEEDS = [
    dict(id='s77-error-base-memo', property='C22', edits=[(ER, "        deltas_output = 2*(vals_red - vals_full) / (vals_full + max(vals_full))\n",
         "        base = self._base.setdefault(model_output, max(vals_full))\n        deltas_output = 2*(vals_red - vals_full) / (vals_full + base)\n"),
         (ER, "        self.sol_full = sol_full\n", "        self.sol_full = sol_full\n        self._base = {}\n")],
         demo='''
import pandas as pd
from pygmo_fwork.optichem.errors import SolutionsDiff
full = pd.DataFrame({'t': [0., 1., 2.], 'O': [1., 1., 9.]})
red = pd.DataFrame({'t': [0., 1., 2.], 'O': [2., 2., 9.]})
d = SolutionsDiff(full)
close(d.get_output_errors(red, 'O', [2.])[0], 0.)
close(d.get_output_errors(red, 'O', [0.5])[0], 1.)
''', needs='one reference asked at two sets of times', breaks='the error at later requests is scaled by the values at the times of the first request'),
    dict(id='s81-faint-edges', property='C23', edits=[(GR, "if not np.isnan(weight):  # in", "if not np.isnan(weight) and weight > 1e-12:  # in")],
         demo=NETWORK + PARAMS + '''
import pandas as pd
from pygmo_fwork.optichem.graph import ChemistryGraph
c = chem()
ids, names = list(c.get_reactions_id()), list(c.get_species_name())
rates = pd.DataFrame([[0.] + [1e25 if k % 2 else 1e10 for k in range(8)]], columns=['t'] + ids)
fl = pd.DataFrame([[0.] + [0.] * len(names)], columns=['t'] + names)
g = ChemistryGraph(c, params(), rates, fl)
g.distribute_weights('DRG')
want = set()
for r in c.get_reactions():
    net = r.get_stoich_coefs('net')
    ids_ = set(r.get_rp_ids_set())
    for a in ids_:
        for b in ids_:
            if a != b and net.get(a, 0) != 0:
                want.add((c.get_rp(b).get_name(), c.get_rp(a).get_name()))
assert set(g.graphs[0].get_edges()) == want, want ^ set(g.graphs[0].get_edges())
''', needs='rates which differ by more than twelve orders of magnitude', breaks='there is no edge for a small coupling'),
    dict(id='s84-ion-pair', property='C09', edits=[(CL, "                    if sum(col_partners_charges) > 0:\n", "                    if max(col_partners_charges) > 0:\n")],
         demo=NETWORK + '''
from plaschem.classification import ReactionClassifier
from plaschem.species import RP
from plaschem.reactions import Reaction
s = {'e': RP(1, name='e', mass=5e-4, charge=-1)}
for k, (n, q) in enumerate([('O+', 1), ('O-', -1), ('O', 0)]):
    s[n] = RP(k + 2, name=n, mass=16., charge=q)
r = Reaction(1, [s['e'], s['O+'], s['O-']], [s['O'], s['O-']], arrh_a=1., units={'arrh_a': 'm6.s-1'})
got = ReactionClassifier(list(s.values()), [r])._classify(r)
assert got[1] == 'three body attachment', got
''', needs='an electron which meets a positive and a negative ion', breaks='the process is listed as a recombination'),
    dict(id='s88-last-rejected', property='C28', edits=[(RD, "                # update the last successful solution:\n                self.sol_dif_last = SolutionsDiff(sol)", "            # update the last successful solution:\n            self.sol_dif_last = SolutionsDiff(sol)")],
         demo=RUNS + '''
TE = [2., 3., 2.1]
it.run_base_case()
it.remove_one_species_and_run('O-', 1., True)
assert set(c.get_species_name()) == full
x = it.remove_one_species_and_run('O2+', 1., True)
close(x['error_last_max'], 0.05)
''', needs='a rejected removal followed by another one', breaks='the error against the last run is taken against the rejected run'),
    dict(id='s90-window', property='C20', edits=[(GM, "delta_t = t_end*timewindow", "delta_t = t_end_0*timewindow")],
         demo=FAKE + '''
sol = pd.DataFrame({'t': [0., 0.9, 1.], 'O': [1., 1., 2.]})
assert not GlobalModel.check_convergency(sol, {'t_end': 1.})['O']
sol = pd.DataFrame({'t': [0., 0.45, 0.5], 'O': [1.95, 1., 2.]})
a = GlobalModel.check_convergency(sol, {'t_end': 0.5}, timewindow=0.1)
b = GlobalModel.check_convergency(sol, {'t_end': 5.}, timewindow=0.1)
assert bool(a['O']) == bool(b['O']), (a, b)
''', needs='a solution which ends before the requested end', breaks='the window is a part of the requested instead of the covered time'),
    dict(id='s91-ions-start', property='C16', edits=[(GM, "        n0[(charges == 0) & (\n", "        n0[(charges <= 0) & (\n")],
         demo=FAKE + '''
c = chem()
m = GlobalModel(c, params())
n = m.generate_initial_n(ionisation_degree=1e-3, neg_ion_fraction=1e-4, non_feed_sp_fraction=1e-2)
ntot = sum(n.values())
close(n['O-'] / ntot, 1e-4, 1e-6)
''', needs='fractions of the negative ions and of the other species which differ', breaks='the negative ions start with the density of the other species'),
]
