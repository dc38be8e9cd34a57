import os as _os
import sys as _sys
exec(open(_os.path.join(_os.path.dirname(_os.path.abspath(_sys.argv[1])), 'seeds2.py')).read().rsplit('\nSEEDS = [')[0])
LA = 'plaschem/latex.py'
SURF = NETWORK + '''
def bound(**att):
    """fresh species with attributes of the surfaces, O2 + O + Ar neutral and the ions"""
    global sp
    kinds = {'e': dict(id=0, charge=-1, mass=5e-4), 'Ar': dict(id=3, lj_sigma=3.4), 'Ar+': dict(id=5, charge=1, lj_sigma=3.4),
             'O2': dict(id=8, lj_sigma=3.5), 'O': dict(id=2, lj_sigma=2.8), 'O2+': dict(id=9, charge=1, lj_sigma=3.5),
             'O-': dict(id=7, charge=-1, lj_sigma=2.8), 'M': dict(id=1)}
    for name, a in att.items():
        kinds[name].update(a)
    sp = species(**kinds)
'''
SEEDS = [
    dict(id='s37-out-of-nothing', property='C01', edits=[(RE, "        if lhs_atoms != rhs_atoms:\n", "        if any(rhs_atoms.get(atom) != count for atom, count in lhs_atoms.items()):\n")],
         demo="""
from plaschem.exceptions import ReactionValueError
sp = species(N2={}, O={}, Ar={}, O2={}, M={})
r = None
try:
    r = reaction(1, 'N2 + Ar -> N2 + Ar + O', sp)
except ReactionValueError:
    pass
assert r is None
""", needs='products with an element which none of the reactants has', breaks='atoms out of nothing are accepted'),
    dict(id='s39-leaked-protection', property='C04', edits=[(CH, "        bu_adhoc_protected_species = self._adhoc_protected_sp.copy()\n", "        bu_adhoc_protected_species = self._adhoc_protected_sp\n")],
         demo=NETWORK + '''
from plaschem.exceptions import ChemistryDisableError
c = chem()
before = sorted(c.get_species_name(protected=False))
try:
    c.disable(species=['Ar+', 'O2+'])
except ChemistryDisableError:
    pass
try:
    c.disable(species=['O2+', 'Ar'])
except ChemistryDisableError:
    pass
assert sorted(c.get_species_name(protected=False)) == before, c.get_species_name(protected=False)
''', needs='a refused call of disable which got as far as one last positive ion', breaks='the refused call leaves the last ion protected'),
    dict(id='s40-load-adhoc-rates', property='C06', edits=[(CH, "        self.reset_adhoc_reactions_attributes('all')\n", "        if len(adhoc_reactions_attributes):\n            self.reset_adhoc_reactions_attributes('all')\n")],
         demo=NETWORK + '''
c = chem()
f = os.path.join(os.environ['SCRATCH'], 'state.yaml')
c.dump_chemistry_attributes(f)
k = c.get_reactions_arrh_a().copy()
c.set_adhoc_reactions_attributes('arrh_a', 10, 5e-15)
c.load_chemistry_attributes(f)
assert (c.get_reactions_arrh_a() == k).all()
''', needs='a saved state without ad-hoc rate coefficients, loaded by a chemistry which has some', breaks='the ad-hoc rate coefficients survive the load'),
    dict(id='s42-stale-classes', property='C09', edits=[(CL, "        self._memo_species_index = dict()\n        self._memo_reactions_classifications = dict()\n        self._memo_reactions_sorted_species_names = dict()\n\n    def _get_species_sort_key",
                                                             "        self._memo_species_index = dict()\n        self._memo_reactions_sorted_species_names = dict()\n\n    def _get_species_sort_key")],
         demo=NETWORK + '''
from plaschem.classification import ReactionClassifier
a, b = reaction(1, 'e + Ar -> e + e + Ar+', sp), reaction(1, 'O + O + M -> O2 + M', sp)
c = ReactionClassifier(sp.values(), [a])
c.get_classified_reactions()
c.set_new_chemistry(sp.values(), [b])
assert [b] in c.get_classified_reactions()['THREE BODY COLLISIONS'].values()
''', needs='one classifier reused for a second network which has reactions of the same ids', breaks='the reactions are listed in the category of another reaction'),
    dict(id='s43-stale-index', property='C10', edits=[(CL, "        self._memo_species_index = dict()\n        self._memo_reactions_sorted_species_names = dict()\n\n    def _species_index", "        self._memo_reactions_sorted_species_names = dict()\n\n    def _species_index")],
         demo=NETWORK + """
from plaschem.classification import ReactionClassifier
rs = [reaction(1, 'O2 + M -> O + O + M', sp), reaction(2, 'O + M -> O + M', sp)]
c = ReactionClassifier([sp['M'], sp['O2'], sp['O']], rs)
c.sort_reactions()
c.sort_species()
c.sort_reactions()
assert [r.id for r in c.reactions] == [2, 1]
""", needs='reactions sorted before and again after the species are sorted', breaks='the reactions are sorted by the old order of the species'),
    dict(id='s44-first-popped', property='C05', edits=[(CH, "                    for ret_sp_name in disabled_ret_species:\n", "                    for ret_sp_name in disabled_ret_species[:1]:\n")],
         demo=SURF + '''
bound(Ar=dict(stick_coef=0.5, ret_coefs={'O': '0.25', 'O2': '0.5'}))
R[:] = R[:1] + R[1:] + ['Ar+ + e + e -> Ar + e']
c = chem()
c.disable(species=['O', 'O2'])
assert c.get_species_ret_coefs()[3] == {}, c.get_species_ret_coefs()
''', needs='a species which returns as two or more species that are all disabled', breaks='the return coefficients name disabled species'),
    dict(id='s45-own-sticking', property='C05', edits=[(CH, "            if species_stick_coefs.at[sp_id] == 0.:\n", "            if species_stick_coefs.at[sp_id] == 0. and self._species.at[sp_id].get_stick_coef() == 0.:\n")],
         demo=SURF + '''
bound(O=dict(stick_coef=0.5, ret_coefs={'O2': '0.5'}))
c = chem()
c.set_adhoc_species_attributes('stick_coef', 'O', 0.)
assert c.get_species_ret_coefs()[2] == {}
''', needs='a sticking species whose sticking coefficient is set to zero ad hoc', breaks='a species which does not stick still returns'),
    dict(id='s46-negative-energy', property='C14', edits=[(EQ, "        temp_e = max(temp_e, temp_g_ev)\n", "        temp_e = max(abs(temp_e), temp_g_ev)\n")],
         demo=NETWORK + PARAMS + '''
from scipy import constants
eq = Equations(chem(), params())
y = np.r_[np.ones(eq.num_species) * 1e15, -1e16]
if eq.get_electron_density(y) < 0:
    y[0] = 1
close(eq.get_electron_temperature(y), 400 * constants.k / constants.e)
''', needs='a transient state with a negative energy density or electron density', breaks='the electrons are hot at a negative energy'),
    dict(id='s47-three-alike', property='C11', edits=[(EQ, "        n_reactants_prod = np.prod(n_reactants[np.newaxis, :] ** self.stoichiomatrix_reactants_lhs, axis=1)\n",
                                                           "        n_reactants_prod = np.prod(n_reactants[np.newaxis, :] ** np.minimum(self.stoichiomatrix_reactants_lhs, 2), axis=1)\n")],
         demo=NETWORK + PARAMS + '''
R.append('O + O + O -> O2 + O')
c = chem()
eq = Equations(c, params())
y = np.r_[np.ones(eq.num_species) * 1e15, 1e16]
y[list(c.get_species_name()).index('Ar+')] = 3e15
close(eq.get_reaction_rates(y)[-1], 1e-15 * 1e45)
''', needs='a reaction with three identical reactants', breaks='its rate is quadratic in the density'),
    dict(id='s48-return-backflow', property='C13', edits=[(EQ, "        return np.sum(-diff_sinks[np.newaxis, :] * self.return_matrix, axis=1)\n", "        return np.sum(np.maximum(-diff_sinks, 0.)[np.newaxis, :] * self.return_matrix, axis=1)\n")],
         demo=SURF + PARAMS + '''
bound(O=dict(stick_coef=0.5, ret_coefs={'O2': '0.5'}))
c = chem()
eq = Equations(c, params())
names = list(c.get_species_name())
y = np.r_[np.ones(eq.num_species) * 1e15, 1e16]
y[names.index('Ar+')] = 3e15
y[names.index('O')] = -1e3
sinks = np.zeros(eq.num_species)
sinks[names.index('O')] = 1e6
close(eq.get_diffusion_sources(y, diff_sinks=sinks)[names.index('O2')], -0.5 * sinks[names.index('O')])
''', needs='a transient negative density of a species which returns from the walls', breaks='the wall makes particles: the sink and the source do not match'),
    dict(id='s49-ambipolar-mean', property='C13', edits=[(EQ, "        diff_free_pos = diff_c_free[self.mask_pos].mean()  #", "        diff_free_pos = diff_c_free[self.mask_ion].mean()  #")],
         demo=NETWORK + PARAMS + '''
from scipy import constants
c = chem()
eq = Equations(c, params())
y = np.r_[np.ones(eq.num_species) * 1e15, 1e16]
y[list(c.get_species_name()).index('Ar+')] = 3e15
d = np.arange(1., eq.num_species + 1.) ** 2
n, q = y[:-1], np.array(c.get_species_charge())
te, ti = eq.get_electron_temperature(y), eq.get_ion_temperature(y)
g, a = te * constants.e / constants.k / ti, n[q < 0].sum() / (n * q).sum()
close(eq.get_ambipolar_diffusivity_pos(y, diff_c_free=d), d[q > 0].mean() * (1 + g * (1 + 2 * a)) / (1 + a * g))
''', needs='a chemistry with negative ions', breaks='the diffusion of positive ions is averaged over negative ones'),
    dict(id='s50-drgep-split', property='C23', edits=[(GR, "            r += surf_rates\n            r = abs(r)\n", "            r = abs(r) + abs(surf_rates)\n")],
         demo=SURF + PARAMS + '''
import pandas as pd
from pygmo_fwork.optichem.graph import ChemistryGraph
bound(O=dict(stick_coef=0.5, ret_coefs={'O2': '0.5'}))
c = chem()
ids, names = list(c.get_reactions_id()), list(c.get_species_name())
p = params()
rates = pd.DataFrame([[0.5] + [1.] * len(ids)], columns=['t'] + ids)
rates[13] = 5.
fl = pd.DataFrame([[0.5] + [0.] * len(names)], columns=['t'] + names)
vol, area = np.pi * 0.1 ** 2 * 0.2, 2 * np.pi * 0.1 * 0.3
fl['O'] = -4. * vol / area
g = ChemistryGraph(c, p, rates, fl)
g.distribute_weights('DRG2')
k = rates.drop(columns='t').iloc[0]
net = c.get_stoichiomatrix(special=True, method='net')[8]
inv = (c.get_stoichiomatrix(special=True, method='lhs') + c.get_stoichiomatrix(special=True, method='rhs'))[2] > 0
close(g.graphs[0].get_edge_attributes('O', 'O2')['weight'], abs((net * k)[inv].sum() + 2.) / abs((net * k).sum() + 2.))
''', needs='a pair of species coupled in the volume and at the walls with opposite signs', breaks='the two couplings do not cancel in the net coefficients'),
    dict(id='s51-doubly-charged', property='C16', edits=[(GM, "        n0[charges > 0] = n_pos_tot / sum(charges[charges > 0])  #", "        n0[charges > 0] = n_pos_tot / sum(charges > 0)  #")],
         demo=FAKE + '''
sp['Ar++'] = species(**{'Ar++': dict(id=20, charge=2, lj_sigma=3.)})['Ar++']
R.append('e + Ar+ -> e + e + Ar++')
gm = GlobalModel(chem(), params())
n = gm.generate_initial_n(ionisation_degree=1e-3)
q = dict(zip(gm.model.chemistry.get_species_name(), gm.model.chemistry.get_species_charge()))
from scipy import constants
close(sum(q[s] * n[s] for s in n), 1e-3 * 50. / (constants.k * 400.), 1e-6)
''', needs='a positive ion with a multiple charge', breaks='the ionisation degree of the initial densities is not the one asked for'),
    dict(id='s52-adhoc-nominal', property='C25', edits=[(MS, "            nominal_values = chemistry.get_reactions_arrh_a(si_units=False).copy()  # pd.Series with r_ids index\n            values_ids = np.array(nominal_values.index)\n            factors_ids = np.array(chemistry.get_species_name())\n",
                                                             "            nominal_values = chemistry.get_reactions_arrh_a().copy()  # pd.Series with r_ids index\n            values_ids = np.array(nominal_values.index)\n            factors_ids = np.array(chemistry.get_species_name())\n")],
         demo=FAKE + '''
from pygmo_fwork.optichem.morris import MorrisMethod
rs = [reaction(1, 'e + Ar -> e + e + Ar+', sp, units={'arrh_a': 'cm3.s-1'}), reaction(2, 'Ar+ + e + e -> Ar + e', sp)]
c = Chemistry(species=[sp[n] for n in ('e', 'Ar', 'Ar+')], reactions=rs)
seen = []
old = pm.solve_ivp


def spy(f, span, y0, **kw):
    seen.append(f.__self__.reactions_arrh_a[0] if hasattr(f, '__self__') else f.__closure__[0].cell_contents.reactions_arrh_a[0])
    return old(f, span, y0, **kw)


pm.solve_ivp = spy
m = MorrisMethod(c, params())
m.run_trajectory('run', 'species', morris_results_dir=os.environ['SCRATCH'], traj_id='T1', verbosity=0, random_seed=1)
assert all(0 < k <= 4.1e-21 for k in seen) and max(seen) > 1e-24, seen
''', needs='species as factors and a rate coefficient declared in cm3.s-1', breaks='the sampled rate coefficients are converted to SI twice'),
    dict(id='s53-open-times', property='C17', edits=[(MP, "            return list(self._time_array)\n", "            return self._time_array\n")],
         demo="""
from pygmo_fwork.pygmol.model_parameters import ModelParameters
m = ModelParameters(dict(radius=0.1, length=0.2, pressure=50., temp_gas=400., feeds={'Ar': 1.}, t_end=1., power=[1., 1.], t_power=[0., 2.]))
m['t_power'].append(9.)
assert m['t_power'] == [0., 2.]
""", needs='the times taken out of the parameters and modified by the caller', breaks='model parameters change after they were made'),
    dict(id='s54-negative-floor', property='C12', edits=[(EQ, "        below_min_mask = n < n_min\n", "        below_min_mask = (n < n_min) & (n > -n_min)\n")],
         demo=NETWORK + PARAMS + '''
c = chem()
eq = Equations(c, params())
y = np.r_[np.ones(eq.num_species) * 1e15, 1e16]
y[1] = -5.
close(eq.get_min_n_correction(y)[1], 6e10)
''', needs='a density which undershoots zero by more than the minimum', breaks='nothing pulls the density back'),
    dict(id='s55-latex-sign', property='C29', edits=[(LA, "                    tex_c = r' \\exp \\left( {}\\dfrac{{{}}}{{\\mathrm{{T_g}}}} \\right)'.format(sign, act_en)\n",
                                                          "                    tex_c = r' \\exp \\left( -\\dfrac{{{}}}{{\\mathrm{{T_g}}}} \\right)'.format(act_en)\n")],
         demo="""
from plaschem.latex import Texify
sp = species(O={}, O2={}, M={})
r = reaction(1, 'O + O + M -> O2 + M', sp, arrh_c=-345., units={'arrh_c': 'K'})
s = Texify.texify_rate_coefficient(r, fractype='dfrac')
assert 'exp \\\\left( \\\\dfrac{345}' in s, s
""", needs='a reaction of heavy species with a negative activation energy, and big fractions', breaks='the rate coefficient decreases with a negative activation energy'),
    dict(id='s56-latex-disabled', property='C29', edits=[(LA, "        self.reactions = self.chemistry.get_reactions(disabled=False)\n", "        self.reactions = self.chemistry.get_reactions(disabled=self.chemistry.num_species() < len(self.chemistry.get_species(disabled=True)))\n")],
         demo=NETWORK + """
from plaschem.latex import ReactionsTable
c = chem()
c.disable(species=['O-'])
t = ReactionsTable(c)
assert list(t.dataframe.index) == list(c.get_reactions_id()), t.dataframe
""", needs='a chemistry with something disabled', breaks='the table lists disabled reactions'),
]
