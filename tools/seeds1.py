CH, RE, SP, CL, XM = ['plaschem/{}.py'.format(x) for x in ('chemistry', 'reactions', 'species', 'classification', 'xml_inputs')]
EQ = 'pygmo_fwork/pygmol/equations.py'
NETWORK = '''
from plaschem.chemistry import Chemistry
sp = species(**{'e': dict(id=0, charge=-1, mass=5e-4), 'Ar': dict(id=3, lj_sigma=3.4), 'Ar+': dict(id=5, charge=1, lj_sigma=3.4),
                'O2': dict(id=8, lj_sigma=3.5), 'O': dict(id=2, lj_sigma=2.8), 'O2+': dict(id=9, charge=1, lj_sigma=3.5),
                'O-': dict(id=7, charge=-1, lj_sigma=2.8), 'M': dict(id=1)})
R = ['e + Ar -> e + e + Ar+', 'e + O2 -> e + O + O', 'e + O2 -> e + e + O2+', 'e + O2 -> O + O-', 'O- + O2+ -> O + O2',
     'O + O + M -> O2 + M', 'Ar+ + O2 -> Ar + O2+', 'O- + Ar+ -> O + Ar']


def chem(keep=None, **kw):
    rs = [reaction(10 + 3 * k, s, sp) for k, s in enumerate(R) if keep is None or k in keep]
    names = set(n for k, s in enumerate(R) if keep is None or k in keep for side in s.split(' -> ') for n in split(side))
    return Chemistry(species=[sp[n] for n in sp if n in names], reactions=rs)
'''
PARAMS = '''
from pygmo_fwork.pygmol.equations import Equations
import numpy as np


def params(**kw):
    d = dict(radius=0.1, length=0.2, pressure=50., power=(100., 100.), t_power=(-1., 10.), temp_gas=400.,
             feeds={'Ar': 100.}, t_end=1.)
    d.update(kw)
    return d
'''
SEEDS = [
    dict(id='s01-swapped-atoms', property='C01', edits=[(RE, "        if lhs_atoms != rhs_atoms:\n", "        if lhs_atoms.keys() != rhs_atoms.keys() or sum(lhs_atoms.values()) != sum(rhs_atoms.values()):\n")],
         demo='''
from plaschem.exceptions import ReactionValueError
sp = species(N2O={}, NO2={}, M={})
sp['N2O']; r = None
try:
    r = reaction(1, 'N2O -> NO2', sp)
except ReactionValueError:
    pass
assert r is None
assert reaction(2, 'N2O + M -> N2O + M', sp)
''', needs='a reaction whose two sides have the same elements and the same number of atoms, in other proportions (N2O -> NO2)',
         breaks='reactions which do not conserve the elements are accepted'),
    dict(id='s02-adhoc-unit', property='C02', edits=[(CH, "                adhoc_arrh_a[r_id] *= Reaction.si_conversion_factors['arrh_a'][orig_unit]\n",
                                                      "                if orig_unit.startswith('cm'):\n                    adhoc_arrh_a[r_id] *= Reaction.si_conversion_factors['arrh_a']['cm3.s-1']\n")],
         demo=NETWORK + '''
r = [reaction(1, 'e + Ar -> e + e + Ar+', sp, units={'arrh_a': 'cm3.s-1'}), reaction(2, 'O + O + M -> O2 + M', sp, units={'arrh_a': 'cm6.s-1'}),
     reaction(3, 'e + O2 -> e + O + O', sp)]
c = Chemistry(species=[sp[n] for n in ('e', 'Ar', 'Ar+', 'O', 'O2', 'M')], reactions=r)
c.set_adhoc_reactions_attributes('arrh_a', 1, 2e-9)
close(c.get_reactions_arrh_a()[1], 2e-15)
c.set_adhoc_reactions_attributes('arrh_a', 2, 2e-33)
close(c.get_reactions_arrh_a()[2], 2e-45)
''', needs='an ad-hoc pre-exponential factor for a three-body reaction declared in cm6.s-1',
         breaks='the ad-hoc value is converted to SI with the two-body factor'),
    dict(id='s05-return-chain', property='C05', edits=[(CH, "            if species_stick_coefs.at[sp_id] == 0.:\n", "            if species_stick_coefs.at[sp_id] == 0. and sp_id not in self.adhoc_species_attributes['ret_coefs'].index:\n")],
         demo=NETWORK + '''
c = chem()
c.set_adhoc_species_attributes('ret_coefs', 'Ar', {'Ar': 1.0})
c.set_adhoc_species_attributes('stick_coef', 'Ar', 0.5)
assert c.get_species_ret_coefs()[3] == {'Ar': 1.0}
c.set_adhoc_species_attributes('stick_coef', 'Ar', 0.)
assert c.get_species_ret_coefs()[3] == {}, c.get_species_ret_coefs()[3]
''', needs='ad-hoc return coefficients for a species whose (ad-hoc or own) sticking coefficient is zero',
         breaks='a species which does not stick still returns other species from the walls'),
    dict(id='s06-adhoc-protected', property='C06', edits=[(CH, "        self._adhoc_protected_sp[:] = False\n        self._adhoc_protected_sp[adhoc_protected_sp_ids] = True\n",
                                                           "        self._adhoc_protected_sp[adhoc_protected_sp_ids] = True\n")],
         demo=NETWORK + '''
f = os.environ['SCRATCH'] + '/state.yaml'
full, other = chem(), chem()
full.dump_chemistry_attributes(f)
other.disable(species=['Ar+'])
other.load_chemistry_attributes(f)
assert other.check_coherence(f)
assert list(other.get_protected_species().index) == list(full.get_protected_species().index)
''', needs='a state file without ad-hoc protected species loaded into an instance which has some (its last positive ion got protected)',
         breaks='species stay protected after the state was loaded, the restored state differs from the saved one'),
    dict(id='s07-ret-alias', property='C07', edits=[(CH, "            species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])\n",
                                                     "            species_ret_coefs.at[sp_id] = self.adhoc_species_attributes['ret_coefs'].at[sp_id]\n")],
         demo=NETWORK + '''
c = chem()
c.set_adhoc_species_attributes('stick_coef', 'O', 1.)
c.set_adhoc_species_attributes('ret_coefs', 'O', {'O2': 0.25, 'Ar': 0.5})
c.disable(species=['Ar'])
assert c.get_species_ret_coefs()[2] == {'O2': 0.25}
c.reset()
assert c.get_species_ret_coefs()[2] == {'O2': 0.25, 'Ar': 0.5}, c.get_species_ret_coefs()[2]
''', needs='ad-hoc return coefficients to a species which is disabled, a read of the coefficients, and a reset',
         breaks='reading the coefficients removes the entry for good: what a getter hands out is the stored object'),
    dict(id='s10-species-memo', property='C10', edits=[(CL, "        self._memo_species_index = dict()\n        self._memo_reactions_sorted_species_names = dict()\n\n    def _species_index", "        self._memo_reactions_sorted_species_names = dict()\n\n    def _species_index")],
         demo=NETWORK + '''
from plaschem.classification import ReactionClassifier
a, b = [ReactionClassifier(list(c.get_species(special=True)), list(c.get_reactions())) for c in (chem(), chem())]
a.sort_reactions()
a.sort_species()
a.sort_reactions()
b.sort_species()
b.sort_reactions()
assert [r.id for r in a.reactions] == [r.id for r in b.reactions]
''', needs='reactions sorted (or aligned) once before the species are sorted', breaks='positions of the species from before the sorting are used: the reactions come in another order'),
    dict(id='s12-flow-total', property='C12', edits=[(EQ, "            sum(self.feed_flows * 4.485E+17 / self.volume) * n[self.mask_neu] / sum(n[self.mask_neu])\n",
                                                      "            sum(self.feed_flows[self.mask_neu] * 4.485E+17 / self.volume) * n[self.mask_neu] / sum(n)\n")],
         demo=NETWORK + PARAMS + '''
c = chem()
eq = Equations(c, params())
n = np.array([1e20, 1e18, 2e19, 3e18, 2e18, 1e17])
y = np.r_[n, 1e17]
f = eq.get_flow_source_rates(y, p=eq.p0)
assert abs(f.sum()) < 1e-9 * abs(f).sum(), f
''', needs='a state with ions', breaks='less gas leaves than arrives: the outflow is spread over the charged species too'),
    dict(id='s13-ion-speed', property='C13', edits=[(EQ, "        self.v_m[~self.mask_neu] = (8 * constants.k * temp_i / (\n                constants.pi * self.species_mass[~self.mask_neu])) ** 0.5\n",
                                                     "        self.v_m[self.mask_pos] = (8 * constants.k * temp_i / (\n                constants.pi * self.species_mass[self.mask_pos])) ** 0.5\n")],
         demo=NETWORK + PARAMS + '''
c = chem()
eq = Equations(c, params())
v = eq.get_mean_speeds(np.r_[np.ones(6) * 1e19, 1e18], temp_i=1000.)
k = list(c.get_species_name()).index('O-')
import scipy.constants as C
close(v[k], (8 * C.k * 1000. / C.pi / eq.species_mass[k]) ** 0.5)
''', needs='negative ions and an ion temperature', breaks='thermal speeds of negative ions are not updated'),
    dict(id='s04-backtrack', property='C04', edits=[(CH, "            self._protected_sp = bu_protected_species\n            self._adhoc_protected_sp = bu_adhoc_protected_species\n", "            self._protected_sp = bu_protected_species\n")],
         demo=NETWORK + """
from plaschem.exceptions import ChemistryDisableError
c = chem(keep=(0, 1, 2, 3, 4))
c.set_protected_species('O-')
try:
    c.disable(species=['O2+'], reactions=[19])   # O- would go with it, but is protected
    assert False
except ChemistryDisableError:
    pass
c.disable(species=['Ar+'])
assert 'Ar+' not in list(c.get_species_name())
""", needs='a refused request whose cascade first removes the last but one positive ion and then hits a protected species; then a request for the other ion',
         breaks='a refused request leaves a trace: the other ion stays protected although two ions are enabled'),
    dict(id='s08-digits', property='C08', edits=[(XM, "                    attrib_xml = ElementTree.SubElement(r_xml, attribute)\n                attrib_xml.text = str(all_attributes[attribute])\n",
                                                  "                    attrib_xml = ElementTree.SubElement(r_xml, attribute)\n                value = all_attributes[attribute]\n                attrib_xml.text = '{:.9g}'.format(value) if isinstance(value, float) else str(value)\n")],
         demo=NETWORK + """
from plaschem.xml_inputs import XmlBuilder
d = os.environ['SCRATCH']
r = reaction(3, 'e + Ar -> e + e + Ar+', sp, arrh_a=1.234567890123e-14)
b = XmlBuilder()
b.add_reaction_from_instance(r)
b.dump_xml(d + '/a.xml')
c = Chemistry(xml_path=d + '/a.xml')
assert list(c.get_reactions_arrh_a()) == [1.234567890123e-14], list(c.get_reactions_arrh_a())
""", needs='a reaction attribute with more than nine significant digits', breaks='the value read back differs from the value written'),
    dict(id='s11-electron-mask', property='C11', edits=[(EQ, "        self.mask_elc = self.stoichiovector_electron_lhs > 0  # electron collisions\n", "        self.mask_elc = self.stoichiovector_electron_lhs == 1  # electron collisions\n")],
         demo=NETWORK + PARAMS + """
rs = [reaction(1, 'e + Ar -> e + e + Ar+', sp), reaction(2, 'e + e + Ar+ -> e + Ar', sp, arrh_b=-2.)]
c = Chemistry(species=[sp[n] for n in ('e', 'Ar', 'Ar+')], reactions=rs)
eq = Equations(c, params())
y = np.r_[1e20, 1e17, 3e17]
te = eq.get_electron_temperature(y)
close(eq.get_reaction_rate_coefficients(y)[1], 1e-15 * te ** -2)
""", needs='a reaction of two electrons (three-body recombination)', breaks='its rate coefficient is evaluated at the gas temperature'),
    dict(id='s14-ion-charge', property='C14', edits=[(EQ, "               - sh_pot * np.sum(self.species_charge[self.mask_pos] * diff_source_rates[self.mask_pos])\n", "               - sh_pot * np.sum(diff_source_rates[self.mask_pos])\n")],
         demo="""
from plaschem.chemistry import Chemistry
""" + PARAMS + """
sp = species(**{'e': dict(id=0, charge=-1, mass=5e-4), 'Ar': dict(id=3, lj_sigma=3.4), 'Ar+': dict(id=5, charge=1, lj_sigma=3.4), 'Ar++': dict(id=6, charge=2, lj_sigma=3.4)})
c = Chemistry(species=list(sp.values()), reactions=[reaction(1, 'e + Ar -> e + e + Ar+', sp), reaction(2, 'e + Ar+ -> e + e + Ar++', sp)])
eq = Equations(c, params())
y = np.r_[1e20, 1e17, 2e17, 3e18]
got = eq.get_drho_dt_ions_walls(y, temp_e=2., sh_pot=10., diff_source_rates=np.array([0., -3., -5.]))
close(got, 0.5 * 2. * 8 + 10. * (3 + 2 * 5))
""", needs='multiply charged ions', breaks='a doubly charged ion gains the sheath energy only once'),
    dict(id='s15-validity-range', property='C15', edits=[(EQ, "        self.k_r[self.mask_elc] = \\\n            self.reactions_arrh_a[self.mask_elc] * temp_e ** self", "        if temp_e > 1e3:  # far out of the validity range of the fits, do not extrapolate\n            return self.k_r\n        self.k_r[self.mask_elc] = \\\n            self.reactions_arrh_a[self.mask_elc] * temp_e ** self")],
         demo=NETWORK + PARAMS + """
def chain(first):
    eq = Equations(Chemistry(species=[sp[n] for n in ('e', 'Ar', 'Ar+')], reactions=[reaction(1, 'e + Ar -> e + e + Ar+', sp, arrh_c=60., units={'arrh_c': 'eV'})]), params())
    f = eq.get_objective_functions()[0]
    y = np.r_[1e20, 1e17, 1e21]
    f(0.1, np.r_[1e20, 1e17, first])
    return eq.get_reaction_rate_coefficients(y)[0]


close(chain(1e17), chain(3e17))
""", needs='a state with an electron temperature above 1000 eV', breaks='the rate coefficients are those of the state evaluated before'),
    dict(id='s03-adhoc-rows', property='C03', edits=[(CH, "        reactions_arrh_a.update(adhoc_arrh_a)\n",
                                                      "        for r_id, value in adhoc_arrh_a.items():\n            reactions_arrh_a.at[r_id] = value\n")],
         demo=NETWORK + """
c = chem()
c.set_adhoc_reactions_attributes('arrh_a', 10, 0.5)
c.disable(reactions=[10])
assert list(c.get_reactions_arrh_a().index) == list(c.get_reactions().index), c.get_reactions_arrh_a()
""", needs='an ad-hoc factor of a reaction which is then disabled', breaks='the table of pre-exponential factors has an entry for a reaction which is not selected'),
    dict(id='s09-projectile-order', property='C09', edits=[(CL, "                    if len(set(sp.get_name() for sp in reactants) &\n                           set(sp.get_name() for sp in products)):\n                        if not charges_p.any():\n                            if sum(reactants_states) == sum(products_states):\n                                r_category = 'dissociation'\n",
                                                          "                    if reactants[-1].get_name() in set(sp.get_name() for sp in products):\n                        if not charges_p.any():\n                            if sum(reactants_states) == sum(products_states):\n                                r_category = 'dissociation'\n")],
         demo="""
from plaschem.classification import ReactionClassifier
sp = species(**{'Ar': dict(id=0), 'O2': dict(id=1), 'O': dict(id=2)})
got = []
for s in ('O2 + Ar -> O + O + Ar', 'Ar + O2 -> O + O + Ar'):
    r = reaction(5, s, sp)
    got.append(ReactionClassifier(list(sp.values()), [r])._classify(r))
assert got[0] == got[1], got
""", needs='dissociation by a neutral projectile which is written first', breaks='the category depends on the order in which the reactants are written'),
]
