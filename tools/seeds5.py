import os as _os
import sys as _sys
exec(open(_os.path.join(_os.path.dirname(_os.path.abspath(_sys.argv[1])), 'seeds4.py')).read().rsplit('\nSEEDS = [')[0])
SEEDS = [
    dict(id='s62-formula-memo', property='C01', edits=[(SP, "        return dict(Formula(stateless_neutral).atom_stoich)\n",
                                                        "        try:\n            return dict(RP._known_formulas[self.get_name()])\n        except KeyError:\n            RP._known_formulas[self.get_name()] = dict(Formula(stateless_neutral).atom_stoich)\n            return dict(RP._known_formulas[self.get_name()])\n\n    _known_formulas = {}\n")],
         demo="""
from plaschem.species import RP
from plaschem.reactions import Reaction
a = RP(1, name='X*', stateless='Ar', state='*', mass=1., units={'mass': 'amu'})
b = RP(2, name='X*', stateless='O2', state='*', mass=1., units={'mass': 'amu'})
assert a.get_atoms() == {'Ar': 1}
assert b.get_atoms() == {'O': 2}, b.get_atoms()
""", needs='two species (of two networks, say) with the same name and other stateless names', breaks='atoms are counted of the wrong species'),
    dict(id='s63-stoich-memo', property='C01', edits=[(RE, "        if method == 'lhs':\n            stoich_coefs_dict = OrderedDict", "        if method == 'rhs' and hasattr(self, '_rhs'):\n            return self._rhs\n        if method == 'lhs':\n            stoich_coefs_dict = OrderedDict"),
                                                      (RE, "            for sp in self.get_products():\n                stoich_coefs_dict[sp.id] += 1\n        elif method == 'net':\n", "            for sp in self.get_products():\n                stoich_coefs_dict[sp.id] += 1\n            self._rhs = stoich_coefs_dict\n        elif method == 'net':\n")],
         demo=NETWORK + """
r = reaction(1, 'e + O2 -> e + O + O', sp)
c = r.get_stoich_coefs('rhs')
for i in r.get_stoich_coefs('lhs'):
    c[i] = c.get(i, 0) - 1
assert dict(r.get_stoich_coefs('rhs')) == {0: 1, 2: 2}, r.get_stoich_coefs('rhs')
""", needs='a caller who changes the coefficients it got', breaks='the reaction reports the coefficients changed by the caller'),
    dict(id='s64-arrh-memo', property='C02', edits=[(RE, "        arrh_a = self._arrh_a\n        if arrh_a is not None:\n", "        if si_units and getattr(self, '_memo', (None,))[0] is self._arrh_a is not None:\n            return self._memo[1]\n        arrh_a = self._arrh_a\n        if arrh_a is not None:\n"),
                                                    (RE, "                arrh_a *= self.si_conversion_factors['arrh_a'][self.get_unit('arrh_a')]\n", "                arrh_a *= self.si_conversion_factors['arrh_a'][self.get_unit('arrh_a')]\n                self._memo = (self._arrh_a, arrh_a)\n")],
         demo=NETWORK + """
r = reaction(1, 'e + O2 -> e + O + O', sp)
v = 2e-9
r.set_reaction_attribute('arrh_a', v, unit='cm3.s-1')
close(r.get_arrh_a(), 2e-15)
r.set_reaction_attribute('arrh_a', v, unit='m3.s-1')
close(r.get_arrh_a(), 2e-9)
""", needs='the unit of the pre-exponential factor is corrected after it was used, the number is the same object', breaks='the value is converted from the former unit'),
    dict(id='s66-mask-view', property='C07', edits=[(CH, "            return self._enabled_r.values.copy()\n", "            return self._enabled_r.values\n")],
         demo=NETWORK + """
c = chem()
m = c.get_reactions_mask(disabled=False)
m[0] = False
assert len(c.get_reactions()) == 8, len(c.get_reactions())
""", needs='a caller who changes the mask it got', breaks='the reaction is disabled'),
    dict(id='s67-disabled-already', property='C04', edits=[(CH, "        if not len(dis_species_ids) and not len(dis_reactions_ids):\n", "        if len(species_ids) and not len(dis_species_ids) or not len(dis_species_ids) and not len(dis_reactions_ids):\n")],
         demo=NETWORK + """
c = chem()
c.disable(species=['O-'])
n = len(c.get_reactions())
c.disable(species=['O-'], reactions=[10])
assert len(c.get_reactions()) < n
""", needs='a request for a species which is disabled already and a reaction which is not', breaks='the request changes nothing'),
    dict(id='s69-hash-start', property='C06', edits=[(CH, "hashlib.md5(f.read().encode()).hexdigest()", "hashlib.md5(f.read(1 << 14).encode()).hexdigest()")],
         demo=NETWORK + """
from plaschem.xml_inputs import XmlBuilder
from plaschem.exceptions import ChemistryAttributeError
x, y = [os.path.join(os.environ['SCRATCH'], n) for n in ('net.xml', 'state.yaml')]
b = XmlBuilder()
b.add_chemistry_from_instance(chem())
b.dump_xml(x)
text = open(x).read().replace('<comments></comments>', '<comments/>').replace('<comments/>', '<comments>' + 20000 * 'a' + '</comments>')
open(x, 'w').write(text)
c = Chemistry(xml_path=x)
c.dump_chemistry_attributes(y)
open(x, 'w').write(text.replace('</chemistry>', '<!-- edited --></chemistry>'))
try:
    c.load_chemistry_attributes(y)
    assert False, 'accepted'
except ChemistryAttributeError:
    pass
""", needs='a large input file, edited far from its start', breaks='the state is loaded for an input file which was edited'),
    dict(id='s70-copy-adhoc-protected', property='C07', edits=[(CH, "        self_copy._adhoc_protected_sp = self._adhoc_protected_sp.copy()\n", "        if self._adhoc_protected_sp.any():\n            self_copy._adhoc_protected_sp = self._adhoc_protected_sp\n")],
         demo=NETWORK + """
c = chem()
c.disable(species=['Ar+'])
d = c.copy()
f = os.path.join(os.environ['SCRATCH'], 'state.yaml')
chem().dump_chemistry_attributes(f)
d.load_chemistry_attributes(f, check_hash=False)
assert 'O2+' in [sp.get_name() for sp in c.get_protected_species()], c.get_protected_species()
""", needs='a copy made while an ion is protected ad hoc, which then loads a state in which it is not', breaks='the original does not protect its last ion any more'),
    dict(id='s71-builder-texts', property='C08', edits=[(XM, "            if attribute in all_attributes and all_attributes[attribute] not in [None, '']:\n                if attribute in r_units:\n", "            if attribute in all_attributes and all_attributes[attribute] not in [None, '', False]:\n                if attribute in r_units:\n"),
                                                        (XM, "            if attribute in all_attributes and all_attributes[attribute] not in [None, '']:\n                if attribute not in skip_attributes", "            if attribute in all_attributes and all_attributes[attribute] not in [None, '', False]:\n                if attribute not in skip_attributes")],
         demo=NETWORK + """
from plaschem.xml_inputs import XmlBuilder, XmlParser
x = os.path.join(os.environ['SCRATCH'], 'net.xml')
s = species(**{'O': {}, 'M': {}, 'O-': dict(charge=-1), 'Ar': dict(stick_coef=0.), 'O*': dict(stateless='O', state='*', stick_coef=0.)})
r = reaction(1, 'O* + M -> O + M', s)
b = XmlBuilder()
b.add_reaction_from_instance(r)
b.dump_xml(x)
species_read, _ = XmlParser().get_species_and_reactions(x)
assert [q.get_stick_coef() for q in species_read if q.get_name() == 'O*'] == [0.]
""", needs='a value of zero which is not the default (the sticking coefficient of an excited species)', breaks='the value is left out, the default is read'),
    dict(id='s72-two-bodies-M', property='C11', edits=[(EQ, "        self.stoichiovector_arbitrary_lhs = np.array(chemistry.get_reactions_stoich_coefs_arbitrary(method='lhs'))\n", "        self.stoichiovector_arbitrary_lhs = np.array(chemistry.get_reactions_stoich_coefs_arbitrary(method='lhs') > 0, dtype=int)\n")],
         demo=NETWORK + PARAMS + """
R.append('O2 + M + M -> O + O + M + M')
eq = Equations(chem(), params())
y = np.r_[np.array([1e20, 1e18, 2e19, 3e18, 2e18, 1e17]), 1e17]
a, b = eq.get_reaction_rates(y), eq.get_reaction_rates(2 * y)
close(b[-1] / a[-1], 8., 1e-9)
""", needs='a reaction with two third bodies', breaks='its rate is of second order'),
    dict(id='s73-ion-feed', property='C12', edits=[(EQ, "            sum(self.feed_flows * 4.485E+17 / self.volume) * n[self.mask_neu]", "            sum(self.feed_flows[self.mask_neu] * 4.485E+17 / self.volume) * n[self.mask_neu]")],
         demo=NETWORK + PARAMS + """
eq = Equations(chem(), params(feeds={'Ar': 100., 'O2+': 10.}))
y = np.r_[np.array([1e20, 1e18, 2e19, 3e18, 2e18, 1e17]), 1e17]
f = eq.get_flow_source_rates(y, p=eq.p0)
assert abs(f.sum()) < 1e-9 * abs(f).sum(), f
""", needs='a beam of ions as a feed', breaks='less leaves than arrives'),
    dict(id='s74-impact-parameter', property='C13', edits=[(EQ, "            abs(self.species_charge[~self.mask_neu, np.newaxis] * self.species_charge[np.newaxis, ~self.mask_neu]) / \\\n", "            np.maximum(abs(self.species_charge[~self.mask_neu, np.newaxis]), abs(self.species_charge[np.newaxis, ~self.mask_neu])) / \\\n")],
         demo=NETWORK + PARAMS + """
from scipy import constants as k
sp = species(**{'e': dict(id=0, charge=-1, mass=5e-4), 'Ar': dict(id=3, lj_sigma=3.4), 'Ar+': dict(id=5, charge=1, lj_sigma=3.4, mass=40.), 'Ar++': dict(id=6, charge=2, lj_sigma=3.4, mass=40.), 'Ar2++': dict(id=7, charge=2, lj_sigma=3.4, mass=80.), 'Ar2': dict(id=8, lj_sigma=3.4, mass=80.)})
R = ['e + Ar -> e + e + Ar+', 'e + Ar+ -> e + e + Ar++', 'Ar + Ar++ -> Ar2++', 'Ar + Ar -> Ar2']
eq = Equations(chem(), params(feeds={'Ar': 1.}))
y = np.array([1e21, 1e16, 1e16, 1e16, 1e16, 1e17])
s, v, deb = eq.get_sigma_sc(y), eq.get_mean_speeds(y), eq.get_debye_length(y)
b = k.e ** 2 * 4 / (2 * k.pi * k.epsilon_0) / (eq.reduced_mass[2, 3] * v[2] ** 2)
close(s[2, 3], k.pi * b ** 2 * np.log(2 * deb / b), 1e-6)
""", needs='two doubly charged ions', breaks='the collision cross section of the pair is that of ions of charge one and two'),
    dict(id='s76-same-array', property='C15', edits=[(EQ, "        temp_e = max(temp_e, temp_g_ev)\n", "        temp_e = max(temp_e, temp_g_ev)\n        if y is getattr(self, '_last_y', None) and n_e == self._last_n_e:\n            return self._last_temp_e\n        self._last_y, self._last_n_e, self._last_temp_e = y, n_e, temp_e\n")],
         demo=NETWORK + PARAMS + """
eq = Equations(chem(), params())
y = np.r_[np.array([1e20, 1e18, 2e19, 3e18, 2e18, 1e17]), 1e19]
f = eq.get_objective_functions()[0]
f(0., y)
y[-1] *= 2
a = f(0., y)
b = Equations(chem(), params()).get_objective_functions()[0](0., y)
assert np.allclose(a, b, rtol=1e-12), (a, b)
""", needs='a state which is changed in place between evaluations, only in its electron energy', breaks='the electron temperature is that of the former state'),
]
