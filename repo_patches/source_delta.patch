From d73fef643bec16a226143bb489be358ffcf22df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 01/46] fix: surface return data follow the species filters

---
 plaschem/chemistry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7af45a1..b63cee3 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -722,10 +722,10 @@ class Chemistry(object):
         species = self.get_species(disabled=disabled, special=special, protected=protected)
         species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
         # update with the adhoc ret_coefs:
-        for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
+        for sp_id in self.adhoc_species_attributes['ret_coefs'].index.intersection(species.index):
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
-        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special)
+        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         for sp_id in species_stick_coefs.index:
             if species_stick_coefs.at[sp_id] == 0.:
                 species_ret_coefs.at[sp_id] = {}
@@ -860,13 +860,16 @@ class Chemistry(object):
             if ret_coefs is not None:
                 for return_sp_name in ret_coefs:
                     return_sp_id = self.get_rp(return_sp_name).id
+                    if return_sp_id not in ret_mat.index:
+                        continue  # return species filtered out (special species)
                     ret_coef = ret_coefs[return_sp_name]
                     ret_mat.at[return_sp_id, sp_id] = ret_coef
         ret_mat = ret_mat.fillna(0.)
 
         if special:  # fill in the special species values back to NaN's...
-            ret_mat.at[self._special_sp, :] = np.nan
-            ret_mat.at[:, self._special_sp] = np.nan
+            special_ids = ret_mat.index.intersection(self.get_special_species().index)
+            ret_mat.loc[special_ids, :] = np.nan
+            ret_mat.loc[:, special_ids] = np.nan
 
         return ret_mat
 
-- 
2.43.0


From 5b49158c674368cde134f66b1270c012b6b7b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 02/46] fix: restore ad-hoc return coefficients before
 disabling species on load

---
 plaschem/chemistry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index b63cee3..f67a5b1 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -561,6 +561,15 @@ class Chemistry(object):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
         # all appears valid, so can start restoring the attributes:
+        # ad-hoc attributes (restored on the full chemistry, they might refer to species which are now disabled):
+        self.reset_adhoc_species_attributes('all')
+        self.reset_adhoc_reactions_attributes('all')
+        self._enabled_sp[:] = True
+        self._enabled_r[:] = True
+        for params_list in adhoc_species_attributes:
+            self.set_adhoc_species_attributes(*params_list)
+        for params_list in adhoc_reactions_attributes:
+            self.set_adhoc_reactions_attributes(*params_list)
         # masks:
         self._enabled_sp[enabled_sp_ids] = True
         self._enabled_sp[disabled_sp_ids] = False
@@ -570,13 +579,6 @@ class Chemistry(object):
         self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
         self._enabled_r[enabled_r_ids] = True
         self._enabled_r[disabled_r_ids] = False
-        # ad-hoc attributes:
-        self.reset_adhoc_species_attributes('all')
-        for params_list in adhoc_species_attributes:
-            self.set_adhoc_species_attributes(*params_list)
-        self.reset_adhoc_reactions_attributes('all')
-        for params_list in adhoc_reactions_attributes:
-            self.set_adhoc_reactions_attributes(*params_list)
 
         # assert consistency to be on a safe side:
         self.assert_consistency()
-- 
2.43.0


From cec89c32572ea226837a0f0d776b4c2ef8a6bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 03/46] fix: copies of a chemistry keep its class

---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index f67a5b1..388f4de 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -96,7 +96,7 @@ class Chemistry(object):
         will still be sharing species and reactions objects.
         :return: (self instance)
         """
-        self_copy = Chemistry(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
+        self_copy = type(self)(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
 
         # ENFORCE IDENTICAL STATE:
         # masks:
-- 
2.43.0


From bb0d1e8717c6a1d8fa47a5a916f7d8b2731cfbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 04/46] fix: parse species names containing commas from the xml
 reactions

---
 plaschem/xml_inputs.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 2127c61..f54135c 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -728,6 +728,18 @@ class XmlParser(object):
         # ***************************************** DEAL WITH REACTIONS ********************************************** #
         reactions = []
 
+        def split_names(text):
+            # the species names are separated by commas, but they might contain commas themselves - e.g. O2(v=1,J=0)
+            names, part = [], ''
+            for chunk in text.split(','):
+                part = '{},{}'.format(part, chunk) if part else chunk
+                if part.strip() in species_dict:
+                    names.append(part.strip())
+                    part = ''
+            if part:
+                names.append(part.strip())
+            return names
+
         for reaction_xml in reaction_xml_elements:
             r_id = int(reaction_xml.attrib['id'])
 
@@ -737,8 +749,8 @@ class XmlParser(object):
 
             attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
             # deal with the skipped tags:
-            reactants_names = [sp_name.strip() for sp_name in reaction_xml.find('reactants').text.split(',')]
-            products_names = [sp_name.strip() for sp_name in reaction_xml.find('products').text.split(',')]
+            reactants_names = split_names(reaction_xml.find('reactants').text)
+            products_names = split_names(reaction_xml.find('products').text)
             reactants = [species_dict[sp_name] for sp_name in reactants_names]
             products = [species_dict[sp_name] for sp_name in products_names]
 
-- 
2.43.0


From 1e44e4daab215ca70e3efff3f5f7ad726ec23a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 05/46] fix: add a chemistry to an xml builder which already
 holds other species

---
 plaschem/xml_inputs.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index f54135c..504e62d 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -438,12 +438,15 @@ class XmlBuilder(object):
         :param ch: (Chemistry instance)
         :return: None
         """
-        # store the original species order (ids)
-        sp_ids = list(ch.get_species_id(special=True))
+        # store the original species order (names)
+        sp_names = list(ch.get_species_name(special=True))
         for r in ch.get_reactions():
             self.add_reaction_from_instance(r)
-        # restore the species order as it was defined in the Chemistry instance:
-        self.species.sort(key=lambda x: sp_ids.index(int(x.attrib['id'])))
+        # restore the species order as it was defined in the Chemistry instance (species of other sources come first):
+        names = {id(rp_xml): name for name, rp_xml in self.species_dict.items()}
+        self.species.sort(
+            key=lambda x: sp_names.index(names[id(x)]) if names[id(x)] in sp_names else -1
+        )
 
     def add_chemistry_from_xml(self, xml_path):
         """Method to add all reaction and rp xml elements from a previously saved xml file. This will only add species
-- 
2.43.0


From 7621b22fa521cbfc80746882a884970d8c0fc421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 06/46] fix: do not export return species which are disabled in
 the chemistry

---
 plaschem/xml_inputs.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 504e62d..6778712 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -447,6 +447,17 @@ class XmlBuilder(object):
         self.species.sort(
             key=lambda x: sp_names.index(names[id(x)]) if names[id(x)] in sp_names else -1
         )
+        # species disabled in the Chemistry instance are not added, so they cannot be returned by those which are:
+        for rp in ch.get_species():
+            ret_coefs = rp.get_ret_coefs()
+            if not set(ret_coefs).issubset(self.species_dict):
+                rp_xml = self.species_dict[rp.get_name()]
+                if rp_xml.find('ret_coefs') is not None:
+                    rp_xml.remove(rp_xml.find('ret_coefs'))
+                ret_coefs_xml = ElementTree.SubElement(rp_xml, 'ret_coefs')
+                for ret_sp in ret_coefs:
+                    if ret_sp in self.species_dict:
+                        ElementTree.SubElement(ret_coefs_xml, 'r', attrib={'rp': ret_sp}).text = str(ret_coefs[ret_sp])
 
     def add_chemistry_from_xml(self, xml_path):
         """Method to add all reaction and rp xml elements from a previously saved xml file. This will only add species
-- 
2.43.0


From 82101f480644a3de81646c927591175b9bcb82e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 07/46] fix: classify collisions without any neutral or heavy
 partner

---
 plaschem/classification.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 783140a..6d4e833 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -298,8 +298,8 @@ class ReactionClassifier(object):
             r_category = 'unclassified electron impact collisions'
             col_partners = [sp for sp in reactants if sp.get_name() != 'e']
             heavy_products = [sp for sp in products if sp.get_name() != 'e']
-            col_partner = col_partners[0]  # used only for the case of only one collision partner
-            if len(reactants) < 2:  # this is a screw case, will go to unclassified
+            col_partner = col_partners[0] if len(col_partners) else None  # used only for one collision partner
+            if len(reactants) < 2 or not len(col_partners):  # this is a screw case, will go to unclassified
                 pass
             elif len(reactants) > 3:  # this will lend in unclassified as well
                 pass
@@ -413,12 +413,12 @@ class ReactionClassifier(object):
                     ):
                         r_category = 'interchange'
 
-            elif ((charges_r > 0) + (charges_r == 0)).all():
+            elif ((charges_r > 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'POSITIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified positive ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r > 0)[0][0]]
                 r_neutral = reactants[np.where(charges_r == 0)[0][0]]
-                if len(products) == len(reactants):
+                if len(products) == len(reactants) and (charges_p > 0).any() and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p > 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('+') == p_neutral.get_name() and \
@@ -431,7 +431,7 @@ class ReactionClassifier(object):
                     if r_neutral.get_name() + '+' in [sp.get_name() for sp in products]:
                         r_category = 'dissociative charge transfer'
 
-            elif ((charges_r < 0) + (charges_r == 0)).all():
+            elif ((charges_r < 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'NEGATIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified negative ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r < 0)[0][0]]
@@ -441,7 +441,7 @@ class ReactionClassifier(object):
                         r_category = 'detachment'
                     elif len(reactants) > len(products) - el_stoich_coef:
                         r_category = 'associative detachment'
-                elif len(products) == len(reactants):
+                elif len(products) == len(reactants) and (charges_p < 0).any() and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p < 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('-') == p_neutral.get_name() and \
-- 
2.43.0


From 158b67b76725f0d7c4d41180e70d849a5bcb267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 08/46] fix: scandium and thallium in the order of elements

---
 plaschem/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 6d4e833..d5339ef 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -75,10 +75,10 @@ class ReactionClassifier(object):
 
     elements_order = [
         'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca',
-        'SC', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
+        'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
         'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce',
         'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir',
-        'Pt', 'Au', 'Hg', 'Ti', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
+        'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
         'Bk', 'Cf', 'M'
     ]
 
-- 
2.43.0


From 370751c10534c88835b140981e95d67459cba327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 09/46] fix: aligned reaction strings follow the species order
 after sorting

---
 plaschem/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index d5339ef..1f9b41e 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -216,7 +216,9 @@ class ReactionClassifier(object):
         self.species.sort(key=self._get_species_sort_key)
         # reset dependencies:
         self._classified_reactions = OrderedDict()
+        self._alignments = dict()
         self._memo_species_index = dict()
+        self._memo_reactions_sorted_species_names = dict()
 
     def _species_index(self, sp):
         """This is just getting index of a species inside the self.species list. Only here to optimise the lookup
-- 
2.43.0


From 316e546022593283215148725e70131a29cc276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 10/46] fix: adjust repeated integer power time points without
 truncation

---
 pygmo_fwork/pygmol/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 039aa75..4815f81 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -188,7 +188,7 @@ class Equations(object):
         self.t_end = model_params['t_end']
 
         self.pow = np.array(model_params['power'])
-        self.t_pow = np.array(model_params['t_power'])
+        self.t_pow = np.array(model_params['t_power'], dtype=float)  # needs to hold the adjusted (real) values
 
         # adjust repeated values in P_t, since P_t needs to be strictly ascending - need to make it continuous func
         d_t = 0.00001 * self.t_end
-- 
2.43.0


From 18df8867a0b412bcc7b8e78ef9bc22eee49b655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 11/46] fix: label diagnosed quantities by what they are

---
 pygmo_fwork/pygmol/model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 35d76ef..6e7b011 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -40,6 +40,9 @@ class Model(object):
         'num_reactions'
     )
 
+    # equations' partial results which are defined for each reaction (not recognisable from their length alone)
+    reactions_quantities = ('reaction_rates', 'reaction_rate_coefficients', 'el_en_losses')
+
     def __init__(self, chemistry, model_params):
         """Initialiser of the GlobalModel class. The model solves equations for density balance for Ns species
         and electron temperature balance. A Chemistry class instance needs to be passed as chemistry, defining
@@ -243,8 +246,13 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        diagnostics = pd.DataFrame([getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary])
-        if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
+        values = [getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary]
+        diagnostics = pd.DataFrame(values)
+        if all(np.ndim(value) == 0 for value in values):  # one value for the whole system
+            diagnostics.columns = ['value']
+        elif quantity in self.reactions_quantities:  # a value for each reaction
+            diagnostics.columns = list(self.chemistry.get_reactions_id())
+        elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
             diagnostics.columns = list(self.chemistry.get_species_name())
         elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
             diagnostics.columns = list(self.chemistry.get_reactions_id())
-- 
2.43.0


From 0d881f1d38ccc945dc61d485055e1b6b7160fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 12/46] fix: define the wall flux of species which neither
 stick nor diffuse

---
 pygmo_fwork/pygmol/equations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 4815f81..6bf885a 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -694,7 +694,12 @@ class Equations(object):
         if self.diffusion_model == 0:
             return -diff_c * n * s / self.diff_l ** 2 * self.volume / self.area
         elif self.diffusion_model == 1:
-            return -diff_c * n * s / (s * self.diff_l + (4 * diff_c / v_m))
+            # only the sticking species have any flux, others (possibly without any diffusion) would be ill-defined
+            fluxes = np.zeros(self.num_species)
+            mask = s > 0
+            fluxes[mask] = \
+                -diff_c[mask] * n[mask] * s[mask] / (s[mask] * self.diff_l + (4 * diff_c[mask] / v_m[mask]))
+            return fluxes
         else:
             raise ValueError('Unsupported diffusion model!')
 
-- 
2.43.0


From b26c825dc6096ecb27d290dd2f9c57552163c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 13/46] fix: keep own copies of the power arrays in the model
 parameters

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b5a0fa..6c68342 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -102,7 +102,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = power_array
+        self._power_array = list(power_array)
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +125,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = time_array
+        self._time_array = list(time_array)
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
-- 
2.43.0


From a83e6b63a1d52aa20fc1c43c044b68b0d0ec016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 14/46] fix: values and items of model parameters are those
 their keys give

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 6c68342..bfe27dc 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -302,7 +302,7 @@ class ModelParameters(_ModelParametersBase):
         return self.parameters.keys()
 
     def values(self):
-        return self.parameters.values()
+        return dict(self).values()
 
     def items(self):
-        return self.parameters.items()
+        return dict(self).items()
-- 
2.43.0


From dee716fcc689d7fd4bbbbd5e2e792f1ba8a34c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 15/46] fix: diffusivities of neutral species from the state
 vector alone

---
 pygmo_fwork/pygmol/neutral_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 3a64024..e0d080d 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -67,6 +67,8 @@ class NeutralEquations(Equations):
         return self.sigma_sc
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
+        if diff_c_free is None:
+            diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
     # redefine the objective function factory, so it does not calculate unnecessary clutter
-- 
2.43.0


From d4f7ef4b1a57a59fbe2a8cf99381601dd8b5560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 16/46] fix: diagnose quantities which are plain numbers

---
 pygmo_fwork/pygmol/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 6e7b011..ad5f462 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -1,5 +1,6 @@
 import inspect
 import os
+from copy import copy
 
 import numpy as np
 import pandas as pd
@@ -246,7 +247,7 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        values = [getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary]
+        values = [copy(getattr(self.equations, 'get_{}'.format(quantity))(y)) for y in sol_primary]
         diagnostics = pd.DataFrame(values)
         if all(np.ndim(value) == 0 for value in values):  # one value for the whole system
             diagnostics.columns = ['value']
-- 
2.43.0


From 6114eccdf858d9f215620bcf6303c1e102529553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 17/46] fix: raise ConfigError for files which are not valid
 yaml

---
 pygmo_fwork/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/config.py b/pygmo_fwork/config.py
index 88ca43c..7283d16 100644
--- a/pygmo_fwork/config.py
+++ b/pygmo_fwork/config.py
@@ -31,7 +31,7 @@ class Config(dict):
         with open(config_file_path, 'r') as stream:
             try:  # try yaml loading the config into a dict
                 config_dict = dict(yaml.load(stream, yaml.FullLoader))
-            except (TypeError, ValueError) as _:
+            except (TypeError, ValueError, yaml.YAMLError) as _:
                 raise ConfigError('Failed to parse the config file! Needs to follow the prescribed format & structure!')
 
         # instantiate with the parsed dictionary
-- 
2.43.0


From 26903dc8206dcbeb25ece2460342e9fb3223eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 18/46] fix: compress solutions with negative values

---
 pygmo_fwork/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f5154c3..b4196f3 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -506,7 +506,7 @@ class ResultsParser(object):
                 if next_index >= len(full_sol.index) - 1:
                     break
                 diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/full_sol.loc[front_index]
+                rel_diff = diff/abs(full_sol.loc[front_index])
                 if diff['t'] < min_step_abs:
                     drop_index.add(next_index)
                     next_index += 1
-- 
2.43.0


From 681fc982e6770452efb47a1f9bb0d620b4bbc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 19/46] fix: print processes with current pandas

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index b4196f3..f53c3ce 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -430,7 +430,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         production_rates = all_rates[all_rates > 0]
         # capping
         if n is None:
@@ -463,7 +463,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         consumption_rates = all_rates[all_rates < 0]
         # capping
         if n is None:
-- 
2.43.0


From 071b1ce0b051bfd046759df6deeb446baad60eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 20/46] fix: refuse the electron in a neutral chemistry

---
 pygmo_fwork/pygmol/neutral_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index e0d080d..a8937cb 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -21,6 +21,9 @@ class NeutralChemistry(Chemistry):
         species_charge = self.get_species_charge()
         if not (species_charge.values == 0).all():
             raise ChemistryConsistencyError('NeutralChemistry cannot contain charged species!')
+        # check that there is no electron either:
+        if 'e' in list(self.get_species_name(special=True)):
+            raise ChemistryConsistencyError('NeutralChemistry cannot contain the electron!')
         super().assert_consistency()
 
     def get_reactions_stoich_coefs_electron(self, disabled=False, method='net'):
-- 
2.43.0


From 30aef66a00c2920139eec616368717091580e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 21/46] fix: keep the model when new model parameters are
 refused

---
 pygmo_fwork/global_model.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 168c762..314bada 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -52,7 +52,6 @@ class GlobalModel(object):
         :param backend: (str) identifier of the backend model.
         """
         self.backend = backend
-        self.model = None
         if self.backend.lower() not in Config.accepted_backends:
             raise GlobalModelAttributeError('Unsupported backend identifier: {}'.format(backend))
         if self.backend.lower() == 'pygmol':
-- 
2.43.0


From cbb7850a4ea27ba2d472bb97c23e60a80ca9ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 22/46] fix: interpolate results for a single time

---
 pygmo_fwork/results.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f53c3ce..8cfb2ad 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -238,14 +238,13 @@ class ResultsParser(object):
             assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], \
                 'time={} is outside the results_df range'.format(t)
 
-        frames = pd.DataFrame(columns=results_df.columns)
-        frames.loc[:, 't'] = times
+        frames = {'t': np.array(times, dtype=float)}
         ignore_columns = {'t'}
         for col in results_df.columns:
             if col not in ignore_columns:
-                vals_at_times = np.interp(times, results_df['t'], results_df[col])
-                frames.loc[:, col] = vals_at_times
-        return frames
+                frames[col] = np.interp(
+                    frames['t'], np.array(results_df['t'], dtype=float), np.array(results_df[col], dtype=float))
+        return pd.DataFrame(frames, columns=results_df.columns)
 
     def fetch_model_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
         """This method will return the model parameters dict from the logged .yaml file. Returns from
-- 
2.43.0


From 0d950198178eaf92da57a6af407c02d2f981e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 23/46] fix: name the species in the surface processes

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 8cfb2ad..735a5cd 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -402,9 +402,9 @@ class ResultsParser(object):
             sp_names = chemistry.get_species_name()
             for i in surface_rates.index:
                 if i == sp_id:
-                    r_string = '{} + wall > wall'.format(sp)
+                    r_string = '{} + wall > wall'.format(sp_names[sp_id])
                 else:
-                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp)
+                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp_names[sp_id])
                 new_index.append('{: <10}{}'.format('S{}'.format(i), r_string))
             surface_rates.index = new_index
 
-- 
2.43.0


From bec73a59266844baad1b0ba3404f11c9ec6ffca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 24/46] fix: compress solutions which have been compressed
 before

---
 pygmo_fwork/results.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 735a5cd..d24b2d8 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -491,7 +491,7 @@ class ResultsParser(object):
         :return: (pd.DataFrame) solution dataframe with the same columns as the full_sol, but compressed (not
                  containing all the original timesteps)
         """
-        drop_index = set([])  # all the indices to be dropped from the full solution!
+        drop_index = []  # all the indices to be dropped from the full solution!
         min_step_abs = full_sol['t'].iloc[-1]*min_timestep  # minimal allowed step between two subsequent timeframes
 
         front_index = 0
@@ -504,13 +504,13 @@ class ResultsParser(object):
             while True:
                 if next_index >= len(full_sol.index) - 1:
                     break
-                diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/abs(full_sol.loc[front_index])
+                diff = abs(full_sol.iloc[next_index] - full_sol.iloc[front_index])
+                rel_diff = diff/abs(full_sol.iloc[front_index])
                 if diff['t'] < min_step_abs:
-                    drop_index.add(next_index)
+                    drop_index.append(full_sol.index[next_index])
                     next_index += 1
                 elif (rel_diff < diff_threshold).drop('t').all():
-                    drop_index.add(next_index)
+                    drop_index.append(full_sol.index[next_index])
                     next_index += 1
                 else:
                     break
-- 
2.43.0


From 7353f6110713f5532790d8d1512246ebf7b6301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 25/46] fix: normalise by production which equals consumption
 in DRGEP

---
 pygmo_fwork/optichem/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 15bf7aa..f29ac97 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -468,9 +468,7 @@ class ChemistryGraph(object):
             assert (tot_prod >= 0).all()
             assert (tot_cons >= 0).all()
             # build the normalisation array (N_times x N_species):
-            norm = np.zeros(tot_prod.shape)
-            norm[tot_prod > tot_cons] = tot_prod[tot_prod > tot_cons]
-            norm[tot_cons > tot_prod] = tot_cons[tot_cons > tot_prod]
+            norm = np.maximum(tot_prod, tot_cons)
             # rows are important times and columns are species
         else:
             raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
-- 
2.43.0


From e68414aa9183c7c30db3bebe73ba2a894ac8e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 26/46] fix: build the capacities of the maximum flow with
 current pandas

---
 pygmo_fwork/optichem/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index f29ac97..5bb03ee 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,9 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        capacity = pd.DataFrame(index=self.get_nodes(), columns=self.get_nodes())
+        # (the source or the target might not be connected to anything and therefore not be present among the nodes)
+        nodes = sorted(self.get_nodes() | {source_node, target_node})
+        capacity = pd.DataFrame(index=nodes, columns=nodes)
         for u in self.get_nodes():
             for v in self.get_nodes():
                 if self.has_edge(u, v):
-- 
2.43.0


From d45fc0fd8b9ef20edc350cc99dcc2d59cbcc6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 27/46] fix: rank by all the important times, however close

---
 pygmo_fwork/optichem/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 5bb03ee..5fe730f 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -521,7 +521,7 @@ class ChemistryGraph(object):
         for important_sp in important_species:
             for t_i, important_time in enumerate(self.important_times):
                 graph = self.graphs[t_i]
-                index = '{} ({:.3e})'.format(important_sp, important_time)
+                index = '{} ({}: {:.3e})'.format(important_sp, t_i, important_time)  # unique for each time
                 if search_method == 'max_bottleneck':
                     paths, scores = graph.find_max_bottleneck_paths(target_node=important_sp, edge_attribute='weight')
                 elif search_method == 'shortest_path':
-- 
2.43.0


From 6a6934a1692f0d4b640dd7377df65e9d5d51ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:22 +0000
Subject: [PATCH 28/46] fix: score paths of zero length from other nodes than
 the target

---
 pygmo_fwork/optichem/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 5fe730f..2d7a99c 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -218,7 +218,7 @@ class Graph(object):
         for source in self.get_nodes():
             while paths[source][-1] != target_node and paths[source][-1] is not None:
                 paths[source].append(successors[paths[source][-1]])
-        lengths = {node: inverse(lengths[node]) if lengths[node] > 0 else np.nan for node in lengths}
+        lengths = {node: inverse(lengths[node]) if node != target_node else np.nan for node in lengths}
 
         return paths, lengths
 
-- 
2.43.0


From a1d25f6d085c15139bd41afcddcfd4a020830388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:24 +0000
Subject: [PATCH 29/46] fix: rank species which are not connected as the least
 important

---
 pygmo_fwork/optichem/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 2d7a99c..92d7548 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -540,7 +540,8 @@ class ChemistryGraph(object):
                     raise ValueError('Unrecognised search method: {}'.format(search_method))
                 ranking_all.loc[index, :] = scores
 
-        ranking = ranking_all.max(axis=0)
+        # species which are not connected to any important species are the least important
+        ranking = ranking_all.max(axis=0).fillna(0.)
         # sort values (also first sorting by keys, so order for species with the same scores is consistent)
         ranking = ranking[sorted(ranking.index)]
         ranking = ranking.sort_values(ascending=True)
-- 
2.43.0


From bcfa966c2e097902acd2f6f963181c9102c80a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:14 +0000
Subject: [PATCH 30/46] fix: run Morris trajectories with a ModelParameters
 instance

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f67c08b..b9a8770 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -503,7 +503,7 @@ class MorrisMethod(object):
         """
         # make the copies of everything for this particular run... This way multiple trajectories can run parallel
         chemistry = self.chemistry.copy()
-        model_params = self.model_params.copy()
+        model_params = dict(self.model_params)  # either a dict, or ModelParameters instance
         model = GlobalModel(chemistry, model_params, backend=self.model_backend)
 
         # make sure that all the relevant attributes are passed:
-- 
2.43.0


From a688f52a79d74c86f083c1712b4c385f5d14f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:14 +0000
Subject: [PATCH 31/46] fix: compare the model backend of Morris runs as it is
 dumped

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index b9a8770..af2c8bf 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -407,7 +407,7 @@ class MorrisMethod(object):
                 if not meta_meta['trajectory_type'] == traj_type:
                     raise MorrisCoherenceError(
                         'Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
-                if not meta_meta['model_backend'] == self.model_backend:
+                if not meta_meta['model_backend'] == self.model_backend.lower():
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
-- 
2.43.0


From d74db63478aee76ff73fe92d0590f76363d22a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:14 +0000
Subject: [PATCH 32/46] fix: repeat unfinished Morris trajectories

---
 pygmo_fwork/optichem/morris.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index af2c8bf..fad1d75 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -441,7 +441,7 @@ class MorrisMethod(object):
         :return: None
         """
         run_dir = os.path.join(logs_traj_dir, run_id)
-        os.mkdir(run_dir)
+        os.makedirs(run_dir, exist_ok=True)  # might exist from an unfinished trajectory
         if compress:
             solution = ResultsParser.compress_solution(solution, diff_threshold=0.05, min_timestep=0.001)
         solution.to_csv(os.path.join(run_dir, 'solution.csv'))
@@ -626,7 +626,7 @@ class MorrisMethod(object):
         run_id = '{:0{}d}_initial_run'.format(0, len(str(factors_dimension)))
         model.run(
             verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
-            run_id=run_id
+            run_id=run_id, overwrite=True  # of the logs of an unfinished trajectory
         )
         if not full_log:
             self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
@@ -688,7 +688,7 @@ class MorrisMethod(object):
             run_id = '{:0{}d}_elem_effect_of_{}'.format(j+1, len(str(factors_dimension)), factor_id)
             model.run(
                 verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
-                run_id=run_id
+                run_id=run_id, overwrite=True
             )
             if not full_log:
                 self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
-- 
2.43.0


From 8ea7841f62907ec04f8d20734fee23632afbb169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:53 +0000
Subject: [PATCH 33/46] fix: build model parameters from a ModelParameters
 instance

---
 pygmo_fwork/pygmol/model_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index bfe27dc..408a52f 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -220,7 +220,7 @@ class ModelParameters(_ModelParametersBase):
         if model_params is None:
             all_passed_params = {}
         else:
-            all_passed_params = model_params.copy()
+            all_passed_params = dict(model_params)  # either a dict, or ModelParameters instance
         all_passed_params.update(additional_model_params)
 
         self.parameters = {}  # this is the "master" dict holding all the values under their nominal keys
-- 
2.43.0


From 4837a9e68ff655ff7cdc4f6d7cc362be88b684c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:41 +0000
Subject: [PATCH 34/46] fix: evaluate Morris trajectories without a
 configuration file

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index fad1d75..610b49f 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -804,7 +804,7 @@ class MorrisMethod(object):
                  mean_outputs: tuple of pd.Series with model outputs as index. These are mean model outputs across all
                                the model evaluations for this morris trajectory.
         """
-        rp = ResultsParser()
+        rp = ResultsParser(nominal_results_dir=traj_dir)
         with open(os.path.join(traj_dir, 'meta.yaml')) as stream:
             meta_dict = yaml.load(stream, Loader=yaml.FullLoader)  # extract run_ids and deltas for all the runs
         base_run_id = meta_dict['base_run_id']
-- 
2.43.0


From 90884943445d7ae87f070aff90d21c7f83366869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:08 +0000
Subject: [PATCH 35/46] fix: leave unfinished trajectories out of the Morris
 statistics

---
 pygmo_fwork/optichem/morris.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 610b49f..b1207c7 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -875,9 +875,10 @@ class MorrisMethod(object):
             logs_dir = os.path.join(morris_results_dir, str(morris_run_id), MorrisMethod.logs_dir_name)
 
         # full paths to all the trajectory directories (the ones containing run logs for all the trajectory runs)
-        traj_dirs_paths = list(
-            glob.glob(os.path.join(logs_dir, '*'))
-        )
+        # (only the finished ones, without meta.yaml the trajectory has been interrupted)
+        traj_dirs_paths = [
+            os.path.dirname(meta_path) for meta_path in glob.glob(os.path.join(logs_dir, '*', 'meta.yaml'))
+        ]
         traj_dirs_paths.sort()
 
         trajectories_stats = []  # the TrajectoryStats object for each of the found trajectories
-- 
2.43.0


From 31da1628ec35b15241980687c8f850c2458e6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:08 +0000
Subject: [PATCH 36/46] fix: rank Morris factors by any iterable of important
 outputs

---
 pygmo_fwork/optichem/morris.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index b1207c7..eeb4994 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -947,6 +947,7 @@ class MorrisMethod(object):
                              (factor) in key towards the specified global model outputs of interest.
                            The Series is sorted starting with least significant parameters.
         """
+        important_outputs = list(important_outputs)
         morris_stats = \
             MorrisMethod.get_morris_stats(morris_run_id=morris_run_id, logs_dir=logs_dir, times=important_times)
         if not set(important_outputs).issubset(set(morris_stats.mean_outputs[0].index)):
-- 
2.43.0


From f8bbdcdac0d7ade2072d3a0a49884cefc566d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:08 +0000
Subject: [PATCH 37/46] fix: rank Morris factors by the maximum of a single
 trajectory

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index eeb4994..f365a2a 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -972,7 +972,7 @@ class MorrisMethod(object):
             for i in range(len(important_times)):
                 scores_for_time = \
                     abs(morris_stats.mu_rel[i])[important_outputs].max(axis=1) + \
-                    morris_stats.sigma_rel[i][important_outputs].max(axis=1)
+                    morris_stats.sigma_rel[i][important_outputs].max(axis=1).fillna(0)  # no sigma of one trajectory
                 scores.loc[i, :] = scores_for_time
                 # max mu and sigma for each time (on each line)
             scores = scores.max(axis=0)  # only leave maximums across all the important times...
-- 
2.43.0


From b25c16460548c632281e1143919c402f7519e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:04 +0000
Subject: [PATCH 38/46] fix: raise the errors of Morris trajectories run in
 parallel

---
 pygmo_fwork/optichem/morris.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f365a2a..19c9adb 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -782,11 +782,14 @@ class MorrisMethod(object):
             num_cores = multiprocessing.cpu_count() - 1
         pool = multiprocessing.Pool(num_cores)  # pool of workers, by default using all but one PC's CPUs
 
+        results = []
         for kwds in kwds_q:  # run all the trajectories in the pool.
-            pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds)
+            results.append(pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds))
 
         pool.close()
         pool.join()
+        for result in results:
+            result.get()  # raises the error, if the trajectory failed
 
     # ********************************* POST-PROCESSING TRAJECTORIES ************************************************* #
 
-- 
2.43.0


From 7b8549b0cf9688e148f4a89483c7fae6d38aa70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:20 +0000
Subject: [PATCH 39/46] fix: dump the meta data of a Morris run in one piece
 for parallel trajectories

---
 pygmo_fwork/optichem/morris.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 19c9adb..0c4cca7 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -2,6 +2,7 @@
 import glob
 import multiprocessing
 import os
+import tempfile
 import time
 from collections import namedtuple
 from numbers import Number
@@ -393,7 +394,7 @@ class MorrisMethod(object):
                           'model_parameters' each for one supported (coded) Morris Run types
         :return: None
         """
-        if len(os.listdir(meta_dir)):
+        if os.path.isfile(os.path.join(meta_dir, 'meta.yaml')):  # the last one of the files dumped by self._dump_meta
             if not self.chemistry.check_coherence(os.path.join(meta_dir, 'chemistry_attributes.yaml')):
                 raise MorrisCoherenceError(
                     'Chemistry is not coherent with previous morris trajectories for this Morris Run ID')
@@ -422,14 +423,19 @@ class MorrisMethod(object):
         :param traj_type: (str) 'reactions', 'species', 'return_coefficients' or 'model_parameters'
         :return: None
         """
-        self.chemistry.dump_chemistry_attributes(os.path.join(meta_dir, 'chemistry_attributes.yaml'))
+        # other trajectories running in parallel must never see incomplete files:
+        with tempfile.TemporaryDirectory(dir=self.morris_run_dir) as temp_dir:
+            self.chemistry.dump_chemistry_attributes(os.path.join(temp_dir, 'chemistry_attributes.yaml'))
 
-        model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
-        with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
-            yaml.dump(model_params, stream)
+            model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
+            with open(os.path.join(temp_dir, 'model_parameters.yaml'), 'w') as stream:
+                yaml.dump(model_params, stream)
 
-        with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
-            yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
+            with open(os.path.join(temp_dir, 'meta.yaml'), 'w') as stream:
+                yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
+
+            for file_name in ['chemistry_attributes.yaml', 'model_parameters.yaml', 'meta.yaml']:
+                os.replace(os.path.join(temp_dir, file_name), os.path.join(meta_dir, file_name))
 
     @staticmethod
     def _log_solution(solution, run_id, logs_traj_dir, compress):
-- 
2.43.0


From f2a466e9245817b9a857c8f7f5ab1c415f51a62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:16 +0000
Subject: [PATCH 40/46] fix: keep the feed gas species in reductions

---
 pygmo_fwork/optichem/reduction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 09066b5..53b652d 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -65,8 +65,11 @@ class ReductionIterator(object):
         # keeping a ledger of species/reactions removing history
         self.all_eligible_species = \
             set(self.model.model.chemistry.get_species_name(special=False, disabled=False, protected=False))
-        # exclude the important species from eligible:
-        self.all_eligible_species = set(sp for sp in self.all_eligible_species if str(sp) not in self.important_outputs)
+        # exclude the important species and the feed gas species from eligible:
+        feed_species = set(self.model.model.model_params['feeds'])
+        self.all_eligible_species = set(
+            sp for sp in self.all_eligible_species if str(sp) not in self.important_outputs and sp not in feed_species
+        )
         if not len(self.all_eligible_species):
             raise ReductionInitError('The chemistry of the passed model does not have any species that can be removed!')
         self.all_species = set(self.model.model.chemistry.get_species_name())
-- 
2.43.0


From dce549a11160fbe52fa7066b0d01e7ebe3112989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:40 +0000
Subject: [PATCH 41/46] fix: do not remove important species implicitly in
 reductions

---
 pygmo_fwork/optichem/reduction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 53b652d..b93b607 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -217,6 +217,12 @@ class ReductionIterator(object):
         self.reduction_history.loc[index, ['species', 'ranking_score']] = [species, sp_ranking_score]
         species_left_before_remove = set(self.model.model.chemistry.get_species_name())
         try:
+            # other species might be removed implicitly, but only those which are allowed to be:
+            reduced_chemistry = self.model.model.chemistry.copy()
+            reduced_chemistry.disable(species=[species])
+            species_left = set(reduced_chemistry.get_species_name())
+            if not species_left_before_remove - species_left <= self.all_eligible_species:
+                raise ChemistryDisableError('Species {} cannot be removed on its own!'.format(species))
             self.model.model.chemistry.disable(species=[species])
             removed_successfully = True
         except ChemistryDisableError:  # species could not even be disabled... will be skipped.
-- 
2.43.0


From ebac3dada1f6a5bc6628014ceefb8912d3696293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 42/46] fix: restore the last state of the chemistry which was
 not undone in reductions

---
 pygmo_fwork/optichem/reduction.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index b93b607..5fd2ab5 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -76,6 +76,7 @@ class ReductionIterator(object):
         assert len(self.all_species) == self.model.model.chemistry.num_species()
         self.species_remove_attempted = set([])
         self.left_eligible_species = self.all_eligible_species.copy()
+        self.working_run_ids = []  # run ids which led to the current chemistry, without those restored afterwards
         self.reduction_history = pd.DataFrame(
             columns=[
                 'run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left',
@@ -163,6 +164,7 @@ class ReductionIterator(object):
         self.reduction_history.loc[0, ['error_base_max', 'error_base_rms']] = [0., 0.]
         self.reduction_history.loc[0, ['error_last_max', 'error_last_rms']] = [0., 0.]
         self.reduction_history.at[0, 'rm_success'] = True
+        self.working_run_ids.append(run_id)
         self.log()
 
         # prepare the solution diff instances for quantifying the errors:
@@ -205,11 +207,10 @@ class ReductionIterator(object):
 
         # if not successful (either cannot disable, or ModelSolutionError or if max_error defined and
         # backtrack_if_over_max_error is True), then the chemistry needs to be backtracked to the last "working" run id:
-        restore_mask = self.reduction_history['rm_success'].copy()
+        restore_mask = self.reduction_history['run_id'].isin(self.working_run_ids)
         if backtrack_if_over_max_error:
             restore_mask &= self.reduction_history['error_base_max'] <= self.max_error / 100
         restore_run_id = self.reduction_history.loc[restore_mask, 'run_id'].dropna().iloc[-1]
-        restore_chem_attrib_path = os.path.join(self.reduction_run_dir, restore_run_id, 'chemistry_attributes.yaml')
 
         # now do the removal and run the reduced model:
         run_id = self.model_run_id.format(index, species)
@@ -233,11 +234,10 @@ class ReductionIterator(object):
                     self._run_model(run_id)
                 except KeyboardInterrupt:
                     raise ModelSolutionError('Model solution aborted by KeyboardInterrupt')
-                self.left_eligible_species.remove(species)  # species definitely removed
             except ModelSolutionError:
                 removed_successfully = False
                 # restore the chemistry:
-                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
+                self._restore_chemistry(restore_run_id)
                 if self.verbose_level >= 2:
                     print('PyGMol solution failed, restoring chemistry to {}\n'.format(restore_run_id))
 
@@ -255,8 +255,6 @@ class ReductionIterator(object):
             implicitly_removed = species_removed - {species}
             if len(implicitly_removed):  # one or more species were removed implicitly on the back of species:
                 self.reduction_history.at[index, 'rm_additional'] = ', '.join(implicitly_removed)
-                for sp in implicitly_removed:
-                    self.left_eligible_species.remove(sp)
 
             self.reduction_history.at[index, 'run_id'] = run_id
             sol = self.model.get_solution()
@@ -270,21 +268,32 @@ class ReductionIterator(object):
             # if the error is higher than error_max, restore the chemistry:
             if backtrack_if_over_max_error and error_base_max > self.max_error / 100:
                 # restore the chemistry:
-                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
+                self._restore_chemistry(restore_run_id)
                 if self.verbose_level >= 2:
                     print('Maximum error exceeded, restoring chemistry to {}\n'.format(restore_run_id))
-                # add all the removed species back to the set of eligible species
-                # (since they may need to be removed implicitly later on with a different species...)
-                self.left_eligible_species.add(species)
-                self.left_eligible_species |= implicitly_removed
             else:
+                self.working_run_ids.append(run_id)
                 # update the last successful solution:
                 self.sol_dif_last = SolutionsDiff(sol)
 
+        # all the species removed or added back (some may need to be removed implicitly later on with a different one)
+        species_left = set(self.model.model.chemistry.get_species_name())
+        self.left_eligible_species = self.all_eligible_species & species_left
+
         # log the reduction history:
         self.log()
         return self.reduction_history.loc[index].copy()
 
+    def _restore_chemistry(self, run_id: str) -> None:
+        """Restores the chemistry of the model to the state in the run with run_id. All the later runs are forgotten.
+        :param run_id: (str) one of self.working_run_ids
+        :return: None
+        """
+        self.model.model.chemistry.load_chemistry_attributes(
+            os.path.join(self.reduction_run_dir, run_id, 'chemistry_attributes.yaml')
+        )
+        del self.working_run_ids[self.working_run_ids.index(run_id) + 1:]
+
     def log(self) -> None:
         """Logs the reduction history dataframe held in self.reduction_history to the csv table in the reduction_run_id
         directory. The name of the logged file is controlled by self.reduction_history_filename
-- 
2.43.0


From f452e9bdd4da7316c15ebf1494e5e5ece3934e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:16 +0000
Subject: [PATCH 43/46] fix: prepare the meta data of a Morris run next to
 their directory

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 0c4cca7..a290e9b 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -424,7 +424,7 @@ class MorrisMethod(object):
         :return: None
         """
         # other trajectories running in parallel must never see incomplete files:
-        with tempfile.TemporaryDirectory(dir=self.morris_run_dir) as temp_dir:
+        with tempfile.TemporaryDirectory(dir=os.path.dirname(os.path.abspath(meta_dir))) as temp_dir:
             self.chemistry.dump_chemistry_attributes(os.path.join(temp_dir, 'chemistry_attributes.yaml'))
 
             model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
-- 
2.43.0


From 63e39435b6c8c174a761e81286e9580326c1964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:40 +0000
Subject: [PATCH 44/46] fix: subscript all two-digit atom counts in LaTeX
 formulas

Only the counts 10 to 19 were put into braces, C20H42 became C_20 H_42, which shows the second digit next to the subscript.
---
 plaschem/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index c9a2961..344e421 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -38,7 +38,7 @@ class Texify:
                 of = of.replace('{}{}'.format(end, s), '{}^{}'.format(end, s))
         # numbers behind elements are subscribed
         for a in Texify.element_symbols:
-            for n in range(10, 20):
+            for n in range(10, 100):
                 of = of.replace('{}{}'.format(a, n), '{}_{{{}}}'.format(a, n))
             for n in range(1, 10):
                 of = of.replace('{}{}'.format(a, n), '{}_{}'.format(a, n))
-- 
2.43.0


From 13027dc9af0eb64b6484625699da5a35112def08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:40 +0000
Subject: [PATCH 45/46] fix: keep the zeros before the decimal point in LaTeX
 numbers

str.rstrip('.0') strips any trailing zeros and points: an activation energy of 300.0 K was shown as 3, an exponent of 10.0 as 1, an energy loss of 20.0 eV as 2.
---
 plaschem/latex.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index 344e421..6ea1836 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -96,6 +96,11 @@ class Texify:
 
         raise AssertionError('TeXify error!')
 
+    @staticmethod
+    def _strip_zeros(number):
+        """Strips the insignificant zeros after the decimal point (and the point, if nothing is left behind it)."""
+        return number.rstrip('0').rstrip('.') if '.' in number else number
+
     @staticmethod
     def texify_rate_coefficient(reaction, si_units=True, fractype='/'):
         """Returns the LaTeX equation of the Arrhenius formula with the Reaction kinetic data.
@@ -106,7 +111,7 @@ class Texify:
         # pre-exponential factor:
         a_exp = '{:.2E}'.format(reaction.get_arrh_a(si_units=si_units))
         a, exp = a_exp.split('E')
-        a = a.rstrip('.0')
+        a = Texify._strip_zeros(a)
         if int(exp) != 0:
             tex_a = r'{} \times 10^{{{}}}'.format(a, int(exp))
         else:
@@ -116,7 +121,7 @@ class Texify:
         if reaction.get_arrh_b() == 0:
             tex_b = ''
         else:
-            exp = str(round(reaction.get_arrh_b(), 2)).rstrip('.0')
+            exp = Texify._strip_zeros(str(round(reaction.get_arrh_b(), 2)))
             if reaction.is_electron_process():
                 tex_b = r' T_\mathrm{{e}}^{{{}}}'.format(exp)
             else:
@@ -129,7 +134,7 @@ class Texify:
         if reaction.get_arrh_c() == 0:
             tex_c = ''
         else:
-            act_en = str(round(abs(reaction.get_arrh_c()), 2)).rstrip('.0')
+            act_en = Texify._strip_zeros(str(round(abs(reaction.get_arrh_c()), 2)))
             sign = '-' if reaction.get_arrh_c() > 0 else ''
             if reaction.is_electron_process():
                 if fractype == 'dfrac':
@@ -358,7 +363,7 @@ class ReactionsTable(TexTable):
                 )
             elif col == r'$\Delta E_\mathrm{e}$':
                 df[col] = pd.Series(
-                    [str(round(r.get_el_en_loss(), 2)).rstrip('.0') if r.get_el_en_loss() != 0 else ''
+                    [Texify._strip_zeros(str(round(r.get_el_en_loss(), 2))) if r.get_el_en_loss() != 0 else ''
                      for r in self.reactions],
                     index=self.reactions.index
                 )
-- 
2.43.0


From 29dbad8224390ef0f74e775ce9f70788d5d11f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:40 +0000
Subject: [PATCH 46/46] fix: show all species in the LaTeX of a reaction, also
 with equal LaTeX

Species sharing a LaTeX representation overwrote each other's stoichiometric coefficients.
---
 plaschem/reactions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plaschem/reactions.py b/plaschem/reactions.py
index 953d321..4a5bfc2 100644
--- a/plaschem/reactions.py
+++ b/plaschem/reactions.py
@@ -618,19 +618,19 @@ class Reaction(object):
         if latex is not None:
             latex = str(latex)
         else:
-            species_dicts = [OrderedDict(), OrderedDict()]
-            for sp_dict, id_stoich in zip(species_dicts, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
+            species_lists = [[], []]
+            for sp_list, id_stoich in zip(species_lists, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
                 for sp_id in id_stoich:
                     sp_latex = self.get_rp(sp_id).get_latex()
                     if id_stoich[sp_id] == 1:
-                        sp_dict[sp_latex] = ''
+                        sp_list.append((sp_latex, ''))
                     elif id_stoich[sp_id] > 1:
-                        sp_dict[sp_latex] = '{} '.format(id_stoich[sp_id])
-            # now species_dicts is list with two dicts for reactants and products, where each dict is keyed by
-            # latex repr of species and value is string of the stoich coefficient (or empty string if it's 1)
+                        sp_list.append((sp_latex, '{} '.format(id_stoich[sp_id])))
+            # now species_lists has two lists for reactants and products, of pairs of latex repr of species (which
+            # several species may share) and string of the stoich coefficient (or empty string if it's 1)
             sides = [
-                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_dict.items()])
-                for species_dict in species_dicts
+                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_list])
+                for species_list in species_lists
             ]
             latex = r'{} \rightarrow {}'.format(*sides)
 
-- 
2.43.0

