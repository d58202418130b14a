From ae231f8b67faf887420c7b27121c0b41fdd1b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 01/57] fix: accept numpy integer ids as species identifiers

Chemistry.get_species_id returns numpy integers, which get_rp (and so disable and the ad-hoc setters) refused.
---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7af45a1..5e332ae 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -178,7 +178,7 @@ class Chemistry(object):
         :return: RP instance from the chemistry
         """
         try:  # is rp species id?
-            if type(rp) == int:
+            if type(rp) == int or isinstance(rp, np.integer):  # self.get_species_id returns numpy integers
                 return self._species.at[rp]
             else:
                 raise KeyError
-- 
2.43.0


From 98cb1b0756800a3b27e6ea4f6107ab63b23a3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 02/57] fix: return coefficients only of the species asked for

Ad-hoc return coefficients of a disabled (or otherwise filtered out) species, and the collapsed ones of protected
species with zero sticking, were added to the series, which also put the species into the return matrix.
---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 5e332ae..483ef11 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -722,10 +722,10 @@ class Chemistry(object):
         species = self.get_species(disabled=disabled, special=special, protected=protected)
         species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
         # update with the adhoc ret_coefs:
-        for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
+        for sp_id in species_ret_coefs.index.intersection(self.adhoc_species_attributes['ret_coefs'].index):
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
-        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special)
+        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         for sp_id in species_stick_coefs.index:
             if species_stick_coefs.at[sp_id] == 0.:
                 species_ret_coefs.at[sp_id] = {}
-- 
2.43.0


From 8bade474d6db8fb7700ee2db24f0ccfe9c13c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:38 +0000
Subject: [PATCH 03/57] fix: restore ad-hoc return coefficients which name
 disabled species

load_chemistry_attributes restored the masks first, and then refused ad-hoc return coefficients naming a return
species which had been disabled after they were set, leaving the chemistry half restored.
---
 plaschem/chemistry.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 483ef11..f8fa3f3 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -561,6 +561,14 @@ class Chemistry(object):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
         # all appears valid, so can start restoring the attributes:
+        # ad-hoc attributes (with all the species enabled, return species might have been disabled only later):
+        self.reset()
+        self.reset_adhoc_species_attributes('all')
+        for params_list in adhoc_species_attributes:
+            self.set_adhoc_species_attributes(*params_list)
+        self.reset_adhoc_reactions_attributes('all')
+        for params_list in adhoc_reactions_attributes:
+            self.set_adhoc_reactions_attributes(*params_list)
         # masks:
         self._enabled_sp[enabled_sp_ids] = True
         self._enabled_sp[disabled_sp_ids] = False
@@ -570,13 +578,6 @@ class Chemistry(object):
         self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
         self._enabled_r[enabled_r_ids] = True
         self._enabled_r[disabled_r_ids] = False
-        # ad-hoc attributes:
-        self.reset_adhoc_species_attributes('all')
-        for params_list in adhoc_species_attributes:
-            self.set_adhoc_species_attributes(*params_list)
-        self.reset_adhoc_reactions_attributes('all')
-        for params_list in adhoc_reactions_attributes:
-            self.set_adhoc_reactions_attributes(*params_list)
 
         # assert consistency to be on a safe side:
         self.assert_consistency()
-- 
2.43.0


From 0e360bd2067e2ff01e1e5e39a3859aeb5c06dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:38 +0000
Subject: [PATCH 04/57] fix: refuse truncated chemistry attributes with
 ChemistryAttributeError

An empty or truncated yaml file raised TypeError or a yaml error instead of the documented exception.
---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index f8fa3f3..240205e 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -552,7 +552,7 @@ class Chemistry(object):
 
                 xml_path = attributes['xml_path']
                 xml_hash = attributes['xml_hash']
-        except KeyError:
+        except (KeyError, TypeError, yaml.YAMLError):
             raise ChemistryAttributeError('Invalid yaml file!')
         if check_hash:
             if xml_path != self.xml_path:
-- 
2.43.0


From e0578267664bf4591d32f25b27a8aebdc91e98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 05/57] fix: copy a Chemistry subclass into the same class

NeutralChemistry.copy() raised ChemistryConsistencyError, since it built a base class Chemistry.
---
 plaschem/chemistry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 240205e..447ef75 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -96,7 +96,8 @@ class Chemistry(object):
         will still be sharing species and reactions objects.
         :return: (self instance)
         """
-        self_copy = Chemistry(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
+        self_copy = self.__class__(
+            species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
 
         # ENFORCE IDENTICAL STATE:
         # masks:
-- 
2.43.0


From 56c2426307507acf3b88fff522b0775bbf83b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 06/57] fix: convert ad-hoc attributes passed as strings to
 numbers

Strings are among the allowed types, but a str arrh_a broke the SI conversion, and a str stick_coef the model.
---
 plaschem/chemistry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 447ef75..7024f7a 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -371,8 +371,9 @@ class Chemistry(object):
             raise RPAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in RP.allowed_attribute_types[attrib]:
             raise RPAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess! Same for str, which are
+        # allowed, but the chemistry-level getters need numbers.
+        if type(value) in {np.float64, str}:
             value = float(value)
         if attrib == 'ret_coefs':
             # verify the consistency of the chemistry with new return species
@@ -423,8 +424,9 @@ class Chemistry(object):
             raise ReactionAttributeError('Adhoc changes to the {} attribute cannot be made'.format(attrib))
         if type(value) not in Reaction.allowed_attribute_types[attrib]:
             raise ReactionAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
-        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess! Same for str, which are
+        # allowed, but the chemistry-level getters need numbers.
+        if type(value) in {np.float64, str}:
             value = float(value)
         self.adhoc_reactions_attributes[attrib].at[r_id] = value
 
-- 
2.43.0


From dffa8cd5452b2b024018ea3d5e731a77c274a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 07/57] fix: return matrix with special species

get_return_matrix(special=True) set the rows and columns with .at and a mask over all the species, which raised
InvalidIndexError, and which does not match the rows when some species are disabled.
---
 plaschem/chemistry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7024f7a..46a5ef3 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -869,8 +869,9 @@ class Chemistry(object):
         ret_mat = ret_mat.fillna(0.)
 
         if special:  # fill in the special species values back to NaN's...
-            ret_mat.at[self._special_sp, :] = np.nan
-            ret_mat.at[:, self._special_sp] = np.nan
+            special_ids = ret_mat.index.intersection(self.get_special_species().index)
+            ret_mat.loc[special_ids, :] = np.nan
+            ret_mat.loc[:, special_ids] = np.nan
 
         return ret_mat
 
-- 
2.43.0


From bd4c6d85c23de784e3b11eafe9b5ac7b8cde7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 08/57] fix: parse species names with several states from xml

Multiple states are joined with commas into names such as O2(v=1,J=2), which the parser then split into two species.
---
 plaschem/xml_inputs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 2127c61..e144824 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -737,8 +737,10 @@ class XmlParser(object):
 
             attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
             # deal with the skipped tags:
-            reactants_names = [sp_name.strip() for sp_name in reaction_xml.find('reactants').text.split(',')]
-            products_names = [sp_name.strip() for sp_name in reaction_xml.find('products').text.split(',')]
+            # (names are separated by commas, but a state in parentheses might contain a comma itself)
+            separator = re.compile(r',(?![^()]*\))')
+            reactants_names = [sp_name.strip() for sp_name in separator.split(reaction_xml.find('reactants').text)]
+            products_names = [sp_name.strip() for sp_name in separator.split(reaction_xml.find('products').text)]
             reactants = [species_dict[sp_name] for sp_name in reactants_names]
             products = [species_dict[sp_name] for sp_name in products_names]
 
-- 
2.43.0


From 6b65fb489c30b79733c8dd3a66d5dc7f5604f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 09/57] fix: sort species with scandium and thallium

The list of the elements had SC for Sc and a second Ti for Tl, so sorting such species raised ValueError.
---
 plaschem/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 783140a..66cd585 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -75,10 +75,10 @@ class ReactionClassifier(object):
 
     elements_order = [
         'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca',
-        'SC', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
+        'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
         'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce',
         'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir',
-        'Pt', 'Au', 'Hg', 'Ti', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
+        'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
         'Bk', 'Cf', 'M'
     ]
 
-- 
2.43.0


From 50d5157b7c13279073c24cf33c0603a2e0435984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 10/57] fix: classify collisions of ions of the same sign, or
 without a neutral product

ReactionClassifier raised IndexError for reactions such as A+ + B+ > A + B++ or A+ + B > AB++ + e.
---
 plaschem/classification.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 66cd585..81fc051 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -413,12 +413,12 @@ class ReactionClassifier(object):
                     ):
                         r_category = 'interchange'
 
-            elif ((charges_r > 0) + (charges_r == 0)).all():
+            elif ((charges_r > 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'POSITIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified positive ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r > 0)[0][0]]
                 r_neutral = reactants[np.where(charges_r == 0)[0][0]]
-                if len(products) == len(reactants):
+                if len(products) == len(reactants) and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p > 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('+') == p_neutral.get_name() and \
@@ -431,7 +431,7 @@ class ReactionClassifier(object):
                     if r_neutral.get_name() + '+' in [sp.get_name() for sp in products]:
                         r_category = 'dissociative charge transfer'
 
-            elif ((charges_r < 0) + (charges_r == 0)).all():
+            elif ((charges_r < 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'NEGATIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified negative ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r < 0)[0][0]]
@@ -441,7 +441,7 @@ class ReactionClassifier(object):
                         r_category = 'detachment'
                     elif len(reactants) > len(products) - el_stoich_coef:
                         r_category = 'associative detachment'
-                elif len(products) == len(reactants):
+                elif len(products) == len(reactants) and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p < 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('-') == p_neutral.get_name() and \
-- 
2.43.0


From b06c27ad5ef787df4b37da4a647d47c7b717658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 11/57] fix: align reactions strings to the current order of
 species

---
 plaschem/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 81fc051..e86c0dd 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -216,7 +216,9 @@ class ReactionClassifier(object):
         self.species.sort(key=self._get_species_sort_key)
         # reset dependencies:
         self._classified_reactions = OrderedDict()
+        self._alignments = dict()
         self._memo_species_index = dict()
+        self._memo_reactions_sorted_species_names = dict()
 
     def _species_index(self, sp):
         """This is just getting index of a species inside the self.species list. Only here to optimise the lookup
-- 
2.43.0


From c54dd3daa228bea09c50388ea224a49cca83dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 12/57] fix: no NaN wall fluxes of negative ions which do not
 stick

---
 pygmo_fwork/pygmol/equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 039aa75..20d0be7 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -694,7 +694,9 @@ class Equations(object):
         if self.diffusion_model == 0:
             return -diff_c * n * s / self.diff_l ** 2 * self.volume / self.area
         elif self.diffusion_model == 1:
-            return -diff_c * n * s / (s * self.diff_l + (4 * diff_c / v_m))
+            resistance = s * self.diff_l + (4 * diff_c / v_m)
+            # species which neither diffuse nor stick (e.g. negative ions with zero sticking coefficient) have no flux
+            return np.divide(-diff_c * n * s, resistance, out=np.zeros(len(n)), where=resistance != 0)
         else:
             raise ValueError('Unsupported diffusion model!')
 
-- 
2.43.0


From 69ef8dcd382cbb155bc134119b46e630fc5a26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 13/57] fix: step powers defined at whole seconds

---
 pygmo_fwork/pygmol/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 20d0be7..1750689 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -188,7 +188,7 @@ class Equations(object):
         self.t_end = model_params['t_end']
 
         self.pow = np.array(model_params['power'])
-        self.t_pow = np.array(model_params['t_power'])
+        self.t_pow = np.array(model_params['t_power'], dtype=float)
 
         # adjust repeated values in P_t, since P_t needs to be strictly ascending - need to make it continuous func
         d_t = 0.00001 * self.t_end
-- 
2.43.0


From 9de1eff3cf105c4bd0a5f19f7bd3235c11e47f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 14/57] fix: label diagnosed quantities by what they are, not
 by their number

With as many reactions as species, rates were labelled with species names; with a single
reaction or species, scalars were labelled with its id, and the run itself failed.
---
 pygmo_fwork/pygmol/model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 35d76ef..9a5b098 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -40,6 +40,13 @@ class Model(object):
         'num_reactions'
     )
 
+    # quantities of the Equations class, which are evaluated for each reaction
+    reactions_quantities = (
+        'reaction_rate_coefficients',
+        'reaction_rates',
+        'el_en_losses'
+    )
+
     def __init__(self, chemistry, model_params):
         """Initialiser of the GlobalModel class. The model solves equations for density balance for Ns species
         and electron temperature balance. A Chemistry class instance needs to be passed as chemistry, defining
@@ -243,8 +250,13 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        diagnostics = pd.DataFrame([getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary])
-        if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
+        values = [getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary]
+        diagnostics = pd.DataFrame(values)
+        if len(values) and np.ndim(values[0]) == 0:  # one value for the whole system
+            diagnostics.columns = ['value']
+        elif quantity in self.reactions_quantities:  # a value for each reaction, whatever the number of species is
+            diagnostics.columns = list(self.chemistry.get_reactions_id())
+        elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
             diagnostics.columns = list(self.chemistry.get_species_name())
         elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
             diagnostics.columns = list(self.chemistry.get_reactions_id())
-- 
2.43.0


From d80dbb4ff6bd8b52d02f6f6965e80d21be944ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 15/57] fix: no solution of an earlier run after a failed one

A run whose solver raised left the previous solution in place and counted as a success.
---
 pygmo_fwork/pygmol/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 9a5b098..28b5c14 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -187,6 +187,9 @@ class Model(object):
         :param jacobian: (bool) if the jacobian function is to be used in the solve_ivp.
         :return: None
         """
+        # forget the previous solution, this run might fail before there is a new one
+        self.sol_raw = self.t = self.sol_primary = self.sol_secondary = None
+
         # WARNING: new Equations instance NEEDS to be created before each run, to reflect possible changes in chemistry
         self._build_equations()
 
@@ -297,7 +300,7 @@ class Model(object):
         """Method to get a success of the solution. True, if solver finished successfully, False if not.
         :return: (bool)
         """
-        return bool(self.sol_raw.success)
+        return self.sol_raw is not None and bool(self.sol_raw.success)
 
     def get_solution(self):
         """Returns a pd.DataFrame holding the time-dependent solution of the model. The DataFrame has columns
-- 
2.43.0


From dfb6379a5e5eb66cc5e5d8c23d113784fc0f2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 16/57] fix: model parameters frozen against changes of the
 passed power lists

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b5a0fa..2b882f7 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -102,7 +102,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = power_array
+        self._power_array = list(power_array)  # a copy, the caller keeps the original
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +125,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = time_array
+        self._time_array = list(time_array)  # a copy, the caller keeps the original
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
-- 
2.43.0


From 16eea09608c703e04e0b8d5660a9e5669d870042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 17/57] fix: values and items of model parameters are those
 read by their names

They handed out internal objects, through which frozen parameters could be changed.
---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 2b882f7..ce0bc53 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -302,7 +302,7 @@ class ModelParameters(_ModelParametersBase):
         return self.parameters.keys()
 
     def values(self):
-        return self.parameters.values()
+        return dict(self).values()
 
     def items(self):
-        return self.parameters.items()
+        return dict(self).items()
-- 
2.43.0


From 5b33e856803df084262a6d052189409423f8e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 18/57] fix: run ids which point to the results directory
 itself, or out of it

With overwriting on, an empty run id removed the whole results directory.
---
 pygmo_fwork/global_model.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 168c762..9c5eae5 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -168,6 +168,7 @@ class GlobalModel(object):
         if log_results:
             if not isinstance(run_id, str):  # if logging, run_id needs to be provided
                 raise GlobalModelAttributeError('If logging the run results, (str) run_id needs to be specified')
+            self._validate_run_id(run_id)
             if log_to is None:
                 log_to = Config().get_results_dir(self.backend)  # config-default results directory
             if not os.path.isdir(log_to):
@@ -227,6 +228,17 @@ class GlobalModel(object):
         if not self.success():
             raise BackendRunUnsuccessfulError('Last run unsuccessful - no solution!')
 
+    @staticmethod
+    def _validate_run_id(run_id):
+        """The run_id names a directory inside of the results directory, which might get removed and written again.
+        Raises GlobalModelAttributeError, if it points to the results directory itself, or outside of it.
+        :param run_id: (str)
+        :return: None
+        """
+        path = os.path.normpath(run_id)
+        if os.path.isabs(path) or path.split(os.sep)[0] in {os.curdir, os.pardir}:
+            raise GlobalModelAttributeError('The run_id "{}" does not name a directory for the results!'.format(run_id))
+
     def log_results(self, run_id, results_dir, init_params, overwrite=False, compress=False):
         """Logs/copies all the appropriate results into the results_dir/run_id folder. Does not check for the folder
         existence, permissions etc. This should be done on the level of calling methods (it is implemented in
@@ -240,6 +252,7 @@ class GlobalModel(object):
         :return: None
         """
         self.assert_success()
+        self._validate_run_id(run_id)
 
         if not os.path.isdir(results_dir):
             raise GlobalModelLogError('Invalid or non existing results_dir!')
-- 
2.43.0


From 27520723fb2fc2c47127b40983128edbd08038e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 19/57] fix: log parameters given as numpy numbers so that they
 can be loaded back

---
 pygmo_fwork/global_model.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 9c5eae5..7b76f41 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -228,6 +228,20 @@ class GlobalModel(object):
         if not self.success():
             raise BackendRunUnsuccessfulError('Last run unsuccessful - no solution!')
 
+    @staticmethod
+    def _builtin_types(item):
+        """Converts numpy numbers nested in the item to the builtin ones, only those are loaded back from yaml logs.
+        :param item: (dict, list, tuple, Number, str or None)
+        :return: the same structure with builtin types only
+        """
+        if isinstance(item, dict):
+            return {key: GlobalModel._builtin_types(value) for key, value in item.items()}
+        if isinstance(item, (list, tuple)):
+            return [GlobalModel._builtin_types(value) for value in item]
+        if isinstance(item, np.generic):
+            return item.item()
+        return item
+
     @staticmethod
     def _validate_run_id(run_id):
         """The run_id names a directory inside of the results directory, which might get removed and written again.
@@ -284,7 +298,7 @@ class GlobalModel(object):
         with open(os.path.join(
                 run_results_dir, Config.default_log_name('model_attributes', run_id=run_id)), 'w') as stream:
             yaml.dump(
-                {'model_params': model_params, 'initial_params': init_params},
+                self._builtin_types({'model_params': model_params, 'initial_params': init_params}),
                 stream=stream
             )
 
-- 
2.43.0


From a66c3a4e392e29003b6ebe87aa7a323deb624323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 20/57] fix: compress wall fluxes and solutions without a
 complete index

---
 pygmo_fwork/results.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f5154c3..c57af5f 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -492,7 +492,7 @@ class ResultsParser(object):
         :return: (pd.DataFrame) solution dataframe with the same columns as the full_sol, but compressed (not
                  containing all the original timesteps)
         """
-        drop_index = set([])  # all the indices to be dropped from the full solution!
+        drop_index = []  # all the indices to be dropped from the full solution!
         min_step_abs = full_sol['t'].iloc[-1]*min_timestep  # minimal allowed step between two subsequent timeframes
 
         front_index = 0
@@ -505,13 +505,14 @@ class ResultsParser(object):
             while True:
                 if next_index >= len(full_sol.index) - 1:
                     break
-                diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/full_sol.loc[front_index]
+                diff = abs(full_sol.iloc[next_index] - full_sol.iloc[front_index])
+                # relative to the absolute value (wall fluxes are negative), no difference if nothing changed (zeros)
+                rel_diff = (diff/abs(full_sol.iloc[front_index])).where(diff != 0, 0.)
                 if diff['t'] < min_step_abs:
-                    drop_index.add(next_index)
+                    drop_index.append(full_sol.index[next_index])
                     next_index += 1
                 elif (rel_diff < diff_threshold).drop('t').all():
-                    drop_index.add(next_index)
+                    drop_index.append(full_sol.index[next_index])
                     next_index += 1
                 else:
                     break
-- 
2.43.0


From d06079012a83d9e018dfcb83d517f28fc1557f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 21/57] fix: print production and consumption processes with
 current pandas

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index c57af5f..2944796 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -430,7 +430,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         production_rates = all_rates[all_rates > 0]
         # capping
         if n is None:
@@ -463,7 +463,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         consumption_rates = all_rates[all_rates < 0]
         # capping
         if n is None:
-- 
2.43.0


From 7d36d5dfeb0b398ee0e13fdf884bba6c1de37d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 22/57] fix: sort surface rates in the documented order

---
 pygmo_fwork/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 2944796..5e770b5 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -396,6 +396,8 @@ class ResultsParser(object):
         # select just non-zero elements from one row belonging to the species sp:
         surface_rates = surface_rates_matrix.loc[sp_id]
         surface_rates = surface_rates[surface_rates != 0]
+        # sort values:
+        surface_rates = surface_rates.sort_values(ascending=False)
 
         # annotate:
         if annotate:
-- 
2.43.0


From 1e670d13a64e652c93f6eba64edcc4d7ba78d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 23/57] fix: max flow with current pandas

---
 pygmo_fwork/optichem/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 15bf7aa..227df22 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,8 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        capacity = pd.DataFrame(index=self.get_nodes(), columns=self.get_nodes())
+        nodes = sorted(self.get_nodes())
+        capacity = pd.DataFrame(index=nodes, columns=nodes)
         for u in self.get_nodes():
             for v in self.get_nodes():
                 if self.has_edge(u, v):
-- 
2.43.0


From 9417458f279199dc0c6a4cdb856b3faed7780837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 24/57] fix: DRGEP weights of species with equal production and
 consumption

---
 pygmo_fwork/optichem/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 227df22..09a09e9 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -469,9 +469,7 @@ class ChemistryGraph(object):
             assert (tot_prod >= 0).all()
             assert (tot_cons >= 0).all()
             # build the normalisation array (N_times x N_species):
-            norm = np.zeros(tot_prod.shape)
-            norm[tot_prod > tot_cons] = tot_prod[tot_prod > tot_cons]
-            norm[tot_cons > tot_prod] = tot_cons[tot_cons > tot_prod]
+            norm = np.maximum(tot_prod, tot_cons)
             # rows are important times and columns are species
         else:
             raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
-- 
2.43.0


From a10dedacc042389ed47a633046c095efce16b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 25/57] fix: rank uncoupled species and at important times
 close to each other

---
 pygmo_fwork/optichem/graph.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 09a09e9..8693676 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -516,11 +516,9 @@ class ChemistryGraph(object):
         assessed_species = self.species[[sp not in static_species for sp in self.species]]
         # frame with rows for all important outputs and times and columns only species I'm ranking (not special or imp.)
         # the values are dependent on the search method.
-        ranking_all = pd.DataFrame(columns=assessed_species)  # only a seed...
+        ranking_all = []
         for important_sp in important_species:
-            for t_i, important_time in enumerate(self.important_times):
-                graph = self.graphs[t_i]
-                index = '{} ({:.3e})'.format(important_sp, important_time)
+            for graph in self.graphs:  # one for each important time
                 if search_method == 'max_bottleneck':
                     paths, scores = graph.find_max_bottleneck_paths(target_node=important_sp, edge_attribute='weight')
                 elif search_method == 'shortest_path':
@@ -532,14 +530,15 @@ class ChemistryGraph(object):
                                                               inverse=lambda x: 1/np.exp(x))
                 elif search_method == 'max_flow':
                     scores = {}
-                    for sp in assessed_species:
+                    for sp in graph.get_nodes().intersection(assessed_species):
                         max_flow = graph.get_max_flow(source_node=sp, target_node=important_sp, edge_attribute='weight')
                         scores[sp] = max_flow
                 else:
                     raise ValueError('Unrecognised search method: {}'.format(search_method))
-                ranking_all.loc[index, :] = scores
+                # species which are not coupled to any other one are not nodes of the graph
+                ranking_all.append({sp: scores.get(sp, 0.) for sp in assessed_species})
 
-        ranking = ranking_all.max(axis=0)
+        ranking = pd.DataFrame(ranking_all, columns=assessed_species).max(axis=0)
         # sort values (also first sorting by keys, so order for species with the same scores is consistent)
         ranking = ranking[sorted(ranking.index)]
         ranking = ranking.sort_values(ascending=True)
-- 
2.43.0


From 7b565425726114fce35f0fd43e39736fbe590fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 26/57] fix: add Morris trajectories with a backend not named
 in lower case

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f67c08b..7670c98 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -407,7 +407,7 @@ class MorrisMethod(object):
                 if not meta_meta['trajectory_type'] == traj_type:
                     raise MorrisCoherenceError(
                         'Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
-                if not meta_meta['model_backend'] == self.model_backend:
+                if not meta_meta['model_backend'] == self.model_backend.lower():
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
-- 
2.43.0


From fc13a66a763172a999c2ef72555a7f544132f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 27/57] fix: log parameters of a Morris run given as numpy
 numbers so that they can be loaded back

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 7670c98..ec6f74a 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -426,7 +426,7 @@ class MorrisMethod(object):
 
         model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
         with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
-            yaml.dump(model_params, stream)
+            yaml.dump(GlobalModel._builtin_types(model_params), stream)
 
         with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
             yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
-- 
2.43.0


From 7e0407e59cf37ee956b8351c6867ca4de81646e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 28/57] fix: run a Morris trajectory again after it was
 interrupted

---
 pygmo_fwork/optichem/morris.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index ec6f74a..33b663a 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -441,7 +441,7 @@ class MorrisMethod(object):
         :return: None
         """
         run_dir = os.path.join(logs_traj_dir, run_id)
-        os.mkdir(run_dir)
+        os.makedirs(run_dir, exist_ok=True)  # might be there already from an unfinished trajectory
         if compress:
             solution = ResultsParser.compress_solution(solution, diff_threshold=0.05, min_timestep=0.001)
         solution.to_csv(os.path.join(run_dir, 'solution.csv'))
@@ -625,7 +625,7 @@ class MorrisMethod(object):
             print('{}\t..::: EVALUATING MODEL WITH INITIAL FACTORS :::..'.format(time.strftime('%H:%M:%S')))
         run_id = '{:0{}d}_initial_run'.format(0, len(str(factors_dimension)))
         model.run(
-            verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
+            verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir, overwrite=True,
             run_id=run_id
         )
         if not full_log:
@@ -687,7 +687,7 @@ class MorrisMethod(object):
                     time.strftime('%H:%M:%S'), factor_id, j+1, factors_dimension))
             run_id = '{:0{}d}_elem_effect_of_{}'.format(j+1, len(str(factors_dimension)), factor_id)
             model.run(
-                verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
+                verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir, overwrite=True,
                 run_id=run_id
             )
             if not full_log:
-- 
2.43.0


From d9cbecb100d64008600cf02dd3f8a68ea6b171d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 29/57] fix: Morris statistics while some trajectories are not
 finished

---
 pygmo_fwork/optichem/morris.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 33b663a..9c51181 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -875,9 +875,10 @@ class MorrisMethod(object):
             logs_dir = os.path.join(morris_results_dir, str(morris_run_id), MorrisMethod.logs_dir_name)
 
         # full paths to all the trajectory directories (the ones containing run logs for all the trajectory runs)
-        traj_dirs_paths = list(
-            glob.glob(os.path.join(logs_dir, '*'))
-        )
+        # unfinished trajectories do not have their meta file (yet)
+        traj_dirs_paths = [
+            os.path.dirname(meta_path) for meta_path in glob.glob(os.path.join(logs_dir, '*', 'meta.yaml'))
+        ]
         traj_dirs_paths.sort()
 
         trajectories_stats = []  # the TrajectoryStats object for each of the found trajectories
-- 
2.43.0


From d0ef1f10e63bbeca7aa296e726b656396f3c4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 30/57] fix: Morris ranking by a tuple of outputs

---
 pygmo_fwork/optichem/morris.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 9c51181..40ace34 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -949,6 +949,7 @@ class MorrisMethod(object):
         """
         morris_stats = \
             MorrisMethod.get_morris_stats(morris_run_id=morris_run_id, logs_dir=logs_dir, times=important_times)
+        important_outputs = list(important_outputs)  # might be any iterable
         if not set(important_outputs).issubset(set(morris_stats.mean_outputs[0].index)):
             raise ValueError('Some of the passed outputs of interest are not among the model outputs!')
 
-- 
2.43.0


From cfc24a2d589c22daec52750d1c992a2eee7dd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 31/57] fix: Morris trajectories lost when run in parallel with
 another one logging meta data

---
 pygmo_fwork/optichem/morris.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 40ace34..db363e2 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -393,7 +393,7 @@ class MorrisMethod(object):
                           'model_parameters' each for one supported (coded) Morris Run types
         :return: None
         """
-        if len(os.listdir(meta_dir)):
+        if os.path.isfile(os.path.join(meta_dir, 'meta.yaml')):
             if not self.chemistry.check_coherence(os.path.join(meta_dir, 'chemistry_attributes.yaml')):
                 raise MorrisCoherenceError(
                     'Chemistry is not coherent with previous morris trajectories for this Morris Run ID')
@@ -422,14 +422,20 @@ class MorrisMethod(object):
         :param traj_type: (str) 'reactions', 'species', 'return_coefficients' or 'model_parameters'
         :return: None
         """
-        self.chemistry.dump_chemistry_attributes(os.path.join(meta_dir, 'chemistry_attributes.yaml'))
+        # other trajectories might be reading the files in parallel: replace only with complete ones, meta.yaml the last
+        temp_path = os.path.join(meta_dir, '.{}.temp'.format(os.getpid()))
+
+        self.chemistry.dump_chemistry_attributes(temp_path)
+        os.replace(temp_path, os.path.join(meta_dir, 'chemistry_attributes.yaml'))
 
         model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
-        with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
+        with open(temp_path, 'w') as stream:
             yaml.dump(GlobalModel._builtin_types(model_params), stream)
+        os.replace(temp_path, os.path.join(meta_dir, 'model_parameters.yaml'))
 
-        with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
+        with open(temp_path, 'w') as stream:
             yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
+        os.replace(temp_path, os.path.join(meta_dir, 'meta.yaml'))
 
     @staticmethod
     def _log_solution(solution, run_id, logs_traj_dir, compress):
-- 
2.43.0


From eca96316137d7cb0be3a7bcda6a68a22355dd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 32/57] fix: results frames for a single time with current
 pandas

---
 pygmo_fwork/results.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 5e770b5..eb76197 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -238,13 +238,11 @@ class ResultsParser(object):
             assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], \
                 'time={} is outside the results_df range'.format(t)
 
-        frames = pd.DataFrame(columns=results_df.columns)
-        frames.loc[:, 't'] = times
+        frames = pd.DataFrame({'t': np.array(times)}, columns=results_df.columns)
         ignore_columns = {'t'}
         for col in results_df.columns:
             if col not in ignore_columns:
-                vals_at_times = np.interp(times, results_df['t'], results_df[col])
-                frames.loc[:, col] = vals_at_times
+                frames[col] = np.interp(times, results_df['t'].astype(float), results_df[col].astype(float))
         return frames
 
     def fetch_model_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
-- 
2.43.0


From 252719476202f202fd94e567ae0b6da6e0657c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 33/57] fix: read logged results exactly, so that the end time
 is inside of their range

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 pygmo_fwork/results.py            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 09066b5..f16d16b 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -133,7 +133,7 @@ class ReductionIterator(object):
             log_path = os.path.join(self.reduction_run_dir, run_id, file_name)
             if log_flag and self.compress_logs:
                 # Compress the log. Faster than calling model.run with compress=True, if not saving all logs.
-                log = pd.read_csv(log_path, index_col=0)
+                log = pd.read_csv(log_path, index_col=0, float_precision='round_trip')
                 log = ResultsParser.compress_solution(log, diff_threshold=0.05, min_timestep=0.001)
                 log.to_csv(log_path)
             elif not log_flag:  # remove the log if logging turned off for this file...
diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index eb76197..fa4291c 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -162,7 +162,7 @@ class ResultsParser(object):
         sol_path = os.path.join(run_dir, file_name)
         if not os.path.isfile(sol_path):
             raise ResultsNotFoundError('Solution not found in "{}"!'.format(sol_path))
-        solution = pd.read_csv(sol_path, index_col=0)  # read the solution from the csv log file
+        solution = pd.read_csv(sol_path, index_col=0, float_precision='round_trip')  # read the solution from the csv log file
         return solution
 
     def fetch_rates(self, run_id, backend=None, results_dir=None, file_name=None):
@@ -189,7 +189,7 @@ class ResultsParser(object):
         rates_path = os.path.join(run_dir, file_name)
         if not os.path.isfile(rates_path):
             raise ResultsNotFoundError('Rates not found in "{}"!'.format(rates_path))
-        rates = pd.read_csv(rates_path, index_col=0)  # read the csv into a DataFrame
+        rates = pd.read_csv(rates_path, index_col=0, float_precision='round_trip')  # read the csv into a DataFrame
         # change the columns for reaction ids from str to int...
         columns = np.array(rates.columns, dtype=object)
         columns[1:] = np.array(columns[1:], dtype=int)
@@ -220,7 +220,7 @@ class ResultsParser(object):
         wall_fluxes_path = os.path.join(run_dir, file_name)
         if not os.path.isfile(wall_fluxes_path):
             raise ResultsNotFoundError('Wall fluxes not found in "{}"!'.format(wall_fluxes_path))
-        wall_fluxes = pd.read_csv(wall_fluxes_path, index_col=0)  # read the csv into a DataFrame
+        wall_fluxes = pd.read_csv(wall_fluxes_path, index_col=0, float_precision='round_trip')  # read the csv into a DataFrame
         return wall_fluxes
 
     @staticmethod
-- 
2.43.0


From 9d62cb82541a08028618553299fa6e8a96edf089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 34/57] fix: reductions do not remove the feed species, or
 important species on the back of other species

---
 pygmo_fwork/optichem/reduction.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index f16d16b..cf9b63d 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -66,7 +66,9 @@ class ReductionIterator(object):
         self.all_eligible_species = \
             set(self.model.model.chemistry.get_species_name(special=False, disabled=False, protected=False))
         # exclude the important species from eligible:
-        self.all_eligible_species = set(sp for sp in self.all_eligible_species if str(sp) not in self.important_outputs)
+        # (neither can the feed gas species be removed)
+        self.kept_species = set(self.important_outputs) | set(self.model.model.model_params['feeds'])
+        self.all_eligible_species = set(sp for sp in self.all_eligible_species if str(sp) not in self.kept_species)
         if not len(self.all_eligible_species):
             raise ReductionInitError('The chemistry of the passed model does not have any species that can be removed!')
         self.all_species = set(self.model.model.chemistry.get_species_name())
@@ -220,6 +222,11 @@ class ReductionIterator(object):
             removed_successfully = False
         if removed_successfully:
             try:
+                # important and feed species might have been removed on the back of the species:
+                missing = self.kept_species & (
+                    species_left_before_remove - set(self.model.model.chemistry.get_species_name()))
+                if missing:
+                    raise ModelSolutionError('Species {} cannot be removed!'.format(', '.join(sorted(missing))))
                 try:
                     self._run_model(run_id)
                 except KeyboardInterrupt:
-- 
2.43.0


From 551a8f56b8014c034611003e7ab65e5b68abec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 35/57] fix: species eligible for removal after the chemistry
 was restored

---
 pygmo_fwork/optichem/reduction.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index cf9b63d..6d3613d 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -231,7 +231,6 @@ class ReductionIterator(object):
                     self._run_model(run_id)
                 except KeyboardInterrupt:
                     raise ModelSolutionError('Model solution aborted by KeyboardInterrupt')
-                self.left_eligible_species.remove(species)  # species definitely removed
             except ModelSolutionError:
                 removed_successfully = False
                 # restore the chemistry:
@@ -253,8 +252,6 @@ class ReductionIterator(object):
             implicitly_removed = species_removed - {species}
             if len(implicitly_removed):  # one or more species were removed implicitly on the back of species:
                 self.reduction_history.at[index, 'rm_additional'] = ', '.join(implicitly_removed)
-                for sp in implicitly_removed:
-                    self.left_eligible_species.remove(sp)
 
             self.reduction_history.at[index, 'run_id'] = run_id
             sol = self.model.get_solution()
@@ -271,14 +268,13 @@ class ReductionIterator(object):
                 self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
                 if self.verbose_level >= 2:
                     print('Maximum error exceeded, restoring chemistry to {}\n'.format(restore_run_id))
-                # add all the removed species back to the set of eligible species
-                # (since they may need to be removed implicitly later on with a different species...)
-                self.left_eligible_species.add(species)
-                self.left_eligible_species |= implicitly_removed
             else:
                 # update the last successful solution:
                 self.sol_dif_last = SolutionsDiff(sol)
 
+        # species restored with the chemistry may need to be removed implicitly later on with a different species...
+        self.left_eligible_species = self.all_eligible_species & set(self.model.model.chemistry.get_species_name())
+
         # log the reduction history:
         self.log()
         return self.reduction_history.loc[index].copy()
-- 
2.43.0


From 31dd495dd6b057f5ec83aae89115e36fc7872e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 36/57] fix: failed removal of a species restores the chemistry
 from before the attempt

---
 pygmo_fwork/optichem/reduction.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 6d3613d..8290dcf 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -88,6 +88,8 @@ class ReductionIterator(object):
         # successful run:
         self.sol_dif_base = None
         self.sol_dif_last = None
+        # the run with the same chemistry as the current one (to restore the chemistry if a removal fails):
+        self.current_run_id = None
 
         # logging settings:
         self.compress_logs = True
@@ -168,6 +170,7 @@ class ReductionIterator(object):
         base_sol = self.model.get_solution()
         self.sol_dif_base = SolutionsDiff(base_sol)
         self.sol_dif_last = SolutionsDiff(base_sol)
+        self.current_run_id = run_id
 
     def remove_one_species_and_run(
             self, species: str, sp_ranking_score: float = np.nan, backtrack_if_over_max_error: bool = False):
@@ -234,9 +237,10 @@ class ReductionIterator(object):
             except ModelSolutionError:
                 removed_successfully = False
                 # restore the chemistry:
-                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
+                self.model.model.chemistry.load_chemistry_attributes(
+                    os.path.join(self.reduction_run_dir, self.current_run_id, 'chemistry_attributes.yaml'))
                 if self.verbose_level >= 2:
-                    print('PyGMol solution failed, restoring chemistry to {}\n'.format(restore_run_id))
+                    print('PyGMol solution failed, restoring chemistry to {}\n'.format(self.current_run_id))
 
         # irrespective of the success of removing or running the reduced model, log these:
         species_left = set(self.model.model.chemistry.get_species_name())
@@ -266,11 +270,13 @@ class ReductionIterator(object):
             if backtrack_if_over_max_error and error_base_max > self.max_error / 100:
                 # restore the chemistry:
                 self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
+                self.current_run_id = restore_run_id
                 if self.verbose_level >= 2:
                     print('Maximum error exceeded, restoring chemistry to {}\n'.format(restore_run_id))
             else:
                 # update the last successful solution:
                 self.sol_dif_last = SolutionsDiff(sol)
+                self.current_run_id = run_id
 
         # species restored with the chemistry may need to be removed implicitly later on with a different species...
         self.left_eligible_species = self.all_eligible_species & set(self.model.model.chemistry.get_species_name())
-- 
2.43.0


From c464a8cbc7167cdfb386b00ffb3e83715f27d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 37/57] fix: wall fluxes of the neutral model

---
 pygmo_fwork/pygmol/neutral_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 3a64024..e0d080d 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -67,6 +67,8 @@ class NeutralEquations(Equations):
         return self.sigma_sc
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
+        if diff_c_free is None:
+            diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
     # redefine the objective function factory, so it does not calculate unnecessary clutter
-- 
2.43.0


From 2f6b5dbe4f7da20da71cc981262d4b4f12ae33ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 38/57] fix: derivative of the electron energy density held at
 zero in the neutral model

---
 pygmo_fwork/pygmol/neutral_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index e0d080d..0ae6b6e 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -71,6 +71,9 @@ class NeutralEquations(Equations):
             diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
+    def get_drho_dt(self, t, y, *args, **kwargs):
+        return 0.
+
     # redefine the objective function factory, so it does not calculate unnecessary clutter
     def get_objective_functions(self, jacobian=False):
         if jacobian:
-- 
2.43.0


From e32fd38cee3de42c44d7157a45f294fbb09cb2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 39/57] fix: pretty print with current pandas

---
 plaschem/pretty_print.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 303e3d1..6cfc83f 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -53,7 +53,7 @@ class PrettyPrint(object):
         """
 
         # create a top level copy of the array where I'll wrap the objects in color and insert the annotations:
-        to_print = array.copy()
+        to_print = array.astype(object)
 
         # colorfy the objects (values)
         for i in to_print.index:
@@ -78,8 +78,8 @@ class PrettyPrint(object):
             columns_labels = pd.Series([ColorValue(str(a)) for a in columns_labels_objects],
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
-            columns_labels = pd.Series([ColorValue(''), ], index=[-1]).append(columns_labels)
-            to_print = pd.DataFrame(columns_labels[to_print.columns]).T.append(to_print)
+            columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
+            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
-- 
2.43.0


From d8e0455f8cba0f3fa6be86db13da3cc4ceae82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 40/57] fix: keep the ids of the first row and column if
 pretty-printed without annotations

---
 plaschem/pretty_print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 6cfc83f..385f2bb 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -94,8 +94,9 @@ class PrettyPrint(object):
                     to_print.at[i, c].set_color('RED')
 
         # remove the index and columns values for the label row and column:
-        to_print.index = ['', ] + list(to_print.index)[1:]
-        to_print.columns = ['', ] + list(to_print.columns)[1:]
+        if annotation:
+            to_print.index = ['', ] + list(to_print.index)[1:]
+            to_print.columns = ['', ] + list(to_print.columns)[1:]
 
         # colorify columns. Index cannot be colorfied, since it will mess up the alignment.
         to_print.columns = [ColorValue(c) for c in to_print.columns]
-- 
2.43.0


From cc097f0bcf953b3f438493f4aac5a4060e6abe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 41/57] fix: pretty print of matrices of reactions numbered as
 the species

---
 plaschem/pretty_print.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 385f2bb..9575c93 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -67,6 +67,10 @@ class PrettyPrint(object):
                 if set(getattr(to_print, keys)).issubset(set(getattr(self.chemistry, '_{}'.format(candidates)).index)):
                     structure[keys] = candidates
                     break
+        # the ids of reactions might be ids of species, too. Both the axes belong to species only if they are the same.
+        if set(to_print.index).issubset(set(self.chemistry._reactions.index)) and \
+                structure.get('columns') == 'species' and list(to_print.index) != list(to_print.columns):
+            structure['index'] = 'reactions'
         # model structure after the loop: {'index': 'reactions', 'columns': 'species'}
 
         if annotation:
-- 
2.43.0


From ea401659f44f4aeb0a2c9d478cfdecfd91b896ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 42/57] fix: keep zeros of whole numbers in LaTeX

---
 plaschem/latex.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index c9a2961..8fd2295 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -96,6 +96,16 @@ class Texify:
 
         raise AssertionError('TeXify error!')
 
+    @staticmethod
+    def strip_zeros(number):
+        """Returns string of a number without the trailing zeros behind the decimal point.
+        :param number: (str)
+        :return: (str)
+        """
+        if '.' in number and 'e' not in number:
+            number = number.rstrip('0').rstrip('.')
+        return number
+
     @staticmethod
     def texify_rate_coefficient(reaction, si_units=True, fractype='/'):
         """Returns the LaTeX equation of the Arrhenius formula with the Reaction kinetic data.
@@ -106,7 +116,7 @@ class Texify:
         # pre-exponential factor:
         a_exp = '{:.2E}'.format(reaction.get_arrh_a(si_units=si_units))
         a, exp = a_exp.split('E')
-        a = a.rstrip('.0')
+        a = Texify.strip_zeros(a)
         if int(exp) != 0:
             tex_a = r'{} \times 10^{{{}}}'.format(a, int(exp))
         else:
@@ -116,7 +126,7 @@ class Texify:
         if reaction.get_arrh_b() == 0:
             tex_b = ''
         else:
-            exp = str(round(reaction.get_arrh_b(), 2)).rstrip('.0')
+            exp = Texify.strip_zeros(str(round(reaction.get_arrh_b(), 2)))
             if reaction.is_electron_process():
                 tex_b = r' T_\mathrm{{e}}^{{{}}}'.format(exp)
             else:
@@ -129,7 +139,7 @@ class Texify:
         if reaction.get_arrh_c() == 0:
             tex_c = ''
         else:
-            act_en = str(round(abs(reaction.get_arrh_c()), 2)).rstrip('.0')
+            act_en = Texify.strip_zeros(str(round(abs(reaction.get_arrh_c()), 2)))
             sign = '-' if reaction.get_arrh_c() > 0 else ''
             if reaction.is_electron_process():
                 if fractype == 'dfrac':
@@ -358,7 +368,7 @@ class ReactionsTable(TexTable):
                 )
             elif col == r'$\Delta E_\mathrm{e}$':
                 df[col] = pd.Series(
-                    [str(round(r.get_el_en_loss(), 2)).rstrip('.0') if r.get_el_en_loss() != 0 else ''
+                    [Texify.strip_zeros(str(round(r.get_el_en_loss(), 2))) if r.get_el_en_loss() != 0 else ''
                      for r in self.reactions],
                     index=self.reactions.index
                 )
-- 
2.43.0


From 21d27a674bae275e2617e82fc0cc617a0d70fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 43/57] fix: LaTeX of reactions between species with the same
 LaTeX

---
 plaschem/reactions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plaschem/reactions.py b/plaschem/reactions.py
index 953d321..529eca9 100644
--- a/plaschem/reactions.py
+++ b/plaschem/reactions.py
@@ -618,19 +618,19 @@ class Reaction(object):
         if latex is not None:
             latex = str(latex)
         else:
-            species_dicts = [OrderedDict(), OrderedDict()]
-            for sp_dict, id_stoich in zip(species_dicts, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
+            species_sides = [[], []]
+            for sp_side, id_stoich in zip(species_sides, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
                 for sp_id in id_stoich:
                     sp_latex = self.get_rp(sp_id).get_latex()
                     if id_stoich[sp_id] == 1:
-                        sp_dict[sp_latex] = ''
+                        sp_side.append((sp_latex, ''))
                     elif id_stoich[sp_id] > 1:
-                        sp_dict[sp_latex] = '{} '.format(id_stoich[sp_id])
-            # now species_dicts is list with two dicts for reactants and products, where each dict is keyed by
-            # latex repr of species and value is string of the stoich coefficient (or empty string if it's 1)
+                        sp_side.append((sp_latex, '{} '.format(id_stoich[sp_id])))
+            # now species_sides has two lists for reactants and products of tuples of the latex repr of species and
+            # string of the stoich coefficient (or empty string if it's 1)
             sides = [
-                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_dict.items()])
-                for species_dict in species_dicts
+                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_side])
+                for species_side in species_sides
             ]
             latex = r'{} \rightarrow {}'.format(*sides)
 
-- 
2.43.0


From a2bf394f5250a5d9b285f22ca7d354ff9bfbc802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 44/57] fix: no color for the elastic attributes which are as
 they were given

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 46a5ef3..7fa3bb9 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -1175,9 +1175,9 @@ class Chemistry(object):
                             if not equal:
                                 # if saved attribute is 'True' or 'False', need to catch it:
                                 if saved_attrib in {'True', 'true', 'TRUE'}:
-                                    equal = returned_attrib is True
+                                    equal = bool(returned_attrib) is True  # might be numpy bool
                                 elif saved_attrib in {'False', 'false', 'FALSE'}:
-                                    equal = returned_attrib is False
+                                    equal = bool(returned_attrib) is False
                                 else:  # if not boolean, it should be number...
                                     try:  # float attributes might be saved as int or str...
                                         equal = float(saved_attrib) == float(returned_attrib)
-- 
2.43.0


From caefa4b87ee990f983ea2f8977c885836a731a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 45/57] fix: pretty print of matrices without the species or
 reaction of id 0

---
 plaschem/pretty_print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 9575c93..2e91c0f 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -83,7 +83,7 @@ class PrettyPrint(object):
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
             columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
-            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
+            to_print = pd.concat([pd.DataFrame({-1: columns_labels[to_print.columns]}).T, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
-- 
2.43.0


From 38bc5cb4c9923a04e668e0635694a92723bcd3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:47 +0000
Subject: [PATCH 46/57] fix: config error for files which are not yaml

---
 pygmo_fwork/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/config.py b/pygmo_fwork/config.py
index 88ca43c..7283d16 100644
--- a/pygmo_fwork/config.py
+++ b/pygmo_fwork/config.py
@@ -31,7 +31,7 @@ class Config(dict):
         with open(config_file_path, 'r') as stream:
             try:  # try yaml loading the config into a dict
                 config_dict = dict(yaml.load(stream, yaml.FullLoader))
-            except (TypeError, ValueError) as _:
+            except (TypeError, ValueError, yaml.YAMLError) as _:
                 raise ConfigError('Failed to parse the config file! Needs to follow the prescribed format & structure!')
 
         # instantiate with the parsed dictionary
-- 
2.43.0


From 7220308708bf6f6be1bc1c3eeff975701956f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:31 +0000
Subject: [PATCH 47/57] fix: label the results of a run with the species and
 reactions it was run with

---
 pygmo_fwork/pygmol/equations.py | 3 +++
 pygmo_fwork/pygmol/model.py     | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 1750689..629dfb1 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -56,6 +56,8 @@ class Equations(object):
           described by the Arrhenius formula - by 3 parameters arrh_a, arrh_b and arrh_c. arrh_a is in [SI]
           For electron collisions: k = arrh_a * (el_temp/1eV)**arrh_b * exp(-el_temp/arrh_c), arrh_c is in [eV]
           For heavy particle collisions: k = arrh_a * (gas_temp/300K)**arrh_b * exp(-gas_temp/arrh_c), arrh_c is in [K]
+            - Chemistry.get_reactions_id()
+                Returns array of the unique reactions ids
             - Chemistry.get_reactions_arrh_a()
                 Returns array of (float) of arrh_a parameters for all the reactions
             - Chemistry.get_reactions_arrh_b()
@@ -161,6 +163,7 @@ class Equations(object):
         self.species_stick_coef = np.array(chemistry.get_species_stick_coef())
         self.num_species = len(self.species_name)
         # reactions attributes:
+        self.reactions_id = list(chemistry.get_reactions_id())  # only used to label the partial results
         self.reactions_arrh_a = np.array(chemistry.get_reactions_arrh_a())  # arrhenius pre-exp. factor in [SI]
         self.reactions_arrh_b = np.array(chemistry.get_reactions_arrh_b())  # arrhenius n-factor
         self.reactions_arrh_c = np.array(chemistry.get_reactions_arrh_c())  # arrhenius activation en [eV] or [K]
diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 28b5c14..20f390b 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -258,13 +258,13 @@ class Model(object):
         if len(values) and np.ndim(values[0]) == 0:  # one value for the whole system
             diagnostics.columns = ['value']
         elif quantity in self.reactions_quantities:  # a value for each reaction, whatever the number of species is
-            diagnostics.columns = list(self.chemistry.get_reactions_id())
+            diagnostics.columns = list(self.equations.reactions_id)
         elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
-            diagnostics.columns = list(self.chemistry.get_species_name())
+            diagnostics.columns = list(self.equations.species_name)
         elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
-            diagnostics.columns = list(self.chemistry.get_reactions_id())
+            diagnostics.columns = list(self.equations.reactions_id)
         elif diagnostics.shape[1] == self.equations.num_species + 1:  # a value for each component of the y vector
-            diagnostics.columns = list(self.chemistry.get_species_name()) + ['rho']
+            diagnostics.columns = list(self.equations.species_name) + ['rho']
         else:  # one value for the whole system
             diagnostics.columns = ['value']
         # add the totals column:
-- 
2.43.0


From 6e1a53e8ae08089e09946e2ab5e72a9000633311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 48/57] fix: diagnosing the electron density with the neutral
 model

---
 pygmo_fwork/pygmol/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 20f390b..b3f0850 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -1,5 +1,6 @@
 import inspect
 import os
+from copy import copy
 
 import numpy as np
 import pandas as pd
@@ -253,7 +254,7 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        values = [getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary]
+        values = [copy(getattr(self.equations, 'get_{}'.format(quantity))(y)) for y in sol_primary]
         diagnostics = pd.DataFrame(values)
         if len(values) and np.ndim(values[0]) == 0:  # one value for the whole system
             diagnostics.columns = ['value']
-- 
2.43.0


From 45215aaf862511c3677923f6276edf35c1fb04ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 49/57] fix: attributes of another chemistry are refused before
 anything is changed

---
 plaschem/chemistry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7fa3bb9..5656ca8 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -563,6 +563,12 @@ class Chemistry(object):
             if xml_hash != self.xml_hash(self.xml_path):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
+        # the ids need to be those of this chemistry:
+        for enabled_ids, disabled_ids, ids in ((enabled_sp_ids, disabled_sp_ids, self._species.index),
+                                               (enabled_r_ids, disabled_r_ids, self._reactions.index)):
+            if sorted([*enabled_ids, *disabled_ids]) != sorted(ids):
+                raise ChemistryAttributeError('Species or reactions ids are not matching!')
+
         # all appears valid, so can start restoring the attributes:
         # ad-hoc attributes (with all the species enabled, return species might have been disabled only later):
         self.reset()
-- 
2.43.0


From 5ae40039868acea375a5949589b1dd3a74248921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 50/57] fix: input files do not depend on the locale

---
 plaschem/chemistry.py  | 4 ++--
 plaschem/xml_inputs.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 5656ca8..6079b35 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -603,8 +603,8 @@ class Chemistry(object):
         if not os.path.isfile(xml_path):
             raise ChemistryAttributeError('Invalid xml_path attribute!')
 
-        with open(xml_path) as f:
-            xml_hash = hashlib.md5(f.read().encode()).hexdigest()
+        with open(xml_path, 'rb') as f:  # the hash does not depend on the encoding, nor on the kind of line ends
+            xml_hash = hashlib.md5(f.read().replace(b'\r\n', b'\n').replace(b'\r', b'\n')).hexdigest()
         return xml_hash
 
     def check_coherence(self, yaml_path):
diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index e144824..a0fdf22 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -672,7 +672,7 @@ class XmlBuilder(object):
 
         # dump to a file, but first format it with minidom:
         xmlstr = minidom.parseString(ElementTree.tostring(root_xml, encoding='utf-8')).toprettyxml(indent=4 * ' ')
-        with open(path, 'w') as f:
+        with open(path, 'w', encoding='utf-8') as f:
             f.write(xmlstr)
 
 
-- 
2.43.0


From a4b27d8ace26ecf38ae53a80a0d5ee7bbdfb2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 51/57] fix: labels of surface processes of species given by
 their ids

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index fa4291c..16929b4 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -403,9 +403,9 @@ class ResultsParser(object):
             sp_names = chemistry.get_species_name()
             for i in surface_rates.index:
                 if i == sp_id:
-                    r_string = '{} + wall > wall'.format(sp)
+                    r_string = '{} + wall > wall'.format(sp_names[sp_id])
                 else:
-                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp)
+                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp_names[sp_id])
                 new_index.append('{: <10}{}'.format('S{}'.format(i), r_string))
             surface_rates.index = new_index
 
-- 
2.43.0


From 96c2d152d2faf5165a810159666213f7f51a562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 52/57] fix: DRG and DRGEP weights rounded above one could not
 be searched

---
 pygmo_fwork/optichem/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 8693676..d7a2037 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -476,6 +476,8 @@ class ChemistryGraph(object):
         norm[norm == 0] = np.nan  # so I can divide by it...
         # normalise:
         r /= norm[:, np.newaxis, :]
+        if weighting_method in {'DRG', 'DRGEP'}:
+            r = np.minimum(r, 1.)  # never above one, except by the rounding
 
         # distribute the weights for all the graph for each one important time:
         for t_i, t in enumerate(self.important_times):
-- 
2.43.0


From 13371182f863cd5389c455be9939cf53d09b53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 53/57] fix: reactions of electrons only could not be
 classified

The classification failed with an IndexError for reactions which have no heavy
collision partner (e.g. e + e > e + e), instead of leaving them unclassified.
---
 plaschem/classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index e86c0dd..9555c64 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -300,8 +300,9 @@ class ReactionClassifier(object):
             r_category = 'unclassified electron impact collisions'
             col_partners = [sp for sp in reactants if sp.get_name() != 'e']
             heavy_products = [sp for sp in products if sp.get_name() != 'e']
-            col_partner = col_partners[0]  # used only for the case of only one collision partner
-            if len(reactants) < 2:  # this is a screw case, will go to unclassified
+            # used only for the case of only one collision partner, there is none if only electrons collide
+            col_partner = col_partners[0] if len(col_partners) else None
+            if len(reactants) < 2 or col_partner is None:  # this is a screw case, will go to unclassified
                 pass
             elif len(reactants) > 3:  # this will lend in unclassified as well
                 pass
-- 
2.43.0


From f92eb3d55173034dd65fccbcc1edc2234b089de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 54/57] fix: results of an earlier run were left after a run
 refused for its initial densities

Model.run called with densities which are not those of the species raised an
InitialSolutionError, but success() stayed True and the getters kept returning the
solution of the run before. After any other refused run they are gone.
---
 pygmo_fwork/pygmol/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index b3f0850..101153d 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -292,6 +292,8 @@ class Model(object):
                        in the self.chemistry. All values in [SI]. If not passed, these are built internally.
         :return: (pd.Series) of the final values indexed by species names and parameters names...
         """
+        # results of the previous run are gone, even if the initial values are refused
+        self.sol_raw = self.t = self.sol_primary = self.sol_secondary = None
         y0 = self._y0_from_init_params(init_el_temp, init_n)
         self._solve(y0=y0)
         if not self.success():
-- 
2.43.0


From 37254472da056a58944beab156e2ee335b8b56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:22 +0000
Subject: [PATCH 55/57] fix: partial results of the equations were overwritten
 by the next evaluation

The rate coefficients, mean speeds, cross sections and energy losses returned were the
working arrays of the equations themselves: those of an earlier state changed with
the next evaluation, and a caller changing what was returned changed all the later
results for the reactions and species which are not calculated dynamically.
---
 pygmo_fwork/pygmol/equations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 629dfb1..2fdd9e3 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -430,7 +430,7 @@ class Equations(object):
         self.k_r[self.mask_elc] = \
             self.reactions_arrh_a[self.mask_elc] * temp_e ** self.reactions_arrh_b[self.mask_elc] * \
             np.e ** (-self.reactions_arrh_c[self.mask_elc] / temp_e)
-        return self.k_r
+        return self.k_r.copy()  # the attribute is reused by the next evaluation
 
     def get_reaction_rates(self, y, n=None, n_e=None, n_tot=None, k_r=None):
         """Method to calculate the vector of reaction rates for all the reactions from the features vector y.
@@ -524,7 +524,7 @@ class Equations(object):
         # mean speeds (therm.) - values for the neutrals are static, only need to update values for +/- ions
         self.v_m[~self.mask_neu] = (8 * constants.k * temp_i / (
                 constants.pi * self.species_mass[~self.mask_neu])) ** 0.5
-        return self.v_m
+        return self.v_m.copy()  # the attribute is reused by the next evaluation
 
     def get_sigma_sc(self, y, v_m=None, debye_length=None):
         """Method to populate the dynamic values of the matrix for sp-2-sp momentum transfer scattering cross sections
@@ -553,7 +553,7 @@ class Equations(object):
             constants.pi * b_0_ii ** 2 * np.log(2 * debye_length / b_0_ii)
         self.sigma_sc[np.diag(len(self.sigma_sc) * [True, ])] = 0.  # diagonal elements are zero - collisions with self
         # are not contributing to diffusion of species
-        return self.sigma_sc
+        return self.sigma_sc.copy()  # the attribute is reused by the next evaluation
 
     def get_mean_free_paths(self, y, n=None, sigma_sc=None):
         """Method to calculate the vector of mean free paths for all the species from the features vector y.
@@ -841,7 +841,7 @@ class Equations(object):
         mask = self.mask_elc & self.mask_els
         self.el_en_loss[mask] = \
             3 * constants.m_e / self.col_partner_masses[mask] * (temp_e - self.temp_g * constants.k / constants.e)
-        return self.el_en_loss
+        return self.el_en_loss.copy()  # the attribute is reused by the next evaluation
 
     def get_drho_dt_el_inel(self, y, el_en_losses=None, reaction_rates=None):
         """Method to calculate the contribution of elastic and inel collisions to the time derivative of the
-- 
2.43.0


From ce9228d7cb3c3c193c319d3ca657e30ab6786705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:42 +0000
Subject: [PATCH 56/57] fix: an output which stays zero was reported as not
 converged

The relative change of such an output was 0/0, so it was listed as changed by nan%.
---
 pygmo_fwork/global_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 7b76f41..513fdf6 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -341,6 +341,7 @@ class GlobalModel(object):
             [np.interp(t_start, solution['t'], solution[a]) for a in solution.columns], index=solution.columns
         )
         rel_diff = (values_end - values_start) / (values_end + values_start) * 2
+        rel_diff = rel_diff.where(values_end != values_start, 0.)  # 0 which stays 0 has not changed either
 
         outputs_to_ignore = {'t', }  # I dont care for convergency of these parameters
         rel_diff = rel_diff.drop(outputs_to_ignore)
-- 
2.43.0


From f672926383374b126abaa4e5903f1bc6b7bb30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 57/57] fix: logs of an unfinished trajectory do not stay next
 to those of its successor

---
 pygmo_fwork/optichem/morris.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index db363e2..a85caad 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -2,6 +2,7 @@
 import glob
 import multiprocessing
 import os
+import shutil
 import time
 from collections import namedtuple
 from numbers import Number
@@ -447,7 +448,9 @@ class MorrisMethod(object):
         :return: None
         """
         run_dir = os.path.join(logs_traj_dir, run_id)
-        os.makedirs(run_dir, exist_ok=True)  # might be there already from an unfinished trajectory
+        if os.path.isdir(run_dir):  # from an unfinished trajectory, removed just as by the full logs
+            shutil.rmtree(run_dir)
+        os.makedirs(run_dir)
         if compress:
             solution = ResultsParser.compress_solution(solution, diff_threshold=0.05, min_timestep=0.001)
         solution.to_csv(os.path.join(run_dir, 'solution.csv'))
-- 
2.43.0

