From 7ee90d493fc5d8711319a3360ed0bb8bde937263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:43 +0000
Subject: [PATCH 01/46] fix: mirror symmetric components when recovering a
 tensor without Kelvin notation

---
 .../simulators/fetorch/math/matrixops.py      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/math/matrixops.py b/src/hookeai/simulators/fetorch/math/matrixops.py
index a3ada03..be493d9 100644
--- a/src/hookeai/simulators/fetorch/math/matrixops.py
+++ b/src/hookeai/simulators/fetorch/math/matrixops.py
@@ -380,9 +380,10 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set Kelvin notation flag
     if len(comp_order) == n_dim**2:
+        is_symmetric = False
         is_kelvin_notation = False
     elif len(comp_order) == sum(range(n_dim + 1)):
-        pass
+        is_symmetric = True
     else:
         raise RuntimeError('Invalid number of components in strain/stress '
                            'components order.')
@@ -407,8 +408,8 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = mf_indexes[i]
             so_idx = tuple(so_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not so_idx[0] == so_idx[1]:
-                factor = math.sqrt(2)
+            if is_symmetric and not so_idx[0] == so_idx[1]:
+                factor = math.sqrt(2) if is_kelvin_notation else 1.0
                 tensor[so_idx[::-1]] = (1.0/factor)*tensor_mf[mf_idx]
             tensor[so_idx] = (1.0/factor)*tensor_mf[mf_idx]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -435,12 +436,13 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = tuple(mf_indexes[i])
             fo_idx = tuple(fo_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not (fo_idx[0] == fo_idx[1]
-                                           and fo_idx[2] == fo_idx[3]):
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[0] != fo_idx[1] else factor
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[2] != fo_idx[3] else factor
+            if is_symmetric and not (fo_idx[0] == fo_idx[1]
+                                     and fo_idx[2] == fo_idx[3]):
+                if is_kelvin_notation:
+                    factor = (factor*math.sqrt(2)
+                              if fo_idx[0] != fo_idx[1] else factor)
+                    factor = (factor*math.sqrt(2)
+                              if fo_idx[2] != fo_idx[3] else factor)
                 if fo_idx[0] != fo_idx[1] and fo_idx[2] != fo_idx[3]:
                     tensor[tuple(fo_idx[1::-1]+fo_idx[2:])] = \
                         (1.0/factor)*tensor_mf[mf_idx]
-- 
2.43.0


From 73916e3ba437945413bd48967d01ec83948517cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 02/46] fix: accept elastic moduli given by their symmetric
 counterpart

---
 .../fetorch/material/models/standard/elastic.py           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/elastic.py b/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
index 4b52215..9776942 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
@@ -431,7 +431,9 @@ class Elastic(ConstitutiveModel):
             elastic_moduli = {}
             # Extract elastic moduli from elastic properties
             for param in elastic_properties.keys():
-                if param in elastic_symmetries['triclinic']:
+                if (param in elastic_symmetries['triclinic']
+                        or ('E' + param[3:5] + param[1:3]
+                            in elastic_symmetries['triclinic'])):
                     elastic_moduli[param] = elastic_properties[param]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Initialize independent elastic moduli
@@ -440,7 +442,7 @@ class Elastic(ConstitutiveModel):
             # Loop over required elastic moduli
             for modulus in required_moduli:
                 # Set symmetric modulus
-                sym_modulus = modulus[3:5] + modulus[1:3]
+                sym_modulus = 'E' + modulus[3:5] + modulus[1:3]
                 # Check if requires elastic modulus has been provided
                 if modulus in elastic_moduli.keys():
                     ind_moduli[modulus] = elastic_moduli[modulus]
@@ -572,7 +574,7 @@ class Elastic(ConstitutiveModel):
                 # Loop over required elastic moduli
                 for modulus in required_moduli:
                     # Set symmetric modulus
-                    sym_modulus = modulus[3:5] + modulus[1:3]
+                    sym_modulus = 'E' + modulus[3:5] + modulus[1:3]
                     # Check if requires elastic modulus has been provided
                     if modulus in elastic_properties.keys():
                         ind_moduli[modulus] = elastic_properties[modulus]
-- 
2.43.0


From bb18e6b014abea22ef83f1161ed2105ac6bfb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:12 +0000
Subject: [PATCH 03/46] fix: add the reference plastic strain only once in
 Nadai-Ludwik hardening

---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 62aec5c..21bd989 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -367,7 +367,7 @@ class NadaiLudwikIHL(IsotropicHardeningLaw):
                                f'strain but got {acc_p_strain}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce non-negative accumulate plastic strain
-        acc_p_strain = torch.relu(acc_p_strain) + ep0
+        acc_p_strain = torch.relu(acc_p_strain)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute yield stress
         yield_stress = yield_stress_init + a*((acc_p_strain + ep0)**b)
-- 
2.43.0


From 7f35e033010f11d4393cb1467bbd51023654e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:44 +0000
Subject: [PATCH 04/46] fix: convert nested and non-numeric entries in
 convert_dict_to_tensor

---
 src/hookeai/utilities/type_conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..c00ed7e 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value, is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,11 +69,14 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
                 local_data_dict[key] = torch.tensor(value)
+            else:
+                # Keep value unchanged
+                local_data_dict[key] = value
         # Assign pointer
         data_dict = local_data_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 662cba40d6f5590bd5ef48b18fe905928439dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:44 +0000
Subject: [PATCH 05/46] fix: leave nested dictionaries untouched when
 converting precision out of place

---
 src/hookeai/utilities/type_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index c00ed7e..bf14ad8 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -145,7 +145,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float32(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -221,7 +222,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float64(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From cf9a2f763fb7dd5670bb5e5fe56fe661101d8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:27 +0000
Subject: [PATCH 06/46] fix: return scalar yield stress and slope from the
 piecewise linear hardening law

---
 .../simulators/fetorch/material/models/standard/hardening.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 21bd989..81a6afb 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -238,6 +238,10 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
                 acc_p_strain >= a[-1], 0.0,
                 PiecewiseLinearIHL._hardening_slope(acc_p_strain, a, b)))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Keep accumulated plastic strain shape
+        yield_stress = yield_stress.reshape(acc_p_strain.shape)
+        hard_slope = hard_slope.reshape(acc_p_strain.shape)
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return yield_stress, hard_slope
     # -------------------------------------------------------------------------
     @staticmethod
-- 
2.43.0


From 7ef78b8634d81630a0a405796c7f343660b83479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 07/46] fix: scale the back-stress increment so that the mixed
 von Mises return ends on the yield surface

---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..c459985 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -461,7 +461,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress
+                             - kin_hard_stress_old)*flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..214ef5d 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -711,7 +711,7 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From 64746971b80de2a5a47614b1d2ec332cbc7a37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:21 +0000
Subject: [PATCH 08/46] fix: include kinematic hardening in the vectorised
 mixed von Mises consistent tangent

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index 214ef5d..ccaf51c 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -522,9 +522,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From 0e837550be116fad6d2b8e3218e5037c9e83203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:13 +0000
Subject: [PATCH 09/46] fix: use the deviatoric norm in the Drucker-Prager
 consistent tangent

---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From 52755dd9ae7340cfe4a28807841a459c28726c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:48 +0000
Subject: [PATCH 10/46] fix: keep strain state features two-dimensional in the
 vectorised stress path

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..d5f80ac 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1519,7 +1519,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From 491a089e366c5710b717b9e4507516fce64083e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:34 +0000
Subject: [PATCH 11/46] fix: set parameter normalisation bounds for plain
 parameters too

---
 .../rc_base_model/model/recurrent_model.py                   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index d5f80ac..86e1ea3 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -517,10 +517,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                 self._model_parameters_bounds[param] = param_dict['bounds']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set normalization bounds
+            self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
+            # Normalize initial value
             if self.is_normalized_parameters:
-                # Set lower and upper bounds
-                self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
-                # Normalize initial value
                 init_val = self.transform_parameter(param, init_val,
                                                     mode='normalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From c98652ac3b003d400e5cadfe1680fd2fe8f26e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:15 +0000
Subject: [PATCH 12/46] fix: remove the normalisation offset from the reaction
 forces of the equilibrium loss

---
 .../model/material_discovery.py                  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..2f8e715 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1483,9 +1483,13 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
+            # Normalize reaction forces (remove normalization offset, already
+            # canceled out between internal and external forces)
             reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+                reaction_forces_mesh, features_type='forces',
+                mode='normalize') - data_scaler_transform(self,
+                    torch.zeros_like(reaction_forces_mesh),
+                    features_type='forces', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get number of nodes of finite element mesh
         n_node_mesh = internal_forces_mesh.shape[0]
@@ -2722,9 +2726,13 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
+            # Normalize reaction forces (remove normalization offset, already
+            # canceled out between internal and external forces)
             reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+                reaction_forces_mesh, features_type='forces',
+                mode='normalize') - data_scaler_transform(self,
+                    torch.zeros_like(reaction_forces_mesh),
+                    features_type='forces', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute force equilibrium loss
         if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From caa60b401c6080a88cbad26e65525411134688f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:15 +0000
Subject: [PATCH 13/46] fix: normalise the forces of the equilibrium loss
 components history

---
 .../model/material_discovery.py               | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 2f8e715..67ab055 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2868,21 +2868,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2899,6 +2884,24 @@ class MaterialModelFinder(torch.nn.Module):
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+            # Normalize forces
+            if self._is_force_normalization:
+                # Normalize internal forces
+                internal_forces_mesh = data_scaler_transform(
+                    self, internal_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize external forces
+                external_forces_mesh = data_scaler_transform(
+                    self, external_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize reaction forces (remove normalization offset,
+                # already canceled out between internal and external forces)
+                reaction_forces_mesh = data_scaler_transform(
+                    self, reaction_forces_mesh, features_type='forces',
+                    mode='normalize') - data_scaler_transform(
+                        self, torch.zeros_like(reaction_forces_mesh),
+                        features_type='forces', mode='normalize')
+            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
                 # Force equilibrium strictly based on pointwise internal,
-- 
2.43.0


From ee79d867c00239964d6645aa7eec8a748eb53870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:15 +0000
Subject: [PATCH 14/46] fix: store denormalised strains in the vectorised state
 path history

---
 src/hookeai/material_model_finder/model/material_discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 67ab055..80a13ad 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2503,6 +2503,8 @@ class MaterialModelFinder(torch.nn.Module):
              for t in range(n_time)]
         # Build input features tensor
         features_in = torch.stack(features_in_data, dim=0)
+        # Store strain path (prior to normalization)
+        strain_path = features_in
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Normalize input features tensor
         if self.check_model_in_normalized(constitutive_model):
@@ -2524,7 +2526,7 @@ class MaterialModelFinder(torch.nn.Module):
         # Build state path history
         if strain_formulation == 'infinitesimal':
             state_variables_hist = torch.cat(
-                (features_in[:, 0:len(comp_order_sym)],
+                (strain_path[:, 0:len(comp_order_sym)],
                  features_out[:, 0:len(comp_order_sym)]), dim=1)
         else:
             raise RuntimeError('Not implemented.')
-- 
2.43.0


From 55734bdcbd57a9b583badecc0b383c0b93f90106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:22 +0000
Subject: [PATCH 15/46] fix: normalise model features in the element-wise
 recurrent state update

---
 .../model/material_discovery.py                  | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 80a13ad..5e62f5d 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1410,12 +1410,26 @@ class MaterialModelFinder(torch.nn.Module):
                     device=self._device)
             else:
                 raise RuntimeError('Not implemented.')
+        # Initialize model input features (same as strain path by default)
+        model_features_in = features_in
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features tensor
+        if self.check_model_in_normalized(constitutive_model):
+            # Normalize input features
+            model_features_in = data_scaler_transform(constitutive_model,
+                features_in, 'features_in', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Denormalize output features tensor
+        if self.check_model_out_normalized(constitutive_model):
+            # Denormalize output features
+            features_out = data_scaler_transform(constitutive_model,
+                features_out, 'features_out', mode='denormalize')
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
             # Build and store strain and stress tensors
-- 
2.43.0


From 616812779d5164729879529b1437c1b56fd15c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 16/46] fix: set fitted model data scalers from given
 parameters

---
 .../model_architectures/procedures/model_data_scaling.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
-- 
2.43.0


From a8051bdbd8ba7cb0664ea5a3e2afb2ad3e2f44d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 17/46] fix: set data scalers of GRU material models through
 the scaling procedure

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..85bd0e7 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -21,6 +21,8 @@ from simulators.fetorch.material.models.standard.von_mises_mixed import \
     VonMisesMixed
 from simulators.fetorch.material.models.standard.drucker_prager import \
     DruckerPrager
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
 from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From 98cf79534f835af628870aff4c69058aa52d8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 18/46] fix: allow relabelling the features of in-memory data
 sets

---
 src/hookeai/time_series_data/time_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..83ab818 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -232,8 +232,8 @@ def change_dataset_features_labels(dataset, features_label_map):
             # Update data set sample
             if isinstance(dataset, TimeSeriesDataset):
                 dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
+            elif hasattr(dataset, '__setitem__'):
+                dataset[i] = sample
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From 5bc31bf50abbc2a6659a4f2b37052caa3d66b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 19/46] fix: default to unit weights when summing data set
 features

---
 src/hookeai/time_series_data/time_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 83ab818..20c332d 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -394,7 +394,8 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
     sum_weights = {}
     # Set sum weights
     for feature_label in sum_features_labels:
-        if feature_label in features_weights.keys():
+        if (features_weights is not None
+                and feature_label in features_weights.keys()):
             sum_weights[feature_label] = float(features_weights[feature_label])
         else:
             sum_weights[feature_label] = 1.0
-- 
2.43.0


From 48a8cd1f0ec451dd879e1a15c42303acdd2a3d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 20/46] fix: update the internal directory of stored data sets

---
 src/hookeai/time_series_data/time_dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 20c332d..f2ef3f3 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -830,8 +830,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
-- 
2.43.0


From a8ce56b1cbf6d8a45e8ed01c86e62092ba78dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:42 +0000
Subject: [PATCH 21/46] fix: report the expected number of symmetric strain
 components

---
 src/hookeai/data_generation/strain_paths/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 3130c53..b9d5da1 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -137,7 +137,7 @@ class StrainPathGenerator(ABC):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check strain components completeness
         if is_symmetric and len(strain_comp_order) != 0.5*n_dim*(n_dim + 1):
-            raise RuntimeError(f'Expecting {0.5*n_dim(n_dim + 1)} independent '
+            raise RuntimeError(f'Expecting {n_dim*(n_dim + 1)//2} independent '
                                f'strain components under symmetry, but '
                                f'{len(strain_comp_order)} were provided.')
         elif not is_symmetric and len(strain_comp_order) != n_dim**2:
-- 
2.43.0


From 753ce569a7114f7b91fe0526667974c893ac9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:42 +0000
Subject: [PATCH 22/46] fix: scale random strain paths into both strain bounds

---
 .../strain_paths/random_path.py                | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..803647a 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,21 +245,13 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
+                    # Compute linear scale factor (satisfy both bounds)
+                    scale_factor = 1.0
                     if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
-                    if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
                         scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                    if max_strain > ubound:
+                        scale_factor = min(scale_factor,
+                                           np.abs(ubound/max_strain))
                     # Scale strain component history
                     strain_comp_hist = scale_factor*strain_comp_hist
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 823bb9d68950fd97c18f66420d8a62fdf68abe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:22 +0000
Subject: [PATCH 23/46] fix: scale features of normalised hybridized models

---
 .../hybrid_base_model/model/hybrid_model.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..6226c75 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -627,8 +627,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, features_out, 'features_in',
+                        mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -639,8 +640,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, features_out, 'features_out',
+                        mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
-- 
2.43.0


From ddc8235cc560dc0d31e4ed9fb527dad50620d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:22 +0000
Subject: [PATCH 24/46] fix: keep input of volumetric/deviatoric composition
 unchanged

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..0f075b8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From 196ae073e8e02efef52137e07aa016de1c275dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:22 +0000
Subject: [PATCH 25/46] fix: honour the elastic symmetry of batched elastic
 models

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 .../hybrid_base_model/model/transfer_learning.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 0f075b8..d8d7771 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -127,7 +127,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 4665e59..681db1f 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -478,7 +478,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
-- 
2.43.0


From c82786a7df83f910c7163a13569aa55c0dba8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:22 +0000
Subject: [PATCH 26/46] fix: compute hydrostatic and deviatoric stress from the
 mean stress

---
 src/hookeai/model_architectures/materials/stress_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..cc0eccf 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = (1.0/3.0)*torch.trace(stress)
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,7 +161,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = (1.0/3.0)*torch.trace(stress)
         # Compute deviatoric stress
         dev_stress = stress - vol_stress*torch.eye(n_dim)
         # Store deviatoric stress components
-- 
2.43.0


From 0e23264396acab0edcfdbab87ca618b2a9dbd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:15 +0000
Subject: [PATCH 27/46] fix: build denoising kernels with the precision of the
 features

---
 src/hookeai/utilities/data_denoisers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..1b194a5 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size, dtype=tensor.dtype,
+                            device=tensor.device)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,8 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(coeffs, dtype=tensor.dtype, device=tensor.device
+                              ).view(n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From 00de1f508c785b880ebf8f9057b477cc0829a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 28/46] fix: accept best state files without training epoch

---
 .../procedures/model_state_files.py                    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..3e005f1 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -327,14 +327,14 @@ def check_best_state_file(model, filename):
         otherwise.
     """
     # Check if file is model epoch best state file
-    is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                        filename))
+    match = re.search(r'^' + model.model_name + r'(?:-([0-9]+))?' + r'-best'
+                      + r'\.pt', filename)
+    is_best_state_file = bool(match)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
-    if is_best_state_file:
+    if is_best_state_file and match.group(1) is not None:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-2])
+        epoch = int(match.group(1))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_best_state_file, epoch
 # =============================================================================
-- 
2.43.0


From 7a39eee3159c25494d01383eb31d70500bc33e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 29/46] fix: validate models whose epoch state has not been
 saved

---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..481b2e3 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..3d6057f 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From a31450a8945422ae0c175d5bf799b73b1cc98b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 30/46] fix: average model parameters over the steps of the
 epoch

---
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 481b2e3..d80f5ba 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -436,7 +436,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # Save model parameters (epoch average parameter value)
         for key in model_init_parameters.keys():
             model_parameters_history_epochs[key].append(np.mean(
-                model_parameters_history_steps[key][epoch_init_step:]))
+                model_parameters_history_steps[key][epoch_init_step + 1:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 3d6057f..4e57b54 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -490,7 +490,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # Save model parameters (epoch average parameter value)
         for key in model_init_parameters.keys():
             model_parameters_history_epochs[key].append(np.mean(
-                model_parameters_history_steps[key][epoch_init_step:]))
+                model_parameters_history_steps[key][epoch_init_step + 1:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
-- 
2.43.0


From 40d05d316d9f6d4abdf59d6e8ccc20d4268fc5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 31/46] fix: report training time of a single epoch

---
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index d80f5ba..52c1702 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 4e57b54..48d8752 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -597,7 +597,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..92018f1 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From 30cb1e6a5a3f1cc36b154477f8d8032f8e331872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 32/46] fix: honour early stopping when parameters convergence
 is checked

---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 48d8752..01dacce 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -530,7 +530,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
@@ -540,7 +540,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
             # Completed maximum number of epochs
             is_keep_training = False
             break
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             # Parameters convergence criterion triggered
             is_keep_training = False
             break
@@ -556,7 +556,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         if is_early_stopping and is_stop_training:
             print('\n\n> Early stopping has been triggered!',
                   '\n\n> Finished training process!')
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             print('\n\n> Parameters convergence has been triggered!',
                   '\n\n> Finished training process!')
         else:
-- 
2.43.0


From 2ebf5480c731d31143554d668a3a2e069c408da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 33/46] fix: skip patch rigid body motions that have not been
 requested

---
 src/hookeai/data_generation/spdg/patch_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..e38d79a 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,7 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if centroid_def is not None and rbm_rotation is not None:
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +417,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From 1800380494a10798343c72a362ffaa88f9ec493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 34/46] fix: interpolate patch face displacements at the nodes
 positions

---
 src/hookeai/data_generation/spdg/patch_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index e38d79a..95aa290 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1970,15 +1970,15 @@ class FiniteElementPatchGenerator:
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + (i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + (j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From f5a3b321f5cb46a521f46beac002fef1d54a9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 35/46] fix: keep fixed patch corners fixed when edges are kept
 parallel

---
 src/hookeai/data_generation/spdg/patch_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 95aa290..9d09c0f 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -947,7 +947,7 @@ class FiniteElementPatchGenerator:
                             # Check displacement range intersection
                             min_max = np.min((range_l[1], range_r[1]))
                             max_min = np.max((range_l[0], range_r[0]))
-                            if min_max > max_min:
+                            if min_max >= max_min:
                                 # If non-null intersection range, then sample
                                 # random displacement along dimension on that
                                 # range: uniform distribution
-- 
2.43.0


From da8af2225764225122c55ed275915a193da4afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:52 +0000
Subject: [PATCH 36/46] fix: report training time of a single epoch of the
 material model finder

---
 src/hookeai/material_model_finder/train/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From 7baca6cdfb579a4f25f0ed4f53e56e0151bc5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 37/46] fix: import of data set plots in noisy response data
 set generator

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..d5d3652 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,8 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import \
+    generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From 30394c44ca529679ec544bcdd5e738f2b7d946da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 38/46] fix: heteroscedastic noise weights of noisy response
 data set

---
 .../synthetic_data/gen_noisy_response_dataset.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index d5d3652..3d20b97 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -403,16 +403,19 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order,
+                            is_symmetric=(self._strain_formulation
+                                          == 'infinitesimal'))
                     # Set heteroscedastic normalization
                     if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                        path_normalizer = np.max(noiseless_strain_norm_path)
+                    else:
+                        path_normalizer = heteroscedastic_normalizer
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/path_normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 7532da2e19885efa92789f7ee5656d034e6d646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 39/46] fix: initial strain of denoised path when strain is
 normalized

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 3d20b97..5545749 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -455,7 +455,8 @@ class NoisyMaterialResponseDatasetGenerator:
                         denoise_method, denoise_parameters=denoise_parameters,
                         n_denoise_cycle=n_denoise_cycle).numpy()
                     # Enforce null initial noise
-                    strain_path[0, :] = noiseless_strain_path[0, :]
+                    strain_path[0, :] = \
+                        noiseless_response_path['strain_path'][0, :].numpy()
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Compute material response
                 stress_comps_order, stress_path, state_path, \
-- 
2.43.0


From db0e1b0045996e7dbeb6219e19a52ef95d0d8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 40/46] fix: skip unavailable state variable in every time step

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 5545749..f843ad0 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -611,7 +611,8 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    if state_var in state_path.keys():
+                        state_path.pop(state_var)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From 8099c7f86863a1be22defe6622e4d2664ded961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 41/46] fix: data set base name argument when reading response
 from .csv files

---
 .../user_scripts/synthetic_data/gen_response_dataset.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..cdee637 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -577,7 +577,8 @@ class MaterialResponseDatasetGenerator():
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
                                       dataset_directory=None, save_dir=None,
-                                      is_save_fig=False, is_verbose=False):
+                                      is_save_fig=False, is_verbose=False,
+                                      dataset_basename=None):
         """Generate strain-stress path data set from set of .csv files.
         
         Parameters
-- 
2.43.0


From 5632be0c480b00282944495aaf405b00d568e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 42/46] fix: separate prescribed displacements in Links
 Dirichlet data file

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..4642334 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
-- 
2.43.0


From 822d0ddc1649b6718709a080667402251ecc0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 43/46] fix: reaction node group of negative prescribed
 displacements

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 4642334..ab29d44 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From d7d2abf9e40f23bb438e8a4171d91b2c7fe19e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 44/46] fix: return specimen data files paths when not saved

---
 .../global_model_update/material_finder/gen_specimen_data.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..0d283e3 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -104,6 +104,9 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
     specimen_material_state_path : str
         Path of file containing the FETorch specimen material state.
     """
+    # Initialize files paths
+    specimen_data_path = None
+    specimen_material_state_path = None
     # Initialize specimen numerical data
     specimen_data = SpecimenNumericalData()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 82610324ae6b0c9d2688d84efa2407533ccb8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 45/46] fix: match complete specimen history file name

---
 .../global_model_update/material_finder/gen_specimen_data.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 0d283e3..0d2c0b3 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -373,7 +373,7 @@ def get_specimen_history_paths(specimen_history_dir, specimen_name):
     for filename in directory_list:
         # Check if file is specimen history time step file
         is_time_step_file = bool(
-            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv',
+            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv$',
                       filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append specimen history time step file
-- 
2.43.0


From 0c60e3958b4bba050ee6b21602809a5703114e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:54 +0000
Subject: [PATCH 46/46] fix: restore synchronization and failure check options
 of recurrent models

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 86e1ea3..5577174 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1667,6 +1667,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
         model_init_args['model_directory'] = self.model_directory
         model_init_args['model_name'] = self.model_name
         model_init_args['state_features_out'] = self._state_features_out
+        model_init_args['is_auto_sync_parameters'] = \
+            self._is_auto_sync_parameters
+        model_init_args['is_check_su_fail'] = self._is_check_su_fail
         model_init_args['is_normalized_parameters'] = \
             self.is_normalized_parameters
         model_init_args['is_model_in_normalized'] = self.is_model_in_normalized
-- 
2.43.0

