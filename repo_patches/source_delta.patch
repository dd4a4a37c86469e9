From 0caaf73a0abd3d147fa5d9008ae45452be56a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 01/45] fix: model lattice no longer aliases and zeroes the
 machine setpoints

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 5c3dea5..0fc2f8a 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,8 +160,8 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA
-            ring[ord].PolynomB = SC.RING[ord].SetPointB
+            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
+            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 42ee3fead6d4d2871ee44215e7dee3b2656a0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 02/45] fix: model lattice with apertures does not fail on AT
 elements

---
 pySC/lattice_properties/response_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 0fc2f8a..e506683 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,10 +165,10 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-            if 'EApertures' in SC.RING[ord]:
-                ring[ord].EApertures = SC.RING[ord].EApertures
-            if 'RApertures' in SC.RING[ord]:
-                ring[ord].RApertures = SC.RING[ord].RApertures
+            if hasattr(SC.RING[ord], 'EApertures'):
+                ring[ord].EApertures = SC.RING[ord].EApertures.copy()
+            if hasattr(SC.RING[ord], 'RApertures'):
+                ring[ord].RApertures = SC.RING[ord].RApertures.copy()
         if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
-- 
2.43.0


From c72ca5b622b233f0fd4adfcbcb02b772838fc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 03/45] fix: model lattice keeps design values of unregistered
 cavities

---
 pySC/lattice_properties/response_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index e506683..1792cb2 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -169,7 +169,7 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
                 ring[ord].EApertures = SC.RING[ord].EApertures.copy()
             if hasattr(SC.RING[ord], 'RApertures'):
                 ring[ord].RApertures = SC.RING[ord].RApertures.copy()
-        if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
+        if ord in SC.ORD.RF:
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
     return ring
-- 
2.43.0


From 68e79c4047054666b04a75ab26d0be37fa97179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 04/45] fix: systematic multipoles use the column of their
 plane and keep the input table

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ed5ff31..2ccb8c3 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -477,13 +477,13 @@ class SimulatedCommissioning:
         if BA.ndim != 2 or BA.shape[1] != 2:
             raise ValueError("BA has to  be numpy.array of shape N x 2.")
         ind, source = (1, "A") if skewness else (0, "B")
-        newBA = BA[:, :]
+        newBA = BA.copy()
         newBA[order, ind] = 0
         for ord in ords:
-            for target in ("A", "B"):
+            for target_ind, target in enumerate(("B", "A")):
                 attr_name = f'SysPol{target}From{source}'
                 syspol = getattr(self.RING[ord], attr_name) if hasattr(self.RING[ord], attr_name) else DotDict()
-                syspol[order] = newBA[:, ind]
+                syspol[order] = newBA[:, target_ind]
                 setattr(self.RING[ord], attr_name, syspol)
 
     def set_random_multipole_errors(self, ords: ndarray, BA):
-- 
2.43.0


From 9c0d9c513ba6709d04177ed320f291f7da04d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 05/45] fix: integer setpoints are handled like floating point
 ones

---
 pySC/utils/classdef_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/classdef_tools.py b/pySC/utils/classdef_tools.py
index 9641d74..8514826 100644
--- a/pySC/utils/classdef_tools.py
+++ b/pySC/utils/classdef_tools.py
@@ -55,7 +55,7 @@ def check_input_and_setpoints(method, ords, setpoints):
     if method not in SETTING_METHODS:
         raise ValueError(f'Unsupported setpoint method: {method}. Allowed options are: {SETTING_METHODS}.')
     ords_1d = np.ravel(np.array([ords], dtype=int))
-    setpoints_1d = np.ravel(np.array([setpoints]))
+    setpoints_1d = np.ravel(np.array([setpoints], dtype=float))
     if len(setpoints_1d) not in (1, len(ords_1d)):
         raise ValueError(f'Setpoints have to have length of 1 or matching to the length or ordinates.')
     return ords_1d, (np.repeat(setpoints_1d, len(ords_1d)) if len(setpoints_1d) == 1 else setpoints_1d)
-- 
2.43.0


From ac6de6d6536c72bfbea50f651e5cbe1fe1929758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 06/45] fix: verify_structure handles split magnets

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 2ccb8c3..5d78c2c 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1017,7 +1017,7 @@ class SimulatedCommissioning:
                         LOGGER.warning(f'Field "{field:s}" in SC.SIG.Magnet doesnt match lattice element (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'MasterOf'):
                 for cOrd in self.RING[ord].MasterOf:
-                    for field in self.RING[cOrd]:
+                    for field in vars(self.RING[cOrd]):
                         if not hasattr(self.RING[ord],field): 
                             LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
        
-- 
2.43.0


From fe648891b379daab40dfd632f369e227ebe9f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 07/45] fix: registering supports keeps uncertainties of other
 supports at the same element

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 5d78c2c..3d8c6ff 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -430,7 +430,8 @@ class SimulatedCommissioning:
         for ind in np.ravel(support_ords):
             setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))  # [x,y,z]
             setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))  # [az,ax,ay]
-            self.SIG.Support[ind] = DotDict()
+            if ind not in self.SIG.Support.keys():
+                self.SIG.Support[ind] = DotDict()
         for ord_pair in support_ords.T:
             for key, value in kwargs.items():
                 if isinstance(value, list):
-- 
2.43.0


From 31c5416d2e2f79f21468c4ce8fea74c9e422709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 08/45] fix: support roll of structures spanning the injection
 point

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 3d8c6ff..d24cfb2 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -749,8 +749,8 @@ class SimulatedCommissioning:
                 offset2 = off0[0, ords[1]] - off0[0, ords[0]]
                 if ords[0] > ords[1]:
                     struct_length = ring_length + struct_length
-                    mask[ords[0]] = False
-                    mask = ~mask
+                    mask[ords[0]:] = True
+                    mask[:ords[1] + 1] = True
                 else:
                     mask[ords[1]] = True
                 roll0[0, mask] += roll_start0
-- 
2.43.0


From c9d7d8b1274fb35d8747d002c011b197452838e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 09/45] fix: bunches follow the beam matrix when its axes are
 rotated

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index bffd73d..195c5b3 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += np.diag(np.sqrt(V)) @ L @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From 814659c6001443ebc46e074ca1ea8d2c45fe1d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 10/45] fix: imprecise RF phase measurement leaves the phase
 instead of failing

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 069b286..b1d4bdf 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -49,7 +49,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
     delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
-        delta_phi = 0.0
+        delta_phi = np.zeros(1)
     if np.isnan(delta_phi):  # TODO does this ever happen?
         raise RuntimeError('RF phase correction unsuccessful: NaN phase')
 
-- 
2.43.0


From 7dc2a4dbe2cd90d6824b9ad0953b405122156a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 11/45] fix: dispersion measurement with several steps

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 33dbb60..9a9b2d6 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -73,7 +73,7 @@ def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
         SC.set_cavity_setpoints(cav_ords, rf_steps[:, nStep], 'Frequency', 'abs')
         dB[nStep, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
     SC.set_cavity_setpoints(cav_ords, rf0, 'Frequency', 'abs')
-    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps), dB)[0]
+    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps)[:, np.newaxis], dB, rcond=None)[0][0]
 
 
 def _check_ords(SC, bpm_ords, cav_ords):
-- 
2.43.0


From 194a9224a8c7051298658121fa36b3f2bd670c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 12/45] fix: perfectly stable readings count as stable

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 2d0d444..9ae7958 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return (np.var(hist[-n:]) / np.std(hist[-n:])) < eps
+    return np.std(hist[-n:]) < eps
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From f2a62e99bc8d66c9d75ff3399785b7e227940c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 13/45] fix: stitch and balance do not modify the given
 reference

---
 pySC/correction/orbit_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 9ae7958..e7fb82a 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -142,7 +142,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
             raise RuntimeError("Not enough transmission for stitching to work.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
@@ -209,7 +209,7 @@ def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
         raise ValueError("Balancing works only with full 2 turn transmission.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
-- 
2.43.0


From 3edaf4fe7d1c288d8387e6fa6aa2906b63290d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 14/45] fix: tune scan restores the nominal strengths

---
 pySC/correction/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cb38b9f..bb4c873 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -57,7 +57,7 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
         SC.set_magnet_setpoints(ords, q_setpoints, False, 1, method='rel')
         max_turns[q1, q2], surviving_fraction = beam_transmission(SC, nParticles=nParticles, nTurns=nTurns)
         transmission[q1, q2, :] = 1 * surviving_fraction
-        SC.set_magnet_setpoints(ords, 1 / q_setpoints, False, 1, method='rel')
+        SC.set_magnet_setpoints(ords, np.ones(len(ords)), False, 1, method='rel')
 
         if do_plot:
             f, ax = plot_scan(transmission[:, :, -1], max_turns, first_quads, rel_quad_changes)
-- 
2.43.0


From 017767e686348468ffab82615ea11ef9d68e84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 15/45] fix: chromaticity fit starts from the actual setpoints

---
 pySC/correction/chroma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index 27b08ee..ed05118 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -39,7 +39,7 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
     LOGGER.debug(f'Fitting chromaticities from {SC.RING.get_chrom()} to {target_chroma}.')  # first two elements
     SP0 = []
     for n in range(len(s_ords)):
-        SP0.append(np.zeros_like(s_ords[n]))
+        SP0.append(np.zeros(len(s_ords[n])))
     for nFam in range(len(s_ords)):
         for n in range(len(s_ords[nFam])):
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
-- 
2.43.0


From afde9b5bad2c13d78df69dfeafefc843a187c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 16/45] fix: chromaticity fit sets the solution found

---
 pySC/correction/chroma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index ed05118..90f0661 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -45,7 +45,7 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
     fun = lambda x: _fit_chroma_fun(SC, s_ords, x, SP0, target_chroma)
     sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
-    # TODO needs to set the solution to SC
+    fun(sol)  # the last point tried by the solver is not necessarily the solution
     LOGGER.debug(f'        Final chromaticity: {SC.RING.get_chrom()}\n          Setpoints change: {sol}.')  # first two elements
     return SC
 
-- 
2.43.0


From 20678b090bd250650262bce84bad132cdb75ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 17/45] fix: injection fit minimises the rms deviation

---
 pySC/correction/injection_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 95a35e1..bf97557 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -69,7 +69,7 @@ def _fit_bpm_data(s_bpm, bref):
 
 def _merit_function(x, SC, bref, ords_used):
     t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords_used, keep_lattice=False)[[0, 2], 0, :, 0]
-    return np.sqrt(np.mean(bref - t) ** 2)
+    return np.sqrt(np.mean((bref - t) ** 2))
 
 
 def _log_initial_final_states(SC, delta_z0):
-- 
2.43.0


From 329e5133a80709ec2aabfd88eda75054077f62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 18/45] fix: injection fit refuses missing BPM readings

---
 pySC/correction/injection_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index bf97557..4db60e1 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -38,6 +38,8 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     # uses SC.INJ.nShots
     s_pos = at_wrapper.findspos(SC.RING)
     bref = bpm_reading(SC)[0][:, bpm_inds]
+    if np.sum(np.isnan(bref)):
+        raise RuntimeError("Beam does not reach all BPMs used for the fit.")
     delta_z0 = np.zeros(6)
     delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]))
     if np.sum(np.isnan(delta_z0)):
-- 
2.43.0


From 3052d90052a277fe0e408abd440b3d0b61586b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 19/45] fix: dipole compensation ignores skew quadrupole
 changes

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index d24cfb2..7d3405e 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -933,7 +933,7 @@ class SimulatedCommissioning:
                 LOGGER.info(f'SkewLim \n Skew quadrupole (ord: {ord}) is clipping')
                 setpoints_1d[i] = np.sign(setpoints_1d[i]) * self.RING[ord].SkewQuadLimit
             # TODO should check CF magnets
-            if dipole_compensation and order == 1:  # quad  # TODO check also skewness?
+            if dipole_compensation and order == 1 and not skewness:  # quad
                 self._dipole_compensation(ord, setpoints_1d[i])
             getattr(self.RING[ord], f"{SETPOINT}{letter}")[order] = setpoints_1d[i]
 
-- 
2.43.0


From d6940666db49a308427cfc40339678d6d5099c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 20/45] fix: repeated error application does not accumulate
 circumference errors

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 7d3405e..56f262a 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -562,7 +562,7 @@ class SimulatedCommissioning:
         # Circumference
         if 'Circumference' in self.SIG.keys():
             circScaling = 1 + self.SIG.Circumference * sc_tools.randnc(nsigmas, ())
-            self.RING = sc_tools.scale_circumference(self.RING, circScaling, 'rel')
+            self.RING = sc_tools.scale_circumference(self.RING, circScaling * at_wrapper.findspos(self.IDEALRING)[-1], 'abs')
             LOGGER.info('Circumference error applied.')
         # Misalignments
         self._apply_support_alignment_error(nsigmas)
-- 
2.43.0


From cab53317d92136c0218b51a81a35b577f528656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 21/45] fix: repeated error application does not accumulate
 support errors

---
 pySC/core/simulated_commissioning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 56f262a..91b9362 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -579,6 +579,10 @@ class SimulatedCommissioning:
             for ordPair in self.ORD[support_type].T:
                 if ordPair[0] not in self.SIG.Support.keys():
                     continue
+                if any(support_type in field for field in self.SIG.Support[ordPair[0]].keys()):
+                    for ind in ordPair:  # start from the undisplaced structure
+                        setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))
+                        setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))
                 for field, value in self.SIG.Support[ordPair[0]].items():
                     if support_type not in field:
                         continue
-- 
2.43.0


From 8a09727a4850a5737edc27394c068c8568a64842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 22/45] fix: measured response matrix

---
 pySC/lattice_properties/response_measurement.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 9a9b2d6..045ffa5 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -8,7 +8,7 @@ LOGGER = logging_tools.get_logger(__name__)
 
 
 def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
-    if ((not isinstance(amp, list) and not len(amp) == 1) or
+    if ((not isinstance(amp, list) and not np.size(amp) == 1) or
             (isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])))):
         raise ValueError('response_matrix amplitude must be defined as single value or '
                          'array matching the number of used HCM and VCM.')
@@ -40,15 +40,15 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                         gradient[n_step, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
                 dCM = real_cm_setpoint - cmstart[nCM]
                 cm_steps[n_dim][:, nCM] = dCM
-                rm[:, i] = gradient / dCM
-            else:
-                dCM = max_step
-                cm_steps[n_dim][:, nCM] = dCM
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
+            else:
+                dCM = max_step
+                cm_steps[n_dim][:, nCM] = dCM
+                rm[:, i] = gradient / dCM
             i = i + 1
             SC.set_cm_setpoints(cm_ords[n_dim][nCM], cmstart[nCM], skewness=bool(n_dim))
     rm[np.isnan(rm)] = 0
@@ -100,7 +100,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         else:
             max_step *= decrease_factor
             LOGGER.debug(
-                f'Insufficient beam reach ({max_pos:d}/{max_pos_ref:d}). '
+                f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
     return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
-- 
2.43.0


From 2edfdf2feaeb498667319ccb53acc53eedcf35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 23/45] fix: copied machine keeps its design lattice

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 91b9362..0d96492 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -956,7 +956,7 @@ class SimulatedCommissioning:
         copied_structure.IDEALRING = self.IDEALRING.deepcopy()
         for ind, element in enumerate(self.RING):
             copied_structure.RING[ind] = element.deepcopy()
-            copied_structure.IDEALRING[ind] = element.deepcopy()
+            copied_structure.IDEALRING[ind] = self.IDEALRING[ind].deepcopy()
         return copied_structure
 
     def verify_structure(self):
-- 
2.43.0


From c33214016290cd42989a82c331b6373c25b2c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 24/45] fix: magnet fields can become shorter when multipole
 errors are replaced

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 0d96492..1004326 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1088,6 +1088,8 @@ class SimulatedCommissioning:
                     polynom_errors = getattr(self.RING[target_ord], f'SysPol{target}From{source}')
                     for n in polynom_errors.keys():
                         new_polynom = classdef_tools.add_padded(new_polynom, polynoms[source][n] * polynom_errors[n])
+            if getattr(self.RING[target_ord], 'MaxOrder', -1) >= len(new_polynom):  # AT refuses shorter polynoms
+                self.RING[target_ord].MaxOrder = len(new_polynom) - 1
             setattr(self.RING[target_ord], f"Polynom{target}", new_polynom)
 
         if hasattr(self.RING[source_ord], 'BendingAngleError'):
-- 
2.43.0


From a1427d48f59d806b8d367ba64dc6448921b6230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 25/45] fix: support end points use their own uncertainties

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 1004326..c30016d 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -588,7 +588,8 @@ class SimulatedCommissioning:
                         continue
                     setattr(self.RING[ordPair[0]], field, classdef_tools.randn_cutoff(value, nsigmas))
                     setattr(self.RING[ordPair[1]], field,
-                            classdef_tools.randn_cutoff(value, nsigmas) if field in self.SIG.Support[ordPair[1]].keys()
+                            classdef_tools.randn_cutoff(self.SIG.Support[ordPair[1]][field], nsigmas)
+                            if field in self.SIG.Support[ordPair[1]].keys()
                             else getattr(self.RING[ordPair[0]], field))
 
                 struct_length = np.remainder(s_pos[ordPair][1] - s_pos[ordPair][0], s_pos[-1])
-- 
2.43.0


From 5a34f10a33718d0fe9a7d0d016f636ab0b1a4603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 26/45] fix: elements sharing their s-position get their own
 support offsets

---
 pySC/core/simulated_commissioning.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index c30016d..b74543e 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -685,10 +685,10 @@ class SimulatedCommissioning:
         s_pos = at_wrapper.findspos(self.RING)
         if offset_magnets:
             if len(self.ORD.Magnet):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.Magnet])
-                for i, ind in enumerate(self.ORD.Magnet):
-                    setattr(self.RING[ind], "SupportOffset", offsets[:, i])
-                    setattr(self.RING[ind], "SupportRoll", rolls[:, i])
+                offsets, rolls = self.support_offset_and_roll(s_pos)  # elements may share their s-position
+                for ind in self.ORD.Magnet:
+                    setattr(self.RING[ind], "SupportOffset", offsets[:, ind])
+                    setattr(self.RING[ind], "SupportRoll", rolls[:, ind])
                     self.RING[ind] = sc_tools.update_transformation(self.RING[ind])
                     if hasattr(self.RING[ind], 'MasterOf'):
                         for child_ind in self.RING[ind].MasterOf:
@@ -698,11 +698,11 @@ class SimulatedCommissioning:
                 LOGGER.warning('SC: No magnets have been registered!')
         if offset_bpms:
             if len(self.ORD.BPM):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.BPM])
-                for i, ind in enumerate(self.ORD.BPM):
-                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, i])  # No longitudinal BPM offsets implemented
+                offsets, rolls = self.support_offset_and_roll(s_pos)  # elements may share their s-position
+                for ind in self.ORD.BPM:
+                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, ind])  # No longitudinal BPM offsets implemented
                     setattr(self.RING[ind], "SupportRoll",
-                            rolls[0, i])  # BPM pitch and yaw angles not  implemented
+                            rolls[0, ind])  # BPM pitch and yaw angles not  implemented
             else:
                 LOGGER.warning('SC: No BPMs have been registered!')
 
-- 
2.43.0


From eeed777d6a9fefde2fe7f1ebdb707d6f053a8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 27/45] fix: pseudo-orbit readings without any signal are
 not-a-number

---
 pySC/core/beam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 195c5b3..8e8fb59 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -55,9 +55,9 @@ def bpm_reading(SC: SimulatedCommissioning, bpm_ords: ndarray = None, calculate_
     if SC.plot:
         _plot_bpm_reading(SC, mean_bpm_orbits_3d, bpm_inds)
     if SC.INJ.trackMode == TRACK_PORB:   # ORB averaged over low amount of turns
-        mean_bpm_orbits_3d = np.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
-                                        weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
-                                        keepdims=True).filled(np.nan)
+        mean_bpm_orbits_3d = np.ma.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
+                                           weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
+                                           keepdims=True).filled(np.nan)
         mean_bpm_sums_3d = np.nansum(mean_bpm_sums_3d, axis=2, keepdims=True) / SC.INJ.nTurns
     if calculate_errors and SC.INJ.trackMode == TRACK_TBT:
         bpm_orbits_4d[np.sum(np.isnan(bpm_orbits_4d), axis=3) > 0, :] = np.nan
-- 
2.43.0


From f87bfa8f9a3e8e8eaff722ba04d30b98ec89cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 28/45] fix: first turn threading continues from the reading
 after wiggling

---
 pySC/correction/orbit_trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index e7fb82a..1a4a739 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -85,6 +85,8 @@ def first_turn(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None,
             return SC
         if _is_repro(transmission_history, WIGGLE_AFTER):
             SC = _wiggling(SC, bpm_ords, cm_ords, transmission_history[-1] + 1)
+            bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(
+                SC, bpm_ords=bpm_ords, ind_history=transmission_history, orb_history=rms_orbit_history)  # Inject...
 
     raise RuntimeError('First turn threading: FAIL (maxsteps reached)')
 
-- 
2.43.0


From 9306951d66c4ff31337f520d3095a9185fd3957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 29/45] fix: wiggling without any signal uses correctors
 upstream of the first BPM

---
 pySC/correction/orbit_trajectory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 1a4a739..c38aac6 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -349,6 +349,7 @@ def _bpm_reading_and_logging(SC, bpm_ords, ind_history=None, orb_history=None):
 
 def _get_last_cm(lastBPMidx, n, bpm_ords, cm_ords):  # Refactored
     # Returns last CM ords and index of last CMs
+    lastBPMidx = max(lastBPMidx, 0)  # without any signal, the beam is lost before the first BPM
     if lastBPMidx >= len(bpm_ords):  # If there is no beam loss in the first turn
         return cm_ords[-n:], range(len(cm_ords) - n, len(cm_ords))  # ... just return the last n CMs
     if len(cm_ords[np.where(cm_ords <= bpm_ords[lastBPMidx])]) == 0:
-- 
2.43.0


From 2046994da2b7220e1c9ff0bd46f8e2804681c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 30/45] fix: model lattice uses all orders of the setpoints

---
 pySC/lattice_properties/response_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 1792cb2..6b3100c 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -162,6 +162,7 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
             ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
             ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
+            ring[ord].MaxOrder = len(ring[ord].PolynomB) - 1
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 2a7a99f8eb03db87da82732bd8006474ad556025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 31/45] fix: measuring the closed orbit response restores the
 injection settings

---
 pySC/correction/loco.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 99568b4..03da7a8 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -65,7 +65,8 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     n_bpms = len(bpm_ords)
     n_cms = len(cm_ords[0]) + len(cm_ords[1])
     response_matrix = np.full((2 * n_bpms * n_turns, n_cms), np.nan)
-    SC.INJ.trackMode = TRACK_ORB  # TODO may modify SC (not a pure function)!
+    track_mode, inj_turns, inj_particles = SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles
+    SC.INJ.trackMode = TRACK_ORB
 
     closed_orbits0 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
     cnt = 0
@@ -76,6 +77,7 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
             SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
             response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
             cnt = cnt + 1
+    SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles = track_mode, inj_turns, inj_particles
     return response_matrix
 
 
-- 
2.43.0


From 4fdadfe66b496d9053cf0dc39ccad5705cb3ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 32/45] fix: response measurement copes with lost readings,
 idle correctors and clipped steps

---
 pySC/lattice_properties/response_measurement.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 045ffa5..2e5ea52 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -43,6 +43,8 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
+                    if len(np.unique(x)) <= fit_order:
+                        continue  # not enough readings
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
             else:
@@ -94,7 +96,9 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) / 2, np.sum(~np.isnan(bref)) / 2
         if max_pos_ref <= max_pos:
             if mode == "fixedOffset":
-                max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
+                deviation = np.abs(bpm_readings_ravel - bref)[~np.isnan(bpm_readings_ravel - bref)]
+                if np.any(deviation > 0):
+                    max_step = max_step * amp / np.max(deviation)
             else:
                 break
         else:
@@ -102,7 +106,8 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
             LOGGER.debug(
                 f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
-    return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
+    real_step = (SC.get_cm_setpoints(cm_ord, skewness) - cmstart)[0]
+    return real_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
 
 def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
-- 
2.43.0


From 657a0ef46a7403bbf0cedfe1e2f2f343a55a1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 33/45] fix: tune scan copes with even numbers of setpoints

---
 pySC/correction/tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index bb4c873..d221246 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -50,6 +50,7 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     max_turns = np.full((nqsp[0], nqsp[1]), np.nan)
     transmission = np.full((nqsp[0], nqsp[1], nTurns), np.nan)
     inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
+    inds = np.minimum(inds, nqsp[:, np.newaxis] - 1)  # even numbers of setpoints
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
     for q1, q2 in inds.T:
-- 
2.43.0


From 10981ae6f13ce4db085992fa9f5b3c98df0d1467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 34/45] fix: trajectory alignment copes with noise-free and
 with unusable readings

---
 pySC/correction/bba.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 77682aa..b7555bf 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -11,6 +11,7 @@ from pySC.correction import orbit_trajectory
 LOGGER = logging_tools.get_logger(__name__)
 CONFIDENCE_LEVEL_SIGMAS = 2.5
 OUTLIER_LIMIT = 1.5e-3
+MIN_POSITION_ERROR = 1e-9
 
 
 def trajectory_bba(SC, bpm_ords, mag_ords, **kwargs):
@@ -141,7 +142,7 @@ def _get_bpm_offset_from_mag(ring, bpm_ords, mag_ords):
 def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
     x = np.mean(bpm_pos, axis=1)
     x_mask = ~np.isnan(x)
-    err = np.mean(np.std(bpm_pos[x_mask, :], axis=1))
+    err = np.mean(np.std(bpm_pos[x_mask, :], axis=1)) + MIN_POSITION_ERROR
     x = x[x_mask]
     new_tmp_tra = trajectories[x_mask, :, :]
 
@@ -172,6 +173,8 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
         center[j] = -p[1] / (par.fit_order * p[0])  # zero-crossing if linear, minimum is quadratic
         center_err[j] = np.sqrt(center[j] ** 2 * (pcov[0,0]/p[0]**2 + pcov[1,1]/p[1]**2 - 2 * pcov[0, 1] / p[0] / p[1]))
     mask = ~np.isnan(center)
+    if not np.any(mask):
+        return np.nan, np.nan
     offset_change = stats.weighted_mean(center[mask], center_err[mask])
     offset_change_error = stats.weighted_error(center[mask]-offset_change, center_err[mask]) / np.sqrt(stats.effective_sample_size(center[mask], stats.weights_from_errors(center_err[mask])))
     if not par.dipole_compensation and n_dim == 0 and SC.RING[m_ord].NomPolynomB[1] != 0:
-- 
2.43.0


From c8c0ccfb1e744ab513ecedd8fdcfa12910270d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 35/45] fix: injection trajectory fit converges to the measured
 trajectory

---
 pySC/correction/injection_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 4db60e1..ed3583d 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -8,6 +8,7 @@ from pySC.utils import at_wrapper, logging_tools
 
 LOGGER = logging_tools.get_logger(__name__)
 PLANE_STR = ('Hor.', 'Ver.')
+FIT_TOLERANCE = 1e-9  # [m] and [rad]
 
 
 def fit_injection_drift(SC: SimulatedCommissioning, n_dims: ndarray = np.array([0, 1]), plot: bool = False):
@@ -41,7 +42,7 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     if np.sum(np.isnan(bref)):
         raise RuntimeError("Beam does not reach all BPMs used for the fit.")
     delta_z0 = np.zeros(6)
-    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]))
+    delta_z0[0:4] = -fmin(_merit_function, np.zeros(4), args=(SC, bref, SC.ORD.BPM[bpm_inds]), xtol=FIT_TOLERANCE, ftol=FIT_TOLERANCE)
     if np.sum(np.isnan(delta_z0)):
         raise RuntimeError("Failed ")
     _log_initial_final_states(SC, delta_z0)
-- 
2.43.0


From c34cf627a92e7bb1126812761ddddecd9cc9e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 36/45] fix: optics fit uses the Jacobian of the selected
 parameters

---
 pySC/correction/loco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 03da7a8..e5140be 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -97,9 +97,10 @@ def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, incl
     residuals = objective(initial_guess[mask], orm_measured - orm_model, J[mask, :, :], weights)
     r = residuals.reshape(np.transpose(orm_model).shape)
     t2 = np.zeros([len(initial_guess[mask]), 1])
+    masked_jacobian = J[mask, :, :]
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[i].T, weights), r.T))
-    return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
+        t2[i] = np.sum(np.dot(np.dot(masked_jacobian[i].T, weights), r.T))
+    return get_inverse(masked_jacobian, t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
 def objective(masked_params, orm_residuals, masked_jacobian, weights):
-- 
2.43.0


From 3b122616c4d8eb6e0d40caf0becd612850151793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 37/45] fix: dispersion part of the optics fit Jacobian follows
 the requested lattice and step

---
 pySC/correction/loco.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index e5140be..206911a 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -50,11 +50,13 @@ def generating_quads_response_matrices(args):
         SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
         return C_measured - C_model
 
-    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
+    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step,
+                                            useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
-    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
+    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step,
+                                           useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
-- 
2.43.0


From 19928a1ab9c7d1264a3840bf7ab1fe72ac7f421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 38/45] fix: circumference scaling scales drifts used
 repeatedly only once

---
 pySC/utils/sc_tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySC/utils/sc_tools.py b/pySC/utils/sc_tools.py
index ab1027d..87906bb 100644
--- a/pySC/utils/sc_tools.py
+++ b/pySC/utils/sc_tools.py
@@ -112,9 +112,8 @@ def scale_circumference(RING, circ, mode='abs'):  # TODO
         Dscale = 1 - (1 - circ) * C / D
     else:  # mode == 'abs'
         Dscale = 1 - (C - circ) / D
-    for ind in range(len(RING)):
-        if RING[ind].PassMethod == 'DriftPass':
-            RING[ind].Length = RING[ind].Length * Dscale
+    for drift in {id(elem): elem for elem in RING if elem.PassMethod == 'DriftPass'}.values():  # may be shared
+        drift.Length = drift.Length * Dscale
     return RING
 
 
-- 
2.43.0


From 66854a20767e6ef5dd6dab674544bab6d789a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 39/45] fix: orbit correction refuses to start without full
 transmission

---
 pySC/correction/orbit_trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index c38aac6..eb6fa3d 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -289,6 +289,8 @@ def correct(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
     bpm_ords, cm_ords, reference = _check_ords(SC, response_matrix[:, :-1] if scaleDisp else response_matrix,
                                                reference, bpm_ords, cm_ords)
     bpm_readings, transmission_history, rms_orbit_history = _bpm_reading_and_logging(SC, bpm_ords=bpm_ords)  # Inject ...
+    if np.any(np.isnan(bpm_readings[0, :])):
+        raise RuntimeError('Orbit/trajectory correction: FAIL (no full transmission)')
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
 
     # Main loop
-- 
2.43.0


From 197a3213e814405507ba0212dd6a17a2e4dd2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 40/45] fix: effective sample size does not count missing
 values

---
 pySC/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/stats.py b/pySC/utils/stats.py
index fafc5d8..f2cab68 100644
--- a/pySC/utils/stats.py
+++ b/pySC/utils/stats.py
@@ -286,7 +286,7 @@ def effective_sample_size(data, weights, axis=None):
         Returns the error of weighted circular average along the specified axis.
     """
     if weights is None:
-        sample_size = np.sum(np.ones(data.shape), axis=axis)
+        sample_size = np.ma.count(data, axis=axis)
     else:
         sample_size = np.square(np.sum(weights, axis=axis)) / np.sum(np.square(weights), axis=axis)
     return np.where(sample_size > 2, sample_size, 2)
-- 
2.43.0


From f6567760b4849219342149b0141377d6f89b2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:52 +0000
Subject: [PATCH 41/45] fix: response measurement uses the direction with more
 room

---
 pySC/lattice_properties/response_measurement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 2e5ea52..7a8e150 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -117,4 +117,7 @@ def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
         LOGGER.debug('CM  clipped. Using different CM direction.')
         max_step *= -1
         SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
+        if np.abs(SC.get_cm_setpoints(cm_ord, skewness) - cmstart) < np.abs(real_cm_setpoint - cmstart):
+            max_step *= -1  # even less room in the other direction
+            SC.set_cm_setpoints(cm_ord, cmstart + max_step, skewness)
     return SC, max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
-- 
2.43.0


From 8cf8b6829ef678f6402939453660f4c11ce02bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:52 +0000
Subject: [PATCH 42/45] fix: static phase error is folded in metres

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index b1d4bdf..a725350 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -99,7 +99,7 @@ def phase_and_energy_error(SC, cav_ords):
     """This is not a simple observable in reality."""
     lamb = SPEED_OF_LIGHT / SC.RING[cav_ords[0]].Frequency
     orbit6 = at_wrapper.findorbit6(SC.RING)[0]
-    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, lamb) * 360
+    phase_error = _fold_phase(orbit6[5] - SC.INJ.Z0[5], lamb) / lamb * 360
     energy_error = SC.INJ.Z0[4] - orbit6[4]
     LOGGER.info(f'Static phase error {phase_error:.0f} deg')
     LOGGER.info(f'Energy error {1E2 * energy_error:.2f}%')
-- 
2.43.0


From 2a3e7dbea155958791b211d53e1009638ee3795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 43/45] fix: make the tune fit run, family by family, and leave
 the fitted setpoints

---
 pySC/correction/tune.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index d221246..799d9f1 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -130,24 +130,25 @@ def plot_scan(fin_trans, max_turns, first_quads, rel_quad_changes):
     return f, [ax1, ax2, ax3]
 
 
-def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=True):
+def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=True, init_step_size=np.array([0.01, 0.01])):
     #  TODO check if experimantally feasible
     if target_tune is None:
         target_tune = tune(SC, fit_integer, ideal=True)
     LOGGER.debug(f'Fitting tunes from [{tune(SC, fit_integer)}] to [{target_tune}].')
-    SP0 = np.zeros((len(q_ords), len(q_ords[0])))  # TODO can the lengts vary
+    SP0 = [np.zeros(len(q_family)) for q_family in q_ords]
     for nFam in range(len(q_ords)):
         for n in range(len(q_ords[nFam])):
             SP0[nFam][n] = SC.RING[q_ords[nFam][n]].SetPointB[1]
     fun = lambda x: _fit_tune_fun(SC, q_ords, x, SP0, target_tune, fit_integer)
-    sol = fmin(fun, xtol=xtol, ftol=ftol)
-    SC.set_magnet_setpoints(q_ords, sol + SP0, False, 1, method='abs', dipole_compensation=True)
+    sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
+    fun(sol)  # the last point tried by the solver is not necessarily the solution
     LOGGER.debug(f'       Final tune: [{tune(SC, fit_integer)}]\n  Setpoints change: [{sol}]')
     return SC
 
 
 def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
-    SC.set_magnet_setpoints(q_ords, setpoints + init_setpoints, False, 1, method='abs', dipole_compensation=True)
+    for nFam in range(len(q_ords)):
+        SC.set_magnet_setpoints(q_ords[nFam], setpoints[nFam] + init_setpoints[nFam], False, 1, method='abs', dipole_compensation=True)
     nu = tune(SC, fit_integer)
     return np.sqrt(np.mean((nu - target) ** 2))
 
@@ -155,7 +156,7 @@ def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
 def tune(SC, fit_integer: bool = False, ideal: bool = False):
     ring = SC.IDEALRING if ideal else SC.RING
     if fit_integer:
-        ld, _, _ = atlinopt(ring, 0, range(len(ring) + 1))
-        return ld[-1].mu / 2 / np.pi
-    _, nu, _ = atlinopt(ring, 0)
-    return nu
+        _, _, optics = atlinopt(ring, range(len(ring) + 1))
+        return optics.mu[-1, :2] / 2 / np.pi
+    _, beam_data, _ = atlinopt(ring)
+    return beam_data.tune[:2]
-- 
2.43.0


From 2f96b75b55bbb04d56ba88e2c0f831c8433613a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:18 +0000
Subject: [PATCH 44/45] fix: refuse repeated masters of split magnets before
 anything is registered

---
 pySC/core/simulated_commissioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index b74543e..9326c10 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -314,6 +314,8 @@ class SimulatedCommissioning:
 
         """
         self._check_kwargs(kwargs, MAGNET_TYPE_FIELDS + MAGNET_ERROR_FIELDS)
+        if 'MasterOf' in kwargs.keys() and len(np.unique(ords)) < len(ords):
+            raise ValueError(f"Non-unique element indices found together with ``MasterOf``: {ords}")
         nvpairs = {key: value for key, value in kwargs.items() if key not in MAGNET_TYPE_FIELDS}
         self.ORD.Magnet = np.unique(np.concatenate((self.ORD.Magnet, ords)))
         if 'SkewQuad' in kwargs.keys():
@@ -1072,8 +1074,6 @@ class SimulatedCommissioning:
         if 'SkewQuad' in kwargs.keys():
             self.RING[ind].SkewQuadLimit = kwargs['SkewQuad']
         if 'MasterOf' in kwargs.keys():
-            if np.count_nonzero(MAGords == ind) > 1:
-                raise ValueError(f"Non-unique element index {ind} found together with ``MasterOf``")
             self.RING[ind].MasterOf = kwargs['MasterOf'][:, np.nonzero(MAGords == ind)].ravel()
 
     def _update_magnets(self, source_ord, target_ord):
-- 
2.43.0


From febcd945ac1fb0118941b0f4ab74b3a9b1c4ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:18 +0000
Subject: [PATCH 45/45] fix: unknown cavity parameters are refused instead of
 ignored

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 9326c10..9a003e4 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -802,6 +802,8 @@ class SimulatedCommissioning:
 
         """
         ords_1d, setpoints_1d = classdef_tools.check_input_and_setpoints(method, ords, setpoints)
+        if param not in RF_PROPERTIES:
+            raise ValueError(f'Unknown cavity parameter ``{param}`` found. Allowed are {RF_PROPERTIES}.')
         setpoint_str = f"{param}{SETPOINT}"
         if method == SETTING_REL:
             setpoints_1d *= at_wrapper.atgetfieldvalues(self.RING, ords_1d, setpoint_str)
-- 
2.43.0

