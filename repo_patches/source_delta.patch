From 96f7ef4e2a1db94a2757f5e07d283d744a317441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 01/26] fix: account for sub_sample_traj in the frame spacing
 of ASEParser

---
 kinisi/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 3543f7a..27c428a 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -288,8 +288,8 @@ class ASEParser(Parser):
 
         self.coords_check = coords[0]
 
-        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step, step_skip,
-                         min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
+        super().__init__(self.get_disp(coords, latt, progress=progress), indices[0], indices[1], time_step,
+                         step_skip * sub_sample_traj, min_dt, max_dt, n_steps, spacing, sampling, memory_limit, progress)
         self._volume = structure.get_volume()
 
     @staticmethod
-- 
2.43.0


From 1818a630142f63593fdeb56f6dc1e926521b01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 02/26] fix: single-origin sampling takes the displacement of
 its own time interval

The position of the interval in the grid was used instead of the interval.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 27c428a..a4374d6 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -200,7 +200,7 @@ class Parser:
                               "https://kinisi.readthedocs.io/en/latest/memory_limit.html).")
         for i, time_interval in enumerate(iterator):
             if self.sampling == 'single-origin':
-                disp = drift_corrected[self.indices, i:i + 1]
+                disp = drift_corrected[self.indices, time_interval - 1:time_interval]
                 if np.multiply(*disp[:, ::time_interval].shape[:2]) <= 1:
                     continue
                 disp_3d.append(disp)
-- 
2.43.0


From 62dca877c5fd3b9be234791312fb77c88d7a31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 03/26] fix: PymatgenParser accepts integer time steps

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index a4374d6..a4f5eb3 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -436,7 +436,7 @@ class PymatgenParser(Parser):
                          progress=progress)
         self._volume = structure.volume
         warnings.warn("UserWarning: Be aware that the expected input unit for 'time_step' is femtoseconds, not picoseconds.")
-        self.delta_t *= 1e-3
+        self.delta_t = self.delta_t * 1e-3
 
     @staticmethod
     def get_structure_coords_latt(
-- 
2.43.0


From a0ac885d1ddb1de4cedae2f39383b2baba13fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 04/26] fix: framework_indices can be used together with
 specie_indices

They were ignored in part, and passing them raised an AttributeError. They are
zero-based, as specie_indices and the framework_indices used with specie are.
---
 kinisi/parser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index a4f5eb3..4bc0ee2 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -753,12 +753,11 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
         diffusion and indices of framework atoms. 
     """
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = framework_indices
     else:
         drift_indices = []
-
-    for i, site in enumerate(structure):
-        if i not in indices:
-            drift_indices.append(i)
+        for i, site in enumerate(structure):
+            if i not in indices:
+                drift_indices.append(i)
 
     return indices, drift_indices
-- 
2.43.0


From 78a568336db23ef700715d12d031c7649e117ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 05/26] fix: do not lose a frame to floating-point rounding of
 min_dt and max_dt

---
 kinisi/parser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 4bc0ee2..20df6bb 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -81,7 +81,7 @@ class Parser:
             self.max_dt = drift_corrected.shape[1] * (self.step_skip * self.time_step)
         if self.min_dt is None:
             self.min_dt = self.step_skip * self.time_step
-        min_dt_int = int(self.min_dt / (self.step_skip * self.time_step))
+        min_dt_int = self._to_frames(self.min_dt)
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
         if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
@@ -98,6 +98,17 @@ class Parser:
         """
         return self._volume
 
+    def _to_frames(self, time: float) -> int:
+        """
+        Convert a time to a whole number of frames. The ratio is rounded before it is truncated, such that
+        floating-point errors (e.g. 0.3 / 0.1 being less than 3) do not lose a frame.
+
+        :param time: Time, in the simulation units.
+
+        :return: Number of frames.
+        """
+        return int(round(float(time / (self.step_skip * self.time_step)), 8))
+
     @staticmethod
     def get_disp(coords: List[np.ndarray], latt: List[np.ndarray], progress: bool = True) -> np.ndarray:
         """
@@ -156,8 +167,8 @@ class Parser:
 
         :return: Smoothed time intervals.
         """
-        min_dt = int(self.min_dt / (self.step_skip * self.time_step))
-        max_dt = int(self.max_dt / (self.step_skip * self.time_step))
+        min_dt = self._to_frames(self.min_dt)
+        max_dt = self._to_frames(self.max_dt)
         if min_dt == 0:
             min_dt = 1
         if spacing == 'linear':
-- 
2.43.0


From 08515661aa8acdb33a164b1f4ecaaeb0c013a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 06/26] fix: limit n_steps to the number of distinct intervals
 between min_dt and max_dt

Otherwise intervals were repeated when max_dt or min_dt=0 was given.
---
 kinisi/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 20df6bb..497b694 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -84,8 +84,9 @@ class Parser:
         min_dt_int = self._to_frames(self.min_dt)
         if min_dt_int >= drift_corrected.shape[1]:
             raise ValueError('The passed min_dt is greater than or equal to the maximum simulation length.')
-        if n_steps > (drift_corrected.shape[1] - min_dt_int) + 1:
-            n_steps = int(drift_corrected.shape[1] - min_dt_int) + 1
+        max_n_steps = self._to_frames(self.max_dt) - max(min_dt_int, 1) + 1
+        if n_steps > max_n_steps:
+            n_steps = max_n_steps
 
         self.time_intervals = self.get_time_intervals(n_steps, spacing)
 
-- 
2.43.0


From d0b933360db56ef883c2dc263b7918b3484c0548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 07/26] fix: sub-sample the number of observations together
 with the intervals

With sub_sample_dt > 1 each interval was paired with the number of independent
observations of another one.
---
 kinisi/diffusion.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index e123f40..1b14b89 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -68,7 +68,7 @@ class Bootstrap:
         self._n_bootstrap = np.array([])
         self._s_bootstrap = np.array([])
         self._v_bootstrap = np.array([])
-        self._n_o = n_o
+        self._n_o = n_o[::sub_sample_dt]
         self._ngp = np.array([])
         self._sub_sample_dt = sub_sample_dt
         self._dimension = dimension
@@ -576,7 +576,7 @@ class MSDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(d_squared, n_o[i], n_resamples, max_resamples, alpha, random_state)
+                distro = self.sample_until_normal(d_squared, self._n_o[i], n_resamples, max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
                 self._v_bootstrap = np.append(self._v_bootstrap, np.var(distro.samples, ddof=1))
@@ -595,7 +595,7 @@ class MSDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, d_squared.mean())
-                self._v = np.append(self._v, np.var(d_squared, ddof=1) / n_o[i])
+                self._v = np.append(self._v, np.var(d_squared, ddof=1) / self._n_o[i])
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -661,7 +661,7 @@ class MSTDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(coll_motion, n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
+                distro = self.sample_until_normal(coll_motion, self._n_o[i] / d_squared.shape[0], n_resamples, max_resamples,
                                                   alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -681,7 +681,7 @@ class MSTDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, coll_motion.mean())
-                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(coll_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
@@ -753,7 +753,7 @@ class MSCDBootstrap(Bootstrap):
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
             if bootstrap:
-                distro = self.sample_until_normal(sq_chg_motion, n_o[i] / d_squared.shape[0], n_resamples,
+                distro = self.sample_until_normal(sq_chg_motion, self._n_o[i] / d_squared.shape[0], n_resamples,
                                                   max_resamples, alpha, random_state)
                 self._distributions.append(distro)
                 self._n_bootstrap = np.append(self._n_bootstrap, np.mean(distro.samples))
@@ -773,7 +773,7 @@ class MSCDBootstrap(Bootstrap):
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             else:
                 self._n = np.append(self._n, sq_chg_motion.mean())
-                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (n_o[i] / d_squared.shape[0]))
+                self._v = np.append(self._v, np.var(sq_chg_motion, ddof=1) / (self._n_o[i] / d_squared.shape[0]))
                 self._s = np.append(self._s, np.sqrt(self._v[i]))
             self._ngp = np.append(self._ngp, self.ngp_calculation(d_squared.flatten()))
             self._dt = np.append(self._dt, self._delta_t[i])
-- 
2.43.0


From 67aa56a788c2dbbe56a5126f74cd58e3f7d20f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 08/26] fix: do not sub-sample the intervals again when
 restoring a Bootstrap

---
 kinisi/diffusion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 1b14b89..3623dde 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -146,6 +146,8 @@ class Bootstrap:
                    my_dict['n_o'],
                    sub_sample_dt=my_dict['sub_sample_dt'],
                    dimension=my_dict['dimension'])
+        boot._displacements = my_dict['displacements']
+        boot._delta_t = np.array(my_dict['delta_t'])
         boot._max_obs = my_dict['max_obs']
         boot._euclidian_displacements = [Distribution.from_dict(d) for d in my_dict['euclidian_displacements']]
         boot._dt = my_dict['dt']
-- 
2.43.0


From ed47c5ea367651890c6571a40407fa5272a55652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 09/26] fix: MSCDBootstrap respects the dimension

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 3623dde..45414fe 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -750,7 +750,7 @@ class MSCDBootstrap(Bootstrap):
             disp_slice = self._displacements[i][:, :, self._slice].reshape(self._displacements[i].shape[0],
                                                                            self._displacements[i].shape[1], self.dims)
             d_squared = np.sum(disp_slice**2, axis=-1)
-            sq_chg_motion = np.sum(np.sum((ionic_charge * self._displacements[i].T).T, axis=0)**2, axis=-1)
+            sq_chg_motion = np.sum(np.sum((ionic_charge * disp_slice.T).T, axis=0)**2, axis=-1)
             if sq_chg_motion.size <= 1:
                 continue
             self._euclidian_displacements.append(Distribution(np.sqrt(d_squared.flatten())))
-- 
2.43.0


From 9abf05f30f688133f1758c59cb945e8c080fe53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 10/26] fix: numpy scalars can be saved, so that a loaded
 analyzer can be saved again

---
 kinisi/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index aad495e..4b9541e 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -368,11 +368,11 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
     :param my_dict: Dict to make datasets from.
     """
     for key, value in my_dict.items():
-        if isinstance(value, (np.ndarray, int, float, str, bytes)):
+        if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
             for i, d in enumerate(value):
-                if isinstance(d, (np.ndarray, int, float, str, bytes)):
+                if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
                 elif isinstance(d, dict):
                     _dict_to_group(h5file, path + key + f'/list{i}' + '/', d)
-- 
2.43.0


From 140d226721b6ecf73219f674274b97261656c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 11/26] fix: only replace the extension of the file name when
 saving and loading

A dot in a directory name, or a leading './', truncated the path.
---
 kinisi/analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 4b9541e..edaa4f1 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -6,6 +6,7 @@ This module contains the base class for the different :py:class:`Analyzer` objec
 # Distributed under the terms of the MIT License
 # author: Andrew R. McCluskey (arm61)
 
+from os.path import splitext
 from typing import Union, List
 import numpy as np
 from kinisi.parser import MDAnalysisParser, PymatgenParser, ASEParser
@@ -36,7 +37,7 @@ class Analyzer:
 
         :param filename: Name for the file, no file extension is required and if one if given it is replaced with .hdf.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         my_dict = self.to_dict()
         try:
             import h5py
@@ -57,7 +58,7 @@ class Analyzer:
 
         :return: An :py:class:`Analyzer` object from the file.
         """
-        filename = filename.rsplit('.', 1)[0] + '.hdf'
+        filename = splitext(filename)[0] + '.hdf'
         try:
             import h5py
         except ModuleNotFoundError:  # pragma: no cover
-- 
2.43.0


From 79d12bf718d566f401b12513dca2e25b178423c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 12/26] fix: SuperArrhenius does not modify its (default)
 bounds

Every model after the first one got the upper bound on T0 of the first.
---
 kinisi/arrhenius.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/arrhenius.py b/kinisi/arrhenius.py
index 67a9af9..91d1dd1 100644
--- a/kinisi/arrhenius.py
+++ b/kinisi/arrhenius.py
@@ -116,7 +116,7 @@ class SuperArrhenius(Relationship):
                                                                                                  (0, None)],
                  diffusion_error: np.ndarray = None):
         if bounds[2][1] is None:
-            bounds[2] = (0, temperature[0])
+            bounds = [bounds[0], bounds[1], (0, temperature[0])]
         super().__init__(super_arrhenius, temperature, diffusion, bounds, ordinate_error=diffusion_error)
 
     @property
-- 
2.43.0


From 07fd552fa8d148ccada16087c1f40caef65877ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 13/26] fix: results of a fit without intercept can be used

distribution, flatchain and posterior_predictive raised an AttributeError.
---
 kinisi/analyzer.py                | 5 ++++-
 kinisi/conductivity_analyzer.py   | 2 ++
 kinisi/diffusion.py               | 4 +++-
 kinisi/diffusion_analyzer.py      | 2 ++
 kinisi/jump_diffusion_analyzer.py | 2 ++
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index edaa4f1..b94cde5 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -310,7 +310,10 @@ class Analyzer:
         :return: A distribution of samples for the linear relationship that can be used for easy
         plotting of credible intervals.
         """
-        return self._diff.gradient.samples * self.dt[:, np.newaxis] + self._diff.intercept.samples
+        lines = self._diff.gradient.samples * self.dt[:, np.newaxis]
+        if self._diff.intercept is not None:
+            lines = lines + self._diff.intercept.samples
+        return lines
 
     @property
     def dt(self) -> np.ndarray:
diff --git a/kinisi/conductivity_analyzer.py b/kinisi/conductivity_analyzer.py
index f4e405b..c8a495b 100644
--- a/kinisi/conductivity_analyzer.py
+++ b/kinisi/conductivity_analyzer.py
@@ -263,4 +263,6 @@ class ConductivityAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.sigma.samples]).T
         return np.array([self.sigma.samples, self.intercept.samples]).T
diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 45414fe..813f9da 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -517,7 +517,9 @@ class Bootstrap:
         else:
             iterator = samples_to_draw
         for i, n in iterator:
-            mu = self.gradient.samples[n] * self._dt[diff_regime:] + self.intercept.samples[n]
+            mu = self.gradient.samples[n] * self._dt[diff_regime:]
+            if self.intercept is not None:
+                mu = mu + self.intercept.samples[n]
             mv = multivariate_normal(mean=mu, cov=self._covariance_matrix, allow_singular=True)
             ppd[i] = mv.rvs(n_predictive_samples)
         return ppd.reshape(-1, self._dt[diff_regime:].size)
diff --git a/kinisi/diffusion_analyzer.py b/kinisi/diffusion_analyzer.py
index 56dee3c..33663cb 100644
--- a/kinisi/diffusion_analyzer.py
+++ b/kinisi/diffusion_analyzer.py
@@ -242,4 +242,6 @@ class DiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D.samples]).T
         return np.array([self.D.samples, self.intercept.samples]).T
diff --git a/kinisi/jump_diffusion_analyzer.py b/kinisi/jump_diffusion_analyzer.py
index 4503496..23afd73 100644
--- a/kinisi/jump_diffusion_analyzer.py
+++ b/kinisi/jump_diffusion_analyzer.py
@@ -245,4 +245,6 @@ class JumpDiffusionAnalyzer(Analyzer):
         """
         :return: sampling flatchain
         """
+        if self.intercept is None:
+            return np.array([self.D_J.samples]).T
         return np.array([self.D_J.samples, self.intercept.samples]).T
-- 
2.43.0


From ab65d7d80faf22f51dc3225119763750097e6932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 14/26] fix: minimum_eigenvalue_method uses the largest
 eigenvalue and orthogonal eigenvectors

numpy.linalg.eig does not order the eigenvalues, and does not give orthogonal
eigenvectors for repeated eigenvalues of a symmetric matrix.
---
 kinisi/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 813f9da..80dd35c 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -884,9 +884,9 @@ def minimum_eigenvalue_method(matrix: np.ndarray, cond_max=1e16) -> np.ndarray:
 
     :return: Reconditioned matrix.
     """
-    eigenthings = np.linalg.eig(matrix)
+    eigenthings = np.linalg.eigh(matrix)
     eigenvalues = eigenthings.eigenvalues
     new_eigenvalues = np.copy(eigenvalues)
-    T = eigenvalues[0] / cond_max
+    T = eigenvalues.max() / cond_max
     new_eigenvalues[np.where(new_eigenvalues < T)] = T
     return np.real(eigenthings.eigenvectors @ np.diag(new_eigenvalues) @ eigenthings.eigenvectors.T)
-- 
2.43.0


From 5ba6df9341c7797e86621fdcc8bb04ea497bd82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 15/26] fix: empty lists are saved, so that an analyzer without
 displacement lengths can be loaded

---
 kinisi/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index b94cde5..5d837d1 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -375,6 +375,7 @@ def _dict_to_group(h5file: 'h5py._hl.files.File', path: str, my_dict: dict):
         if isinstance(value, (np.ndarray, np.generic, int, float, str, bytes)):
             h5file[path + key] = value
         elif isinstance(value, list):
+            h5file.require_group(path + key)
             for i, d in enumerate(value):
                 if isinstance(d, (np.ndarray, np.generic, int, float, str, bytes)):
                     h5file[path + key + f'/list{i}'] = d
@@ -410,7 +411,7 @@ def _group_to_dict(h5file: 'h5py._hl.files.File', path: str) -> dict:
                 my_dict[key] = value[()]
         elif isinstance(value, h5py._hl.group.Group):
             key_list = list(h5file[path + key + '/'].keys())
-            if key_list[0][:4] == 'list':
+            if len(key_list) == 0 or key_list[0][:4] == 'list':
                 my_dict[key] = []
                 for i in sorted([int(i[4:]) for i in key_list]):
                     value = h5file[path + key + f'/list{i}']
-- 
2.43.0


From 31dbe23b3c2d9dd0029a914ef1320de4f06c698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 16/26] fix: framework_indices can be given as a tuple

A tuple was taken as an index into several axes of the displacements.
---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 497b694..459c919 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -153,7 +153,7 @@ class Parser:
         """
         # drift corrected position
         if len(drift_indices) > 0:
-            framework_disp = disp[drift_indices]
+            framework_disp = disp[list(drift_indices)]
             drift_corrected = disp - np.average(framework_disp, axis=0)[None, :, :]
         else:
             drift_corrected = disp
-- 
2.43.0


From 2330cc22c098f690d6046ea6849b2f0c9c407446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:39 +0000
Subject: [PATCH 17/26] fix: an empty list of framework_indices can be used
 together with molecules

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 459c919..52e9fdf 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -711,7 +711,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     n_molecules = indices.shape[0]
 
     if isinstance(framework_indices, (list, tuple)):
-        drift_indices = np.array(framework_indices) - 1
+        drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
             if i not in indices:
-- 
2.43.0


From 3df33c523f3e193b0d60e2a704d1e1f039ed359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:54 +0000
Subject: [PATCH 18/26] fix: modelled variances are the least-squares solution
 for variances of any magnitude

The iterative fit stopped at its initial guess when the variances (or times) were small, because its gradient
tolerance is absolute.
---
 kinisi/diffusion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index 80dd35c..d1449ca 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -12,7 +12,7 @@ from typing import List, Union, Any
 import numpy as np
 from scipy.stats import normaltest, linregress, multivariate_normal
 from scipy.linalg import pinvh
-from scipy.optimize import minimize, curve_fit
+from scipy.optimize import minimize
 import scipy.constants as const
 import tqdm
 from uravu.distribution import Distribution
@@ -418,7 +418,9 @@ class Bootstrap:
             return a / self._n_o[diff_regime:] * dt**2
 
         if self._model:
-            self._popt, _ = curve_fit(_model_variance, self.dt[diff_regime:], self._v[diff_regime:], bounds=(0, np.inf))
+            # The model is linear in a, so the (non-negative) least-squares solution is known exactly
+            unit = _model_variance(self.dt[diff_regime:], 1.0)
+            self._popt = np.array([max(np.dot(unit, self._v[diff_regime:]) / np.dot(unit, unit), 0.0)])
             self._model_v = _model_variance(self.dt[diff_regime:], *self._popt)
         else:
             self._model_v = self._v[diff_regime:]
-- 
2.43.0


From abaf2cc22fb71c27a1c328653687db95e22b4628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:16 +0000
Subject: [PATCH 19/26] fix: never overwrite a file that appears while an
 analyzer is being saved

The existence check and the opening of the file are two steps: a file
created by another process in between was truncated. Open exclusively.
---
 kinisi/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 5d837d1..7413d4f 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -46,7 +46,7 @@ class Analyzer:
             raise ModuleNotFoundError("To save and load objects, the h5py module is required")  # pragma: no cover
         if exists(filename):
             raise ValueError(f"The file {filename} already exists, please delete it or change the input filename.")
-        with h5py.File(filename, 'w') as h5file:
+        with h5py.File(filename, 'x') as h5file:
             _dict_to_group(h5file, '/', my_dict)
 
     @classmethod
-- 
2.43.0


From dd3eccd894b02cb3ad55dc88ec5f54692740bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 20/26] fix: a failed or interrupted fit left new settings and
 covariance with the samples of the earlier fit

---
 kinisi/diffusion.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index d1449ca..a5c9ee6 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -8,7 +8,8 @@ diffusion coefficient from a material.
 # author: Andrew R. McCluskey (arm61)
 
 import warnings
-from typing import List, Union, Any
+from functools import wraps
+from typing import Callable, List, Union, Any
 import numpy as np
 from scipy.stats import normaltest, linregress, multivariate_normal
 from scipy.linalg import pinvh
@@ -38,6 +39,29 @@ DIMENSIONALITY = {
 }
 
 
+def _all_or_nothing(method: Callable) -> Callable:
+    """
+    Decorator for the fitting methods, such that a fit that fails or is interrupted leaves the object with the
+    results of the previous fit, instead of a mixture of the two.
+
+    :param method: The method to be decorated.
+
+    :return: Decorated method.
+    """
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        previous = dict(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(previous)
+            raise
+
+    return wrapper
+
+
 class Bootstrap:
     """
     The top-level class for bootstrapping.
@@ -304,6 +328,7 @@ class Bootstrap:
         bottom = np.square(np.mean(d_squared)) * 5
         return top / bottom - 1
 
+    @_all_or_nothing
     def bootstrap_GLS(self,
                       start_dt: float,
                       cond_max: float = 1e16,
@@ -428,6 +453,7 @@ class Bootstrap:
         self._npd_covariance_matrix = self._covariance_matrix
         return cov_nearest(minimum_eigenvalue_method(self._covariance_matrix, self._cond_max))
 
+    @_all_or_nothing
     def diffusion(self, start_dt: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the diffusivity for the system. Keyword arguments will be
@@ -448,6 +474,7 @@ class Bootstrap:
         """
         return self._diffusion_coefficient
 
+    @_all_or_nothing
     def jump_diffusion(self, start_dt: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the jump diffusivity for the system. Keyword arguments
@@ -469,6 +496,7 @@ class Bootstrap:
         """
         return self._jump_diffusion_coefficient
 
+    @_all_or_nothing
     def conductivity(self, start_dt: float, temperature: float, volume: float, **kwargs):
         """
         Use the bootstrap-GLS method to determine the ionic conductivity for the system, in units of mScm:sup:`-1`.
-- 
2.43.0


From a82b35ff9e68b249e1f9b75bb1b568be55e8c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:55 +0000
Subject: [PATCH 21/26] fix: framework_indices given as an array or a range
 were ignored

---
 kinisi/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 52e9fdf..5844eed 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -362,7 +362,7 @@ class ASEParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if framework_indices is not None:
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -514,7 +514,7 @@ class PymatgenParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if framework_indices is not None:
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -677,7 +677,7 @@ class MDAnalysisParser(Parser):
         if len(indices) == 0:
             raise ValueError("There are no species selected to calculate the mean-squared displacement of.")
 
-        if isinstance(framework_indices, (list, tuple)):
+        if framework_indices is not None:
             drift_indices = framework_indices
 
         return indices, drift_indices
@@ -710,7 +710,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
 
     n_molecules = indices.shape[0]
 
-    if isinstance(framework_indices, (list, tuple)):
+    if framework_indices is not None:
         drift_indices = np.array(framework_indices, dtype=int) - 1
     else:
         for i, site in enumerate(structure):
@@ -764,7 +764,7 @@ def _get_framework(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
     :return: Tuple containing: indices for the atoms in the trajectory used in the calculation of the
         diffusion and indices of framework atoms. 
     """
-    if isinstance(framework_indices, (list, tuple)):
+    if framework_indices is not None:
         drift_indices = framework_indices
     else:
         drift_indices = []
-- 
2.43.0


From 77ced118ac44751dff22cdfb81b0aaffa20db772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:55 +0000
Subject: [PATCH 22/26] fix: masses can be given as an array

---
 kinisi/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 5844eed..b5f993f 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -717,7 +717,7 @@ def _get_molecules(structure: "ase.atoms.Atoms" or "pymatgen.core.structure.Stru
             if i not in indices:
                 drift_indices.append(i)
 
-    if masses == None:
+    if masses is None:
         weights = None
     elif len(masses) != indices.shape[-1]:
         raise ValueError('Masses must be the same length as a molecule')
-- 
2.43.0


From e557e7d65614fa0ffe78865f7ecc0f104831b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:55 +0000
Subject: [PATCH 23/26] fix: displacements of single precision coordinates are
 summed in double precision

---
 kinisi/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index b5f993f..34dd37e 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -138,7 +138,8 @@ class Parser:
                               latt[1:])  # calculated the correction needed for the change in cell dimensions
         unwrapped_disp = wrapped_diff - diff_diff
 
-        return np.cumsum(unwrapped_disp, axis=1)
+        # single precision coordinates are also summed in double precision, the rounding would otherwise add up
+        return np.cumsum(unwrapped_disp, axis=1, dtype=np.float64).astype(unwrapped_disp.dtype, copy=False)
 
     @staticmethod
     def correct_drift(drift_indices: np.ndarray, disp: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 2d026221caca1ca7a356235a7700355609f48469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:13 +0000
Subject: [PATCH 24/26] fix: trajectories declared identical that do not match
 are rejected instead of mixed

---
 kinisi/analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kinisi/analyzer.py b/kinisi/analyzer.py
index 7413d4f..4702d05 100644
--- a/kinisi/analyzer.py
+++ b/kinisi/analyzer.py
@@ -281,6 +281,11 @@ class Analyzer:
 
         :return: The stacked displacement list.
         """
+        for t in u[1:]:
+            if not np.array_equal(t.delta_t, u[0].delta_t) or [d.shape for d in t.disp_3d
+                                                              ] != [d.shape for d in u[0].disp_3d]:
+                raise ValueError('The trajectories are not identical, they must have the same number of frames and '
+                                 'of selected atoms.')
         joint_disp_3d = []
         for i in range(len(u[0].disp_3d)):
             disp = np.zeros((u[0].disp_3d[i].shape[0] * len(u), u[0].disp_3d[i].shape[1], u[0].disp_3d[i].shape[2]))
-- 
2.43.0


From 75cca81244e5394d02d62368b0ac356253dde66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:06 +0000
Subject: [PATCH 25/26] fix: n_i reports the numbers of independent
 observations instead of failing

---
 kinisi/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kinisi/diffusion.py b/kinisi/diffusion.py
index a5c9ee6..30b8686 100644
--- a/kinisi/diffusion.py
+++ b/kinisi/diffusion.py
@@ -250,7 +250,7 @@ class Bootstrap:
         """
         :return: The number of independent trajectories as a function of :py:attr:`dt`.
         """
-        return self._n_i
+        return self._n_o
 
     @property
     def intercept(self) -> Union[Distribution, None]:
-- 
2.43.0


From 646597a8577ef41ddf10189c4b725d78f8e9f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 26/26] fix: single-origin sampling counts one independent
 observation of every atom

The displacement of every atom from a single origin is one observation, whatever the length of the
interval. It was counted (longest interval / interval) times, such that the reported uncertainties were
too small by the square root of that.
---
 kinisi/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kinisi/parser.py b/kinisi/parser.py
index 34dd37e..6193e2d 100644
--- a/kinisi/parser.py
+++ b/kinisi/parser.py
@@ -232,6 +232,9 @@ class Parser:
                                  "please use 'multi-origin' or 'single-origin'.")
             # n_samples = np.append(n_samples, np.multiply(*disp[:, ::time_interval].shape[:2]))
             n_samples = np.append(n_samples, disp.shape[0] * time_intervals[-1] / time_interval)
+        if self.sampling == 'single-origin':
+            # a single origin gives one observation of every atom, whatever the length of the interval
+            n_samples = np.array([disp.shape[0] for disp in disp_3d], dtype=float)
         return delta_t, disp_3d, n_samples
 
 
-- 
2.43.0

