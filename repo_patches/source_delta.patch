From 38f993c5a159c5445dd2acb7ca0d2950de25b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:37 +0000
Subject: [PATCH 1/7] fix: draw EEMD noise in the caller so that parallel
 trials do not share it

Each worker process received a copy of the instance, generator included, so
trials in different workers (and every later call) were given the same noise,
and a seeded parallel result depended on how trials were split over workers.
---
 PyEMD/EEMD.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e4ebe2b..9ac43fb 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -190,13 +190,15 @@ class EEMD:
         self.max_imf = max_imf
 
         # For trial number of iterations perform EMD on a signal
-        # with added white noise
+        # with added white noise. All noise is drawn here, and not in the worker processes,
+        # because each worker has its own copy of the generator and all copies are the same.
+        noises = (self.generate_noise(scale, self._N) for _ in range(self.trials))
         if self.parallel:
             pool = Pool(processes=self.processes)
             map_pool = pool.map
         else:
             map_pool = map
-        all_IMFs = map_pool(self._trial_update, range(self.trials))
+        all_IMFs = map_pool(self._trial_update, noises)
 
         if self.parallel:
             pool.close()
@@ -229,12 +231,8 @@ class EEMD:
 
         return self.E_IMF
 
-    def _trial_update(self, trial) -> Tuple[np.ndarray, Optional[np.ndarray]]:
-        """A single trial evaluation, i.e. EMD(signal + noise).
-
-        *Note*: Although `trial` argument isn't used it's needed for the (multiprocessing) map method.
-        """
-        noise = self.generate_noise(self._scale, self._N)
+    def _trial_update(self, noise: np.ndarray) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """A single trial evaluation, i.e. EMD(signal + noise)."""
         imfs = self.emd(self._S + noise, self._T, self.max_imf)
         trend = None
         if self.separate_trends:
-- 
2.43.0


From a5f79a42eaa70bb4001081dd8918667a9e023941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:07 +0000
Subject: [PATCH 2/7] fix: stop worker pools also when a trial fails

EEMD and CEEMDAN closed their pools only on success, so that an error in a
trial, or Ctrl-C while waiting for it, left all worker processes running.
---
 PyEMD/CEEMDAN.py | 36 ++++++++++++++++--------------------
 PyEMD/EEMD.py    | 11 ++++-------
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 0761bfa..53e6b3a 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -11,6 +11,7 @@
 
 import logging
 import os
+from contextlib import nullcontext
 from multiprocessing import Pool
 from typing import Dict, List, Optional, Sequence, Tuple, Union
 
@@ -327,9 +328,9 @@ class CEEMDAN:
 
     def _decompose_noise(self) -> List[np.ndarray]:
         if self.parallel:
-            pool = Pool(processes=self.processes)
-            all_noise_EMD = pool.map(self.emd, self.all_noises)
-            pool.close()
+            # Leaving the context stops the workers also when a decomposition fails
+            with Pool(processes=self.processes) as pool:
+                all_noise_EMD = pool.map(self.emd, self.all_noises)
         else:
             all_noise_EMD = [self.emd(noise, max_imf=-1) for noise in self.all_noises]
 
@@ -351,23 +352,18 @@ class CEEMDAN:
 
         # For trial number of iterations perform EMD on a signal
         # with added white noise
-        if self.parallel:
-            pool = Pool(processes=self.processes)
-            map_pool = pool.imap_unordered
-        else:  # Not parallel
-            map_pool = map
-
-        self.E_IMF = np.zeros((1, N))
-        it = iter if not progress else lambda x: tqdm(x, desc="Decomposing noise", total=self.trials)
-
-        for IMFs in it(map_pool(self._trial_update, range(self.trials))):
-            if self.E_IMF.shape[0] < IMFs.shape[0]:
-                num_new_layers = IMFs.shape[0] - self.E_IMF.shape[0]
-                self.E_IMF = np.vstack((self.E_IMF, np.zeros(shape=(num_new_layers, N))))
-            self.E_IMF[: IMFs.shape[0]] += IMFs
-
-        if self.parallel:
-            pool.close()
+        # Leaving the context stops the workers also when a trial fails
+        with Pool(processes=self.processes) if self.parallel else nullcontext() as pool:
+            map_pool = pool.imap_unordered if self.parallel else map
+
+            self.E_IMF = np.zeros((1, N))
+            it = iter if not progress else lambda x: tqdm(x, desc="Decomposing noise", total=self.trials)
+
+            for IMFs in it(map_pool(self._trial_update, range(self.trials))):
+                if self.E_IMF.shape[0] < IMFs.shape[0]:
+                    num_new_layers = IMFs.shape[0] - self.E_IMF.shape[0]
+                    self.E_IMF = np.vstack((self.E_IMF, np.zeros(shape=(num_new_layers, N))))
+                self.E_IMF[: IMFs.shape[0]] += IMFs
 
         return self.E_IMF / self.trials
 
diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index 9ac43fb..833d677 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -194,14 +194,11 @@ class EEMD:
         # because each worker has its own copy of the generator and all copies are the same.
         noises = (self.generate_noise(scale, self._N) for _ in range(self.trials))
         if self.parallel:
-            pool = Pool(processes=self.processes)
-            map_pool = pool.map
+            # Leaving the context stops the workers also when a trial fails
+            with Pool(processes=self.processes) as pool:
+                all_IMFs = pool.map(self._trial_update, noises)
         else:
-            map_pool = map
-        all_IMFs = map_pool(self._trial_update, noises)
-
-        if self.parallel:
-            pool.close()
+            all_IMFs = map(self._trial_update, noises)
 
         self._all_imfs = defaultdict(list)
         it = iter if not progress else lambda x: tqdm(x, desc="EEMD", total=self.trials)
-- 
2.43.0


From 21c69ade1f976e002e2ee297f2333043362eb5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:19 +0000
Subject: [PATCH 3/7] fix: store the results of a decomposition together

A decomposition that failed while its results were being stored (out of
memory, Ctrl-C) left components of one signal next to the residue or the
ensemble of another in EMD, EEMD and CEEMDAN.
---
 PyEMD/CEEMDAN.py |  5 +++--
 PyEMD/EEMD.py    | 31 +++++++++++++++++++------------
 PyEMD/EMD.py     |  8 +++++---
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 53e6b3a..21839d6 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -271,8 +271,9 @@ class CEEMDAN:
         # Empty all IMFs noise
         del self.all_noise_EMD[:]
 
-        self.C_IMF = all_cimfs
-        self.residue = S * scale_s - np.sum(self.C_IMF, axis=0)
+        # Save both at once, so that a failure in between doesn't leave values from two decompositions.
+        residue = S * scale_s - np.sum(all_cimfs, axis=0)
+        self.C_IMF, self.residue = all_cimfs, residue
 
         return all_cimfs
 
diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index 833d677..3062727 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -200,7 +200,7 @@ class EEMD:
         else:
             all_IMFs = map(self._trial_update, noises)
 
-        self._all_imfs = defaultdict(list)
+        all_imfs = defaultdict(list)
         it = iter if not progress else lambda x: tqdm(x, desc="EEMD", total=self.trials)
         for imfs, trend in it(all_IMFs):
             # A bit of explanation here.
@@ -210,21 +210,28 @@ class EEMD:
             # and **not** as the *last position*. We can then use that `-1` to always add it as the last pos
             # in the actual eIMF, which indicates the trend.
             if trend is not None:
-                self._all_imfs[-1].append(trend)
+                all_imfs[-1].append(trend)
 
             for imf_num, imf in enumerate(imfs):
-                self._all_imfs[imf_num].append(imf)
+                all_imfs[imf_num].append(imf)
 
         # Convert defaultdict back to dict and explicitly rename `-1` position to be {the last value} for consistency.
-        self._all_imfs = dict(self._all_imfs)
-        if -1 in self._all_imfs:
-            self._all_imfs[len(self._all_imfs)] = self._all_imfs.pop(-1)
-
-        for imf_num in self._all_imfs.keys():
-            self._all_imfs[imf_num] = np.array(self._all_imfs[imf_num])
-
-        self.E_IMF = self.ensemble_mean()
-        self.residue = S - np.sum(self.E_IMF, axis=0)
+        all_imfs = dict(all_imfs)
+        if -1 in all_imfs:
+            all_imfs[len(all_imfs)] = all_imfs.pop(-1)
+
+        for imf_num in all_imfs.keys():
+            all_imfs[imf_num] = np.array(all_imfs[imf_num])
+
+        # Ensemble, components and residue have to describe the same decomposition, whatever fails here.
+        previous_imfs, self._all_imfs = self._all_imfs, all_imfs
+        try:
+            e_imf = self.ensemble_mean()
+            residue = S - np.sum(e_imf, axis=0)
+        except BaseException:
+            self._all_imfs = previous_imfs
+            raise
+        self.E_IMF, self.residue = e_imf, residue
 
         return self.E_IMF
 
diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 7a82403..30be23f 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -909,9 +909,11 @@ class EMD:
         if extNo <= 2:
             IMF = IMF[:-1]
 
-        # Saving imfs and residue for external references
-        self.imfs = IMF.copy()
-        self.residue = S - np.sum(self.imfs, axis=0)
+        # Saving imfs and residue for external references.
+        # Both at once, so that a failure in between doesn't leave values from two decompositions.
+        imfs = IMF.copy()
+        residue = S - np.sum(imfs, axis=0)
+        self.imfs, self.residue = imfs, residue
 
         # If residue isn't 0 then add it to the output
         if not np.allclose(self.residue, 0):
-- 
2.43.0


From c53ad57caf61945d66de2be342bced1c0e6d91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:19 +0000
Subject: [PATCH 4/7] fix: give each JitEMD its own default configuration

Changing jitemd.config on one instance changed it for all instances created
without an explicit configuration.
---
 PyEMD/experimental/jitemd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index efdc10d..205e233 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -52,7 +52,8 @@ default_emd_config["MAX_ITERATION"] = 1000.0
 
 class JitEMD:
     def __init__(self, config=None, spline_kind="cubic", extrema_detection="simple"):
-        self.config = config or default_emd_config
+        # Copy, so that changing configuration of one instance doesn't affect all others
+        self.config = config or default_emd_config.copy()
         self.spline_kind = spline_kind
         self.extrema_detection = extrema_detection
         self.imfs = None
-- 
2.43.0


From 6e8514e399d3bf4f7554d57597c867e50e6616f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:19 +0000
Subject: [PATCH 5/7] fix: respect the limit of one IMF in MATLAB-style EMD

With maxImf=1 the limit was never met and all IMFs were extracted.
---
 PyEMD/EMD_matlab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 30530e5..97690f1 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -605,7 +605,8 @@ class EMD:
             TIME[imfNo] = time.time() - timeInit
             imfNo += 1
 
-            if imfNo == maxImf - 1:
+            # There is always at least one IMF, also for a limit that leaves no place for the residue
+            if 0 < maxImf <= imfNo + 1:
                 notFinish = False
                 break
 
-- 
2.43.0


From 676010712966d0060bf60a2aa7501cd6049cd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:15 +0000
Subject: [PATCH 6/7] fix: keep EMD's residue in the output also for signals of
 small amplitude

A residue below 1e-8 was taken for zero whatever the signal, so that for signals of
comparable amplitude the returned components didn't add up to the signal.
---
 PyEMD/EMD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 30be23f..862ad42 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -915,8 +915,8 @@ class EMD:
         residue = S - np.sum(imfs, axis=0)
         self.imfs, self.residue = imfs, residue
 
-        # If residue isn't 0 then add it to the output
-        if not np.allclose(self.residue, 0):
+        # If residue isn't 0, in comparison with the signal, then add it to the output
+        if not np.allclose(self.residue, 0, atol=1e-8 * min(1, np.max(np.abs(S)))):
             IMF = np.vstack((IMF, self.residue))
 
         return IMF
-- 
2.43.0


From 6d3b13f355e5f8554c0ea74ddaa18553696bf544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:05 +0000
Subject: [PATCH 7/7] fix: keep the residue of small-amplitude signals in the
 MATLAB-style EMD

Whether the residue is meaningful was decided by an absolute threshold, so for
signals of very small amplitude (e.g. 1e-12) it was dropped and the returned
components didn't add up to the signal.
---
 PyEMD/EMD_matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 97690f1..6e1f6cb 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -612,7 +612,7 @@ class EMD:
 
         # ~ Saving residuum if meaningful
         Res = scaledS - np.sum([IMF[i] for i in range(imfNo)], axis=0)
-        if np.sum(np.abs(Res)) > 1e-10:
+        if np.sum(np.abs(Res)) > 1e-10 * min(1, np.max(np.abs(S))):
             IMF[imfNo] = Res
             ITER[imfNo] = 0
             EXT[imfNo] = extNo
-- 
2.43.0

