From 043d5d5b5f36384db07dbdf2a274b834b3bb7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 01/68] fix: accumulate correctly when messages are missing at
 window boundaries

Steps without a message were interpolated with the weight of another step,
between the wrong messages (unsorted keys, index -1) or failed with an
IndexError; the mask of the message at the end of the window was dropped.
---
 src/pyg2p/main/manipulation/aggregator.py | 72 ++++++++---------------
 1 file changed, 25 insertions(+), 47 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..4844110 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -83,50 +83,16 @@ class Aggregator(Loggable):
             self._log('start 0: change to the first timestep {}'.format(self._aggregation_step))
             self._start = self._aggregation_step
 
-        created_zero_array = False
-        for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
-            if iter_ not in v_ord_keys:
-
-                ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
-                next_ts = v_ord_keys[ind_next_ts]
-                v_nts_ma = v_ord[next_ts]
-
-                ind_originalts = bisect.bisect_right(v_ord_keys, iter_)
-                if ind_originalts == ind_next_ts:
-                    ind_originalts -= 1
-                originalts = v_ord_keys[ind_originalts]
-                v_ots_ma = v_ord[originalts]
-
-                if self._logger.isEnabledFor(logging.DEBUG):
-                    self._log(f'Message {iter_} not in {v_ord_keys}.')
-                    self._log(f'Creating grib[{iter_}] as grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-
-                v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                v_ord[iter_] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+        if 0 not in v_ord:
+            # the accumulated variable is zero at the start of the forecast
+            self._log('Message 0 not in dataset. Creating it as zero values array')
+            v_ord[0] = np.zeros(shape_iter)
+        steps = sorted(v_ord.keys())
 
-            if iter_ - self._aggregation_step >= 0 and iter_ - self._aggregation_step not in v_ord_keys and not created_zero_array:
-                ind_next_ts = bisect.bisect_left(v_ord_keys, iter_ - self._aggregation_step)
-                next_ts = v_ord_keys[ind_next_ts]
-
-                if iter_ - self._aggregation_step == 0:
-                    self._log('Message 0 not in dataset. Creating it as zero values array')
-                    v_ord[0] = np.zeros(shape_iter)
-                    originalts = 0  # do not delete: used by numexpr evaluation
-                    created_zero_array = True
-                else:
-                    v_nts_ma = v_ord[next_ts]
-                    ind_originalts = bisect.bisect_right(v_ord_keys, iter_ - self._aggregation_step)
-                    if ind_originalts == ind_next_ts:
-                        ind_originalts -= 1
-                    originalts = v_ord_keys[ind_originalts]
-                    # variables needed for numexpr evaluator namespace
-                    v_ots_ma = v_ord[originalts]
-
-                    if self._logger.isEnabledFor(logging.DEBUG):
-                        self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                    v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+        for iter_ in range(self._start, self._end + 1, self._aggregation_step):
+            for step in (iter_ - self._aggregation_step, iter_):
+                if step not in v_ord:
+                    v_ord[step] = self._interpolate_step(v_ord, steps, step)
 
             if iter_ - self._aggregation_step == 0 and self._force_zero:
                 # forced ZERO array...instead of taking the grib
@@ -134,13 +100,11 @@ class Aggregator(Loggable):
             else:
                 # Take the 0 step grib.
                 # It could be created before as zero-array,
-                # if 0 step is not present in the grib dataset (see line 117)
+                # if 0 step is not present in the grib dataset
                 v_iter_1_ma = v_ord[iter_ - self._aggregation_step]
 
             # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
-            # need to create the out array first as zero array, for issue in missing values for certain gribs
-            v_iter_ma = np.zeros(shape_iter)
-            v_iter_ma += v_ord[iter_]
+            v_iter_ma = v_ord[iter_]
             _unit_time = self._unit_time
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
@@ -152,6 +116,20 @@ class Aggregator(Loggable):
 
         return out_values
 
+    def _interpolate_step(self, v_ord, steps, step):
+        """Linear interpolation in time between the messages before and after step. steps: sorted steps of messages"""
+        ind_next_ts = bisect.bisect_left(steps, step)
+        next_ts = steps[ind_next_ts]
+        originalts = steps[ind_next_ts - 1]
+        # variables needed for numexpr evaluator namespace
+        v_nts_ma = v_ord[next_ts]
+        v_ots_ma = v_ord[originalts]
+        if self._logger.isEnabledFor(logging.DEBUG):
+            self._log(f'Message {step} not in {steps}.')
+            self._log(f'Creating grib[{step}] as grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({step}-{originalts})/({next_ts}-{originalts}))')
+        v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((step - originalts)/(next_ts-originalts))')
+        return ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+
     def _average(self, values):
 
         if self._step_type in [PARAM_CUM]:
-- 
2.43.0


From aeb22906e3fa02878ca3a48e5d28af8af98a9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 02/68] fix: half weights average over a window with a single
 message is that message, not NaN

---
 src/pyg2p/main/manipulation/aggregator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 4844110..0d9a19b 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -166,8 +166,8 @@ class Aggregator(Loggable):
                     for iterator_avg in range(iter_from, iter_to, 1):
                         if iterator_avg in v_ord_keys:                
                             count_steps=count_steps+1
-                    if count_steps>0:
-                        dt1=self._aggregation_step/count_steps
+                    if count_steps>=0:
+                        dt1=self._aggregation_step/max(count_steps, 1)
                         dt2=dt1/2
 
                         for iterator_avg in range(iter_from, iter_to, 1):
-- 
2.43.0


From 70d545dbd5b39086c45103be5044a0c364ea956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 03/68] fix: keep missing cells of the messages used in average
 and instantaneous maps

---
 src/pyg2p/main/manipulation/aggregator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 0d9a19b..5f56cf0 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -159,6 +159,7 @@ class Aggregator(Loggable):
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
                 sum_counter = 0.0
+                used = []
                 v_ord_keys = list(v_ord.keys())
 
                 if self._aggregation_halfweights:
@@ -182,6 +183,7 @@ class Aggregator(Loggable):
                                     v_ma = v_ord[iterator_avg]*dt1
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
+                                used.append(v_ma)
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
@@ -199,6 +201,7 @@ class Aggregator(Loggable):
                             v_ma = v_ord[next_]
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
+                        used.append(v_ma)
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
 
                 # mask result with all maskes from GRIB original values used in average (if existing any)
@@ -207,7 +210,7 @@ class Aggregator(Loggable):
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
@@ -234,24 +237,23 @@ class Aggregator(Loggable):
             level = values_keys[0].level
             shape_iter = values[values_keys[0]].shape
             for iter_ in range(start, self._end + 1, self._aggregation_step):
-                res_inst = np.zeros(shape_iter)
                 key = Step(iter_, iter_, resolution_1, self._aggregation_step, level)
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    res_inst = v_ord[iter_].copy()
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = zeros')
-                        pass
+                        res_inst = np.zeros(shape_iter)
                     else:
                         ind_next_ = bisect.bisect_right(v_ord_keys, iter_)
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = v_ord[next_].copy()
                 out_values[key] = res_inst
 
             return out_values
-- 
2.43.0


From 52d167f75654ff8fe1ce7e7dee47e8d26099ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 04/68] fix: strip only the leading x= of a conversion formula

Formulas with a comparison such as where(x==0, 1, x) were corrupted.
---
 src/pyg2p/main/manipulation/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..095229c 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -18,7 +18,7 @@ class Converter(Loggable):
             if self._function_str == 'x=x':
                 self._identity = True
             else:
-                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', ''))
+                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', '', 1))
 
     def set_unit_to_convert(self, unit):
         self._initial_unit = unit
-- 
2.43.0


From 82711fe739101ade2807fce67d41a0dab162ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 05/68] fix: negative cut-off keeps missing cells missing

---
 src/pyg2p/main/manipulation/conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 095229c..043705d 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -45,12 +45,19 @@ class Converter(Loggable):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._cut_off_array(values)
         else:
-            values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._cut_off_array(xs)
         return xs
 
+    @staticmethod
+    def _cut_off_array(values):
+        res = ne.evaluate('where(values<0, 0, values)')
+        # preserve maskes as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def __str__(self):
         log_mess = "\nConverting values from units {}. " \
                    "\nFunction: {}" \
-- 
2.43.0


From 00d28cd299ec3ccac54803883463a0b6e16fe507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 06/68] fix: interpolation to targets with less than 250 cells
 failed with ZeroDivisionError

---
 src/pyg2p/util/generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..eda5f87 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,7 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    progress_step = max(1, int(num_cells / 250))
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From 7c076c00359bbe9342106af3daf86c7c56d34280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 07/68] fix: adw and cdd weights are defined when all
 neighbours lie on the search radius

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..7a3aadc 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -828,6 +828,8 @@ class ScipyInterpolation(object):
                 start = time.time()
                 s = np.zeros_like(distances)
                 w, s = adw_compute_weights_from_cutoff_distances(distances, s, ref_radius)
+                # when all the neighbours lie exactly on the search radius, they all have the same (non zero) weight
+                w[np.all(w == 0, axis=1)] = 1
                 checktime = time.time()
                 stdout.write('adw_compute_weights_from_cutoff_distances time (sec): {}\n'.format(checktime - start))
 
@@ -898,6 +900,8 @@ class ScipyInterpolation(object):
                         # Custom values
                         m_const, min_num_of_station, radius_ratio, weights_mode = cdd_options.values()
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
+                    # when all the neighbours lie exactly on the search radius, they all have the same (non zero) weight
+                    s[np.all(s == 0, axis=1)] = 1
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
                     TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-- 
2.43.0


From 7b052a4ab05abc881c7434ea5b8701d892c410fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 08/68] fix: cdd options are taken by name, whatever their
 order in the JSON file

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7a3aadc..2334605 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -898,7 +898,8 @@ class ScipyInterpolation(object):
                         weights_mode = "All"
                     else:
                         # Custom values
-                        m_const, min_num_of_station, radius_ratio, weights_mode = cdd_options.values()
+                        m_const, min_num_of_station, radius_ratio, weights_mode = (
+                            cdd_options[k] for k in ('m_const', 'min_num_of_station', 'radius_ratio', 'weights_mode'))
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                     # when all the neighbours lie exactly on the search radius, they all have the same (non zero) weight
                     s[np.all(s == 0, axis=1)] = 1
-- 
2.43.0


From 6f7204a7171645a8f4dfa2e5d53d45ca956ad9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 09/68] fix: triangulation locates each target cell by its own
 latitude, also on projected maps and southern grids

---
 .../main/interpolation/scipy_interpolation_lib.py    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 2334605..c0d6563 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1397,21 +1397,23 @@ class ScipyInterpolation(object):
             for i in range(gribpoints_scaled.shape[0]):
                 gribpoints_scaled[i,0], error = quad(integrand, 0, np.radians(gribpoints_scaled[i,0]))
 
-            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/max(gribpoints_scaled[:,0])
+            lat_scale = max(abs(gribpoints_scaled[:,0]))
+            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/lat_scale
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
         p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
-        target_latsORscaled = self.target_latsOR[:,0].copy()
+        # each target cell has its own latitude (it is not constant along the rows of projected maps)
+        target_latsORscaled, inverse = np.unique(self.target_latsOR, return_inverse=True)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
         # In case of rotated grid, instead, use the original grid points, that is fine for the spece even if it is rotaded
         if self.source_grid_is_rotated == False:
             for i in range(target_latsORscaled[:].shape[0]):
                 target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
-            target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
-        
-        target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
+            target_latsORscaled[:] = target_latsORscaled[:]*90*10/lat_scale
+
+        target_latsORscaled = target_latsORscaled[inverse]
         p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
-- 
2.43.0


From 3085580617cbdf60eeb3b9400685bbbb6aeefa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 10/68] fix: cdd OnlyTOP10 drops the smallest weight

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index c0d6563..16fee83 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -921,7 +921,7 @@ class ScipyInterpolation(object):
                     #   rows = np.arange(s.shape[0])[:, None]
                     #   s[rows, idx[:, :-10]] = 0
                     # all in one row:
-                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, 10, axis=1)[:, :-10]] = 0
+                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, -10, axis=1)[:, :-10]] = 0
 
 
                 
-- 
2.43.0


From 50d6058a54c38cb9a6474ab0cf0b64145b01bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 11/68] fix: cdd mode NewEtAl failed with a numba TypingError
 on every input

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 16fee83..336b47f 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -451,7 +451,7 @@ def cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map
     return s
 
 
-@njit(parallel=True, fastmath=False, cache=True)
+# not compiled: numba supports neither astype(int) nor the indexing with two arrays
 def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, longrib, latgrib, TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s):
     # New et al. 2000 
     # no search radius applied
-- 
2.43.0


From bbf454c804125d2fcd10aa66a89ae6e6a5795b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 12/68] fix: interpolation with scipy methods keeps missing
 cells of the message missing

---
 src/pyg2p/main/interpolation/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..e418f63 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,8 +144,9 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
+        # np.append loses the mask: take it from the original values
+        orig_mask = False if not isinstance(v, ma.core.MaskedArray) else np.append(ma.getmaskarray(v), False)
         v = np.append(v, self.mv_output)
-        orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
                 result = ma.masked_where(orig_mask[indexes], v[indexes], copy=False)
@@ -154,10 +155,8 @@ class Interpolator(Loggable):
         else:
             result = np.einsum('ij,ij->i', weights, v[indexes])
             if isinstance(orig_mask, np.ndarray):
-                # there are masks. logic sum of masks from all values used
-                mask = None
-                for i in range(0, indexes.shape[1]):
-                    mask = orig_mask[indexes.T[i]] if mask is None else mask | orig_mask[indexes.T[i]]
+                # there are masks. logic sum of masks from all values used (those with some weight)
+                mask = np.any(orig_mask[indexes] & (weights != 0), axis=1)
                 result = ma.masked_where(mask, result, copy=False)
         return result
 
-- 
2.43.0


From 5ecc3b66eb94aa8dc4074d97b139ee32a1e6ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 13/68] fix: grib interpolation skips NaN and limit target
 longitudes consistently

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..0e29934 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -41,7 +41,7 @@ def grib_nearest(gid, target_lats, target_lons, mv):
         if i % progress_step == 0:
             stdout.write(format_progress(back_char, i, num_cells, outs, i * 100. / num_cells))
             stdout.flush()
-        if not (lon <= -1.0e+10 or lon == mv):
+        if lon > -1.0e+10 and lon != mv:
             try:
                 n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item())
             except eccodes.GribInternalError:
@@ -87,7 +87,7 @@ def grib_invdist(gid, target_lats, target_lons, mv):
         if i % progress_step == 0:
             stdout.write(format_progress(back_char, i, num_cells, outs, i * 100. / num_cells))
             stdout.flush()
-        if not (lon < -1.0e+10 or lon == mv):
+        if lon > -1.0e+10 and lon != mv:
 
             try:
                 n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
@@ -152,7 +152,7 @@ def nearest_parallel_step(chunk, gid, mv):
     lat, lon, x, y = chunk
 
     idx = int_fill_value
-    if not (lon <= -1.0e+10 or lon == mv):
+    if lon > -1.0e+10 and lon != mv:
         try:
             n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item())
         except eccodes.GribInternalError:
@@ -195,7 +195,7 @@ def invdist_parallel_step(chunk, gid, mv):
     lat, lon, x, y = chunk
     idx1 = idx2 = idx3 = idx4 = int_fill_value
     inv1 = inv2 = inv3 = inv4 = np.NaN
-    if not (lon < -1.0e+10 or lon == mv):
+    if lon > -1.0e+10 and lon != mv:
         try:
             n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
         except eccodes.GribInternalError:
-- 
2.43.0


From 194fc36592a32f0685d4b12b282f6f0bbb86594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 14/68] fix: grib_invdist at an exact position depends on the
 coinciding cell only

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 0e29934..79dbd85 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -134,9 +134,9 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    idx2 = n_nearest[1]['index'] if not exact_position else idx1
+    idx3 = n_nearest[2]['index'] if not exact_position else idx1
+    idx4 = n_nearest[3]['index'] if not exact_position else idx1
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From f68cfc08693bff968c60be6e3d1a02f06572f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 15/68] fix: bilinear never interpolates between the corners of
 the previous target cell

When the search for the corners gave up (after as many retries as the target has rows) the
corners of another cell were used, or AttributeError was raised for the first one.
---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 336b47f..e8fb6a9 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -570,6 +570,7 @@ class ScipyInterpolation(object):
             self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')
 
     def interpolate(self, lonefas, latefas):        
+        self.max_retries = lonefas.shape[0]  # only used in bilinear
         if (self.num_of_splits is not None):
             ref_radius = None
             if self.mode == 'adw' and self.nnear == 11:
@@ -1152,8 +1153,9 @@ class ScipyInterpolation(object):
         outs = 0            # number of points falling outside the min_upper_bound distance
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
-        # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        # max number of retry equals to a full lenght of lon coordinates (of the whole target, also when it is split),
+        # at least 20 and as far as there are source points to try
+        max_retries = max(1, min(max(self.max_retries, 20), z.size - nnear - 1))
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
@@ -1320,6 +1322,8 @@ class ScipyInterpolation(object):
                     if quadrilateral_is_ok==False:
                         #print("\nError: quadrilateral_is_ok is False, failed to find a correct quadrilateral: nn is {}, lat={} lon={}".format(nn, self.lat_in, self.lon_in))
                         not_in_quad+=1
+                        # use the last corners tried for this point, never those of a previous one
+                        self.p1, self.p2, self.p3, self.p4 = get_clockwise_points(corners_points)
 
                     [alpha, beta] = np.clip(opt.fsolve(self._functionAlphaBeta, (0.5, 0.5)), 0, 1)
                     weight1[nn] = (1-alpha)*(1-beta)
-- 
2.43.0


From 436dd77d605ddc769e254dbb2375dabb05f79fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 16/68] fix: triangulation on global maps maps back the first
 padded point too

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index e8fb6a9..c535578 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1521,7 +1521,7 @@ class ScipyInterpolation(object):
                         weights[nn] = np.append(np.append(np.transpose(b),1 - b.sum(axis=0)),np.zeros(nnear-3))
                         result[nn] = weights[nn,0]*z[idxs[nn,0]] + weights[nn,1]*z[idxs[nn,1]] + weights[nn,2]*z[idxs[nn,2]]
         if (is_global_map==True):
-            idxs[idxs>len(self.latgrib)]=original_indexes[idxs[idxs>len(self.latgrib)]-len(self.latgrib)]
+            idxs[idxs>=len(self.latgrib)]=original_indexes[idxs[idxs>=len(self.latgrib)]-len(self.latgrib)]
         stdout.write('{}{:>100}'.format(back_char, ' '))
         stdout.write('{}Building coeffs: {}/{} [outs: {}] (100%)\n'.format(back_char, num_cells, num_cells, outs))
         if use_bilinear:
-- 
2.43.0


From 54f6912022f2b1a07f33f2f021d32f14f69c7aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 17/68] fix: splitting the target works with cdd, nearest and
 more splits than rows

---
 .../interpolation/scipy_interpolation_lib.py  | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index c535578..8c33ce3 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -571,6 +571,9 @@ class ScipyInterpolation(object):
 
     def interpolate(self, lonefas, latefas):        
         self.max_retries = lonefas.shape[0]  # only used in bilinear
+        # whole target and the rows of it being processed: only used in cdd
+        self.all_target_lons, self.all_target_lats = lonefas, latefas
+        self.target_rows = slice(None)
         if (self.num_of_splits is not None):
             ref_radius = None
             if self.mode == 'adw' and self.nnear == 11:
@@ -587,11 +590,12 @@ class ScipyInterpolation(object):
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
             # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Initialize empty arrays to store the results
-            weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-            indexes = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=int)
+            table_shape = (lonefas.shape[0]*lonefas.shape[1],) if self.mode == 'nearest' else (lonefas.shape[0]*lonefas.shape[1],self.nnear)
+            weights = np.empty(table_shape,dtype=lonefas.dtype)
+            indexes = np.empty(table_shape,dtype=int)
             result = np.empty((lonefas.shape[0]*lonefas.shape[1]),dtype=lonefas.dtype)
 
             # Iterate over the subsets of the arrays
@@ -599,12 +603,14 @@ class ScipyInterpolation(object):
                 subset_lonefas = lonefas[i:i+subset_size, :]
                 subset_latefas = latefas[i:i+subset_size, :]
 
+                self.target_rows = slice(i, i+subset_size)
+
                 # Call the interpolate function for the subset
                 subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
 
                 # Collect the results back into the weights and indexes arrays
-                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights
-                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_indexes
+                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_weights
+                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_indexes
                 result[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_result
         
         else:
@@ -870,7 +876,7 @@ class ScipyInterpolation(object):
                 weights_mode = 'All'
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.target_rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -881,7 +887,7 @@ class ScipyInterpolation(object):
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.target_rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -906,10 +912,10 @@ class ScipyInterpolation(object):
                     s[np.all(s == 0, axis=1)] = 1
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-                    TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-                    TargetLatRes=self.target_latsOR[0,0]-self.target_latsOR[1,0]
-                    LonOrigin=self.target_lonsOR[0,0]
-                    LatOrigin=self.target_latsOR[0,0]
+                    TargetLonRes=self.all_target_lons[0,0]-self.all_target_lons[0,1]
+                    TargetLatRes=self.all_target_lats[0,0]-self.all_target_lats[1,0]
+                    LonOrigin=self.all_target_lons[0,0]
+                    LatOrigin=self.all_target_lats[0,0]
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-- 
2.43.0


From 10d87774a3320d68393efd02cccdcffe8a92e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 18/68] fix: grib methods find a compressed table of a plain
 configured name

---
 src/pyg2p/main/interpolation/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index e418f63..b51fbd5 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -100,6 +100,11 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    @staticmethod
+    def _intertable_exists(tbl_fullpath):
+        # tables are read in plain or compressed form
+        return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
+
     def _read_intertable(self, tbl_fullpath):
 
         if tbl_fullpath not in self._LOADED_INTERTABLES:
@@ -218,7 +223,7 @@ class Interpolator(Loggable):
         nnear = self.scipy_modes_nnear[self._mode]
 
         if (not DEBUG_ADW_INTERPOLATION) and \
-            (pyg2p.util.files.exists(intertable_name) or pyg2p.util.files.exists(intertable_name + '.gz')):
+            self._intertable_exists(intertable_name):
                 indexes, weights = self._read_intertable(intertable_name)
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
@@ -271,7 +276,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -282,7 +287,7 @@ class Interpolator(Loggable):
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -319,7 +324,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -330,7 +335,7 @@ class Interpolator(Loggable):
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
-- 
2.43.0


From 4be758df50b1dbd0e68cce74e2cf191e83120a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 19/68] fix: a new interpolation table never takes the name of
 another one

---
 src/pyg2p/main/interpolation/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index b51fbd5..578ae20 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -75,7 +75,7 @@ class Interpolator(Loggable):
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             i = 1
-            while pyg2p.util.files.exists(tbl_fullpath):
+            while self._is_used(filename):
                 filename = self.format_intertablename(prognum='_{}'.format(i))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 i += 1
@@ -100,6 +100,12 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    def _is_used(self, filename):
+        # a table with this name exists or is registered for another grid: a new one would be read in its place
+        registered = [i['filename'] for i in self.intertables_config.vars.values() if isinstance(i, dict) and 'filename' in i]
+        return any(filename in (name, name + '.gz') for name in registered) or \
+            any(pyg2p.util.files.exists(os.path.join(folder, filename)) for folder in self._intertable_dirs.values() if folder)
+
     @staticmethod
     def _intertable_exists(tbl_fullpath):
         # tables are read in plain or compressed form
-- 
2.43.0


From 1fac052c3674309554a9d9d85a0f2c71a9e4f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 20/68] fix: files that cannot be indexed are read from the
 first message at every scan

---
 src/pyg2p/main/readers/grib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..3012b4f 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -96,11 +96,12 @@ class GRIBReader(Loggable):
                     codes_release(gid)
 
         elif self._file_handler:
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                has_geo = True
+                has_geo = has_geo or GRIBReader._find(gid, shortName=v_selected)
                 codes_release(gid)
         return has_geo
 
@@ -125,6 +126,8 @@ class GRIBReader(Loggable):
                         # release unused grib
                         codes_release(gid)
         elif self._file_handler:
+            # every scan reads the whole file
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
-- 
2.43.0


From 554a6e1dbafcd46e03be0b2e38df5e589fdbf322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 21/68] fix: data times like 0600 and 1230 are read as such

---
 src/pyg2p/__init__.py          | 4 ++--
 src/pyg2p/main/readers/grib.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 463f295..aa9de94 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -145,7 +145,7 @@ class GribGridDetails(Loggable):
 
 class Messages(Loggable):
 
-    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0'):
+    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0000'):
         super().__init__()
         self.values_first_or_single_res = values
         self.values_second_res = val_2nd or {}
@@ -154,7 +154,7 @@ class Messages(Loggable):
         self.type_of_level = type_of_level
         self.unit = unit
         self.missing_value = mv
-        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H')
+        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H%M')
 
         self.grid_details = grid_details
         # order key list to get first step
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 3012b4f..0d158d3 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -211,7 +211,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}')
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From fa909e7358051ff9686765c36c6020b1c0cab460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 22/68] fix: messages read for a grid id are released, a file
 without them is refused

---
 src/pyg2p/main/readers/grib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 0d158d3..4c4fc5d 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -49,9 +49,14 @@ class GRIBReader(Loggable):
     @classmethod
     def get_id(cls, grib_file, reader_args):
         reader = GRIBReader(grib_file)
-        gribs_for_id = reader._get_gids(**reader_args)
-        grid = GribGridDetails(gribs_for_id[0])
-        reader.close()
+        try:
+            # selected messages are released by close()
+            reader._selected_grbs = reader._get_gids(**reader_args)
+            if not reader._selected_grbs:
+                raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {reader_args}')
+            grid = GribGridDetails(reader._selected_grbs[0])
+        finally:
+            reader.close()
         return grid.grid_id
 
     @staticmethod
-- 
2.43.0


From abf87dfd7d0b896899957c8273fac1bb1484d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 23/68] fix: step information comes from distinct steps, not
 from repeated ones of other levels or dates

---
 src/pyg2p/main/readers/grib.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 4c4fc5d..0aa88da 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -226,12 +226,16 @@ class GRIBReader(Loggable):
         # return input_steps,
         # change step if a second time resolution is found
 
-        start_steps = [codes_get(gribs[i], 'startStep') for i in range(len(gribs))]
-        end_steps = [codes_get(gribs[i], 'endStep') for i in range(len(gribs))]
-        start_grib = min(start_steps)
-        end_grib = max(end_steps)
-        ord_end_steps = sorted(end_steps)
-        ord_start_steps = sorted(start_steps)
+        steps = {}
+        for g in gribs:
+            # messages of other levels, dates or members can have the same steps
+            start_step = codes_get(g, 'startStep')
+            end_step = codes_get(g, 'endStep')
+            steps[end_step] = min(start_step, steps.get(end_step, start_step))
+        ord_end_steps = sorted(steps)
+        ord_start_steps = [steps[s] for s in ord_end_steps]
+        start_grib = min(ord_start_steps)
+        end_grib = ord_end_steps[-1]
         if len(ord_end_steps) > 1:
             step = ord_end_steps[1] - ord_end_steps[0]
         else:
@@ -239,13 +243,11 @@ class GRIBReader(Loggable):
 
         step2 = -1
         change_step_at = ''
-        if len(ord_end_steps) > 1:
-            step = ord_end_steps[1] - ord_end_steps[0]
-            for i in range(2, len(ord_end_steps)):
-                if step2 == -1 and ord_end_steps[i] - ord_end_steps[i - 1] != step:
-                    # change of time resolution
-                    step2 = ord_end_steps[i] - ord_end_steps[i - 1]
-                    change_step_at = f'{ord_start_steps[i]}-{ord_end_steps[i]}'
+        for i in range(2, len(ord_end_steps)):
+            if step2 == -1 and ord_end_steps[i] - ord_end_steps[i - 1] != step:
+                # change of time resolution
+                step2 = ord_end_steps[i] - ord_end_steps[i - 1]
+                change_step_at = f'{ord_start_steps[i]}-{ord_end_steps[i]}'
         return start_grib, end_grib, step, step2, change_step_at
 
     def get_grib_info(self, select_args):
-- 
2.43.0


From 96b478b31f2728154c5ac0c18348f5b2a7b490be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 24/68] fix: the input step of a message does not depend on the
 order of the file

---
 src/pyg2p/main/readers/grib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 0aa88da..4c957df 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -180,15 +180,14 @@ class GRIBReader(Loggable):
             all_values = {}
             all_values_second_res = {}
             grid2 = None
-            input_step = self._step_grib
             for g in self._selected_grbs:
                 start_step = codes_get(g, 'startStep')
                 end_step = codes_get(g, 'endStep')
                 points_meridian = codes_get(g, 'Nj')
                 level = codes_get(g, 'level')
-                if f'{start_step}-{end_step}' == self._change_step_at:
-                    # second time resolution
-                    input_step = self._step_grib2
+                # messages from the change of time resolution on have the second one, in any order
+                is_second_step = self._change_step_at and end_step >= int(self._change_step_at.split('-')[-1])
+                input_step = self._step_grib2 if is_second_step else self._step_grib
 
                 step_key = Step(start_step, end_step, points_meridian, input_step, level)
 
-- 
2.43.0


From 55788aacabc4fdcacd23120249252dba2fd9cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 25/68] fix: messages of two resolutions are told apart in any
 order of the file

---
 src/pyg2p/main/readers/grib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 4c957df..02a6338 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -207,13 +207,14 @@ class GRIBReader(Loggable):
                     bitmap = codes_get_array(g, 'bitmap', int)
                     values = ma.masked_where(bitmap == 0, values, copy=False)
 
-                if not grid2:
+                if points_meridian == grid.num_points_along_meridian:
                     all_values[step_key] = values
-                elif points_meridian != grid.num_points_along_meridian:
+                else:
                     all_values_second_res[step_key] = values
 
             if grid2:
-                key_2nd_spatial_res = min(all_values_second_res.keys())
+                # cumulated messages have the same start step
+                key_2nd_spatial_res = min(all_values_second_res.keys(), key=lambda k: int(k.end_step))
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
             return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}')
         # no messages found
-- 
2.43.0


From 60fec5a7ca70fbaeb0750fb492cfbea9d17f93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 26/68] fix: fields of the second resolution are written
 without aggregation, up to the last step and only once

---
 src/pyg2p/main/controller.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..d1933a5 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -57,6 +57,12 @@ class Controller(Loggable):
         selector_params = self.ctx.create_select_cmd_for_reader(start_step, end_step)
         return grib_info, selector_params, end_step, aggregator
 
+    @staticmethod
+    def _end_of_first_res(messages):
+        # start of the first message at 2nd resolution, or its end if it is cumulated from the start of the forecast
+        change_res_step = messages.change_resolution_step()
+        return int(change_res_step.start_step) or int(change_res_step.end_step)
+
     def second_res_manipulation(self, start_step, end_step, input_step, messages, mv_grib, values):
 
         # manipulation of second resolution messages
@@ -68,6 +74,9 @@ class Controller(Loggable):
                         end_step=end_step, unit_time=self.ctx.get('outMaps.unitTime'), mv_grib=mv_grib,
                         force_zero_array=self.ctx.get('aggregation.forceZeroArray'))
         values2 = m2.do_manipulation(messages.second_resolution_values())
+        # the first resolution gives the fields up to the change
+        done = {int(k.end_step) for k in values}
+        values2 = {k: v for k, v in values2.items() if int(k.end_step) not in done}
         values.update(values2)
         # overwrite change_step resolution because of manipulation
         change_step = sorted(values2.keys(), key=lambda k: int(k.end_step))[0]
@@ -108,23 +117,24 @@ class Controller(Loggable):
                                   cut_off=self.ctx.get('parameter.cutoffnegative'))
             messages.apply_conversion(converter)
 
-        values = messages.first_resolution_values()
+        values = dict(messages.first_resolution_values())
 
         # First resolution manipulation
         if self.ctx.must_do_aggregation:
             if messages.have_resolution_change():
-                change_res_step = messages.change_resolution_step()
                 # First resolution manipulation by setting end step as start step of the first message at 2nd resolution
-                aggregator.change_end_step(int(change_res_step.start_step))
+                aggregator.change_end_step(self._end_of_first_res(messages))
             values = aggregator.do_manipulation(values)
 
         change_res_step = None
         if messages.have_resolution_change():
             change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
-            # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
+            if not self.ctx.must_do_aggregation:
+                values.update(messages.second_resolution_values())
+            elif end_step >= self._end_of_first_res(messages) + int(self.ctx.get('aggregation.step')):
                 # second resolution manipulation
+                start_step2 = self._end_of_first_res(messages) + int(self.ctx.get('aggregation.step'))
+                # we need GRIB lats and lons only for scipy interpolation
                 change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
 
         # cutoff after interpolation
-- 
2.43.0


From 5ce5003f8eb2b4c4a7e366db5df770a653b21caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 27/68] fix: without an end step the second input file is read
 to its last step

---
 src/pyg2p/main/controller.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index d1933a5..555ac38 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -33,11 +33,17 @@ class Controller(Loggable):
         aggregator = None
         self.grib_reader = GRIBReader(self.ctx.get('input.file'), w_perturb=self.ctx.has_perturbation_number)
         grib_info = self.grib_reader.get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
+        last_step = grib_info.end
+        if self.ctx.is_2_input_files:
+            # two files as input (-i and -I input arguments were given)
+            self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
+            grib_info2 = self.grib_reader2.get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
+            last_step = max(last_step, grib_info2.end)
         self._writer = OutputWriter(self.ctx, grib_info)
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend') or last_step
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
@@ -84,7 +90,6 @@ class Controller(Loggable):
 
     def read_2nd_res_messages(self, cmd_args, messages):
         # append messages
-        self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
         # messages.change_resolution() returns True after Messages.append_2nd_res_messages()
         mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
         messages.append_2nd_res_messages(mess_2nd_res)
-- 
2.43.0


From 63420f5a11bd66bd2963d63ef1661293c748c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 28/68] fix: interpolate masks cells without value, whatever
 missing value target coordinates have

---
 src/pyg2p/main/interpolation/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 578ae20..91bfab4 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -63,7 +63,8 @@ class Interpolator(Loggable):
         else:
             # interpolating gridded data with scipy kdtree
             out_v = self.interpolate_scipy(lats, longs, v, grid_id, geodetic_info)
-        return out_v
+        # the missing value of target coordinates is not the one of clone map or netCDF file: cells without value are masked
+        return ma.masked_where((out_v == self.mv_output) | np.isnan(out_v), out_v, copy=False)
 
     def _intertable_filename(self, grid_id):
         intertable_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
-- 
2.43.0


From a2d1b3850deedadb1550d464964fa045c87302e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 29/68] fix: netCDF writer stores missing cells as missing
 value with any scale factor and clone map

---
 src/pyg2p/main/writers/__init__.py |  3 +--
 src/pyg2p/main/writers/netcdf.py   | 24 ++++++++++--------------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..130ef0b 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -65,12 +65,11 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
-            out_v[out_v == self.interpolator.mv_output] = np.nan
             out_values.append(out_v)
             time_values.append(timestep.end_step)
         # prepare values for netcdf writing
         time_values = np.array(time_values, dtype=np.int32)
-        out_values = np.array(out_values, dtype=np.float64)
+        out_values = np.ma.stack(out_values).astype(np.float64)
         out_filename = self._name_netcdf_file()
         var_args = dict(prefix=self.ctx.get('outMaps.namePrefix'),
                         unit=self.ctx.get('parameter.conversionUnit'),
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..2af5aa1 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -32,7 +32,7 @@ class NetCDFWriter(Writer):
         
         # add mask from clone map
         self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
@@ -145,10 +145,8 @@ class NetCDFWriter(Writer):
             values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
         values_nc.set_auto_maskandscale(True)         
         
-        # adjust missing values when scale_factor and offset are not 1.0 - 0.0 
-        mv_scaled = np.float64(missing_value_to_use) * np.float64(varargs.get('scale_factor', '1.0')) + np.float64(varargs.get('offset', '0.0'))
-        values = self._mask_values(values, mv_scaled)
-        values[np.isnan(values)] = mv_scaled
+        # masked cells are stored as missing value, whatever scale_factor and offset are
+        values = self._mask_values(values)
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
@@ -167,21 +165,19 @@ class NetCDFWriter(Writer):
         longitude[:] = self.lons[0,:]
         latitude[:] = self.lats[:,0]
 
-    def _mask_values(self, values, mv):
+    def _mask_values(self, values):
         # Extend the mask to match the shape of values
         if self._mask.shape != values.shape[1:]:
             raise ValueError("The shape of the mask does not match the shape of the values (excluding the first dimension).")
         
         extended_mask = np.broadcast_to(self._mask, values.shape)
-    
-        if isinstance(values, ma.core.MaskedArray):
-            masked = ma.masked_where((extended_mask | values.mask), values.data, copy=False)
-        else:
-            masked = ma.masked_where(extended_mask, values, copy=False)
-    
-        masked = ma.filled(masked, mv)
-        return masked
+        data = ma.getdata(values)
+        return ma.masked_where(extended_mask | ma.getmaskarray(values) | np.isnan(data), data, copy=False)
 
     def close(self):
+        if self.nf is None:
+            # nothing was written
+            return
         self.nf.close()
+        self.nf = None
         self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 695edc5ad6c591e0615aff2080152f3e70c5d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 30/68] fix: netCDF output in every documented integer format,
 64 bit and unsigned ones included

---
 src/pyg2p/main/writers/__init__.py |  2 +-
 src/pyg2p/main/writers/netcdf.py   | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 130ef0b..2eb3be7 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -82,7 +82,7 @@ class OutputWriter(Loggable):
                         value_format=self.ctx.get('outMaps.valueFormat'),
                         offset=self.ctx.get('outMaps.offset'),
                         scale_factor=self.ctx.get('outMaps.scaleFactor'))
-        self.writer.init_dataset(out_filename)
+        self.writer.init_dataset(out_filename, var_args['value_format'])
 
         self.writer.write(out_values, time_values, **var_args)
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 2af5aa1..28d4fd7 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -49,8 +49,10 @@ class NetCDFWriter(Writer):
             self.lats[self.lats == coordinates_mv] = np.nan
             self.lons[self.lons == coordinates_mv] = np.nan
 
-    def init_dataset(self, out_filename):
-        self.nf = Dataset(out_filename, 'w', format='NETCDF4_CLASSIC')
+    def init_dataset(self, out_filename, value_format=None):
+        # the classic model has no unsigned and 64 bit integers
+        file_format = 'NETCDF4' if value_format in ('i8', 'u1', 'u2', 'u4', 'u8') else 'NETCDF4_CLASSIC'
+        self.nf = Dataset(out_filename, 'w', format=file_format)
         self.filepath = out_filename
         time_created = time.ctime(time.time())
         self.nf.history = f'Created {time_created}'
@@ -143,10 +145,15 @@ class NetCDFWriter(Writer):
             values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
         if varargs.get('valid_max', None) is not None:            
             values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
-        values_nc.set_auto_maskandscale(True)         
-        
+        # values are packed here, netCDF4 would convert missing values of 64 bit integers to float
+        values_nc.set_auto_maskandscale(False)
+
         # masked cells are stored as missing value, whatever scale_factor and offset are
         values = self._mask_values(values)
+        values = (values - values_nc.add_offset) / values_nc.scale_factor
+        if values_nc.dtype.kind in 'iu':
+            values = np.around(values)
+        values = ma.filled(values.astype(values_nc.dtype), missing_value_to_use)
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
-- 
2.43.0


From 55c66f01586a154d6e258c750cb7fb501576a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 31/68] fix: valid range attributes have the type of packed
 values, or readers ignore them

---
 src/pyg2p/main/writers/netcdf.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 28d4fd7..d366e60 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -142,9 +142,9 @@ class NetCDFWriter(Writer):
         values_nc.scale_factor = np.float64(varargs.get('scale_factor', '1.0'))
         values_nc.add_offset = np.float64(varargs.get('offset', '0.0'))
         if varargs.get('valid_min', None) is not None:
-            values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
+            values_nc.valid_min = self._packed_limit(varargs['valid_min'], values_nc)
         if varargs.get('valid_max', None) is not None:            
-            values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
+            values_nc.valid_max = self._packed_limit(varargs['valid_max'], values_nc)
         # values are packed here, netCDF4 would convert missing values of 64 bit integers to float
         values_nc.set_auto_maskandscale(False)
 
@@ -172,6 +172,15 @@ class NetCDFWriter(Writer):
         longitude[:] = self.lons[0,:]
         latitude[:] = self.lats[:,0]
 
+    @staticmethod
+    def _packed_limit(limit, values_nc):
+        # same type of the packed values, or netCDF libraries ignore it
+        packed = (np.float64(limit) - values_nc.add_offset) / values_nc.scale_factor
+        if values_nc.dtype.kind in 'iu':
+            info = np.iinfo(values_nc.dtype)
+            packed = min(max(int(np.around(packed)), info.min), info.max)
+        return values_nc.dtype.type(packed)
+
     def _mask_values(self, values):
         # Extend the mask to match the shape of values
         if self._mask.shape != values.shape[1:]:
-- 
2.43.0


From 1fc99bacd775a53195d5355e7f73c0e4344a1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 32/68] fix: netCDF clone map whose missing value is NaN masks
 cells outside the area

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index d366e60..d5c6488 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -31,7 +31,7 @@ class NetCDFWriter(Writer):
             self.area = area.values
         
         # add mask from clone map
-        self.area = ma.masked_values(self.area, area.mv)
+        self.area = ma.masked_invalid(ma.masked_values(self.area, area.mv))
         self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
-- 
2.43.0


From 02e9c716a88364a55f59cd4fc29311043967e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 33/68] fix: API gives GRIB messages to its interpolator, so
 that tables of GRIB modes can be created

---
 src/pyg2p/main/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..2412d7b 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -290,6 +290,9 @@ class Pyg2pApi:
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
+        if self.context.is_with_grib_interpolation:
+            # GRIB messages needed to create intertables
+            self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
-- 
2.43.0


From 051dfa187bf2bc250247b89cfbe837fac64df0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 34/68] fix: first map number and extension step given on the
 command line override the JSON ones, also when they are 1

---
 src/pyg2p/main/context.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..f6d844b 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -39,6 +39,11 @@ class Context:
     def get(self, param, default=None):
         return self._vars.get(param, default)
 
+    @staticmethod
+    def _number(value, default=None):
+        # zero is a value like any other
+        return default if value is None or value == '' else int(value)
+
     def set_input_file_with_geopotential(self):
         self.input_file_with_geopotential = self.get('input.file')
 
@@ -273,12 +278,12 @@ class ExecutionContext(Context):
                             type=int, metavar='data_date')
 
         # output file naming (first extension number, extension number step, prefix
-        parser.add_argument('-f', '--fmap', help='First map number', type=int, default=1, metavar='fmap')
+        parser.add_argument('-f', '--fmap', help='First map number', type=int, metavar='fmap')
         # output file format
         parser.add_argument('-F', '--format', metavar='format',
                             default='notset', choices=['netcdf', 'pcraster', 'notset'],
                             help='Output format. Available options: netcdf,  pcraster. Default pcraster')
-        parser.add_argument('-x', '--ext', help='Extension number step', type=int, default=1, metavar='extension_step')
+        parser.add_argument('-x', '--ext', help='Extension number step', type=int, metavar='extension_step')
         parser.add_argument('-n', '--namePrefix', help='Prefix name for maps', metavar='outfiles_prefix')
         parser.add_argument('-O', '--offset', help='Map offset', metavar='offset')
         parser.add_argument('-S', '--scaleFactor', help='Map scale factor', metavar='scale_factor')
@@ -393,10 +398,10 @@ class ExecutionContext(Context):
             self._vars['outMaps.valueFormat'] = exec_conf['OutMaps'].get('@valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
+        if self._vars['outMaps.fmap'] is None:
+            self._vars['outMaps.fmap'] = self._number(exec_conf['OutMaps'].get('@fmap'), 1)
+        if self._vars['outMaps.ext'] is None:
+            self._vars['outMaps.ext'] = self._number(exec_conf['OutMaps'].get('@ext'), 1)
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
             self._vars['outMaps.format'] = exec_conf['OutMaps'].get('@format') or 'pcraster'
-- 
2.43.0


From 940d90f82f1b38f0c796007e41a08bb31effed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 35/68] fix: end step 0 and data time 0 select messages like
 any other value

---
 src/pyg2p/main/api.py        | 16 ++++++++--------
 src/pyg2p/main/context.py    | 18 +++++++++---------
 src/pyg2p/main/controller.py |  2 +-
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 2412d7b..af5967d 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -203,14 +203,14 @@ class ApiContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart'):
-            self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
-        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
-            self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
-        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime'):
-            self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
-        if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
-            self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
+        if self._vars['parameter.tstart'] is None:
+            self._vars['parameter.tstart'] = self._number(self.api_conf['Parameter'].get('tstart'))
+        if self._vars['parameter.tend'] is None:
+            self._vars['parameter.tend'] = self._number(self.api_conf['Parameter'].get('tend'))
+        if self._vars['parameter.dataTime'] is None:
+            self._vars['parameter.dataTime'] = self._number(self.api_conf['Parameter'].get('dataTime'))  # number
+        if self._vars['parameter.dataDate'] is None:
+            self._vars['parameter.dataDate'] = self._number(self.api_conf['Parameter'].get('dataDate'))  # date
 
         self._vars['parameter.level'] = self.api_conf['Parameter'].get('level')  # number
 
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index f6d844b..b2af3fe 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -130,7 +130,7 @@ class Context:
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
             # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
@@ -408,14 +408,14 @@ class ExecutionContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
-            self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
-            self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
-            self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
-        if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
-            self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
+        if self._vars['parameter.tstart'] is None:
+            self._vars['parameter.tstart'] = self._number(exec_conf['Parameter'].get('@tstart'))
+        if self._vars['parameter.tend'] is None:
+            self._vars['parameter.tend'] = self._number(exec_conf['Parameter'].get('@tend'))
+        if self._vars['parameter.dataTime'] is None:
+            self._vars['parameter.dataTime'] = self._number(exec_conf['Parameter'].get('@dataTime'))  # number
+        if self._vars['parameter.dataDate'] is None:
+            self._vars['parameter.dataDate'] = self._number(exec_conf['Parameter'].get('@dataDate'))  # date
 
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
 
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 555ac38..24a00de 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -43,7 +43,7 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or last_step
+        end_step = last_step if self.ctx.get('parameter.tend') is None else self.ctx.get('parameter.tend')
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From 57576c36ecb3033990f85d27fc363bfcb28480c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 36/68] fix: perturbationNumber of the JSON commands file is
 used

---
 src/pyg2p/main/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index b2af3fe..92db8a9 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -417,6 +417,9 @@ class ExecutionContext(Context):
         if self._vars['parameter.dataDate'] is None:
             self._vars['parameter.dataDate'] = self._number(exec_conf['Parameter'].get('@dataDate'))  # date
 
+        if self._vars['parameter.perturbationNumber'] is None:
+            self._vars['parameter.perturbationNumber'] = self._number(exec_conf['Parameter'].get('@perturbationNumber'))
+
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
 
         if exec_conf.get('Aggregation'):
-- 
2.43.0


From 03fecac004afab6f39c57a0f518e5f81b58e6c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 37/68] fix: level can be a number in the JSON commands file

---
 src/pyg2p/main/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92db8a9..ac31b6c 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -123,9 +123,9 @@ class Context:
 
             # check all numbers
 
-            if self._vars['parameter.level'] and not self._vars['parameter.level'].isdigit():
+            if self._vars['parameter.level'] not in (None, '') and not str(self._vars['parameter.level']).isdigit():
                 raise ApplicationException.get_exc(NOT_A_NUMBER, 'Parameter level')
-            self._vars['parameter.level'] = int(self._vars['parameter.level']) if self._vars.get('parameter.level') else None
+            self._vars['parameter.level'] = self._number(self._vars['parameter.level'])
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-- 
2.43.0


From bf7ca3466bb2e369964ebb94d3f1dce376c9c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 38/68] fix: a correction formula without gem or demMap is
 refused, not skipped

---
 src/pyg2p/main/context.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index ac31b6c..3e49c8c 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -355,12 +355,12 @@ class ExecutionContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if exec_conf['Parameter'].get('@correctionFormula') and exec_conf['Parameter'].get('@gem') and exec_conf[
-            'Parameter'].get('@demMap'):
+        if exec_conf['Parameter'].get('@correctionFormula'):
+            # gem and demMap are mandatory with it, see _check_exec_params
             self._vars['execution.doCorrection'] = True
             self._vars['correction.formula'] = exec_conf['Parameter']['@correctionFormula']
-            self._vars['correction.gemFormula'] = exec_conf['Parameter']['@gem']
-            self._vars['correction.demMap'] = exec_conf['Parameter']['@demMap']
+            self._vars['correction.gemFormula'] = exec_conf['Parameter'].get('@gem')
+            self._vars['correction.demMap'] = exec_conf['Parameter'].get('@demMap')
 
         self._vars['outMaps.clone'] = exec_conf['OutMaps']['@cloneMap']
         interpolation_conf = exec_conf['OutMaps']['Interpolation']
-- 
2.43.0


From 751bb4d1f99afa59eb61854906e0ce518fc26db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 39/68] fix: a missing -c option is an application error

---
 src/pyg2p/main/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 3e49c8c..3d6d43f 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -327,6 +327,8 @@ class ExecutionContext(Context):
         self._vars['execution.doCorrection'] = False
         self._vars['parameter.conversionId'] = None
 
+        if not self._input_args['commandsFile']:
+            raise ApplicationException.get_exc(0)
         if self._input_args['commandsFile'].startswith('./') or self._input_args['commandsFile'].startswith('../'):
             self._input_args['commandsFile'] = os.path.join(os.getcwd(), self._input_args['commandsFile'])
 
-- 
2.43.0


From 6b3669fb6fb1fb94eec407a945143b8e22715da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 40/68] fix: the API too refuses a correction formula without
 gem or demMap

---
 src/pyg2p/main/api.py     | 7 ++++---
 src/pyg2p/main/context.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index af5967d..40372b6 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -157,11 +157,12 @@ class ApiContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if self.api_conf['Parameter'].get('correctionFormula') and self.api_conf['Parameter'].get('gem') and self.api_conf['Parameter'].get('demMap'):
+        if self.api_conf['Parameter'].get('correctionFormula'):
+            # gem and demMap are mandatory with it, see _check_exec_params
             self._vars['execution.doCorrection'] = True
             self._vars['correction.formula'] = self.api_conf['Parameter']['correctionFormula']
-            self._vars['correction.gemFormula'] = self.api_conf['Parameter']['gem']
-            self._vars['correction.demMap'] = self.api_conf['Parameter']['demMap']
+            self._vars['correction.gemFormula'] = self.api_conf['Parameter'].get('gem')
+            self._vars['correction.demMap'] = self.api_conf['Parameter'].get('demMap') or ''
             if not self._vars['geopotential.dir'] and self.api_conf.get('geopotentialDir'):
                 self._vars['geopotential.dirs']['user'] = self.api_conf['geopotentialDir']
 
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 3d6d43f..0d7cbe7 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -362,7 +362,7 @@ class ExecutionContext(Context):
             self._vars['execution.doCorrection'] = True
             self._vars['correction.formula'] = exec_conf['Parameter']['@correctionFormula']
             self._vars['correction.gemFormula'] = exec_conf['Parameter'].get('@gem')
-            self._vars['correction.demMap'] = exec_conf['Parameter'].get('@demMap')
+            self._vars['correction.demMap'] = exec_conf['Parameter'].get('@demMap') or ''
 
         self._vars['outMaps.clone'] = exec_conf['OutMaps']['@cloneMap']
         interpolation_conf = exec_conf['OutMaps']['Interpolation']
-- 
2.43.0


From 9079541dc77a232d4326042bc56134572b7c7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 41/68] fix: variables of user .conf files can contain =

---
 src/pyg2p/main/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..bcc11d1 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -57,9 +57,10 @@ class UserConfiguration(pyg2p.Loggable):
         with open(filepath, "rt") as f:
             for line in f:
                 line = line.strip()
-                if line and not line.startswith(self.comment_char):
-                    key_value = line.split(self.sep)
-                    props[key_value[0].strip()] = key_value[1].strip('" \t')
+                if line and self.sep in line and not line.startswith(self.comment_char):
+                    # the value can contain the separator
+                    key, value = line.split(self.sep, 1)
+                    props[key.strip()] = value.strip('" \t')
         return props
 
     def interpolate_strings(self, ctx):
-- 
2.43.0


From 553f33ce01c3577df89375ee736e5ad270561c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 42/68] fix: an undefined variable in a map path is an
 application error naming it

---
 src/pyg2p/main/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index bcc11d1..ac3f8c2 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -75,11 +75,10 @@ class UserConfiguration(pyg2p.Loggable):
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
             # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = ctx[var].format(**self.vars)
-            if self.re_var.search(ctx[var]):
-                # some variables where not string-interpolated so they are missing in user configuration
-                vars_not_defined = self.re_var.findall(ctx[var])
+            vars_not_defined = [v for v in self.re_var.findall(ctx[var]) if v not in self.vars]
+            if vars_not_defined:
                 raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+            ctx[var] = self.re_var.sub(lambda m: self.vars[m.group('var')], ctx[var])
 
 
 class BaseConfiguration(pyg2p.Loggable):
-- 
2.43.0


From 4813db585382e94fd815637dc3d69bb18bbea8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 43/68] fix: an empty user configuration is dumped as an
 object, not as a string

---
 src/pyg2p/main/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index ac3f8c2..4437e57 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -141,8 +141,7 @@ class BaseConfiguration(pyg2p.Loggable):
 
     def dump(self):
         with open(self.config_file, 'w') as f:
-            user_vars = self.user_vars or '{}'
-            f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+            f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
 
     def check_write(self):
         if not self.data_path:
-- 
2.43.0


From 7a864b122a36fc4dbf1fee5af64a4cf7ae161b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 44/68] fix: a geopotential is registered once and does not
 replace the file of another grid

---
 src/pyg2p/main/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 4437e57..6a236db 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -236,10 +236,14 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                        f'File was not added: {filepath}')
 
         name = file_util.filename(filepath)
+        if name in self.vars.values():
+            # it would replace, or hide, the file of another grid
+            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                               details=f'{name} is the file of another grid. File was not added: {filepath}')
         self.check_write()
 
         file_util.copy(filepath, self.data_path)
-        self.user_vars[id_] = name
+        self.user_vars[id_] = self.vars[id_] = name
         self.dump()
 
     def remove(self, filename):
-- 
2.43.0


From 6b81054b9a7190a1b19e88c52dd8dbbf5511a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 45/68] fix: a removed geopotential is no longer found

---
 src/pyg2p/main/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 6a236db..088843b 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -251,6 +251,8 @@ class GeopotentialsConfiguration(BaseConfiguration):
             if self.user_vars[g] == filename:
                 del self.user_vars[g]
                 self.dump()
+                self.vars = self.load_global()
+                self.vars.update(self.user_vars)
                 break
 
     def get_filepath(self, grid_id, additional=None):
-- 
2.43.0


From 95fd104bc940d82d7cb2a59f1843845d3d4c3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 46/68] fix: -g adds a geopotential

---
 src/pyg2p/main/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 0d7cbe7..9dc08cd 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -245,7 +245,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From 412ec74c0111b4c2bcd58d46d01d7d90e63ca5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 47/68] fix: configuration commands -W and -K do not ask for an
 input file and run

---
 src/pyg2p/main/__init__.py | 4 ++--
 src/pyg2p/main/config.py   | 5 ++++-
 src/pyg2p/main/context.py  | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..02e6325 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -61,7 +61,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -72,4 +72,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 088843b..33a48ef 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -339,7 +339,7 @@ class Configuration(pyg2p.Loggable):
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
 
-        used_intertables = [i['filename'] for i in self.intertables.vars.values()]
+        used_intertables = [i['filename'] for i in self.intertables.vars.values() if isinstance(i, dict)]
         used_geopotentials = self.geopotentials.vars.values()
 
         intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy')
@@ -356,6 +356,9 @@ class Configuration(pyg2p.Loggable):
 
         user_intertables = deepcopy(self.intertables.user_vars)
         for k, i in user_intertables.items():
+            if not isinstance(i, dict):
+                # description
+                continue
             fullpath = os.path.join(self.intertables.data_path, i['filename'])
             if not file_util.exists(fullpath):
                 self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 9dc08cd..2e41918 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -195,7 +195,8 @@ class ExecutionContext(Context):
             self._define_exec_params()
 
         # check numbers, existing dirs and files, supported options, semantics etc.
-        self._check_exec_params()
+        if not self.is_config_command or self.to_add_geopotential:
+            self._check_exec_params()
 
     def _define_input_args(self, argv):
 
-- 
2.43.0


From 202d3208a0c4d750892e0600da3eb385ddae535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 48/68] fix: a failing set-up of the controller is reported

---
 src/pyg2p/main/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 02e6325..df64b4e 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -51,7 +51,8 @@ def execute(exc_ctx):
         if not err.code == NO_MESSAGES:
             ret_value = 1
     finally:
-        ctrl.close()
+        if ctrl:
+            ctrl.close()
     return ret_value
 
 
-- 
2.43.0


From 13c570a9e23361400653dc723cf2d6834cf70f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:41 +0000
Subject: [PATCH 49/68] fix: the API closes the GRIB files it opens

---
 src/pyg2p/main/api.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 40372b6..bb15d9d 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -284,9 +284,19 @@ class Pyg2pApi:
         Main method
         :return: dict of numpy values, keys are instances of  pyg2p.Step
         """
-        grib_reader = GRIBReader(self.context.get('input.file'), w_perturb=self.context.has_perturbation_number)
-        grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
         ctrl = Controller(self.context)
+        try:
+            return self._execute(ctrl)
+        finally:
+            # close GRIB files and release messages
+            ctrl.close()
+
+    def _execute(self, ctrl):
+        grib_reader = GRIBReader(self.context.get('input.file'), w_perturb=self.context.has_perturbation_number)
+        try:
+            grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+        finally:
+            grib_reader.close()
         ctrl.log_execution_context()
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
-- 
2.43.0


From 449afd01b6993e19f916c9e160d48bd8b580d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 50/68] fix: cells without value, elevation or geopotential are
 missing after correction

---
 src/pyg2p/main/manipulation/correction.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..0af2510 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -10,7 +10,6 @@ from pyg2p.main.interpolation.latlong import Dem
 from pyg2p.main.readers.grib import GRIBReader
 
 from pyg2p.main.config import GeopotentialsConfiguration
-import pyg2p.util.numeric
 from netCDF4 import default_fillvals
 
 from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION, \
@@ -78,7 +77,8 @@ class Corrector(Loggable):
             mv = default_fillvals[values.dtype.str[1:]] # take missing values from the default netCDF fillvals values
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
-            values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            # the missing value to write depends on the output, not only on the type of values
+            values = ma.masked_where(ma.getmaskarray(p) | ma.getmaskarray(gem) | (values == mv) | np.isnan(values), values)
         return values
 
     def _read_geo(self, grib_file, ctx):
@@ -98,14 +98,12 @@ class Corrector(Loggable):
         z = values
         ne.evaluate(self._numexpr_eval_gem, out=values)
 
-        if is_grib_interpolation:
-            values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
-        else:
-            # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
-            lats, lons = geopotential_gribs.latlons
-            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
+        # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
+        lats, lons = (None, None) if is_grib_interpolation else geopotential_gribs.latlons
+        # target cells without geopotential are masked
+        values_resampled = interpolator.interpolate(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
         reader.close()
-        return missing, values_resampled
+        return interpolator.mv_output, values_resampled
 
     @staticmethod
     def _read_dem(dem_map):
-- 
2.43.0


From a0b4640d30c924cfff9bbf34674341c9c51cf4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 51/68] fix: a corrector is reused only with the same formulas,
 geopotential, target maps and interpolation

---
 src/pyg2p/main/manipulation/correction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 0af2510..6a73843 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -18,6 +18,10 @@ from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION
 class Corrector(Loggable):
 
     instances = {}
+    key_params = ('correction.demMap', 'correction.formula', 'correction.gemFormula',
+                  'interpolation.latMap', 'interpolation.lonMap', 'interpolation.mode', 'interpolation.dirs',
+                  'interpolation.cdd_map', 'interpolation.cdd_mode', 'interpolation.cdd_options',
+                  'interpolation.rotated_target')
 
     def __repr__(self):
         return f'Corrector<{self.grid_id} {self.geo_file}>'
@@ -25,8 +29,8 @@ class Corrector(Loggable):
     @classmethod
     def get_instance(cls, ctx, grid_id):
         geo_file_ = ctx.geo_file(grid_id)
-        dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
+        # everything the correction depends on
+        key = (grid_id, geo_file_) + tuple(str(ctx.get(param)) for param in cls.key_params)
         if key in cls.instances:
             return cls.instances[key]
         else:
-- 
2.43.0


From 92e66ad7eb01a12fe35340126e7eb1aff06c1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 52/68] fix: the geopotential file is closed when it cannot be
 used

---
 src/pyg2p/main/manipulation/correction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 6a73843..7355d37 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -86,8 +86,14 @@ class Corrector(Loggable):
         return values
 
     def _read_geo(self, grib_file, ctx):
-        is_grib_interpolation = ctx.is_with_grib_interpolation
         reader = GRIBReader(grib_file)
+        try:
+            return self._resample_geo(reader, ctx)
+        finally:
+            reader.close()
+
+    def _resample_geo(self, reader, ctx):
+        is_grib_interpolation = ctx.is_with_grib_interpolation
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
         geopotential_gribs = reader.select_messages(**kwargs)
         missing = geopotential_gribs.missing_value
@@ -106,7 +112,6 @@ class Corrector(Loggable):
         lats, lons = (None, None) if is_grib_interpolation else geopotential_gribs.latlons
         # target cells without geopotential are masked
         values_resampled = interpolator.interpolate(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
-        reader.close()
         return interpolator.mv_output, values_resampled
 
     @staticmethod
-- 
2.43.0


From 68d46d7664370243068274cafadeb39781fa45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 53/68] fix: fields of the second resolution are corrected with
 the geopotential of their own grid

---
 src/pyg2p/main/manipulation/correction.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 7355d37..eb65a6a 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -97,7 +97,14 @@ class Corrector(Loggable):
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
         geopotential_gribs = reader.select_messages(**kwargs)
         missing = geopotential_gribs.missing_value
+        grid_details = geopotential_gribs.grid_details
         values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
+        grid_2nd = grid_details.get_2nd_resolution()
+        is_second_res = grid_2nd is not None and grid_2nd.grid_id == self.grid_id
+        if is_second_res:
+            # geopotentials of both resolutions in the same file
+            grid_details = grid_2nd
+            values = next(iter(geopotential_gribs.second_resolution_values().values()))
         aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
         interpolator = Interpolator(ctx, missing)
         interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
@@ -109,9 +116,9 @@ class Corrector(Loggable):
         ne.evaluate(self._numexpr_eval_gem, out=values)
 
         # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
-        lats, lons = (None, None) if is_grib_interpolation else geopotential_gribs.latlons
+        lats, lons = (None, None) if is_grib_interpolation else grid_details.latlons
         # target cells without geopotential are masked
-        values_resampled = interpolator.interpolate(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
+        values_resampled = interpolator.interpolate(lats, lons, values, self.grid_id, grid_details, is_second_res=is_second_res)
         return interpolator.mv_output, values_resampled
 
     @staticmethod
-- 
2.43.0


From 80c19408817720b8a85628e80ab05bd8f9c370a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 54/68] fix: empty FTP settings of the user file do not hide
 the global ones

---
 src/pyg2p/main/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 33a48ef..edd1507 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -180,6 +180,12 @@ class FtpConfig(BaseConfiguration):
     description = 'Put here your FTP host, user credentials and remote folder'
     init_dict = {'host': '', 'folder': '', 'user': '', 'pwd': ''}
 
+    def merge_with_user_conf(self):
+        global_vars = dict(self.vars)
+        super().merge_with_user_conf()
+        # fields left empty, as in the file created by default, do not hide global ones
+        self.vars.update({k: v for k, v in global_vars.items() if not self.vars.get(k)})
+
     @property
     def access(self):
         return self.vars.get('host'), self.vars.get('user'), self.vars.get('pwd')
-- 
2.43.0


From e055b8d4615dd6a681ef96535adbeed29a80002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 55/68] fix: commands built through the API keep flags, values
 with blanks or = and start empty

---
 src/pyg2p/main/api.py     |  8 +++++---
 src/pyg2p/util/strings.py | 37 ++++++++++++++++++++++++++++++-------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index bb15d9d..5171d83 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -1,4 +1,5 @@
 import collections
+import re
 from functools import partial
 from pathlib import Path
 from types import MethodType
@@ -13,7 +14,7 @@ from .manipulation.correction import Corrector
 from .readers import GRIBReader, PCRasterReader
 from ..main import pyg2p_exe
 from ..util import strings
-from ..util.strings import to_argv, to_argdict
+from ..util.strings import quoted, to_argv, to_argdict
 
 
 def command(*args, **kwargs):
@@ -52,7 +53,8 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = cmd_string.lstrip('pyg2p').strip()
+        # a command can start with the name of the program
+        cmd_string = re.sub(r'^pyg2p(\.py)?(\s+|$)', '', (cmd_string or '').strip())
         if params:
             opts = params.copy()
             # string interpolation
@@ -71,7 +73,7 @@ class Command:
     def __str__(self):
         cmd = 'pyg2p '
         self._d = collections.OrderedDict(sorted(self._d.items(), key=lambda k: k[0]))
-        args = ''.join(['%s %s ' % (key, value) for (key, value) in self._d.items()]).strip()
+        args = ''.join(['%s %s ' % (key, quoted(value)) for (key, value) in self._d.items()]).strip()
         return cmd + args
 
     def run(self):
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 0c2231e..75c2e10 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -19,18 +19,41 @@ def to_boolean(bool_):
         return bool_[0].upper() == 'T' or bool_[0].upper() == 'Y'
 
 
-def _is_empty_string(string_):
-    return string_ is not ''
-
-
 def to_argv(string_):
     c = csv.reader(csv.StringIO(string_), delimiter=" ")
-    return list(filter(_is_empty_string, list(c)[0]))
+    return [arg for row in c for arg in row if arg != '']
+
+
+def quoted(value):
+    """
+    Text of an argument as to_argv reads it
+    """
+    value = str(value)
+    if any(c in value for c in ' "\r\n'):
+        value = value.replace('"', '""')
+        return f'"{value}"'
+    return value
+
+
+def _is_option(arg):
+    return len(arg) > 1 and arg.startswith('-') and not re.match(r'-\.?\d', arg)
 
 
 def to_argdict(string_):
-    c = re.split(' |=', string_.strip(), maxsplit=0)
-    return dict(zip(c[0::2], c[1::2]))
+    """
+    Options of a command line and their values. Flags have an empty value.
+    """
+    args = []
+    for arg in to_argv(string_):
+        args += arg.split('=', 1) if _is_option(arg) else [arg]
+    res = {}
+    while args:
+        key = args.pop(0)
+        if args and not (_is_option(key) and _is_option(args[0])):
+            res[key] = args.pop(0)
+        elif _is_option(key):
+            res[key] = ''
+    return res
 
 
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
-- 
2.43.0


From 9328ae99cfa96857acf35a667128180890fa0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 56/68] fix: release GRIB messages when reading them fails

---
 src/pyg2p/main/readers/grib.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 02a6338..f28b556 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -39,6 +39,7 @@ class GRIBReader(Loggable):
             self._log(f"Can't use index on {self._grib_file}", 'WARN')
             self._file_handler = open(self._grib_file, 'rb')
         self._selected_grbs = []
+        self._open_grbs = set()  # messages to release
         self._mv = -1
         self._step_grib = -1
         self._step_grib2 = -1
@@ -76,8 +77,8 @@ class GRIBReader(Loggable):
 
     def close(self):
         self._log(f'Closing gribs messages from {self._grib_file}')
-        for g in self._selected_grbs:
-            codes_release(g)
+        for g in sorted(self._open_grbs):
+            self._release(g)
         self._selected_grbs = None
         if self._grbindx:
             codes_index_release(self._grbindx)
@@ -86,6 +87,16 @@ class GRIBReader(Loggable):
             self._file_handler.close()
             self._file_handler = None
 
+    def _hold(self, gid):
+        # messages are released by close() also when reading them fails
+        if gid is not None:
+            self._open_grbs.add(gid)
+        return gid
+
+    def _release(self, gid):
+        self._open_grbs.discard(gid)
+        codes_release(gid)
+
     def has_geopotential(self):
         has_geo = False
         from pyg2p.main.config import GeopotentialsConfiguration
@@ -94,20 +105,20 @@ class GRIBReader(Loggable):
             for v in v_selected:
                 codes_index_select(self._grbindx, 'shortName', str(v))
                 while 1:
-                    gid = codes_new_from_index(self._grbindx)
+                    gid = self._hold(codes_new_from_index(self._grbindx))
                     if gid is None:
                         break
                     has_geo = True
-                    codes_release(gid)
+                    self._release(gid)
 
         elif self._file_handler:
             self._file_handler.seek(0)
             while 1:
-                gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
+                gid = self._hold(codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB))
                 if gid is None:
                     break
                 has_geo = has_geo or GRIBReader._find(gid, shortName=v_selected)
-                codes_release(gid)
+                self._release(gid)
         return has_geo
 
     def scan_grib(self, **kwargs):
@@ -122,26 +133,26 @@ class GRIBReader(Loggable):
                 if v_pert != -1:
                     codes_index_select(self._grbindx, 'perturbationNumber', int(v_pert))
                 while 1:
-                    gid = codes_new_from_index(self._grbindx)
+                    gid = self._hold(codes_new_from_index(self._grbindx))
                     if gid is None:
                         break
                     if GRIBReader._find(gid, **kwargs):
                         gribs.append(gid)
                     else:
                         # release unused grib
-                        codes_release(gid)
+                        self._release(gid)
         elif self._file_handler:
             # every scan reads the whole file
             self._file_handler.seek(0)
             while 1:
-                gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
+                gid = self._hold(codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB))
                 if gid is None:
                     break
                 if GRIBReader._find(gid, **kwargs):
                     gribs.append(gid)
                 else:
                     # release unused grib
-                    codes_release(gid)
+                    self._release(gid)
         return gribs
 
     def _get_gids(self, **kwargs):
@@ -260,7 +271,7 @@ class GRIBReader(Loggable):
             self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
             self._log('Gribs from %d to %d' % (start_grib, end_grib))
             for g in _gribs_for_utils:
-                codes_release(g)
+                self._release(g)
             _gribs_for_utils = None
             del _gribs_for_utils
             info = GRIBInfo(input_step=self._step_grib, input_step2=self._step_grib2,
-- 
2.43.0


From 36050d1247483a526b7194cc62fb93e882b771e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 57/68] fix: report PCRaster maps that cannot be written

---
 src/pyg2p/main/writers/pcr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/writers/pcr.py b/src/pyg2p/main/writers/pcr.py
index ea55173..b8a3923 100644
--- a/src/pyg2p/main/writers/pcr.py
+++ b/src/pyg2p/main/writers/pcr.py
@@ -2,6 +2,7 @@ from osgeo import gdal
 import numpy.ma as ma
 import numpy as np
 
+from pyg2p.exceptions import ApplicationException, NO_WRITE_PERMISSIONS
 from pyg2p.main.writers import Writer
 
 
@@ -37,6 +38,9 @@ class PCRasterWriter(Writer):
         self._mem_ds.GetRasterBand(1).SetNoDataValue(self.mv)
         self._mem_ds.GetRasterBand(1).WriteArray(masked_values)
         out_ds = drv.CreateCopy(output_map_name.encode('utf-8'), self._mem_ds)
+        if out_ds is None:
+            # gdal gives no dataset if the map cannot be created
+            raise ApplicationException.get_exc(NO_WRITE_PERMISSIONS, f'{output_map_name} not written')
         self._log(f'{output_map_name} written!', 'INFO')
         out_ds = None
         del out_ds
-- 
2.43.0


From 162a743cb8d1171165a4723c3c1576d19f6939e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:47 +0000
Subject: [PATCH 58/68] fix: a geopotential file without geopotential is an
 error, not an empty run

---
 src/pyg2p/main/manipulation/correction.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index eb65a6a..aaf8649 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -4,6 +4,7 @@ import numexpr as ne
 import numpy as np
 from numpy import ma
 from pyg2p import Loggable
+from pyg2p.exceptions import ApplicationException, NO_GEOPOTENTIAL, NO_MESSAGES
 
 from pyg2p.main.interpolation import Interpolator
 from pyg2p.main.interpolation.latlong import Dem
@@ -95,7 +96,13 @@ class Corrector(Loggable):
     def _resample_geo(self, reader, ctx):
         is_grib_interpolation = ctx.is_with_grib_interpolation
         kwargs = {'shortName': GeopotentialsConfiguration.short_names}
-        geopotential_gribs = reader.select_messages(**kwargs)
+        try:
+            geopotential_gribs = reader.select_messages(**kwargs)
+        except ApplicationException as err:
+            if err.code == NO_MESSAGES:
+                # not the same as no messages to process
+                raise ApplicationException.get_exc(NO_GEOPOTENTIAL, f'{self.geo_file} has no geopotential')
+            raise
         missing = geopotential_gribs.missing_value
         grid_details = geopotential_gribs.grid_details
         values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
-- 
2.43.0


From 0a25f1651218ab586ffae12b75e4c690130c34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 59/68] fix: an interrupted run does not leave truncated
 configuration files

---
 src/pyg2p/main/config.py |  2 +-
 src/pyg2p/util/files.py  | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index edd1507..4e34caa 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -140,7 +140,7 @@ class BaseConfiguration(pyg2p.Loggable):
             f.close()
 
     def dump(self):
-        with open(self.config_file, 'w') as f:
+        with file_util.replacing(self.config_file) as f:
             f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
 
     def check_write(self):
diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 492f73a..4d94bbb 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -1,6 +1,7 @@
 import re
 import shutil as sh
 import os
+from contextlib import contextmanager
 from functools import partial
 
 
@@ -70,6 +71,25 @@ def filename(pathname):
     return os.path.basename(pathname)
 
 
+@contextmanager
+def replacing(pathname, mode='w'):
+    """
+    Open a temporary file that takes the place of pathname only once it is completely written:
+    whenever the program stops, pathname has its previous content or the new one.
+    """
+    pathname = os.path.realpath(pathname)
+    tmp = f'{pathname}.{os.getpid()}.tmp'
+    try:
+        with open(tmp, mode) as f:
+            yield f
+        if exists(pathname):
+            sh.copymode(pathname, tmp)
+        os.replace(tmp, pathname)
+    except BaseException:
+        delete_file(tmp)
+        raise
+
+
 def dir_filename(pathname):
     return os.path.dirname(pathname), os.path.basename(pathname)
 
-- 
2.43.0


From a7e2ab7ea17c0c5debf8b4030903e6e757e7108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 60/68] fix: an interrupted run does not leave partial
 interpolation tables

---
 src/pyg2p/main/interpolation/__init__.py | 31 ++++++++++--------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 91bfab4..9aeffde 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -260,12 +260,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
@@ -305,12 +300,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -360,12 +350,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
+            self._save_intertable(intertable, intertable_name)
             self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
 
         else:
@@ -381,6 +366,16 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    @staticmethod
+    def _save_intertable(intertable, intertable_name):
+        # a table with its final name is complete: it will be used by all next runs
+        with pyg2p.util.files.replacing(intertable_name, 'wb') as f:
+            if intertable_name.endswith('.gz'):
+                with gzip.GzipFile(fileobj=f, mode='wb') as gz:
+                    np.save(gz, intertable)
+            else:
+                np.save(f, intertable)
+
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
-- 
2.43.0


From d3e0ab4c1e74a9096dfe2fc4ee2f81bef2239d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 61/68] fix: an interrupted download does not leave partial
 files that are never downloaded again

---
 src/pyg2p/main/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 4e34caa..d3607ab 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -337,7 +337,7 @@ class Configuration(pyg2p.Loggable):
                 self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
                 continue
             self._log(f'[{i}/{numfiles}] Downloading {f}')
-            with open(local_filename, 'wb') as local_file:
+            with file_util.replacing(local_filename, 'wb') as local_file:
                 client.retrbinary(f'RETR {f}', local_file.write)
         self._log(f'=== Download finished: {remote_path}')
         client.quit()  # close FTP connection
-- 
2.43.0


From a6329e96966aa552dcdbf172e1b05c693212679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 62/68] fix: target grids with the same extents and another
 resolution do not share an interpolation table

---
 src/pyg2p/main/interpolation/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 9aeffde..48e42ff 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -68,6 +68,11 @@ class Interpolator(Loggable):
 
     def _intertable_filename(self, grid_id):
         intertable_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
+        base_id, i = intertable_id, 1
+        while not self._is_for_this_target(self.intertables_config.vars.get(intertable_id) or {}):
+            # registered for target maps with the same extents and another resolution
+            intertable_id = '{}_{}'.format(base_id, i)
+            i += 1
         if intertable_id not in self.intertables_config.vars:
             # return a new intertable filename to create
             if not self.create_if_missing:
@@ -101,6 +106,10 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    def _is_for_this_target(self, registered):
+        shape = self._target_coords.lons.shape
+        return tuple(registered.get('target_shape', shape)) == tuple(shape)
+
     def _is_used(self, filename):
         # a table with this name exists or is registered for another grid: a new one would be read in its place
         registered = [i['filename'] for i in self.intertables_config.vars.values() if isinstance(i, dict) and 'filename' in i]
-- 
2.43.0


From 91730c3f8cfbc092257f1aa675f1ddb57db23b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 63/68] fix: tables of cdd interpolation are not used with
 other cdd maps, modes or options

---
 src/pyg2p/main/interpolation/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 48e42ff..496e479 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -69,8 +69,8 @@ class Interpolator(Loggable):
     def _intertable_filename(self, grid_id):
         intertable_id = '{}{}_{}{}'.format(self._prefix, grid_id.replace('$', '_'), self._target_coords.identifier, self._suffix)
         base_id, i = intertable_id, 1
-        while not self._is_for_this_target(self.intertables_config.vars.get(intertable_id) or {}):
-            # registered for target maps with the same extents and another resolution
+        while not self._is_for_this_run(self.intertables_config.vars.get(intertable_id) or {}):
+            # registered for target maps with the same extents and another resolution, or for other CDD settings
             intertable_id = '{}_{}'.format(base_id, i)
             i += 1
         if intertable_id not in self.intertables_config.vars:
@@ -106,9 +106,16 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
-    def _is_for_this_target(self, registered):
+    def _cdd_settings(self):
+        # what, in addition to the grids, the table of cdd depends on
+        if self._mode != 'cdd':
+            return {}
+        return {'cdd_map': self._cdd_map, 'cdd_mode': self._cdd_mode, 'cdd_options': self._cdd_options}
+
+    def _is_for_this_run(self, registered):
         shape = self._target_coords.lons.shape
-        return tuple(registered.get('target_shape', shape)) == tuple(shape)
+        return tuple(registered.get('target_shape', shape)) == tuple(shape) and \
+            all(registered.get(k, v) == v for k, v in self._cdd_settings().items())
 
     def _is_used(self, filename):
         # a table with this name exists or is registered for another grid: a new one would be read in its place
@@ -391,6 +398,7 @@ class Interpolator(Loggable):
                                     'method': self._mode,
                                     'source_shape': source_shape,
                                     'target_shape': self._target_coords.lons.shape}
+        new_intertable_conf_item.update(self._cdd_settings())
         # update global configuration
         self.intertables_config.vars[intertable_id] = new_intertable_conf_item
 
-- 
2.43.0


From fb96dfa1e4fc08fede2a77a316751dd9fcf84bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 64/68] fix: CDD maps of another resolution than the target
 maps, and unknown CDD modes, are refused

---
 .../interpolation/scipy_interpolation_lib.py    | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 8c33ce3..dd468f0 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -553,7 +553,7 @@ class ScipyInterpolation(object):
         try:
             assert len(source_locations) == len(source_values), "len(coordinates) {} != len(values) {}".format(len(source_locations), len(source_values))
         except AssertionError as e:
-            ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
+            raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
 
         stdout.write('Building KDTree...\n')
         self.tree = KDTree(source_locations, leafsize=30)  # build the tree
@@ -868,6 +868,9 @@ class ScipyInterpolation(object):
                         CDD_map=CDD_map[round((72.24166666666667-DEBUG_MAX_LAT)/0.01666666666667993):round((72.24166666666667-DEBUG_MIN_LAT)/0.01666666666667993), \
                             round((-25.241666666666667-DEBUG_MIN_LON)/-0.01666666666667993):round((-25.241666666666667-DEBUG_MAX_LON)/-0.01666666666667993)]
 
+                if CDD_map.shape != self.all_target_lats.shape:
+                    raise ApplicationException.get_exc(WEIRD_STUFF, details="CDD map should have the same resolution of target map. CDD map shape={}, target map shape={}".format(CDD_map.shape, self.all_target_lats.shape))
+
                 #CDDmode = 'NewEtAl'
                 #CDDmode = 'Hofstra'
                 #CDDmode = 'MixHofstraShepard'       #uses Shepard approach to smooth borders
@@ -877,22 +880,12 @@ class ScipyInterpolation(object):
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
                     CDD_map = CDD_map[self.target_rows].ravel()
-                    try:
-                        assert(len(CDD_map)==len(self.lat_inALL)) 
-                    except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
-
                     stdout.write('\nEvaluating cutoffs...')
                     
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
                     CDD_map = CDD_map[self.target_rows].ravel()
-                    try:
-                        assert(len(CDD_map)==len(self.lat_inALL)) 
-                    except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
-
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
                     
@@ -919,7 +912,7 @@ class ScipyInterpolation(object):
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-                    ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
+                    raise ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
 
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
-- 
2.43.0


From 0085c168ca04a7bcbd2a8d593ebc35589a9cee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 65/68] fix: interpolation methods take source and target
 longitudes in different ranges (-180,180 and 0,360)

---
 .../main/interpolation/scipy_interpolation_lib.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index dd468f0..84ca31a 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -464,8 +464,12 @@ def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexe
         
     #   [e^(−x/CDD)]^m       when 0  < d <= CDD
 
+    # longitudes of stations within 180 degrees from the centre of the map
+    LonCentre = LonOrigin - TargetLonRes*(CDD_map.shape[1]-1)/2
+    LonStations = longrib[indexes]
+    LonStations = LonStations - 360 * np.floor((LonStations - LonCentre + 180) / 360)
     CDD_values = CDD_map[np.clip(((LatOrigin-latgrib[indexes])/TargetLatRes).astype(int),0,CDD_map.shape[0]-1), \
-                                        np.clip(((LonOrigin-longrib[indexes])/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
+                                        np.clip(((LonOrigin-LonStations)/TargetLonRes).astype(int),0,CDD_map.shape[1]-1)]
     dist_leq_CDD = distances <= CDD_values
     s.ravel()[dist_leq_CDD.ravel()] = np.exp(-distances*m_const/CDD_values).ravel()[dist_leq_CDD.ravel()]
         
@@ -485,6 +489,7 @@ def adw_and_cdd_compute_weights_directional_in_broadcasting(
     # Compute xi_diff and yi_diff for all elements
     xi_diff = lat_inALL.reshape(-1,1) - xi.reshape(-1,k)
     yi_diff = lon_inALL.reshape(-1,1) - yi.reshape(-1,k)
+    yi_diff = yi_diff - 360 * np.floor((yi_diff + 180) / 360)
     # Compute Di for all elements
     Di = np.sqrt(xi_diff**2 + yi_diff**2)
     # Compute cos_theta for all elements
@@ -623,7 +628,8 @@ class ScipyInterpolation(object):
         # Target coordinates  HAVE to be rotated coords in case GRIB grid is rotated
         # Example of target rotated coords are COSMO lat/lon/dem PCRASTER maps
         self.target_latsOR=target_lats
-        self.target_lonsOR=target_lons
+        # longitudes in the range -180,180: those of the source have the same range when they are compared with them
+        self.target_lonsOR=np.where(target_lons > 180, target_lons - 360, np.where(target_lons < -180, target_lons + 360, target_lons))
 
         start = time.time()
         if self.mode != 'triangulation' and self.mode != 'bilinear_delaunay':
@@ -948,6 +954,7 @@ class ScipyInterpolation(object):
                 for i in range(nnear):
                     xj_diff = self.lat_inALL[:, np.newaxis] - self.latgrib[indexes]
                     yj_diff = self.lon_inALL[:, np.newaxis] - self.longrib[indexes]
+                    yj_diff = yj_diff - 360 * np.floor((yj_diff + 180) / 360)
                     
                     Dj = np.sqrt(xj_diff**2 + yj_diff**2)
                     # we could use "distances", but we are actually evaluating the cos funcion on lat and lon values, that 
@@ -1228,7 +1235,9 @@ class ScipyInterpolation(object):
 
                     # in non-global maps, skip all points falling outside the grib min and max values
                     if is_global_map==False and \
-                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or self.lon_in>longrib_max or self.lon_in<longrib_min):
+                        (self.lat_in>latgrib_max or self.lat_in<latgrib_min or
+                         ((self.lon_in>longrib_max or self.lon_in<longrib_min) and
+                          (self.lon_in+360>longrib_max or self.lon_in+360<longrib_min))):
                             quadrilateral_is_ok = True
                             outs += 1
                             weights[nn] = np.array([np.nan, 0., 0., 0.])
-- 
2.43.0


From ddb798bec6896a6042d49df329c9d8f82f50afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 66/68] fix: bilinear_delaunay interpolation fails when no
 target cell is near the triangles with the highest indexes

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 84ca31a..3f64bc3 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1456,7 +1456,7 @@ class ScipyInterpolation(object):
             # add the fourth point to each idxs[nn] from the near triangle on the longest side
             idxs = np.column_stack((idxs,empty(idxs.shape[0],-1,dtype=idxs.dtype)))
             idxs_tri_neighbors = tri.neighbors[idxs_tri]
-            idxs_tri_neighbors_to_use = empty(idxs_tri_neighbors.max()+1,-1,dtype=idxs_tri.dtype)
+            idxs_tri_neighbors_to_use = empty(len(tri.simplices),-1,dtype=idxs_tri.dtype)
 
         for nn in range(len(idxs_tri)):
             if nn % progress_step == 0:
-- 
2.43.0


From a0640a520f4d633ed37cfd9ff4be09329b0cfe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:50 +0000
Subject: [PATCH 67/68] fix: halfweights given to the API are used

---
 src/pyg2p/main/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 5171d83..e851481 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -220,6 +220,7 @@ class ApiContext(Context):
         if self.api_conf.get('Aggregation'):
             self._vars['aggregation.step'] = self.api_conf['Aggregation'].get('step')
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
+            self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
-- 
2.43.0


From 62243d44642ae9f8179e1a24364ff53fbe4b0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:50 +0000
Subject: [PATCH 68/68] fix: perturbationNumber among the parameters of the API
 is used

---
 src/pyg2p/main/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e851481..bf7e8c6 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -214,6 +214,8 @@ class ApiContext(Context):
             self._vars['parameter.dataTime'] = self._number(self.api_conf['Parameter'].get('dataTime'))  # number
         if self._vars['parameter.dataDate'] is None:
             self._vars['parameter.dataDate'] = self._number(self.api_conf['Parameter'].get('dataDate'))  # date
+        if self._vars['parameter.perturbationNumber'] is None:
+            self._vars['parameter.perturbationNumber'] = self._number(self.api_conf['Parameter'].get('perturbationNumber'))
 
         self._vars['parameter.level'] = self.api_conf['Parameter'].get('level')  # number
 
-- 
2.43.0

