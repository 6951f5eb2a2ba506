From 87c68633afa510978223fb89f78788f7c826e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:40 +0000
Subject: [PATCH 01/45] fix: count signals having fewer than two reversals

A signal such as [0, 5, 0] has two half cycles and a monotone one has one,
but the turning point search dropped them. Resolving a sum whose residual
sequence has fewer than two reversals raised a ValueError.
---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..34928d7 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -76,7 +76,7 @@ def findtp(x: np.ndarray) -> np.ndarray:
 
     ind = findextrema(x)
 
-    if ind.size < 2:
+    if np.size(x) < 2:
         return np.empty(0, dtype=np.int64)
 
     # # the Nieslony approach always put the first loading point as the first
-- 
2.43.0


From cf0b13c141a8b6a5e0ff6d6674499c12bef8a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 02/45] fix: no empty rainflow rows for signals starting flat

Zero-range pairs are skipped while counting, but the output was not
shortened accordingly and ended with all-zero rows.
---
 py_fatigue/cycle_count/rainflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 34928d7..d723d7a 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -399,7 +399,9 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     # the sig_rfc was constructed too big in rainflow.rf3, so
     # reduce the sig_rfc array as done originally by a matlab mex c function
     # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    sig_rfc = sig_rfc[: n - cnr[0]]
+    # zero-range pairs (flat signal start) are not written to sig_rfc
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From 48834b5244fbf6353a15c90f7325fdc147a0e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 03/45] fix: keep the unit when adding, scaling, resolving and
 correcting

The results of these operations always came back in MPa.
---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..8c9d88f 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -951,6 +951,7 @@ class CycleCount:
             mean_stress_corrected="No",
             stress_concentration_factor=float(added_scf),
             timestamp=min(self.timestamp, other.timestamp),
+            unit=self.unit,
             name=self.name,
             _time_sequence=np.unique(
                 np.hstack([self.time_sequence, other.time_sequence])
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1516,6 +1518,7 @@ def _multiplication_by_scalar(
         mean_stress_corrected=self_.mean_stress_corrected,
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
+        unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
     )
 
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From d6661afded298deb375f8c80958452e51d3159ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 04/45] fix: keep small cycles and time sequence when scaling a
 CycleCount

---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c9d88f..d444574 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1512,6 +1512,7 @@ def _multiplication_by_scalar(
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
         mean_bin_width=other_ * self_.mean_bin_width,
+        nr_small_cycles=self_.nr_small_cycles,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
         lffd_solved=self_.lffd_solved,
@@ -1520,6 +1521,7 @@ def _multiplication_by_scalar(
         timestamp=self_.timestamp,
         unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_._time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From 1c7e09a7ec5291245639d06a9c09eeb0ec8c02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 05/45] fix: solve_lffd on a CycleCount without residuals
 sequence

It raised UnboundLocalError instead of warning and returning the instance.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d444574..6cc6a09 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1837,7 +1837,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
-        return_self = True
+        return True, np.empty(0)
     if len(res_sequence) < 3:
         w_msg = "".join(
             (
-- 
2.43.0


From 04b20355b001289a25c1f4e3c2dd3f151bd64fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 06/45] fix: keep the mean stress correction label in
 solve_lffd

The label was reset to "No" whenever the count holds full cycles, so the
same count could be corrected twice.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 6cc6a09..35f0015 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1781,6 +1781,7 @@ def _solve_lffd(
     )
     cc_solved = cc_res + cc_no_res
     cc_solved.lffd_solved = True
+    cc_solved.mean_stress_corrected = self_.mean_stress_corrected
     return cc_solved
 
 
-- 
2.43.0


From 542c661855720d4f121cc410898f6f87c0a54691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 07/45] fix: mean stress correction must not alter the original
 CycleCount

With enforce_pulsating_load=True the mean stresses of the original were
overwritten when there were no residuals to resolve.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 35f0015..c56b529 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1114,7 +1114,7 @@ class CycleCount:
             warnings.warn(w_msg, UserWarning)
             return self
 
-        self_ = copy.deepcopy(self) if self.lffd_solved else self.solve_lffd()
+        self_ = copy.deepcopy(self if self.lffd_solved else self.solve_lffd())
 
         if np.all((self_.mean_stress == 0)) and not enforce_pulsating_load:
             e_msg = "".join(
-- 
2.43.0


From dadcbfe279a1adef110ace5c841c944dcf9c4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 08/45] fix: keep the min-max sequence in mean stress
 correction

---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index c56b529..14b37d9 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1197,6 +1197,7 @@ class CycleCount:
             name=self_.name,
             nr_small_cycles=self_.nr_small_cycles,
             residuals_sequence=self_.residuals_sequence,
+            _min_max_sequence=self_.min_max_sequence,
             stress_concentration_factor=self_.stress_concentration_factor,
             _time_sequence=self_.time_sequence,
         )
-- 
2.43.0


From 2158fd7d84706a98fab7b5279461a5e6c5f6c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 09/45] fix: import rainflow dictionaries without residuals

The histogram layout was guessed from the first residual, which raised
IndexError when there is none.
---
 py_fatigue/cycle_count/cycle_count.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 14b37d9..2c608dd 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -143,7 +143,7 @@ def _build_input_data_from_json(  # noqa: C901
         hst = np.array(hst)
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and not isinstance(data["hist"][0], Iterable):
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -159,11 +159,7 @@ def _build_input_data_from_json(  # noqa: C901
         the_hist = np.delete(the_hist, zero_hist_counts)
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
-    if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
-        Iterable,  # isinstance(
-        # data["lg_c"][0], (float, int, np.int16, np.int32)
-    ):
+    if len(data["lg_c"]) > 0 and not isinstance(data["lg_c"][0], Iterable):
         the_hist = np.hstack([the_hist, np.ones(len(data["lg_c"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["lg_c"]])
     # Adding residual cycles
-- 
2.43.0


From db0c84337328be1e51895b80066ebaf0cd912a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 10/45] fix: export the small cycles already discarded by the
 CycleCount

as_dict only counted the cycles dropped by the present export, so the
number was lost when exporting an imported or summed count.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 2c608dd..a5c0e15 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -659,6 +659,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = np.asarray(
             np.round(self.residuals_sequence, round_decimals)
         ).tolist()
-- 
2.43.0


From 763ce4eb795373b5afcc28fea359b645957dbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 11/45] fix: binned_rainflow with sampled times

---
 py_fatigue/cycle_count/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..0617b71 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -585,7 +585,7 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq, *_ = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-- 
2.43.0


From 79275bab426ae04b736aefce90f85508073d4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 12/45] fix: bin index of values lying on a rounded bin edge

Bin edges are rounded to 5 decimals. A maximum value lying on a non-round
upper edge, as after multiplying by an SCF, fell outside of the last bin
and exporting the count raised IndexError.
---
 py_fatigue/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..aec2108 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -324,7 +324,9 @@ class FatigueStress:
         -------
         bins_idx : np.ndarray
         """
-        digitized = np.digitize(self.full, self.bin_edges, right=True)
+        digitized = np.digitize(
+            np.around(self.full, 5), self.bin_edges, right=True
+        )
         digitized[np.where(digitized > 0)] -= 1
         return digitized
 
-- 
2.43.0


From 7ec155d7a5c444aa91cff65a10713312ac59ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 13/45] fix: always provide at least one bin

Exporting a count failed when all values lie on or below the lower bin
bound, e.g. for a constant mean stress of 15 MPa with 10 MPa bins.
---
 py_fatigue/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index aec2108..7a08217 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -204,10 +204,13 @@ class FatigueStress:
                 - self.bin_width / 2
             )
         if self._bin_ub is None:
-            self._bin_ub = bin_upper_bound(
-                self._bin_lb,
-                self.bin_width,
-                max(self.full) if len(self.full) > 0 else max(self._values),
+            self._bin_ub = max(
+                bin_upper_bound(
+                    self._bin_lb,
+                    self.bin_width,
+                    max(self.full if len(self.full) > 0 else self._values),
+                ),
+                self._bin_lb + self.bin_width,
             )
 
     @property
-- 
2.43.0


From c9a8e821f1301215c391000a3e3ac810f4a2dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 14/45] fix: comparing a scalar or None with an array

Equality of two CycleCount instances raised ValueError when only the left
one has no residuals sequence.
---
 py_fatigue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 7a08217..2d77549 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -473,6 +473,8 @@ def compare(a: Any, b: Any) -> bool:
     """
     # print(f"a: {a}, b: {b}")
     if not hasattr(a, "__iter__") or isinstance(a, str):
+        if isinstance(b, np.ndarray) and b.ndim > 0:
+            return False
         return a == b
 
     try:
-- 
2.43.0


From d0afc89fa7882a4b8bdb5ab83f07d9830b03c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 15/45] fix: pbar_sum of a list containing only None

A list of one None already returned None, longer ones raised IndexError.
---
 py_fatigue/cycle_count/cycle_count.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index a5c0e15..a445427 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1852,7 +1852,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
     return return_self, res_sequence
 
 
-def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
+def pbar_sum(cc_list: Sequence[CycleCount]) -> Optional[CycleCount]:
     """Sum a list of CycleCount objects using a progress bar.
 
     Parameters
@@ -1871,6 +1871,8 @@ def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
 
     chunk_size = int(np.sqrt(len(cc_list)))
     cc_list = [cc for cc in cc_list if cc is not None]
+    if len(cc_list) == 0:
+        return None
 
     sleep(0.15)
     chunked_cc_list = list(pfu.chunks(cc_list, chunk_size))
-- 
2.43.0


From 590b0403357f8c37213ea1f2d27d7de95505fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 16/45] fix: endurance stress of single-slope SN curves

It was always zero although get_stress levels off at the endurance.
---
 py_fatigue/material/sn_curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..25a3a77 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -635,8 +635,7 @@ class SNCurve(AbstractSNCurve):
                     f"({self.get_knee_cycles()} cycles). ",
                     "\nConsider changing params",
                 )
-            return self.get_stress(self.endurance)
-        return 0.0
+        return self.get_stress(self.endurance)
 
     def format_name(self, html_format: bool = False) -> None:
         if not html_format:
-- 
2.43.0


From a54238d45361687e89d7e1c98459870105e34924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 17/45] fix: stress intensity in the first and last Paris
 segment

get_sif returned threshold or critical instead of inverting the growth
rate, for single-slope curves everywhere.
---
 py_fatigue/material/crack_growth_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..2f1d4e0 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -787,10 +787,10 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     the_sif = np.empty(growth_rate.size, dtype=np.float64)
     nr_knees = intercept.size - 1
     for i in nb.prange(growth_rate.size):
-        if idx[i] <= 0:  # below threshold
+        if idx[i] < 0:  # below threshold
             the_sif[i] = threshold
             continue
-        if idx[i] >= nr_knees:  # above threshold
+        if idx[i] > nr_knees:  # above threshold
             the_sif[i] = critical
             continue
         the_sif[i] = (growth_rate[i] / intercept[idx[i]]) ** (
-- 
2.43.0


From 7eec76803e5a499bd49fda80638023219c8997dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 18/45] fix: count every load cycle of clustered entries in
 crack growth

Entries such as 2.5 cycles lost their fraction, and an entry without
cycles made the express mode fail.
---
 py_fatigue/damage/crack_growth.py | 48 ++++++++++++++++---------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..71050d5 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -473,16 +473,9 @@ def get_crack_growth(
         )
         raise ValueError(e_msg)
     if np.max(cycle_count.count_cycle) > 1:
-        if express_mode:
-            splts = [
-                10 ** int(np.log10(cycle)) for cycle in cycle_count.count_cycle
-            ]
-        else:
-            splts = [int(cycle) for cycle in cycle_count.count_cycle]
-        splt_cyc = [
-            split(int(cycle), n) if int(cycle) > 0 else [cycle]
-            for cycle, n in zip(cycle_count.count_cycle, splts)
-        ]
+        splt_cyc = _split_clustered_cycles(
+            cycle_count.count_cycle, express_mode
+        )
         splt_len = [len(_) for _ in splt_cyc]
 
         count_cycle = np.asarray(
@@ -519,6 +512,25 @@ def get_crack_growth(
     return cg  # crack_geometry
 
 
+def _split_clustered_cycles(
+    count_cycle: np.ndarray, express_mode: bool = False
+) -> list:
+    """Split each clustered entry of a cycle count into single cycles, or
+    into "little" blocks if in express mode. The fraction of a cycle that is
+    left goes into a block of its own.
+    """
+    splt_cyc = []
+    for cycle in count_cycle:
+        blocks: list = []
+        if int(cycle) > 0:
+            by = 10 ** int(np.log10(cycle)) if express_mode else int(cycle)
+            blocks = split(int(cycle), by)
+        if cycle % 1 > 0 or not blocks:
+            blocks = blocks + [cycle % 1]
+        splt_cyc.append(blocks)
+    return splt_cyc
+
+
 @pd.api.extensions.register_dataframe_accessor("cg")
 class CrackGrowth:
     """Accessor for the crack growth calculation
@@ -595,19 +607,9 @@ class CrackGrowth:
         # within the same stress range block
 
         if np.max(self._obj["count_cycle"]) > 1:
-            if express_mode:
-                splts = [
-                    10 ** int(np.log10(cycle))
-                    for cycle in self._obj["count_cycle"].values
-                ]
-            else:
-                splts = [
-                    int(cycle) for cycle in self._obj["count_cycle"].values
-                ]
-            splt_cyc = [
-                split(int(cycle), n) if int(cycle) > 0 else [cycle]
-                for cycle, n in zip(self._obj["count_cycle"].values, splts)
-            ]
+            splt_cyc = _split_clustered_cycles(
+                self._obj["count_cycle"].values, express_mode
+            )
             splt_len = [len(_) for _ in splt_cyc]
 
             count_cycle = np.asarray(
-- 
2.43.0


From b890b3be82b6a1c03f70949e183ea8b5fbfe3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:41 +0000
Subject: [PATCH 19/45] fix: map crack growth results to the rows of clustered
 tables

Each row now holds the results of the last block grown for it, and NaN if
the crack failed before. The former mapping was only right for integer
counts, without express mode and without failure.
---
 py_fatigue/damage/crack_growth.py | 32 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 71050d5..e2534e4 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -619,6 +619,7 @@ class CrackGrowth:
                 self._obj["stress_range"].values, splt_len
             )
         else:
+            splt_len = [1] * len(self._obj)
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
 
@@ -645,24 +646,19 @@ class CrackGrowth:
         cumul_cycle = np.cumsum(cg_.count_cycle[: len(cg_.crack_depth)])
         # manage the fact that clustered cycles are split in cg analysys
         # while the df keeps them clustered
-        d_l = len(self._obj) - len(cg_.crack_depth)
-        if d_l >= 0:
-            self._obj["crack_depth"] = np.concatenate(
-                (cg_.crack_depth, np.full(d_l, np.nan))
-            )
-            self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))
-            self._obj["cumul_cycle"] = np.concatenate(
-                (cumul_cycle, np.full(d_l, np.nan))
-            )
-            self._obj["geometry_factor"] = np.concatenate(
-                (cg_.geometry_factor, np.full(d_l, np.nan))
-            )
-        else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
-            self._obj["crack_depth"] = cg_.crack_depth[idx]
-            self._obj["sif"] = cg_.sif[idx]
-            self._obj["cumul_cycle"] = cumul_cycle[idx]
-            self._obj["geometry_factor"] = cg_.geometry_factor[idx]
+        idx = np.cumsum(splt_len) - 1
+        idx = idx[idx < len(cg_.crack_depth)]
+        d_l = len(self._obj) - len(idx)
+        self._obj["crack_depth"] = np.concatenate(
+            (cg_.crack_depth[idx], np.full(d_l, np.nan))
+        )
+        self._obj["sif"] = np.concatenate((cg_.sif[idx], np.full(d_l, np.nan)))
+        self._obj["cumul_cycle"] = np.concatenate(
+            (cumul_cycle[idx], np.full(d_l, np.nan))
+        )
+        self._obj["geometry_factor"] = np.concatenate(
+            (cg_.geometry_factor[idx], np.full(d_l, np.nan))
+        )
         self._obj.cg_curve = cg_curve
         self.cg_curve = cg_curve
         self._obj.crack_geometry = crack_geometry
-- 
2.43.0


From 02f0de39ca76e55c018efa688e8a191c44dd1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:47 +0000
Subject: [PATCH 20/45] fix: export a CycleCount without residuals sequence

as_dict raised TypeError for counts imported from a dictionary without
res_sig. The key is now left out of the exported dictionary as well.
---
 py_fatigue/cycle_count/cycle_count.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index a445427..eefa664 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -660,9 +660,10 @@ class CycleCount:
             debug_mode=debug_mode,
         )
         output_dict["nr_small_cycles"] += self.nr_small_cycles
-        output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
-        ).tolist()
+        if self.residuals_sequence is not None:
+            output_dict["res_sig"] = np.asarray(
+                np.round(self.residuals_sequence, round_decimals)
+            ).tolist()
         return output_dict
 
     def _repr_html_(self) -> str:  # pragma: no cover
-- 
2.43.0


From 756a39d0c387699103c24573a0e01bd6c9a2131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:56 +0000
Subject: [PATCH 21/45] fix: bins of a CycleCount whose largest cycle lies on
 the lower bound

bin_edges had a single edge and bin_centers was empty when the largest full
cycle was not above the lower bound, so that cycle was in no bin.
---
 py_fatigue/cycle_count/cycle_count.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index eefa664..fd94b39 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -460,10 +460,13 @@ class CycleCount:
         float
             The upper bound of the mean stress bins (highest mean bin edge).
         """
-        return pfu.bin_upper_bound(
-            self.mean_bin_lower_bound,
-            self.mean_bin_width,
-            max(self.full_cycles[:, 0]),
+        return max(
+            pfu.bin_upper_bound(
+                self.mean_bin_lower_bound,
+                self.mean_bin_width,
+                max(self.full_cycles[:, 0]),
+            ),
+            self.mean_bin_lower_bound + self.mean_bin_width,
         )
 
     @property
@@ -475,10 +478,13 @@ class CycleCount:
         float
             The upper bound of the stress range bins (highest range bin edge).
         """
-        return pfu.bin_upper_bound(
-            self.range_bin_lower_bound,
-            self.range_bin_width,
-            max(self.full_cycles[:, 1]),
+        return max(
+            pfu.bin_upper_bound(
+                self.range_bin_lower_bound,
+                self.range_bin_width,
+                max(self.full_cycles[:, 1]),
+            ),
+            self.range_bin_lower_bound + self.range_bin_width,
         )
 
     @property
-- 
2.43.0


From b0ca970b476ae020b0c88d1a741612ad803cbd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:37 +0000
Subject: [PATCH 22/45] fix: aggregate tables having columns without string
 names

---
 py_fatigue/cycle_count/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..5320430 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -142,7 +142,9 @@ def aggregate_cc(
     df_agg_rr = df_agg.applymap(solve_lffd)
 
     cc_cols: list[str] = [
-        col for col in df_agg_rr.columns if col.startswith("CC_")
+        col
+        for col in df_agg_rr.columns
+        if isinstance(col, str) and col.startswith("CC_")
     ]
 
     if not save_residuals:
@@ -266,7 +268,11 @@ def calc_aggregated_damage(
                     "SNCurve."
                 )
 
-    cc_cols: list[str] = [col for col in df.columns if col.startswith("CC_")]
+    cc_cols: list[str] = [
+        col
+        for col in df.columns
+        if isinstance(col, str) and col.startswith("CC_")
+    ]
     damages = pd.DataFrame()
     for _, sn_curve in sn.items():
         df_1 = df[cc_cols].applymap(
-- 
2.43.0


From a2546be4b84bfec93c91ef81e1ae947e153cfaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:38 +0000
Subject: [PATCH 23/45] fix: aggregated damage of several S-N curves having the
 same name

---
 py_fatigue/cycle_count/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 5320430..b54baf6 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -261,7 +261,7 @@ def calc_aggregated_damage(
             sn = {sn.name: sn}
         elif isinstance(sn, list):
             if all(isinstance(s, SNCurve) for s in sn):
-                sn = {s.name: s for s in sn}
+                sn = {str(i): s for i, s in enumerate(sn)}
             else:
                 raise TypeError(
                     "The S-N curves must be a dict, a list of SNCurve or a "
-- 
2.43.0


From 83fed00a010ea3776a8c08005646e4b0dfc61ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:38 +0000
Subject: [PATCH 24/45] fix: growth rate at infinite stress intensity

---
 py_fatigue/material/crack_growth_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 2f1d4e0..f7c6170 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -741,7 +741,7 @@ def _calc_growth_rate(sif, slope, intercept, threshold, critical):
         if sif[i] < threshold:  # below threshold
             the_growth_rate[i] = 0
             continue
-        if sif[i] > critical:  # above threshold
+        if sif[i] > critical or sif[i] == np.inf:  # above threshold
             the_growth_rate[i] = np.inf
             continue
         the_growth_rate[i] = intercept[idx[i]] * sif[i] ** slope[idx[i]]
-- 
2.43.0


From cf1732e62ea0837471004499328275e3d3859027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:38 +0000
Subject: [PATCH 25/45] fix: refuse crack growth of a CycleCount in Pa with a
 curve in MPa

---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index e2534e4..672dc8d 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -466,7 +466,7 @@ def get_crack_growth(
     # Handle the stress ranges and cycle counts as they might be clustered
     # in a matrix and we need to iterate over single or "little" cycles
     # within the same stress range block
-    if cycle_count.unit not in cg_curve.unit:
+    if not cg_curve.unit.startswith(cycle_count.unit):
         e_msg = (
             f"Cycle count unit ({cycle_count.unit}) and crack growth "
             f"curve unit ({cg_curve.unit}) are not compatible."
-- 
2.43.0


From cb3e019f35612c104606ae968bdc5a94d1651787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:38 +0000
Subject: [PATCH 26/45] fix: refuse crack growth of tables in another unit than
 the curve

---
 py_fatigue/damage/crack_growth.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 672dc8d..fa121ac 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -601,6 +601,15 @@ class CrackGrowth:
         """
 
         self._validate(self._obj)
+        metadata = self._obj._metadata
+        if isinstance(metadata, dict) and not cg_curve.unit.startswith(
+            metadata["unit"]
+        ):
+            e_msg = (
+                f"Cycle count unit ({metadata['unit']}) and crack growth "
+                f"curve unit ({cg_curve.unit}) are not compatible."
+            )
+            raise ValueError(e_msg)
 
         # Handle the stress ranges and cycle counts as they might be clustered
         # in a matrix and we need to iterate over single or "little" cycles
-- 
2.43.0


From f6243d6cf084d36a48795e343453ecb240235c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:52 +0000
Subject: [PATCH 27/45] fix: aggregate by time windows of several units

---
 py_fatigue/cycle_count/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index b54baf6..491c185 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -36,6 +36,18 @@ def solve_lffd(x: Any) -> Union[Any, CycleCount]:
     return x
 
 
+def _to_windows(index: pd.DatetimeIndex, aggr_by: str) -> pd.PeriodIndex:
+    """Assign to each timestamp the time window it falls into. Windows
+    spanning several units, e.g. '2h', do not overlap.
+    """
+    periods = index.to_period(aggr_by)
+    ordinals = periods.asi8 - periods.asi8 % periods.freq.n
+    return pd.PeriodIndex(
+        pd.arrays.PeriodArray(ordinals, dtype=periods.dtype),
+        name=index.name,
+    )
+
+
 def aggregate_cc(
     df: pd.DataFrame, aggr_by: str, save_residuals: bool = False
 ) -> Union[
@@ -135,7 +147,7 @@ def aggregate_cc(
     if aggr_by.lower() == "all":
         df_agg = df.groupby(lambda _: True).agg(agg_dict)
     else:
-        df_agg = df.groupby([df.index.to_period(aggr_by)]).agg(agg_dict)
+        df_agg = df.groupby([_to_windows(df.index, aggr_by)]).agg(agg_dict)
 
     # Retrieving the low-frequency fatigue dynamics on the aggregated dataframe
     print("\33[36m4. Retrieving LFFD on aggregated \33[1mdf\33[22m.\33[0m")
-- 
2.43.0


From 7a89ca9873c0e0c742ec3ebb3b2f3af5aa724ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:19 +0000
Subject: [PATCH 28/45] fix: show the maximum stress on the min-max histogram
 plot

---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index fd94b39..123dd43 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1317,8 +1317,7 @@ class CycleCount:
             e_msg = f"Invalid plot type. Must be one of {plot_types}."
             raise ValueError(e_msg)
         if plot_type == "min-max":
-            x = x - y / 2
-            y = x + y / 2
+            x, y = x - y / 2, x + y / 2
             bins = bins if bins is not None else 50
         if "counts-range" in plot_type:
             sor = sorted(
-- 
2.43.0


From cbeba7443bc1b50edf388d1e007e9a95403143e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:19 +0000
Subject: [PATCH 29/45] fix: accept the documented mode None in histogram plots

---
 py_fatigue/cycle_count/histogram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 0617b71..36885da 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -247,6 +247,8 @@ def xy_hist2d(
         iorder = np.argsort(dens)
     elif mode == "valley":
         iorder = np.argsort(dens)[::-1]
+    elif mode is None:
+        iorder = np.arange(len(dens))
     else:
         raise ValueError("mode must be one of [None, 'mountain', 'valley']")
     x = x[iorder]
-- 
2.43.0


From 6e526d1c23921c8c12ff32c0accaf9218ccf186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:19 +0000
Subject: [PATCH 30/45] fix: span the bins of a cycle count of half cycles only

---
 py_fatigue/cycle_count/cycle_count.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 123dd43..20423a2 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -464,7 +464,10 @@ class CycleCount:
             pfu.bin_upper_bound(
                 self.mean_bin_lower_bound,
                 self.mean_bin_width,
-                max(self.full_cycles[:, 0]),
+                max(
+                    self.full_cycles[:, 0],
+                    default=max(self.mean_stress),
+                ),
             ),
             self.mean_bin_lower_bound + self.mean_bin_width,
         )
@@ -482,7 +485,10 @@ class CycleCount:
             pfu.bin_upper_bound(
                 self.range_bin_lower_bound,
                 self.range_bin_width,
-                max(self.full_cycles[:, 1]),
+                max(
+                    self.full_cycles[:, 1],
+                    default=max(self.stress_range),
+                ),
             ),
             self.range_bin_lower_bound + self.range_bin_width,
         )
-- 
2.43.0


From 905d0408cb5553ba6709018aeacf4bad9be2d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:30 +0000
Subject: [PATCH 31/45] fix: apply the nonlinear damage rules to series and
 lists of stress ranges

---
 py_fatigue/damage/stress_life.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index df7453e..9240866 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -571,7 +571,7 @@ def calc_pavlou_exponents(
     np.ndarray
         The Pavlou exponents.
     """
-    q_exp = (stress_range / 2 / ultimate_stress) ** exponent
+    q_exp = (np.asarray(stress_range) / 2 / ultimate_stress) ** exponent
     return np.hstack([q_exp[1:] / q_exp[:-1], [1]])
 
 
@@ -597,6 +597,7 @@ def calc_si_jian_exponents(
     np.ndarray
         The Si-Jian et al. exponents.
     """
+    stress_range = np.asarray(stress_range)
     return np.hstack([stress_range[1:] / stress_range[:-1], [1]])
 
 
-- 
2.43.0


From df02aea25c9ed6ea0b9b1e1c38129a4775b72680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:30 +0000
Subject: [PATCH 32/45] fix: accept the nonlinear damage rules under their
 documented names

---
 py_fatigue/damage/stress_life.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index 9240866..4afdd00 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -687,6 +687,7 @@ def calc_nonlinear_damage(
         "si jian",
         "si jian et al",
     ]
+    damage_rule = damage_rule.lower().replace("-", " ")
     if damage_rule not in allowed_rules:
         e_msg = f"damage_rule must be one of {allowed_rules}"
         raise ValueError(e_msg)
-- 
2.43.0


From a5cf2145e8a2df78ee71bc19bb30352791d8ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:51 +0000
Subject: [PATCH 33/45] fix: start the plotted crack growth curve at its
 threshold

---
 py_fatigue/material/crack_growth_curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index f7c6170..dd95c12 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -831,6 +831,8 @@ def _paris_curve_data_points(pc: ParisCurve) -> tuple:
     sif_plot = np.logspace(
         np.log10(threshold), np.log10(0.999999999999 * critical), 20
     )  # 0.999999999999 to avoid rounding errors
+    # The first point must not be rounded to below the threshold either
+    sif_plot[0] = threshold
 
     if not pc.linear:
         sif_plot = np.sort(np.append(sif_plot, np.array(pc.get_knee_sif())))
-- 
2.43.0


From f62b34b2cd8272d611101955d39866cf892dc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:39 +0000
Subject: [PATCH 34/45] fix: close the front of cracks deeper than half their
 width on hollow cylinders

---
 py_fatigue/geometry/cylinder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 20b6eba..024caa6 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -182,7 +182,7 @@ class HollowCylinder(AbstractCrackGeometry):
         a_h = depth - r_o * (1 - np.cos(c_angle))
         r_e = (c_v**2 + a_h**2) / (2 * a_h)  # radius of crack-front arc
         # angle of crack-front arc
-        beta = np.arcsin(c_v / r_e)
+        beta = 2 * np.arctan2(a_h, c_v)
         theta = np.linspace(-beta, beta, 100)  # θ (crack-front angle)
         phi = np.linspace(np.pi - c_angle, np.pi + c_angle, 100)
 
@@ -282,7 +282,7 @@ def f_hol_cyl_01(
     # radius of crack-front arc
     crack_radius: float = (c_v**2 + a_h**2) / (2 * a_h)
     # angle of crack-front arc
-    beta: float = np.arcsin(c_v / crack_radius)
+    beta: float = 2 * np.arctan2(a_h, c_v)
     # areas
     # * circular ring
     area_0: float = np.pi * (outer_radius**2 - inner_radius**2)
-- 
2.43.0


From 62e1fd05fe4022498c61d4ae78c960e6f33ad394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:00 +0000
Subject: [PATCH 35/45] fix: report invalid hollow cylinders by a validation
 error

---
 py_fatigue/geometry/cylinder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 024caa6..dde8570 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -74,10 +74,11 @@ class HollowCylinder(AbstractCrackGeometry):
         cls, v: PositiveFloat, values: dict
     ) -> PositiveFloat:
         """Validate the thickness of the part."""
-        if v >= values["outer_diameter"] / 2:
+        # fields that are not valid themselves are missing from the values
+        if v >= values.get("outer_diameter", np.inf) / 2:
             e_msg = "thickness is greater than or equal to the outer radius"
             raise ValueError(e_msg)
-        if v <= values["initial_depth"]:
+        if v <= values.get("initial_depth", 0.0):
             e_msg = "thickness is less than or equal to the initial depth"
             raise ValueError(e_msg)
         return v
-- 
2.43.0


From 5596e9b609c06c835c41e7481bb7671d82edc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:02 +0000
Subject: [PATCH 36/45] fix: count signals of narrow and unsigned integers
 without overflow

---
 py_fatigue/cycle_count/rainflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index d723d7a..12882cc 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -138,6 +138,8 @@ def findcross(x: np.ndarray, v=0.0, kind=None) -> np.ndarray:
     if len(x) > 0 and np.isnan(np.min(x)):
         raise ValueError("data contain NaN")
 
+    # differences of narrow or unsigned integers could overflow
+    x = np.asarray(x, dtype=float)
     xn = np.array(np.sign(np.atleast_1d(x).ravel() - v), dtype=np.int8)
     ind = findcross_indices(xn)
     if ind.size == 0:
@@ -185,6 +187,8 @@ def findextrema(x: np.ndarray) -> np.ndarray:
     >>> a = plt.plot(t,x,'.',t[ind],x[ind],'r.')
     >>> plt.close('all')
     """
+    # differences of narrow or unsigned integers could overflow
+    x = np.asarray(x, dtype=float)
     dx = np.diff(np.atleast_1d(x).ravel())
     return findcross(dx) + 1
 
@@ -456,6 +460,8 @@ def rainflow(
         data = np.array(data)
     if not isinstance(data, np.ndarray):
         raise TypeError("data shall be either numpy.1darray or list")
+    if np.issubdtype(data.dtype, np.integer):
+        data = data.astype(float)
     if time is not None:
         if isinstance(time, list):
             time = np.array(time)
-- 
2.43.0


From e516c5810f8e3aa232e99777e00fdd1c90ae1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:58 +0000
Subject: [PATCH 37/45] fix: sample as many times whatever the start of the
 signal

---
 py_fatigue/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index d2ad58b..7014eca 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -46,7 +46,7 @@ def get_sampled_time(
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
 
-    return np.arange(start, start + duration, 1 / fs)
+    return start + np.arange(np.ceil(np.round(duration * fs, 6))) / fs
 
 
 def get_random_data(
-- 
2.43.0


From f1055c20811d713840577bcc3eb29a4911b72545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:58 +0000
Subject: [PATCH 38/45] fix: warn about the duration when it is no multiple of
 the sampling period

---
 py_fatigue/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index 7014eca..ed91eda 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -38,9 +38,9 @@ def get_sampled_time(
         raise ValueError(
             "The signal duration is too short for the sampling frequency."
         )
-    if np.absolute(duration % fs) > 1e-3:
+    if np.absolute(duration * fs - np.round(duration * fs)) > 1e-3:
         w_msg = (
-            "The signal duration is not a multiple of the sampling frequency."
+            "The signal duration is not a multiple of the sampling period. "
             f"The signal will last {duration - (duration % (1 / fs))} s."
         )
         warnings.formatwarning = py_fatigue_formatwarning
-- 
2.43.0


From 9f95e0dc0be44882ee26b98b87f907d02527db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:58 +0000
Subject: [PATCH 39/45] fix: leave the global random state alone when drawing
 random data

---
 py_fatigue/testing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index ed91eda..34d140d 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -83,7 +83,6 @@ def get_random_data(
         Random data.
     """
     rng = np.random.default_rng(seed)
-    np.random.seed(seed)
     y = getattr(rng, random_type)(**kwargs, size=len(t))
     y = ((y - y.min()) / (y.max() - y.min())) * range_ + min_
     return y
-- 
2.43.0


From 712cdbf24c6c8d5ccfa9e54b94c195ae6cecc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:39 +0000
Subject: [PATCH 40/45] fix: report no crack growth rate below the threshold

---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index fa121ac..8f272d7 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -232,7 +232,7 @@ class CalcCrackGrowth:
         knees = self.get_knees_sif
         if sif < self.threshold:
             the_growth_rate = 0.0
-        if sif > self.critical:
+        elif sif > self.critical:
             the_growth_rate = np.inf
         else:
             idx = np.digitize(np.asarray([sif]), knees, right=True) - 1
-- 
2.43.0


From 679118c09d65c97942c8928c90b1f1236ae06d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:11 +0000
Subject: [PATCH 41/45] fix: keep bins narrower than the fifth decimal apart

---
 py_fatigue/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 2d77549..910470c 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -328,7 +328,9 @@ class FatigueStress:
         bins_idx : np.ndarray
         """
         digitized = np.digitize(
-            np.around(self.full, 5), self.bin_edges, right=True
+            np.around(self.full, _bin_decimals(self.bin_width)),
+            self.bin_edges,
+            right=True,
         )
         digitized[np.where(digitized > 0)] -= 1
         return digitized
@@ -370,11 +372,18 @@ def calc_bin_edges(
 
     bin_edges = np.around(
         np.linspace(start=bin_lb, stop=bin_ub, num=n_bins),
-        decimals=5,
+        decimals=_bin_decimals(bin_width),
     )
     return bin_edges
 
 
+def _bin_decimals(bin_width: float) -> int:
+    """Number of decimals that resolve the bin width. It is five, or more if
+    the bins are narrower than one.
+    """
+    return 5 + max(0, -int(np.floor(np.log10(bin_width))))
+
+
 def bin_upper_bound(
     bin_lower_bound: float, bin_width: float, max_val: float
 ) -> float:
-- 
2.43.0


From d77c91ecf2fa470c01cb43097cc35a1087136e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:36 +0000
Subject: [PATCH 42/45] fix: keep curves apart from the arrays they are made of

---
 py_fatigue/material/sn_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 25a3a77..050f8fd 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -68,7 +68,7 @@ def check_iterable(function: Callable) -> Callable:
             except TypeError:
                 iter_args.append(np.asarray([arg], dtype=float))
             else:
-                iter_args.append(np.asarray(arg, dtype=float))
+                iter_args.append(np.array(arg, dtype=float))
         return function(*iter_args)
 
     return wrapper
-- 
2.43.0


From 9616082a55ad63a8f7b4573d6f3d6f1eb10e6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:08 +0000
Subject: [PATCH 43/45] fix: close the bracket around the time in the text of a
 count

---
 py_fatigue/cycle_count/cycle_count.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 20423a2..859f45e 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -732,14 +732,13 @@ class CycleCount:
             strng = "".join(
                 (
                     f"CC_{self.name} (",
-                    f"{self.timestamp.strftime('%d %b %Y, %H:%M')} - ",
-                    "",
+                    f"{self.timestamp.strftime('%d %b %Y, %H:%M')})",
                 )
             )
         if len(self.time_sequence) > 1:
             strng = "".join(
                 (
-                    f"CC_ {self.name} (from ",
+                    f"CC_{self.name} (from ",
                     f"{self.time_sequence[0].strftime('%d %b %Y, %H:%M')} to ",
                     f"{self.time_sequence[-1].strftime('%d %b %Y, %H:%M')})",
                 )
-- 
2.43.0


From 7a641acdbf11735440f64f624e68ec3606ee01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:08 +0000
Subject: [PATCH 44/45] fix: label the damage plot with the unit of the count

---
 py_fatigue/damage/stress_life.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index 4afdd00..41005ce 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -198,7 +198,9 @@ class PalmgrenMiner:
             else "PM damage(" + str(dens_func) + ")"
         )
         ax.set_xlabel("# of cycles")
-        ax.set_ylabel("Stress range, MPa")
+        metadata = self._obj._metadata
+        unit = metadata.get("unit") if isinstance(metadata, dict) else None
+        ax.set_ylabel("Stress range" + (f", {unit}" if unit else ""))
         cbar = plt.colorbar(im, ax=ax)
         cbar.set_label(cbar_label, rotation=270)
         cbar.ax.get_yaxis().labelpad = 10
-- 
2.43.0


From 089bf225b3687634caaf21e37a702bd2b8636f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:16 +0000
Subject: [PATCH 45/45] fix: give the threshold in the picture of a crack
 growth curve its own unit

---
 py_fatigue/material/crack_growth_curve.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index dd95c12..ad40b7f 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -376,14 +376,9 @@ class ParisCurve(AbstractCrackGrowthCurve):
         fig.set_figwidth(7)
         max_x = np.max(ax.lines[0].get_xdata())
         max_y = np.max(ax.lines[0].get_ydata())
-        cg_unit = "[L][CYCLE]$^{-1}$"
-        if "√" in self.unit:
-            split_unit = self.unit.split("√")
-            cg_unit = "/".join((split_unit[1], "cycle"))
-
         ann_1 = f"{self.name},\nSlope: {self.slope},\nIntercept:"
         ann_2 = f"{self.intercept},\nThreshold: {self.threshold:.2f},"
-        ann_3 = f"{cg_unit},\nCritical: {self.critical:.2f}, {self.unit}"
+        ann_3 = f"{self.unit},\nCritical: {self.critical:.2f}, {self.unit}"
         annotation = " ".join((ann_1, ann_2, ann_3))
         ax.text(
             1.5 * max_x,
-- 
2.43.0

