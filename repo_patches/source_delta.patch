From ea5dd034aad419f6e3e8f894c181b59acd9c8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 01/17] fix: set gap current when the circuit is built from
 fgap and rn

EmbeddingCircuit(fgap=..., rn=...) derived vgap from fgap but left igap as None.
---
 qmix/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index fb83274..ab076f6 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -231,8 +231,8 @@ class EmbeddingCircuit(object):
         # Normal-state resistance
         if rn is not None:
             self.rn = float(rn)
-        if vgap is not None and rn is not None:
-            self.igap = vgap / rn
+        if self.vgap is not None and self.rn is not None:
+            self.igap = self.vgap / self.rn
 
         # Initialize embedding circuit
         self.freq = np.zeros((num_f + 1), dtype=float)
-- 
2.43.0


From 9c08065399468e5a39d3ee67c4e6465b033d51a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 02/17] fix: EmbeddingCircuit.vph returned a non-existent
 attribute

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index ab076f6..00fc90d 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -575,7 +575,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        return self.cct
+        return self.freq
 
 
 def read_circuit(filename):
-- 
2.43.0


From 6ac47d755108d1642ffb7e9d7650a73dabc9a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 03/17] fix: set_freq with normalized units needs no gap
 frequency

The method object was compared with the string, so the assertion was always made.
---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 00fc90d..7d1f86b 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -439,7 +439,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        if units.lower != 'norm':
+        if units.lower() != 'norm':
             assert self.fgap is not None, 'Gap frequency must be defined!'
 
         if units.lower() == 'hz':
-- 
2.43.0


From 89d2abef8d7569d906ddd4acf073d69470429801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 04/17] fix: set_alpha uses the photon voltage of the requested
 harmonic

alpha = voltage / vph, and the photon voltage of harmonic p is p * freq (as
in print_info and in the calculation of the tunneling currents).
---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 7d1f86b..abbfa9d 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -405,7 +405,7 @@ class EmbeddingCircuit(object):
         assert self.zt[f, p] != 0, 'Embedding impedance must be defined!'
         assert self.freq[f] != 0, 'Frequency must be defined!'
 
-        self.vt[f, p] = alpha * self.freq[f] * (self.zt[f, p] / zj + 1)
+        self.vt[f, p] = alpha * self.freq[f] * p * (self.zt[f, p] / zj + 1)
 
     def set_freq(self, value, f=1, units='Hz'):
         """Set the frequency of tone ``f``.
-- 
2.43.0


From 2fd52fcdcda8461e0f1983c7cd360fc23a4e0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 05/17] fix: duplicate removal of empty or single point data,
 and of other columns

The sortedness check took the minimum of an empty array for fewer than two
points, and remove_doubles_matrix always checked the first column instead of
the requested one.
---
 qmix/exp/clean_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index 87bcbc4..59e53d7 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -63,7 +63,7 @@ def remove_doubles_xy(x, y, check=True):
 
     # Check to see if x is sorted
     if check:
-        assert (x[1:] - x[:-1]).min() >= 0
+        assert (x[1:] >= x[:-1]).all()
 
     # Find doubles
     mask = np.ones(len(x), dtype=bool)
@@ -161,7 +161,7 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     if check:
         # Check to see if x is sorted
-        assert (matrix[1:, 0] - matrix[:-1, 0]).min() >= 0
+        assert (matrix[1:, col] >= matrix[:-1, col]).all()
 
     column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
-- 
2.43.0


From 4089b7c833f9539bb9f011951ee04ce49d2d5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 06/17] fix: perfect I-V curve of integer voltage arrays at the
 gap

The result had the integer type of the input, so +/-0.5 was truncated to 0.
---
 qmix/mathfn/ivcurve_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index a9ed2b1..5848e69 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -30,7 +30,7 @@ def perfect(voltage):
     """
 
     if isinstance(voltage, np.ndarray):
-        current = np.copy(voltage)
+        current = np.array(voltage, dtype=float)
         current[voltage == 1.] = 0.5
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
-- 
2.43.0


From e1b0bfe528c17c91288a66f666c97fbbd321fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 07/17] fix: interpolation error check ignored negative errors

---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 59db44f..d7e33e7 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -809,9 +809,9 @@ def _setup_interpolation(voltage, current, current_kk, **params):
 
     # Check error
     if check_error:
-        assert err_dc.max() < interp_error, \
+        assert np.abs(err_dc).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_dc"
-        assert err_kk.max() < interp_error, \
+        assert np.abs(err_kk).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_kk"
 
     return f_dc, f_kk, f_ddc, f_dkk
-- 
2.43.0


From 5c612c35202665eab969d4775228d627bf11526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 08/17] fix: harmonic balance overwrote the circuit and the
 initial guess

The minimum Thevenin voltage was written into the caller's circuit (an error if
it is locked), and the corrections were added to the caller's initial guess
whenever the reshaped guess was a view of it.
---
 qmix/harmonic_balance.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index bb4937f..3b6180a 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -90,9 +90,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-    vt[np.abs(vt) < MIN_VT] = MIN_VT
-    vt[0, :] = 0  # TODO: is this needed?
-    vt[:, 0] = 0
+    vt = _limit_source_voltage(vt)
 
     # Initial guess of the junction voltage (vj) -----------------------------
 
@@ -112,7 +110,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # voltage) will be transformed into a matrix with shape 6 x npts.
 
     # Change format of data from [f, p] to [p] (reduce by one dimension)
-    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts))
+    vj_2d = np.array(vj_initial[1:, 1:, :], dtype=complex).reshape((num_n, npts))
     vt_2d = vt[1:, 1:].reshape(num_n)
     zt_2d = zt[1:, 1:].reshape(num_n)
 
@@ -260,9 +258,12 @@ def check_hb_error(vj_check, cct, resp, num_b=15, stop_rerror=0.001):
     # Tunnelling current for all tones/harmonics (see below)
     ij_all = _qtcurrent_all_freq(vj_check, cct, resp, num_b)
 
+    # Same source voltages as the harmonic balance procedure
+    vt = _limit_source_voltage(cct.vt)
+
     for f in range(1, cct.num_f + 1):
         for p in range(1, cct.num_p + 1):
-            error_fp = cct.vt[f, p] - \
+            error_fp = vt[f, p] - \
                        cct.zt[f, p] * ij_all[f, p, :] - \
                        vj_check[f, p, :]
             max_rel_error = np.max(np.abs(error_fp) /
@@ -401,6 +402,18 @@ def _qt_current_for_hb(vj_2d, cct, resp, num_b, resp_matrix=None):
 
 # General helper functions --------------------------------------------------
 
+def _limit_source_voltage(vt):
+    """ Apply the minimum Thevenin voltage (to prevent div0 errors) to a copy
+    of the source voltages. """
+
+    vt = vt.copy()
+    vt[np.abs(vt) < MIN_VT] = MIN_VT
+    vt[0, :] = 0  # TODO: is this needed?
+    vt[:, 0] = 0
+
+    return vt
+
+
 def _k_to_fp(k, num_p):
     """ Given the index 'k' (i.e., the 1-d index), find the equivalent index
     in '[f,p]' (i.e., the 2-d index). """
-- 
2.43.0


From 8f6556dec8bf15f0970bc9136c800a5d8186cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 09/17] fix: harmonic balance stayed silent when the error
 became NaN

A NaN error is not larger than the target, so the last iteration neither
announced that the target was missed nor stopped before one more correction.
---
 qmix/harmonic_balance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 3b6180a..c4bf80d 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -157,7 +157,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
                 # Check relative error at k
                 abs_error = np.abs(err_all[k, :])
                 rel_error = abs_error / np.abs(vj_2d[k, :])
-                max_rel_error = max(np.max(rel_error), max_rel_error)
+                max_rel_error = np.maximum(np.max(rel_error), max_rel_error)
                 med_rel_error = np.median(abs_error / np.abs(vj_2d[k, :]))
                 good_points = rel_error < stop_rerror
                 finished_points = finished_points & good_points
@@ -186,7 +186,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
             break
 
         # Exit if this is the last iteration
-        if max_rel_error > stop_rerror and iteration == max_it:
+        if iteration == max_it:
             print("*** DID NOT ACHIEVE TARGET ERROR VALUE ***\n")
             break
 
-- 
2.43.0


From cb7629247dbd5891b5694aef801b904731214251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 10/17] fix: harmonic balance honours the output mode when
 every source impedance is zero

---
 qmix/harmonic_balance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index c4bf80d..4b45fc4 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -86,7 +86,12 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if (zt == 0).all():
         if verbose:
             print("Done.\n")
-        return vt[:, :, None] * np.ones(npts, dtype=complex)
+        vj_out = vt[:, :, None] * np.ones(npts, dtype=complex)
+        if mode == "x":
+            return vj_out, 0, True
+        elif mode == "m":
+            return vj_out, np.ones(npts, dtype=bool)
+        return vj_out
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-- 
2.43.0


From 060c3761e2c20d7d91e722b1af22cbac89a2b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 11/17] fix: RespFnFromIVData uses the data point at zero bias

The documentation says all data from vb=0 is imported, but the mask dropped
the sample at exactly vb=0, so the curve near zero bias was held at the first
positive sample instead of following the data through zero.
---
 qmix/respfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index d7e33e7..a141707 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -529,7 +529,7 @@ class RespFnFromIVData(RespFn):
 
         # Force slope=1 above vmax
         vmax = params.get('vlimit', 1.8)
-        mask = (voltage > 0) & (voltage < vmax)
+        mask = (voltage >= 0) & (voltage < vmax)
         current = current[mask]
         voltage = voltage[mask]
         b = current[-1] - voltage[-1]
-- 
2.43.0


From 04a632068de84de0465b1513a2c351456a49ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 12/17] fix: sample coarse I-V curves with valid indices

_sample_curve raised 'range() arg 3 must not be zero' or produced negative
or too large indices when the reflected curve had fewer points than the
hard-coded blocks at its ends and middle.
---
 qmix/respfn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index a141707..9590135 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -854,15 +854,16 @@ def _sample_curve(voltage, current, max_npts, smear):
             voltage_last = v
             cumsum_last = cumsum[idx]
     # Add 10 to start/end
-    for i in range(0, int(1 / VSTEP), int(1 / VSTEP / 10)):
+    npts = min(int(1 / VSTEP), len(voltage) - 1)
+    for i in range(0, npts, int(1 / VSTEP / 10)):
         idx_list.append(i)
-    for i in range(len(voltage) - int(1 / VSTEP) - 1, len(voltage), int(1 / VSTEP / 10)):
+    for i in range(len(voltage) - npts - 1, len(voltage), int(1 / VSTEP / 10)):
         idx_list.append(i)
     # Add 30 pts to middle
     ind_low = np.abs(voltage + 1.).argmin()
     ind_high = np.abs(voltage - 1.).argmin()
     npts = ind_high - ind_low
-    for i in range(ind_low, ind_high, npts // 30):
+    for i in range(ind_low, ind_high, max(npts // 30, 1)):
         idx_list.append(i)
 
     idx_list = list(set(idx_list))
-- 
2.43.0


From b5bb9ac1484a1eace65e56732e975cfbd27fd89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:39 +0000
Subject: [PATCH 13/17] fix: use the given I-V offsets for bipolar DC data when
 both are known

---
 qmix/exp/iv_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index ac0b56e..e840880 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -524,12 +524,13 @@ def _correct_offset(volt_v, curr_a, **kw):
     # See if data is unipolar or bipolar
     # i.e., does the bias voltage sweep from negative to positive values?
     bipolar = (volt_v.min() < voffset_range[0]) & (voffset_range[1] < volt_v.max())
-    if not bipolar:
+    known = voffset is not None and ioffset is not None
+    if known or not bipolar:
         if voffset is None:
             voffset = 0
         if ioffset is None:
             ioffset = 0
-        # Can't do much in this case
+        # Nothing to recover (or can't do much) in these cases
         # Correct for the offset
         volt_v -= voffset
         curr_a -= ioffset
-- 
2.43.0


From 82bf7d11aa0a697510e563f7fbe3eb2103519657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 14/17] fix: series resistance correction of I-V samples with
 zero current

---
 qmix/exp/iv_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index e840880..3c9ac08 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -716,10 +716,11 @@ def _correct_series_resistance(vmeas, imeas, **kw):
 
     rstatic = vmeas / imeas
     rstatic[rstatic < 0] = 0.
-    mask = np.invert(np.isnan(rstatic))
     rj = rstatic - rseries
-    v0 = imeas[mask] * rj[mask]
+    v0 = imeas * rj
 
-    idc = imeas.copy()[mask]
+    # No current means no voltage drop (and no static resistance)
+    mask = imeas == 0
+    v0[mask] = vmeas[mask]
 
-    return v0, idc
+    return v0, imeas.copy()
-- 
2.43.0


From 344a2eaa7529d75dde254a456acc4d223d6a8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 15/17] fix: series resistance correction of IF data where the
 DC current is zero

---
 qmix/exp/if_data.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 2488ebf..134931e 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -416,13 +416,9 @@ def _load_if(ifdata, dc, **kwargs):
     # Correct for series resistance
     if rseries is not None:
         v = ifdata[:, 0]
-        rstatic = dc.vraw / dc.iraw
-        rstatic[rstatic < 0] = 0.
-        rstatic = np.interp(v, dc.vraw, rstatic)
         iraw = np.interp(v, dc.vraw, dc.iraw)
-        rj = rstatic - rseries
-        v0 = iraw * rj
-        ifdata[:, 0] = v0
+        vstatic = np.where(v * iraw < 0, 0., v)
+        ifdata[:, 0] = vstatic - iraw * rseries
 
     # Normalize voltage to gap voltage
     ifdata[:, 0] /= dc.vgap
-- 
2.43.0


From f9f069d342f5fdeade86290e29ab2792e33dc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:35 +0000
Subject: [PATCH 16/17] fix: smeared perfect response is the smeared perfect
 I-V curve

---
 qmix/respfn.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 9590135..694be7f 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -695,16 +695,6 @@ class RespFnPerfect(RespFn):
 
         # Smear IV curve (optional)
         else:
-
-            tmp = np.zeros_like(voltage)
-            idx = np.abs(voltage - 1.).argmin()
-            tmp[idx] = 1.
-
-            v_step = voltage[1] - voltage[0]
-            current = gauss_conv(tmp, sigma=params['v_smear']/v_step) + iv.perfect(voltage)
-            if params['verbose']:
-                print(" - Voltage smear: {:.4f}".format(params['v_smear']))
-
             RespFn.__init__(self, voltage, current, **params)
 
     def __str__(self):
-- 
2.43.0


From 9d7f3bac2cea1c47b5947b9046b2a965728ab218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:54 +0000
Subject: [PATCH 17/17] fix: trapezoidal KK transform refuses voltage steps
 that shrink

The spacing test had no absolute value, so data whose voltage steps only
get smaller than the first one passed as evenly spaced.
---
 qmix/mathfn/kktrans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/kktrans.py b/qmix/mathfn/kktrans.py
index 234bdaa..2480123 100644
--- a/qmix/mathfn/kktrans.py
+++ b/qmix/mathfn/kktrans.py
@@ -64,7 +64,7 @@ def kk_trans_trapz(v, i):
     """
 
     # Ensure v has even spacing
-    assert ((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
+    assert np.abs((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
 
     # very crude integration
     ikk = []
-- 
2.43.0

