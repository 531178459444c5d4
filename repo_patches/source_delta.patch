From 32ec9c7d44bc3854da12ab7c3f6eaf1ae874e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 01/27] fix: set_freq accepts normalised frequencies without a
 gap frequency

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index fb83274..2fdcce7 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -439,7 +439,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        if units.lower != 'norm':
+        if units.lower() != 'norm':
             assert self.fgap is not None, 'Gap frequency must be defined!'
 
         if units.lower() == 'hz':
-- 
2.43.0


From 2118ea399081772f9f146834bf03a6659ad4c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 02/27] fix: gap current is also set for circuits built from
 the gap frequency

---
 qmix/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 2fdcce7..4711b15 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -231,8 +231,8 @@ class EmbeddingCircuit(object):
         # Normal-state resistance
         if rn is not None:
             self.rn = float(rn)
-        if vgap is not None and rn is not None:
-            self.igap = vgap / rn
+        if self.vgap is not None and self.rn is not None:
+            self.igap = self.vgap / self.rn
 
         # Initialize embedding circuit
         self.freq = np.zeros((num_f + 1), dtype=float)
-- 
2.43.0


From 2701952e7808d5ec681297b44a60312fc384b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 03/27] fix: EmbeddingCircuit.vph returns the normalised photon
 voltages

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 4711b15..7d1f86b 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -575,7 +575,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        return self.cct
+        return self.freq
 
 
 def read_circuit(filename):
-- 
2.43.0


From 94c41d1a3af22b3a5493bf3b87ef20324c7319e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 04/27] fix: set_alpha takes the harmonic number into account

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 7d1f86b..fe67835 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -405,7 +405,7 @@ class EmbeddingCircuit(object):
         assert self.zt[f, p] != 0, 'Embedding impedance must be defined!'
         assert self.freq[f] != 0, 'Frequency must be defined!'
 
-        self.vt[f, p] = alpha * self.freq[f] * (self.zt[f, p] / zj + 1)
+        self.vt[f, p] = alpha * p * self.freq[f] * (self.zt[f, p] / zj + 1)
 
     def set_freq(self, value, f=1, units='Hz'):
         """Set the frequency of tone ``f``.
-- 
2.43.0


From 7b198ff8dfb75a1ff40008c27ae585021e59a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/27] fix: perfect I-V curve models accept integer arrays and
 NumPy scalars

---
 qmix/mathfn/ivcurve_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index a9ed2b1..e3b6915 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -30,12 +30,12 @@ def perfect(voltage):
     """
 
     if isinstance(voltage, np.ndarray):
-        current = np.copy(voltage)
+        current = np.array(voltage, dtype=float)
         current[voltage == 1.] = 0.5
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
         return current
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif isinstance(voltage, (float, int, np.floating, np.integer)):
         if np.abs(voltage) < 1:
             return 0
         if np.abs(voltage) > 1:
@@ -74,7 +74,7 @@ def perfect_kk(voltage, max_kk=100.):
 
         return kk
 
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif isinstance(voltage, (float, int, np.floating, np.integer)):
 
         if abs(voltage) == 1.:
             return max_kk
-- 
2.43.0


From d6fcbe356843b150d2ef3e390fc59c2fbde2b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 06/27] fix: polynomial I-V curve does not overflow for integer
 arrays

---
 qmix/mathfn/ivcurve_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index e3b6915..9352215 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -96,6 +96,7 @@ def polynomial(voltage, order=50):
 
     """
 
+    voltage = 1. * voltage  # high powers of integer arrays would overflow
     current = voltage ** (2 * order + 1) / (1 + voltage ** (2 * order))
 
     return current
-- 
2.43.0


From 4c6279d4a93ce53e5b30316a4f8dbcc3d29898e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 07/27] fix: kk_trans_trapz rejects voltage steps that are too
 small as well

---
 qmix/mathfn/kktrans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/kktrans.py b/qmix/mathfn/kktrans.py
index 234bdaa..59838e0 100644
--- a/qmix/mathfn/kktrans.py
+++ b/qmix/mathfn/kktrans.py
@@ -64,7 +64,7 @@ def kk_trans_trapz(v, i):
     """
 
     # Ensure v has even spacing
-    assert ((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
+    assert np.abs((v[1] - v[0]) - (v[1:] - v[:-1])).max() < 1e-5
 
     # very crude integration
     ikk = []
-- 
2.43.0


From 0965ad28c65dfc9f7945995c25c86ecf2bce427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 08/27] fix: Gaussian window is centred on zero for any
 standard deviation

---
 qmix/mathfn/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/filters.py b/qmix/mathfn/filters.py
index 487c97d..a1b2e25 100644
--- a/qmix/mathfn/filters.py
+++ b/qmix/mathfn/filters.py
@@ -48,7 +48,7 @@ def _gauss(sigma, n_sigma=3):
 
     """
 
-    x_range = n_sigma * sigma
+    x_range = np.floor(n_sigma * sigma + 1e-5)
     x = np.arange(-x_range, x_range + 1e-5, 1, dtype=float)
 
     y = 1 / (sigma * np.sqrt(2 * np.pi)) * np.exp(-0.5 * (x / sigma)**2)
-- 
2.43.0


From ea19ea1253ffe8263803b3d33116d7207e5c172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 09/27] fix: cleaning data works when no or one sample is left

---
 qmix/exp/clean_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index 87bcbc4..ccbfe7f 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -63,7 +63,7 @@ def remove_doubles_xy(x, y, check=True):
 
     # Check to see if x is sorted
     if check:
-        assert (x[1:] - x[:-1]).min() >= 0
+        assert np.all(x[1:] >= x[:-1])
 
     # Find doubles
     mask = np.ones(len(x), dtype=bool)
@@ -161,7 +161,7 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     if check:
         # Check to see if x is sorted
-        assert (matrix[1:, 0] - matrix[:-1, 0]).min() >= 0
+        assert np.all(matrix[1:, 0] >= matrix[:-1, 0])
 
     column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
-- 
2.43.0


From b1d80ab46243bc07e85f4d4a61315885c72bf76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 10/27] fix: remove_doubles_matrix checks the order of the
 chosen column

---
 qmix/exp/clean_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index ccbfe7f..d18b9e9 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -161,7 +161,7 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     if check:
         # Check to see if x is sorted
-        assert np.all(matrix[1:, 0] >= matrix[:-1, 0])
+        assert np.all(matrix[1:, col] >= matrix[:-1, col])
 
     column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
-- 
2.43.0


From e444d2005a3a9af2294b92a4c6e397f16b751c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 11/27] fix: interpolation error check also catches curves that
 lie above the data

---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 59db44f..0b07cf2 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -773,8 +773,8 @@ def _setup_interpolation(voltage, current, current_kk, **params):
     # idx_start = (voltage + v_check_range).argmin()
     idx_check = (-v_check_range < voltage) & (voltage < v_check_range)
     err_v = voltage[idx_check]
-    err_dc = current[idx_check] - f_dc(voltage[idx_check])
-    err_kk = current_kk[idx_check] - f_kk(voltage[idx_check])
+    err_dc = np.abs(current[idx_check] - f_dc(voltage[idx_check]))
+    err_kk = np.abs(current_kk[idx_check] - f_kk(voltage[idx_check]))
 
     # # Debug
     # plt.figure()
-- 
2.43.0


From 899c866b6c68773e69519670805d1ec6455ff35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 12/27] fix: response function from I-V data goes through the
 origin

---
 qmix/respfn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 0b07cf2..15d6551 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -536,6 +536,10 @@ class RespFnFromIVData(RespFn):
         current = np.append(current, [50. + b])
         voltage = np.append(voltage, [50.])
 
+        # The I-V curve is odd, so it goes through the origin
+        current = np.append([0.], current)
+        voltage = np.append([0.], voltage)
+
         # Re-sample I-V data
         current = np.interp(VINIT, voltage, current)
         voltage = np.copy(VINIT)
-- 
2.43.0


From fa4e7348f819e152f99f8908fa9de5d07df1bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 13/27] fix: smeared perfect response function is the convolved
 perfect I-V curve

---
 qmix/respfn.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 15d6551..4392a79 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -700,15 +700,6 @@ class RespFnPerfect(RespFn):
         # Smear IV curve (optional)
         else:
 
-            tmp = np.zeros_like(voltage)
-            idx = np.abs(voltage - 1.).argmin()
-            tmp[idx] = 1.
-
-            v_step = voltage[1] - voltage[0]
-            current = gauss_conv(tmp, sigma=params['v_smear']/v_step) + iv.perfect(voltage)
-            if params['verbose']:
-                print(" - Voltage smear: {:.4f}".format(params['v_smear']))
-
             RespFn.__init__(self, voltage, current, **params)
 
     def __str__(self):
-- 
2.43.0


From 4548165da10a11190cac5967a1c30f27a174c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 14/27] fix: harmonic balance honours its output mode when all
 impedances are zero

---
 qmix/harmonic_balance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index bb4937f..a4d1281 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -86,7 +86,12 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if (zt == 0).all():
         if verbose:
             print("Done.\n")
-        return vt[:, :, None] * np.ones(npts, dtype=complex)
+        vj_out = vt[:, :, None] * np.ones(npts, dtype=complex)
+        if mode == 'x':
+            return vj_out, 0, True
+        elif mode == 'm':
+            return vj_out, np.ones(npts, dtype=bool)
+        return vj_out
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-- 
2.43.0


From 37aa4c900eeb72527babf63667566b7d156b05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 15/27] fix: harmonic balance does not modify the supplied
 initial voltage

---
 qmix/harmonic_balance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index a4d1281..95f4fd6 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -117,7 +117,8 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # voltage) will be transformed into a matrix with shape 6 x npts.
 
     # Change format of data from [f, p] to [p] (reduce by one dimension)
-    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts))
+    # (make a copy: vj_2d is updated in place below)
+    vj_2d = np.array(vj_initial[1:, 1:, :], dtype=complex).reshape((num_n, npts))
     vt_2d = vt[1:, 1:].reshape(num_n)
     zt_2d = zt[1:, 1:].reshape(num_n)
 
-- 
2.43.0


From 01ffaff8987b09413e865360cfd0324be2b64bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 16/27] fix: harmonic balance leaves the circuit's Thevenin
 voltages as they are

---
 qmix/harmonic_balance.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 95f4fd6..11fa0ae 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -95,9 +95,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-    vt[np.abs(vt) < MIN_VT] = MIN_VT
-    vt[0, :] = 0  # TODO: is this needed?
-    vt[:, 0] = 0
+    vt = _apply_min_vt(vt)
 
     # Initial guess of the junction voltage (vj) -----------------------------
 
@@ -266,9 +264,15 @@ def check_hb_error(vj_check, cct, resp, num_b=15, stop_rerror=0.001):
     # Tunnelling current for all tones/harmonics (see below)
     ij_all = _qtcurrent_all_freq(vj_check, cct, resp, num_b)
 
+    # Same Thevenin voltages as in the harmonic balance procedure (unless no
+    # harmonic balance is required)
+    vt = cct.vt
+    if not (cct.zt == 0).all():
+        vt = _apply_min_vt(vt)
+
     for f in range(1, cct.num_f + 1):
         for p in range(1, cct.num_p + 1):
-            error_fp = cct.vt[f, p] - \
+            error_fp = vt[f, p] - \
                        cct.zt[f, p] * ij_all[f, p, :] - \
                        vj_check[f, p, :]
             max_rel_error = np.max(np.abs(error_fp) /
@@ -407,6 +411,27 @@ def _qt_current_for_hb(vj_2d, cct, resp, num_b, resp_matrix=None):
 
 # General helper functions --------------------------------------------------
 
+def _apply_min_vt(vt):
+    """Get a copy of the Thevenin voltages without any zero values.
+
+    The circuit's own Thevenin voltages are left as they are.
+
+    Args:
+        vt (ndarray): Thevenin voltages of the embedding circuit
+
+    Returns:
+        ndarray: Thevenin voltages, all at least ``MIN_VT`` in magnitude
+
+    """
+
+    vt = np.array(vt, dtype=complex)
+    vt[np.abs(vt) < MIN_VT] = MIN_VT
+    vt[0, :] = 0
+    vt[:, 0] = 0
+
+    return vt
+
+
 def _k_to_fp(k, num_p):
     """ Given the index 'k' (i.e., the 1-d index), find the equivalent index
     in '[f,p]' (i.e., the 2-d index). """
-- 
2.43.0


From 1bb820d2b0dd0dc7fe525e60e172407c1d971d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 17/27] fix: series resistance is removed as V - I*Rs for every
 sample of the I-V curve

---
 qmix/exp/iv_data.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index ac0b56e..1dbcc9f 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -713,12 +713,6 @@ def _correct_series_resistance(vmeas, imeas, **kw):
     if rseries is None:
         return vmeas, imeas
 
-    rstatic = vmeas / imeas
-    rstatic[rstatic < 0] = 0.
-    mask = np.invert(np.isnan(rstatic))
-    rj = rstatic - rseries
-    v0 = imeas[mask] * rj[mask]
+    v0 = vmeas - imeas * rseries
 
-    idc = imeas.copy()[mask]
-
-    return v0, idc
+    return v0, imeas.copy()
-- 
2.43.0


From f86e4c07115a873ff02d37703f59bcfca1c4fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 18/27] fix: series resistance of IF data is removed as V -
 I*Rs at every bias point

---
 qmix/exp/if_data.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 2488ebf..8324ea6 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -416,12 +416,8 @@ def _load_if(ifdata, dc, **kwargs):
     # Correct for series resistance
     if rseries is not None:
         v = ifdata[:, 0]
-        rstatic = dc.vraw / dc.iraw
-        rstatic[rstatic < 0] = 0.
-        rstatic = np.interp(v, dc.vraw, rstatic)
         iraw = np.interp(v, dc.vraw, dc.iraw)
-        rj = rstatic - rseries
-        v0 = iraw * rj
+        v0 = v - iraw * rseries
         ifdata[:, 0] = v0
 
     # Normalize voltage to gap voltage
-- 
2.43.0


From 43a20a8b6df17da2fbfc25c7eb60ea43b5850260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 19/27] fix: known voltage and current offsets are used as they
 are

---
 qmix/exp/iv_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 1dbcc9f..666d934 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -521,6 +521,12 @@ def _correct_offset(volt_v, curr_a, **kw):
     if isinstance(voffset_range, float) or isinstance(voffset_range, int):
         voffset_range = [-voffset_range, voffset_range]
 
+    # If both offsets are known, there is nothing to find
+    if voffset is not None and ioffset is not None:
+        volt_v -= voffset
+        curr_a -= ioffset
+        return volt_v, curr_a, (voffset, ioffset)
+
     # See if data is unipolar or bipolar
     # i.e., does the bias voltage sweep from negative to positive values?
     bipolar = (volt_v.min() < voffset_range[0]) & (voffset_range[1] < volt_v.max())
-- 
2.43.0


From 70ad6ce47346771aed2d4634b39cd0bccd320383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 20/27] fix: impedance recovery falls back to the default fit
 range when none is given

---
 qmix/exp/exp_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 00f21c0..e08cfe2 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -711,10 +711,12 @@ class PumpedData(object):
             fit_high = fit_range[1]
         else:
             fit_low  = self.kwargs.get('cut_low', None)
-            fit_high = 1 - self.kwargs.get('cut_high', None)
-            if fit_low is None or fit_high is None:
+            cut_high = self.kwargs.get('cut_high', None)
+            if fit_low is None or cut_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
+            else:
+                fit_high = 1 - cut_high
         fit_high = 1 - fit_high
 
         # Range of impedance values to test
-- 
2.43.0


From 3bfb7008020834c75a55acbb69fddeef6e425002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 21/27] fix: leakage current marker is drawn at the leakage
 voltage

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index e08cfe2..d14128b 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -304,7 +304,7 @@ class DCData(object):
                 marker='o', ls='None', color='r', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str3)
         # Label leakage current
-        ax.plot(2, i_leak * ua,
+        ax.plot(self.vleak * 1e3, i_leak * ua,
                 marker='o', ls='None', color='g', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str4)
         # Fit line to normal resistance slope
-- 
2.43.0


From 605a88f805bd2cc4f10a1a9fbd3eff006158cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:48 +0000
Subject: [PATCH 22/27] fix: simulated I-V plot marks the fit interval used by
 the impedance recovery

---
 qmix/exp/exp_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index d14128b..e78d1e6 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1321,10 +1321,12 @@ class PumpedData(object):
             fit_high = fit_range[1]
         else:
             fit_low  = self.kwargs.get('cut_low', None)
-            fit_high = self.kwargs.get('cut_high', None)
-            if fit_low is None or fit_high is None:
+            cut_high = self.kwargs.get('cut_high', None)
+            if fit_low is None or cut_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
+            else:
+                fit_high = 1 - cut_high
         fit_high = 1 - fit_high
         v_min = (1 - vph + vph * fit_low) * self.vgap * 1e3
         v_max = (1 - vph * fit_high) * self.vgap * 1e3
-- 
2.43.0


From 80792615df3e43fedc9251ca6b519052dadedf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:53 +0000
Subject: [PATCH 23/27] fix: plot_overall_results failed for fewer than four or
 unsorted data sets

---
 qmix/exp/exp_data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index e78d1e6..5cfd4f6 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1698,9 +1698,14 @@ def plot_overall_results(dciv, data_list, fig_folder, vmax_plot=4.,
 
     fig, ax = plt.subplots(figsize=figsize)
     freq_t = np.linspace(np.min(freq), np.max(freq), 1001)
-    sp_1 = UnivariateSpline(freq, t_n)
     ax.plot(freq, t_n, 'o', color=_blue)
-    ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
+    if len(freq) > 1:
+        # The spline requires increasing frequencies and more points than its
+        # degree
+        idx = np.argsort(freq)
+        sp_1 = UnivariateSpline(np.array(freq)[idx], t_n[idx],
+                                k=min(3, len(freq) - 1))
+        ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
     ax.set_xlabel('Frequency (GHz)')
     ax.set_ylabel('Noise Temperature (K)')
     if f_range is not None:
-- 
2.43.0


From 220edd218ae1c0ceef4670b05eb77452a8502b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:11 +0000
Subject: [PATCH 24/27] fix: plot_if_spectrum reads the IF response files
 before analysing them

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 5cfd4f6..9c7399a 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1480,7 +1480,7 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
         print(" - {}".format(filename))
         base = filename.split('_')[0][1:]
 
-        freq, t_n, p_hot_db, p_cold_db = if_response(if_file)
+        freq, t_n, p_hot_db, p_cold_db = if_response(np.genfromtxt(if_file))
 
         fig2, ax2 = plt.subplots(figsize=figsize)
         ax2.plot(freq, t_n)
-- 
2.43.0


From b265ec90df2ec31b2cda36f398d8932bb7504485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:11 +0000
Subject: [PATCH 25/27] fix: plot_if_spectrum works without a figure folder

---
 qmix/exp/exp_data.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 9c7399a..5d34da6 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1503,20 +1503,22 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
     ax1.set_ylim([0, 500])
     ax1.set_xlim([0, 20])
     ax1.legend()
-    fig1.savefig(os.path.join(fig_folder, 'if_spectra.png'), **_plot_params)
-    ax1.set_ylim([0, 2000])
-    fig1.savefig(os.path.join(fig_folder, 'if_spectra2.png'), **_plot_params)
+    if fig_folder is not None:
+        fig1.savefig(os.path.join(fig_folder, 'if_spectra.png'), **_plot_params)
+        ax1.set_ylim([0, 2000])
+        fig1.savefig(os.path.join(fig_folder, 'if_spectra2.png'), **_plot_params)
 
     ax2.set_ylabel('Noise Temperature (K)')
     ax2.set_xlabel('Frequency (GHz)')
     ax2.set_ylim([0, 500])
     ax2.set_xlim([0, 20])
     ax2.legend()
-    fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth.png'),
-                 **_plot_params)
-    ax2.set_ylim([0, 2000])
-    fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth2.png'),
-                 **_plot_params)
+    if fig_folder is not None:
+        fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth.png'),
+                     **_plot_params)
+        ax2.set_ylim([0, 2000])
+        fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth2.png'),
+                     **_plot_params)
 
     print("")
 
-- 
2.43.0


From 90ead40dcf54766bfe386a27a726d50b23bacd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:11 +0000
Subject: [PATCH 26/27] fix: initialize_dir creates the sub-folders inside the
 figure folder

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 5d34da6..43d38d1 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1959,7 +1959,8 @@ def initialize_dir(fig_folder):  # pragma: no cover
     folder_list += list(_file_structure.values())
 
     for folder in folder_list:
-        if not os.path.exists(fig_folder + folder):
-            os.makedirs(fig_folder + folder)
+        path = os.path.join(fig_folder, folder)
+        if not os.path.exists(path):
+            os.makedirs(path)
             print('   - Created: ' + folder)
     print(" ")
-- 
2.43.0


From f890bf1f2e6601f916d811968beb4df0128c3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:30 +0000
Subject: [PATCH 27/27] fix: printc does not print the sign of the imaginary
 part twice

---
 qmix/misc/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/misc/terminal.py b/qmix/misc/terminal.py
index d1ab427..f0f82a1 100644
--- a/qmix/misc/terminal.py
+++ b/qmix/misc/terminal.py
@@ -195,4 +195,4 @@ def printc(complex_number):  # pragma: no cover
         sign = '-'
 
     return str("{:+6.2f} {} j{:5.2f}".format(complex_number.real, sign,
-                                             complex_number.imag))
+                                             abs(complex_number.imag)))
-- 
2.43.0

