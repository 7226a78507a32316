From c3751f63ca1446417cb3eac89f19f60fb38aa517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 01/42] fix: undbm accepts the array_like levels it documents

---
 src/pydsm/delsig/_decibel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index b05a1ce..1c98563 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -182,4 +182,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((x-30)/10.))
+    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
-- 
2.43.0


From 63c52f7b3c63c628a26d88b94e3145da508e58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 02/42] fix: A-weighting filter uses the 737.9 Hz pole of the
 standard and of the curve

---
 src/pydsm/audio_weightings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index e09be2f..99f775b 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -111,7 +111,7 @@ __all__ = ["a_zpk", "a_weighting", "b_zpk", "b_weighting",
            "f_zpk", "f_weighting"]
 
 a_zpk = (2*np.pi*np.asarray([0., 0., 0., 0.]),
-         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -739.9, -12200., -12200.]),
+         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -737.9, -12200., -12200.]),
          (2*np.pi*12200.)**2)
 """A-weighting filter in zpk form."""
 
-- 
2.43.0


From b3a3fed2a6ae5b45fdd5aa23a1712baf987155d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 03/42] fix: loudness level of a tone follows ISO 226 sect 4.2

---
 src/pydsm/iso226.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index cc47a65..f0ff8a3 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -269,8 +269,8 @@ def tabled_B_f(L_p, hfe=False):
     reference pressure level P0 (close to the hearing threshold at 1 kHz and
     set to 20 uPa RMS).
     """
-    B_f = ((0.4*10**(L_p+tbl_L_U)/10.-9.)**tbl_alpha_f -
-           (0.4*10**(tbl_T_f+tbl_L_U)/10.-9.)**tbl_alpha_f +
+    B_f = ((0.4*10.0**((L_p+tbl_L_U)/10.0-9.0))**tbl_alpha_f -
+           (0.4*10.0**((tbl_T_f+tbl_L_U)/10.0-9.0))**tbl_alpha_f +
            0.005135)
     return np.append(B_f, B_f[0]) if hfe else B_f
 
-- 
2.43.0


From f108c993d3a2d386691f7d0466f5bb1782cb9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 04/42] fix: ISO 226 tables are returned as private copies

---
 src/pydsm/iso226.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index f0ff8a3..798acdf 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -129,7 +129,7 @@ def tabled_f(hfe=False):
     f : array of floats
         the frequency table.
     """
-    return np.append(tbl_f, 20E3) if hfe else tbl_f
+    return np.append(tbl_f, 20E3) if hfe else tbl_f.copy()
 
 
 def tabled_alpha_f(hfe=False):
@@ -146,7 +146,7 @@ def tabled_alpha_f(hfe=False):
     alpha_f : array of floats
         the exponents table.
     """
-    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f
+    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f.copy()
 
 
 def tabled_L_U(hfe=False):
@@ -168,7 +168,7 @@ def tabled_L_U(hfe=False):
     The returned values are the magnitude of the linear transfer function
     normalized at 1 kHz.
     """
-    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U
+    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U.copy()
 
 
 def tabled_T_f(hfe=False):
@@ -185,7 +185,7 @@ def tabled_T_f(hfe=False):
     T_f : array of floats
         the thresholds table.
     """
-    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f
+    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f.copy()
 
 
 # Check that it works fine when L_N is array
-- 
2.43.0


From fc7f0b3531fafdfd48ee7b0e9b85a4a85a90e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 05/42] fix: dtft places x[0] at time t0, not at -t0

---
 src/pydsm/ft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 23a6f08..59639ad 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -111,7 +111,7 @@ def dtft(x, fs=1, t0=0):
         the time when x[0] is sampled (defaults to 0). This is expressed
         in sample intervals.
     """
-    return lambda f: np.sum(x*np.exp(-2j*np.pi*f/fs*(np.arange(len(x))-t0)))
+    return lambda f: np.sum(x*np.exp(-2j*np.pi*f/fs*(np.arange(len(x))+t0)))
 
 
 def dtft_hermitian(x, fs=1):
-- 
2.43.0


From cf5d976d5692e326b859c65de9e3d0986651a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 06/42] fix: dtft_hermitian accounts for the imaginary part and
 accepts array_like

---
 src/pydsm/ft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 59639ad..7df88a6 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -138,9 +138,10 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = x.real
+    x = np.asarray(x)
+    n = np.arange(1, len(x))
     return lambda f: \
-        x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
+        x[0].real+2*np.sum(np.real(x[1:]*np.exp(-2j*np.pi*f/fs*n)))
 
 
 def _idtft(Ff, t, fs=1, **quad_opts):
-- 
2.43.0


From e7f8bf4fc7fb58c74f2625acde0cb45e7b249cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 07/42] fix: idtft_hermitian accounts for the imaginary part of
 its argument

---
 src/pydsm/ft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 7df88a6..ab9fdd0 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -198,8 +198,9 @@ idtft.default_options = {"quad_opts": {"epsabs": 1E-12,
 
 
 def _idtft_hermitian(Ff, t, fs=1, **quad_opts):
-    return 2*sp.integrate.quad(lambda f: np.real(Ff(f*fs))*np.cos(2*np.pi*f*t),
-                               0, 0.5, **quad_opts)[0]
+    return 2*sp.integrate.quad(
+        lambda f: np.real(Ff(f*fs)*np.exp(2j*np.pi*f*t)),
+        0, 0.5, **quad_opts)[0]
 
 
 def idtft_hermitian(Ff, tt, fs=1, **options):
-- 
2.43.0


From c6178ab4d1b32a293d46b183c924416694f4a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 08/42] fix: fft_centered documents its results in the order it
 returns them

---
 src/pydsm/ft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index ab9fdd0..dd147c0 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -65,10 +65,10 @@ def fft_centered(x, fs=1):
 
     Returns
     -------
-    X : ndarray
-        samples of the DFT of the input vector
     ff : ndarray
         vector of frequencies corresponding to the samples in X
+    X : ndarray
+        samples of the DFT of the input vector
 
     Other Parameters
     ----------------
-- 
2.43.0


From 32007ebc190ceb9aa81ef2c6a614111846a8c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 09/42] fix: raw_xcorr shifts y with respect to x as
 documented, not x to y

---
 src/pydsm/correlations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index 26b1e6b..db9f88e 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -103,11 +103,11 @@ def raw_xcorr(x, y, N):
     Notes
     -----
     the routine does not make any check on the lengths of x, y and N. It
-    is responsibility of the user to assure that N<=len(y). In some cases
+    is responsibility of the user to assure that N<=len(x). In some cases
     (but only in some cases), zero padding is assumed.
     """
     mx = len(x)
     my = len(y)
-    q = np.asarray([np.dot(y[k:min(my, mx+k)],
-                           x[0:min(my-k, mx)]) for k in range(N+1)])
+    q = np.asarray([np.dot(x[k:min(mx, my+k)],
+                           y[0:min(mx-k, my)]) for k in range(N+1)])
     return q
-- 
2.43.0


From b16ebd7848016be84e7cc89e730a6a46c3862dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 10/42] fix: idtft_hermitian takes its defaults from its own
 table

---
 src/pydsm/ft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index dd147c0..3ef77b9 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -41,6 +41,7 @@ Functions
 
 from __future__ import division, print_function
 
+import copy
 import numpy as np
 import scipy as sp
 __import__("scipy.fftpack")
@@ -241,7 +242,8 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         For the meaning of the integrator parameters.
     """
     # Manage optional parameters
-    opts = digested_options(options, idtft.default_options, [], ['quad_opts'])
+    opts = digested_options(options, idtft_hermitian.default_options,
+                            [], ['quad_opts'])
     # Do the computation
     if np.isscalar(tt):
         return _idtft_hermitian(Ff, tt, fs, **opts['quad_opts'])
@@ -249,4 +251,4 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         return np.asarray([_idtft_hermitian(Ff, t, fs, **opts['quad_opts'])
                            for t in tt])
 
-idtft_hermitian.default_options = idtft.default_options.copy()
+idtft_hermitian.default_options = copy.deepcopy(idtft.default_options)
-- 
2.43.0


From 06bbc6258d8a154d69d6ca1b680b821ddf26b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 11/42] fix: published option tables do not share their nested
 dictionaries

---
 src/pydsm/NTFdesign/filter_based.py             |  9 +++++----
 src/pydsm/NTFdesign/psychoacoustic.py           |  3 ++-
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 10 +++++++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 11a969c..6cab783 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -52,6 +52,7 @@ from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
                      q0_from_filter_ir)
 from .weighting import q0_weighting, ntf_fir_from_q0
+import copy
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
 from ..utilities import digested_options
@@ -131,7 +132,7 @@ def quantization_noise_gain(NTF, H, H_type='zpk', **options):
     return _quantization_noise_gain(NTF, w, **opts)
 
 quantization_noise_gain.default_options = \
-    _quantization_noise_gain.default_options.copy()
+    copy.deepcopy(_quantization_noise_gain.default_options)
 
 
 def quantization_noise_gain_by_conv(NTF, H, H_type='zpk', db=80):
@@ -213,7 +214,7 @@ def q0_from_filter(P, H, H_type='zpk', **options):
         raise ValueError("Incorrect filter type specification")
     return q0
 
-q0_from_filter.default_options = q0_weighting.default_options.copy()
+q0_from_filter.default_options = copy.deepcopy(q0_weighting.default_options)
 
 
 def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
@@ -301,6 +302,6 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
 synthesize_ntf_from_filter.default_options = \
-    q0_from_filter.default_options.copy()
+    copy.deepcopy(q0_from_filter.default_options)
 synthesize_ntf_from_filter.default_options.update(
-    ntf_fir_from_q0.default_options)
+    copy.deepcopy(ntf_fir_from_q0.default_options))
diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 0f4ae5a..1a257e5 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -52,6 +52,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+import copy
 import numpy as np
 from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
@@ -293,7 +294,7 @@ def ntf_fir_audio_weighting(
     return ntf_fir_weighting(order, w, H_inf, normalize, **options)
 
 ntf_fir_audio_weighting.default_options = \
-    ntf_fir_weighting.default_options.copy()
+    copy.deepcopy(ntf_fir_weighting.default_options)
 
 
 # Following part is deprecated
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 700986b..30cbfb6 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -35,6 +35,7 @@ The optimization is practiced in two steps:
 
 from __future__ import division, print_function
 
+import copy
 import numpy as np
 from ...ft import idtft_hermitian
 from ...delsig import evalTF, padr
@@ -442,8 +443,10 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
-ntf_fir_weighting.default_options = q0_weighting.default_options.copy()
-ntf_fir_weighting.default_options.update(ntf_fir_from_q0.default_options)
+ntf_fir_weighting.default_options = copy.deepcopy(
+    q0_weighting.default_options)
+ntf_fir_weighting.default_options.update(
+    copy.deepcopy(ntf_fir_from_q0.default_options))
 
 
 def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
@@ -648,7 +651,8 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                      'use_indirect': False},
                                         'show_progress': True,
                                         'fix_pos': True}
-ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
+ntf_hybrid_weighting.default_options.update(
+    copy.deepcopy(q0_weighting.default_options))
 
 
 # Following part is deprecated
-- 
2.43.0


From f78cc66ead027ca80bd8e9bcca4189c89cb7ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 12/42] fix: ntf_hybrid_weighting takes its defaults from its
 own table

---
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 30cbfb6..a5a8de3 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -576,17 +576,17 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
                 'picos_opts': {}}
     if opts2['modeler'] == 'cvxpy':
         opts2.update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxpy_opts'], False))
         if opts2['cvxpy_opts']['solver'] == 'cvxopt':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts2['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
         elif opts2['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
         opts2['cvxpy_opts'].pop('override_kktsolver')
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
@@ -594,13 +594,13 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'cvxpy_old':
         dig_opts['cvxpy_tdr_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_cvxpy_tdr import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'picos':
         dig_opts['picos_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_picos import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
-- 
2.43.0


From 8c14f97d7f16bf6e051fa814418ad1731c613768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 13/42] fix: ntf_fir_audio_weighting takes its defaults from
 its own table

---
 src/pydsm/NTFdesign/psychoacoustic.py         |  6 +-
 .../NTFdesign/weighting/_fir_weighting.py     | 57 +++++++++++--------
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 1a257e5..edd15d8 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -58,6 +58,7 @@ from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
+from .weighting._fir_weighting import _digested_fir_options
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
 
@@ -291,7 +292,10 @@ def ntf_fir_audio_weighting(
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
 
-    return ntf_fir_weighting(order, w, H_inf, normalize, **options)
+    opts1, opts2 = _digested_fir_options(
+        options, ntf_fir_audio_weighting.default_options)
+    opts2.update(opts1)
+    return ntf_fir_weighting(order, w, H_inf, normalize, **opts2)
 
 ntf_fir_audio_weighting.default_options = \
     copy.deepcopy(ntf_fir_weighting.default_options)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index a5a8de3..877f12a 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -298,6 +298,36 @@ ntf_fir_from_q0.default_options = {"modeler": "cvxpy_old",
                                    'fix_pos': True}
 
 
+def _digested_fir_options(options, defaults):
+    """Separate the options for `q0_weighting` and for `ntf_fir_from_q0`."""
+    opts1 = digested_options(options, defaults,
+                             [], ['quad_opts'], False)
+    opts2 = digested_options(
+        options, defaults,
+        ['show_progress', 'fix_pos', 'modeler'], [], False)
+    if opts2['modeler'] == 'cvxpy':
+        opts2.update(digested_options(
+            options, defaults,
+            [], ['cvxpy_opts'], False))
+        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
+            opts2.update(digested_options(
+                options, defaults,
+                [], ['cvxopt_opts'], False))
+        elif opts2['cvxpy_opts']['solver'] == 'scs':
+            opts2.update(digested_options(
+                options, defaults,
+                [], ['scs_opts'], False))
+    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
+        opts2.update(digested_options(
+            options, defaults,
+            [], ['cvxopt_opts'], False))
+    else:
+        raise ValueError('Unsupported modeling backend {}'.format(
+            opts2['modeler']))
+    digested_options(options, {})
+    return opts1, opts2
+
+
 def ntf_fir_weighting(order, w, H_inf=1.5,
                       normalize="auto", **options):
     u"""Synthesize FIR NTF based on a noise weighting function or a filter.
@@ -414,31 +444,8 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     scipy.integrate.quad : for the meaning of the integrator parameters
     """
     # Manage optional parameters
-    opts1 = digested_options(options, ntf_fir_weighting.default_options,
-                             [], ['quad_opts'], False)
-    opts2 = digested_options(
-        options, ntf_fir_weighting.default_options,
-        ['show_progress', 'fix_pos', 'modeler'], [], False)
-    if opts2['modeler'] == 'cvxpy':
-        opts2.update(digested_options(
-            options, ntf_fir_weighting.default_options,
-            [], ['cvxpy_opts'], False))
-        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-        elif opts2['cvxpy_opts']['solver'] == 'scs':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['scs_opts'], False))
-    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-    else:
-        raise ValueError('Unsupported modeling backend {}'.format(
-            opts2['modeler']))
-    digested_options(options, {})
+    opts1, opts2 = _digested_fir_options(
+        options, ntf_fir_weighting.default_options)
     # Do the computation
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
-- 
2.43.0


From 064666276064e56969cd49213d0a4cc3e35a543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 14/42] fix: synthesize_ntf_from_filter accepts and merges the
 options of its table

---
 src/pydsm/NTFdesign/filter_based.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 6cab783..cd2cce3 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -52,6 +52,7 @@ from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
                      q0_from_filter_ir)
 from .weighting import q0_weighting, ntf_fir_from_q0
+from .weighting._fir_weighting import _digested_fir_options
 import copy
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
@@ -291,12 +292,8 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     """
     warn("Function meant for removal", PyDsmDeprecationWarning)
     # Manage optional parameters
-    opts1 = digested_options(options,
-                             synthesize_ntf_from_filter.default_options,
-                             ['quad_opts'], [], False)
-    opts2 = digested_options(options,
-                             synthesize_ntf_from_filter.default_options,
-                             ['show_progress'], ['cvxopt_opts'])
+    opts1, opts2 = _digested_fir_options(
+        options, synthesize_ntf_from_filter.default_options)
     # Do the computation
     q0 = q0_from_filter(order, H, H_type, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
-- 
2.43.0


From 2f2b8c179609a392920a7b090aab11c38b0f6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 15/42] fix: feastol reaches cvxopt with the picos modeler too

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py       | 2 ++
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 754cdf3..7fe39be 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -69,6 +69,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     del opts['picos_opts']['abstol']
     opts['picos_opts']['rel_ipm_opt_tol']=opts['picos_opts']['reltol']
     del opts['picos_opts']['reltol']
+    opts['picos_opts']['rel_prim_fsb_tol'] = opts['picos_opts']['feastol']
+    opts['picos_opts']['rel_dual_fsb_tol'] = opts['picos_opts']['feastol']
     del opts['picos_opts']['feastol']
 
     # State space representation of NTF
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 229ad75..e441fde 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -37,6 +37,8 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     del opts['picos_opts']['abstol']
     opts['picos_opts']['rel_ipm_opt_tol']=opts['picos_opts']['reltol']
     del opts['picos_opts']['reltol']
+    opts['picos_opts']['rel_prim_fsb_tol'] = opts['picos_opts']['feastol']
+    opts['picos_opts']['rel_dual_fsb_tol'] = opts['picos_opts']['feastol']
     del opts['picos_opts']['feastol']
     # Do the computation
     order = int(np.size(Qs, 0)-1)
-- 
2.43.0


From d4ed83a56cb5266e54de259241332bebd15857f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 16/42] fix: Dunn's optimal zeros for order 7 are seven

---
 src/pydsm/NTFdesign/psychoacoustic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index edd15d8..428de5d 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -108,7 +108,7 @@ def dunn_optzeros(n):
                          [3.590, -3.590, 11.954, -11.954],
                          [0.0, 4.308, -4.308, 12.959, -12.959],
                          [3.325, -3.325, 7.078, -7.078, 13.389, -13.389],
-                         [0.0, 0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
+                         [0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-- 
2.43.0


From ce83f5fe8448a0c63dc7b3ff76043f0f291488dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 17/42] fix: dunn_optzeros refuses orders below 1

---
 src/pydsm/NTFdesign/psychoacoustic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 428de5d..6a09217 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -112,8 +112,8 @@ def dunn_optzeros(n):
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-    if n > 8:
-        raise ValueError('Optimized zeros for n>14 are not available.')
+    if n < 1 or n > 8:
+        raise ValueError('Optimized zeros for n<1 or n>8 are not available.')
     return np.asarray(zero_freqs_unnorm[n-1])/22.05
 
 
-- 
2.43.0


From 7afff7ae205ff736fbe3b28c5a408f1832563872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 18/42] fix: ntf_fir_audio_weighting refuses unknown weightings

---
 src/pydsm/NTFdesign/psychoacoustic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 6a09217..baf63bc 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -285,6 +285,9 @@ def ntf_fir_audio_weighting(
             audio_weighting = audio_weightings.c_weighting
         elif audio_weighting == 'd':
             audio_weighting = audio_weightings.d_weighting
+        else:
+            raise ValueError('Unknown audio weighting {}'.format(
+                audio_weighting))
 
     def w(f):
         ma = undbp(-max_attn)
-- 
2.43.0


From c6a5fc3435ca182b9c715f28314d8a007e15dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 19/42] fix: ntf_dunn does not use a deprecated name

---
 src/pydsm/NTFdesign/psychoacoustic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index baf63bc..533602e 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -54,7 +54,7 @@ from __future__ import division, print_function
 
 import copy
 import numpy as np
-from .delsig import synthesizeNTF
+from .delsig import ntf_schreier
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
@@ -191,7 +191,7 @@ def ntf_dunn(order=3, osr=64, H_inf=1.5):
     --------
     pydsm.delsig.synthesizeNTF : DELSIG's optimal NTF design strategy.
     """
-    return synthesizeNTF(order, osr, dunn_optzeros_cplx(order, osr), H_inf, 0)
+    return ntf_schreier(order, osr, dunn_optzeros_cplx(order, osr), H_inf, 0)
 
 
 def ntf_fir_audio_weighting(
-- 
2.43.0


From cf327ea0bcee259a92d581ad47b6e985245a280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 20/42] fix: optimized zeros for order 10 are ten

---
 src/pydsm/delsig/_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_ds.py b/src/pydsm/delsig/_ds.py
index 5158045..adb4d98 100644
--- a/src/pydsm/delsig/_ds.py
+++ b/src/pydsm/delsig/_ds.py
@@ -188,8 +188,8 @@ def ds_optzeros(n, opt=1):
                                    0.9681602])
         elif n == 10:
             if opt == 1:
-                optZeros = np.asarray([0.1834370913, 0.5255334458,
-                                       0.7966668433, 0.9602899327])
+                optZeros = np.asarray([0.14887434, 0.43339539, 0.67940957,
+                                       0.86506337, 0.97390653])
             else:
                 optZeros = np.asarray([0, 0.41572267, 0.67208682, 0.86238894,
                                        0.97342121])
-- 
2.43.0


From 9aa4b30df8039ad49b3d79158e5ac9d401d03796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 21/42] fix: cplxpair works on integer data with current numpy

---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index d24c8d5..1d9297e 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -300,5 +300,5 @@ def cplxpair(x, tol=None, dim=None):
         try:
             tol = 100*eps(x.dtype)
         except:
-            tol = 100*eps(np.float)
+            tol = 100*eps(float)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From f9937d1add35e3c9d0dbf2428cd487c687ca68d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 22/42] fix: deprecated cplxpair takes the arguments and
 defaults of its replacement

---
 src/pydsm/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/utilities.py b/src/pydsm/utilities.py
index ac58304..764b5fc 100644
--- a/src/pydsm/utilities.py
+++ b/src/pydsm/utilities.py
@@ -208,7 +208,7 @@ def db(x, signal_type='voltage', R=1):
     return relab.db(x, signal_type, R)
 
 
-def cplxpair(x, tol=100*EPS):
+def cplxpair(x, tol=None, dim=None):
     """
     Alias for :func:`pydsm.relab.cplxpair`.
 
@@ -217,4 +217,4 @@ def cplxpair(x, tol=100*EPS):
     """
     warn('Function cplxpair moved to relab module',
          PyDsmDeprecationWarning)
-    return relab.cplxpair(x, tol)
+    return relab.cplxpair(x, tol, dim)
-- 
2.43.0


From 89c5529e81e0150c4e86dff6e1ed3ce5fd49347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 23/42] fix: guess_ir_length restores the error state on
 exceptions too

---
 src/pydsm/ir.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/ir.py b/src/pydsm/ir.py
index baf314f..6522662 100644
--- a/src/pydsm/ir.py
+++ b/src/pydsm/ir.py
@@ -131,9 +131,8 @@ def guess_ir_length(h, db=80):
         # one to the other or overlapping.
         # Furthermore, this code should not be called if there is
         # a pole in z=1.
-        os = np.seterr(divide='ignore')
-        sr = np.log(np.abs(pp))
-        np.seterr(**os)
+        with np.errstate(divide='ignore'):
+            sr = np.log(np.abs(pp))
         # Take slowlest pole
         wmin = np.min(np.abs(sr))
         # 1/omega min is time constant in sample periods.
-- 
2.43.0


From d8fc8fe2e4598bec26584248c0f24227dad825fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 24/42] fix: synthesizeChebyshevNTF works for bandpass
 modulators

---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 3a63fc8..4dd77df 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -110,7 +110,6 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         raise ValueError('Order must be even for a bandpass modulator.')
     else:
         f1, f2 = ds_f1f2(osr, f0)
-        f1f2 = (f1, f2)
 
     # Iteratively solve for the attenuation spec (x) which yields the
     # desired H_inf
@@ -144,7 +143,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         if f0 == 0:
             z, p, k = cheby2(order, x, 1./osr, 'high', output='zpk')
         else:
-            z, p, k = cheby2(order/2, x, 2*f1f2, 'stop',
+            z, p, k = cheby2(order//2, x, (2*f1, 2*f2), 'stop',
                              output='zpk')
         f = 1./k - H_inf
         # print (x, f)
-- 
2.43.0


From 9b86914dcd1cc40fe6d544c2f850baa71f76270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 25/42] fix: bandpass NTFs with user-supplied zeros get as many
 poles as the order

---
 src/pydsm/delsig/_synthesizeNTF0.py | 2 ++
 src/pydsm/delsig/_synthesizeNTF1.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index e669f12..f4b6e6b 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -85,6 +85,8 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
             z = np.vstack((z, -z)).transpose().flatten()
         z = np.exp(1j*z)
     else:
+        if f0 != 0:
+            order = order*2
         z = opt
 
     p = np.zeros(order)
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index de713fd..c4af692 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -88,6 +88,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
             z = np.vstack((z, -z)).transpose().flatten()
         z = np.exp(1j*z)
     else:
+        if f0 != 0:
+            order = order*2
         z = opt
 
     zp = z[np.angle(z) > 0]
-- 
2.43.0


From 36e0f26fc5b0db141cdfe5600a65dbe91055ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 26/42] fix: evalTF refuses malformed transfer functions with
 ValueError

---
 src/pydsm/delsig/_tf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pydsm/delsig/_tf.py b/src/pydsm/delsig/_tf.py
index bfea06c..aef3124 100644
--- a/src/pydsm/delsig/_tf.py
+++ b/src/pydsm/delsig/_tf.py
@@ -93,6 +93,8 @@ def evalTF(tf, x):
         retval = np.asarray(evalRPoly(tf[0], x, tf[2]))/evalRPoly(tf[1], x, 1)
     elif len(tf) == 2:
         retval = np.asarray(np.polyval(tf[0], x))/np.polyval(tf[1], x)
+    else:
+        raise ValueError('Transfer function must be in zpk or ba form')
     if retval.size == 1:
         return retval.item()
     return retval
-- 
2.43.0


From 5cfb3b04a6212fe4acc2e5fe05d653aa8074eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 27/42] fix: sparse matrices of the bundled modeller can be
 created and combined

---
 src/pydsm/cvxpy_tdr/arrays.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 04e6dfd..f57dcd8 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -680,7 +680,6 @@ class cvxpy_spmatrix(sp.lil_matrix):
 
         # Call parent constructor
         sp.lil_matrix.__init__(self,arg,dtype=dtype)
-        self.format = sp.lil_matrix.__name__[:3]
 
     # Method: _create_col_based_rep
     def _create_col_based_rep(self):
@@ -725,7 +724,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__radd__(self,other)
+            return sp.lil_matrix.__radd__(self,other)
 
     # Method: __sub__
     def __sub__(self,other):
@@ -734,7 +733,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__sub__(self,other)
+            return sp.lil_matrix.__sub__(self,other)
 
     # Method: __rsub__
     def __rsub__(self,other):
@@ -743,7 +742,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rsub__(self,other)
+            return sp.lil_matrix.__rsub__(self,other)
 
     # Method: __mul__
     def __mul__(self,other):
@@ -752,7 +751,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__mul__(self,other)
+            return sp.lil_matrix.__mul__(self,other)
 
     # Method: __rmul__
     def __rmul__(self,other):
@@ -761,7 +760,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rmul__(self,other)
+            return sp.lil_matrix.__rmul__(self,other)
 
 #***********************************************************************#
 # Class definition: cvxpy_sparray                                       #
-- 
2.43.0


From 19c73dd885f87930af1de4da6eec6cfe983a7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 28/42] fix: subtracting an array from a sparse matrix negates
 every entry of the array

---
 src/pydsm/cvxpy_tdr/arrays.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index f57dcd8..d0c497a 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -286,7 +286,10 @@ class cvxpy_array(object):
             else:
                 for i in range(0,m):
                     for j in range(0,n):
-                        new_ar.data[i][j] = self.data[i][j]
+                        if action == RIGHT_SUBTRACT:
+                            new_ar.data[i][j] = -self.data[i][j]
+                        else:
+                            new_ar.data[i][j] = self.data[i][j]
                 for i in range(0,m,1):
                     rowi_indeces = other.rows[i]
                     rowi_values = other.data[i]
@@ -297,10 +300,8 @@ class cvxpy_array(object):
                             new_ar.data[i][j] = new_ar.data[i][j] + value
                         elif action == LEFT_SUBTRACT:
                             new_ar.data[i][j] = new_ar.data[i][j] - value
-                        elif action == RIGHT_ADD:
-                            new_ar.data[i][j] = value + new_ar.data[i][j]
                         else:
-                            new_ar.data[i][j] = value - new_ar.data[i][j]
+                            new_ar.data[i][j] = value + new_ar.data[i][j]
                 return new_ar
 
         # Not implemented
-- 
2.43.0


From dbbf2eaacf71b6808cd478e528163902239b5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 29/42] fix: reshape of the bundled modeller uses integer
 indices

---
 src/pydsm/cvxpy_tdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/utils.py b/src/pydsm/cvxpy_tdr/utils.py
index 1b690e7..d7a718e 100644
--- a/src/pydsm/cvxpy_tdr/utils.py
+++ b/src/pydsm/cvxpy_tdr/utils.py
@@ -394,7 +394,7 @@ def reshape(v, newshape):
         for j in range(0,n,1):
             for i in range(0,m,1):
                 k = j*m + i
-                new_ar[k % mn,k / mn] = v[i,j]
+                new_ar[k % mn,k // mn] = v[i,j]
         return new_ar
 
 # Load modules
-- 
2.43.0


From 3af4db7c95fccd5d1e767c56fec8d98784d7ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 30/42] fix: programs with a constant objective return its
 value

---
 src/pydsm/cvxpy_tdr/procedures/solve_prog.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
index 9f2306d..37dbed1 100644
--- a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
+++ b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
@@ -38,6 +38,12 @@ def solve_prog(p,quiet):
     else:
         sign = -1.
 
+    # The solver minimizes the variable part only
+    if p_expanded.objective.type == CONSTANT:
+        offset = p_expanded.objective.value
+    else:
+        offset = 0.
+
     # Solve convex relaxation
     if not quiet:
         print('\nCalling CVXOPT ...')
@@ -51,7 +57,7 @@ def solve_prog(p,quiet):
 
     # Uknown
     elif sol['status'] == UNKNOWN:
-        obj = sol[PRIMAL_OBJECTIVE]*sign
+        obj = sol[PRIMAL_OBJECTIVE]*sign+offset
         valid = False
 
     # Dual infeasible
@@ -60,7 +66,7 @@ def solve_prog(p,quiet):
 
     # Optimal
     else:
-        obj =sol[PRIMAL_OBJECTIVE]*sign
+        obj = sol[PRIMAL_OBJECTIVE]*sign+offset
 
     # Return optimal value
     return obj,valid
-- 
2.43.0


From 5262cb8f592ab6cc535344fcab5553485df71cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 31/42] fix: gradients and Hessians of smooth sets accumulate
 repeated variables

---
 src/pydsm/cvxpy_tdr/sets/exp_cone.py          | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/geo_mean_cone.py     |  9 ++++-----
 src/pydsm/cvxpy_tdr/sets/kl_div_epi.py        | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py |  6 +++---
 src/pydsm/cvxpy_tdr/sets/power_pos_epi.py     |  6 +++---
 5 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/sets/exp_cone.py b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
index bad3764..c082fbe 100644
--- a/src/pydsm/cvxpy_tdr/sets/exp_cone.py
+++ b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
@@ -101,12 +101,12 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = np.exp((v*1.)/(y*1.))
+                g[mp[el[0,0]]] += np.exp((v*1.)/(y*1.))
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                g[mp[el[1,0]]] = np.exp(t)*(1-t)
+                g[mp[el[1,0]]] += np.exp(t)*(1-t)
             if type(el[2,0]) is cvxpy_scalar_var:
-                g[mp[el[2,0]]] = -1.
+                g[mp[el[2,0]]] += -1.
             return g
 
         # hess f
@@ -119,16 +119,16 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = np.exp((v*1.)/(y*1.))/(y*1.)
+                h[mp[el[0,0]],mp[el[0,0]]] += np.exp((v*1.)/(y*1.))/(y*1.)
             if (type(el[0,0]) is cvxpy_scalar_var and
                 type(el[1,0]) is cvxpy_scalar_var):
                 t = (v*1.)/(y*1.)
                 w = -np.exp(t)*t/(y*1.)
-                h[mp[el[0,0]],mp[el[1,0]]] = w
-                h[mp[el[1,0]],mp[el[0,0]]] = w
+                h[mp[el[0,0]],mp[el[1,0]]] += w
+                h[mp[el[1,0]],mp[el[0,0]]] += w
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                h[mp[el[1,0]],mp[el[1,0]]] = np.exp(t)*(t**2.)/(y*1.)
+                h[mp[el[1,0]],mp[el[1,0]]] += np.exp(t)*(t**2.)/(y*1.)
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/geo_mean_cone.py b/src/pydsm/cvxpy_tdr/sets/geo_mean_cone.py
index 6af00c8..a1f0413 100644
--- a/src/pydsm/cvxpy_tdr/sets/geo_mean_cone.py
+++ b/src/pydsm/cvxpy_tdr/sets/geo_mean_cone.py
@@ -147,9 +147,9 @@ class cvxpy_geo_mean_cone(object):
             for i in range(0,n,1):
                 if type(u[i,0]) is cvxpy_scalar_var:
                     xi = x[mp[u[i,0]]]
-                    g[mp[u[i,0]]] = -fval/(n*xi*1.)
+                    g[mp[u[i,0]]] += -fval/(n*xi*1.)
             if type(v) is cvxpy_scalar_var:
-                g[mp[v]] = 1.
+                g[mp[v]] += 1.
             return g
 
         # hess f
@@ -167,11 +167,10 @@ class cvxpy_geo_mean_cone(object):
                         xj = x[mp[u[j,0]]]
                         if i == j:
                             w = (n-1.)*fval/(n*n*1.*xi*xi)
-                            h[mp[u[i,0]],mp[u[i,0]]] = w
+                            h[mp[u[i,0]],mp[u[i,0]]] += w
                         else:
                             w = -fval/(1.*n*n*xi*xj)
-                            h[mp[u[i,0]],mp[u[j,0]]] = w
-                            h[mp[u[j,0]],mp[u[i,0]]] = w
+                            h[mp[u[i,0]],mp[u[j,0]]] += w
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
index 9b3ed3e..fe46190 100644
--- a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
@@ -102,11 +102,11 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    g[mp[u[i,0]]] = np.log(u_i*1./v_i)
+                    g[mp[u[i,0]]] += np.log(u_i*1./v_i)
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    g[mp[v[i,0]]] = (-u_i*1./v_i)+1.
+                    g[mp[v[i,0]]] += (-u_i*1./v_i)+1.
             if type(t) is cvxpy_scalar_var:
-                g[mp[t]] = -1.
+                g[mp[t]] += -1.
             return g
 
         # hess f
@@ -122,14 +122,14 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    h[mp[u[i,0]],mp[u[i,0]]] = 1./u_i
+                    h[mp[u[i,0]],mp[u[i,0]]] += 1./u_i
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    h[mp[v[i,0]],mp[v[i,0]]] = u_i*1./(v_i**2.)
+                    h[mp[v[i,0]],mp[v[i,0]]] += u_i*1./(v_i**2.)
                 if (type(u[i,0]) is cvxpy_scalar_var and
                     type(v[i,0]) is cvxpy_scalar_var):
                     w = -1./v_i
-                    h[mp[u[i,0]],mp[v[i,0]]] = w
-                    h[mp[v[i,0]],mp[u[i,0]]] = w
+                    h[mp[u[i,0]],mp[v[i,0]]] += w
+                    h[mp[v[i,0]],mp[u[i,0]]] += w
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
index ee90b06..70f7180 100644
--- a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
+++ b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
@@ -88,9 +88,9 @@ class cvxpy_log_norm_cdf_hypo(object):
             if v is None:
                 v = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = -norm.pdf(v)/norm.cdf(v)
+                g[mp[el[0,0]]] += -norm.pdf(v)/norm.cdf(v)
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = 1.
+                g[mp[el[1,0]]] += 1.
             return g
 
         # hess f
@@ -103,7 +103,7 @@ class cvxpy_log_norm_cdf_hypo(object):
                 t = norm.pdf(v)
                 s = norm.cdf(v)
                 r = t/s
-                h[mp[el[0,0]],mp[el[0,0]]] = r **2.+v*r
+                h[mp[el[0,0]],mp[el[0,0]]] += r **2.+v*r
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
index d5d2609..4e3cabc 100644
--- a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
@@ -89,9 +89,9 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = p*(z**(p-1.))
+                g[mp[el[0,0]]] += p*(z**(p-1.))
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = -1.
+                g[mp[el[1,0]]] += -1.
             return g
 
         # hess f
@@ -101,7 +101,7 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = p*(p-1.)*(z**(p-2.))
+                h[mp[el[0,0]],mp[el[0,0]]] += p*(p-1.)*(z**(p-2.))
             return h
 
         # ind f
-- 
2.43.0


From 4737d06ea98d4891db132e1a5b316873c61de445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 32/42] fix: power_pos_epi refuses extra elements and nonconvex
 exponents

---
 src/pydsm/cvxpy_tdr/sets/power_pos_epi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
index 4e3cabc..29567a4 100644
--- a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
@@ -36,6 +36,8 @@ class cvxpy_power_pos_epi(object):
         Class constructor.
         """
 
+        if not p > 1:
+            raise ValueError('Exponent must be greater than one')
         self.type = SET
         self.name = 'power_pos_epi'
         self.expansion_type = DIF
@@ -44,7 +46,7 @@ class cvxpy_power_pos_epi(object):
     # Method: valid_shape
     def valid_shape(self,shape):
 
-        return shape[1] == 1
+        return shape == (2,1)
 
     # Method: __str__
     def __str__(self):
-- 
2.43.0


From 73f0635f881356702baf0c5db2e10171bf5f0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 33/42] fix: the bundled modeller leaves cvxopt's options and
 printing alone

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 308e66c..802477a 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -36,9 +36,6 @@ def call_solver(p,quiet):
     :param quiet: Boolean.
     """
 
-    # Set printing format for cvxopt sparse matrices
-    opt.spmatrix_str = opt.printing.spmatrix_str_triplet
-
     # Expand objects defined via partial minimization
     constr_list = cvxpy_list(pm_expand(p.constraints))
 
@@ -68,16 +65,17 @@ def call_solver(p,quiet):
     F = construct_F(constr_list._get_ineq_in(),var_to_index,n)
 
     # Call cvxopt
-    solvers.options['maxiters'] = p.options['maxiters']
-    solvers.options['abstol'] = p.options['abstol']
-    solvers.options['reltol'] = p.options['reltol']
-    solvers.options['feastol'] = p.options['feastol']
-    solvers.options['show_progress'] = not quiet
+    options = dict(solvers.options,
+                   maxiters=p.options['maxiters'],
+                   abstol=p.options['abstol'],
+                   reltol=p.options['reltol'],
+                   feastol=p.options['feastol'],
+                   show_progress=not quiet)
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
     if F is None:
-        r =  solvers.conelp(c,G,h,dims,A,b)
+        r =  solvers.conelp(c,G,h,dims,A,b,options=options)
     else:
-        r =  solvers.cpl(c,F,G,h,dims,A,b)
+        r =  solvers.cpl(c,F,G,h,dims,A,b,options=options)
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
-- 
2.43.0


From 991312166ac209fc2c31ee8e9724c8323eb369de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 34/42] fix: variable order in the bundled modeller follows
 creation, not names

---
 src/pydsm/cvxpy_tdr/scalars.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/scalars.py b/src/pydsm/cvxpy_tdr/scalars.py
index dc9c31e..3694ad7 100644
--- a/src/pydsm/cvxpy_tdr/scalars.py
+++ b/src/pydsm/cvxpy_tdr/scalars.py
@@ -18,6 +18,7 @@
 #***********************************************************************#
 
 import numpy as np
+from itertools import count
 from .defs import *
 from functools import reduce
 
@@ -364,6 +365,9 @@ class cvxpy_scalar_var(cvxpy_obj):
     # Variable counter
     i = 0
 
+    # Creation counter: orders the variables, is never reset
+    serials = count()
+
     # Method: __init__
     def __init__(self,name=None):
         """
@@ -377,9 +381,14 @@ class cvxpy_scalar_var(cvxpy_obj):
             name = BASE_VAR+str(cvxpy_scalar_var.i)
         cvxpy_scalar_var.i += 1
 
+        self.serial = next(cvxpy_scalar_var.serials)
+
         # Call parent constructor
         cvxpy_obj.__init__(self,VARIABLE,np.nan,name)
 
+    def __lt__(self, other):
+        return self.serial < other.serial
+
     # Method: __getattribute__
     def __getattribute__(self,name):
 
-- 
2.43.0


From b5b0d1bd1c6a0387b96e2507d51e602ec48a106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 35/42] fix: compiled simulators refuse modulators and inputs
 they would read out of bounds

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 7 ++++++-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 031d0b0..436cfbf 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -60,7 +60,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     cdef np.ndarray c_u
     try:
         c_u = np.asarray(u, dtype=np.float64, order='C')
-        if c_u.ndim > 2:
+        if c_u.ndim < 1 or c_u.ndim > 2:
             raise TypeError()
         if c_u.ndim == 1:
             c_u = c_u.reshape(1, -1)
@@ -81,6 +81,9 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            # Only single input, single quantizer modulators have an ntf
+            if nu != 1 or nq != 1:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
@@ -92,6 +95,8 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
                 raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
+        if order < 1 or nu < 1 or nq < 1:
+            raise TypeError()
     except (ValueError, TypeError):
         raise ValueError('Incorrect modulator specification')
 
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 405be58..4685af0 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -67,7 +67,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     cdef np.ndarray c_u
     try:
         c_u = np.asarray(u, dtype=np.float64, order='C')
-        if c_u.ndim > 2:
+        if c_u.ndim < 1 or c_u.ndim > 2:
             raise TypeError()
         if c_u.ndim == 1:
             c_u = c_u.reshape(1, -1)
@@ -88,6 +88,9 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            # Only single input, single quantizer modulators have an ntf
+            if nu != 1 or nq != 1:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
@@ -99,6 +102,8 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
                 raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
+        if order < 1 or nu < 1 or nq < 1:
+            raise TypeError()
     except (ValueError, TypeError):
         raise ValueError('Incorrect modulator specification')
 
-- 
2.43.0


From 368507f58ccce32a86b1e91441e4aa60c8ee0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 36/42] fix: scipy simulator back end stores the states of
 modulators of any order

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e64399f..c7d5dc8 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -155,7 +155,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
         if store_xn:
             # Save the next state
-            xn[:, i] = x0
+            xn[:, i:i+1] = x0
         if store_xmax:
             # Keep track of the state maxima
             xmax = np.max((np.abs(x0), xmax), 0)
-- 
2.43.0


From eb0e7598309a8aadc9079ac7e0d7b47e1e2fe672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 37/42] fix: simulateDSM back ends take array-likes, several
 quantizers and inputs as documented

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      |  4 +-
 src/pydsm/delsig/_simulateDSM_scipy.py       | 97 +++++++++++++-------
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx |  4 +-
 3 files changed, 68 insertions(+), 37 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 436cfbf..0e160a1 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -42,7 +42,7 @@ cdef extern from "cblas.h":
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -51,7 +51,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_nlev = np.asarray(nlev, dtype=np.int32)
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index c7d5dc8..c373dcf 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,36 +73,67 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(1)
+    try:
+        nlev = np.asarray(nlev, dtype=np.int32)
+        if nlev.ndim > 1:
+            raise TypeError()
+        nlev = nlev.reshape(-1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: nlev must be convertible into a 1D int array")
 
     # Make sure that input is a matrix
-    u = np.asarray(u)
-    if u.ndim == 1:
-        u = u.reshape(1, -1)
+    try:
+        u = np.asarray(u, dtype=float)
+        if u.ndim < 1 or u.ndim > 2:
+            raise TypeError()
+        if u.ndim == 1:
+            u = u.reshape(1, -1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: u must be convertible into a 2D float array")
 
     nu = u.shape[0]
     nq = np.size(nlev)
 
-    if type(arg2) == tuple and len(arg2) == 3:
-        # Assume ntf in zpk form
-        (ntf_z, ntf_p, ntf_k) = arg2
-        form = 2
-        order = len(ntf_z)
-    else:
-        # Assume ABCD form
-        ABCD = np.asarray(arg2)
-        if ABCD.shape[1] == nu+ABCD.shape[0]:
-            # ABCD dimensions OK
+    try:
+        if type(arg2) == tuple and len(arg2) == 3:
+            # Assume ntf in zpk form
+            ntf_z = np.asarray(arg2[0], dtype=complex)
+            ntf_p = np.asarray(arg2[1], dtype=complex)
+            ntf_k = float(arg2[2])
+            if ntf_z.ndim != 1 or ntf_p.ndim != 1:
+                raise TypeError()
+            # Only single input, single quantizer modulators have an ntf
+            if nu != 1 or nq != 1:
+                raise TypeError()
+            form = 2
+            order = len(ntf_z)
+        else:
+            # Assume ABCD form
+            ABCD = np.asarray(arg2, dtype=float)
+            if ABCD.ndim != 2 or ABCD.shape[1] != nu+ABCD.shape[0]:
+                raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
-        else:
-            raise ValueError('Incorrect modulator specification')
+        if order < 1 or nu < 1 or nq < 1:
+            raise TypeError()
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect modulator specification')
 
     # Assure that the state is a column vector
-    if np.isscalar(x0) and x0 == 0:
-        x0 = np.zeros((order, 1))
-    else:
-        x0 = np.array(x0, dtype=float).reshape(-1, 1)
+    try:
+        if np.isscalar(x0) and x0 == 0:
+            x0 = np.zeros((order, 1))
+        else:
+            x0 = np.array(x0, dtype=float)
+            if x0.ndim < 1 or x0.ndim > 2:
+                raise TypeError()
+            x0 = x0.reshape(-1, 1)
+            if x0.shape[0] != order:
+                raise TypeError()
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect initial condition specification')
 
     if form == 1:
         A = ABCD[0:order, 0:order]
@@ -148,11 +179,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     for i in range(N):
         # I guess the coefficients in A, B, C, D should be real...
-        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i]))
+        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i:i+1]))
         if store_y:
-            y[:, i] = y0
-        v[:, i] = ds_quantize(y0, nlev)
-        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
+            y[:, i:i+1] = y0
+        v[:, i:i+1] = ds_quantize(y0, nlev)
+        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i:i+1], v[:, i:i+1])))
         if store_xn:
             # Save the next state
             xn[:, i:i+1] = x0
@@ -193,12 +224,12 @@ def ds_quantize(y, n):
     This definition gives the same step height for both mid-riser and
     mid-tread quantizers.
     """
-    v = np.empty_like(y)
-    for qi in range(np.size(n)):
-        if np.remainder(n[qi], 2) == 0:
-            v[qi] = 2*np.floor(0.5*y[qi])+1
-        else:
-            v[qi] = 2*np.floor(0.5*(y[qi]+1))
-        L = n[qi]-1
-        v[qi, 0] = np.max((np.min((v[qi, 0], L)), -L))
-    return v
+    y = np.asarray(y, dtype=float)
+    n = np.asarray(n)
+    if y.ndim > 0:
+        # One quantizer per row
+        n = n.reshape((-1,)+(1,)*(y.ndim-1))
+    v = np.where(np.remainder(n, 2) == 0, 2*np.floor(0.5*y)+1,
+                 2*np.floor(0.5*(y+1)))
+    L = n-1
+    return np.maximum(np.minimum(v, L), -L)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 4685af0..d8752c9 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -49,7 +49,7 @@ cdef dcopy_ptr dcopy=<dcopy_ptr>Capsule_AsVoidPtr(
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -58,7 +58,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_nlev = np.asarray(nlev, dtype=np.int32)
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
-- 
2.43.0


From 9ee0abe6723197498796d9cf8af43190cb656429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 38/42] fix: minmax programs with forced zeros can be built
 with cvxpy and PICOS

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py | 12 ++++++------
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index 12dcbce..b0a57e3 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -97,7 +97,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [M << 0]
             if zf:
                 # Force a zero at DC
-                F += [cvxpy.sum_entries(c) == -1]
+                F += [cvxpy.sum(c) == -1]
         else:
             # Bandpass modulator
             M1r = (A.T @ P @ A + Q @ A*np.cos(omega0) +
@@ -121,11 +121,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = np.matrix(np.cos(omega0*nn))
-                vi = np.matrix(np.sin(omega0*nn))
-                vn = np.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [c*cvxpy.hstack(vr, vi) == vn]
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 7fe39be..79607d1 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -131,8 +131,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 vr = cvxopt.matrix(np.cos(omega0*nn))
                 vi = cvxopt.matrix(np.sin(omega0*nn))
                 vn = cvxopt.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                p.add_constraint(c*(vr & vi) == vn)
+                    [-np.cos(omega0*order), -np.sin(omega0*order)], (1, 2))
+                p.add_constraint(c*cvxopt.matrix([[vr], [vi]]) == vn)
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From ef2cefa385f08f911f8f538a2d3fb62d803997aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 39/42] fix: FIR designs of order 1 work with the bundled
 modeller and PICOS

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py       | 8 ++++----
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py           | 2 +-
 src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py | 4 ++--
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py     | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index c20cee3..b2f9055 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -70,7 +70,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
 
     # Set up the problem
     bands = len(f0s)
-    c = cvxpy_tdr.variable(1, order)
+    c = cvxpy_tdr.arrays.cvxpy_var(1, order)
     F = []
     gg = cvxpy_tdr.arrays.cvxpy_var(bands, 1)
 
@@ -79,8 +79,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
         osr = osrs[idx]
         omega0 = 2*f0*np.pi
         Omega = 1./osr*np.pi
-        P = cvxpy_tdr.variable(order, order, 'symmetric')
-        Q = cvxpy_tdr.variable(order, order, 'symmetric')
+        P = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
+        Q = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         if f0 == 0:
             # Lowpass modulator
             M1 = A.T*P*A+Q*A+A.T*Q-P-2*Q*np.cos(Omega)
@@ -128,7 +128,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
     if H_inf < np.inf:
         # Enforce the Lee constraint
-        R = cvxpy_tdr.variable(order, order, 'symmetric')
+        R = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         F += [cvxpy_tdr.belongs(R, cvxpy_tdr.semidefinite_cone)]
         MM = cvxpy_tdr.vstack(
             (cvxpy_tdr.hstack((A.T*R*A-R, A.T*R*B, c.T)),
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 79607d1..41acf74 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -145,4 +145,4 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     p.add_constraint(picos.sum_k_largest(gg, 1) <= mx)
     p.set_objective('min', mx)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(c.value)[0, ::-1]))
+    return np.hstack((1, np.asarray(c.value).reshape(-1)[::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
index 58f165e..387e254 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
@@ -30,9 +30,9 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     """
     quiet = not opts['show_progress']
     order = np.size(Qs, 0)-1
-    br = cvxpy_tdr.variable(order, 1, name='br')
+    br = cvxpy_tdr.arrays.cvxpy_var(order, 1, name='br')
     b = cvxpy_tdr.vstack((1, br))
-    X = cvxpy_tdr.variable(order, order, structure='symmetric', name='X')
+    X = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric', 'X')
     Qs = cvxpy_tdr.matrix(Qs)
     target = cvxpy_tdr.norm2(Qs*b)
     A = cvxpy_tdr.matrix(A)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index e441fde..c11a3bb 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -64,4 +64,4 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p.add_constraint(constraint1)
     p.add_constraint(constraint2)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(br.value.T)[0]))
+    return np.hstack((1, np.asarray(br.value).reshape(-1)))
-- 
2.43.0


From 8c0fee1c8c95c830766b8363cb01e19d92e6299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 40/42] fix: compiled simulators read level counts given as a
 strided view in order

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 0e160a1..d9c538f 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -48,7 +48,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
         c_nlev=c_nlev.reshape(-1)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index d8752c9..355196b 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -55,7 +55,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
         c_nlev=c_nlev.reshape(-1)
-- 
2.43.0


From 2a01b07950ce25bf39a8b7c788bfd56c7bec850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 41/42] fix: substitute the arguments of a program used as a
 function all at once

An argument containing one of the formals of the program was substituted
into itself without end.
---
 src/pydsm/cvxpy_tdr/procedures/re_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/re_eval.py b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
index 5e730c1..fbe0f27 100644
--- a/src/pydsm/cvxpy_tdr/procedures/re_eval.py
+++ b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
@@ -47,14 +47,14 @@ def re_eval(arg,replace_map):
     # Scalar variable
     elif type(arg) is cvxpy_scalar_var:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
     # Scalar param
     elif type(arg) is cvxpy_scalar_param:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
-- 
2.43.0


From ffdbc8debbf75b64f29e0f0a229f0420b842ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 42/42] fix: give each use of a program as a function its own
 internal variables

Two uses in one problem shared them, so that f(x) + f(y) was bounded by
twice the larger of the two, and an argument could be taken for one.
---
 src/pydsm/cvxpy_tdr/programs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index 3f5b4c0..546ca7e 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -336,10 +336,17 @@ class cvxpy_program(object):
         if len(args) != len(args_ref):
             raise TypeError("Invalid number of arguments")
 
-        # Create map and new program
+        # Create map
         replace_map = {}
         for k in range(0,len(args),1):
             replace_map[args_ref[k]] = args[k]
+
+        # Give this use its own copy of the internal variables
+        internal = [v for v in self.variables if v not in replace_map]
+        for v in sorted(internal):
+            replace_map[v] = cvxpy_scalar_var()
+
+        # Create new program
         new_p = cvxpy_program(self.action,
                               re_eval(self.objective,replace_map),
                               re_eval(self.constraints,replace_map),
-- 
2.43.0

