From 15ea64261377261a1d5ebb4f0c6e3b6f933fba68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 01/18] fix: accept a scalar t_merge for a single source in
 evol_ecc

---
 src/legwork/evol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..989a3b0 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -363,6 +363,9 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
             # calculate the merger time
             t_merge = get_t_merge_ecc(ecc_i=ecc_i, a_i=a_i,
                                       beta=beta, exact=exact_t_merge).to(u.Gyr)
+        else:
+            # a single source may come with a single merger time
+            t_merge = utils.ensure_array(t_merge)[0][0]
 
         # warn the user if they are evolving past the merger
         if np.any(timesteps > t_merge[:, np.newaxis]):      # pragma: no cover
-- 
2.43.0


From f2bfd46c7aacb0cc8a50f31e6501400b37b64e71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 02/18] fix: do not overwrite the caller's timesteps in
 evol_ecc

---
 src/legwork/evol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 989a3b0..9a51c86 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -386,7 +386,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         too_close[:, 0] = False
 
         if np.any(too_close):
-            # set them all equal to the previous timestep before passing limit
+            # set them all equal to the previous timestep before passing limit (in a copy, not the user's array)
+            timesteps = timesteps.copy()
             timesteps[too_close] = -1 * u.Gyr
             previous = timesteps.max(axis=1).repeat(timesteps.shape[1])
             timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]
-- 
2.43.0


From 190ab649c4ddcd4f2fb8c65bbc77783f6e947eef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:32:24 +0000
Subject: [PATCH 03/18] fix: do not extrapolate the LISA response spline past
 its table (negative PSD for long arms)

---
 src/legwork/psd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..79d385e 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -45,8 +45,10 @@ def load_response_function(f, fstar=19.09e-3):
     # interpolate the R values in the file
     R_data = splrep(f_R * fstar, R, s=0)
 
-    # use interpolated curve to get R values for supplied f values
-    R = splev(f, R_data, der=0)
+    # use interpolated curve to get R values for supplied f values, but don't extrapolate it past the file's
+    # highest frequency since it would quickly become negative, use the approximation there instead
+    f = np.asarray(f)
+    R = np.where(f <= f_R[-1] * fstar, splev(f, R_data, der=0), approximate_response_function(f, fstar))
     return R
 
 
-- 
2.43.0


From 215f248efe74859150d9057b407b6e1e22754a8b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 04/18] fix: include the final timestep of merging sources in
 snr_ecc_evolving

---
 src/legwork/snr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index 8a8924e..34b3977 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -312,10 +312,11 @@ def snr_ecc_evolving(m_1, m_2, f_orb_i, dist, ecc, harmonics_required, t_obs, n_
 
     t_before = 0.1 * u.yr
 
-    t_evol = np.minimum(t_merge - t_before, t_obs).to(u.s)
-    # get eccentricity and f_orb evolutions
+    t_evol = np.maximum(np.minimum(t_merge - t_before, t_obs), 0 * u.s).to(u.s)
+    # get eccentricity and f_orb evolutions (the evolution time already stops before the merger, whilst
+    # avoiding it again would freeze the final timestep)
     e_evol, f_orb_evol = evol.evol_ecc(ecc_i=ecc, t_evol=t_evol, n_step=n_step, m_1=m_1, m_2=m_2,
-                                       f_orb_i=f_orb_i, n_proc=n_proc, t_before=t_before, t_merge=t_merge)
+                                       f_orb_i=f_orb_i, n_proc=n_proc, avoid_merger=False)
 
     maxes = np.where(np.logical_and(e_evol == 0.0, f_orb_evol == 1e2 * u.Hz),
                      -1 * u.Hz, f_orb_evol).max(axis=1)
-- 
2.43.0


From c4cd0bd240efd8ac505887094b0bf7dc3fd45e12 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 05/18] fix: do not evolve backwards in time in
 snr_circ_evolving within a second of the merger

---
 src/legwork/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index 34b3977..4789694 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -207,7 +207,7 @@ def snr_circ_evolving(m_1, m_2, f_orb_i, dist, t_obs, n_step, t_merge=None,
     # calculate minimum of observation time and merger time
     if t_merge is None:
         t_merge = evol.get_t_merge_circ(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
-    t_evol = np.minimum(t_merge - (1 * u.s), t_obs)
+    t_evol = np.maximum(np.minimum(t_merge - (1 * u.s), t_obs), 0 * u.s)
 
     # get f_orb evolution
     f_orb_evol = evol.evol_circ(t_evol=t_evol, n_step=n_step, m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
-- 
2.43.0


From 065e8c13bc9d05293b8a3d36d944d6a120d27ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 06/18] fix: DECIGO PSD stays infinite outside the band when
 f_low is below 1e-8 Hz

The second band test was applied to the frequencies already overwritten
with the 1e-8 Hz placeholder, which lies inside a band that reaches that
low, so out-of-band frequencies were given a finite PSD.
---
 src/legwork/psd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 79d385e..5f5ac20 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -245,7 +245,8 @@ def decigo_psd(f, L=None, t_obs=4 * u.yr, approximate_R=None, confusion_noise="k
     MAX_F = f_high.to(u.Hz).value
 
     # overwrite frequencies outside the range to prevent error
-    f = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), f, 1e-8)
+    in_band = np.logical_and(f >= MIN_F, f <= MAX_F)
+    f = np.where(in_band, f, 1e-8)
 
     # shot noise
     def Pshot(f):
@@ -270,7 +271,7 @@ def decigo_psd(f, L=None, t_obs=4 * u.yr, approximate_R=None, confusion_noise="k
     psd = Pshot(f) + Prad(f) + Pacc(f) + cn
 
     # replace values for bad frequencies (set to extremely high value)
-    psd = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), psd, np.inf)
+    psd = np.where(in_band, psd, np.inf)
     return psd / u.Hz
 
 
-- 
2.43.0


From 263be8c19ec36afb4fdb813a9d50686005dc2568 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 07/18] fix: allow a single scalar source with a position but
 no angles

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..3078bd0 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From 0fafb70f06604e65a93a4eeb728fe4133081e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 08/18] fix: check the lengths of weights and positions as well

---
 src/legwork/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3078bd0..d49232f 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -189,6 +189,7 @@ class Source():
 
         # ensure all array arguments are the same length
         array_args = [m_1, m_2, dist, f_orb, ecc]
+        array_args += [arg for arg in [weights, position, inclination, polarisation] if arg is not None]
         length_check = np.array([len(arg) != len(array_args[0])
                                  for arg in array_args])
         if length_check.any():
-- 
2.43.0


From 7c033649a6fa2dea24f30dfc4a94ea0c91167e20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 09/18] fix: computing an SNR no longer overwrites the array
 returned by an earlier call

---
 src/legwork/source.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index d49232f..3512c39 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1055,8 +1055,8 @@ class Source():
             self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
         self.max_snr_harmonic[insp_sources] = msh[insp_sources]
 
-        if self.snr is None:
-            self.snr = np.zeros(self.n_sources)
+        # copy first, since an earlier call may have returned this same array
+        self.snr = np.zeros(self.n_sources) if self.snr is None else self.snr.copy()
         self.snr[insp_sources] = snr[insp_sources]
 
         return snr[which_sources]
@@ -1182,8 +1182,8 @@ class Source():
             self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
         self.max_snr_harmonic[insp_sources] = msh[insp_sources]
 
-        if self.snr is None:
-            self.snr = np.zeros(self.n_sources)
+        # copy first, since an earlier call may have returned this same array
+        self.snr = np.zeros(self.n_sources) if self.snr is None else self.snr.copy()
         self.snr[insp_sources] = snr[insp_sources]
 
         return snr[which_sources]
-- 
2.43.0


From 70bb95201f0fd3b7dc96831c2ec9a06dd85aa09f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 10/18] fix: computing an SNR no longer replaces the automatic
 mission length in sc_params

---
 src/legwork/source.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3512c39..cb3ffbd 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -648,7 +648,11 @@ class Source():
         if self.interpolate_sc:
             # get values
             frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
-            sc = psd.power_spectral_density(frequency_range, **self.sc_params)
+            params = dict(self.sc_params)
+            if params["t_obs"] == "auto":
+                # the same mission length that is used for the SNR
+                params["t_obs"] = 4 * u.yr if params["instrument"] == "LISA" else 5 * u.yr
+            sc = psd.power_spectral_density(frequency_range, **params)
 
             # interpolate
             interp_sc = interp1d(frequency_range, sc, bounds_error=False, fill_value=1e30)
@@ -982,8 +986,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -994,6 +996,10 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
+        # only now, so that "auto" still follows the instrument next time
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         snr = np.zeros(self.n_sources)
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
@@ -1112,8 +1118,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -1124,6 +1128,10 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
+        # only now, so that "auto" still follows the instrument next time
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
         c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)
-- 
2.43.0


From b7c3ec892797d8e991190792ed97606c85216ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 11/18] fix: sources with a custom instrument can be loaded
 again when the curve is interpolated

---
 src/legwork/source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index cb3ffbd..96f53da 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -645,7 +645,9 @@ class Source():
         If user wants to interpolate then perform interpolation of LISA sensitivity curve using
         ``sc_params``. Otherwise just leave the function as None.
         """
-        if self.interpolate_sc:
+        # (there is no curve yet for a custom instrument that still needs its function, e.g. after loading)
+        missing_psd = self.sc_params["instrument"] == "custom" and self.sc_params["custom_psd"] is None
+        if self.interpolate_sc and not missing_psd:
             # get values
             frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
             params = dict(self.sc_params)
-- 
2.43.0


From ca7355647326ae7a5b4c18df13aba76de315191b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 12/18] fix: sc_params |= and setdefault re-interpolate and
 reject unknown keys like other changes

---
 src/legwork/source.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 96f53da..8aedd98 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1588,6 +1588,15 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate()
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Get a parameter, there is never anything to set since all of them always have a value"""
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From c3295cf18a96b2f740c8db420fbcc022f1590e4b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 13/18] fix: evolving into a new class keeps the weights of the
 sources

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 8aedd98..2ee30dd 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1302,7 +1302,7 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
-- 
2.43.0


From 8728e0e9c5e2a83c12995a438d974030d76ee5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 14/18] fix: evolving into a new class keeps the interpolate_sc
 setting

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 2ee30dd..2f6f336 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1307,7 +1307,7 @@ class Source():
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From 9abab74edb79aa5645767b38a04a99aead8fc181 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 15/18] fix: weighted histograms with automatically chosen bins

---
 src/legwork/visualisation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 9b52cc4..671b2f4 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -141,6 +141,10 @@ def plot_1D_dist(x, weights=None, disttype="hist", log_scale=False, fig=None, ax
 
                 # apply log to variable
                 x = np.log10(x)
+            # the bins can't be estimated from weighted data, so base them on the data alone
+            if weights is not None and isinstance(plot_args["bins"], str):
+                plot_args["bins"] = np.histogram_bin_edges(x, bins=plot_args["bins"], range=plot_args.get("range"))
+
             ax.hist(x, weights=weights, color=color, **plot_args)
         elif disttype == "kde":
             sns.kdeplot(x=x, weights=weights, ax=ax, color=color, log_scale=log_scale, **plot_args)
-- 
2.43.0


From 68623d85c068cb8848873e4f66ea9f3b65c953aa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 16/18] fix: warn about eccentric evolving sources instead of
 repeating the circular ones

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 2f6f336..675190f 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1517,7 +1517,7 @@ class Source():
             logger.warning("{} circular and evolving sources detected, plotting not yet implemented "
                            "for evolving sources.".format(len(circ_evol[circ_evol])))
 
-        ecc_evol = self.get_source_mask(circular=True, stationary=False)
+        ecc_evol = self.get_source_mask(circular=False, stationary=False)
         ecc_evol = np.logical_and.reduce((ecc_evol, detectable, inspiraling))
         if ecc_evol.any():
             logger.warning("{} eccentric and evolving sources detected, plotting not yet implemented "
-- 
2.43.0


From a931d8eff2b5bed9af5cd5d0427beafc1eb8f358 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 17/18] fix: large luminosity tolerances no longer crash when
 finding the eccentric transition

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 675190f..d93d969 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -580,8 +580,8 @@ class Source():
         """Find the eccentricity at which we must treat binaries at eccentric. We define this as the maximum
         eccentricity at which the n=2 harmonic is the total GW luminosity given the tolerance
         ``self.gw_lum_tol``. Store the result in ``self._ecc_tol``"""
-        # only need to check lower eccentricities
-        e_range = np.linspace(0.0, 0.2, 10000)
+        # only need to check lower eccentricities (unless the tolerance is so large that n=2 is enough there)
+        e_range = np.linspace(0.0, 0.2 if self.gw_lum_tol < 0.37 else 0.9999, 10000)
 
         # find first e where n=2 harmonic is below tolerance
         circular_lum = utils.peters_g(2, e_range)
-- 
2.43.0


From a05227d14b2266b1420a18a7e9b0622cdc067c2a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 18/18] fix: keep the sensitivity settings unchanged when their
 curve can't be computed

---
 src/legwork/source.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index d93d969..d8ff76c 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -690,7 +690,12 @@ class Source():
         changed = current_params is None or new_params != current_params
         self._sc_params = new_params
         if changed:
-            self.set_sc()
+            try:
+                self.set_sc()
+            except BaseException:
+                # the curve hasn't changed so neither should its settings
+                self._sc_params = current_params
+                raise
 
     def get_source_mask(self, circular=None, stationary=None, t_obs=None):
         """Produce a mask of the sources.
@@ -1567,26 +1572,33 @@ class SensitivityCurveParams(dict):
                 ', '.join(["`{}`".format(key) for key in unknown_keys]),
                 ', '.join(["`{}`".format(key) for key in DEFAULT_SC_PARAMS])))
 
-    def _re_interpolate(self):
+    def _re_interpolate(self, previous):
         """Re-interpolate the sensitivity curve of the class that these parameters belong to"""
         if self._source is not None:
-            self._source.set_sc()
+            try:
+                self._source.set_sc()
+            except BaseException:
+                # the curve hasn't changed so neither should its settings
+                super().update(previous)
+                raise
 
     def __setitem__(self, key, value):
         self._check_keys([key])
         changed = self.get(key) != value
+        previous = dict(self)
         super().__setitem__(key, value)
         if changed:
-            self._re_interpolate()
+            self._re_interpolate(previous)
 
     def update(self, *args, **kwargs):
         """Change several parameters at once, only re-interpolating the sensitivity curve once"""
         new_params = dict(*args, **kwargs)
         self._check_keys(new_params)
         changed = any(self.get(key) != value for key, value in new_params.items())
+        previous = dict(self)
         super().update(new_params)
         if changed:
-            self._re_interpolate()
+            self._re_interpolate(previous)
 
     def __ior__(self, other):
         self.update(other)
-- 
2.43.0

