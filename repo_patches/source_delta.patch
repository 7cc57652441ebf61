From 2e4537b685afd56d906b54c0da70ab2270ab0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 01/17] fix: reject transmission curves that exceed unity

---
 dsps/data_loaders/load_filter_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 9ce126f..54a3d14 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -80,7 +80,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
 
         if transmission.min() < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.min() > 1 + TOL:
+        elif transmission.max() > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0


From a6ff4fd740b30763899a6901e9fdede17aa703e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 02/17] fix: do not interpret the filter directory as a glob
 pattern

---
 dsps/data_loaders/load_filter_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 54a3d14..f0b2200 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -2,7 +2,7 @@
 
 import os
 import random
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -65,7 +65,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
                 )
                 raise ValueError(msg)
 
-        fn_pat = os.path.join(drn, bn_pat)
+        fn_pat = os.path.join(escape(drn), bn_pat)
         fn_list = glob(fn_pat)
         msg = "There is no filename with pattern {0} located in {1}"
         assert len(fn_list) != 0, msg.format(bn_pat, drn)
-- 
2.43.0


From e8fc2cd6edd371a3df25de62e8a220578d3d33cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 03/17] fix: virial_dynamical_time accepts a scalar redshift

---
 dsps/cosmology/flat_wcdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/cosmology/flat_wcdm.py b/dsps/cosmology/flat_wcdm.py
index 3afde86..c4775f9 100644
--- a/dsps/cosmology/flat_wcdm.py
+++ b/dsps/cosmology/flat_wcdm.py
@@ -323,7 +323,7 @@ _Om = jjit(vmap(_Om_at_z, in_axes=_A[:-1]))
 
 @jjit
 def _delta_vir(z, Om0, w0, wa):
-    x = _Om(z, Om0, w0, wa) - 1.0
+    x = _Om_at_z(z, Om0, w0, wa) - 1.0
     Delta = 18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2
     return Delta
 
-- 
2.43.0


From df8d71e9512c67822edace8e8b11439faa12db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 04/17] fix: blackbody gradients in the Wien tail and precision
 in the Rayleigh-Jeans regime

---
 dsps/dust/blackbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/dust/blackbody.py b/dsps/dust/blackbody.py
index 1df141a..16ec356 100644
--- a/dsps/dust/blackbody.py
+++ b/dsps/dust/blackbody.py
@@ -76,7 +76,7 @@ def _freq_density_denom(freq_hz, temp_kelvin):
     hnu = H_PLANCK * freq_hz
     kt = K_BOLTZ * temp_kelvin
     x = hnu / kt
-    denom = 1 / (lax.exp(x) - 1)
+    denom = lax.exp(-x) / -lax.expm1(-x)
     return denom
 
 
@@ -115,7 +115,7 @@ def _wave_density_denom(wave_meters, temp_kelvin):
     hc = H_PLANCK * C_SPEED
     kt = K_BOLTZ * temp_kelvin
     x = hc / kt / wave_meters
-    denom = 1 / (lax.exp(x) - 1)
+    denom = lax.exp(-x) / -lax.expm1(-x)
     return denom
 
 
-- 
2.43.0


From 8fe421fca96445d522412998296e3143f240de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 05/17] fix: write FSPS data without emission lines to disk

---
 scripts/write_fsps_data_to_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index cb97ea1..fea1187 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -32,7 +32,7 @@ if __name__ == "__main__":
     with h5py.File(args.outname, "w") as hdf:
         for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
             hdf[key] = arr
-        if "ssp_emline_wave" in ssp_data._fields:
+        if ssp_data.ssp_emline_wave is not None:
             ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
             ssp_emline_wave = np.array(
                 [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-- 
2.43.0


From 355c31d78d5f5eb5406dccd566f5c9b833535392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 06/17] fix: legend labels of the mass-metallicity comparison
 plot

---
 dsps/metallicity/diagnostics/plot_mzr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/metallicity/diagnostics/plot_mzr.py b/dsps/metallicity/diagnostics/plot_mzr.py
index a32b765..6c43a61 100644
--- a/dsps/metallicity/diagnostics/plot_mzr.py
+++ b/dsps/metallicity/diagnostics/plot_mzr.py
@@ -115,8 +115,8 @@ def make_mzr_comparison_plot(
 
     red_line = mlines.Line2D([], [], ls="-", c=colors[0], label=r"${\rm z=3}$")
     blue_line = mlines.Line2D([], [], ls="-", c=colors[-1], label=r"${\rm z=0}$")
-    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label2)
-    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label1)
+    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label1)
+    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label2)
     black_star = mlines.Line2D(
         [],
         [],
-- 
2.43.0


From 649ced8dca632fe774be99f3f202dd10c29326d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 07/17] fix: composite SEDs apply sfr_min to the SSP weights as
 well as to the mass

---
 dsps/sed/ssp_weights.py | 13 +++++++++++--
 dsps/sed/stellar_sed.py |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dsps/sed/ssp_weights.py b/dsps/sed/ssp_weights.py
index 8a6c9c1..0d20ffb 100644
--- a/dsps/sed/ssp_weights.py
+++ b/dsps/sed/ssp_weights.py
@@ -10,6 +10,7 @@ import typing
 from jax import jit as jjit
 from jax import numpy as jnp
 
+from ..constants import SFR_MIN
 from .metallicity_weights import (
     calc_lgmet_weights_from_lgmet_table,
     calc_lgmet_weights_from_lognormal_mdf,
@@ -37,6 +38,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated SFH and a lognormal MDF
 
@@ -63,6 +65,9 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     t_obs : float
         Age of the universe in Gyr at the time the galaxy is observed
 
+    sfr_min : float, optional
+        Minimum star formation rate in Msun/yr
+
     Returns
     -------
     SSPWeights : namedtuple with the following entries:
@@ -78,7 +83,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(
         gal_lgmet, gal_lgmet_scatter, ssp_lgmet
@@ -99,6 +104,7 @@ def calc_ssp_weights_sfh_table_met_table(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated star-formation and metallicity history
 
@@ -125,6 +131,9 @@ def calc_ssp_weights_sfh_table_met_table(
     t_obs : float
         Age of the universe in Gyr at the time the galaxy is observed
 
+    sfr_min : float, optional
+        Minimum star formation rate in Msun/yr
+
     Returns
     -------
     SSPWeights : namedtuple with the following entries:
@@ -140,7 +149,7 @@ def calc_ssp_weights_sfh_table_met_table(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lgmet_table(
         gal_t_table,
diff --git a/dsps/sed/stellar_sed.py b/dsps/sed/stellar_sed.py
index 41aa983..8323c9c 100644
--- a/dsps/sed/stellar_sed.py
+++ b/dsps/sed/stellar_sed.py
@@ -111,6 +111,7 @@ def calc_rest_sed_sfh_table_lognormal_mdf(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
@@ -194,6 +195,7 @@ def calc_rest_sed_sfh_table_met_table(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
-- 
2.43.0


From 179a063561e0cd09314b483fe0689d9b4fc04673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 08/17] fix: age_at_z is no longer negative at high redshift

The linear redshift table of lookback_to_z undersampled the integrand at low
redshift, so that for z>80 the lookback time exceeded the age of the universe.
---
 dsps/cosmology/flat_wcdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/cosmology/flat_wcdm.py b/dsps/cosmology/flat_wcdm.py
index c4775f9..12ccdca 100644
--- a/dsps/cosmology/flat_wcdm.py
+++ b/dsps/cosmology/flat_wcdm.py
@@ -211,7 +211,7 @@ def lookback_to_z(redshift, Om0, w0, wa, h):
         lookback time in Gyr
 
     """
-    z_table = jnp.linspace(0, redshift, 512)
+    z_table = jnp.expm1(jnp.linspace(0, jnp.log1p(redshift), 512))
     integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
     res = trapz(z_table, integrand)
     th = _hubble_time(0.0, Om0, w0, wa, h)
-- 
2.43.0


From 3084a748718ff12a7c96ba9ec0f1078e3bcc051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 09/17] fix: switch on double precision before any import-time
 computation

---
 dsps/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsps/__init__.py b/dsps/__init__.py
index 44cb25d..e00d393 100644
--- a/dsps/__init__.py
+++ b/dsps/__init__.py
@@ -1,6 +1,11 @@
 # flake8: noqa
 """
 """
+import jax
+
+# double precision must be switched on before anything is computed at import time
+jax.config.update("jax_enable_x64", True)
+
 from ._version import __version__
 from .data_loaders import SSPData, load_ssp_templates, load_transmission_curve
 from .photometry import *
-- 
2.43.0


From 2d457bd6e58eedfa7b6b0f733bb340cb7edec88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 10/17] fix: load_fake_ssp_data never returned for more than
 26**3 emission lines

---
 dsps/data_loaders/retrieve_fake_fsps_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/retrieve_fake_fsps_data.py b/dsps/data_loaders/retrieve_fake_fsps_data.py
index ce0dc9c..7930ac5 100644
--- a/dsps/data_loaders/retrieve_fake_fsps_data.py
+++ b/dsps/data_loaders/retrieve_fake_fsps_data.py
@@ -107,9 +107,12 @@ def _get_spec_ssp():
 
 
 def _get_emline_wave_namedtuple(n_line):
-    ssp_emline_name = {"XXX"}
+    n_char = 3
+    while len(string.ascii_uppercase) ** n_char < n_line:
+        n_char += 1  # there are not enough distinct names with fewer letters
+    ssp_emline_name = {"X" * n_char}
     while len(ssp_emline_name) < n_line:
-        ssp_emline_name.add("".join(random.choices(string.ascii_uppercase, k=3)))
+        ssp_emline_name.add("".join(random.choices(string.ascii_uppercase, k=n_char)))
     ssp_emline_name = list(ssp_emline_name)
     ssp_emline_wave = np.logspace(3, 6, n_line)
 
-- 
2.43.0


From 014e1ed02aa45cd42acf3f9ae63b28348accf55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 11/17] fix: bursty age weights for an integer-valued lgfburst

---
 dsps/sfh/diffburst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/sfh/diffburst.py b/dsps/sfh/diffburst.py
index 500ffbb..9200e3f 100644
--- a/dsps/sfh/diffburst.py
+++ b/dsps/sfh/diffburst.py
@@ -65,7 +65,7 @@ def calc_bursty_age_weights(burst_params, smooth_age_weights, ssp_lg_age_gyr):
         ssp_lg_age_yr, burst_params.lgyr_peak, burst_params.lgyr_max
     )
 
-    fb = 10**burst_params.lgfburst
+    fb = 10.0**burst_params.lgfburst
     age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights
 
     return age_weights
@@ -217,7 +217,7 @@ DEFAULT_BURST_U_PARAMS = BurstUParams(
 @jjit
 def _compute_bursty_age_weights_from_params(lgyr_since_burst, age_weights, params):
     lgfburst, lgyr_peak, lgyr_max = params
-    fburst = 10**lgfburst
+    fburst = 10.0**lgfburst
     burst_weights = _pureburst_age_weights_from_params(
         lgyr_since_burst, lgyr_peak, lgyr_max
     )
-- 
2.43.0


From 880367a5efe375ceeaf72c0465ee55f7dfd6b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 12/17] fix: SSP weights for integer-valued age and metallicity
 grids

---
 dsps/sed/stellar_age_weights.py | 2 +-
 dsps/utils.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/sed/stellar_age_weights.py b/dsps/sed/stellar_age_weights.py
index fbcc040..4d6f185 100644
--- a/dsps/sed/stellar_age_weights.py
+++ b/dsps/sed/stellar_age_weights.py
@@ -119,7 +119,7 @@ def _get_linspace_time_tables(t0=TODAY):
 def _get_lgt_birth(t_obs, lg_ages):
     """Age of the universe in Gyr at the birth time
     of the stellar populations observed at t_obs"""
-    t_birth = t_obs - 10**lg_ages
+    t_birth = t_obs - 10.0**lg_ages
     t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)
     lgt_birth = jnp.log10(t_birth)
     return lgt_birth
diff --git a/dsps/utils.py b/dsps/utils.py
index 640dd79..3e859ca 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -14,8 +14,8 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
+    dt = jnp.zeros_like(t, dtype=tmids.dtype)
     dtmids = jnp.diff(tmids)
 
     dt = dt.at[1:-1].set(dtmids)
-- 
2.43.0


From 19e870c145e554fc9545337b0cef8fd463c4cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 13/17] fix: power-law density and draws for integer-valued
 indices

---
 dsps/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsps/utils.py b/dsps/utils.py
index 3e859ca..871db2e 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -211,6 +211,7 @@ def powerlaw_pdf(x, a, b, g):
         Value of the PDF for each powerlaw
 
     """
+    g = 1.0 * g  # integer powers of integers are not fractions
     ag, bg = a**g, b**g
     return g * x ** (g - 1) / (bg - ag)
 
@@ -240,6 +241,7 @@ def powerlaw_rvs(ran_key, a, b, g):
     """
     npts = a.shape[0]
     r = jran.uniform(ran_key, (npts,))
+    g = 1.0 * g  # integer powers of integers are not fractions
     ag, bg = a**g, b**g
     return (ag + (bg - ag) * r) ** (1.0 / g)
 
-- 
2.43.0


From ef4879dde56a759287bf0a1d328e1d18363efabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 14/17] fix: surviving and remnant mass for integer-valued
 slope parameters

---
 dsps/imf/remnant_mass.py    | 2 +-
 dsps/imf/surviving_mstar.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsps/imf/remnant_mass.py b/dsps/imf/remnant_mass.py
index 45be8ce..32c0038 100644
--- a/dsps/imf/remnant_mass.py
+++ b/dsps/imf/remnant_mass.py
@@ -48,6 +48,6 @@ def remnant_mass(
 
 @jjit
 def _log_remnant_mass(lg_age_yr, a, b, lgk1, d, e):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     return 10 ** _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
diff --git a/dsps/imf/surviving_mstar.py b/dsps/imf/surviving_mstar.py
index 337bc5e..5d2b422 100644
--- a/dsps/imf/surviving_mstar.py
+++ b/dsps/imf/surviving_mstar.py
@@ -62,10 +62,10 @@ def surviving_mstar(
 
 @jjit
 def _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     z = _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
 
-    k2 = 10**lgk2
+    k2 = 10.0**lgk2
     h = _sigmoid(lg_age_yr, f, k2, h, z)
     return h
-- 
2.43.0


From 632b8ce4a9d46a527b577c77760c6e9f9dbc6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 15/17] fix: equivalent widths of spectra with integer-valued
 wavelengths

---
 dsps/em_lines/equivalent_width.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/em_lines/equivalent_width.py b/dsps/em_lines/equivalent_width.py
index 89bbafb..1d4ebff 100644
--- a/dsps/em_lines/equivalent_width.py
+++ b/dsps/em_lines/equivalent_width.py
@@ -23,7 +23,7 @@ def _get_integration_weights(x, x2, x3):
 @jjit
 def _weighted_quadratic_fit(x, y, w):
     deg = 2
-    lhs = jnp.vander(x, deg + 1)
+    lhs = jnp.vander(1.0 * x, deg + 1)
     rhs = y
 
     lhs *= w[:, jnp.newaxis]
-- 
2.43.0


From 306cb0f6f6a628bf034208df48c812cd1b78897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 16/17] fix: blackbody frequency density for integer-valued
 frequencies

---
 dsps/dust/blackbody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/dust/blackbody.py b/dsps/dust/blackbody.py
index 16ec356..fb8e738 100644
--- a/dsps/dust/blackbody.py
+++ b/dsps/dust/blackbody.py
@@ -83,7 +83,7 @@ def _freq_density_denom(freq_hz, temp_kelvin):
 @jjit
 def _jax_bb_freq_density_exparg(freq_hz):
     lg_term1 = LG2 + LGH - 2 * LGC
-    lg_term2 = 3 * lax.log(freq_hz)
+    lg_term2 = 3 * lax.log(1.0 * freq_hz)
     exparg = lg_term1 + lg_term2
     return exparg
 
-- 
2.43.0


From 7778b2710804eda1c043af5bf92b4ee7d9f112a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 17/17] fix: sigmoids of integer-valued arguments

---
 dsps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/utils.py b/dsps/utils.py
index 871db2e..62acfbf 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -149,7 +149,7 @@ def _get_triweights_singlepoint(x, sig, bin_edges):
 @jjit
 def _sigmoid(x, x0, k, ylo, yhi):
     height_diff = yhi - ylo
-    return ylo + height_diff * nn.sigmoid(k * (x - x0))
+    return ylo + height_diff * nn.sigmoid(1.0 * k * (x - x0))
 
 
 @jjit
-- 
2.43.0

