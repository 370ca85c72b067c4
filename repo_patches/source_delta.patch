From be06fffa75fb5b141b3e50d1ad3f738702083047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:15 +0000
Subject: [PATCH 01/16] fix: power_spectrum_mm must not share its cache slot
 with _power_spectrum_mm

hmf stores a cached quantity under a name with leading underscores collapsed, so
the two quantities overwrote each other: in response mode, requesting mm, then a
galaxy spectrum, then mm again returned the halo-model mm spectrum instead of the
supplied non-linear one.
---
 src/onepower/pk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..61fcff2 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1629,7 +1629,7 @@ class Spectra(HaloModelIngredients):
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
         )
 
-    @cached_quantity
+    @property
     def power_spectrum_mm(
         self,
     ):
-- 
2.43.0


From b2fe012fcc6ef026e9c8a42fc3ef0420f53cea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:57 +0000
Subject: [PATCH 02/16] fix: default feedback pivot mass mb is a mass, not its
 log10

---
 src/onepower/pk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 61fcff2..e2b3c0c 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -152,7 +152,7 @@ class Spectra(HaloModelIngredients):
         compute_observable=False,
         matter_power_lin=None,
         matter_power_nl=None,
-        mb=13.87,
+        mb=10.0**13.87,
         beta_nl=None,
         one_halo_ktrunc=0.1,
         two_halo_ktrunc=2.0,
-- 
2.43.0


From 2c40b4ffb7b45788726a8d7c5406987a7f6a2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:03 +0000
Subject: [PATCH 03/16] fix: dewiggling rejects a k grid that is not log-spaced

The spacing check compared the truth value of a product with zero and could never raise.
---
 src/onepower/pk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index e2b3c0c..be31dd5 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2720,10 +2720,10 @@ class Spectra(HaloModelIngredients):
         ndarray
             The wiggle component of the power spectrum.
         """
-        if not np.isclose(np.all(np.diff(k) - np.diff(k)[0]), 0.0):
-            raise ValueError('Dewiggle only works with linearly-spaced k array')
-
         dlnk = np.log(k[1] / k[0])
+        if not np.allclose(np.diff(np.log(k)), dlnk, rtol=1e-3, atol=0.0):
+            raise ValueError('Dewiggle only works with log-spaced k array')
+
         sigma = sigma_dlnk / dlnk
 
         Pk_nowiggle = (k**ns) * np.exp(self.Tk_EH_nowiggle_lnt(np.log(k))) ** 2.0
-- 
2.43.0


From da0d1f70f37b73311bfbf661ddec9960c78c740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:23 +0000
Subject: [PATCH 04/16] fix: reject observable_h_unit values that are not valid
 units

---
 src/onepower/hod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index b86c683..a8beb5a 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -85,6 +85,11 @@ class HaloOccupationDistribution(Component):
         self.mass = mass[np.newaxis, np.newaxis, :]
         self.z_vec = z_vec
         self.hod_settings = hod_settings or hod_settings_defaults
+        h_unit = self.hod_settings.get('observable_h_unit', valid_units[1])
+        if h_unit not in valid_units:
+            raise ValueError(
+                f'observable_h_unit {h_unit!r} is not supported, valid units are {valid_units}.'
+            )
         self.dndlnm = dndlnm
         self.halo_bias = halo_bias
 
-- 
2.43.0


From ddbddc00e05a7ad446784ae9f7c390980e133b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:39 +0000
Subject: [PATCH 05/16] fix: satellites at the first redshift use their own
 HMCode overdensity

DMHaloModel merges updated dict parameters into the dict it was given, so the loop over
redshifts overwrote self.mdef_params[0] before the satellite loop read it.
---
 src/onepower/hmi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..88e5e4b 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1111,7 +1111,7 @@ class HaloModelIngredients(CosmologyBase):
             disable_mass_conversion=self.disable_mass_conversion,
             bias_model=self._bias_mod,
             halo_profile_model=self.halo_profile_model_dm,
-            halo_profile_params=self.halo_profile_params,
+            halo_profile_params=dict(self.halo_profile_params),
             halo_concentration_model=self._halo_concentration_mod_dm,
             cosmo_model=self.cosmo_model,
             sigma_8=self.sigma_8,
@@ -1120,7 +1120,7 @@ class HaloModelIngredients(CosmologyBase):
             transfer_params=self.transfer_params,
             growth_model=self.growth_model,
             growth_params=self.growth_params,
-            mdef_params=self.mdef_params[0],
+            mdef_params=dict(self.mdef_params[0]),
             delta_c=self._delta_c_mod[0],
         )
         y = x.clone()
-- 
2.43.0


From 509b35c341d9302fae35fdab17bf7ca0e39e91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:31 +0000
Subject: [PATCH 06/16] fix: check the shape of the supplied linear power
 before dewiggling it

---
 src/onepower/pk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index be31dd5..4a46209 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -461,12 +461,12 @@ class Spectra(HaloModelIngredients):
         else:
             val = self.matter_power_lin
 
-        if self.nonlinear_mode == 'hmcode' or self.dewiggle:
-            val = self.dewiggle_plin(val)
         if val.shape != (self.z_vec.size, self.k_vec.size):
             raise ValueError(
                 'Shape of input power spectra is not equal to redshift and k-vec dimensions!'
             )
+        if self.nonlinear_mode == 'hmcode' or self.dewiggle:
+            val = self.dewiggle_plin(val)
         return val
 
     @cached_quantity
-- 
2.43.0


From ed09b9cffe89a94d26c9f92ac8adef040ea23e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:13 +0000
Subject: [PATCH 07/16] fix: keep the end point of downsampled halo quantities
 by index, not by value

---
 src/onepower/ia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..ecb7940 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -668,11 +668,11 @@ class SatelliteAlignment(AlignmentAmplitudes):
 
         if isinstance(quantity, np.ndarray) and quantity.ndim == 1:
             downsampled_quantity = quantity[::downsample_factor]
-            if downsampled_quantity[-1] != quantity[-1]:
+            if (quantity.shape[-1] - 1) % downsample_factor != 0:
                 downsampled_quantity = np.append(downsampled_quantity, quantity[-1])
         else:
             downsampled_quantity = quantity[:, ::downsample_factor]
-            if np.all(downsampled_quantity[:, -1] != quantity[:, -1]):
+            if (quantity.shape[-1] - 1) % downsample_factor != 0:
                 downsampled_quantity = np.concatenate(
                     (downsampled_quantity, np.atleast_2d(quantity[:, -1]).T), axis=1
                 )
-- 
2.43.0


From 348bef83a13abf38526f26ea744b243516c04e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:38 +0000
Subject: [PATCH 08/16] fix: recompute omega_m when the cosmology is updated

---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 88e5e4b..561d70a 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From c8a1fda5fc4cf68fc0afd81ca5d13a804fa3b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:02 +0000
Subject: [PATCH 09/16] fix: recompute the fractions and models of
 UpsampledSpectra when it is updated

---
 src/onepower/add.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..dc3640e 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,8 +1,7 @@
 import numpy as np
-from functools import cached_property
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
+from hmf._internals._cache import cached_quantity, parameter
 from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
@@ -126,7 +125,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +150,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +164,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +178,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From fd42153b4d7bf3a9ed4a4bab7e8d3ffb324d5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:02 +0000
Subject: [PATCH 10/16] fix: recompute the central alignment amplitude when
 beta_two is updated

---
 src/onepower/ia.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index ecb7940..38b1b82 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -168,6 +168,15 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @parameter('param')
+    def beta_two(self, val):
+        """
+        Second slope of the broken power law for central galaxies.
+
+        :type: float
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
-- 
2.43.0


From 7cb1e192ca88ceedaf2837b0abf08787821529f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:53 +0000
Subject: [PATCH 11/16] fix: record the dependencies of cached quantities at
 every evaluation

---
 src/onepower/add.py         |  3 ++-
 src/onepower/bnl.py         |  4 +++-
 src/onepower/hmi.py         |  4 +++-
 src/onepower/ia.py          |  4 +++-
 src/onepower/pk.py          |  3 ++-
 src/onepower/utils/cache.py | 42 +++++++++++++++++++++++++++++++++++++
 6 files changed, 55 insertions(+), 5 deletions(-)
 create mode 100644 src/onepower/utils/cache.py

diff --git a/src/onepower/add.py b/src/onepower/add.py
index dc3640e..fa328d4 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,10 +1,11 @@
 import numpy as np
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import cached_quantity, parameter
+from hmf._internals._cache import parameter
 from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
+from .utils.cache import cached_quantity
 
 
 class UpsampledSpectra(Framework):
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 4ed7af3..c5b0b4a 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -9,9 +9,11 @@ import numpy as np
 from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
-from hmf._internals._cache import cached_quantity, parameter
+from hmf._internals._cache import parameter
 from hmf._internals._framework import Framework
 
+from .utils.cache import cached_quantity
+
 try:
     from dark_emulator import darkemu
 
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 561d70a..5f50284 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -15,10 +15,12 @@ from scipy.integrate import quad, simpson, solve_ivp
 from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 
-from hmf._internals._cache import cached_quantity, parameter
+from hmf._internals._cache import parameter
 from hmf._internals._framework import Framework
 from hmf.halos.mass_definitions import SphericalOverdensity
 
+from .utils.cache import cached_quantity
+
 # Silencing a warning from hmf for which the nonlinear mass is still correctly calculated
 warnings.filterwarnings('ignore', message='Nonlinear mass outside mass range')
 
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 38b1b82..6d3960b 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -12,9 +12,11 @@ from scipy.integrate import simpson
 from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
-from hmf._internals._cache import cached_quantity, parameter
+from hmf._internals._cache import parameter
 from hmf._internals._framework import Framework
 
+from .utils.cache import cached_quantity
+
 
 class AlignmentAmplitudes(Framework):
     """
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4a46209..88f3cf6 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -41,7 +41,7 @@ from scipy.integrate import simpson
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter1d
 
-from hmf._internals._cache import cached_quantity, parameter
+from hmf._internals._cache import parameter
 from hmf._internals._framework import get_mdl
 from hmf.density_field.transfer_models import EH_NoBAO as Tk_EH_nowiggle
 
@@ -52,6 +52,7 @@ if HAVE_DARKEMU:
 from .hmi import HaloModelIngredients
 from .ia import SatelliteAlignment
 from .utils import poisson
+from .utils.cache import cached_quantity
 from . import hod
 
 NONLINEAR_MODES = ['bnl', 'hmcode', 'fortuna', None]
diff --git a/src/onepower/utils/cache.py b/src/onepower/utils/cache.py
new file mode 100644
index 0000000..eeb0643
--- /dev/null
+++ b/src/onepower/utils/cache.py
@@ -0,0 +1,42 @@
+"""
+Caching of quantities that depend on parameters.
+
+The caching of hmf records the parameters a quantity depends on only at its first evaluation.
+Most of the quantities here select between models based on their parameters,
+so the dependencies need to be recorded again at each evaluation.
+"""
+
+from functools import update_wrapper
+
+from hmf._internals._cache import cached_quantity as _cached_quantity
+from hmf._internals._cache import hidden_loc
+
+
+def cached_quantity(f):
+    """
+    Cache a quantity until any of the parameters used in its last evaluation is modified.
+
+    Parameters
+    ----------
+    f : callable
+        Method to evaluate the quantity.
+
+    Returns
+    -------
+    property
+        Cached quantity.
+    """
+    name = f.__name__
+    quantity = _cached_quantity(f)
+
+    def _get_property(self):
+        recalc = getattr(self, hidden_loc(self, 'recalc'))
+        if recalc.get(name, False):
+            # Outdated: forget the recorded dependencies, so that they are recorded again.
+            del recalc[name]
+            getattr(self, hidden_loc(self, 'recalc_prop_par')).pop(name, None)
+        return quantity.fget(self)
+
+    update_wrapper(_get_property, f)
+
+    return property(_get_property, None, quantity.fdel)
-- 
2.43.0


From 45f47a8f4b9281f6ee94af78a78ecc18e04185a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:08 +0000
Subject: [PATCH 12/16] fix: do not modify the dictionaries supplied by the
 caller

---
 src/onepower/add.py |  4 ++--
 src/onepower/hmi.py |  4 ++--
 src/onepower/pk.py  | 33 ++++++++++++++++-----------------
 3 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index fa328d4..4c91161 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -70,7 +70,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def _model_2_params(self, val):
@@ -79,7 +79,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def fraction_z(self, val):
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 5f50284..371d1b0 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -779,7 +779,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def growth_model(self, val):
@@ -797,7 +797,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def norm_cen(self, val):
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 88f3cf6..d10e502 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -309,7 +309,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def pointmass(self, val):
@@ -336,7 +336,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def hod_params(self, val):
@@ -345,7 +345,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def hod_settings(self, val):
@@ -354,7 +354,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def obs_settings(self, val):
@@ -363,7 +363,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('param')
     def t_eff(self, val):
@@ -399,7 +399,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val.copy() if isinstance(val, dict) else val
 
     @parameter('model')
     def hod_model(self, val):
@@ -2083,17 +2083,16 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
-            {
-                'z_vec': self.z_vec,
-                'mass_in': self.mass,
-                'c_in': self.conc_cen,
-                'r_s_in': self.r_s_cen,
-                'rvir_in': self.rvir_cen[0],
-                'method': 'fftlog',
-            }
-        )
-        return SatelliteAlignment(**self.align_params)
+        align_params = {
+            **self.align_params,
+            'z_vec': self.z_vec,
+            'mass_in': self.mass,
+            'c_in': self.conc_cen,
+            'r_s_in': self.r_s_cen,
+            'rvir_in': self.rvir_cen[0],
+            'method': 'fftlog',
+        }
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From f9d099e626a51b8c4d7a1879ff79876681116968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:39 +0000
Subject: [PATCH 13/16] fix: accept observables_file_hod in the CosmoSIS
 interface

---
 cosmosis_modules/onepower_interface.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 40cc26f..8026b16 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -128,6 +128,13 @@ def setup_hod_settings(options, suffix):
     return hod_settings
 
 
+def get_nbins(hod_settings):
+    """Number of galaxy bins described by the HOD settings."""
+    if hod_settings['observables_file'] is not None:
+        return 1
+    return len(hod_settings['obs_min'])
+
+
 def setup_hod_settings_mm(hod_settings):
     """Setup matter-matter HOD settings based on options."""
     hod_settings_mm = hod_settings.copy()
@@ -316,7 +323,7 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = len(hod_settings['obs_min'])
+        nbins = get_nbins(hod_settings)
     else:
         hod_settings = {}
         hod_settings_mm = {}
-- 
2.43.0


From 146349e947bfa7595289f05e91f8f6c192516b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:39 +0000
Subject: [PATCH 14/16] fix: pass the requested alignment dependence of
 centrals and satellites to the model

---
 cosmosis_modules/onepower_interface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 8026b16..8af5804 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -913,7 +913,7 @@ def execute(block, config):
 
     if alignment:
         align_params = {}
-        if central_IA == 'halo_mass':
+        if satellite_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_sat': block[
@@ -931,7 +931,7 @@ def execute(block, config):
                     'mpivot_sat': None,
                 }
             )
-        if satellite_IA == 'halo_mass':
+        if central_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_cen': block[
@@ -951,6 +951,8 @@ def execute(block, config):
             )
         align_params.update(
             {
+                'central_ia_depends_on': central_IA,
+                'satellite_ia_depends_on': satellite_IA,
                 'nmass': 5,
                 'n_hankel': 350,
                 'nk': 10,
@@ -981,7 +983,7 @@ def execute(block, config):
         )
         if split_ia:
             align_params_2 = align_params.copy()
-            if central_IA == 'halo_mass':
+            if satellite_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_sat': block[
@@ -999,7 +1001,7 @@ def execute(block, config):
                         'mpivot_sat': None,
                     }
                 )
-            if satellite_IA == 'halo_mass':
+            if central_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_cen': block[
-- 
2.43.0


From 6b25c21d3b9af7bae6603eae841ed9b214d5d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:39 +0000
Subject: [PATCH 15/16] fix: read the HOD parameters of every bin when only
 alignments are requested

---
 cosmosis_modules/onepower_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 8af5804..1b9a9ce 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -336,6 +336,8 @@ def setup_hod(options, galaxy, alignment, split_ia):
         else:
             hod_settings_ia_1 = setup_hod_settings(options, 'ia')
             hod_settings_ia_2 = {}
+        if not galaxy:
+            nbins = get_nbins(hod_settings_ia_1)
     else:
         hod_settings_ia_1 = {}
         hod_settings_ia_2 = {}
-- 
2.43.0


From ba75693e98b789733005bb71ab6ef43e706ab695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:39 +0000
Subject: [PATCH 16/16] fix: write galaxy HOD outputs only when requested and
 observables whenever requested

---
 cosmosis_modules/onepower_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 1b9a9ce..989be35 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -1038,7 +1038,6 @@ def execute(block, config):
                 }
             )
 
-    hod = not (matter and not galaxy)
     # power = Spectra(**power_kwargs)
     power = config_hmf['power']
     power.update(**power_kwargs)
@@ -1055,8 +1054,9 @@ def execute(block, config):
 
     save_matter_results(block, power, z_vec, k_vec)
 
-    if hod:
+    if galaxy:
         hod_bins = save_hod_results(block, power, z_vec, hod_section_name, hod_settings)
+    if galaxy or alignment:
         if power.obs_func is not None and obs_settings['save_observable']:
             save_obs_results(
                 block, power, obs_settings['observable_section_name'], obs_settings
-- 
2.43.0

