From 50dfdc71c3e56fc2fff9c525592c492059c8ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 01/27] fix: EOS coefficient b->s::c5 was a one-element tuple

A trailing comma made JMS->EOS translation and SMEFT->EOS matching raise TypeError.
---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 6acf24c..696f3ba 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1026,7 +1026,7 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbdd['Fsbdd4'] / 180 + Fsbss['Fsbss1'] / 54
         - Fsbss['Fsbss3'] / 60 - Fsbss['Fsbss4'] / 180
         + 5 * Fsbuu['Fsbuu1'] / 216 - Fsbuu['Fsbuu2'] / 216
-        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180,
+        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180
     )
     c6 = (
         + Fsbbb['Fsbbb1'] / 36 - Fsbbb['Fsbbb4'] / 30
-- 
2.43.0


From abdf3516d216ee038c643d1d4f5f296388792fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 02/27] fix: JMS to EOS/FormFlavor/Bern translation crashed
 when sectors were given

These functions need all coefficients as input; restricting the arrays to the
requested sectors raised KeyError.
---
 wilson/translate/wet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 696f3ba..973189c 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1726,7 +1726,7 @@ def get_parameters(scale, f=5, input_parameters=None):
 
 def JMS_to_EOS(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -1991,7 +1991,7 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
 
 def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
@@ -2010,7 +2010,7 @@ def JMS_to_FormFlavor(Cflat, scale, parameters=None, sectors=None):
 
 def JMS_to_Bern(Cflat, scale, parameters=None, sectors=None):
     p = get_parameters(scale, f=5, input_parameters=parameters)
-    C = JMS_to_array(Cflat, sectors=sectors)
+    C = JMS_to_array(Cflat)
     d={}
 
     # Class I
-- 
2.43.0


From b37365fd6262f1d9cf7547dce6be180be7580179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 03/27] fix: Wilson.__hash__ ignored the option values

---
 wilson/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 379d3dd..125a805 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -153,7 +153,9 @@ class Wilson(ConfigurableClass):
         """Return a hash of the `Wilson` instance.
         The hash changes when Wilson coefficient values or options are modified.
         It assumes that `wcxf.WC` instances are not modified after instantiation."""
-        return hash((self.wc, frozenset(self._options)))
+        options = {**self._options,
+                   'parameters': frozenset(self.get_option('parameters').items())}
+        return hash((self.wc, frozenset(options.items())))
 
     @classmethod
     def from_wc(cls, wc):
-- 
2.43.0


From bd0262cc6efd8c2ad972291a0f952bb287fdc9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 04/27] fix: set_option and set_default_option modified the
 caller's parameters dictionary

---
 wilson/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wilson/classes.py b/wilson/classes.py
index 125a805..20c5fec 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -56,6 +56,7 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
+            value = dict(value)  # do not modify the caller's dictionary
             value['gamma'] = value['delta']
             del value['delta']
         ####################################################################
@@ -75,6 +76,7 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
+            value = dict(value)  # do not modify the caller's dictionary
             value['gamma'] = value['delta']
             del value['delta']
         ####################################################################
-- 
2.43.0


From 39c87f8781da2537dfe329697671c66a28fd0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 05/27] fix: Wilson instances shared the mutable default
 parameters dictionary

---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 20c5fec..0594c07 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -11,6 +11,7 @@ SMEFT and WET RGEs to be used for plotting.
 from wilson.run.smeft import SMEFT
 from wilson.run.wet import WETrunner
 from wilson import parameters
+from copy import deepcopy
 import numpy as np
 from math import log, e
 from wilson import wcxf
@@ -38,7 +39,7 @@ class ConfigurableClass:
     _option_schema = vol.Schema({})
 
     def __init__(self):
-        self._options = self._default_options.copy()
+        self._options = deepcopy(self._default_options)
 
     @classmethod
     def set_default_option(cls, key, value):
-- 
2.43.0


From a62e040b297efe6b6830c5d570a5f2a09f3e72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 06/27] fix: match_run within SMEFT ignored user parameters in
 the final translation

---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 0594c07..7bdbaf5 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -241,7 +241,7 @@ class Wilson(ConfigurableClass):
             if eft == 'SMEFT':
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
-                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis)
+                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
                 self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
-- 
2.43.0


From e4b65d49854e71c529e7dd013755f5ea940fb132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 07/27] fix: match_run ignored user parameters in the WET
 running

The `parameters` option is documented to be used for running and translation.
---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 7bdbaf5..767dbb8 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -201,7 +201,8 @@ class Wilson(ConfigurableClass):
         """Return a dictionary of options to pass to a `run.wet.WETrunner`
         instance."""
         return {'qed_order': self.get_option('qed_order'),
-                'qcd_order': self.get_option('qcd_order')}
+                'qcd_order': self.get_option('qcd_order'),
+                'parameters': self.parameters}
 
     def match_run(self, scale, eft, basis, sectors='all'):
         """Run the Wilson coefficients to a different scale
-- 
2.43.0


From 745e8a60c392d5442049aad5d621866b2f3a0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 08/27] fix: m_c at scale m_c(m_c) ignored the number of
 flavours

---
 wilson/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/util/qcd.py b/wilson/util/qcd.py
index e540bd2..a1ff878 100644
--- a/wilson/util/qcd.py
+++ b/wilson/util/qcd.py
@@ -95,7 +95,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185, loop=3):
 def m_c(mcmc, scale, f, alphasMZ=0.1185, loop=3):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     crd = rundec.CRunDec()
-- 
2.43.0


From f6ad05188e30312843a5765e47e03629929145a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 09/27] fix: match_run failed for Higgs-Warsaw up input given
 at the matching scale

Only the Warsaw and Warsaw up bases have matchers to WET; at any other input
scale the input is translated to Warsaw first.
---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 767dbb8..bb959b5 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -250,7 +250,7 @@ class Wilson(ConfigurableClass):
                 wc_ew = self._get_from_cache(sector='all', scale=scale_ew, eft='WET', basis='JMS')
                 if wc_ew is None:
                     if self.wc.scale == scale_ew:
-                        wc_ew = self.wc.match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
+                        wc_ew = self.wc.translate('Warsaw', parameters=self.parameters).match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
                     else:
                         smeft = SMEFT(self.wc.translate('Warsaw', parameters=self.parameters))
                         wc_ew = smeft.run(scale_ew, accuracy=smeft_accuracy).match('WET', 'JMS', parameters=self.matching_parameters)
-- 
2.43.0


From c9da65bf1724c831ba06f65dd9975b52c3ccc6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 10/27] fix: do not register a basis whose parent does not
 exist

---
 wilson/wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index db63400..e254f53 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -219,7 +219,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -231,6 +230,8 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        # register the basis only once it is complete
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From b4d6390e96b499c6a820eda16cf77beac1dbd550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 11/27] fix: JMS_to_array and symmetrize_JMS_dict dropped
 redundant entries of Fierz-symmetric operators and undefined diagonals of
 antisymmetric ones

---
 wilson/util/wet_jms.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/wilson/util/wet_jms.py b/wilson/util/wet_jms.py
index 561eb9c..806f52d 100644
--- a/wilson/util/wet_jms.py
+++ b/wilson/util/wet_jms.py
@@ -77,6 +77,17 @@ def _antisymm_12(C):
     two indices of operators where C_ijkl = -C_jikl"""
     nans = np.isnan(C)
     C[nans] = -np.einsum('jikl', C)[nans]
+    # entries that are equal to minus themselves vanish
+    for i in range(3):
+        C[i, i][np.isnan(C[i, i])] = 0
+    return C
+
+
+def _symm_fierz(C):
+    """To get rid of NaNs produced by _scalar2array, symmetrize operators
+    where C_ijkl = C_ilkj"""
+    nans = np.isnan(C)
+    C[nans] = np.einsum('ilkj', C)[nans]
     return C
 
 
@@ -100,6 +111,8 @@ def JMS_to_array(C, sectors=None):
             Ca[k] = _symm_current(Ca[k])
         if k in C_symm_keys[4]:
             Ca[k] = _symm_herm(_symm_current(Ca[k]))
+        if k in C_symm_keys[6]:
+            Ca[k] = _symm_herm(_symm_fierz(_symm_current(_symm_fierz(Ca[k]))))
         if k in C_symm_keys[71]:
             Ca[k] = _antisymm_12(Ca[k])
     return Ca
@@ -139,8 +152,21 @@ def symmetrize_JMS_dict(C):
                     indnew = ''.join([k, l, i, j])
                     newname = '_'.join([name, indnew])
                     Cs[newname] = v
+        elif name in C_symm_keys[6]:
+            i, j, k, l = ind
+            for a, b, c, d in [(i, j, k, l), (k, l, i, j), (i, l, k, j), (k, j, i, l)]:
+                newname = '_'.join([name, a + b + c + d])
+                if newname in wc_keys:
+                    Cs[newname] = v
+                    break
+                newname = '_'.join([name, b + a + d + c])
+                if newname in wc_keys:
+                    Cs[newname] = v.conjugate()
+                    break
         elif name in C_symm_keys[71]:
             i, j, k, l = ind
+            if i == j:
+                continue  # vanishes by antisymmetry
             indnew = ''.join([j, i, k, l])
             Cs['_'.join([name, indnew])] = -v
     return Cs
-- 
2.43.0


From cc94c9289cdbb6c454d7e6252d48d4a41f15b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 12/27] fix: unscale_dict failed for arrays without qqql

---
 wilson/util/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/util/common.py b/wilson/util/common.py
index 78e358f..b666086 100644
--- a/wilson/util/common.py
+++ b/wilson/util/common.py
@@ -892,7 +892,8 @@ class EFTutil:
         C = self.pad_C(C)
         C = {k: self._scale_dict[k] * v for k, v in C.items()}
         for k in self.C_symm_keys.get(8, ()):
-            C[k] = self.unscale_8(C[k])
+            if k in C:
+                C[k] = self.unscale_8(C[k])
         C = self.unpad_C(C)
         return C
 
-- 
2.43.0


From 8a8d12c7b32c98c9f16fe148b1c84650babb2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 13/27] fix: WET QED running for eigenvalues that differ by 1
 up to rounding

The exact floating point comparison missed the resonant case, which occurs for
three flavours, and the general formula then gave rounding noise.
---
 wilson/run/wet/rge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 0a32b8e..2751f3d 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -74,7 +74,7 @@ def getUe(classname, eta_s, f, alpha_s, alpha_e, m_u, m_d, m_s, m_c, m_b, m_e, m
     K = np.linalg.inv(v) @ A.T @ v
     for i in range(K.shape[0]):
         for j in range(K.shape[1]):
-            if a[i] - a[j] != 1:
+            if abs(a[i] - a[j] - 1) > 1e-8:
                 K[i, j] *= (eta_s**(a[j] + 1) - eta_s**a[i]) / (a[i] - a[j] - 1)
             else:
                 K[i, j] *= eta_s**a[i] * log(1 / eta_s)
-- 
2.43.0


From f3e9c2384085d0029a1356710a7b1691bb87c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 14/27] fix: flavour quantum numbers of VddLL_1231 and
 VddRR_1231 in the WET RGE

In sector sb, these coefficients belong to b -> s operators' hermitian
conjugates; their complex conjugates mix with the other coefficients.
---
 wilson/run/wet/rge.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 2751f3d..5931ec2 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -85,6 +85,9 @@ qG = ['uG', 'dG']
 qgamma = ['ugamma', 'dgamma']
 lgamma = ['egamma', 'nugamma']
 G3 = ['G', 'Gtilde']
+# operators with the flavour quantum numbers of the hermitian conjugates of the
+# other operators in their sector (sb)
+flipped = ['VddLL_1231', 'VddRR_1231']
 
 
 def get_m(dipole_key):
@@ -116,6 +119,12 @@ def scale_C(key, p):
         return 1
 
 
+def conj_flipped(C, keylist):
+    """Complex conjugate the coefficients of operators in `flipped`."""
+    return [np.conj(C[i]) if key in flipped else C[i]
+            for i, key in enumerate(keylist)]
+
+
 def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
     r"""Solve the WET RGE for a specific sector.
 
@@ -143,6 +152,7 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
         # nothing to do for SM-like WCs or RG invariant operators
         C_result = C_input
     else:
+        C_input = conj_flipped(C_input, keylist)
         C_scaled = np.asarray([C_input[i] * scale_C(key, p_in) for i, key in enumerate(keylist)])
         if qcd_order == 0:
             Us = np.eye(len(C_scaled))
@@ -157,6 +167,7 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
                 Ue = getUe(classname, eta_s, f, **p_in)
         C_out = (Us + Ue) @ C_scaled
         C_result = [C_out[i] / scale_C(key, p_out) for i, key in enumerate(keylist)]
+        C_result = conj_flipped(C_result, keylist)
     for j in range(len(C_result)):
         Cdictout[keylist[j]] = C_result[j]
     return Cdictout
-- 
2.43.0


From 23810f0630eab0f5c2359c0f0a97aba9983bdd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 15/27] fix: WET-4 and WET-3 running returned coefficients
 named by NumPy strings

These could not be loaded again after dumping to YAML.
---
 wilson/run/wet/rge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 5931ec2..77504e3 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -146,7 +146,7 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
         perm_keys = get_permissible_wcs(sector, f)
     if perm_keys != 'all':
         # remove disallowed keys if necessary
-        keylist = np.asarray(keylist)[perm_keys]
+        keylist = [keylist[i] for i in perm_keys]
     C_input = np.array([C_in.get(key, 0) for key in keylist])
     if np.count_nonzero(C_input) == 0 or classname == 'inv':
         # nothing to do for SM-like WCs or RG invariant operators
-- 
2.43.0


From 7c44aa26128cc7aec8d0d2135406f44fb1523b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 16/27] fix: SMEFT running of ee and qqql violated the
 operators' Fierz-type identities

---
 wilson/run/smeft/rge.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index bd0fb7e..47b7eb9 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -9,12 +9,29 @@ from wilson.util import smeftutil
 import numpy as np
 
 
+def _beta(C, newphys=True):
+    """Beta functions of all SM parameters and SMEFT Wilson coefficients.
+
+    The operators `ee` and `qqql` fulfill (Fierz) identities that are not
+    manifest in their beta functions as returned by `beta.beta`. The linear
+    combinations of entries that do not contribute to the Lagrangian are
+    projected out here, such that the coefficients always have the same
+    symmetries as the operators."""
+    b = beta.beta(C, newphys=newphys)
+    b['ee'] = (b['ee'] + np.einsum('ptsr->prst', b['ee'])) / 2
+    q = b['qqql']
+    b['qqql'] = (4 * q - np.einsum('rpst->prst', q) - np.einsum('psrt->prst', q)
+                 + 2 * np.einsum('srpt->prst', q) + np.einsum('rspt->prst', q)
+                 + np.einsum('sprt->prst', q)) / 6
+    return b
+
+
 def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
     """Solve the SMEFT RGEs in the leading log approximation.
 
     Input C_in and output C_out are dictionaries of arrays."""
     C_out = deepcopy(C_in)
-    b = beta.beta(C_out, newphys=newphys)
+    b = _beta(C_out, newphys=newphys)
     for k, C in C_out.items():
         C_out[k] = C + b[k] / (16 * pi**2) * log(scale_out / scale_in)
     return C_out
@@ -23,8 +40,8 @@ def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
 def _smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
     """Axuliary function used in `smeft_evolve` and `smeft_evolve_continuous`"""
     def fun(t0, y):
-        return beta.beta_array(C=smeftutil.C_array2dict(y.view(complex)),
-                               newphys=newphys).view(float) / (16 * pi**2)
+        b = _beta(smeftutil.C_array2dict(y.view(complex)), newphys=newphys)
+        return smeftutil.C_dict2array(b).view(float) / (16 * pi**2)
     y0 = smeftutil.C_dict2array(C_in).view(float)
     sol = solve_ivp(fun=fun,
                     t_span=(log(scale_in), log(scale_out)),
-- 
2.43.0


From d6ae5ad213cadc937846bf89003430dd0a9a1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 17/27] fix: translation from flavio to Bern omitted
 lepton-flavour violating sd operators

---
 wilson/translate/wet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 973189c..7085fd2 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1954,11 +1954,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None, sectors=None):
                                         'db'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
                                         'db'+'l_'+l+'nu_'+lp))
-            if l == lp:  # l+l- only for l=l'
-                d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
-                                            'ds'+'l_'+l+'nu_'+lp, p,
-                                            norm_gf=True),
-                                            'ds'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        norm_gf=True),
+                                        'ds'+'l_'+l+'nu_'+lp))
             d.update(Fierz_to_Bern_nunu(Flavio_to_Fierz_nunu(C,
                                         'sb'+'l_'+l+'nu_'+lp, p,
                                         norm_gf=True),
-- 
2.43.0


From 9293c0285cb0086fe0f40450f7dea4bd93a9ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 18/27] fix: WET QCD running of G and Gtilde used the wrong
 normalisation

The operators are rescaled by the strong coupling before they are evolved,
for which the anomalous dimension is 12*CA - 4*b0, not 12*CA - 3*b0.
---
 wilson/run/wet/adm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/run/wet/adm.py b/wilson/run/wet/adm.py
index 5801b35..2704e0c 100644
--- a/wilson/run/wet/adm.py
+++ b/wilson/run/wet/adm.py
@@ -2027,8 +2027,8 @@ def adm_e_dF0(f, mu, md, ms, mc, mb, me, mmu, mtau):
 def adm_s_dF0(f, mu, md, ms, mc, mb, me, mmu, mtau):
     """1-loop QCD anomalous dimension matrix for sector dF0"""
     b0g = _b0g(f)
-    return np.array([[-3*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9, 0, 0, 0, 0, 0, 0, 9, 9, 0, 0],
-            [0, -3*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 9*1j, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 0, 0],
+    return np.array([[-4*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9, 0, 0, 0, 0, 0, 0, 9, 9, 0, 0],
+            [0, -4*b0g + 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 9*1j, 0, 0, 0, 0, 0, 0, 9*1j, 9*1j, 0, 0],
             [0, 0, -80/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, -2/3, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             [0, 0, 0, -16, 0, 64/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, -16/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             [0, 0, 0, 0, -16, 0, 64/9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, -16/3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
-- 
2.43.0


From 66db29b764c6793dbf816034b9af62e485088969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 19/27] fix: inaccurate vacuum expectation value for small
 C_phi

The solution of the quadratic equation suffered from numerical
cancellation, and the contribution was dropped below 1e-16 GeV^-2
---
 wilson/run/smeft/smpar.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index fe387f1..9035b29 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -46,13 +46,12 @@ def m2Lambda_to_vMh2(m2, Lambda, C):
     """
     Cphi = C['phi'].real
     Ckin = C['phiBox'].real - C['phiD'].real / 4
-    if abs(Cphi) < 1e-16:
-        v2 = 2 * m2 / Lambda
-    else:
-        sqrt_arg = Lambda**2 - 12 * Cphi * m2
-        if not sqrt_arg >= 0:
-            raise ValueError("'Lambda**2 - 12 * Cphi * m2' must be positive.")
-        v2 = ( Lambda - sqrt(sqrt_arg) )/( 3 * Cphi )
+    sqrt_arg = Lambda**2 - 12 * Cphi * m2
+    if not sqrt_arg >= 0:
+        raise ValueError("'Lambda**2 - 12 * Cphi * m2' must be positive.")
+    # equal to ( Lambda - sqrt(sqrt_arg) )/( 3 * Cphi ), but without the
+    # numerical cancellation for small Cphi
+    v2 = 4 * m2 / ( Lambda + sqrt(sqrt_arg) )
     if not v2 > 0:
         raise ValueError('No solution with positive v2.')
     Mh2 = v2 / ( 1 - 2 * Ckin * v2 ) * ( Lambda - 3 * Cphi * v2 )
-- 
2.43.0


From e0a248723f1418be054b50f05b9062a932424dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 20/27] fix: Higgs potential with negative or vanishing quartic
 coupling

The relation between the solutions without numerical cancellation only
holds for a positive coupling
---
 wilson/run/smeft/smpar.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index 9035b29..5908d7a 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -49,9 +49,16 @@ def m2Lambda_to_vMh2(m2, Lambda, C):
     sqrt_arg = Lambda**2 - 12 * Cphi * m2
     if not sqrt_arg >= 0:
         raise ValueError("'Lambda**2 - 12 * Cphi * m2' must be positive.")
-    # equal to ( Lambda - sqrt(sqrt_arg) )/( 3 * Cphi ), but without the
-    # numerical cancellation for small Cphi
-    v2 = 4 * m2 / ( Lambda + sqrt(sqrt_arg) )
+    if Lambda > 0:
+        # equal to ( Lambda - sqrt(sqrt_arg) )/( 3 * Cphi ), but without the
+        # numerical cancellation for small Cphi
+        v2 = 4 * m2 / ( Lambda + sqrt(sqrt_arg) )
+    elif abs(Cphi) > 1e-16:
+        v2 = ( Lambda - sqrt(sqrt_arg) )/( 3 * Cphi )
+    elif Lambda < 0:
+        v2 = 2 * m2 / Lambda
+    else:
+        raise ValueError("No solution for 'Lambda = 0' and 'Cphi = 0'.")
     if not v2 > 0:
         raise ValueError('No solution with positive v2.')
     Mh2 = v2 / ( 1 - 2 * Ckin * v2 ) * ( Lambda - 3 * Cphi * v2 )
-- 
2.43.0


From 941caae6607e09ea46c1a79c53ddf23722ff217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 21/27] fix: error for coefficients without solution for the
 hypercharge coupling

scipy.optimize.nonlin.NoConvergence does not exist any more, so that an
AttributeError was raised instead of the ValueError; brentq raises
RuntimeError if it does not converge
---
 wilson/run/smeft/smpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index 5908d7a..48978f3 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -98,7 +98,7 @@ def get_gpbar(ebar, gbar, v, C):
             return (ebar_calc - ebar).real
         try:
             gpbar = scipy.optimize.brentq(f0, 0, 3)
-        except (scipy.optimize.nonlin.NoConvergence, ValueError) as e:
+        except (RuntimeError, ValueError) as e:
             raise ValueError("No solution for gp found. This problem can be caused by very large values for one or several Wilson coefficients.")
     return gpbar * (1 - C['phiB'].real * (v**2))
 
-- 
2.43.0


From 947e236d2e0a0f9c805a32c639df2dca323e04f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:52 +0000
Subject: [PATCH 22/27] fix: continuous SMEFT solution lacks vanishing
 coefficients and SM parameters

Plotting a coefficient that is zero at the input scale or a SM parameter
raised a KeyError
---
 wilson/run/smeft/rge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index 47b7eb9..3cee1c9 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -68,7 +68,10 @@ def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
         t = log(scale)
         y = sol.sol(t).view(complex)
         yd = smeftutil.C_array2dict(y)
-        yw = smeftutil.arrays2wcxf_nonred(yd)
+        # keep the coefficients that vanish and the SM parameters
+        yw = dict.fromkeys(smeftutil.all_wcs, 0)
+        yw.update(smeftutil.arrays2wcxf_nonred(yd))
+        yw.update(smeftutil.arrays2wcxf({k: yd[k] for k in smeftutil.dim4_keys}))
         return yw
     def rge_solution(scale):
         # this is to return a scalar if the input is scalar
-- 
2.43.0


From 8dce58477104287bcf487ccf970a8b46bc1fc070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 23/27] fix: exit status of wcxf convert and swallowed
 AttributeErrors of the wcxf command

---
 wilson/wcxf/cli.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 491278f..3497dcf 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -75,18 +75,18 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):  # no subcommand given
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
     from wilson.wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
     if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_yaml(args.FILE, args.output)
 
 
 def translate(args):
-- 
2.43.0


From 4196c2a7983bdb0bfeb49c8ca7805f748f6eec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 24/27] fix: SMEFTsim cards contained complex numbers for real
 coefficients given as Re, Im

---
 wilson/wcxf/converters/smeftsim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index e9de49e..46103e5 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -96,7 +96,9 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
       """Return the coefficient scaled by the appropriate symmetry factor
       to account for the change from the flavor-non-redundant WCxf convention
       to the symmetrized SMEFTsim convention."""
-      return wc[key] / _symm_fac[key]
+      c = wc[key] / _symm_fac[key]
+      # numbers without imaginary part must not be written as complex ones
+      return c if c.imag else c.real
 
 
   if model_set == 'A':
-- 
2.43.0


From 3b836e00ec4ab971783cf2658d9d886fed143af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:12 +0000
Subject: [PATCH 25/27] fix: SMEFTsim cards lost the sign of flavour-diagonal
 Higgs current coefficients

---
 wilson/wcxf/converters/smeftsim.py | 84 +++++++++++++++---------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index 46103e5..06f1621 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -750,48 +750,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(scaled_wc('phiBtilde') * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(scaled_wc('phiWB') * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(scaled_wc('phiWtildeB') * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(scaled_wc('phil1_11')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(scaled_wc('phil1_11').real * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(scaled_wc('phil1_12')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(scaled_wc('phil1_13')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(scaled_wc('phil1_22')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(scaled_wc('phil1_22').real * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(scaled_wc('phil1_23')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(scaled_wc('phil1_33')) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(scaled_wc('phil3_11')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(scaled_wc('phil1_33').real * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(scaled_wc('phil3_11').real * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(scaled_wc('phil3_12')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(scaled_wc('phil3_13')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(scaled_wc('phil3_22')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(scaled_wc('phil3_22').real * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(scaled_wc('phil3_23')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(scaled_wc('phil3_33')) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(scaled_wc('phiq1_11')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(scaled_wc('phil3_33').real * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(scaled_wc('phiq1_11').real * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(scaled_wc('phiq1_12')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(scaled_wc('phiq1_13')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(scaled_wc('phiq1_22')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(scaled_wc('phiq1_22').real * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(scaled_wc('phiq1_23')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(scaled_wc('phiq1_33')) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(scaled_wc('phiq3_11')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(scaled_wc('phiq1_33').real * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(scaled_wc('phiq3_11').real * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(scaled_wc('phiq3_12')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(scaled_wc('phiq3_13')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(scaled_wc('phiq3_22')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(scaled_wc('phiq3_22').real * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(scaled_wc('phiq3_23')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(scaled_wc('phiq3_33')) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(scaled_wc('phie_11')) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(scaled_wc('phiq3_33').real * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(scaled_wc('phie_11').real * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(scaled_wc('phie_12')) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(scaled_wc('phie_13')) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(scaled_wc('phie_22')) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(scaled_wc('phie_22').real * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(scaled_wc('phie_23')) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(scaled_wc('phie_33')) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(scaled_wc('phiu_11')) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(scaled_wc('phie_33').real * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(scaled_wc('phiu_11').real * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(scaled_wc('phiu_12')) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(scaled_wc('phiu_13')) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(scaled_wc('phiu_22')) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(scaled_wc('phiu_22').real * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(scaled_wc('phiu_23')) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(scaled_wc('phiu_33')) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(scaled_wc('phid_11')) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(scaled_wc('phiu_33').real * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(scaled_wc('phid_11').real * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(scaled_wc('phid_12')) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(scaled_wc('phid_13')) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(scaled_wc('phid_22')) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(scaled_wc('phid_22').real * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(scaled_wc('phid_23')) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(scaled_wc('phid_33')) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(scaled_wc('phid_33').real * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(scaled_wc('ll_1111') * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(scaled_wc('ll_1122') * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(scaled_wc('ll_1221') * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -2714,66 +2714,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
 
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(scaled_wc('phil1_11')* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(scaled_wc('phil1_11').real* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(scaled_wc('phil1_12')* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(scaled_wc('phil1_13')* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(scaled_wc('phil1_22')* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(scaled_wc('phil1_22').real* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(scaled_wc('phil1_23')* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(scaled_wc('phil1_33')* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(scaled_wc('phil1_33').real* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(scaled_wc('phil1_12')), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(scaled_wc('phil1_13')), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(scaled_wc('phil1_23')), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(scaled_wc('phil3_11')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'],
+	[10, format(scaled_wc('phil3_11').real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'],
 	[11, format(abs(scaled_wc('phil3_12')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'],
 	[12, format(abs(scaled_wc('phil3_13')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'],
-	[13, format(abs(scaled_wc('phil3_22')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'],
+	[13, format(scaled_wc('phil3_22').real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'],
 	[14, format(abs(scaled_wc('phil3_23')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'],
-	[15, format(abs(scaled_wc('phil3_33')* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'],
+	[15, format(scaled_wc('phil3_33').real* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'],
 	[16, format(angle(scaled_wc('phil3_12')), '.6e') ,'# cHL3Ph12'],
 	[17, format(angle(scaled_wc('phil3_13')), '.6e') ,'# cHL3Ph13'],
 	[18, format(angle(scaled_wc('phil3_23')), '.6e') ,'# cHL3Ph23'],
-	[19, format(abs(scaled_wc('phiq1_11')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'],
+	[19, format(scaled_wc('phiq1_11').real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'],
 	[20, format(abs(scaled_wc('phiq1_12')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'],
 	[21, format(abs(scaled_wc('phiq1_13')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'],
-	[22, format(abs(scaled_wc('phiq1_22')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'],
+	[22, format(scaled_wc('phiq1_22').real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'],
 	[23, format(abs(scaled_wc('phiq1_23')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'],
-	[24, format(abs(scaled_wc('phiq1_33')* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'],
+	[24, format(scaled_wc('phiq1_33').real* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'],
 	[25, format(angle(scaled_wc('phiq1_12')), '.6e') ,'# cHq1Ph12'],
 	[26, format(angle(scaled_wc('phiq1_13')), '.6e') ,'# cHq1Ph13'],
 	[27, format(angle(scaled_wc('phiq1_23')), '.6e') ,'# cHq1Ph23'],
-	[28, format(abs(scaled_wc('phiq3_11')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'],
+	[28, format(scaled_wc('phiq3_11').real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'],
 	[29, format(abs(scaled_wc('phiq3_12')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'],
 	[30, format(abs(scaled_wc('phiq3_13')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'],
-	[31, format(abs(scaled_wc('phiq3_22')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'],
+	[31, format(scaled_wc('phiq3_22').real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'],
 	[32, format(abs(scaled_wc('phiq3_23')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'],
-	[33, format(abs(scaled_wc('phiq3_33')* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'],
+	[33, format(scaled_wc('phiq3_33').real* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'],
 	[34, format(angle(scaled_wc('phiq3_12')), '.6e') ,'# cHQ3Ph12'],
 	[35, format(angle(scaled_wc('phiq3_13')), '.6e') ,'# cHQ3Ph13'],
 	[36, format(angle(scaled_wc('phiq3_23')), '.6e') ,'# cHQ3Ph23'],
-	[37, format(abs(scaled_wc('phiu_11')* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'],
+	[37, format(scaled_wc('phiu_11').real* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'],
 	[38, format(abs(scaled_wc('phiu_12')* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'],
 	[39, format(abs(scaled_wc('phiu_13')* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'],
-	[40, format(abs(scaled_wc('phiu_22')* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'],
+	[40, format(scaled_wc('phiu_22').real* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'],
 	[41, format(abs(scaled_wc('phiu_23')* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'],
-	[42, format(abs(scaled_wc('phiu_33')* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'],
+	[42, format(scaled_wc('phiu_33').real* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'],
 	[43, format(angle(scaled_wc('phiu_12')), '.6e') ,'# cHuPh12'],
 	[44, format(angle(scaled_wc('phiu_13')), '.6e') ,'# cHuPh13'],
 	[45, format(angle(scaled_wc('phiu_23')), '.6e') ,'# cHuPh23'],
-	[46, format(abs(scaled_wc('phid_11')* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'],
+	[46, format(scaled_wc('phid_11').real* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'],
 	[47, format(abs(scaled_wc('phid_12')* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'],
 	[48, format(abs(scaled_wc('phid_13')* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'],
-	[49, format(abs(scaled_wc('phid_22')* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'],
+	[49, format(scaled_wc('phid_22').real* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'],
 	[50, format(abs(scaled_wc('phid_23')* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'],
-	[51, format(abs(scaled_wc('phid_33')* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'],
+	[51, format(scaled_wc('phid_33').real* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'],
 	[52, format(angle(scaled_wc('phid_12')), '.6e') ,'# cHdPh12'],
 	[53, format(angle(scaled_wc('phid_13')), '.6e') ,'# cHdPh13'],
 	[54, format(angle(scaled_wc('phid_23')), '.6e') ,'# cHdPh23'],
-	[55, format(abs(scaled_wc('phie_11')* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'],
+	[55, format(scaled_wc('phie_11').real* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'],
 	[56, format(abs(scaled_wc('phie_12')* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'],
 	[57, format(abs(scaled_wc('phie_13')* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'],
-	[58, format(abs(scaled_wc('phie_22')* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'],
+	[58, format(scaled_wc('phie_22').real* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'],
 	[59, format(abs(scaled_wc('phie_23')* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'],
-	[60, format(abs(scaled_wc('phie_33')* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'],
+	[60, format(scaled_wc('phie_33').real* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'],
 	[61, format(angle(scaled_wc('phie_12')), '.6e') ,'# cHePh12'],
 	[62, format(angle(scaled_wc('phie_13')), '.6e') ,'# cHePh13'],
 	[63, format(angle(scaled_wc('phie_23')), '.6e') ,'# cHePh23'],
-- 
2.43.0


From 14313a8045bdcec5348e37149de51f9354f577c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 26/27] fix: SMEFTsim card A lost the sign of ee_3333

---
 wilson/wcxf/converters/smeftsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/converters/smeftsim.py b/wilson/wcxf/converters/smeftsim.py
index 06f1621..a730f69 100644
--- a/wilson/wcxf/converters/smeftsim.py
+++ b/wilson/wcxf/converters/smeftsim.py
@@ -969,7 +969,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(scaled_wc('ee_2222') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'],
           [864, format(scaled_wc('ee_2233') * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'],
           [865, format(abs(scaled_wc('ee_1112')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'],
-          [866, format(abs(scaled_wc('ee_3333')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
+          [866, format(scaled_wc('ee_3333') * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'],
           [867, format(abs(scaled_wc('ee_1123')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'],
           [868, format(abs(scaled_wc('ee_1113')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'],
           [869, format(abs(scaled_wc('ee_1213')) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'],
-- 
2.43.0


From fb3263682f407ff9abc88e76d3f41ea638fb178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:04 +0000
Subject: [PATCH 27/27] fix: Wilson.match_run ignored the sectors argument when
 no running was needed

---
 wilson/classes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index bb959b5..8b215e7 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -231,10 +231,16 @@ class Wilson(ConfigurableClass):
         scale_ew = self.get_option('smeft_matchingscale')
         mb = self.get_option('mb_matchingscale')
         mc = self.get_option('mc_matchingscale')
-        if self.wc.basis == basis and self.wc.eft == eft and scale == self.wc.scale:
+        if self.wc.basis == basis and self.wc.eft == eft and scale == self.wc.scale and translate_sectors is None:
             return self.wc  # nothing to do
         if self.wc.eft == eft and scale == self.wc.scale:
             wc_out = self.wc.translate(basis, sectors=translate_sectors, parameters=self.parameters)  # only translation necessary
+            if translate_sectors is not None and eft != 'SMEFT':
+                # discard the coefficients from all other sectors
+                keys = {k for sector, wcs in wcxf.Basis[eft, basis].sectors.items()
+                        if sector in translate_sectors for k in wcs}
+                wc_out = wcxf.WC(eft, basis, scale,
+                                 {k: v for k, v in wc_out.values.items() if k in keys})
             self._set_cache(sectors, scale, eft, basis, wc_out)
             return wc_out
         if self.wc.eft == 'SMEFT':
-- 
2.43.0

