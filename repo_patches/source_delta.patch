From 5112e15c45ec0f88b2017697e5a67be3b25ee2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 01/50] fix: profile_args of GNFW and PJAFFE halos reuse the
 halo's own concentration

profile_args (hence the lensing arguments) drew a second concentration from
the concentration model, so with scatter the lensing profile disagreed with halo.c
---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py     | 4 ++--
 pyHalo/Halos/HaloModels/generalized_nfw.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index ed33abc..14201d0 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -111,7 +111,7 @@ class PJaffeSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
@@ -125,7 +125,7 @@ class PJaffeFieldhalo(PJaffeSubhalo):
 
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 81020d4..53c36f5 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -84,7 +84,7 @@ class GeneralNFWSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             gamma_inner = self._args['gamma_inner']
             gamma_outer = self._args['gamma_outer']
             self._profile_args = (concentration, gamma_inner, gamma_outer)
-- 
2.43.0


From 15916d14db020326687ac5662d53dbd89c88646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 02/50] fix: GNFW density normalization does not write into the
 shared profile arguments

Every halo of a realization shares kwargs_density_profile, so the scale radius of
the first halo evaluated was silently used as the transition radius of all others
---
 pyHalo/Halos/HaloModels/generalized_nfw.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 53c36f5..e3a5a90 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -99,8 +99,7 @@ class GeneralNFWSubhalo(Halo):
         if not hasattr(self, '_rho0_norm'):
             (concentration, gamma_inner, gamma_outer) = self.profile_args
             rhos, rs_nfw, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
-            if 'r_transition' not in self._args.keys():
-                self._args['r_transition'] = rs_nfw
+            r_transition = self._args.get('r_transition', rs_nfw)
             kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
             if 'x_match' in self._args.keys():
                 if self._args['x_match'] == 'c':
@@ -110,13 +109,13 @@ class GeneralNFWSubhalo(Halo):
             else:
                 # r_vmax = 2.16 * rs
                 x_match = 2.16
-            rs_arcsec = self._args['r_transition'] / kpc_per_arcsec
-            r_match_arcsec = x_match * self._args['r_transition'] / kpc_per_arcsec
+            rs_arcsec = r_transition / kpc_per_arcsec
+            r_match_arcsec = x_match * r_transition / kpc_per_arcsec
             if 'mass_conservation' in self._args.keys():
                 m_match = self._args['mass_conservation']
             else:
                 fx = np.log(1 + x_match) - x_match / (1 + x_match)
-                m_match = 4 * np.pi * self._args['r_transition'] ** 3 * rhos * fx
+                m_match = 4 * np.pi * r_transition ** 3 * rhos * fx
             sigma_crit_arcsec = self._lens_cosmo.sigma_crit_arcsecond_interp(self.z)
             self._rho0_norm = m_match / self._prof.mass_3d(r_match_arcsec, rs_arcsec, sigma_crit_arcsec, gamma_inner, gamma_outer)
         return self._rho0_norm
-- 
2.43.0


From 54130b6f27516e49e8d8c5b5159d2b8481efe55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 03/50] fix: TNFW mass_3d evaluates the truncation before using
 the rescaled normalization

The Galacticus truncation models rescale the halo while profile_args is computed, so
the first call of mass_3d used the unrescaled density and later calls the rescaled one
---
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 3bdfca7..75a9f9c 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -141,8 +141,8 @@ class TNFWFieldHalo(Halo):
         if rmax == 'r200':
             rmax = self.nfw_params[1] * self.c
         rs = self.nfw_params[1]
-        rho0 = self.nfw_params[0] * self._rescale_norm
         r_trunc = self.profile_args[1]
+        rho0 = self.nfw_params[0] * self._rescale_norm
         return self.tnfw_lenstronomy.mass_3d(rmax, rs, rho0, r_trunc/rs)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
-- 
2.43.0


From 29e119657abd3358ecf97960d03828ed689d41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 04/50] fix: subhalo profile uses the memoised Galacticus bound
 mass for every truncation class

Only TruncationGalacticus used halo.bound_mass_galacticus_definition; the other classes
drew a second bound mass, so the density profile and the reported bound mass disagreed
---
 pyHalo/Halos/HaloModels/TNFW.py  |  5 ++++-
 pyHalo/Halos/tidal_truncation.py | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 75a9f9c..0cdd3de 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -339,7 +339,10 @@ class TNFWSubhalo(TNFWFieldHalo):
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            if self._truncation_class.name == 'TruncationGalacticus':
+            if self._truncation_class.name in ['TruncationGalacticus',
+                                               'TruncationGalacticusZinfall',
+                                               'TruncationGalacticusKeeley24',
+                                               'TruncationGalacticusApproxCDM']:
                 mbound = self.bound_mass_galacticus_definition
                 truncation_radius_kpc = self._truncation_class.truncation_radius_from_bound_mass(self, mbound)
             else:
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 3196f6a..ed04ced 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -244,6 +244,15 @@ class TruncationGalacticusKeeley24(object):
         return self.truncation_radius(halo.mass, halo.c,
                                       halo.time_since_infall, self._chost, halo.z_eval)
 
+    def truncation_radius_from_bound_mass(self, halo, m_bound):
+        """
+        This method computes the truncation radius from a known bound mass
+        :param halo: an instance of Halo
+        :param m_bound: the bound mass of the halo
+        :return: the truncation radius in physical kpc
+        """
+        return self._truncation_radius(halo.mass, halo.c, np.log10(m_bound / halo.mass), halo.z_eval)
+
     def truncation_radius(self, halo_mass, infall_concentration,
                           time_since_infall, chost, z_eval):
         """
@@ -257,6 +266,11 @@ class TruncationGalacticusKeeley24(object):
         """
         log10c = np.log10(infall_concentration)
         log10mbound_over_minfall = self._mass_loss_interp(log10c, time_since_infall, chost)
+        return self._truncation_radius(halo_mass, infall_concentration, log10mbound_over_minfall, z_eval)
+
+    def _truncation_radius(self, halo_mass, infall_concentration, log10mbound_over_minfall, z_eval):
+
+        log10c = np.log10(infall_concentration)
         point = self._make_params_in_bounds_tau_evaluate((log10c, log10mbound_over_minfall))
         log10tau = float(self._tau_mf_interpolation(point))
         tau = 10 ** log10tau
-- 
2.43.0


From 20c22cf6fc75f11e7c6354317e6b8379404df095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 05/50] fix: rescaling a halo invalidates its cached maximum
 circular velocity

---
 pyHalo/Halos/halo_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 9d01995..7e5df70 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -79,6 +79,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
         elif self._rescaled_once:
             pass
         else:
@@ -91,6 +93,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
 
     @property
     @abstractmethod
-- 
2.43.0


From 41d31c2a0077b231529e2271e1b939931de0eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 06/50] fix: TNFWFromParams halos survive a rescaling of their
 normalization

rescale_normalization deletes the memoised params_physical, which for this class
held the only copy of the input parameters (the next read recursed without end)
---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index b56cde4..c0f9c35 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -24,8 +24,8 @@ class TNFWFromParams(TNFWSubhalo):
         x = x_kpc / self._kpc_per_arcsec_at_z
         y = y_kpc / self._kpc_per_arcsec_at_z
         keys_physical = (self.KEY_RV,self.KEY_RS,self.KEY_RHO_S,self.KEY_RV,self.KEY_RT)
-        self._params_physical = {key:args[key] for key in keys_physical}
-        self._c = self._params_physical[self.KEY_RV] / self._params_physical[self.KEY_RS]
+        self._params_from_input = {key:args[key] for key in keys_physical}
+        self._c = self._params_from_input[self.KEY_RV] / self._params_from_input[self.KEY_RS]
         self.id = args.get(self.KEY_ID)
         self._z_infall = args.get(self.KEY_Z_INFALL)
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
@@ -37,7 +37,7 @@ class TNFWFromParams(TNFWSubhalo):
         :return: the density profile in units M_sun / kpc^3
         """
 
-        _params = self._params_physical if params_physical is None else params_physical
+        _params = self._params_from_input if params_physical is None else params_physical
 
         r_t = _params[self.KEY_RT]
         r_s = _params[self.KEY_RS]
@@ -53,6 +53,16 @@ class TNFWFromParams(TNFWSubhalo):
         return density_nfw * (tau**2 / (tau**2 + x**2))**n
 
 
+    @property
+    def params_physical(self):
+        """
+        See documentation in base class (Halos/halo_base.py)
+        """
+        if not hasattr(self, '_params_physical'):
+            self._params_physical = dict(self._params_from_input)
+            self._params_physical[self.KEY_RHO_S] = self._params_from_input[self.KEY_RHO_S] * self._rescale_norm
+        return self._params_physical
+
     @property
     def profile_args(self):
         """
@@ -75,7 +85,7 @@ class TNFWFromParams(TNFWSubhalo):
 
             r_t = self.params_physical[self.KEY_RT]
             r_s = self.params_physical[self.KEY_RS]
-            rho_s = self.params_physical[self.KEY_RHO_S]
+            rho_s = self._params_from_input[self.KEY_RHO_S]
 
             Rs_angle, theta_Rs = self.lens_cosmo.nfw_physical2angle_fromNFWparams(rho_s *1 / KPC_TO_MPC**3,r_s * KPC_TO_MPC,self.z)
 
-- 
2.43.0


From 540a0ac2cf3c3348b3dfcad83d25fb21875df5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 07/50] fix: CoreCollapsedHaloBH split lensing arguments use
 center_y and their own memo

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 564cb73..026f187 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -323,9 +323,9 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
                                'Rs': Rs_angle,
                         'alpha_Rs': alpha_Rs_envelope,
                         'r_trunc': r_trunc_arcsec}
-            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'cetner_y': y}
-            self._lenstronomy_args = [kwargs_center, kwargs_envelope]
-        return self._lenstronomy_args, None
+            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'center_y': y}
+            self._lenstronomy_args_split = [kwargs_center, kwargs_envelope]
+        return self._lenstronomy_args_split, None
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From 136bfbba972f3e34aed8640026dc4be7339aad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 08/50] fix: ULDM halos use distances and critical density at
 their own redshift

---
 pyHalo/Halos/HaloModels/ULDM.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/ULDM.py b/pyHalo/Halos/HaloModels/ULDM.py
index ad204ac..827969f 100644
--- a/pyHalo/Halos/HaloModels/ULDM.py
+++ b/pyHalo/Halos/HaloModels/ULDM.py
@@ -73,6 +73,15 @@ class ULDMFieldHalo(Halo):
 
         return self._profile_args
 
+    @property
+    def _sigma_crit_arcsec(self):
+        """
+        The critical surface density for lensing at the halo redshift in units M_sun / arcsec^2
+        """
+        kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
+        sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
+        return sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
+
     def _uldm_args(self, m_log10, M, plaw):
         """
         :param m_log10: ULDM particle mass in log10 units
@@ -84,8 +93,8 @@ class ULDMFieldHalo(Halo):
         r_c = self._core_radius(m_log10, M, plaw) # in kpc
         rho_c = self._central_density(m_log10, r_c) # in M_solar/pc^3
         r_c *= 10**3 # in pc
-        Sigma_crit = self._lens_cosmo.sigma_crit_lensing * 10**(-12) # in M_solar/parsec^2
-        D_lens = self._lens_cosmo.D_d * 10**6 # in pc
+        Sigma_crit = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source) * 10**(-12) # in M_solar/parsec^2
+        D_lens = self._lens_cosmo.cosmo.D_A_z(self.z) * 10**6 # in pc
         theta_c = r_c / D_lens / const.arcsec # in arcsec
         kappa_0 = 429 * np.pi * rho_c * r_c / (2048 * np.sqrt(0.091) * Sigma_crit) # lensing units
         return [theta_c, kappa_0]
@@ -161,10 +170,11 @@ class ULDMFieldHalo(Halo):
         cnfw_params['r_core'] /= beta
         uldm_params['kappa_0'] /= q
 
+        sigma_crit = self._sigma_crit_arcsec
         M_nfw = CNFW().mass_3d_lens(r200, cnfw_params['Rs'],
-                    cnfw_params['alpha_Rs']*self._lens_cosmo.sigmacrit, cnfw_params['r_core'])
+                    cnfw_params['alpha_Rs']*sigma_crit, cnfw_params['r_core'])
         M_uldm = Uldm().mass_3d_lens(r200,
-                    uldm_params['kappa_0']*self._lens_cosmo.sigmacrit, uldm_params['theta_c'])
+                    uldm_params['kappa_0']*sigma_crit, uldm_params['theta_c'])
 
         if (self._args['scale_nfw']):
             # When scale_nfw is True rescale alpha_Rs to improve mass accuracy
@@ -187,7 +197,7 @@ class ULDMFieldHalo(Halo):
         :return: Evaluated mass constraint equation for CNFW component profile
         """
         r_core = beta * rs
-        sigma_crit = self.lens_cosmo.sigmacrit
+        sigma_crit = self._sigma_crit_arcsec
         args_nfw = (r, rs, alpha_rs*sigma_crit, r_core)
         args_uldm = (r, kappa_0*sigma_crit, theta_c)
 
-- 
2.43.0


From eb9a8ff9499c61599937bbc3c8a9cd5513f3b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 09/50] fix: keep the three-dimensional radius when adding
 cored halos

---
 pyHalo/realization_extensions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9cccdba..b511d52 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -277,8 +277,7 @@ class RealizationExtensions(object):
                                                         halo.c)
             if core_density_profile == 'CNFW':
                 if i in halo_index_list:
-                    r3d = None
-                    new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
+                    new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, halo.r3d, halo.z,
                                            halo.is_subhalo, self._realization.lens_cosmo, args,
                                            truncation_class, concentration_class, halo.unique_tag)
                     if halo.is_subhalo:
-- 
2.43.0


From 78f47a1a143ed44fe178143162816a4d84d1993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 10/50] fix: adding core collapsed halos no longer modifies the
 arguments of the original halos

---
 pyHalo/realization_extensions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index b511d52..8e0bb2b 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -885,7 +885,9 @@ class RealizationExtensions(object):
                 else:
                     truncation_class = halo._truncation_class
                     concentration_class = halo._concentration_class
-                    halo.update_args(kwargs_halo)
+                    # the original halo (and all halos that share its arguments) keep their own settings
+                    args_profile = dict(halo.args_profile)
+                    args_profile.update(kwargs_halo)
                     if is_subhalo:
                         new_halo = subhalo_model(halo.mass,
                                                halo.x,
@@ -894,7 +896,7 @@ class RealizationExtensions(object):
                                                halo.z,
                                                is_subhalo,
                                                halo.lens_cosmo,
-                                               halo.args_profile,
+                                               args_profile,
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
@@ -906,7 +908,7 @@ class RealizationExtensions(object):
                                                  halo.z,
                                                  is_subhalo,
                                                  halo.lens_cosmo,
-                                                 halo.args_profile,
+                                                 args_profile,
                                                  truncation_class,
                                                  concentration_class,
                                                  halo.unique_tag)
-- 
2.43.0


From f5f4e7260fc84cf4c2558025beb2277a90e4712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 11/50] fix: core collapsed subhalos keep the infall redshift
 and bound mass of the original subhalo

---
 pyHalo/realization_extensions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 8e0bb2b..1696d2c 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -900,6 +900,9 @@ class RealizationExtensions(object):
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
+                        new_halo.set_infall_redshift(halo.z_infall)
+                        if halo.mdef == 'TNFW':
+                            new_halo.set_bound_mass(halo.bound_mass)
                     else:
                         new_halo = fieldhalo_model(halo.mass,
                                                  halo.x,
-- 
2.43.0


From a3a0d8f4bbb2dfcff9a4332f23b1e21f3f05a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 12/50] fix: shift_background_to_source moves copies, keeps
 halos below min_shift_redshift

---
 pyHalo/single_realization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 283367d..aff5c1c 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -10,7 +10,7 @@ from pyHalo.Halos.HaloModels.blackhole import BlackHole
 from pyHalo.Halos.HaloModels.ULDM import ULDMFieldHalo, ULDMSubhalo
 from pyHalo.Halos.HaloModels.gaussianhalo import GaussianHalo
 import numpy as np
-from copy import deepcopy
+from copy import copy, deepcopy
 
 
 def realization_at_z(realization,
@@ -403,7 +403,15 @@ class Realization(object):
                 halos_out.append(halo)
                 continue
             if halo.z < min_shift_redshift:
+                halos_out.append(halo)
                 continue
+            # shift a copy, such that the halos of this realization stay where they are
+            halo = copy(halo)
+            # lensing arguments computed before the shift have the old position
+            for name in ('_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split',
+                         '_lenstronomy_params'):
+                if hasattr(halo, name):
+                    delattr(halo, name)
             to_shift.append(halo)
             halos_out.append(halo)
 
-- 
2.43.0


From 859074feec55e0ae3937b0a564f3ae694a1416d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 13/50] fix: realizations derived from a shifted realization
 stay marked as shifted

---
 pyHalo/realization_extensions.py |  4 ++++
 pyHalo/single_realization.py     | 20 +++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 1696d2c..978110e 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -67,6 +67,7 @@ class RealizationExtensions(object):
                                              self._realization._rendering_center_x,
                                              self._realization._rendering_center_y,
                                              self._realization.geometry)
+        realization._has_been_shifted = self._realization._has_been_shifted
         return realization
 
     def add_black_holes(self, log10_mass_ratio,
@@ -165,6 +166,7 @@ class RealizationExtensions(object):
                                    self._realization._rendering_center_x,
                                    self._realization._rendering_center_y,
                                    self._realization.geometry)
+        mbh_realization._has_been_shifted = self._realization._has_been_shifted
         return mbh_realization
 
     def add_globular_clusters(self, log10_mgc_mean, log10_mgc_sigma, rendering_radius_arcsec,
@@ -251,6 +253,7 @@ class RealizationExtensions(object):
                                                      self._realization._rendering_center_x,
                                                      self._realization._rendering_center_y,
                                                      self._realization.geometry)
+            gcs_realization._has_been_shifted = self._realization._has_been_shifted
             if GC_realization is None:
                 GC_realization = gcs_realization
             else:
@@ -1002,6 +1005,7 @@ class RealizationExtensions(object):
                                       msheet_correction, rendering_classes,
                                       rendering_center_x, rendering_center_y,
                                       self._realization.geometry)
+        fluc_realization._has_been_shifted = self._realization._has_been_shifted
 
         # join realization to dark substructure realization
         return self._realization.join(fluc_realization)
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index aff5c1c..820a851 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -49,11 +49,13 @@ def realization_at_z(realization,
     centerx, centery = realization.rendering_center
     kwargs_halo_model = realization.kwargs_halo_model
     geometry = realization.geometry
-    return Realization.from_halos(halos, realization.lens_cosmo,
+    new_realization = Realization.from_halos(halos, realization.lens_cosmo,
                                   kwargs_halo_model,
                                   mass_sheet_correction,
                                   realization.rendering_classes,
-                                  centerx, centery, geometry), indexes
+                                  centerx, centery, geometry)
+    new_realization._has_been_shifted = realization._has_been_shifted
+    return new_realization, indexes
 
 class Realization(object):
 
@@ -227,9 +229,11 @@ class Realization(object):
             dy = self.y[check, None] - np.asarray(y_coords)[None, :]
             keep[check] = np.any(np.hypot(dx, dy) < aperture_radius_arcsec, axis=1)
         halos = [self.halos[i] for i in np.where(keep)[0]]
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def filter(self, aperture_radius,
                log10_mass_allowed_global,
@@ -315,9 +319,11 @@ class Realization(object):
             for i in inds_keep_at_plane:
                 halos.append(plane_halos[i])
 
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def set_rendering_classes(self, rendering_classes):
 
@@ -377,9 +383,11 @@ class Realization(object):
             rendering_classes = self.rendering_classes
 
         centerx, centery = self.rendering_center
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, rendering_classes,
                                       centerx, centery, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted or real._has_been_shifted
+        return new_realization
 
     def shift_background_to_source(self, ray_interp_x, ray_interp_y, min_shift_redshift=0):
         """
@@ -539,6 +547,8 @@ class Realization(object):
         realization_2 = Realization.from_halos(halos_2, self.lens_cosmo,
                                                self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,
                                                centerx, centery, self.geometry)
+        realization_1._has_been_shifted = self._has_been_shifted
+        realization_2._has_been_shifted = self._has_been_shifted
 
         return realization_1, realization_2
 
-- 
2.43.0


From a24c5c6cc777905f895660f4a8a79de7e4226fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 14/50] fix: subhalos and field halos get their own mass
 definition

_create_realization gave subhalos mdef_field_halos and field halos
mdef_subhalos.
---
 pyHalo/pyhalo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/pyhalo.py b/pyHalo/pyhalo.py
index c516ed1..611f2f7 100644
--- a/pyHalo/pyhalo.py
+++ b/pyHalo/pyhalo.py
@@ -125,9 +125,9 @@ class pyHalo(object):
         mdefs = []
         for i in range(0, len(masses)):
             if subhalo_flag[i]:
-                mdefs += [mdef_field_halos]
-            else:
                 mdefs += [mdef_subhalos]
+            else:
+                mdefs += [mdef_field_halos]
         realization = Realization(masses, x_arcsec, y_arcsec, r3d, mdefs, redshifts, subhalo_flag, self.lens_cosmo,
                                   kwargs_halo_model=kwargs_halo_model,
                                   mass_sheet_correction=True,
-- 
2.43.0


From 14098934e3d04f5d017affb3efb5b696624ed552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 15/50] fix: import TNFWCHaloEvolving where the TNFWC_SIDM
 profile is loaded

---
 pyHalo/single_realization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 820a851..6288e23 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -9,6 +9,7 @@ from pyHalo.Halos.HaloModels.PsuedoJaffe import PJaffeSubhalo
 from pyHalo.Halos.HaloModels.blackhole import BlackHole
 from pyHalo.Halos.HaloModels.ULDM import ULDMFieldHalo, ULDMSubhalo
 from pyHalo.Halos.HaloModels.gaussianhalo import GaussianHalo
+from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
 import numpy as np
 from copy import copy, deepcopy
 
-- 
2.43.0


From 4fc5173f28a76a5ab9b619d688acf1ab73e43479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 16/50] fix: preset model DMEmulator loads
 DMSubhalosFromEmulator (the name it pointed to does not exist)

---
 pyHalo/preset_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/preset_models.py b/pyHalo/preset_models.py
index 3138a40..9d45fd2 100644
--- a/pyHalo/preset_models.py
+++ b/pyHalo/preset_models.py
@@ -34,8 +34,8 @@ def preset_model_from_name(name, custom_function=None):
         from pyHalo.PresetModels.uldm import ULDM
         return ULDM
     elif name == 'DMEmulator':
-        from pyHalo.PresetModels.external import DMFromEmulator
-        return DMFromEmulator
+        from pyHalo.PresetModels.external import DMSubhalosFromEmulator
+        return DMSubhalosFromEmulator
     elif name == 'WDM_mixed':
         from pyHalo.PresetModels.wdm import WDM_mixed
         return WDM_mixed
-- 
2.43.0


From 93d5f913a1644f49ac497943423c4fab6d45204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 17/50] fix: preset models no longer modify the dictionaries
 passed by the user or their default values

---
 pyHalo/PresetModels/cdm.py | 13 +++++++++++++
 pyHalo/PresetModels/wdm.py | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 27d4927..0441a10 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -77,6 +77,12 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     :return: a realization of dark matter halos
     """
+    # THE DICTIONARIES GIVEN BY THE USER (AND THE DEFAULT VALUES) ARE NOT MODIFIED
+    kwargs_infall_model = dict(kwargs_infall_model)
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -227,6 +233,9 @@ def CDMCorrelatedStructure(z_lens, z_source, log_mlow=6., log_mhigh=10.,
     :param mass_threshold_sis: the mass threshold above which NFW profiles become SIS
     :return:
     """
+    # THE DICTIONARIES GIVEN BY THE USER (AND THE DEFAULT VALUES) ARE NOT MODIFIED
+    kwargs_concentration_model = dict(kwargs_concentration_model)
+    kwargs_truncation_model = dict(kwargs_truncation_model)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -352,6 +361,10 @@ def CDMBinned(z_lens, z_source,
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     :return: a realization of dark matter halos
     """
+    # THE DICTIONARIES GIVEN BY THE USER (AND THE DEFAULT VALUES) ARE NOT MODIFIED
+    kwargs_infall_model = dict(kwargs_infall_model)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index ac55575..30ee58f 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -85,6 +85,12 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     :param mass_threshold_sis: add SIS halos above this scale
     :param lens_plane_spacing: sets the spacing between LOS lens planes, if None reverts to default value of 0.02
     """
+    # THE DICTIONARIES GIVEN BY THE USER (AND THE DEFAULT VALUES) ARE NOT MODIFIED
+    kwargs_infall_model = dict(kwargs_infall_model)
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
@@ -264,6 +270,9 @@ def WDM_mixed(z_lens, z_source, log_mc, mixed_DM_frac, sigma_sub=0.025, log_mlow
     :param include_prompt_cusps: bool; include prompt cusps inside halos
     :return:
     """
+    # THE DICTIONARIES GIVEN BY THE USER (AND THE DEFAULT VALUES) ARE NOT MODIFIED
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
     params = ['a_wdm', 'b_wdm', 'c_wdm']
     values_keeley_2023 = [0.5, 0.8, -3.0]
     for i, param in enumerate(params):
@@ -359,6 +368,10 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     :param mass_threshold_sis: the mass threshold above which NFW profiles become SIS
     :return:
     """
+    # THE DICTIONARIES GIVEN BY THE USER (AND THE DEFAULT VALUES) ARE NOT MODIFIED
+    kwargs_infall_model = dict(kwargs_infall_model)
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos)
     # FIRST WE CREATE AN INSTANCE OF PYHALO, WHICH SETS THE COSMOLOGY
     pyhalo = pyHalo(z_lens, z_source, kwargs_cosmo)
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
-- 
2.43.0


From 3bfbea6450130ad7d9ab9cb7e248c0f1dfda1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 18/50] fix: LensCosmo.setup_infall_model does not modify
 kwargs_infall_model

---
 pyHalo/Halos/lens_cosmo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 794680e..b8fd084 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -88,6 +88,8 @@ class LensCosmo(object):
         :return:
         """
         self._infall_pdf_set = True
+        # do not modify the dictionary given by the user
+        kwargs_infall_model = dict(kwargs_infall_model)
         if infall_redshift_model in ['DIRECT_INFALL', 'HYBRID_INFALL']:
             if 'm_host' in list(kwargs_infall_model.keys()):
                 kwargs_infall_model['log_m_host'] = numpy.log10(kwargs_infall_model['m_host'])
-- 
2.43.0


From 1749cf77e36f5b528bd21cd6640fc30b2d91162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 19/50] fix: rendering classes do not modify
 kwargs_mass_function

---
 pyHalo/Rendering/rendering_class_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Rendering/rendering_class_base.py b/pyHalo/Rendering/rendering_class_base.py
index 5a283d9..c2d7b40 100644
--- a/pyHalo/Rendering/rendering_class_base.py
+++ b/pyHalo/Rendering/rendering_class_base.py
@@ -18,6 +18,8 @@ class RenderingClassBase(object):
         """
         self._mass_function_model = mass_function_model
         self._spatial_distribution_model = spatial_distribution_model
+        # do not modify the dictionary given by the user
+        kwargs_mass_function = dict(kwargs_mass_function)
         if 'draw_poisson' not in kwargs_mass_function.keys():
             kwargs_mass_function['draw_poisson'] = True
         self._kwargs_mass_function = kwargs_mass_function
-- 
2.43.0


From 1d66c9945d4ed08e1a3e4ecf82f98f2572cd3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 20/50] fix: WDM concentration models do not modify kwargs_cdm
 or its default value

---
 pyHalo/Halos/concentration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 8147402..ba825d7 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -363,6 +363,8 @@ class ConcentrationWDMPolynomial(_ConcentrationTurnover):
         :param scatter_dex: scatter in concentration in dex
         :param kwargs_cdm: keyword arguments for the CDM concentration class
         """
+        # do not modify the dictionary given by the user (or the default value)
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
@@ -407,6 +409,8 @@ class ConcentrationWDMHyperbolic(_ConcentrationTurnover):
         :param concentration_cdm_class:
         :param kwargs_cdm:
         """
+        # do not modify the dictionary given by the user (or the default value)
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
-- 
2.43.0


From 62861e2d197a3c51f72b4fb11effbf6f02536681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 21/50] fix: toSIDM_single_halo attaches derived quantities to
 a copy of the halo

---
 pyHalo/realization_extensions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 978110e..9dcf115 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -16,7 +16,7 @@ from pyHalo.Cosmology.geometry import Geometry
 from pyHalo.utilities import generate_lens_plane_redshifts, mask_annular
 from pyHalo.Rendering.SpatialDistributions.uniform import Uniform, LensConeUniform
 from pyHalo.Halos.concentration import ConcentrationConstant
-from copy import deepcopy
+from copy import copy, deepcopy
 from scipy.interpolate import RectBivariateSpline
 import time
 from scipy.integrate import simpson as simps
@@ -509,6 +509,8 @@ class RealizationExtensions(object):
                     sidm_halo.set_bound_mass(halo.bound_mass)
                 halo_effective_age = sidm_halo.halo_effective_age
                 t_over_tc = sidm_halo.t_over_tc
+                # the derived quantities are attached to a copy, the halo of the original realization stays as it is
+                halo = copy(halo)
                 if evolving_profile:
                     if sidm_halo.t_over_tc < t_over_tc_cut:
                         halo.halo_effective_age = halo_effective_age
@@ -605,6 +607,8 @@ class RealizationExtensions(object):
                     sidm_halo.set_bound_mass(halo.bound_mass)
                 halo_effective_age = sidm_halo.halo_effective_age
                 t_over_tc = sidm_halo.t_over_tc
+                # the derived quantities are attached to a copy, the halo of the original realization stays as it is
+                halo = copy(halo)
                 if sidm_halo.t_over_tc < t_over_tc_collapse_threshold:
                     halo.halo_effective_age = halo_effective_age
                     halo.t_over_tc = t_over_tc
-- 
2.43.0


From 393e64fb26a78f0acf2b5dad4a782eedd7052c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 22/50] fix: Halo.update_args does not modify the dictionary
 passed at creation

---
 pyHalo/Halos/halo_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 7e5df70..581f27a 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -55,7 +55,8 @@ class Halo(ABC):
         :param kwargs_halo: additional keyword arguments that include default settings for the halo
         :return:
         """
-        self._args.update(kwargs_halo)
+        # the dictionary passed when the halo was created may be shared with other halos
+        self._args = dict(self._args, **kwargs_halo)
 
     @property
     def rescale_norm(self):
-- 
2.43.0


From d41fb437a09bdaa354cd9cc7e9cec365a2cc23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 23/50] fix: Hybrid halos work with copies of their component
 halos

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 710603f..d2442e0 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -1,7 +1,7 @@
 from pyHalo.Halos.halo_base import Halo
 from lenstronomy.LensModel.Profiles.nfw_core_truncated import TNFWC as TNFWCLenstronomy
 import numpy as np
-from copy import deepcopy
+from copy import copy, deepcopy
 
 _tnfwc_lenstronomy = TNFWCLenstronomy()
 
@@ -281,11 +281,13 @@ class Hybrid(Halo):
         See documentation in base class (Halos/halo_base.py)
         """
         c = tnfw_halo.c
+        # work with copies, the halos passed in stay as they are
+        tnfwc_halo = copy(tnfwc_halo)
         tnfwc_halo._c = c
         if tnfw_halo.is_subhalo:
             assert tnfwc_halo.is_subhalo
             tnfwc_halo._z_infall = tnfw_halo.z_infall
-        self.tnfw_halo = tnfw_halo
+        self.tnfw_halo = copy(tnfw_halo)
         self.tnfwc_halo = tnfwc_halo
         if hasattr(self.tnfw_halo, '_kwargs_lenstronomy'):
             delattr(self.tnfw_halo, '_kwargs_lenstronomy')
-- 
2.43.0


From 19f3c3233f9720311231dbd477557dff28a6f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 24/50] fix: TNFW.mass_2d works with numpy 2 (np.trapz was
 removed)

---
 pyHalo/Halos/HaloModels/TNFW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 0cdd3de..fe627ff 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -1,5 +1,6 @@
 from pyHalo.Halos.halo_base import Halo
 import numpy as np
+from scipy.integrate import trapezoid
 from pyHalo.Halos.tnfw_halo_util import tnfw_mass_fraction, cubic_real_roots
 from lenstronomy.LensModel.Profiles.tnfw import TNFW
 
@@ -94,7 +95,7 @@ class TNFWFieldHalo(Halo):
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
         sigma_crit_arcsec = sigma_crit_kpc * kpc_per_arcsec ** 2
-        return np.trapz(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
+        return trapezoid(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
 
     def deflection_angle(self, r_arcsec):
         """
-- 
2.43.0


From a1400984d93e0a9ea05495968b8dcd8571509d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 25/50] fix: generalized NFW Rmax: import newton and assign
 Rmax in the alpha=2, gamma=0 cases

---
 .../transfer_function_density_profile.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index bead454..83ffca1 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -4,6 +4,7 @@ import numpy as np
 from scipy.special import hyp2f1
 from scipy.integrate import quad
 from scipy.interpolate import interp1d
+from scipy.optimize import newton
 
 
 # Implement the transfer function of subhalo density profile.
@@ -447,7 +448,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         if (beta == 3.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 2.919847688299723
+                    Rmax = 2.919847688299723
                 else:
                     status = 0
             else:
@@ -455,7 +456,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         elif (beta == 4.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 1.825255642519694
+                    Rmax = 1.825255642519694
                 else:
                     status = 0
             else:
-- 
2.43.0


From 042369518fbfe31f50047bedc173cb60966f9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 26/50] fix: WDM keeps the cold concentration relation that a
 warm concentration model names

---
 pyHalo/PresetModels/wdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index 30ee58f..3833131 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -119,7 +119,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_subs['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_subs.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_subhalos = model_subhalos(**kwargs_mc_subs)
 
     model_fieldhalos, kwargs_mc_field = preset_concentration_models(concentration_model_fieldhalos,
@@ -127,7 +127,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mc_field['cosmo'] = pyhalo.astropy_cosmo
     kwargs_mc_field['log_mc'] = log_mc
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_field['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_field.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
     if c_host is None:
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
-- 
2.43.0


From 3bbca4820fa5d50b5ddbf6dd50daec8fdbac21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 27/50] fix: DeltaFunction.from_redshift pairs the comoving
 volume with the comoving dark-matter density

---
 pyHalo/Rendering/MassFunctions/delta_function.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Rendering/MassFunctions/delta_function.py b/pyHalo/Rendering/MassFunctions/delta_function.py
index 32824b1..539da23 100644
--- a/pyHalo/Rendering/MassFunctions/delta_function.py
+++ b/pyHalo/Rendering/MassFunctions/delta_function.py
@@ -32,9 +32,8 @@ class DeltaFunction(object):
          halo mass function at different redshifts
 
         """
-        astropy = geometry_class.cosmo.astropy
-        density_to_MsunperMpc = geometry_class.cosmo.density_to_MsunperMpc
-        rho_dm_crit = astropy.Odm(0.) * astropy.critical_density(z).value * density_to_MsunperMpc
+        # the comoving density of dark matter, to match the comoving volume element
+        rho_dm_crit = geometry_class.cosmo.rho_dark_matter_crit
         volume = geometry_class.volume_element_comoving(z, delta_z)
         rho = kwargs_model['LOS_normalization'] * kwargs_model['mass_fraction'] * rho_dm_crit
         return DeltaFunction(kwargs_model['mass'], volume, rho, kwargs_model['draw_poisson'])
-- 
2.43.0


From ff87377049ee0f5309d6fb01891764a69f7ca955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 28/50] fix: suppressed mass functions without a mass range
 have no expected objects and no mass

---
 .../MassFunctions/mass_function_base.py          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Rendering/MassFunctions/mass_function_base.py b/pyHalo/Rendering/MassFunctions/mass_function_base.py
index 46d9914..c49e233 100644
--- a/pyHalo/Rendering/MassFunctions/mass_function_base.py
+++ b/pyHalo/Rendering/MassFunctions/mass_function_base.py
@@ -82,13 +82,17 @@ class _PowerLawTurnoverBase(object):
         self._normalization = normalization
         self._kwargs_mass_function = kwargs_mass_function
         self._mass_function_unbroken = _PowerLawBase(log_mlow, log_mhigh, power_law_index, draw_poisson, normalization)
-        self.n_mean = integrate_power_law_quad(normalization, 10 ** log_mlow, 10 ** log_mhigh,
-                                                         0.0, power_law_index, self._turnover,
-                                                     self._kwargs_mass_function)
+        if log_mlow >= log_mhigh:
+            self.n_mean = 0
+            self.first_moment = 0
+        else:
+            self.n_mean = integrate_power_law_quad(normalization, 10 ** log_mlow, 10 ** log_mhigh,
+                                                             0.0, power_law_index, self._turnover,
+                                                         self._kwargs_mass_function)
 
-        self.first_moment = integrate_power_law_quad(normalization, 10 ** log_mlow, 10 ** log_mhigh,
-                                                         1.0, power_law_index, self._turnover,
-                                                     self._kwargs_mass_function)
+            self.first_moment = integrate_power_law_quad(normalization, 10 ** log_mlow, 10 ** log_mhigh,
+                                                             1.0, power_law_index, self._turnover,
+                                                         self._kwargs_mass_function)
 
     def evaluate(self, m):
         """
-- 
2.43.0


From 1754821a65bdc4707e7beb3d4bd9f140262537cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 29/50] fix: ApproxCDM truncation_radius draws the bound
 fraction for the mass it is given

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index ed04ced..1431fc4 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -585,7 +585,7 @@ class TruncationGalacticusApproxCDM(object):
         :param z_eval:
         :return:
         """
-        m_bound = self.calculate_mbound(halo_mass)
+        m_bound = halo_mass * self.compute_f_bound
         _, rs, r200 = self._lens_cosmo.NFW_params_physical(halo_mass,
                                                         infall_concentration,
                                                         z_eval,
-- 
2.43.0


From 2d5ae9e1857bce97f6322fde7e6e21d75eb6cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 30/50] fix: solve the truncation radius with the same density
 profile as its normalisation

compute_r_te_and_f_t dropped delta when solving for the radius, so the truncated halo did not
contain the bound mass for delta = 3; the numerical fallback of the total mass returned
quad's (value, error) tuple and did not accept arrays.
---
 .../transfer_function_density_profile.py            | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index 83ffca1..8acdb82 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -646,13 +646,20 @@ def _M_total_generalized_NFW_Truncated_dimensionless(tau, alpha=1.0, beta=3.0, g
 
     if (status == 0):
         # Use numerical integration.
-        def integral(x):
+        def integral(x, tau):
             return 4.0 * np.pi * x ** 2 \
                    / x ** gamma \
                    / (1.0 + x ** alpha) ** ((beta - gamma) / alpha) \
                    / (1.0 + (x / tau) ** delta)
 
-        mass = quad(integral, 0.0, np.inf)
+        def total_mass(tau):
+            # integrate in log(x), because the profile bends at both x = 1 and x = tau
+            x1, x2 = min(tau, 1.0), max(tau, 1.0)
+            return quad(lambda u: np.exp(u) * integral(np.exp(u), tau),
+                        np.log(x1) - 30.0, np.log(x2) + 30.0,
+                        points=[np.log(x1), np.log(x2)], limit=200)[0]
+
+        mass = np.vectorize(total_mass)(tau)
 
     return mass
 
@@ -836,6 +843,6 @@ def compute_r_te_and_f_t(Mbound, MvirInfall, RvirInfall, cInfall, alpha=1.0, bet
     # in good agreement with the fitting function, but is more reliable where the
     # fitting function is not calibrated to simulations.
     Mbound_dimensionless = Mbound / M0
-    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma)
+    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma, delta)
 
     return r_te, f_t
-- 
2.43.0


From 110c75895d2d7c8e2d7035be8547e479772838bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 31/50] fix: bound masses drawn from the Keeley24 table do not
 exceed the infall mass

---
 pyHalo/Halos/galacticus_truncation/interp_mass_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
index a7f05b9..630be44 100644
--- a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
+++ b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
@@ -36,7 +36,7 @@ class InterpGalacticusKeeley24(object):
         scatter_dex = self.evaluate_scatter_dex(log10_concentration_infall, time_since_infall, host_concentration)
         scatter_dex = max(scatter_dex, 0.001)
         output = np.random.normal(mean, scatter_dex)
-        return output
+        return min(output, 0.0)
 
     def evaluate_mean_mass_loss(self, log10_concentration_infall, time_since_infall, host_concentration):
         """
-- 
2.43.0


From 3a47c41d3cb0b59dc2c2dcea219ef42b28f99374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 32/50] fix: TNFWFromParams subhalos without a given infall
 redshift draw one

---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index c0f9c35..33d8462 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -27,7 +27,8 @@ class TNFWFromParams(TNFWSubhalo):
         self._params_from_input = {key:args[key] for key in keys_physical}
         self._c = self._params_from_input[self.KEY_RV] / self._params_from_input[self.KEY_RS]
         self.id = args.get(self.KEY_ID)
-        self._z_infall = args.get(self.KEY_Z_INFALL)
+        if args.get(self.KEY_Z_INFALL) is not None:
+            self._z_infall = args[self.KEY_Z_INFALL]
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
 
     def density_profile_3d(self, r, params_physical=None):
-- 
2.43.0


From ab7e36f6c51ee093c1544d5081b724f538fae939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 33/50] fix: set_infall_redshift replaces elapsed times
 computed from the previous infall redshift

---
 pyHalo/Halos/halo_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 581f27a..77e47bf 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -169,6 +169,10 @@ class Halo(ABC):
         """
         if self.is_subhalo:
             self._z_infall = z
+            # times measured from the previous infall redshift are no longer valid
+            for name in ('_time_since_infall', '_halo_effective_age'):
+                if hasattr(self, name):
+                    delattr(self, name)
         else:
             raise Exception('Can only set the infall redshift for subhalos!')
 
-- 
2.43.0


From d59764c75ca048995a48921dbb7c4e40f600771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 34/50] fix: batched Galacticus mass loss clips the host
 concentration at 8 like InterpGalacticus

---
 pyHalo/Halos/batch_halo_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 3462efe..e83833f 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -270,7 +270,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     if cls == 'InterpGalacticus':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.0, 8.1)
-        chost = min(max(chost, 4.0), 9.0)
+        chost = min(max(chost, 4.0), 8.0)
     elif cls == 'InterpGalacticusZinfall':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.001, 9.5)
-- 
2.43.0


From 187f881046f50b107d413f18dcf3e4b8fab8a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:34 +0000
Subject: [PATCH 35/50] fix: precompute_realization leaves TNFW halos with
 another truncation model (TNFWFromParams, emulator) untouched

---
 pyHalo/Halos/batch_halo_util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index e83833f..3f3d69f 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -625,17 +625,21 @@ def precompute_realization(realization, kwargs_halo_model=None):
         key = 'truncation_model_subhalos' if is_subhalo else 'truncation_model_field_halos'
         return kwargs_halo_model.get(key, None)
 
-    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo]
-    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo]
+    t_sub = _truncation_for(True)
+    t_field = _truncation_for(False)
+    # only halos that use the truncation model of the realization; others with the same mass definition (e.g.
+    # TNFWFromParams, TNFWSubhaloEmulator) evaluate their own profile
+    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo
+                 and getattr(h, '_truncation_class', None) is t_sub]
+    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo
+                  and getattr(h, '_truncation_class', None) is t_field]
     tnfwc = [h for h in realization.halos if h.mdef == 'TNFWC'
              and 'sidm_timescale' in getattr(h, '_args', {})]
     nfw = [h for h in realization.halos if h.mdef == 'NFW']
 
-    t_sub = _truncation_for(True)
     if len(tnfw_subs) > 0 and t_sub is not None and \
             getattr(t_sub, 'name', None) in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
         precompute_tnfw_subhalos(tnfw_subs, t_sub)
-    t_field = _truncation_for(False)
     if len(tnfw_field) > 0 and t_field is not None:
         precompute_tnfw_field_halos(tnfw_field, t_field)
     if len(tnfwc) > 0:
-- 
2.43.0


From 88daa2d486293b2fb1adac03b90e11d5b59be6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 36/50] fix: galacticus host filter uses the supplied
 galacticus_util

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index cf5d97b..9ecd2f3 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -24,7 +24,7 @@ def nodedata_filter_subhalos(nodedata,galacticus_util= None):
 
 def nodedata_filter_halos(nodedata,galacticus_util = None):
     """Returns a filter that excludes all but halo (excludes sub-halos)"""
-    return np.logical_not(nodedata_filter_subhalos(nodedata))
+    return np.logical_not(nodedata_filter_subhalos(nodedata,galacticus_util))
 
 def nodedata_filter_range(nodedata,range,key,galacticus_util=None):
     """Returns a filter that excludes nodes not within the given range for a specified parameter"""
@@ -43,7 +43,7 @@ def nodedata_filter_virialized(nodedata,galacticus_util= None):
     r = np.linalg.norm(rvec,axis=0)
 
     #Filter halos and get there virial radii
-    filtered_halos = nodedata_filter_halos(nodedata)
+    filtered_halos = nodedata_filter_halos(nodedata,gutil)
     rv_halos = nodedata[gutil.PARAM_RADIUS_VIRIAL][filtered_halos]
     halo_output_n = nodedata[gutil.PARAM_TREE_ORDER]
 
-- 
2.43.0


From 264b1bf58b6920f3a76a4b5fe15850fabb09d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 37/50] fix: nodedata_select_subhalo selects by node id

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index 9ecd2f3..ca8f2d9 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -9,7 +9,7 @@ def nodedata_apply_filter(nodedata,nodefilter,galacticus_util = None):
 def nodedata_select_subhalo(nodedata,id, galacticus_util = None):
     """Selects a subhalo specified by an id, returns a dictionary of the subhalo's properties"""
     gutil = GalacticusUtil() if galacticus_util is None else galacticus_util
-    idfilter = nodedata[nodedata[gutil.PARAM_NODE_ID] == id]
+    idfilter = nodedata[gutil.PARAM_NODE_ID] == id
     return {key:val[idfilter][0] for key,val in nodedata.items()}
 
 def nodedata_filter_tree(nodedata, treeindex,galacticus_util = None):
-- 
2.43.0


From f59b11a00c1c0eeef89d40c4a1ca71f82cfc3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 38/50] fix: read galacticus output that contains a single
 merger tree

---
 pyHalo/Halos/galacticus_util/galacticus_util.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_util.py b/pyHalo/Halos/galacticus_util/galacticus_util.py
index 3e2849c..6d9f83f 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_util.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_util.py
@@ -138,13 +138,11 @@ class GalacticusUtil():
         node_tree_index = np.zeros(total_count,dtype=int)
         node_tree_order = np.zeros(total_count,dtype=int)
 
-        for n in range(1,len(tree_start)):
-            start,stop = tree_start[n-1],tree_start[n]
-            node_tree_order[start:stop] = n - 1
-            node_tree_index[start:stop] = tree_index[n - 1] 
-
-        node_tree_order[stop:] = n
-        node_tree_index[stop:] = tree_index[n]
+        for n in range(len(tree_start)):
+            start = tree_start[n]
+            stop = tree_start[n + 1] if n + 1 < len(tree_start) else total_count
+            node_tree_order[start:stop] = n
+            node_tree_index[start:stop] = tree_index[n]
 
         node_index = np.arange(total_count)
 
-- 
2.43.0


From 269b69a57a12b6a3d8e93b5c9fc1892edc67a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 39/50] fix: JointLOSWithEmulator renders the line of sight in
 the requested aperture

---
 pyHalo/PresetModels/external.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/external.py b/pyHalo/PresetModels/external.py
index b890f98..7923311 100644
--- a/pyHalo/PresetModels/external.py
+++ b/pyHalo/PresetModels/external.py
@@ -242,6 +242,7 @@ def JointLOSWithEmulator(z_lens,
     emulator_subhalos = DMSubhalosFromEmulator(z_lens, z_source, emulator_data_function, cone_opening_angle_arcsec)
     from pyHalo.preset_models import preset_model_from_name
     preset_model_function = preset_model_from_name(preset_model_name_LOS)
-    los = preset_model_function(z_lens, z_source, **kwargs_preset_model)
+    los = preset_model_function(z_lens, z_source, cone_opening_angle_arcsec=cone_opening_angle_arcsec,
+                                **kwargs_preset_model)
     return emulator_subhalos.join(los)
 
-- 
2.43.0


From 6dd45cfd28bdca03542f4e4fb0c747668f34b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:16 +0000
Subject: [PATCH 40/50] fix: core-collapse composite halos honour t_over_tc

With halo_profile='CC_COMPOSITE' and only t_over_tc given, the collapse
timescale was left None and the conversion failed with a TypeError; it is
now halo_age / t_over_tc, as documented and as for the TNFWC profile.
---
 pyHalo/realization_extensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9dcf115..8839890 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -571,7 +571,10 @@ class RealizationExtensions(object):
                         'Rs_inner_kpc': r_match_kpc,
                         'sidm_timescale': t_c,
                         }
-                if halo.is_subhalo:
+                if t_over_tc is not None:
+                    args['sidm_timescale'] = halo.halo_age / t_over_tc
+                    args['lambda_t'] = 1.0
+                elif halo.is_subhalo:
                     args['lambda_t'] = subhalo_evolution_scaling
                 else:
                     args['lambda_t'] = 1.0
-- 
2.43.0


From 6fb8ecfd8e288272143e030b3f8a8e490044fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 41/50] fix: the minimum black hole mass applies to black holes
 in unresolved halos

The seeds of halos below the resolution of the realization compared the
halo mass, not the black hole mass, with log10_min_mbh, so black holes
lighter than the minimum were rendered.
---
 pyHalo/realization_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 8839890..67ab57c 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -144,7 +144,7 @@ class RealizationExtensions(object):
             x = x_kpc / kpc_per_arcsec
             y = y_kpc / kpc_per_arcsec
             for m_bh, x_bh, y_bh in zip(mass_sub_resolution, x, y):
-                if m_bh > 10 ** log10_min_mbh:
+                if m_bh * 10 ** log10_mass_ratio > 10 ** log10_min_mbh:
                     mbh = BlackHole(m_bh * 10 ** log10_mass_ratio,
                                     x_bh,
                                     y_bh,
-- 
2.43.0


From 880e62405d7bfb42128a858185963e99b0a4e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 42/50] fix: correlated structure keeps the positions it draws

render() replaced the drawn positions by those of all halos in the
realization, so the point masses of one plane got the coordinates of halos
at any redshift and the returned arrays had different lengths.
---
 pyHalo/Rendering/correlated_structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 858adef..6e26efd 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -65,8 +65,7 @@ class CorrelatedStructure(RenderingClassBase):
             _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
             # find all halos within rmax of coordinate
-            _x, _y = self._halo_x, self._halo_y
-            dr = np.hypot(_x - x_angle, _y - y_angle)
+            dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
             indexes = list(np.where(np.logical_and(self._halo_redshifts == z, dr < rmax))[0])
             rescale_indexes += list(indexes)
             if len(_m) > 0:
-- 
2.43.0


From 34a069067f834960fa3e1f0affb0ed81fbeb23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 43/50] fix: pixel area of correlated structure counts the
 pixels inside the aperture

The area of the aperture was divided by the number of pixels outside it,
which overestimated the mass in the aperture by a factor of pi/(4-pi).
---
 pyHalo/Rendering/correlated_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 6e26efd..d7584ed 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -171,7 +171,7 @@ class CorrelatedStructure(RenderingClassBase):
         pdf[inds_zero] = 0.
         inds_nan = np.where(np.isnan(pdf))
         pdf[inds_nan] = 0.
-        npixels = len(inds_zero)
+        npixels = len(rr) - len(inds_zero)
         effective_area = np.pi * rendering_radius ** 2 / npixels
         mass_in_area = self._mass_in_area(pdf, z, effective_area)
         return pdf.reshape(shape0), mass_in_area, halo_indexes
-- 
2.43.0


From be0ff8f8aa97b2d46dc3d8e58a2030b1c8f616b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 44/50] fix: halos are rescaled by the mass fraction whatever
 the last plane holds

The factor returned by render() was that of the last lens plane, which is
one when nothing was rendered there; halos on the other planes then kept
the mass that had been given to the point masses.
---
 pyHalo/Rendering/correlated_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index d7584ed..04be079 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -58,11 +58,12 @@ class CorrelatedStructure(RenderingClassBase):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
         delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
         rescale_indexes = []
+        rescale_factor = 1. - self._kwargs_mass_function['mass_fraction']
         for z, dz in zip(plane_redshifts, delta_z):
             d = self._lens_cosmo.cosmo.D_C_transverse(z)
             x_angle = x_center_interp(d)
             y_angle = y_center_interp(d)
-            _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
+            _m, _x, _y, _, _ = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
             # find all halos within rmax of coordinate
             dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
-- 
2.43.0


From e809a6e4070d97f050e496133fee2fc9ec946cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 45/50] fix: clustered primordial black holes follow the
 requested mass function

The clustered component was always drawn from a delta function, also for
mass_function_type='GAUSSIAN'.
---
 pyHalo/realization_extensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 67ab57c..14808f8 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1158,14 +1158,16 @@ class RealizationExtensions(object):
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
+            mass_function_class = DeltaFunction
         elif mass_function_type == 'GAUSSIAN':
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['logM_sigma'] = logM_pbh_sigma
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
+            mass_function_class = Gaussian
         else:
             raise ValueError('mass_function_type must be either DELTA or GAUSSIAN')
-        realization_with_clustering = self.add_correlated_structure(DeltaFunction,
+        realization_with_clustering = self.add_correlated_structure(mass_function_class,
                                                                          kwargs_pbh_mass_function,
                                                                          mass_definition,
                                                                         x_image_interp_list,
-- 
2.43.0


From e0eb3fa669ff4e61e9efeddd0cadb80be5ac4428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:27 +0000
Subject: [PATCH 46/50] fix: primordial black holes use the rendering radius of
 each image

The clustered component of every image was rendered within the radius of
the last image (the leftover loop variable of the smooth component).
---
 pyHalo/realization_extensions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 14808f8..2ff6160 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1039,9 +1039,10 @@ class RealizationExtensions(object):
                  self._realization.geometry, self._realization.lens_cosmo, lens_plane_redshifts,
                                                    delta_z_list, self._realization)
         rescale_indicies = []
-        for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
+        r_max_list = np.broadcast_to(r_max, len(x_image_interp_list))
+        for image_index, (x_image_interp, y_image_interp, r_max_image) in enumerate(zip(x_image_interp_list, y_image_interp_list, r_max_list)):
             masses, x, y, r3d, redshifts, subhalo_flag, rescale_factor, _rescale_indicies = correlated_structure.render(
-                r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
+                r_max_image, x_image_interp, y_image_interp, arcsec_per_pixel)
             rescale_indicies += list(_rescale_indicies)
             mdefs = [mass_definition] * len(masses)
             kwargs_halo_model = {'truncation_model': None, 'concentration_model': None, 'kwargs_density_profile': {}}
@@ -1173,7 +1174,7 @@ class RealizationExtensions(object):
                                                                         x_image_interp_list,
                                                                         y_image_interp_list,
                                                                          arcsec_per_pixel,
-                                                                            r_max,
+                                                                            r_max_arcsec,
                                                                          rescale_normalizations)
         return realization_with_clustering.join(realization_smooth)
 
-- 
2.43.0


From 8f49a7d244398a4c4e670b235e907b97b82acee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:41 +0000
Subject: [PATCH 47/50] fix: wave-interference fluctuations stay around their
 own image

Dropping apertures without fluctuations shifted the remaining counts, so
fluctuations drawn for one image were placed around another.
---
 pyHalo/realization_extensions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 2ff6160..671d895 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1216,7 +1216,6 @@ def _get_number_flucs(realization, de_Broglie_wavelength, fluctuation_size_scale
         area_aperture = np.pi*r_kpc**2 # aperture area
         n_flucs_expected = n_fluc_scale*area_aperture/fluc_area #number of expected fluctuations per aperture
         n_flucs = np.random.poisson(n_flucs_expected,n_images) #draw number of fluctuations from poisson distribution for each image
-        n_flucs = n_flucs[n_flucs!=0] #get rid of aperture if zero fluctuations within it
 
     return n_flucs
 
-- 
2.43.0


From 71ad2f45c6b5a41a50ead9fc8bde9a78b887e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 48/50] fix: ITSampling draws a single sample

float() of a one-element array is an error in current numpy, so drawing
one sample raised TypeError.
---
 pyHalo/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 7f90b48..e7ae720 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -44,7 +44,7 @@ class ITSampling(object):
         u = np.random.uniform(self._umin, self._umax, int(n_samples))
         samples_out = self._cdf_inverse(u)
         if n_samples == 1:
-            return float(samples_out)
+            return float(samples_out[0])
         else:
             return np.squeeze(samples_out)
 
-- 
2.43.0


From 2a41727528cc0da8d313ed8e7cd6dcc1336e1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:52 +0000
Subject: [PATCH 49/50] fix: correlation multipoles pair values with their own
 angles

---
 pyHalo/realization_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 671d895..44f6823 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1422,7 +1422,7 @@ def xi_l(l, corr, r, mu):
 
     xi_l = np.zeros(r.shape[0])
     for i in range(r.shape[0]):
-        xi_l[i] = simps(func[i], np.flip(np.arccos(mu)), axis=0)
+        xi_l[i] = simps(np.flip(func[i]), np.flip(np.arccos(mu)), axis=0)
 
     return r, prefactor*xi_l
 
-- 
2.43.0


From 730828e67b97c4161c42730e682af71232b0ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 50/50] fix: realizations are equal only when they hold the
 same halos

---
 pyHalo/single_realization.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 6288e23..b1894f1 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -836,11 +836,7 @@ class Realization(object):
         """
         tags = self._tags(self.halos)
         other_tags = other_reealization._tags()
-        for tag in other_tags:
-            if tag not in tags:
-                return False
-        else:
-            return True
+        return set(tags) == set(other_tags)
 
     def plot(self, ax, annotation='', color_normalization=6, marker_size_normalization=7.5, marker_size_scaling=1.0,
              view_init_1=30.0, view_init_2=70.0, r_max=None, ray_interp_x_list=None, ray_interp_y_list=None):
-- 
2.43.0

