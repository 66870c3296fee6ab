From 953e064628203a1153e551c574668d671197bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 01/25] fix: return the lowest buckling factors whatever the
 load magnitude

The Cayley shift at sigma=1 selects the eigenvalues closest (in ratio) to 1,
which are the lowest ones only while every factor is above 1. With loads above
the critical load (Nxx=-1000) the first eigenvalue was not the critical one.
---
 composipy/core/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..6c27c9b 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -392,10 +392,9 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
 
-        eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+        # eigvals = -1/lambda, so the most negative ones are the lowest positive buckling loads
+        eigvals, eigvecs = eigsh(A=KG, k=k, which='SA', M=K, tol=tol)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 2b79e724b47053ac2270409feac1deaf348cb9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 02/25] fix: honour TY/TZ/RY/RZ constraints of the y0 and yb
 edges

The y terms of v and w were taken from those of u, so on these edges TX and RX
constrained the deflection, and TZ and RZ alone did nothing.
---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 6c27c9b..03ca721 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -251,8 +251,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From c329997a088343d5f7d0a0c3156d092f8e34f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 03/25] fix: place the v-w coupling block in the full ABD
 stiffness matrix

---
 composipy/core/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 03ca721..cebf39f 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -318,7 +318,7 @@ class PlateStructure(Structure):
 
         K = np.vstack([
         np.hstack([k11, k12, k13]),
-        np.hstack([k21, k22, k31]),
+        np.hstack([k21, k22, k23]),
         np.hstack([k31, k32, k33])
         ])
 
-- 
2.43.0


From ee9efe6b8ce017524f95a888418389a20818c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 04/25] fix: aspect-ratio factors of the membrane and coupling
 stiffness terms

A66 in k11, B11 and B26 in k13 and A16 in k21 carried the wrong powers of a
and b, so the full ABD stiffness matrix was not symmetric.
---
 composipy/pre_integrated_component/build_k.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 6a95f43..de0d4b7 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -14,7 +14,7 @@ def calc_K11_ijkl(a, b, ui, uj, uk, ul, A11, A16, A66):
     k11 = (
         A11 * (b/a) *  uxi_ij_uxi_kl
         + A16 * (uxi_ij_ueta_kl+ueta_ij_uxi_kl)
-        + A66 * (b/a) * ueta_ij_ueta_kl)
+        + A66 * (a/b) * ueta_ij_ueta_kl)
     return k11
 
 
@@ -48,10 +48,10 @@ def calc_k13_ijkl(a, b, ui, uj, wk, wl, B11, B12, B16, B26, B66):
     ueta_w = ii_ff(uiwk) * ii_fxi_f(ujwl)
 
     k13 = (
-        -(2*b/a) * B11 * uxi_ij_wxixi_kl
+        -(2*b/a**2) * B11 * uxi_ij_wxixi_kl
         -(2/b) * B12 * uxi_wetaeta
         -(2/a) * B16 * (2*uxi_wxieta + ueta_wxixi)
-        -(2/b**2) * B26 * ueta_wetaeta
+        -(2*a/b**2) * B26 * ueta_wetaeta
         -(4/b) * B66 * ueta_wxieta
     )
 
@@ -68,7 +68,7 @@ def calc_k21_ijkl(a, b, vi, vj, uk, ul, A12, A16, A26, A66):
 
     k21 = (
         A12 * veta_ij_uxi_kl
-        + A16 * (a/b) * vxi_ij_uxi_kl
+        + A16 * (b/a) * vxi_ij_uxi_kl
         + A26 * (a/b) * veta_ij_ueta_ij
         + A66 * vxi_ij_ueta_kl
     )
-- 
2.43.0


From a8554c1a9d1bf105e6c7bd179985d2ae92c38bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 05/25] fix: label the rows of the margins with the position of
 their stress

The stress table lists bot before top; the allowables listed top before bot,
so every margin was reported for the opposite face of its ply.
---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From 89c9bfe7d974a272cdca70c731f8fd9fa29ea2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 06/25] fix: IsotropicMaterial can be created without
 allowables

The None defaults were rejected by the number validation. Use the defaults of
OrthotropicMaterial.
---
 composipy/core/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..e29b782 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -225,9 +225,9 @@ class IsotropicMaterial(Material):
             v, 
             g, 
             thickness, 
-            t=None, 
-            c=None, 
-            s=None, 
+            t=0, 
+            c=0, 
+            s=0, 
             name=None):
         self.__e = self._float_number(e, n_min=0, name='e')
         self.__v = self._float_number(v, n_min=-0.5, n_max=0.5, name='v')
-- 
2.43.0


From 81e487c230ed12ea405050ba7f88067cac01bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 07/25] fix: raise the KeyError of a lamination parameter
 laminate without xiD or T

---
 composipy/core/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..c47495a 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -83,11 +83,11 @@ class LaminateProperty(Property):
             try: 
                 xiD = stacking['xiD']
             except KeyError:
-                KeyError('xiD must be a key')
+                raise KeyError('xiD must be a key')
             try:
                 total_thickness = stacking['T']
             except KeyError:
-                KeyError('T must be a key')
+                raise KeyError('T must be a key')
             layup = []
 
         self.stacking = stacking
-- 
2.43.0


From ab231ba193977aa71c09c5cc91f9b71f99e9efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 08/25] fix: xiA and xiD of a laminate defined by lamination
 parameters

Reading them raised TypeError, as the plies were iterated over.
---
 composipy/core/property.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index c47495a..5c41ba6 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -273,6 +273,9 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if isinstance(self.stacking, dict): # defined by lamination parameters
+            return None if self._xiA is None else np.array(self._xiA, dtype=float)
+
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -290,6 +293,9 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if isinstance(self.stacking, dict): # defined by lamination parameters
+            return np.array(self._xiD, dtype=float)
+
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From d02dcd796f1d80111e1cc99787d56d45b048f766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 09/25] fix: compare laminates defined by lamination parameters

Their layup is empty, so any two of them were equal.
---
 composipy/core/property.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 5c41ba6..b4be8d5 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -319,6 +319,13 @@ class LaminateProperty(Property):
 #Comparisons
     def __eq__(self, other):
         if isinstance(other, LaminateProperty):
+            if isinstance(self.stacking, dict) or isinstance(other.stacking, dict): # no layup to compare
+                return (isinstance(self.stacking, dict)
+                        and isinstance(other.stacking, dict)
+                        and self.plies == other.plies
+                        and self._total_thickness == other._total_thickness
+                        and np.array_equal(self.xiA, other.xiA)
+                        and np.array_equal(self.xiD, other.xiD))
             return (self.layup == other.layup)
         return NotImplemented
 
-- 
2.43.0


From ac9b2ce8b8b93461c2aa0b1ecc4442f93a445c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 10/25] fix: accept the uppercase symmetry suffix in
 build_sequence

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..79a96e4 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -58,7 +58,7 @@ def build_sequence(stacking):
     '''
     stacking = stacking.strip()
     is_symmetric = stacking[-1].lower() == 's'
-    stacking = stacking.replace('s', '')
+    stacking = stacking.replace('s', '').replace('S', '')
     is_stacking = (stacking[0] == '['
                    and stacking[-1] == ']')
     stacking = stacking.replace('[', '').replace(']', '')
-- 
2.43.0


From 451f4e8c33101ee8399e2f3ba63b768f5a15c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 11/25] fix: write the continuation markers of the PCOMP card
 in field 10

The header had its marker in the GE field, and the plies had it glued to
SOUT2 (YES+).
---
 composipy/nastranapi/pcomp_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 79a96e4..547b126 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -188,7 +188,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
     midi = _convert_to_list(midi, size)
     sout = _convert_sout(sout, size)
     
-    header = f'PCOMP,{pid},{z0},,,,,+\n'
+    header = f'PCOMP,{pid},{z0},,,,,,,+\n'
     body = ''
     
     for i in range(0, size, 2):
@@ -196,7 +196,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
         i1 = i + 1
         body += f'+,{midi[i0]},{ti[i0]},{sequence[i0]},{sout[i0]},'
         try:
-            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]}+\n'
+            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]},+\n'
         except IndexError:
             body = body[0:-1] # removes last comma
     
-- 
2.43.0


From 62513099a7c47841d85e4a274782ab92533c918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 12/25] fix: reject an unknown output request whose length is
 the number of plies

A string such as 'ALL' was split in characters for a 3 ply sequence.
---
 composipy/nastranapi/pcomp_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 547b126..6f651a3 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -147,6 +147,8 @@ def _convert_sout(sout, size):
     elif sout == 'YES':
         sout = ['YES' for i in range(size)]
         return sout
+    elif isinstance(sout, str):
+        raise ValueError(f'{sout} not accepted')
     else:
         try:
             size_value = len(sout)
-- 
2.43.0


From 84b0af74408b985022b0930f1c403de33940ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 13/25] fix: plot_eigenvalue with a different number of grid
 points in x and y

---
 composipy/core/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index cebf39f..51de013 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -418,10 +418,10 @@ class PlateStructure(Structure):
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
         xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
-        z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
+        z = np.zeros(ngridx*ngridy).reshape(ngridy, ngridx)
 
-        for i in range(ngridx):
-            for j in range(ngridy):
+        for i in range(ngridy):
+            for j in range(ngridx):
                 sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
-- 
2.43.0


From 1b4e9514b1a2a21076613b7e7566cd61acfecf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 14/25] fix: scale the buckling constraint of
 minimize_panel_weight

The constraint compared a factor growing with T**3 with the largest load, so
SLSQP failed or stopped at panels several times too thick for most loads.
---
 composipy/optimize/_minimize_panel_weight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index c85dbe5..59a4544 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -77,10 +77,10 @@ def minimize_panel_weight(a, b,
             eig = Ncr_from_lp(a, b, T, m, n, xi1, xi3, E1, E2, v12, G12, Nxx_norm, Nyy_norm, Nxy_norm, constraints=panel_constraint)
         except ArpackError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
             eig = -1
-        return eig
+        return np.cbrt(eig / max_load) # grows linearly with T, as the critical load grows with T**3
     
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, max_load, np.inf)
+    c1 = NonlinearConstraint(critical_load, 1, np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
-- 
2.43.0


From 1ba074fb5e371c040cf6a1cdc56b5b0f2b7d9f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 15/25] fix: B11 term of the k31 block of the full stiffness
 matrix

The integral of w,xixi * u,xi was taken as the one of w,xi * u,xixi, so the
matrix of a laminate with B11 was not symmetric.
---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index de0d4b7..74ec3a8 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -115,7 +115,7 @@ def calc_k23_ijkl(a, b, vi, vj, wk, wl, B12, B16, B22, B26, B66):
 def calc_k31_ijkl(a, b, wi, wj, uk, ul, B11, B12, B16, B26, B66):
     wiuk = (wi, uk)
     wjul = (wj, ul)
-    wxixi_uxi = ii_fxi_fxixi(wiuk) * ii_ff(wjul)
+    wxixi_uxi = ii_fxixi_fxi(wiuk) * ii_ff(wjul)
     wetaeta_uxi = ii_f_fxi(wiuk) * ii_fxixi_f(wjul)
     wetaeta_ueta = ii_ff(wiuk) * ii_fxixi_fxi(wjul)
     wxieta_ueta = ii_fxi_f(wiuk) * ii_fxi_fxi(wjul)
-- 
2.43.0


From bfdd69e4f91e340cc5f0565f7703f38fcd62a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 16/25] fix: scale the objective of maximize_buckling_load

The solver's tolerance is absolute, so that for small buckling loads (thin
panels, large units) the search stopped at the initial laminate and reported
success.
---
 composipy/optimize/_maximize_buckling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_maximize_buckling.py b/composipy/optimize/_maximize_buckling.py
index c45e516..3ad540d 100644
--- a/composipy/optimize/_maximize_buckling.py
+++ b/composipy/optimize/_maximize_buckling.py
@@ -81,15 +81,23 @@ def maximize_buckling_load(a, b, T,
     # Constraints and boundaries   
     b1 = ([-1.0, 1.0], [-1.0, 1.0])
     x0 = [0.0, 0.0]
+    scale = abs(critical_load(x0)) # the solver's tolerance is absolute, so that it is given an objective near 1
+
+    def objective(y0):
+        return critical_load(y0) / scale
+
     if penalty:
         c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
         c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
+        res = minimize(objective, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
     elif not penalty:
         c = NonlinearConstraint(natural_constraint_g, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
+        res = minimize(objective, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
  
 
+    res.fun = res.fun * scale
+    res.jac = res.jac * scale
+
     if plot:
         plot_optimization(a, b, T, m, n, E1, E2, v12,
                        G12, Nxx, Nyy, Nxy, panel_constraint, points_to_plot, res, penalty)
-- 
2.43.0


From 7b4394a23f71f80373e77dd102a583974487784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 17/25] fix: scale the thickness in minimize_panel_weight

The solver's tolerances are absolute: for thin panels (or large length units)
the laminate was left at its initial value and the panel came out up to 30 %
too thick, and for thick ones the search did not succeed.
---
 composipy/optimize/_minimize_panel_weight.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index 59a4544..9c91dcd 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -79,13 +79,26 @@ def minimize_panel_weight(a, b,
             eig = -1
         return np.cbrt(eig / max_load) # grows linearly with T, as the critical load grows with T**3
     
+    # The solver's tolerances are absolute, so that the search runs with the thickness divided by the one
+    # at which the initial laminate just carries the loads
+    unit = x0[0] / abs(critical_load(x0))
+
+    def to_panel(y0):
+        t, xi1, xi3 = y0
+        return np.array([t * unit, xi1, xi3])
+
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, 1, np.inf)
+    c1 = NonlinearConstraint(lambda y0: critical_load(to_panel(y0)), 1, np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-    b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
+    b1 = ([0.001 / unit, 1000000 / unit], [-1.0, 1.0], [-1.0, 1.0])
    
-    res = minimize(_objective_function, x0, method='SLSQP',
+    y0 = [x0[0] / unit, x0[1], x0[2]]
+    res = minimize(_objective_function, y0, method='SLSQP',
                    constraints=[c1, c2, c3], bounds=b1, options=options, tol=tol)
 
+    res.x = to_panel(res.x)
+    res.fun = res.fun * unit**3
+    res.jac = res.jac * [unit**2, unit**3, unit**3]
+
     return res
-- 
2.43.0


From c77f178daa983b6ebc79d343ef69e0a5a1694500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 18/25] fix: exact first four functions in the generator of the
 integrals

With decimal coefficients the integrals of the first four functions with high
ones lose their digits: from about 40 terms on they are wrong altogether.
---
 .../write_pre_integrated_terms.py                         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/composipy/pre_integrated_component/write_pre_integrated_terms.py b/composipy/pre_integrated_component/write_pre_integrated_terms.py
index ad2ee0b..c33b7b9 100644
--- a/composipy/pre_integrated_component/write_pre_integrated_terms.py
+++ b/composipy/pre_integrated_component/write_pre_integrated_terms.py
@@ -5,10 +5,10 @@ from time import time
 ti = time()
 
 xi, eta = sp.symbols(['xi', 'eta'])
-f1 = 1/2 - 3/4*xi + 1/4*xi**3
-f2 = 1/8 - 1/8*xi - 1/8*xi**2 + 1/8*xi**3
-f3 = 1/2 + 3/4*xi - 1/4*xi**3
-f4 = -1/8 - 1/8*xi + 1/8*xi**2 + 1/8*xi**3
+f1 = (2 - 3*xi + xi**3)/4
+f2 = (1 - xi - xi**2 + xi**3)/8
+f3 = (2 + 3*xi - xi**3)/4
+f4 = (-1 - xi + xi**2 + xi**3)/8
 
 F = {0: f1, 1: f2, 2: f3, 3: f4} # first terms of set of functions
 FXI = {
-- 
2.43.0


From 1df1406fba53c1764d516c24c90cc4099351cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 19/25] fix: convergence of the buckling analysis on clustered
 factors

---
 composipy/core/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 51de013..d8b15c6 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -394,7 +394,8 @@ class PlateStructure(Structure):
         k = min(num_eigvalues, KG.shape[0]-2)
 
         # eigvals = -1/lambda, so the most negative ones are the lowest positive buckling loads
-        eigvals, eigvecs = eigsh(A=KG, k=k, which='SA', M=K, tol=tol)
+        # with the whole space as basis, since the iterations may not converge on factors close to each other
+        eigvals, eigvecs = eigsh(A=KG, k=k, which='SA', M=K, tol=tol, ncv=KG.shape[0])
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 61c9fa981ef97746fbaccc423d2fdacd4d5910ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 20/25] fix: edges given by name and by list in one dictionary

---
 composipy/core/structure.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index d8b15c6..25e85c9 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -159,9 +159,9 @@ class PlateStructure(Structure):
 
         elif (
             isinstance(self.constraints['x0'], str)
-            and isinstance(self.constraints['xa'], str)
-            and isinstance(self.constraints['y0'], str)
-            and isinstance(self.constraints['yb'], str)
+            or isinstance(self.constraints['xa'], str)
+            or isinstance(self.constraints['y0'], str)
+            or isinstance(self.constraints['yb'], str)
         ):
             boundary_conditions = {
                  'free': [],
@@ -170,18 +170,15 @@ class PlateStructure(Structure):
                  'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'],
                  'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             }
-            x0 = boundary_conditions[
-                 self.constraints['x0'].lower()
-            ]
-            xa = boundary_conditions[
-                 self.constraints['xa'].lower()
-            ]
-            y0 = boundary_conditions[
-                 self.constraints['y0'].lower()
-            ]
-            yb = boundary_conditions[
-                 self.constraints['yb'].lower()
-            ]
+
+            def freedoms(edge): # an edge may also be given by the list of its freedoms
+                support = self.constraints[edge]
+                return boundary_conditions[support.lower()] if isinstance(support, str) else support
+
+            x0 = freedoms('x0')
+            xa = freedoms('xa')
+            y0 = freedoms('y0')
+            yb = freedoms('yb')
         else:
             x0 = self.constraints['x0']
             xa = self.constraints['xa']
-- 
2.43.0


From d650ecad41da459f71a2d8f00bbfed8404ec9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 21/25] fix: laminates by lamination parameters of an isotropic
 material

IsotropicMaterial had no Invariants, so that A and D raised AttributeError.
---
 composipy/core/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index e29b782..a8a3127 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -295,6 +295,8 @@ class IsotropicMaterial(Material):
                                    [0, 0, Q66]])
         return self.__Q_0
 
+    Invariants = OrthotropicMaterial.Invariants # they follow from Q_0
+
     def __repr__(self):
         return (
             f'IsotropicMaterial({self.name}, E = {self.e}, \n\
-- 
2.43.0


From b2aa211f6f8290a00b0294d1be7bcbd25ae111ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 22/25] fix: stress margins of isotropic plies

calculate_maxstressmargin raised AttributeError since their allowables are called t, c and s.
---
 composipy/core/strength.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 8801e35..a5858c4 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -1,6 +1,8 @@
 import numpy as np
 import pandas as pd
 
+from composipy.core.material import IsotropicMaterial
+
 #TODO:
 # add more advanced strength criteria
 
@@ -190,6 +192,9 @@ class LaminateStrength():
         allowablek_123 = []
         for layer in laminate:
             angle,ply = layer
+            if isinstance(ply, IsotropicMaterial): # the same in both directions
+                allowablek_123.append(np.array([ply.t, ply.c, ply.t, ply.c, ply.s]))
+                continue
             maxstresses = np.array([ply.t1,
                                     ply.c1,
                                     ply.t2,
-- 
2.43.0


From a10b26ca5a210313751efde877b5caa335075134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 23/25] fix: NaN accepted as a modulus, thickness, allowable,
 ratio, side or load

---
 composipy/utils/validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/utils/validators.py b/composipy/utils/validators.py
index 139df7b..5410437 100644
--- a/composipy/utils/validators.py
+++ b/composipy/utils/validators.py
@@ -8,6 +8,8 @@ class ComposipyValidator:
             value = float(value)
         except:
             raise ValueError(f'{name} Must be a real number')
+        if value != value: # NaN satisfies no limit
+            raise ValueError(f'{name} Must be a real number')
         if n_min is not None and value < n_min:
             raise ValueError(f'{name} must be at least {n_min}')
         if n_max is not None and value > n_max:
-- 
2.43.0


From be88cb50763189894d5502c4dd6ecd787a9bc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 24/25] fix: weight minimisation could stop at a start much
 thicker than needed and report success

---
 composipy/optimize/_minimize_panel_weight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index 9c91dcd..b9a2a2e 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -80,7 +80,8 @@ def minimize_panel_weight(a, b,
         return np.cbrt(eig / max_load) # grows linearly with T, as the critical load grows with T**3
     
     # The solver's tolerances are absolute, so that the search runs with the thickness divided by the one
-    # at which the initial laminate just carries the loads
+    # at which the initial laminate just carries the loads, and starts there: from a thickness hundreds of
+    # times larger it may not leave the start, and still report success
     unit = x0[0] / abs(critical_load(x0))
 
     def to_panel(y0):
@@ -93,7 +94,7 @@ def minimize_panel_weight(a, b,
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001 / unit, 1000000 / unit], [-1.0, 1.0], [-1.0, 1.0])
    
-    y0 = [x0[0] / unit, x0[1], x0[2]]
+    y0 = [1.0, x0[1], x0[2]]
     res = minimize(_objective_function, y0, method='SLSQP',
                    constraints=[c1, c2, c3], bounds=b1, options=options, tol=tol)
 
-- 
2.43.0


From 487e4a3a1458ea2c1e8b0c8831967c6b7de25dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 25/25] fix: laminates and plates changed with the lists and
 dictionaries they were made from

---
 composipy/core/property.py  | 6 ++++++
 composipy/core/structure.py | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index b4be8d5..6844180 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -1,4 +1,5 @@
 import numbers
+from copy import deepcopy
 
 import numpy as np
 import scipy as sp
@@ -59,6 +60,11 @@ class LaminateProperty(Property):
     '''
 
     def __init__(self, stacking, plies):
+        # the lists and dictionaries remain the caller's, who may change them later
+        stacking = deepcopy(stacking)
+        if not isinstance(plies, Material):
+            plies = list(plies)
+
         # Checking layup
         if not isinstance(stacking, dict): # implements angle stacking sequence
             if isinstance(plies, Material):
diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 25e85c9..5def99f 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 
+from copy import deepcopy
 from matplotlib import cm
 from time import time
 from scipy.sparse import csr_matrix
@@ -97,7 +98,7 @@ class PlateStructure(Structure):
         self.__dproperty = self._is_instance(dproperty, Property, 'dproperty')
         self.__a = self._float_number(a, n_min=0, name='a')
         self.__b = self._float_number(b, n_min=0, name='b')
-        self.__constraints = constraints
+        self.__constraints = deepcopy(constraints) # the caller may change the dictionary later
         self.__Nxx = self._float_number(Nxx, name='Nxx')
         self.__Nyy = self._float_number(Nyy, name='Nyy')
         self.__Nxy = self._float_number(Nxy, name='Nxy')
-- 
2.43.0

