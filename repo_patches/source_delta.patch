From f0ba85baf7dc620b150ff11ade85899a2da78190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 01/72] fix: refining a polynomial space uses the increment of
 each direction

---
 objects/CSCG/_2d/spaces/polynomials/do.py | 2 +-
 objects/CSCG/_3d/spaces/polynomials/do.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/_2d/spaces/polynomials/do.py b/objects/CSCG/_2d/spaces/polynomials/do.py
index bdf677a..e3a5742 100644
--- a/objects/CSCG/_2d/spaces/polynomials/do.py
+++ b/objects/CSCG/_2d/spaces/polynomials/do.py
@@ -34,7 +34,7 @@ class _2dCSCG_space_Polynomial_Do(_2dCSCG_space_do):
         category = [_.category for _ in basis_1d]
         px, py = self.space.p
         px += p[0]
-        py += p[0]
+        py += p[1]
         new_input = (
             [category[0], px],
             [category[1], py]
diff --git a/objects/CSCG/_3d/spaces/polynomials/do.py b/objects/CSCG/_3d/spaces/polynomials/do.py
index 8ace676..4959d2f 100644
--- a/objects/CSCG/_3d/spaces/polynomials/do.py
+++ b/objects/CSCG/_3d/spaces/polynomials/do.py
@@ -36,8 +36,8 @@ class _3dCSCG_space_Polynomial_do(_3dCSCG_space_do):
         category = [_.category for _ in basis_1d]
         px, py, pz = self._space_.p
         px += p[0]
-        py += p[0]
-        pz += p[0]
+        py += p[1]
+        pz += p[2]
         new_input = (
             [category[0], px],
             [category[1], py],
-- 
2.43.0


From d4838285102ec7d7b74c3405fe76d95876638b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 02/72] fix: 1d basis caches keep their own copy of the
 evaluation points

---
 objects/CSCG/base/spaces/_1d_basis/polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/base/spaces/_1d_basis/polynomials.py b/objects/CSCG/base/spaces/_1d_basis/polynomials.py
index a907ab5..370ce8a 100644
--- a/objects/CSCG/base/spaces/_1d_basis/polynomials.py
+++ b/objects/CSCG/base/spaces/_1d_basis/polynomials.py
@@ -107,7 +107,7 @@ class _1dPolynomial(FrozenOnly):
                     if i != j:
                         basis[i, :] *= (x - self.nodes[j]) / (self.nodes[i] - self.nodes[j])
 
-            self._Lb_cache_['x'] = x
+            self._Lb_cache_['x'] = np.copy(x)
             self._Lb_cache_['cache'] = basis
             return basis
 
@@ -123,7 +123,7 @@ class _1dPolynomial(FrozenOnly):
             for i in range(p):
                 for j in range(i + 1):
                     edge_poly[i] -= derivatives_poly[j, :]
-            self._eb_cache_['x'] = x
+            self._eb_cache_['x'] = np.copy(x)
             self._eb_cache_['cache'] = edge_poly
             return edge_poly
 
-- 
2.43.0


From c00c9ca319cb5d9af3fdf96c9c41b4d02cf5c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:30 +0000
Subject: [PATCH 03/72] fix: region-wise reconstruction grids are cached per
 mesh

---
 objects/CSCG/_2d/forms/standard/base/reconstruct.py | 7 +++++--
 objects/CSCG/_3d/forms/standard/base/reconstruct.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
index b2a3485..ee02812 100644
--- a/objects/CSCG/_2d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/base/reconstruct.py
@@ -4,11 +4,13 @@
 @contact: zhangyi_aero@hotmail.com
 @time: 2022/08/30 2:38 PM
 """
+from weakref import ref
 from components.freeze.base import FrozenOnly
 import numpy as np
 from root.config.main import SIZE, COMM, RANK
 
 ___grid_cache_2dCSCG_SF_Reconstruct___ = {
+    'mesh': None,
     'grid': None,
     'Xi_Eta_Sigma': None
 }
@@ -111,7 +113,7 @@ class _2dCSCG_SF_ReconstructBase(FrozenOnly):
             rs[rn] = r, s
 
         # ------- check cache ----------------------------------------------------------------------1
-        if ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] is not None:
+        if ___grid_cache_2dCSCG_SF_Reconstruct___['mesh'] is not None and ___grid_cache_2dCSCG_SF_Reconstruct___['mesh']() is mesh:
             c_rs = ___grid_cache_2dCSCG_SF_Reconstruct___['grid']
             cached = True
             for rn in rs:
@@ -185,7 +187,8 @@ class _2dCSCG_SF_ReconstructBase(FrozenOnly):
 
             Xi_Eta_Sigma_D[rn] = RST
 
-        ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] = rs
+        ___grid_cache_2dCSCG_SF_Reconstruct___['mesh'] = ref(mesh)
+        ___grid_cache_2dCSCG_SF_Reconstruct___['grid'] = {rn: [_.copy() for _ in rs[rn]] for rn in rs}
         ___grid_cache_2dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         # ======================================================================================
         return Xi_Eta_Sigma_D, rs
diff --git a/objects/CSCG/_3d/forms/standard/base/reconstruct.py b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
index 4762544..8c2850f 100644
--- a/objects/CSCG/_3d/forms/standard/base/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/base/reconstruct.py
@@ -8,11 +8,13 @@ import sys
 
 if './' not in sys.path: sys.path.append('./')
 
+from weakref import ref
 from components.freeze.base import FrozenOnly
 import numpy as np
 from root.config.main import SIZE, COMM, RANK
 
 ___grid_cache_3dCSCG_SF_Reconstruct___ = {
+    'mesh': None,
     'grid': None,
     'Xi_Eta_Sigma': None
 }
@@ -127,7 +129,7 @@ class _3dCSCG_SF_Reconstruct(FrozenOnly):
             rst[rn] = r, s, t
 
         #------- check cache ----------------------------------------------------------------------1
-        if ___grid_cache_3dCSCG_SF_Reconstruct___['grid'] is not None:
+        if ___grid_cache_3dCSCG_SF_Reconstruct___['mesh'] is not None and ___grid_cache_3dCSCG_SF_Reconstruct___['mesh']() is mesh:
             c_rst = ___grid_cache_3dCSCG_SF_Reconstruct___['grid']
             cached = True
 
@@ -209,7 +211,8 @@ class _3dCSCG_SF_Reconstruct(FrozenOnly):
 
             Xi_Eta_Sigma_D[rn] = RST
 
-        ___grid_cache_3dCSCG_SF_Reconstruct___['grid']  = rst
+        ___grid_cache_3dCSCG_SF_Reconstruct___['mesh'] = ref(mesh)
+        ___grid_cache_3dCSCG_SF_Reconstruct___['grid'] = {rn: [_.copy() for _ in rst[rn]] for rn in rst}
         ___grid_cache_3dCSCG_SF_Reconstruct___['Xi_Eta_Sigma'] = Xi_Eta_Sigma_D
         #==========================================================================================1
         return Xi_Eta_Sigma_D, rst
-- 
2.43.0


From 769353623300a802f48c0ec4917028d553e24f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:30 +0000
Subject: [PATCH 04/72] fix: 3d reconstruction in given regions finds the
 elements of the regions

---
 objects/CSCG/_3d/forms/standard/_0s/reconstruct.py  | 2 +-
 objects/CSCG/_3d/forms/standard/_1s/reconstruct.py  | 4 ++--
 objects/CSCG/_3d/forms/standard/_2s/reconstruct.py  | 4 ++--
 objects/CSCG/_3d/forms/standard/_3s/reconstruct.py  | 4 ++--
 objects/CSCG/_3d/mesh/edge/elements/element/main.py | 2 +-
 objects/CSCG/_3d/mesh/node/elements/element/main.py | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
index 7ecde9e..1b95c13 100644
--- a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
@@ -47,7 +47,7 @@ class _3dCSCG_SF0_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions, ]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
index 55fe959..53d8900 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
@@ -43,7 +43,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions, ]
             else:
@@ -55,7 +55,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
         # ----------- vectorized -----------------------------------------------------------------
diff --git a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
index 016d761..e252d1c 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
@@ -44,7 +44,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions,]
             else:
@@ -56,7 +56,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
         #------------ vectorized -----------------------------------------------------------------
diff --git a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
index 65af2b6..ee7c502 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
@@ -52,7 +52,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
                 INDICES = element_range
         else:
             if regions == 'all':
-                regions = mesh.domain.regions
+                regions = mesh.domain.regions.names
             elif isinstance(regions, str):
                 regions = [regions,]
             else:
@@ -65,7 +65,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
 
             INDICES = list()
             for i in mesh.elements.indices:
-                ri = mesh.do.FIND_region_name_of_element(i)
+                ri = mesh.do.find.region_name_of_element(i)
                 if ri in regions:
                     INDICES.append(i)
 
diff --git a/objects/CSCG/_3d/mesh/edge/elements/element/main.py b/objects/CSCG/_3d/mesh/edge/elements/element/main.py
index 821d7c4..17f3be8 100644
--- a/objects/CSCG/_3d/mesh/edge/elements/element/main.py
+++ b/objects/CSCG/_3d/mesh/edge/elements/element/main.py
@@ -110,7 +110,7 @@ class _3dCSCG_Edge_Element(FrozenOnly):
     @property
     def CHARACTERISTIC_region(self):
         """We mainly consider this edge element is in this regions."""
-        region = self._elements_._mesh_.do.FIND_region_name_of_element(self.CHARACTERISTIC_element)
+        region = self._elements_._mesh_.do.find.region_name_of_element(self.CHARACTERISTIC_element)
         return region
 
 
diff --git a/objects/CSCG/_3d/mesh/node/elements/element/main.py b/objects/CSCG/_3d/mesh/node/elements/element/main.py
index d6d897b..0099074 100644
--- a/objects/CSCG/_3d/mesh/node/elements/element/main.py
+++ b/objects/CSCG/_3d/mesh/node/elements/element/main.py
@@ -106,5 +106,5 @@ class _3dCSCG_Node_Element(FrozenOnly):
     @property
     def CHARACTERISTIC_region(self):
         """We mainly consider this node element is in this region."""
-        region = self._elements_._mesh_.do.FIND_region_name_of_element(self.CHARACTERISTIC_element)
+        region = self._elements_._mesh_.do.find.region_name_of_element(self.CHARACTERISTIC_element)
         return region
-- 
2.43.0


From f872a87668ee71bff5ae379bf241fb8101483760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 05/72] fix: grid points are stacked at the right places when
 elements contain none

---
 objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py  | 2 +-
 objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py | 2 +-
 objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py | 2 +-
 objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py  | 2 +-
 objects/CSCG/_3d/forms/standard/_0s/reconstruct.py           | 2 +-
 objects/CSCG/_3d/forms/standard/_1s/reconstruct.py           | 2 +-
 objects/CSCG/_3d/forms/standard/_2s/reconstruct.py           | 2 +-
 objects/CSCG/_3d/forms/standard/_3s/reconstruct.py           | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
index b44cc01..c4d2c38 100644
--- a/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
@@ -189,7 +189,6 @@ class _2dCSCG_S0F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -201,6 +200,7 @@ class _2dCSCG_S0F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py b/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py
index b6704bc..49ade8e 100644
--- a/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_1_form/inner/reconstruct.py
@@ -146,7 +146,6 @@ class _2dCSCG_Si1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -158,6 +157,7 @@ class _2dCSCG_Si1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py b/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py
index ea2ed37..4242819 100644
--- a/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_1_form/outer/reconstruct.py
@@ -167,7 +167,6 @@ class _2dCSCG_So1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -179,6 +178,7 @@ class _2dCSCG_So1F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py
index 56040a2..aac18cf 100644
--- a/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_2_form/base/reconstruct.py
@@ -132,7 +132,6 @@ class _2dCSCG_S2F_Reconstruct(_2dCSCG_SF_ReconstructBase):
         # -------- reconstructing -----------------------------------------------------------------1
         xy = dict()
         value = dict()
-        EMPTY_DATA = np.empty((0, 0))
 
         for e in mesh.elements:
             rn, ij = mesh.do.find.region_name_and_local_indices_of_element(e)
@@ -144,6 +143,7 @@ class _2dCSCG_S2F_Reconstruct(_2dCSCG_SF_ReconstructBase):
             shape = [len(xi), len(et)]
 
             if shape[0] < 1 or shape[1] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xy[e] = [EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
index 1b95c13..e51395c 100644
--- a/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_0s/reconstruct.py
@@ -126,7 +126,6 @@ class _3dCSCG_SF0_reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0, 0, 0))
 
         # ------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -142,6 +141,7 @@ class _3dCSCG_SF0_reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
index 53d8900..a13387d 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/reconstruct.py
@@ -122,7 +122,6 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0, 0, 0))
 
         # ------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -138,6 +137,7 @@ class _3dCSCG_SF1_reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
index e252d1c..2b68906 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/reconstruct.py
@@ -153,7 +153,6 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0,0,0))
 
         #-------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -169,6 +168,7 @@ class _3dCSCG_SF2_reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
diff --git a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
index ee7c502..dea92c6 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/reconstruct.py
@@ -148,7 +148,6 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
         f = self._sf_
         mesh = f.mesh
         Xi_Eta_Sigma_D, grid = self.___PRIVATE_distribute_region_wise_meshgrid___(mesh, grid)
-        EMPTY_DATA = np.empty((0,0,0))
 
         #-------- reconstructing -----------------------------------------------------------------1
         xyz = dict()
@@ -164,6 +163,7 @@ class _3dCSCG_SF3_Reconstruct(_3dCSCG_SF_Reconstruct):
             shape = [len(xi), len(et), len(sg)]
 
             if shape[0] < 1 or shape[1] < 1 or shape[2] < 1:
+                EMPTY_DATA = np.empty(shape)
                 xyz[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
                 value[e] = [EMPTY_DATA, EMPTY_DATA, EMPTY_DATA]
             else:
-- 
2.43.0


From aae1fe32bce1af16d78cb84d355e4c2c6070ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 06/72] fix: metric marks tell elements of different sizes
 apart

---
 .../element/types_wrt_metric/orthogonal.py       |  9 ++++-----
 .../element/types_wrt_metric/parallelogram.py    |  8 ++------
 .../element/types_wrt_metric/orthogonal.py       |  2 +-
 .../element/types_wrt_metric/orthogonal.py       | 16 +++++++---------
 .../element/types_wrt_metric/orthogonal.py       |  5 ++---
 5 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
index 37f3883..f682847 100644
--- a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/orthogonal.py
@@ -14,13 +14,12 @@ class OrthogonalElement(ElementTypeWr2MetricBase):
     @accepts('self', (tuple, list, 'ndarray', 'ndim=1', 'shape=(2)'))
     def __init__(self, LxLy):
         self._LxLy_ = LxLy
-        Lx, Ly = LxLy
-        Lx = round(Lx, 5)
-        Ly = round(Ly, 5)
+        # a relative precision: only elements of the same size (up to round-off) can have the same mark.
+        Lx, Ly = ['%.10e' % L for L in LxLy]
         if Lx == Ly:
-            self._mark_ = 'Orth.{:.4f}'.format(Lx)
+            self._mark_ = 'Orth.{}'.format(Lx)
         else:
-            self._mark_ = 'Orth.x{:.4f}y{:.4f}'.format(Lx, Ly)
+            self._mark_ = 'Orth.x{}y{}'.format(Lx, Ly)
         self._freeze_self_()
 
     # def ___CLASSIFY_mpRfT2_CELL_of_origin_and_delta___(self, origin_and_delta):
diff --git a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
index 3f16b20..d90a64a 100644
--- a/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
+++ b/objects/CSCG/_2d/mesh/elements/element/types_wrt_metric/parallelogram.py
@@ -24,13 +24,9 @@ class ParallelogramElement(ElementTypeWr2MetricBase):
         assert 0 < L_angle_U < np.pi, f"L.U angle = {L_angle_U} wrong!"
         assert 0 <= angleL < 2 * np.pi, f" angle L={angleL} must be < 2pi."
 
-        angleL = round(angleL, 6)
-        L = round(L, 6)
-        L_angle_U = round(L_angle_U, 6)
-        U = round(U, 6)
-
+        # a relative precision: only elements of the same shape (up to round-off) can have the same mark.
         self._mark_ = 'Parallelogram.' + 'aL{}_L{}_{}_U{}'.format(
-            '%.5f' % angleL, '%.5f' % L, '%.5f' % L_angle_U, '%.5f' % U)
+            '%.10f' % angleL, '%.10e' % L, '%.10f' % L_angle_U, '%.10e' % U)
 
         self._freeze_self_()
 
diff --git a/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
index e210bd6..9fffda5 100644
--- a/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_2d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
@@ -18,5 +18,5 @@ class OrthogonalTraceElement(TraceElementTypeWr2MetricBase):
         """
         assert len(along) == 1 and along in 'xy', f"along={along} wrong."
         assert isinstance(length, (int, float)) and length > 0, f"length={length} wrong."
-        self._mark_ = f'Orth.{along}' + '{}'.format('%.8f' % length)
+        self._mark_ = f'Orth.{along}' + '{}'.format('%.10e' % length)
         self._freeze_self_()
diff --git a/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
index 0ca910c..094af36 100644
--- a/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/elements/element/types_wrt_metric/orthogonal.py
@@ -11,21 +11,19 @@ class OrthogonalElement(ElementTypeWr2MetricBase):
     def __init__(self, LxLyLz):
         self._LxLyLz_ = LxLyLz
 
-        Lx, Ly, Lz = LxLyLz
-        Lx = round(Lx, 6)
-        Ly = round(Ly, 6)
-        Lz = round(Lz, 6)
+        # a relative precision: only elements of the same size (up to round-off) can have the same mark.
+        Lx, Ly, Lz = ['%.10e' % L for L in LxLyLz]
 
         if Lx == Ly == Lz:
-            self._mark_ = 'Orth.{}'.format('%.3f' % Lx)
+            self._mark_ = 'Orth.{}'.format(Lx)
         elif Lx == Ly:
-            self._mark_ = 'Orth.xy{}z{}'.format('%.4f' % Lx, '%.4f' % Lz)
+            self._mark_ = 'Orth.xy{}z{}'.format(Lx, Lz)
         elif Lx == Lz:
-            self._mark_ = 'Orth.xz{}y{}'.format('%.4f' % Lx, '%.4f' % Ly)
+            self._mark_ = 'Orth.xz{}y{}'.format(Lx, Ly)
         elif Ly == Lz:
-            self._mark_ = 'Orth.yz{}x{}'.format('%.4f' % Ly, '%.4f' % Lx)
+            self._mark_ = 'Orth.yz{}x{}'.format(Ly, Lx)
         else:
-            self._mark_ = 'Orth.x{}y{}z{}'.format('%.3f' % Lx, '%.3f' % Ly, '%.3f' % Lz)
+            self._mark_ = 'Orth.x{}y{}z{}'.format(Lx, Ly, Lz)
 
         self._freeze_self_()
 
diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
index 6bc81e2..6f1fef9 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/types_wrt_metric/orthogonal.py
@@ -24,7 +24,6 @@ class OrthogonalTraceElement(TraceElementTypeWr2MetricBase):
         assert len(perp_to) == 1 and perp_to in 'xyz', f"perp_to={perp_to} wrong."
         assert isinstance(d1, (int, float)) and d1 > 0, f"d1={d1} wrong."
         assert isinstance(d2, (int, float)) and d2 > 0, f"d2={d2} wrong."
-        d1 = round(d1, 6)
-        d2 = round(d2, 6)
-        self._mark_ = f'Orth.{perp_to}' + 'd1{}d2{}'.format('%.5f' % d1, '%.5f' % d2)
+        # a relative precision: only trace elements of the same size (up to round-off) can have the same mark.
+        self._mark_ = f'Orth.{perp_to}' + 'd1{}d2{}'.format('%.10e' % d1, '%.10e' % d2)
         self._freeze_self_()
-- 
2.43.0


From fa36fdf4fdf2e1a25778ec41f025dac55a9fed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:45 +0000
Subject: [PATCH 07/72] fix: metric types of trace elements use lengths in the
 physical domain

---
 .../mesh/domain/regions/region/types_wrt_metric/crazy.py   | 4 ++--
 .../mesh/domain/regions/region/types_wrt_metric/crazy.py   | 7 ++++---
 .../domain/regions/region/types_wrt_metric/orthogonal.py   | 7 ++++---
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py b/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
index b2f4554..9fc0817 100644
--- a/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
+++ b/objects/CSCG/_2d/mesh/domain/regions/region/types_wrt_metric/crazy.py
@@ -51,10 +51,10 @@ class Crazy(TypeWr2Metric):
             s0, s1 = trace_spacing
             if isinstance(s0, float):
                 along = 'y'
-                d = s1[1]-s1[0]
+                d = (s1[1]-s1[0]) * self._Lxy_[1]
             elif isinstance(s1, float):
                 along = 'x'
-                d = s0[1]-s0[0]
+                d = (s0[1]-s0[0]) * self._Lxy_[0]
             else:
                 raise Exception()
             return OrthogonalTraceElement(along, d)
diff --git a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
index fa13ab8..68afd38 100644
--- a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
+++ b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/crazy.py
@@ -49,15 +49,16 @@ class Crazy(TypeWr2MetricBase):
         """
         assert len(trace_spacing) == 3, "It is not a trace spacing."
         s0, s1, s2 = trace_spacing
+        Lx, Ly, Lz = self._Lxyz_
         if isinstance(s0, float):
             perp_to = 'x'
-            d1, d2 = s1[1]-s1[0], s2[1]-s2[0]
+            d1, d2 = (s1[1]-s1[0]) * Ly, (s2[1]-s2[0]) * Lz
         elif isinstance(s1, float):
             perp_to = 'y'
-            d1, d2 = s2[1]-s2[0], s0[1]-s0[0]
+            d1, d2 = (s2[1]-s2[0]) * Lz, (s0[1]-s0[0]) * Lx
         elif isinstance(s2, float):
             perp_to = 'z'
-            d1, d2 = s0[1]-s0[0], s1[1]-s1[0]
+            d1, d2 = (s0[1]-s0[0]) * Lx, (s1[1]-s1[0]) * Ly
         else:
             raise Exception()
 
diff --git a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
index e354942..be8adcd 100644
--- a/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
+++ b/objects/CSCG/_3d/mesh/domain/regions/region/types_wrt_metric/orthogonal.py
@@ -71,15 +71,16 @@ class Orthogonal(TypeWr2Metric):
         assert len(trace_spacing) == 3, "It is not a trace spacing."
 
         s0, s1, s2 = trace_spacing
+        Lx, Ly, Lz = self._Lxyz_
         if isinstance(s0, float):
             perp_to = 'x'
-            d1, d2 = s1[1]-s1[0], s2[1]-s2[0]
+            d1, d2 = (s1[1]-s1[0]) * Ly, (s2[1]-s2[0]) * Lz
         elif isinstance(s1, float):
             perp_to = 'y'
-            d1, d2 = s2[1]-s2[0], s0[1]-s0[0]
+            d1, d2 = (s2[1]-s2[0]) * Lz, (s0[1]-s0[0]) * Lx
         elif isinstance(s2, float):
             perp_to = 'z'
-            d1, d2 = s0[1]-s0[0], s1[1]-s1[0]
+            d1, d2 = (s0[1]-s0[0]) * Lx, (s1[1]-s1[0]) * Ly
         else:
             raise Exception()
 
-- 
2.43.0


From ed6718ef4a8c28474c2e3dc5c930a12075da866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 08/72] fix: vectorized 2d Jacobian matrix of meshes with
 orthogonal and other elements

---
 .../elements/coordinate_transformation/vectorized.py     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py b/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
index 3b47ee8..247435c 100644
--- a/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
+++ b/objects/CSCG/_2d/mesh/elements/coordinate_transformation/vectorized.py
@@ -38,10 +38,11 @@ class _2dCSCG_MeshElements_CT_Vectorized(FrozenOnly):
             J = self._elements_.coordinate_transformation.Jacobian_matrix(xi, et)
 
             for i in self._elements_:
-                J00.append(J[i][0][0])
-                J01.append(J[i][0][1])
-                J10.append(J[i][1][0])
-                J11.append(J[i][1][1])
+                # zero entries of orthogonal elements are plain zeros.
+                J00.append(np.broadcast_to(J[i][0][0], np.shape(xi)))
+                J01.append(np.broadcast_to(J[i][0][1], np.shape(xi)))
+                J10.append(np.broadcast_to(J[i][1][0], np.shape(xi)))
+                J11.append(np.broadcast_to(J[i][1][1], np.shape(xi)))
 
             J00 = np.array(J00)
             J01 = np.array(J01)
-- 
2.43.0


From 0a8168fe4f37be4e6cb6519f7f717ca040ae43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 09/72] fix: 3d trilinear operators use the Jacobian at the
 points of the reconstruction matrices

---
 .../standard/_1s/special/helpers/cross_product_1__ip_1.py   | 6 +++---
 .../standard/_1s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_1__ip_2.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_1.py   | 6 +++---
 .../standard/_2s/special/helpers/cross_product_2__ip_2.py   | 6 +++---
 .../_2s/special/helpers/cross_product_2__ip_2_2M0.py        | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 7d7e65a..2d33e0a 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -54,9 +54,9 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
         RMe = e1.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
index 2ecd3d4..6c3590e 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_2__ip_2.py
@@ -52,9 +52,9 @@ class ___3dCSCG_1Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w1.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
index e135ccc..892e907 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_1__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_1__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
index 9936072..3102141 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_1.py
@@ -56,9 +56,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_1___(FrozenOnly):
             RMe = j.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = u.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
index 685222b..a91bf33 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2.py
@@ -38,9 +38,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2___(FrozenOnly):
         RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
         xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-        xi = xi.ravel()
-        et = et.ravel()
-        sg = sg.ravel()
+        xi = xi.ravel('F')
+        et = et.ravel('F')
+        sg = sg.ravel('F')
         detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
         CP_IP_3dM = dict()
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
index 40a5ec7..a44e63c 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/helpers/cross_product_2__ip_2_2M0.py
@@ -48,9 +48,9 @@ class ___3dCSCG_2Form_CrossProduct_2__ip_2_2M0___(FrozenOnly):
             RMe = e2.do.make_reconstruction_matrix_on_grid(*quad_nodes)
 
             xi, et, sg = np.meshgrid(*quad_nodes, indexing='ij')
-            xi = xi.ravel()
-            et = et.ravel()
-            sg = sg.ravel()
+            xi = xi.ravel('F')
+            et = et.ravel('F')
+            sg = sg.ravel('F')
             detJ = w2.mesh.elements.coordinate_transformation.Jacobian(xi, et, sg)
 
             CP_IP_3dM = dict()
-- 
2.43.0


From e5407f4dea9ec5fa74bbd2d32ed149bed8ff714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 10/72] fix: 2-M-0 output of the 1-form cross product contracts
 with u

---
 .../forms/standard/_1s/special/helpers/cross_product_1__ip_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
index 2d33e0a..c33c4db 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/helpers/cross_product_1__ip_1.py
@@ -114,7 +114,7 @@ class ___3dCSCG_1Form_CrossProduct_1__ip_1___(FrozenOnly):
 
     def _2_M_0_(self, i):
         """return 2d matrix of output = '2-M-1' type for mesh-element #i."""
-        M = np.einsum('ijk, i -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
+        M = np.einsum('ijk, j -> ki', self._CP_IP_3dM_[i], self._u1_.cochain.local[i], optimize='greedy')
         return csr_matrix(M)
 
     #     """
-- 
2.43.0


From eb5c9380eeb76d7d4c7f88cd84994b55e70a27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 11/72] fix: wedge product of 3d 3-forms accepts 0-forms

---
 objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py b/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py
index 7343659..43a6f3f 100644
--- a/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py
+++ b/objects/CSCG/_3d/forms/standard/_3s/inheriting/private.py
@@ -73,7 +73,7 @@ class _3dCSCG_S3F_Private:
 
     def ___PRIVATE_operator_wedge___(self, other, quad_degree=None):
         """In fact, it is integral over wedge product."""
-        assert other.__class__.__name__ == '_0Form', "Need a _3dCSCG_0Form"
+        assert other.__class__.__name__ == '_3dCSCG_0Form', "Need a _3dCSCG_0Form"
         assert self.mesh == other.mesh, "Meshes do not match."
         if quad_degree is None:
             quad_degree = [int(np.max([self.dqp[i], other.dqp[i]])) for i in range(3)]
-- 
2.43.0


From 001f5e3562eb9261bdf6a9ab1267ae80c08d129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 12/72] fix: boundary integrals evaluate the given field at the
 physical points

---
 .../_0_form/outer/boundary_integrate/helpers/ipS_helper.py | 3 ++-
 .../standard/_1s/boundary_integration/helpers/V_helper.py  | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
index 1ad8088..d3eaec6 100644
--- a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
+++ b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
@@ -79,7 +79,8 @@ class ipS_Helper(FrozenOnly):
 
                     fv = self._S_.___DO_evaluate_func_at_time___()[bn][0]
 
-                    fv = fv(*getattr(self, 'Q'+side)).ravel('F')
+                    xy = element.coordinate_transformation.mapping(*getattr(self, 'Q'+side))
+                    fv = fv(*xy).ravel('F')
                     GM = getattr(self, 'GM'+side)[i]
                     QW = getattr(self, 'W' + side)
 
diff --git a/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py b/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
index ef8d050..55e09a7 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/boundary_integration/helpers/V_helper.py
@@ -90,9 +90,10 @@ class S1F_BI_V_Helper(FrozenOnly):
 
                     vf0, vf1, vf2 = self._V_.func[bn]
 
-                    vf0 = vf0(t, *getattr(self, 'Q'+side)).ravel('F')
-                    vf1 = vf1(t, *getattr(self, 'Q'+side)).ravel('F')
-                    vf2 = vf2(t, *getattr(self, 'Q'+side)).ravel('F')
+                    xyz = element.coordinate_transformation.mapping(*getattr(self, 'Q'+side))
+                    vf0 = vf0(t, *xyz).ravel('F')
+                    vf1 = vf1(t, *xyz).ravel('F')
+                    vf2 = vf2(t, *xyz).ravel('F')
 
                     GM0, GM1, GM2 = getattr(self, 'GM'+side)[i]
 
-- 
2.43.0


From a12be164f553faae1350aec50cebe64bece83a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 13/72] fix: 2d boundary integrals use the weights of the
 direction along the side

---
 .../_0_form/outer/boundary_integrate/helpers/ipS_helper.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
index d3eaec6..c6bcc76 100644
--- a/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
+++ b/objects/CSCG/_2d/forms/standard/_0_form/outer/boundary_integrate/helpers/ipS_helper.py
@@ -41,8 +41,8 @@ class ipS_Helper(FrozenOnly):
         Qd = [[1, ], Qlr]
         Ql = [Qud, [-1, ]]
         Qr = [Qud, [1, ]]
-        self.Wu = self.Wd = Wud
-        self.Wl = self.Wr = Wlr
+        self.Wu = self.Wd = Wlr
+        self.Wl = self.Wr = Wud
 
         self.GMu = sf.do.make_reconstruction_matrix_on_grid(*Qu, element_range='mesh boundary')
         self.GMd = sf.do.make_reconstruction_matrix_on_grid(*Qd, element_range='mesh boundary')
-- 
2.43.0


From 46bdf9df511a1f84c7c785597562a20ca7374721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 14/72] fix: CBFx and still exact solutions can produce their
 body force (the field type 'constant' does not exist)

---
 .../_3d/exactSolutions/incompressibleNavierStokes/others.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py b/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py
index 42797d5..205fafa 100644
--- a/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py
+++ b/objects/CSCG/_3d/exactSolutions/incompressibleNavierStokes/others.py
@@ -113,7 +113,7 @@ class Constant_X_direction_body_force(incompressible_NavierStokes_Base):
         """This makes body force valid at all time instants."""
         if self._bodyForce_ is None:
             self._bodyForce_ = _3dCSCG_VectorField(self.mesh, (self.fx, self.fy, self.fz),
-                                                   ftype='constant', valid_time=None)
+                                                   valid_time=None)
         return self._bodyForce_
 
 
@@ -165,5 +165,5 @@ class Still(incompressible_NavierStokes_Base):
         """This makes body force valid at all time instants."""
         if self._bodyForce_ is None:
             self._bodyForce_ = _3dCSCG_VectorField(self.mesh, (self.fx, self.fy, self.fz),
-                                                   ftype='constant', valid_time=None)
+                                                   valid_time=None)
         return self._bodyForce_
-- 
2.43.0


From 743a550ad6c3f72975bd25652221dea89557472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 15/72] fix: setting current_time of a 2-D exact solution skips
 quantities it does not define

---
 objects/CSCG/_2d/exactSolutions/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/_2d/exactSolutions/base.py b/objects/CSCG/_2d/exactSolutions/base.py
index 10e6ac7..77ee793 100644
--- a/objects/CSCG/_2d/exactSolutions/base.py
+++ b/objects/CSCG/_2d/exactSolutions/base.py
@@ -32,7 +32,10 @@ class Base(FrozenOnly):
         attr_names = dir(self)
         for attr_name in attr_names:
             if attr_name != 'current_time':
-                attr = getattr(self, attr_name)
+                try:
+                    attr = getattr(self, attr_name)
+                except NotImplementedError:  # a quantity this exact solution does not define, e.g. `Re`.
+                    continue
 
                 if hasattr(attr, '_current_time_'):
 
-- 
2.43.0


From 06c02eea8018d3d6cd5e1431a5bead2efa1bcd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 16/72] fix: numerical partial derivatives in 3-D accept
 callable objects, as in 2-D

---
 components/numerical/timePlus3dSpace/partial_derivative.py      | 2 ++
 .../timePlus3dSpace/partial_derivative_as_functions.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/components/numerical/timePlus3dSpace/partial_derivative.py b/components/numerical/timePlus3dSpace/partial_derivative.py
index f60305e..d69cb78 100644
--- a/components/numerical/timePlus3dSpace/partial_derivative.py
+++ b/components/numerical/timePlus3dSpace/partial_derivative.py
@@ -31,6 +31,8 @@ class NumericalPartialDerivative_txyz(ABC):
             # noinspection PyUnresolvedReferences
             assert func.__code__.co_argcount == 5, \
                 " <PartialDerivative> : need a method of 5 args (5 including self)."
+        elif callable(func):  # a callable object: its amount of arguments is not checked.
+            pass
         else:
             raise NotImplementedError(func.__class__.__name__)
         self._func_ = func
diff --git a/components/numerical/timePlus3dSpace/partial_derivative_as_functions.py b/components/numerical/timePlus3dSpace/partial_derivative_as_functions.py
index 07de16a..1fe793a 100644
--- a/components/numerical/timePlus3dSpace/partial_derivative_as_functions.py
+++ b/components/numerical/timePlus3dSpace/partial_derivative_as_functions.py
@@ -26,6 +26,8 @@ class NumericalPartialDerivative_txyz_Functions(FrozenOnly):
         elif isinstance(func, MethodType):
             # noinspection PyUnresolvedReferences
             assert func.__code__.co_argcount == 5, " <PartialDerivative> : need a method of 5 args (5 including self)."
+        elif callable(func):  # a callable object: its amount of arguments is not checked.
+            pass
         else:
             raise NotImplementedError(func.__class__.__name__)
         self._func_ = func
-- 
2.43.0


From 762f1fc196e8eede05aba18df6c6a9a8c09c05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 17/72] fix: the inner product of two vectors on a triangular
 mesh is a scalar

---
 .../triangular/fields/vector/do/inner_product.py  | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/objects/miUsGrid/triangular/fields/vector/do/inner_product.py b/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
index 3f6005a..4a5d8c0 100644
--- a/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
+++ b/objects/miUsGrid/triangular/fields/vector/do/inner_product.py
@@ -9,7 +9,7 @@ import sys
 if './' not in sys.path: sys.path.append('./')
 from components.freeze.main import FrozenOnly
 
-from objects.CSCG._2d.fields.scalar.do.cross_product.helpers.helper2 import ___SF_CROSS_PRODUCT_HELPER_2___
+from objects.CSCG._2d.fields.vector.do.inner_product.helpers.helper import VF2_IP_H
 
 from importlib import import_module
 
@@ -25,24 +25,23 @@ class miUsTriangle_VectorField_InnerProduct(FrozenOnly):
                 if vector.ftype == 'standard':
                     u, v = self._vf_.func
                     a, b = vector.func
-                    IP1 = ___SF_CROSS_PRODUCT_HELPER_2___(u, a)
-                    IP2 = ___SF_CROSS_PRODUCT_HELPER_2___(v, b)
+                    IP = VF2_IP_H(u, v, a, b)
 
                     base_path = '.'.join(str(self.__class__).split(' ')[1][1:-2].split('.')[:-4]) + '.'
 
-                    vector_class = getattr(import_module(base_path + 'vector.main'),
-                                           'miUsGrid_Triangular_Vector')
+                    scalar_class = getattr(import_module(base_path + 'scalar.main'),
+                                           'miUsGrid_Triangular_Scalar')
 
-                    Ip_vector = vector_class(
+                    Ip_scalar = scalar_class(
                         self._vf_.mesh,
-                        [IP1, IP2],
+                        IP,
                         ftype='standard',
                         valid_time=self._vf_.valid_time,
                         name =self._vf_.standard_properties.name
                               + '--inner-product--'
                               + vector.standard_properties.name
                     )
-                    return Ip_vector
+                    return Ip_scalar
                 else:
                     raise NotImplementedError(
                         f"a standard miUsGrid_Triangular_Vector cannot do inner product with "
-- 
2.43.0


From ff3e13c7374bf185c382d269b1cf208bb772754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:07 +0000
Subject: [PATCH 18/72] fix: inner product of a 3-D vector field with the basis
 of a form recognises the forms

---
 objects/CSCG/_3d/fields/vector/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/fields/vector/main.py b/objects/CSCG/_3d/fields/vector/main.py
index 8fa5101..533d1db 100644
--- a/objects/CSCG/_3d/fields/vector/main.py
+++ b/objects/CSCG/_3d/fields/vector/main.py
@@ -206,10 +206,10 @@ class _3dCSCG_VectorField(_3dCSCG_Continuous_FORM_BASE, ndim=3):
         """
         if self.ftype == 'standard':
             assert self.mesh == other.mesh
-            if other.__class__.__name__ == '_2Form':
+            if other.__class__.__name__ == '_3dCSCG_2Form':
                 # when other is a 2-form, we consider self as a (star of) continuous 1-form.
                 DG = _VF_InnerWith2Form(self, other, quad_degree)
-            elif other.__class__.__name__ == '_1Form':
+            elif other.__class__.__name__ == '_3dCSCG_1Form':
                 # when other is a 1-form, we consider self as a (star of) continuous 2-form.
                 DG = _VF_InnerWith1Form(self, other, quad_degree)
             else:
-- 
2.43.0


From d3cb219e037d51ba917aabc4b10fde786eca3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 19/72] fix: Ln-norm of a 2-D vector field uses its two
 components

---
 objects/CSCG/_2d/fields/vector/do/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_2d/fields/vector/do/main.py b/objects/CSCG/_2d/fields/vector/do/main.py
index 1ed9747..34b132d 100644
--- a/objects/CSCG/_2d/fields/vector/do/main.py
+++ b/objects/CSCG/_2d/fields/vector/do/main.py
@@ -46,7 +46,7 @@ class _2dCSCG_VectorField_DO(FrozenOnly):
 
                 local_norm.append(
                     np.sum(
-                        ((QuadValue[i][0])**n+(QuadValue[i][1])**n+(QuadValue[i][2])**n)
+                        ((QuadValue[i][0])**n+(QuadValue[i][1])**n)
                         * quad_weights
                         * detJ[i]
                     )
-- 
2.43.0


From b1e80027bfcc9338c9a5a461de44e757bdf97499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 20/72] fix: the number of local dofs of a 2-D trace form is
 counted

---
 objects/CSCG/_2d/forms/trace/base/numbering/Naive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py b/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
index dc0891e..391333a 100644
--- a/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
+++ b/objects/CSCG/_2d/forms/trace/base/numbering/Naive.py
@@ -62,6 +62,7 @@ class _2dCSCG_Trace_Numbering_Naive(FrozenOnly):
             am_UD, am_LR = type_amount_dict[i]
             start_num = am_UD * NBO[0] + am_LR * NBO[1]
             GM_TEW[i] = range(start_num, start_num + num_basis_onside[t_e_i.CHARACTERISTIC_edge])
+            local_num_dofs += num_basis_onside[t_e_i.CHARACTERISTIC_edge]
 
         MAP = self._mesh_.trace.elements.map
         for i in MAP:
-- 
2.43.0


From c5df36f82c414a781832202b49a34cc9ea3e8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 21/72] fix: the two side look-ups of a hybrid local-trace form
 do not spoil each other's cache

---
 .../localTrace/base/numbering/do/find.py      | 32 +------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py b/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
index fe4a55f..46df5ca 100644
--- a/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
+++ b/objects/CSCG/_3d/forms/localTrace/base/numbering/do/find.py
@@ -107,34 +107,4 @@ class _3dCSCG_LocalTrace_Numbering_DoFind(FrozenOnly):
         """
         assert self._ltf_.num.basis == GM.global_shape[1]
 
-        if k not in self._localSideCache_:
-            self._localSideCache_[k] = dict()
-        else:
-            pass
-
-        if side_name not in self._localSideCache_[k]:
-            NBO = self._ltf_.num.basis_onside
-            NS = NBO['N']
-            WE = NBO['W']
-            BF = NBO['B']
-            if side_name == 'N':
-                indices = [0, NS]
-            elif side_name == 'S':
-                indices = [NS, 2*NS]
-            elif side_name == 'W':
-                indices = [2*NS, 2*NS+WE]
-            elif side_name == 'E':
-                indices = [2*NS+WE, 2*NS+2*WE]
-            elif side_name == 'B':
-                indices = [2*NS+2*WE, 2*NS+2*WE+BF]
-            elif side_name == 'F':
-                indices = [2*NS+2*WE+BF, 2*NS+2*WE+2*BF]
-            else:
-                raise Exception()
-            self._localSideCache_[k][side_name] = indices
-        else:
-            pass
-
-        i0, i1 = self._localSideCache_[k][side_name]
-
-        return GM[element].full_vector[i0:i1]
+        return GM[element].full_vector[self.local_dofs_on_element_side(side_name)]
-- 
2.43.0


From 860093028d927f893b1e30c3a7f99d02bc996dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:01 +0000
Subject: [PATCH 22/72] fix: a vertex of a 2-D mesh gets one 0-form number also
 when its elements are connected through a later one

---
 .../forms/standard/base/numbering/Naive.py    | 44 +++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py b/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
index a3517b5..2fdd85f 100644
--- a/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
+++ b/objects/CSCG/_2d/forms/standard/base/numbering/Naive.py
@@ -154,12 +154,17 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
             currentNumber = 0
             other_side_name = 'DURL'  # not an error, this is other side name.
             sidePairDict = {'U': 'D', 'D': 'U', 'L': 'R', 'R': 'L'}
+            maps_and_indices = list()
+            whole_map = dict()
             for i in range(SIZE):
                 if i == MASTER_RANK:
-                    element_map = mesh.elements.map
-                    element_indices = mesh.elements.indices
+                    maps_and_indices.append([mesh.elements.map, mesh.elements.indices])
                 else:
-                    element_map, element_indices = COMM.recv(source=i, tag=i)
+                    maps_and_indices.append(COMM.recv(source=i, tag=i))
+                whole_map.update(maps_and_indices[i][0])
+
+            for i in range(SIZE):
+                element_map, element_indices = maps_and_indices[i]
 
                 for k in element_indices:
                     if k == 0:
@@ -188,6 +193,9 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
                                 self.___PRIVATE_for_0Form_pass_element_side_numbering_from_to___(
                                     k, sidePairDict[otherSide], otherElement, otherSide, numberingCache
                                 )
+
+                    self.___PRIVATE_for_0Form_pass_corner_numbering_around___(k, whole_map, numberingCache, p)
+
                 toBeSentAway = dict()
                 for k in element_indices:
                     toBeSentAway[k] = numberingCache[k]
@@ -208,6 +216,36 @@ class _2dCSCG_Standard_Form_Numbering_Naive(FrozenOnly):
 
         return gathering_matrix, numOfDofs, extraInfo
 
+    @staticmethod
+    def ___PRIVATE_for_0Form_pass_corner_numbering_around___(k, whole_map, numberingCache, p):
+        """Pass the numbering of the corners of element #k to all later elements around them.
+
+        Two elements can meet at a corner only and be connected through an element which is numbered after both
+        of them (for example, around a hole in the domain). So going from side to side, element by element, is not
+        enough.
+        """
+        index = {'U': 0, 'D': -1, 'L': 0, 'R': -1}
+        sidePairDict = {'U': 'D', 'D': 'U', 'L': 'R', 'R': 'L'}
+        for corner in ('UL', 'UR', 'DL', 'DR'):
+            number = numberingCache[k][index[corner[0]], index[corner[1]]]
+            found = {(k, corner), }
+            todo = [(k, corner), ]
+            while len(todo) > 0:
+                element, c = todo.pop()
+                for n in range(2):
+                    other = whole_map[element]['UDLR'.index(c[n])]
+                    if isinstance(other, str):  # on domain boundary
+                        continue
+                    oc = sidePairDict[c[0]] + c[1] if n == 0 else c[0] + sidePairDict[c[1]]
+                    if (other, oc) in found:
+                        continue
+                    found.add((other, oc))
+                    todo.append((other, oc))
+                    if other > k:
+                        if other not in numberingCache:
+                            numberingCache[other] = -np.ones(p, dtype=int)
+                        numberingCache[other][index[oc[0]], index[oc[1]]] = number
+
     @staticmethod
     def ___PRIVATE_for_0Form_pass_element_side_numbering_from_to___(
             fromElement, fromSide, toElement, toSide, numberingCache
-- 
2.43.0


From 8d1945f679e5ad20dc280dda49b07f52926b49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:33 +0000
Subject: [PATCH 23/72] fix: the element at a corner of a 3-D region is found
 from the corner asked for

---
 objects/CSCG/_3d/mesh/elements/do/find.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/elements/do/find.py b/objects/CSCG/_3d/mesh/elements/do/find.py
index 8da615d..9529c1d 100644
--- a/objects/CSCG/_3d/mesh/elements/do/find.py
+++ b/objects/CSCG/_3d/mesh/elements/do/find.py
@@ -38,22 +38,22 @@ class _3dCSCG_Mesh_Elements_DO_FIND(FrozenOnly):
         assert which_corner in corner_names, \
             f"which_corner={which_corner} is illegal!"
 
-        if 'N' in corner_names:
+        if 'N' in which_corner:
             id0 = 0
         else:
-            assert 'S' in corner_names
+            assert 'S' in which_corner
             id0 = -1
 
-        if 'W' in corner_names:
+        if 'W' in which_corner:
             id1 = 0
         else:
-            assert 'E' in corner_names
+            assert 'E' in which_corner
             id1 = -1
 
-        if 'B' in corner_names:
+        if 'B' in which_corner:
             id2 = 0
         else:
-            assert 'F' in corner_names
+            assert 'F' in which_corner
             id2 = -1
 
         element_numbering = mesh.___PRIVATE_generate_element_global_numbering___(number_what=region_name)
-- 
2.43.0


From 180ae079b3529334f286decc914f71401c120de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:33 +0000
Subject: [PATCH 24/72] fix: the hole of the 2-D chp1 domain passes through its
 region corners for every radius

---
 objects/CSCG/_2d/mesh/domain/inputs/chp1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_2d/mesh/domain/inputs/chp1.py b/objects/CSCG/_2d/mesh/domain/inputs/chp1.py
index 6614026..e81510c 100644
--- a/objects/CSCG/_2d/mesh/domain/inputs/chp1.py
+++ b/objects/CSCG/_2d/mesh/domain/inputs/chp1.py
@@ -44,7 +44,7 @@ class CircleHolePlate1(DomainInputBase):
         assert hx > 0 and hy > 0, " <HolePlate> : hx={}, hy={} illegal.".format(hx, hy)
         assert r < np.min((hx, hy)), " <HolePlate> : r={} too large.".format(r)
         # ______ initialiing parent ____________________________________________________
-        hsqr_r = 0.5 * np.sqrt(r)
+        hsqr_r = r / 2 ** 0.5
         super().__init__(domain_name='CircleHolePlate1')
         self.region_corner_coordinates = {
             'R:Ru': ((-hsqr_r, hsqr_r), (hsqr_r, hsqr_r), (-hx / 2, hy / 2), (hx / 2, hy / 2)),
-- 
2.43.0


From 434b4f79fe5184ea651df23f27560612f9f73042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:33 +0000
Subject: [PATCH 25/72] fix: the process of a triangular element is found also
 when some process has no element

---
 objects/miUsGrid/triangular/mesh/elements/do/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/miUsGrid/triangular/mesh/elements/do/find.py b/objects/miUsGrid/triangular/mesh/elements/do/find.py
index 1593a87..e29fd44 100644
--- a/objects/miUsGrid/triangular/mesh/elements/do/find.py
+++ b/objects/miUsGrid/triangular/mesh/elements/do/find.py
@@ -24,7 +24,7 @@ class miUsGrid_TriangularMesh_Elements_DO_FIND(FrozenOnly):
     def rank_of_element(self, i: int) -> int:
         DISTRI = self._elements_.distributions
         if isinstance(i, str): i = int(i)
-        if SIZE <= 4:
+        if SIZE <= 4 or not all(len(_) > 0 for _ in DISTRI):
             for nC in range(SIZE):
                 if i in DISTRI[nC]: return nC
             raise Exception()
-- 
2.43.0


From 9c6b87543665a3cc3e5dac89689e0d331308fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:33 +0000
Subject: [PATCH 26/72] fix: the cache key of a sum or difference of two column
 vectors takes both of them into account

---
 .../dataStructures/objects/columnVector/helpers/add.py          | 2 +-
 .../dataStructures/objects/columnVector/helpers/sub.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index f34ec64..8d66937 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -14,4 +14,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 582eaaf..40e4875 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -14,4 +14,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v1_._KG_(i)
+        return self._v1_._KG_(i) + self._v2_._KG_(i)
-- 
2.43.0


From 49c189ae8a98ca0f8ebf1074ed43ca724af917dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:39 +0000
Subject: [PATCH 27/72] fix: the result of an operation on a customized
 element-wise matrix or vector is not cached under the key of the uncustomized
 one

---
 .../columnVector/helpers/___PRIVATE_sum___.py |  2 +-
 .../objects/columnVector/helpers/add.py       |  2 +-
 .../objects/columnVector/helpers/sub.py       |  2 +-
 .../objects/columnVector/main.py              | 14 ++++++++++---
 .../objects/sparseMatrix/helpers/Psum.py      |  2 +-
 .../objects/sparseMatrix/helpers/add.py       |  2 +-
 .../objects/sparseMatrix/helpers/matmul.py    |  2 +-
 .../objects/sparseMatrix/helpers/sub.py       |  2 +-
 .../objects/sparseMatrix/helpers/vecmul.py    |  2 +-
 .../objects/sparseMatrix/main.py              | 20 +++++++++++++------
 10 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
index a381481..b12de4e 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
@@ -25,5 +25,5 @@ class ColVec_PRIVATE_sum(FrozenOnly):
         """"""
         KEY = list()
         for v in self._cv_:
-            KEY.append(v._KG_(basic_unit))
+            KEY.append(v.___PRIVATE_cache_key___(basic_unit))
         return ''.join(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index 8d66937..ab9e70a 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -14,4 +14,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return self._v1_.___PRIVATE_cache_key___(i) + self._v2_.___PRIVATE_cache_key___(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index 40e4875..fd066a1 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -14,4 +14,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_._KG_(i) + self._v2_._KG_(i)
+        return self._v1_.___PRIVATE_cache_key___(i) + self._v2_.___PRIVATE_cache_key___(i)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
index f4229da..fe6c67f 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/main.py
@@ -208,6 +208,14 @@ class EWC_ColumnVector(FrozenOnly):
         """When we get a dict as the data generator, we make wrap it with a method."""
         return self.___dict_DG___[i]
 
+    def ___PRIVATE_cache_key___(self, i):
+        """The cache key of my output for element #`i`. My customizations are not part of my own cache;
+        what is made from a customized me therefore must not be cached at all."""
+        if self.customizations != dict():
+            return self.___NC___
+        else:
+            return self._KG_(i)
+
     @property
     def gathering_matrix(self):
         return self._gathering_matrix_
@@ -375,7 +383,7 @@ class EWC_ColumnVector(FrozenOnly):
         """- EWC_ColumnVector"""
         data_generator = ___CV_NEG___(self)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
@@ -384,7 +392,7 @@ class EWC_ColumnVector(FrozenOnly):
         """"""
         DG = ColVec_MUL(self, other)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, DG, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
@@ -393,7 +401,7 @@ class EWC_ColumnVector(FrozenOnly):
         """"""
         DG = ColVec_MUL(self, other)
         # noinspection PyTypeChecker
-        RETURN = EWC_ColumnVector(self._elements_, DG, self._KG_)
+        RETURN = EWC_ColumnVector(self._elements_, DG, self.___PRIVATE_cache_key___)
         if self.gathering_matrix is not None:
             RETURN.gathering_matrix = self.gathering_matrix
         return RETURN
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
index 8a59fc1..2f4a338 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
@@ -24,5 +24,5 @@ class SpaMat_PRIVATE_sum(FrozenOnly):
         """"""
         KEY = list()
         for v in self._Ms_:
-            KEY.append(v._KG_(basic_unit))
+            KEY.append(v.___PRIVATE_cache_key___(basic_unit))
         return ''.join(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
index 8c5dcc6..3c0bbf0 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
@@ -12,4 +12,4 @@ class ___ADD___(FrozenOnly):
         return self._ewc1_[item] + self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return self._ewc1_.___PRIVATE_cache_key___(item) + self._ewc2_.___PRIVATE_cache_key___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
index 47bf42c..78f1faa 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
@@ -13,4 +13,4 @@ class ___MATMUL___(FrozenOnly):
         return self._ewc1_[item] @ self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return self._ewc1_.___PRIVATE_cache_key___(item) + self._ewc2_.___PRIVATE_cache_key___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
index bd48478..c3941e8 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
@@ -13,4 +13,4 @@ class ___SUB___(FrozenOnly):
         return self._ewc1_[item] - self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_._KG_(item) + self._ewc2_._KG_(item)
+        return self._ewc1_.___PRIVATE_cache_key___(item) + self._ewc2_.___PRIVATE_cache_key___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
index 5153e84..cb2f54a 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
@@ -13,4 +13,4 @@ class ___VECMUL___(FrozenOnly):
         return self._ewc_S_[item] @ self._ewc_V_[item]
 
     def __KG_call__(self, item):
-        return self._ewc_S_._KG_(item) + self._ewc_V_._KG_(item)
+        return self._ewc_S_.___PRIVATE_cache_key___(item) + self._ewc_V_.___PRIVATE_cache_key___(item)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
index f07731c..429ee09 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/main.py
@@ -250,6 +250,14 @@ class EWC_SparseMatrix(FrozenOnly):
         """When we get a dict as the data generator, we make wrap it with a method."""
         return self.___dict_DG___[i]
 
+    def ___PRIVATE_cache_key___(self, i):
+        """The cache key of my output for element #`i`. My customizations are not part of my own cache;
+        what is made from a customized me therefore must not be cached at all."""
+        if self.customizations != dict():
+            return self.___NC___
+        else:
+            return self._KG_(i)
+
     @property
     def elements(self):
         """The mesh elements."""
@@ -473,7 +481,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___MUL___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -487,7 +495,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___MUL___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -500,7 +508,7 @@ class EWC_SparseMatrix(FrozenOnly):
         :return:
         """
         data_generator = ___TRUE_DIV___(self, other)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -514,7 +522,7 @@ class EWC_SparseMatrix(FrozenOnly):
     def __neg__(self):
         """- EWC_SparseMatrix"""
         data_generator = ___NEG___(self)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = self.gathering_matrices
         return RETURN
@@ -546,7 +554,7 @@ class EWC_SparseMatrix(FrozenOnly):
     def T(self):
         """Transpose of self."""
         data_generator = ___TRANSPOSE___(self)
-        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        RETURN = EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
 
         if self.gathering_matrices != (None, None):
             RETURN.gathering_matrices = (self.gathering_matrices[1], self.gathering_matrices[0])
@@ -560,7 +568,7 @@ class EWC_SparseMatrix(FrozenOnly):
         Watch out, this could be very slow.
         """
         data_generator = ___LinearAlgebraINV___(self)
-        return EWC_SparseMatrix(self._elements_, data_generator, self._KG_)
+        return EWC_SparseMatrix(self._elements_, data_generator, self.___PRIVATE_cache_key___)
 
     def ___PRIVATE_sum___(self, others):
         """self + all others."""
-- 
2.43.0


From 34cd11104557c40dcf55df21af26871694c8c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:39 +0000
Subject: [PATCH 28/72] fix: cache keys of several operands are joined
 unambiguously

---
 .../elementwiseCache/dataStructures/cache_key.py | 16 ++++++++++++++++
 .../columnVector/helpers/___PRIVATE_sum___.py    |  3 ++-
 .../objects/columnVector/helpers/add.py          |  3 ++-
 .../objects/columnVector/helpers/sub.py          |  3 ++-
 .../objects/sparseMatrix/helpers/Psum.py         |  3 ++-
 .../objects/sparseMatrix/helpers/add.py          |  3 ++-
 .../objects/sparseMatrix/helpers/matmul.py       |  3 ++-
 .../objects/sparseMatrix/helpers/sub.py          |  3 ++-
 .../objects/sparseMatrix/helpers/vecmul.py       |  3 ++-
 .../operators/bmat/sparse_matrix/helpers/KG.py   |  5 ++---
 .../concatenate/column_vector/helpers/KG.py      |  5 ++---
 11 files changed, 36 insertions(+), 14 deletions(-)
 create mode 100644 tools/elementwiseCache/dataStructures/cache_key.py

diff --git a/tools/elementwiseCache/dataStructures/cache_key.py b/tools/elementwiseCache/dataStructures/cache_key.py
new file mode 100644
index 0000000..dfbad8a
--- /dev/null
+++ b/tools/elementwiseCache/dataStructures/cache_key.py
@@ -0,0 +1,16 @@
+# -*- coding: utf-8 -*-
+"""The cache key of something made from several element-wise-cached objects."""
+
+
+def join_cache_keys(keys):
+    """Join the cache keys of the operands such that different tuples of keys give different results: the keys
+    ('1', '11') must not be taken for ('11', '1').
+
+    :param keys: the cache keys of the operands in one element.
+    """
+    if any('>NC<' in key for key in keys):
+        return '>NC<'
+    elif all(key == '>CT<' for key in keys):
+        return '>CT<'
+    else:
+        return ''.join(f'{len(key)}:{key}' for key in keys)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
index b12de4e..ff0cc71 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/___PRIVATE_sum___.py
@@ -5,6 +5,7 @@
 @time: 2022/8/8 22:55
 """
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ColVec_PRIVATE_sum(FrozenOnly):
@@ -26,4 +27,4 @@ class ColVec_PRIVATE_sum(FrozenOnly):
         KEY = list()
         for v in self._cv_:
             KEY.append(v.___PRIVATE_cache_key___(basic_unit))
-        return ''.join(KEY)
+        return join_cache_keys(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
index ab9e70a..50bb8da 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/add.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___CV_ADD___(FrozenOnly):
@@ -14,4 +15,4 @@ class ___CV_ADD___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_.___PRIVATE_cache_key___(i) + self._v2_.___PRIVATE_cache_key___(i)
+        return join_cache_keys([self._v1_.___PRIVATE_cache_key___(i), self._v2_.___PRIVATE_cache_key___(i)])
diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
index fd066a1..51efe8b 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/helpers/sub.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___CV_SUB___(FrozenOnly):
@@ -14,4 +15,4 @@ class ___CV_SUB___(FrozenOnly):
 
     def __KG_call__(self, i):
         """"""
-        return self._v1_.___PRIVATE_cache_key___(i) + self._v2_.___PRIVATE_cache_key___(i)
+        return join_cache_keys([self._v1_.___PRIVATE_cache_key___(i), self._v2_.___PRIVATE_cache_key___(i)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
index 2f4a338..fd725fc 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/Psum.py
@@ -5,6 +5,7 @@
 @time: 2022/8/8 23:22
 """
 from components.freeze.main import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class SpaMat_PRIVATE_sum(FrozenOnly):
@@ -25,4 +26,4 @@ class SpaMat_PRIVATE_sum(FrozenOnly):
         KEY = list()
         for v in self._Ms_:
             KEY.append(v.___PRIVATE_cache_key___(basic_unit))
-        return ''.join(KEY)
+        return join_cache_keys(KEY)
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
index 3c0bbf0..5f4063b 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/add.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___ADD___(FrozenOnly):
@@ -12,4 +13,4 @@ class ___ADD___(FrozenOnly):
         return self._ewc1_[item] + self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_.___PRIVATE_cache_key___(item) + self._ewc2_.___PRIVATE_cache_key___(item)
+        return join_cache_keys([self._ewc1_.___PRIVATE_cache_key___(item), self._ewc2_.___PRIVATE_cache_key___(item)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
index 78f1faa..20b5322 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/matmul.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___MATMUL___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___MATMUL___(FrozenOnly):
         return self._ewc1_[item] @ self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_.___PRIVATE_cache_key___(item) + self._ewc2_.___PRIVATE_cache_key___(item)
+        return join_cache_keys([self._ewc1_.___PRIVATE_cache_key___(item), self._ewc2_.___PRIVATE_cache_key___(item)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
index c3941e8..4132fc9 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/sub.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___SUB___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___SUB___(FrozenOnly):
         return self._ewc1_[item] - self._ewc2_[item]
 
     def __KG_call__(self, item):
-        return self._ewc1_.___PRIVATE_cache_key___(item) + self._ewc2_.___PRIVATE_cache_key___(item)
+        return join_cache_keys([self._ewc1_.___PRIVATE_cache_key___(item), self._ewc2_.___PRIVATE_cache_key___(item)])
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
index cb2f54a..d89c149 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/vecmul.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from components.freeze.base import FrozenOnly
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___VECMUL___(FrozenOnly):
@@ -13,4 +14,4 @@ class ___VECMUL___(FrozenOnly):
         return self._ewc_S_[item] @ self._ewc_V_[item]
 
     def __KG_call__(self, item):
-        return self._ewc_S_.___PRIVATE_cache_key___(item) + self._ewc_V_.___PRIVATE_cache_key___(item)
+        return join_cache_keys([self._ewc_S_.___PRIVATE_cache_key___(item), self._ewc_V_.___PRIVATE_cache_key___(item)])
diff --git a/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py b/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
index f27256d..66c372b 100644
--- a/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
+++ b/tools/elementwiseCache/dataStructures/operators/bmat/sparse_matrix/helpers/KG.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___BMAT_HELPER_KeyGenerator___:
@@ -48,8 +49,6 @@ class ___BMAT_HELPER_KeyGenerator___:
             return self._NC_
 
         else:
-            key_out = ''
-            for vb in self.valid_block:
-                key_out += vb._KG_(item)
+            key_out = join_cache_keys([vb._KG_(item) for vb in self.valid_block])
 
         return key_out
diff --git a/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py b/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
index 0deda74..726acd0 100644
--- a/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
+++ b/tools/elementwiseCache/dataStructures/operators/concatenate/column_vector/helpers/KG.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from tools.elementwiseCache.dataStructures.cache_key import join_cache_keys
 
 
 class ___concatenate_HELPER_KeyGenerator___:
@@ -42,8 +43,6 @@ class ___concatenate_HELPER_KeyGenerator___:
             return self._NC_
 
         else:
-            key_out = ''
-            for vb in self.vectors:
-                key_out += vb._KG_(i)
+            key_out = join_cache_keys([vb._KG_(i) for vb in self.vectors])
 
         return key_out
-- 
2.43.0


From 04c434112716b3edeb9a4df8f6445cb160fb845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 29/72] fix: a locally full vector made from forms in the
 sequent chain takes the value of a shared dof instead of summing it over the
 elements

---
 .../vectors/locallyFull/main.py               | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py b/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
index 6d33c5a..b85d8c0 100644
--- a/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
+++ b/tools/miLinearAlgebra/dataStructures/vectors/locallyFull/main.py
@@ -3,7 +3,7 @@
 from components.freeze.main import FrozenOnly
 from root.config.main import RANK, MASTER_RANK, COMM, np
 from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.do import LocallyFullVectorDo
-from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
+from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining
 
 
 class LocallyFullVector(FrozenOnly):
@@ -43,21 +43,21 @@ class LocallyFullVector(FrozenOnly):
                     self._V_ = v
 
                 elif chain_method == 'sequent':
-                    EWC = list()
-                    for f in V:
-                        if f.cochain.local is not None:
-                            EWC.append(f.cochain.EWC)
-                        else:
-                            from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
-                            EWC.append(
-                                EWC_ColumnVector(f.mesh.elements, f.num.basis)
-                            )
-                    EWC = concatenate(EWC)
-                    EWC.assembler.chain_method = chain_method
-                    EWC.gathering_matrix = V
-                    V = EWC.assembled               # GlobalVector
-                    V = LocallyFullVector(V).V      # make it a LocallyFullVector
-                    self._V_ = V                    # use the V of LocallyFullVector as self._V_
+                    CGM = GatheringMatrixChaining(*V)(chain_method=chain_method)
+                    # a dof shared by elements has one value: it must not be summed over the elements.
+                    dofs, values = list(), list()
+                    for i in CGM:
+                        dofs.append(CGM[i])
+                        values.append(np.concatenate(
+                            [np.zeros(f.num.basis) if f.cochain.local is None else f.cochain.local[i] for f in V]
+                        ))
+                    parts = COMM.gather((dofs, values), root=MASTER_RANK)
+                    v = np.zeros(CGM.global_num_dofs)
+                    if RANK == MASTER_RANK:
+                        for dofs, values in parts:
+                            for d, value in zip(dofs, values):
+                                v[d] = value
+                    self._V_ = COMM.bcast(v, root=MASTER_RANK)
 
                 else:
                     raise NotImplementedError(f"initializing locally full vector from "
-- 
2.43.0


From 87aefcc852af9d42c4259216887423b20ffbe290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 30/72] fix: a gathering vector can be made from a list of
 integers

---
 tools/elementwiseCache/gathering/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/gathering/vector.py b/tools/elementwiseCache/gathering/vector.py
index 587a33c..c489e56 100644
--- a/tools/elementwiseCache/gathering/vector.py
+++ b/tools/elementwiseCache/gathering/vector.py
@@ -19,7 +19,7 @@ class Gathering_Vector(FrozenOnly):
         if isinstance(gv, list):  # list of integers
             self._gv_ = np.array(gv)
 
-        if isinstance(gv, tuple):  # tuple of a series of range object.
+        elif isinstance(gv, tuple):  # tuple of a series of range object.
             for gvi in gv:
                 assert isinstance(gvi, range), "Tuple of ranges."
             CHAIN = chain(*gv)
-- 
2.43.0


From 0a39902a72df720450801506d046e741601cb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 31/72] fix: entries not stored in a distributed vector are
 zero when it is set as a cochain

---
 objects/CSCG/_3d/ADF/standard/base/cochain/main.py | 2 +-
 objects/CSCG/_3d/ADF/trace/base/cochain/main.py    | 2 +-
 objects/CSCG/base/forms/localTrace/cochain/main.py | 2 +-
 objects/CSCG/base/forms/standard/cochain/main.py   | 2 +-
 objects/CSCG/base/forms/trace/cochain/main.py      | 2 +-
 objects/miUsGrid/base/form/standard/cochain.py     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/ADF/standard/base/cochain/main.py b/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
index b042fcc..1929941 100644
--- a/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/standard/base/cochain/main.py
@@ -86,7 +86,7 @@ class _3dCSCG_Algebra_DUAL_Standard_Form_Cochain(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._dsf_.num.global_dofs,))
+                    VV = np.zeros((self._dsf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
index c804dd6..7aa7618 100644
--- a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
@@ -68,7 +68,7 @@ class _3dCSCG_Algebra_DUAL_Trace_Form_Cochain(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._dt_.num.global_dofs,))
+                    VV = np.zeros((self._dt_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/localTrace/cochain/main.py b/objects/CSCG/base/forms/localTrace/cochain/main.py
index ca9db24..3ae89cd 100644
--- a/objects/CSCG/base/forms/localTrace/cochain/main.py
+++ b/objects/CSCG/base/forms/localTrace/cochain/main.py
@@ -84,7 +84,7 @@ class CSCG_LocalTrace_CochainBase(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._ltf_.num.global_dofs,))
+                    VV = np.zeros((self._ltf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/standard/cochain/main.py b/objects/CSCG/base/forms/standard/cochain/main.py
index 2caff24..3c95e55 100644
--- a/objects/CSCG/base/forms/standard/cochain/main.py
+++ b/objects/CSCG/base/forms/standard/cochain/main.py
@@ -168,7 +168,7 @@ class CSCG_Standard_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._sf_.num.global_dofs,))
+                    VV = np.zeros((self._sf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/CSCG/base/forms/trace/cochain/main.py b/objects/CSCG/base/forms/trace/cochain/main.py
index 11caafb..c4f1ffc 100644
--- a/objects/CSCG/base/forms/trace/cochain/main.py
+++ b/objects/CSCG/base/forms/trace/cochain/main.py
@@ -151,7 +151,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._tf_.global_num_dofs,))
+                    VV = np.zeros((self._tf_.global_num_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
diff --git a/objects/miUsGrid/base/form/standard/cochain.py b/objects/miUsGrid/base/form/standard/cochain.py
index 5362fcf..2b37f70 100644
--- a/objects/miUsGrid/base/form/standard/cochain.py
+++ b/objects/miUsGrid/base/form/standard/cochain.py
@@ -89,7 +89,7 @@ class miUsGrid_SF_CochainBase(FrozenOnly):
                 V = glb.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.empty((self._sf_.num.global_dofs,))
+                    VV = np.zeros((self._sf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
-- 
2.43.0


From 3525bf63b333ccd417188ba487c62a13fd5e0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 32/72] fix: the global cochains of trace forms and algebraic
 dual trace forms use existing attributes

---
 objects/CSCG/_3d/ADF/trace/base/cochain/main.py |  4 ++--
 objects/CSCG/base/forms/trace/cochain/main.py   | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
index 7aa7618..e265d59 100644
--- a/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
+++ b/objects/CSCG/_3d/ADF/trace/base/cochain/main.py
@@ -61,7 +61,7 @@ class _3dCSCG_Algebra_DUAL_Trace_Form_Cochain(FrozenOnly):
         if globe.__class__.__name__ == 'DistributedVector':
             assert globe.V.shape == (self._dt_.num.global_dofs, 1), "globe cochain shape wrong."
             # gather vector to master core ...
-            if globe.IS_master_dominating:
+            if globe.whether.master_dominating:
                 # no need to gather
                 VV = globe.V.T.toarray()[0]
             else:
@@ -74,7 +74,7 @@ class _3dCSCG_Algebra_DUAL_Trace_Form_Cochain(FrozenOnly):
                         data = v.data
                         VV[indices] = data
             # distribute vector to individual cores ...
-            local_range = self._dt_.numbering.gathering.local_range
+            local_range = self._dt_.prime.numbering.gathering.local_range
             local_range = COMM.gather(local_range, root=MASTER_RANK)
             if RANK == MASTER_RANK:
                 TO_BE_SENT = list()
diff --git a/objects/CSCG/base/forms/trace/cochain/main.py b/objects/CSCG/base/forms/trace/cochain/main.py
index c4f1ffc..d4e6652 100644
--- a/objects/CSCG/base/forms/trace/cochain/main.py
+++ b/objects/CSCG/base/forms/trace/cochain/main.py
@@ -114,7 +114,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
         Will raise error if cochain is not full.
         """
         GM = self._tf_.numbering.gathering
-        globe = lil_matrix((1, self._tf_.global_num_dofs))
+        globe = lil_matrix((1, self._tf_.num.global_dofs))
         for i in GM:  # go through all local elements
             globe[0, GM[i].full_vector] = self.local[i]
 
@@ -122,7 +122,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
         GLOBE = COMM.gather(globe, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            measure = np.zeros(self._tf_.global_num_dofs, dtype=int)
+            measure = np.zeros(self._tf_.num.global_dofs, dtype=int)
             for G in GLOBE:
                 indices = G.indices
                 measure[indices] += 1
@@ -133,7 +133,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
             globe = csr_matrix(_____).T
 
         else:
-            globe = csc_matrix((self._tf_.global_num_dofs, 1))
+            globe = csc_matrix((self._tf_.num.global_dofs, 1))
 
         GDV = DistributedVector(globe)
         assert GDV.whether.master_dominating
@@ -142,7 +142,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
     @globe.setter
     def globe(self, globe):
         if globe.__class__.__name__ == 'DistributedVector':
-            assert globe.V.shape == (self._tf_.global_num_dofs, 1), "globe cochain shape wrong."
+            assert globe.V.shape == (self._tf_.num.global_dofs, 1), "globe cochain shape wrong."
             # gather vector to master core ...
             if globe.whether.master_dominating:
                 # no need to gather
@@ -151,7 +151,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                 V = globe.V
                 V = COMM.gather(V, root=MASTER_RANK)
                 if RANK == MASTER_RANK:
-                    VV = np.zeros((self._tf_.global_num_dofs,))
+                    VV = np.zeros((self._tf_.num.global_dofs,))
                     for v in V:
                         indices = v.indices
                         data = v.data
@@ -168,7 +168,7 @@ class CSCG_Trace_Form_Cochain_BASE(FrozenOnly):
                         # noinspection PyUnboundLocalVariable
                         to_be_sent = spspa.csc_matrix(
                             (VV[lr[0]:lr[1]], range(lr[0], lr[1]), [0, lr[1]-lr[0]]),
-                            shape=(self._tf_.global_num_dofs, 1))
+                            shape=(self._tf_.num.global_dofs, 1))
                     TO_BE_SENT.append(to_be_sent)
             else:
                 TO_BE_SENT = None
-- 
2.43.0


From 3e83dfab4ffafb14f46fd9ae390dcfcf239be9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 33/72] fix: forms on triangular meshes tell their number of
 global dofs under the name that is used everywhere

---
 objects/miUsGrid/triangular/forms/standard/base/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/miUsGrid/triangular/forms/standard/base/num.py b/objects/miUsGrid/triangular/forms/standard/base/num.py
index eefcedf..55eb9d0 100644
--- a/objects/miUsGrid/triangular/forms/standard/base/num.py
+++ b/objects/miUsGrid/triangular/forms/standard/base/num.py
@@ -20,5 +20,5 @@ class miUs_Triangular_SF_Num(FrozenOnly):
         return getattr(self._sf_.space.num_basis, self._sf_.__class__.__name__)
 
     @property
-    def GLOBAL_dofs(self):
+    def global_dofs(self):
         return self._sf_.numbering.gathering.global_num_dofs
\ No newline at end of file
-- 
2.43.0


From 74de4767abbab39e9efb9e446fd97661dbcc1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 34/72] fix: the projections of 3d 1- and 2-forms to three
 0-forms use existing attributes

---
 objects/CSCG/_3d/forms/standard/_1s/project/to.py | 6 +++---
 objects/CSCG/_3d/forms/standard/_2s/project/to.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/project/to.py b/objects/CSCG/_3d/forms/standard/_1s/project/to.py
index 4cfbbd8..22e7678 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/project/to.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/project/to.py
@@ -55,21 +55,21 @@ class ___3dCSCG_1Form_Project_To___(FrozenOnly):
         mesh = self._sf_.mesh
 
         f0_x = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_x_0form_of_'+self._sf_.standard_properties.name
         )
 
         f0_y = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_y_0form_of_'+self._sf_.standard_properties.name
         )
 
         f0_z = _3dCSCG_0Form(
-            mesh, space, hybrid=self._sf_.IS_hybrid,
+            mesh, space, hybrid=self._sf_.whether.hybrid,
             orientation=self._sf_.orientation,
             numbering_parameters=self._sf_.numbering._numbering_parameters_,
             name='Projected_z_0form_of_'+self._sf_.standard_properties.name
diff --git a/objects/CSCG/_3d/forms/standard/_2s/project/to.py b/objects/CSCG/_3d/forms/standard/_2s/project/to.py
index 2fe8c54..d6ced37 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/project/to.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/project/to.py
@@ -19,17 +19,17 @@ class ___3dCSCG_2Form_Project_To___(FrozenOnly):
         space = self._sf_.space
         mesh = self._sf_.mesh
 
-        f0_x = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_x = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_x_0form_of_'+self._sf_.standard_properties.name)
 
-        f0_y = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_y = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_y_0form_of_'+self._sf_.standard_properties.name)
 
-        f0_z = _3dCSCG_0Form(mesh, space, is_hybrid=self._sf_.IS_hybrid,
+        f0_z = _3dCSCG_0Form(mesh, space, hybrid=self._sf_.whether.hybrid,
                              orientation=self._sf_.orientation,
                              numbering_parameters=self._sf_.numbering._numbering_parameters_,
                              name='Projected_z_0form_of_'+self._sf_.standard_properties.name)
-- 
2.43.0


From 595fc9a85eb7cd9cb3e6ea5b1e99aa86df23bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 35/72] fix: the nonempty columns (rows) of a csc (csr) global
 matrix are found

---
 tools/miLinearAlgebra/dataStructures/globalMatrix/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
index 1424685..1d9ae84 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
@@ -88,7 +88,7 @@ class GlobalMatrix(FrozenOnly):
         """The columns have non-zero."""
         if self.mtype == 'csc':
             _ = np.diff(self.M.indptr) != 0  # the columns have non-zero values.
-            hnzc = np.argwhere(_ is True).ravel()
+            hnzc = np.argwhere(_).ravel()
         elif self.mtype == 'csr':
             hnzc = self.M.indices
             hnzc = sorted(list(set(hnzc)))
@@ -101,7 +101,7 @@ class GlobalMatrix(FrozenOnly):
         """The rows have non-zero."""
         if self.mtype == 'csr':
             _ = np.diff(self.M.indptr) != 0  # the rows have non-zero values.
-            hnzr = np.argwhere(_ is True).ravel()
+            hnzr = np.argwhere(_).ravel()
         elif self.mtype == 'csc':
             hnzr = self.M.indices
             hnzr = sorted(list(set(hnzr)))
-- 
2.43.0


From 980f9455250c96596832568fd2c12a0fafab9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 36/72] fix: a csc global matrix that is not column-major is
 not claimed to be

---
 tools/miLinearAlgebra/dataStructures/globalMatrix/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
index 1d9ae84..407a1f1 100644
--- a/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
+++ b/tools/miLinearAlgebra/dataStructures/globalMatrix/main.py
@@ -424,7 +424,7 @@ class GlobalMatrix(FrozenOnly):
         else:
             ToF = None
         ToF = COMM.bcast(ToF, root=MASTER_RANK)
-        return ToF,
+        return ToF
 
     def ___PRIVATE_self_regularity_checker___(self):
         """"""
-- 
2.43.0


From b3c7a8ea8c6c2243d12ddba716e6437b128eb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 37/72] fix: a master dominating distributed vector can be
 gathered to another core

---
 tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py b/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
index e5967fe..38f91b3 100644
--- a/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
+++ b/tools/miLinearAlgebra/dataStructures/vectors/distributed/do.py
@@ -23,7 +23,7 @@ class DistributedVectorDo(FrozenOnly):
         """
         if core is None:
             core = MASTER_RANK
-        if self._v_.whether.master_dominating:
+        if core == MASTER_RANK and self._v_.whether.master_dominating:
             if RANK == core:
                 return self._v_.V.toarray()[:, 0]
             else:
-- 
2.43.0


From b49777d0ad864dbb662bbbd8e66070b16f7f6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 38/72] fix: all contributions to the equations of imposed dofs
 are cleared, also of elements touching the boundary by a corner

---
 .../objects/columnVector/customize.py         | 14 ++++
 .../objects/sparseMatrix/customize.py         | 80 ++++++++++---------
 .../gathering/regular/chain_matrix/do/find.py | 27 +++++++
 3 files changed, 84 insertions(+), 37 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py b/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
index e72bb50..1aa592c 100644
--- a/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
+++ b/tools/elementwiseCache/dataStructures/objects/columnVector/customize.py
@@ -173,9 +173,21 @@ class SpaVec_Customize(FrozenOnly):
 
                 self.___customizations___[e].append(('slest', (local_dofs, ENTRIES)))
 
+            self.___Pr_clear_other_contributions___(GM, i, start_row, dofs)
+
         else:
             raise NotImplementedError()
 
+    def ___Pr_clear_other_contributions___(self, GM, i, start, LDF):
+        """The local entries which are not in `LDF` but contribute to same global entries must be cleared."""
+        others = GM.do.find.other_local_dofs_numbered_as(i, LDF)
+
+        for e in others:
+            if e not in self.___customizations___:
+                self.___customizations___[e] = list()
+            self.___customizations___[e].append(
+                ('slest', (np.array(others[e], dtype=int) + start, np.zeros(len(others[e])))))
+
     def set_constant_entries_according_to(self, i, BC_itp, constant, AS='local'):
         """
 
@@ -224,6 +236,8 @@ class SpaVec_Customize(FrozenOnly):
 
                 self.___customizations___[e].append(('slest', (local_dofs, CONSTANT)))
 
+            self.___Pr_clear_other_contributions___(GM, i, start_row, dofs)
+
         else:
             raise NotImplementedError(f"interpret={AS} not implemented.")
 
diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
index 2b40a93..85d0576 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/customize.py
@@ -319,31 +319,39 @@ class SpaMat_Customize(FrozenOnly):
         if AS == 'local':
             LDF = interpret.local.dofs
 
-            if len(LDF) == 0:
-                pass
+            GM = self._spa_mat_.gathering_matrices[0]
+            if GM.___Pr_IS_regular___:
+                LDR = GM.___Pr_regular__local_dofs_ranges___[i]
+                start = LDR.start
             else:
-                GM = self._spa_mat_.gathering_matrices[0]
-                if GM.___Pr_IS_regular___:
-                    LDR = GM.___Pr_regular__local_dofs_ranges___[i]
-                    start = LDR.start
-                else:
-                    raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
+                raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
 
-                for e in LDF:  # go through all locally involved mesh element numbers
-                    assert e in self._spa_mat_
+            for e in LDF:  # go through all locally involved mesh element numbers
+                assert e in self._spa_mat_
 
-                    if e not in self.___customizations___:
-                        self.___customizations___[e] = list()
+                if e not in self.___customizations___:
+                    self.___customizations___[e] = list()
+
+                local_dofs = np.array(LDF[e], dtype=int) + start
 
-                    local_dofs = np.array(LDF[e], dtype=int) + start
+                self.___customizations___[e].append(('ilrs', local_dofs))
 
-                    self.___customizations___[e].append(('ilrs', local_dofs))
+            self.___Pr_clear_other_contributions___(GM, i, start, LDF)
 
         else:
             raise Exception(f"Cannot identify global rows through"
                             f" interpret interpreted"
                             f" as <{AS}>.")
 
+    def ___Pr_clear_other_contributions___(self, GM, i, start, LDF):
+        """The local rows which are not in `LDF` but contribute to same global rows must be cleared."""
+        others = GM.do.find.other_local_dofs_numbered_as(i, LDF)
+
+        for e in others:
+            if e not in self.___customizations___:
+                self.___customizations___[e] = list()
+            self.___customizations___[e].append(('clrs', np.array(others[e], dtype=int) + start))
+
     def off_diagonally_identify_rows_according_to(
         self, i, j, row_itp, col_itp, AS='local'
     ):
@@ -398,37 +406,35 @@ class SpaMat_Customize(FrozenOnly):
             LDF_col = col_itp.local.dofs
             assert len(LDF_col) == len(LDF_row), f"row_dofs and col_dofs dis-match in elements."
 
-            if len(LDF_row) == 0:
-                pass
+            GM = self._spa_mat_.gathering_matrices
+            if GM[0].___Pr_IS_regular___:
+                LDR_row = GM[0].___Pr_regular__local_dofs_ranges___[i]
+                start_row = LDR_row.start
+            else:
+                raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
 
+            if GM[1].___Pr_IS_regular___:
+                LDR_col = GM[1].___Pr_regular__local_dofs_ranges___[j]
+                start_col = LDR_col.start
             else:
-                GM = self._spa_mat_.gathering_matrices
-                if GM[0].___Pr_IS_regular___:
-                    LDR_row = GM[0].___Pr_regular__local_dofs_ranges___[i]
-                    start_row = LDR_row.start
-                else:
-                    raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
+                raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
 
-                if GM[1].___Pr_IS_regular___:
-                    LDR_col = GM[1].___Pr_regular__local_dofs_ranges___[j]
-                    start_col = LDR_col.start
-                else:
-                    raise NotImplementedError(f"Not implemented for irregular Gathering Matrix.")
+            for e in LDF_row:  # go through all locally involved mesh element numbers
+                assert e in self._spa_mat_ and e in LDF_col
 
-                for e in LDF_row:  # go through all locally involved mesh element numbers
-                    assert e in self._spa_mat_ and e in LDF_col
+                if e not in self.___customizations___:
+                    self.___customizations___[e] = list()
 
-                    if e not in self.___customizations___:
-                        self.___customizations___[e] = list()
+                ROW = LDF_row[e]
+                COL = LDF_col[e]
 
-                    ROW = LDF_row[e]
-                    COL = LDF_col[e]
+                row_local_dofs = np.array(ROW, dtype=int) + start_row
+                col_local_dofs = np.array(COL, dtype=int) + start_col
 
-                    row_local_dofs = np.array(ROW, dtype=int) + start_row
-                    col_local_dofs = np.array(COL, dtype=int) + start_col
+                self.___customizations___[e].append(
+                    ('ilrsac', (row_local_dofs, col_local_dofs)))
 
-                    self.___customizations___[e].append(
-                        ('ilrsac', (row_local_dofs, col_local_dofs)))
+            self.___Pr_clear_other_contributions___(GM[0], i, start_row, LDF_row)
 
         else:
             raise Exception(f"Cannot off-diagonally identify global rows through "
diff --git a/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py b/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py
index c815f6d..1647905 100644
--- a/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py
+++ b/tools/elementwiseCache/gathering/regular/chain_matrix/do/find.py
@@ -4,6 +4,7 @@ from components.freeze.main import FrozenOnly
 from functools import lru_cache
 from components.decorators.all import accepts
 import numpy as np
+from root.config.main import COMM
 
 
 class ___Chain_Gathering_Matrix_FIND___(FrozenOnly):
@@ -203,3 +204,29 @@ class ___Chain_Gathering_Matrix_FIND___(FrozenOnly):
                     local_indices[i].append(np.argwhere(gv == i).ravel()[0])
 
         return mesh_elements, local_indices
+
+    def other_local_dofs_numbered_as(self, i, local_dofs):
+        """Consider some local dofs of GMs[i]. We find all other local dofs of GMs[i] which share a global numbering
+        with any of them, for example in mesh-elements touching a boundary only by a corner.
+
+        It must be called in all cores.
+
+        :param i: We look at GMs[i].
+        :param dict local_dofs: Keys are mesh-elements, values are local dofs (of GMs[i]).
+        :return: A dict whose keys are mesh-elements and values are the other local dofs (of GMs[i]).
+        """
+        GM = self._CGM_.GMs[i]
+
+        numbers = set()
+        for e in local_dofs:
+            numbers.update(int(_) for _ in GM[e].full_vector[np.array(local_dofs[e], dtype=int)])
+        numbers = set().union(*COMM.allgather(numbers))
+
+        others = dict()
+        for e in GM:
+            known = set(local_dofs[e]) if e in local_dofs else set()
+            dofs = [k for k, n in enumerate(GM[e].full_vector) if n in numbers and k not in known]
+            if len(dofs) > 0:
+                others[e] = dofs
+
+        return others
-- 
2.43.0


From 3de62f8509ca814223d615cc8bd6f8aedec187ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 39/72] fix: the dofs of a BC do not come from the cache of a
 BC that is gone

---
 objects/CSCG/base/forms/base/BC/interpret/local.py    | 6 +++---
 objects/miUsGrid/base/form/base/BC/interpret/local.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objects/CSCG/base/forms/base/BC/interpret/local.py b/objects/CSCG/base/forms/base/BC/interpret/local.py
index dbcd414..3113fca 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/local.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/local.py
@@ -8,7 +8,7 @@ from components.freeze.base import FrozenOnly
 
 # look, we only cache the dofs, not the cochains.
 ___CSCG_global_BC_itp_Local_dofs_cache___ = {
-    'iEP_ID': -1,
+    'iEP': None,  # we keep the list itself; its id could be reused once it is gone.
     'dofs': dict(),
 }
 
@@ -33,7 +33,7 @@ class CSCG_FORM_BC_Interpret_Local(FrozenOnly):
         """Need no `BC.CF`"""
         iEP = self._f_.BC._involved_element_parts_
 
-        if id(iEP) == ___CSCG_global_BC_itp_Local_dofs_cache___['iEP_ID']:
+        if iEP is ___CSCG_global_BC_itp_Local_dofs_cache___['iEP']:
             self._dofs_ = ___CSCG_global_BC_itp_Local_dofs_cache___['dofs']
 
         else:
@@ -53,7 +53,7 @@ class CSCG_FORM_BC_Interpret_Local(FrozenOnly):
                     self._dofs_[element] = list()
                 self._dofs_[element].extend(dofs)
 
-            ___CSCG_global_BC_itp_Local_dofs_cache___['iEP_ID'] = id(iEP)
+            ___CSCG_global_BC_itp_Local_dofs_cache___['iEP'] = iEP
             ___CSCG_global_BC_itp_Local_dofs_cache___['dofs'] = self._dofs_
 
     def ___Pr_parse_cochains___(self):
diff --git a/objects/miUsGrid/base/form/base/BC/interpret/local.py b/objects/miUsGrid/base/form/base/BC/interpret/local.py
index ed2694a..235ef0d 100644
--- a/objects/miUsGrid/base/form/base/BC/interpret/local.py
+++ b/objects/miUsGrid/base/form/base/BC/interpret/local.py
@@ -11,7 +11,7 @@ from components.freeze.base import FrozenOnly
 
 # look, we only cache the dofs, not the cochains.
 ___miUSGrid_global_BC_itp_Local_dofs_cache___ = {
-    'iEE_ID': -1,
+    'iEE': None,  # we keep the list itself; its id could be reused once it is gone.
     'dofs': dict(),
 }
 
@@ -36,7 +36,7 @@ class miUsGrid_Form_BC_Interpret_Local(FrozenOnly):
         """Need no `BC.CF`"""
         iEE = self._f_.BC._involved_element_parts_
 
-        if id(iEE) == ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE_ID']:
+        if iEE is ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE']:
             self._dofs_ = ___miUSGrid_global_BC_itp_Local_dofs_cache___['dofs']
 
         else:
@@ -55,7 +55,7 @@ class miUsGrid_Form_BC_Interpret_Local(FrozenOnly):
                     self._dofs_[element] = list()
                 self._dofs_[element].extend(dofs)
 
-            ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE_ID'] = id(iEE)
+            ___miUSGrid_global_BC_itp_Local_dofs_cache___['iEE'] = iEE
             ___miUSGrid_global_BC_itp_Local_dofs_cache___['dofs'] = self._dofs_
 
     def ___Pr_parse_cochains___(self):
-- 
2.43.0


From ca05ef95b49b7b6d62400fa2d2d47f76245ae8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 40/72] fix: boundary vectors follow the boundaries when the
 same list object is set again

---
 .../base/BC/interpret/helpers/boundary_cochain.py    | 12 ++++++------
 .../BC/interpret/helpers/boundary_integration.py     |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
index 7e35218..4b6ddcf 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_cochain.py
@@ -19,9 +19,9 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
         self._elements_ = f.mesh.elements
         self.___empty___ = csc_matrix((f.num.basis, 1))
         self.___boundary_cochain_cache___ = None
-        self._representing_CF_ = -1  # will store id, so use int
+        self._representing_CF_ = None
         self._representing_ct_ = None
-        self._representing_boundaries_ = -1  # will store id, so use int
+        self._representing_boundaries_ = None
         self._freeze_self_()
 
     def ___Pr_make_mesh_element_wise_boundary_local_dofs___(self):
@@ -61,11 +61,11 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
             raise NotImplementedError(f"indicator={indicator} is not implemented.")
 
         # we update representing information below.
-        self._representing_CF_ = id(self._f_.BC.CF)
+        self._representing_CF_ = self._f_.BC.CF
         # we use `CF.current_time` here as if we reach here but do not see current time, it should raise error.
         self._representing_ct_ = self._f_.BC.CF.current_time
         # we update representing boundaries as well
-        self._representing_boundaries_ = id(self._f_.BC.boundaries)
+        self._representing_boundaries_ = tuple(self._f_.BC.boundaries)
 
     @property
     def ___Pr_BcCo___(self):
@@ -73,9 +73,9 @@ class CSCG_FORM_BC_Interpret_BoundaryCochain(FrozenOnly):
             self.___Pr_make_mesh_element_wise_boundary_local_dofs___()
         else:
             # the following check is OK, since when CF is None, we will never call `___Pr_BcCo___`.
-            if self._representing_CF_ == id(self._f_.BC.CF) and \
+            if self._representing_CF_ is self._f_.BC.CF and \
                     self._representing_ct_ == self._f_.BC.CF.current_time and \
-                    self._representing_boundaries_ == id(self._f_.BC.boundaries):
+                    self._representing_boundaries_ == tuple(self._f_.BC.boundaries):
                 # we use `CF.current_time` here as if we reach here but do not see current time, it should raise error.
                 pass  # as nothing has changed, so we use the cached instance.
             else:
diff --git a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
index 054e8ea..77a3a15 100644
--- a/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
+++ b/objects/CSCG/base/forms/base/BC/interpret/helpers/boundary_integration.py
@@ -54,7 +54,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
         self.basis = self._f_.do.evaluate_basis_at_meshgrid(
             *self.quad_nodes, compute_xietasigma=False
         )[1]
-        self._representing_boundaries_ = -1
+        self._representing_boundaries_ = None
         self._rm_ = self.___Pr_renew_RM___()
         if '3dCSCG_local_trace_form' in self._f_.standard_properties.tags:
             self._assembler_ = VectorAssembler(self._f_.numbering.local_gathering)
@@ -64,7 +64,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
 
     def ___Pr_renew_RM___(self):
         """"""
-        if self._representing_boundaries_ == id(self._f_.BC.boundaries):
+        if self._representing_boundaries_ == tuple(self._f_.BC.boundaries):
             return self._rm_   # no need to renew the reconstruction matrices
 
         else:   # renew rm
@@ -73,7 +73,7 @@ class CSCG_FORM_BC_Interpret_BoundaryIntegration(FrozenOnly):
                 *self.quad_nodes, element_range=self._f_.BC._involved_element_parts_
             )
 
-            self._representing_boundaries_ = id(self._f_.BC.boundaries)
+            self._representing_boundaries_ = tuple(self._f_.BC.boundaries)
             self._rm_ = rm
             return rm
 
-- 
2.43.0


From 0f7920d58d4c7d54a1f8db590ca64d5db0fa64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 41/72] fix: boundary-wise boundary conditions of local trace
 0-forms can be discretized

---
 objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py b/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
index 27d11d8..a228e76 100644
--- a/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
+++ b/objects/CSCG/_3d/forms/localTrace/_0ltf/discretize/main.py
@@ -44,7 +44,7 @@ class _3dCSCG_0LocalTrace_Discretize(FrozenOnly):
                     return self._standard_(update_cochain=update_cochain, target='func')
 
                 elif SELF.CF.ftype == 'boundary-wise':
-                    return self._boundary_wise_(target='func')
+                    return self._boundary_wise_(update_cochain=update_cochain, target='func')
 
                 else:
                     raise NotImplementedError(f"3dCSCG 0-ltf cannot (target func) discretize "
@@ -64,7 +64,7 @@ class _3dCSCG_0LocalTrace_Discretize(FrozenOnly):
 
                 elif SELF.BC.CF.ftype == "boundary-wise":
                     # we will always not update cochain & and always set target to be "BC"
-                    return self._boundary_wise_(target='BC')
+                    return self._boundary_wise_(update_cochain=False, target='BC')
 
                 elif SELF.BC.CF.ftype == "trace-element-wise":
                     return self._trace_element_wise_(update_cochain=False, target='BC')
-- 
2.43.0


From 2678cff4886d221754c4541aa002cd72f809f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 42/72] fix: standard forms provide their trace matrices

---
 objects/CSCG/_3d/forms/standard/base/matrices/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/matrices/main.py b/objects/CSCG/_3d/forms/standard/base/matrices/main.py
index 8798d8e..8f109a0 100644
--- a/objects/CSCG/_3d/forms/standard/base/matrices/main.py
+++ b/objects/CSCG/_3d/forms/standard/base/matrices/main.py
@@ -49,7 +49,7 @@ class _3dCSCG_Standard_Form_Matrices(FrozenOnly):
         if self._T_ is None:
             k = self._sf_.k
             formName = f'_3dCSCG_{int(k)}Trace'
-            T = getattr(self._sf_.space.trace_matrix, formName)[0]
+            T = getattr(self._sf_.space.trace_matrix, formName)[0][True]
             self._T_ = \
                 EWC_SparseMatrix(self._sf_.mesh.elements, T, 'constant')
         return self._T_
-- 
2.43.0


From 63d92c01036e9e4b409bfed3c13f537e6c926ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 43/72] fix: BC interpretations of dual forms follow the field
 and its time

---
 objects/CSCG/base/ADF/base/BC/interpret/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objects/CSCG/base/ADF/base/BC/interpret/main.py b/objects/CSCG/base/ADF/base/BC/interpret/main.py
index 8059b0a..26871f1 100644
--- a/objects/CSCG/base/ADF/base/BC/interpret/main.py
+++ b/objects/CSCG/base/ADF/base/BC/interpret/main.py
@@ -16,6 +16,7 @@ class CSCG_AFORM_BC_Interpret(FrozenOnly):
         self._adf_ = adf
         self._mesh_ = adf.mesh
         self._local_ = None
+        self._representing_ = None
         self._freeze_self_()
 
     def RESET_cache(self):
@@ -24,6 +25,9 @@ class CSCG_AFORM_BC_Interpret(FrozenOnly):
     @property
     def local(self):
         """We interpret the BC in local elements."""
-        if self._local_ is None:
+        cf = self._adf_.BC.CF
+        representing = (cf, None if cf is None else cf._current_time_)
+        if self._local_ is None or self._representing_ != representing:
             self._local_ = CSCG_AFORM_BC_Interpret_Local(self._adf_)
+            self._representing_ = representing
         return self._local_
-- 
2.43.0


From c29acb38f7c8c30ced29fe3c80376baa434c9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 44/72] fix: 2D outer traces have the sign of the outward
 normal on every edge

---
 objects/CSCG/_2d/spaces/base/trace_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/spaces/base/trace_matrix.py b/objects/CSCG/_2d/spaces/base/trace_matrix.py
index ff36335..8e61fe4 100644
--- a/objects/CSCG/_2d/spaces/base/trace_matrix.py
+++ b/objects/CSCG/_2d/spaces/base/trace_matrix.py
@@ -100,8 +100,8 @@ class TraceMatrix(FrozenOnly):
         )
         sln = self.___generate_gathering_hybrid_element___(self._FS_.num_basis._2dCSCG_1Trace_Outer[2])
         oln_NS, oln_WE = self._FS_.local_numbering._2dCSCG_1Form_Outer
-        PU[oln_NS[0, :].ravel('F'), sln['U']] = +1  # Upper
-        PU[oln_NS[-1, :].ravel('F'), sln['D']] = -1  # Down
+        PU[oln_NS[0, :].ravel('F'), sln['U']] = -1  # Upper
+        PU[oln_NS[-1, :].ravel('F'), sln['D']] = +1  # Down
         PU[oln_WE[:, 0].ravel('F'), sln['L']] = -1  # Left
         PU[oln_WE[:, -1].ravel('F'), sln['R']] = +1  # Right
 
-- 
2.43.0


From dc8d47b107016f074c0457535848308b9ee50b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 45/72] fix: the inverse Jacobian of a trace element is the
 left inverse of its Jacobian

---
 .../element/coordinate_transformation/main.py | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
index b771381..2c91a1a 100644
--- a/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
+++ b/objects/CSCG/_3d/mesh/trace/elements/element/coordinate_transformation/main.py
@@ -115,23 +115,17 @@ class _3dCSCG_Trace_Element_CoordinateTransformation(FrozenOnly):
 
     def inverse_Jacobian_matrix(self, *evaluation_points):
         """
-        The local inverse_Jacobian matrix.
+        The local inverse_Jacobian matrix: the left inverse of the local Jacobian matrix whose rows are tangential to
+        the trace element.
 
         :param evaluation_points : A tuple or list of shape (ndim-1, ...).
         """
-        i = self._te_.CHARACTERISTIC_element
-        element_side = self._te_.CHARACTERISTIC_side
-        ep = self._te_._elements_.___generate_full_ep___(evaluation_points, element_side)
-        iJ = self._te_._mesh_.elements[i].coordinate_transformation.inverse_Jacobian_matrix(*ep)
-        if element_side in 'NS':
-            return ((iJ[1][0], iJ[1][1], iJ[1][2]),
-                    (iJ[2][0], iJ[2][1], iJ[2][2]))
-        elif element_side in 'WE': # this is very important, do not used [0], [2] for the indices.. But when we feed x, y, z, always use x, y, z.
-            return ((iJ[2][0], iJ[2][1], iJ[2][2]),
-                    (iJ[0][0], iJ[0][1], iJ[0][2]))
-        else:
-            return ((iJ[0][0], iJ[0][1], iJ[0][2]),
-                    (iJ[1][0], iJ[1][1], iJ[1][2]))
+        J = self.Jacobian_matrix(*evaluation_points)
+        G = self.metric_matrix(*evaluation_points)
+        # noinspection PyUnresolvedReferences
+        g = G[0][0]*G[1][1] - G[0][1]*G[1][0]
+        return (tuple((G[1][1]*J[k][0] - G[0][1]*J[k][1]) / g for k in range(3)),
+                tuple((G[0][0]*J[k][1] - G[0][1]*J[k][0]) / g for k in range(3)))
 
     def metric_matrix(self, *evaluation_points):
         """Compute the metric matrix G whose entries are g_{i,j}."""
-- 
2.43.0


From d3c5f24e3dee170766aa1f9aa612b31ee7f9a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 46/72] fix: p-refining a local trace form keeps its hybridity

---
 objects/CSCG/_3d/forms/localTrace/base/do.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objects/CSCG/_3d/forms/localTrace/base/do.py b/objects/CSCG/_3d/forms/localTrace/base/do.py
index be09c64..a4a012e 100644
--- a/objects/CSCG/_3d/forms/localTrace/base/do.py
+++ b/objects/CSCG/_3d/forms/localTrace/base/do.py
@@ -41,6 +41,7 @@ class _3dCSCG_LocalTrace_Do(FrozenOnly):
 
         return self._ltf_.__class__(
             self._ltf_.mesh, new_space,
+            hybrid=self._ltf_.whether.hybrid,
             orientation=self._ltf_._orientation_,
             numbering_parameters=numbering_parameters,
             name='p-refined-' + self._ltf_._orientation_ + '-0-ltf'
-- 
2.43.0


From 863ed122c1181b57fd4524b9b99272a70a44ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 47/72] fix: nonlinear systems accept tuples of blocks and zero
 blocks of the right-hand side

---
 tools/miLinearAlgebra/nonlinearSystem/main.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/miLinearAlgebra/nonlinearSystem/main.py b/tools/miLinearAlgebra/nonlinearSystem/main.py
index e43f81a..272ec66 100644
--- a/tools/miLinearAlgebra/nonlinearSystem/main.py
+++ b/tools/miLinearAlgebra/nonlinearSystem/main.py
@@ -93,15 +93,16 @@ class NonLinearSystem(FrozenOnly):
 
         """
         assert isinstance(A, (list, tuple)), f"Please put linear blocks in a list or a tuple."
+        A = list(A)
 
         # ---------- parse blocks ------------------------------------------------------
         shape0 = len(A)
         shape1 = None
         for i, Ai_ in enumerate(A):
 
-            if isinstance(Ai_, tuple):
-                Ai_ = list(Ai_)
-                A[i] = Ai_
+            assert isinstance(Ai_, (list, tuple)), f"Please put linear blocks in a list or a tuple."
+            Ai_ = list(Ai_)
+            A[i] = Ai_
 
             if shape1 is None:
                 shape1 = len(Ai_)
@@ -195,8 +196,8 @@ class NonLinearSystem(FrozenOnly):
 
         """
         assert isinstance(b, (list, tuple)), f"pls put right-hand-side vector in a list."
-        if isinstance(b, tuple):
-            b = list(b)
+        # an empty block of the right-hand-side vector is represented by None.
+        b = [None if bi is None or bi == 0 else bi for bi in b]
         # ----------- save b -------------------------------------------------------------
         self._b_ = b
 
-- 
2.43.0


From 591b62f1b8f398e98484010d59895b0fbb18ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 48/72] fix: Newton-Raphson starts from the imposed values and
 leaves the initial guess alone

---
 .../solve/NewtonRaphson/regular.py             | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py b/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py
index 3a1b580..77958b0 100644
--- a/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py
+++ b/tools/miLinearAlgebra/nonlinearSystem/solve/NewtonRaphson/regular.py
@@ -5,6 +5,7 @@
 @time: 2022/8/4 21:19
 """
 from components.freeze.main import FrozenOnly
+from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
 from tools.miLinearAlgebra.solvers.regular.allocator import RegularSolverDistributor
 from tools.miLinearAlgebra.nonlinearSystem.solve.NewtonRaphson.helpers.stop_criterion import nLS_stop_criterion
 
@@ -102,6 +103,13 @@ class nLS_Solve_NR_regular(FrozenOnly):
         # ----- initialize the variables ------------------------------------------------------------1
 
         xi = x0
+        for method_name, method_para in self._nLS_.customize.customizations:
+            if method_name == "set_ith_value_of_initial_guess":
+                # the system must be evaluated at the fixed value; the x0 of the user is not touched.
+                if xi is x0:
+                    xi = LocallyFullVector(x0.V.copy())
+                i, v = method_para
+                xi._V_[i] = v
         ITER = 0
         message = ''
         BETA = list()
@@ -208,14 +216,8 @@ class nLS_Solve_NR_regular(FrozenOnly):
 
                 # ------------------------------------------------------------3
                 elif method_name == "set_ith_value_of_initial_guess":
-                    # we make the initial value of dof #i to be v
-
-                    if ITER == 1:  # only need to do it for the initial guess
-                        i, v = method_para
-                        xi._V_[i] = v
-
-                    else:
-                        pass
+                    # the initial value of dof #i has been set before the first iteration.
+                    pass
 
                 # ------------------------------------------------------------3
                 elif method_name == "set_no_evaluations":
-- 
2.43.0


From 822a12bc3e760ae2c11e7c65e597e311e5d301ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 49/72] fix: compute_L2_energy_with applies the mass matrix the
 right way round

---
 objects/CSCG/_3d/forms/standard/base/do.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/do.py b/objects/CSCG/_3d/forms/standard/base/do.py
index d0a788b..bf5fc51 100644
--- a/objects/CSCG/_3d/forms/standard/base/do.py
+++ b/objects/CSCG/_3d/forms/standard/base/do.py
@@ -35,13 +35,13 @@ class _3dCSCG_Standard_Form_DO(FrozenOnly):
             repM = M[i].toarray() # representative Mass matrix
             LOCAL = np.einsum('ij, ki, kj -> ',
                               repM,
-                              self._sf_.cochain.array,
                               other.cochain.array,
+                              self._sf_.cochain.array,
                               optimize='greedy')
         else:
             LOCAL = list()
             for i in self._sf_.mesh.elements:
-                LOCAL.append(self._sf_.cochain.local[i] @ M[i] @ other.cochain.local[i])
+                LOCAL.append(other.cochain.local[i] @ M[i] @ self._sf_.cochain.local[i])
             LOCAL = np.sum(LOCAL)
 
         return COMM.allreduce(LOCAL, op=MPI.SUM)
-- 
2.43.0


From b2f580bd8268bffea33344c4151b56f6063f0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 50/72] fix: error.L of a 2-trace form works

---
 objects/CSCG/_3d/forms/trace/base/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/trace/base/error.py b/objects/CSCG/_3d/forms/trace/base/error.py
index dc4f0d3..72472b2 100644
--- a/objects/CSCG/_3d/forms/trace/base/error.py
+++ b/objects/CSCG/_3d/forms/trace/base/error.py
@@ -32,7 +32,7 @@ class _3dCSCG_Trace_Error(FrozenOnly):
         quad_degree = [self._tf_.dqp[i] + 2 for i in range(3)] \
             if quad_degree is None else quad_degree
 
-        OneOrTwo = 1 if self._tf_.k == 0 else 2
+        OneOrTwo = 2 if self._tf_.k == 1 else 1
 
         if n == 'infinity':
             if quad_density is not None:
-- 
2.43.0


From 23c435be82ae659a6c8cf4c004f7f62185f22a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 51/72] fix: error.L is a norm for odd n, and
 error.L(upon=True) works

---
 objects/CSCG/_2d/forms/standard/base/error.py        | 12 +++++++-----
 objects/CSCG/_3d/forms/standard/base/error.py        | 12 +++++++-----
 .../miUsGrid/triangular/forms/standard/base/error.py |  7 ++++---
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/error.py b/objects/CSCG/_2d/forms/standard/base/error.py
index 791896d..ecca6ff 100644
--- a/objects/CSCG/_2d/forms/standard/base/error.py
+++ b/objects/CSCG/_2d/forms/standard/base/error.py
@@ -60,7 +60,8 @@ class _2dCSCG_Standard_Form_Error(FrozenOnly):
                 base_xyz = bi  # find the base_xyz
                 # noinspection PyUnboundLocalVariable
                 base_val = base_val[i]
-                func_val = [self._sf_.func.body[m](*base_xyz) for m in range(OneOrThree)]
+                func = self._sf_.CF.do.evaluate_func_at_time()
+                func_val = [func[m](*base_xyz) for m in range(OneOrThree)]
                 assert len(base_val) == len(func_val)
                 add_to = [func_val[m] - base_val[m] for m in range(OneOrThree)]
                 # this add_to will be added to all reconstructed value.
@@ -83,10 +84,11 @@ class _2dCSCG_Standard_Form_Error(FrozenOnly):
         for i in self._sf_.mesh.elements.indices:
             element = self._sf_.mesh.elements[i]
             detJ = element.coordinate_transformation.Jacobian(xi, eta)
-            LEIntermediate = np.sum(
-                [(v[i][m] - self._sf_.CF.do.evaluate_func_at_time()[m](*xyz[i]))**n
-                    for m in range(OneOrThree)], axis=0
-            )
+            diff = [v[i][m] - self._sf_.CF.do.evaluate_func_at_time()[m](*xyz[i])
+                    for m in range(OneOrThree)]
+            if n % 2 == 1:  # errors of opposite signs must not cancel each other.
+                diff = [np.abs(_) for _ in diff]
+            LEIntermediate = np.sum([_**n for _ in diff], axis=0)
             localError.append(np.sum(LEIntermediate * detJ * quad_weights))
 
         core_local = np.sum(localError)
diff --git a/objects/CSCG/_3d/forms/standard/base/error.py b/objects/CSCG/_3d/forms/standard/base/error.py
index 3755b43..8f73f23 100644
--- a/objects/CSCG/_3d/forms/standard/base/error.py
+++ b/objects/CSCG/_3d/forms/standard/base/error.py
@@ -101,7 +101,8 @@ class _3dCSCG_Standard_Form_Error(FrozenOnly):
                 base_xyz = bi # find the base_xyz
                 # noinspection PyUnboundLocalVariable
                 base_val = base_val[i]
-                func_val = [self._sf_.func.body[m](*base_xyz) for m in range(OneOrThree)]
+                func = self._sf_.CF.___DO_evaluate_func_at_time___()
+                func_val = [func[m](*base_xyz) for m in range(OneOrThree)]
                 assert len(base_val) == len(func_val)
                 add_to = [func_val[m] - base_val[m] for m in range(OneOrThree)]
                 # this add_to will be added to all reconstructed value.
@@ -149,10 +150,11 @@ class _3dCSCG_Standard_Form_Error(FrozenOnly):
             for i in self._sf_.mesh.elements.indices:
                 element = self._sf_.mesh.elements[i]
                 detJ = element.coordinate_transformation.Jacobian(xi, eta, sigma)
-                LEIntermediate = np.sum(
-                    [(v[i][m] - self._sf_.CF.___DO_evaluate_func_at_time___()[m](*xyz[i]))**n
-                     for m in range(OneOrThree)], axis=0
-                )
+                diff = [v[i][m] - self._sf_.CF.___DO_evaluate_func_at_time___()[m](*xyz[i])
+                        for m in range(OneOrThree)]
+                if n % 2 == 1:  # errors of opposite signs must not cancel each other.
+                    diff = [np.abs(_) for _ in diff]
+                LEIntermediate = np.sum([_**n for _ in diff], axis=0)
                 # noinspection PyUnboundLocalVariable
                 localError.append(np.sum(LEIntermediate * detJ * quad_weights))
 
diff --git a/objects/miUsGrid/triangular/forms/standard/base/error.py b/objects/miUsGrid/triangular/forms/standard/base/error.py
index d61fc42..e0e053c 100644
--- a/objects/miUsGrid/triangular/forms/standard/base/error.py
+++ b/objects/miUsGrid/triangular/forms/standard/base/error.py
@@ -47,9 +47,10 @@ class miUs_Triangular_SF_Error(FrozenOnly):
         for i in self._sf_.mesh.elements.indices:
             element = self._sf_.mesh.elements[i]
             detJ = element.coordinate_transformation.Jacobian(xi, eta)
-            LEIntermediate = np.sum(
-                [(v[i][m] - FUNC[m](*xyz[i]))**n for m in range(OneOrTwo)], axis=0
-            )
+            diff = [v[i][m] - FUNC[m](*xyz[i]) for m in range(OneOrTwo)]
+            if n % 2 == 1:  # errors of opposite signs must not cancel each other.
+                diff = [np.abs(_) for _ in diff]
+            LEIntermediate = np.sum([_**n for _ in diff], axis=0)
 
             localError.append(np.sum(LEIntermediate * detJ * quad_weights))
 
-- 
2.43.0


From 44ebdd93e78b2ea3a2e8ab3180e1bf886d2afa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 52/72] fix: GMRES and LGMRES survive an exhausted Krylov space

---
 .../solvers/regular/GMRES/helpers/mpi_v0.py         | 13 ++++++++++---
 .../solvers/regular/GMRES/helpers/mpi_v1.py         | 13 ++++++++++---
 .../solvers/regular/LGMRES/helpers/mpi_v0.py        | 13 ++++++++++---
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
index d7a0ee1..cc0439f 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v0.py
@@ -90,7 +90,7 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
 
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -140,7 +140,11 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
                 Hm[j + 1, j] = np.sum(hat_v_jp1**2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    if np.sum(hat_v_jp1 ** 2) > 1e-24 * np.sum(AVJ ** 2):
+                        v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    else:  # the Krylov space is exhausted.
+                        Hm[j+1, j] = 0
+                        v_jp1 = np.zeros((shape0,))
                 else:
                     del v_jp1
 
@@ -162,7 +166,10 @@ def ___mpi_v0_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
             HmT = Hm.T
             ls_A = HmT @ Hm
             ls_b = HmT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            # zero columns come from an exhausted Krylov space.
+            used = [j for j in range(restart) if ls_A[j, j] > 0]
+            ym = np.zeros((restart,))
+            ym[used] = np.linalg.solve(ls_A[used][:, used], ls_b[used])
             del HmT, ls_A, ls_b
             x0 += ym.T @ Vm
 
diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
index 3b3c7ce..5e05ae5 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/mpi_v1.py
@@ -105,7 +105,7 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -175,7 +175,11 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    if np.sum(hat_v_jp1 ** 2) > 1e-24 * np.sum(AVJ ** 2):
+                        v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    else:  # the Krylov space is exhausted.
+                        Hm[j+1, j] = 0
+                        v_jp1 = np.zeros((shape0,))
                 else:
                     del v_jp1
 
@@ -199,7 +203,10 @@ def ___mpi_v1_gmres___(lhs, rhs, X0, restart=100, maxiter=20, tol=1e-3, atol=1e-
             HMT = HM.T
             ls_A = HMT @ HM
             ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            # zero columns come from an exhausted Krylov space.
+            used = [j for j in range(restart) if ls_A[j, j] > 0]
+            ym = np.zeros((restart,))
+            ym[used] = np.linalg.solve(ls_A[used][:, used], ls_b[used])
             # del HMT, ls_A, ls_b
             x0 += ym.T @ Vm
 
diff --git a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
index 3631058..a7777cb 100644
--- a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/mpi_v0.py
@@ -122,7 +122,7 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
         COMM.Reduce(v0, VV, op=MPI.SUM, root=MASTER_RANK)
         if RANK == MASTER_RANK:
             beta = np.sum(VV ** 2) ** 0.5
-            v0 = VV / beta
+            v0 = VV / beta if beta > 0 else VV
         else:
             beta = None
 
@@ -210,7 +210,11 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
                 Hm[j + 1, j] = np.sum(hat_v_jp1 ** 2) ** 0.5
 
                 if j < restart - 1:
-                    v_jp1 = hat_v_jp1 / Hm[j + 1, j]
+                    if np.sum(hat_v_jp1 ** 2) > 1e-24 * np.sum(AVJ ** 2):
+                        v_jp1 = hat_v_jp1 / Hm[j+1, j]
+                    else:  # the Krylov space is exhausted.
+                        Hm[j+1, j] = 0
+                        v_jp1 = np.zeros((shape0,))
                 else:
                     del v_jp1
 
@@ -234,7 +238,10 @@ def ___mpi_v0_LGMRES___(lhs, rhs, X0, m=100, k=10, maxiter=50, tol=1e-5, atol=1e
             HMT = HM.T
             ls_A = HMT @ HM
             ls_b = HMT[:, 0] * beta
-            ym = np.linalg.solve(ls_A, ls_b)
+            # zero columns come from an exhausted Krylov space.
+            used = [j for j in range(restart) if ls_A[j, j] > 0]
+            ym = np.zeros((restart,))
+            ym[used] = np.linalg.solve(ls_A[used][:, used], ls_b[used])
         else:
             pass
 
-- 
2.43.0


From bfa07dd3653eaac901d803a987ff159872676f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 53/72] fix: BiCGSTAB keeps its shadow residual and stops at a
 zero update

---
 .../solvers/regular/BiCGSTAB/helpers/mpi_v0.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py b/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
index 1e4332d..51eceba 100644
--- a/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
+++ b/tools/miLinearAlgebra/solvers/regular/BiCGSTAB/helpers/mpi_v0.py
@@ -91,7 +91,7 @@ def ___mpi_v0_BiCGSTAB___(lhs, rhs, X0, maxiter=3, tol=1e-3, atol=1e-4, precondi
         COMM.Reduce(_r0_acd_, r0, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            if ITER == 0: hr0 = r0
+            if ITER == 0: hr0 = r0.copy()  # `r0` is the buffer of the next residual.
             beta = np.sum(r0 ** 2) ** 0.5
         else:
             beta = 0
@@ -136,7 +136,8 @@ def ___mpi_v0_BiCGSTAB___(lhs, rhs, X0, maxiter=3, tol=1e-3, atol=1e-4, precondi
         COMM.Reduce(_t_acd_, t, op=MPI.SUM, root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            omega1 = np.sum(t * s) / np.sum(t ** 2)
+            tt = np.sum(t ** 2)
+            omega1 = np.sum(t * s) / tt if tt > 0 else 0  # tt = 0: `s = 0`, already solved.
             x0 += alpha * p1 + omega1 * s
 
 
-- 
2.43.0


From 38a13c61779dcf223ce99713a3b2085e702308bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:04 +0000
Subject: [PATCH 54/72] fix: stagnation of an iterative solver is not reported
 as convergence

---
 .../regular/GMRES/helpers/components/stop_criterion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
index 128ec0f..b62ae1f 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/components/stop_criterion.py
@@ -52,10 +52,10 @@ def ___gmres_stop_criterion___(tol, atol, ITER, maxiter, BETA):
         else:
             judge_3 = False
 
-        # judge 4: reach relative tol.
+        # judge 4: (almost) no progress since the start; this is not convergence.
         if beta < beta0:
             progress = beta0 - beta
-            if progress / beta0 < tol:  # reach relative tol.
+            if progress / beta0 < tol:
                 judge_4 = True
             else:
                 judge_4 = False
@@ -125,10 +125,10 @@ def ___gmres_stop_criterion___(tol, atol, ITER, maxiter, BETA):
             JUDGE = 3
             JUDGE_explanation = 'diverging'
 
-        elif judge_4:  # reach tol
-            info = 0
+        elif judge_4:  # the progress since the start is lower than the tol
+            info = ITER
             JUDGE = 4
-            JUDGE_explanation = 'reach relative tol'
+            JUDGE_explanation = 'no progress'
 
         elif judge_5:  # very slow converging; the progress is lower than the tol
             info = ITER
-- 
2.43.0


From 80a3ef243cd079382792dfda58248293705258d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 55/72] fix: the scipy solvers report the norm of the residual

---
 .../regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py | 7 ++++---
 .../regular/GMRES/helpers/scipy_sparse_linalg_gmres.py     | 7 ++++---
 .../regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py   | 7 ++++---
 .../regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py b/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py
index e283229..2e570e6 100644
--- a/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py
+++ b/tools/miLinearAlgebra/solvers/regular/GCROTmk/helpers/scipy_sparse_linalg_gcrotmk.py
@@ -90,9 +90,10 @@ def ___sp_sp_linalg_gcrotmk___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -102,10 +103,10 @@ def ___sp_sp_linalg_gcrotmk___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast((info, beta), root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_tfqmr ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
diff --git a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py
index 2b77e94..9b4612f 100644
--- a/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py
+++ b/tools/miLinearAlgebra/solvers/regular/GMRES/helpers/scipy_sparse_linalg_gmres.py
@@ -82,9 +82,10 @@ def ___sp_sp_linalg_gmres___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -94,10 +95,10 @@ def ___sp_sp_linalg_gmres___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast((info, beta), root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_gmres ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
diff --git a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py
index 7957b43..5ba33b0 100644
--- a/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py
+++ b/tools/miLinearAlgebra/solvers/regular/LGMRES/helpers/scipy_sparse_linalg_lgmres.py
@@ -88,9 +88,10 @@ def ___sp_sp_linalg_lgmres___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -100,10 +101,10 @@ def ___sp_sp_linalg_lgmres___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast((info, beta), root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_lgmres ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
diff --git a/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py b/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py
index 6ed67db..49e6868 100644
--- a/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py
+++ b/tools/miLinearAlgebra/solvers/regular/TFQMR/helpers/scipy_sparse_linalg_tfqmr.py
@@ -84,9 +84,10 @@ def ___sp_sp_linalg_tfqmr___(
 
         x, info = RES
         assert x.__class__.__name__ == 'ndarray' and x.shape == (num_dofs,)
+        beta = np.sum((b - A @ x) ** 2) ** 0.5
 
     else:
-        info = None
+        info, beta = None, None
 
     COMM.barrier()
     if RANK != MASTER_RANK:
@@ -96,10 +97,10 @@ def ___sp_sp_linalg_tfqmr___(
 
     # noinspection PyUnboundLocalVariable
     COMM.Bcast([x, MPI.FLOAT], root=MASTER_RANK)
-    info = COMM.bcast(info, root=MASTER_RANK)
+    info, beta = COMM.bcast((info, beta), root=MASTER_RANK)
     x = LocallyFullVector(x)
     t3 = time()
     message = f'scipy_sparse_linalg_tfqmr ({name}) = [SYSTEM-SHAPE: {A.shape}] >>> ' \
               f'costs {int((t3-t0)*100)/100}s with convergence info = {info}.'
 
-    return x, info, 0, 0, message
+    return x, info, beta, 0, message
-- 
2.43.0


From 9e656f6bf73cfc14349ba8d52f957dc0569b938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 56/72] fix: edge 1-forms that were saved can be read

---
 root/read/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/root/read/main.py b/root/read/main.py
index 3d46e7c..bc1b225 100644
--- a/root/read/main.py
+++ b/root/read/main.py
@@ -96,7 +96,8 @@ def read(filename, read_individuals=None):
                               '_3dCSCG_2Trace',
                               '_3dCSCG_1Trace',
                               '_3dCSCG_0Trace',
-                              '_3dCSCG_0Edge'):
+                              '_3dCSCG_0Edge',
+                              '_3dCSCG_1Edge'):
                 obj = ___restore__3dCSCG_Form___(obj_para,
                                                  ___CACHE_3dCSCG_mesh___,
                                                  ___CACHE_3dCSCG_space___)
-- 
2.43.0


From 0ff80c1a01c0b1f2b1dd2d0840bb84aec13af090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 57/72] fix: a mesh keeps its own copy of the element layout,
 with arrays as lists

---
 components/as_lists.py     | 14 ++++++++++++++
 objects/CSCG/_2d/master.py |  3 ++-
 objects/CSCG/_3d/master.py |  3 ++-
 3 files changed, 18 insertions(+), 2 deletions(-)
 create mode 100644 components/as_lists.py

diff --git a/components/as_lists.py b/components/as_lists.py
new file mode 100644
index 0000000..9ffe1c2
--- /dev/null
+++ b/components/as_lists.py
@@ -0,0 +1,14 @@
+# -*- coding: utf-8 -*-
+import numpy as np
+
+
+def as_lists(obj):
+    """A copy of nested dicts, lists and tuples in which all numpy arrays are lists: it can be compared
+    with `==`, its string shows every number in full, and it does not follow later changes of `obj`."""
+    if isinstance(obj, np.ndarray):
+        return obj.tolist()
+    if isinstance(obj, dict):
+        return {key: as_lists(obj[key]) for key in obj}
+    if isinstance(obj, (list, tuple)):
+        return obj.__class__(as_lists(_) for _ in obj)
+    return obj
diff --git a/objects/CSCG/_2d/master.py b/objects/CSCG/_2d/master.py
index 6d619fd..a38057e 100644
--- a/objects/CSCG/_2d/master.py
+++ b/objects/CSCG/_2d/master.py
@@ -5,6 +5,7 @@ if './' not in sys.path:
 
 from root.config.main import *
 from importlib import import_module
+from components.as_lists import as_lists
 from components.freeze.main import FrozenOnly
 from objects.CSCG._2d.mesh.domain.inputs.allocator import DomainInputFinder
 from objects.CSCG._2d.mesh.domain.main import _2dCSCG_Domain
@@ -49,7 +50,7 @@ class MeshGenerator(FrozenOnly):
         mp['type'] = '_2dCSCG_Mesh'
         mp['ID'] = self._ID_
         mp['domain_parameters'] = deepcopy(self._kwargs_)
-        mp['element_layout'] = element_layout
+        mp['element_layout'] = as_lists(element_layout)  # our own copy
         mp['EDM'] = EDM
         mesh.___define_parameters___ = mp
         dp = dict()
diff --git a/objects/CSCG/_3d/master.py b/objects/CSCG/_3d/master.py
index 83d9fbf..d662729 100644
--- a/objects/CSCG/_3d/master.py
+++ b/objects/CSCG/_3d/master.py
@@ -11,6 +11,7 @@ if './' not in sys.path:
     sys.path.append('./')
 
 from importlib import import_module
+from components.as_lists import as_lists
 from components.freeze.main import FrozenOnly
 from components.miscellaneous.timer import MyTimer
 from objects.CSCG._3d.mesh.domain.inputs.allocator import DomainInputAllocator
@@ -61,7 +62,7 @@ class MeshGenerator(FrozenOnly):
         mp['type'] = '_3dCSCG_Mesh'
         mp['ID'] = self._ID_
         mp['domain_parameters'] = deepcopy(self._kwargs_)
-        mp['element_layout'] = element_layout
+        mp['element_layout'] = as_lists(element_layout)  # our own copy
         mp['EDM'] = EDM
         mesh.___define_parameters___ = mp
 
-- 
2.43.0


From e527ed0c0dffbecdbaa1f0c1f62933b93d50784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 58/72] fix: a solver can shut down an iterator with a reason

---
 tools/iterators/base/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/iterators/base/main.py b/tools/iterators/base/main.py
index 5f85da7..c5720f8 100644
--- a/tools/iterators/base/main.py
+++ b/tools/iterators/base/main.py
@@ -239,6 +239,7 @@ class Iterator(FrozenClass):
 
         if isinstance(shut_down, str):
             self.___shut_down_reason___ = shut_down
+            shut_down = 1
             self._shut_down_ = 1
         else:
             # noinspection PyAttributeOutsideInit
-- 
2.43.0


From 09b8b705837bbd6d723194bfcf7bfbfe997d3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 59/72] fix: round-off in the end time does not change the
 amount of time steps

---
 tools/iterators/simple.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/iterators/simple.py b/tools/iterators/simple.py
index 36d5e5f..337fff9 100644
--- a/tools/iterators/simple.py
+++ b/tools/iterators/simple.py
@@ -50,7 +50,8 @@ class SimpleIterator(Iterator):
                 if max_time is not None:
                     assert isinstance(max_time, (int, float)) and max_time > self.t0, \
                         " <Simple> : max_time={} wrong!".format(max_time)
-                    self._max_steps_ = int(np.ceil((max_time - self.t0) / self.dt))
+                    # round-off in the amount of steps must not cost another step.
+                    self._max_steps_ = max(int(np.ceil((max_time - self.t0) / self.dt - 1e-8)), 1)
                 else:
                     self._max_steps_ = 9999999
                 self._max_time_ = self.t0 + self.dt * self.max_steps
@@ -68,4 +69,4 @@ class SimpleIterator(Iterator):
 
         assert self.dt >= 0, " <Simple> : dt wrong!"
         assert isinstance(self.max_steps, int) and self.max_steps > 0, " <Simple> "
-        assert self.t0 + self.dt * self.max_steps == self.max_time, " <Simple> : max_time wrong!"
+        assert np.isclose(self.t0 + self.dt * self.max_steps, self.max_time, rtol=1e-10, atol=1e-10 * self.dt), " <Simple> : max_time wrong!"
-- 
2.43.0


From 58722e554831342401651d2548f09d95b273a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 60/72] fix: every region is exported with its own coordinates

---
 objects/CSCG/tools/gridToVTK.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/objects/CSCG/tools/gridToVTK.py b/objects/CSCG/tools/gridToVTK.py
index 9b7a409..180e87a 100644
--- a/objects/CSCG/tools/gridToVTK.py
+++ b/objects/CSCG/tools/gridToVTK.py
@@ -86,9 +86,8 @@ def gridToVTK(grid, objs, path):
         var_names.append(name)
 
     COMM.barrier()  # make sure the folder is really for all cores.
-    for i, rn in enumerate(regions):
-        if i == 0:
-            xyz = df0.coordinates[rn]
+    for rn in regions:
+        xyz = df0.coordinates[rn]
 
         VALs = dict()
         for j, df in enumerate(DiscreteFields):
-- 
2.43.0


From 3c6bdc6c1a9069833564d0b873b33ac6f3fbbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 61/72] fix: a single object can be exported to an unstructured
 vtk grid

---
 objects/CSCG/tools/unstructuredGridToVTK.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/objects/CSCG/tools/unstructuredGridToVTK.py b/objects/CSCG/tools/unstructuredGridToVTK.py
index be3dc09..e0b1b5a 100644
--- a/objects/CSCG/tools/unstructuredGridToVTK.py
+++ b/objects/CSCG/tools/unstructuredGridToVTK.py
@@ -75,7 +75,6 @@ def unstructuredGridToVTK(grid, objs, filename):
                     np.testing.assert_array_almost_equal(axis, _xyz[rn][j], decimal=8)
             df._coordinates_ = None  # clean COO as we only need it in df[0]
         DiscreteFields.append(df)
-    del _xyz
 
     ndim = mesh.ndim
     if ndim == 3:
-- 
2.43.0


From 58299f21d514b90dcbfd3acab9f644fd659455c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 62/72] fix: coordinates of discrete fields on a structured
 grid must be ascending everywhere

---
 objects/CSCG/base/discrete_fields/base/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/base/discrete_fields/base/main.py b/objects/CSCG/base/discrete_fields/base/main.py
index e610312..e378d0e 100644
--- a/objects/CSCG/base/discrete_fields/base/main.py
+++ b/objects/CSCG/base/discrete_fields/base/main.py
@@ -101,7 +101,7 @@ class CSCG_DiscreteField(FrozenClass):
                         assert np.ndim(_) == 1 and np.min(_) >= 0 and np.max(_) <= 1, \
                             f"grid[{rn}][{i}] wrong, must be 1d and in [-1,1]."
                         if len(_) > 1:
-                            assert np.all(np.diff(_)) > 0, \
+                            assert np.all(np.diff(_) > 0), \
                                 f"grid[{rn}][{i}] wrong, must be in [-1,1] and increasing."
                         else:
                             pass
@@ -138,7 +138,7 @@ class CSCG_DiscreteField(FrozenClass):
     @property
     def vdim(self):
         """the dimension of the value. Then vdim == 1, it is a scalar; when vdim == ndim, it
-        is a vector; and so on."""
+        is a vector; and so on. It is None when there is no data at all."""
         return self._vdim_
 
     @property
-- 
2.43.0


From ae505866dbc32008ec50ab0734577bef59c8df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 63/72] fix: sampled exports of a subset of the regions

---
 .../CSCG/_3d/forms/standard/base/export/field.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/export/field.py b/objects/CSCG/_3d/forms/standard/base/export/field.py
index c34aa56..55b0403 100644
--- a/objects/CSCG/_3d/forms/standard/base/export/field.py
+++ b/objects/CSCG/_3d/forms/standard/base/export/field.py
@@ -59,14 +59,16 @@ class _3dCSC_SF_Export_Field(FrozenOnly):
 
         # Now, we gather xyz & v from all cores into Master Core, store in XYZ & V --- BELOW ---
         if RANK == MASTER_RANK:
-            X = [None for _ in range(mesh.elements.global_num)]
-            Y = [None for _ in range(mesh.elements.global_num)]
-            Z = [None for _ in range(mesh.elements.global_num)]
-            Vx = [None for _ in range(mesh.elements.global_num)]
+            # elements not in `regions` have no data.
+            shape = [len(_) for _ in rst]
+            X = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            Y = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            Z = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            Vx = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
             if self._sf_.k in (1, 2):
-                Vy = [None for _ in range(mesh.elements.global_num)]
-                Vz = [None for _ in range(mesh.elements.global_num)]
-            for j in mesh.elements.indices:
+                Vy = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+                Vz = [np.zeros(shape) for _ in range(mesh.elements.global_num)]
+            for j in xyz:
                 X[j] = xyz[j][0]
                 Y[j] = xyz[j][1]
                 Z[j] = xyz[j][2]
-- 
2.43.0


From ae9db7acda6d529df3e48c4de5c1927250c4dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 64/72] fix: portions of discrete fields on processes without
 grid points

---
 objects/CSCG/_2d/discreteFields/scalar/main.py | 2 +-
 objects/CSCG/_2d/discreteFields/vector/main.py | 2 +-
 objects/CSCG/_3d/discreteDields/scalar/main.py | 2 +-
 objects/CSCG/_3d/discreteDields/vector/main.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_2d/discreteFields/scalar/main.py b/objects/CSCG/_2d/discreteFields/scalar/main.py
index 8dc5c7d..367fcb6 100644
--- a/objects/CSCG/_2d/discreteFields/scalar/main.py
+++ b/objects/CSCG/_2d/discreteFields/scalar/main.py
@@ -22,7 +22,7 @@ class _2dCSCG_DF_Scalar(_2dCSCG_DiscreteField):
         """"""
         super(_2dCSCG_DF_Scalar, self).__init__(mesh, coordinates, values, name,
                                                 structured=structured, grid=grid)
-        assert self.vdim == 1, f"vdim must be 1, now it is {self.vdim}."
+        assert self.vdim in (None, 1), f"vdim must be 1, now it is {self.vdim}."
         self._visualize_ = _2cCSCG_DS_Visualize(self)
         self._portion_ = _2dCSCG_DF_ScalarPortion(self)
 
diff --git a/objects/CSCG/_2d/discreteFields/vector/main.py b/objects/CSCG/_2d/discreteFields/vector/main.py
index bc6ecb7..b4a5590 100644
--- a/objects/CSCG/_2d/discreteFields/vector/main.py
+++ b/objects/CSCG/_2d/discreteFields/vector/main.py
@@ -22,7 +22,7 @@ class _2dCSCG_DF_Vector(_2dCSCG_DiscreteField):
         """"""
         super(_2dCSCG_DF_Vector, self).__init__(mesh, coordinates, values, name,
                                                 structured=structured, grid=grid)
-        assert self.vdim == self.mesh.ndim, f"vdim must be 2, now it is {self.vdim}."
+        assert self.vdim in (None, self.mesh.ndim), f"vdim must be 2, now it is {self.vdim}."
         self._visualize_ = _2dCSCG_DV_Visualize(self)
         self._portion_ = _2dCSCG_DF_VectorPortion(self)
 
diff --git a/objects/CSCG/_3d/discreteDields/scalar/main.py b/objects/CSCG/_3d/discreteDields/scalar/main.py
index 693acf3..e21ffa0 100644
--- a/objects/CSCG/_3d/discreteDields/scalar/main.py
+++ b/objects/CSCG/_3d/discreteDields/scalar/main.py
@@ -14,4 +14,4 @@ class _3dCSCG_DF_Scalar(_3dCSCG_DiscreteField):
         """"""
         super(_3dCSCG_DF_Scalar, self).__init__(mesh, coordinates, values, name,
                                                 structured=structured, grid=grid)
-        assert self.vdim == 1, f"vdim must be 1, now it is {self.vdim}."
+        assert self.vdim in (None, 1), f"vdim must be 1, now it is {self.vdim}."
diff --git a/objects/CSCG/_3d/discreteDields/vector/main.py b/objects/CSCG/_3d/discreteDields/vector/main.py
index 39b929b..7acc9b9 100644
--- a/objects/CSCG/_3d/discreteDields/vector/main.py
+++ b/objects/CSCG/_3d/discreteDields/vector/main.py
@@ -14,4 +14,4 @@ class _3dCSCG_DF_Vector(_3dCSCG_DiscreteField):
         """"""
         super(_3dCSCG_DF_Vector, self).__init__(mesh, coordinates, values, name,
                                                 structured=structured, grid=grid)
-        assert self.vdim == self.mesh.ndim, f"vdim must be 3, now it is {self.vdim}."
+        assert self.vdim in (None, self.mesh.ndim), f"vdim must be 3, now it is {self.vdim}."
-- 
2.43.0


From 9683a8b03dabe60784bcc4a566a823321d2bcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 65/72] fix: class names and paths of discrete fields were
 swapped

---
 objects/CSCG/_2d/discreteFields/allocator.py | 4 ++--
 objects/CSCG/_3d/discreteDields/allocator.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/objects/CSCG/_2d/discreteFields/allocator.py b/objects/CSCG/_2d/discreteFields/allocator.py
index 590e3b5..d2e242e 100644
--- a/objects/CSCG/_2d/discreteFields/allocator.py
+++ b/objects/CSCG/_2d/discreteFields/allocator.py
@@ -21,8 +21,8 @@ class _2dCSCG_DiscreteFieldsAllocator(FrozenOnly):
 
     def __call__(self, ID, **kwargs):
         """"""
-        cls_name = self.___discrete_field_path___()[ID]
-        cls_path = self.___discrete_field_name___()[ID]
+        cls_name = self.___discrete_field_name___()[ID]
+        cls_path = self.___discrete_field_path___()[ID]
         clas_body = getattr(import_module(cls_path), cls_name)
         return clas_body(self._mesh_, **kwargs)
 
diff --git a/objects/CSCG/_3d/discreteDields/allocator.py b/objects/CSCG/_3d/discreteDields/allocator.py
index a0c58bc..8af6c98 100644
--- a/objects/CSCG/_3d/discreteDields/allocator.py
+++ b/objects/CSCG/_3d/discreteDields/allocator.py
@@ -20,8 +20,8 @@ class _3dCSCG_DiscreteFieldsAllocator(FrozenOnly):
 
     def __call__(self, ID, **kwargs):
         """"""
-        cls_name = self.___discrete_field_path___()[ID]
-        cls_path = self.___discrete_field_name___()[ID]
+        cls_name = self.___discrete_field_name___()[ID]
+        cls_path = self.___discrete_field_path___()[ID]
         clas_body = getattr(import_module(cls_path), cls_name)
         return clas_body(self._mesh_, **kwargs)
 
-- 
2.43.0


From 2798bfd148b3b0ca7e6ed7fb6e0228b83e05e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 66/72] fix: corner dof of a region: second index

---
 objects/CSCG/_2d/forms/standard/base/dofs/do/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_2d/forms/standard/base/dofs/do/find.py b/objects/CSCG/_2d/forms/standard/base/dofs/do/find.py
index 1d0982c..95ccd5f 100644
--- a/objects/CSCG/_2d/forms/standard/base/dofs/do/find.py
+++ b/objects/CSCG/_2d/forms/standard/base/dofs/do/find.py
@@ -21,7 +21,7 @@ class _2dCSCG_SF_dofs_FIND(FrozenOnly):
                 which_corner = which_corner[::-1]
 
             id0 = 0 if which_corner[0] == 'U' else -1
-            id1 = 0 if which_corner[0] == 'L' else -1
+            id1 = 0 if which_corner[1] == 'L' else -1
 
             dof_local_numbering = self._dofs_._sf_.numbering.local[0][id0, id1]  # local numbering
             dof_num = GM[corner_element][dof_local_numbering]
-- 
2.43.0


From fd050151e6199b9d97bf329d0064627e94a8f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:25 +0000
Subject: [PATCH 67/72] fix: basis function of a 3D dof called a method that
 does not exist

---
 objects/CSCG/_3d/forms/standard/base/dofs/dof/basis_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objects/CSCG/_3d/forms/standard/base/dofs/dof/basis_function.py b/objects/CSCG/_3d/forms/standard/base/dofs/dof/basis_function.py
index 2bb04cb..66df4e1 100644
--- a/objects/CSCG/_3d/forms/standard/base/dofs/dof/basis_function.py
+++ b/objects/CSCG/_3d/forms/standard/base/dofs/dof/basis_function.py
@@ -37,7 +37,7 @@ class _3dCSCG_SF_DOF_BF(FrozenOnly):
         IN_SITE_BF = tuple()
 
         shape = [len(xi), len(et), len(sg)]
-        xietasigma, RBF= space.DO_evaluate_form_basis_at_meshgrid(k, xi, et ,sg, compute_xietasigma=True)
+        xietasigma, RBF= space.do.evaluate_form_basis_at_meshgrid(k, xi, et, sg, compute_xietasigma=True)
         RBF = np.vstack(RBF)
         for POS in positions:
             E, I = POS
-- 
2.43.0


From 6229ba8f97d15bf60571c1c1bcda6b1b6085b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:25 +0000
Subject: [PATCH 68/72] fix: blocks of a block matrix without empty blocks

---
 .../dataStructures/objects/sparseMatrix/blocks/main.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
index 39c61db..2ee92e4 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/blocks/main.py
@@ -17,7 +17,12 @@ class EWC_SpaMat_Blocks(FrozenOnly):
         assert GM0 is not None and GM1 is not None, f"To access blocks, must have gathering matrices."
 
         self._shape_ = spa_mat.bmat_shape
-        self.___BLOCKS___ = np.array(spa_mat._DG_.blocks, dtype=object)
+        # fill an empty array: `np.array` would look into the blocks (which are iterable) themselves.
+        blocks = spa_mat._DG_.blocks
+        self.___BLOCKS___ = np.empty(self._shape_, dtype=object)
+        for i, row in enumerate(blocks):
+            for j, block in enumerate(row):
+                self.___BLOCKS___[i, j] = block
 
 
         # - replace all None blocks by zero-blocks --------------------------------------------
-- 
2.43.0


From 44f92f9dd6e6f9f246c95163c99e589eb89af952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:25 +0000
Subject: [PATCH 69/72] fix: the inverse of 1x1 local matrices is a matrix

---
 .../dataStructures/objects/sparseMatrix/helpers/inv.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py
index 6338417..e6e7ac6 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/helpers/inv.py
@@ -6,6 +6,7 @@ from components.freeze.base import FrozenOnly
 
 
 from scipy.sparse import linalg as spspalinalg
+from scipy.sparse import csc_matrix, isspmatrix
 
 
 class ___LinearAlgebraINV___(FrozenOnly):
@@ -14,4 +15,6 @@ class ___LinearAlgebraINV___(FrozenOnly):
         self._freeze_self_()
 
     def __call__(self, item):
-        return spspalinalg.inv(self._ewc_[item].tocsc())
+        M = spspalinalg.inv(self._ewc_[item].tocsc())
+        # scipy returns a 1d array for the inverse of a 1-by-1 matrix.
+        return M if isspmatrix(M) else csc_matrix(M.reshape((1, 1)))
-- 
2.43.0


From 0884d0a52fd0d9ef527ab0aafcc49fd05f76c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:25 +0000
Subject: [PATCH 70/72] fix: lambda_2 uses the matrix square of S and Omega,
 not the entrywise one

---
 .../standard/_1s/special/vortex_detection.py  | 57 ++++---------------
 .../standard/_2s/special/vortex_detection.py  | 57 ++++---------------
 2 files changed, 24 insertions(+), 90 deletions(-)

diff --git a/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py b/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py
index ad08d09..21043e3 100644
--- a/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py
+++ b/objects/CSCG/_3d/forms/standard/_1s/special/vortex_detection.py
@@ -142,54 +142,21 @@ class ___3dCSCG_1Form_Vortex_Detection___(FrozenOnly):
         """
         xyz, S, O = self.___PRIVATE_generate_S_and_Omega___(xi, eta, sigma)
 
-        S0, S1, S2 = S
-        O0, O1, O2 = O
-
-        S00, S01, S02 = S0
-        S10, S11, S12 = S1
-        S20, S21, S22 = S2
-
-        O00, O01, O02 = O0
-        O10, O11, O12 = O1
-        O20, O21, O22 = O2
-
         Q = dict()
         LAMBDA_2 = dict()
 
-        for i in S00: # we go through all local mesh elements
-            s00, s01, s02 = S00[i], S01[i], S02[i]
-            s10, s11, s12 = S10[i], S11[i], S12[i]
-            s20, s21, s22 = S20[i], S21[i], S22[i]
-            o00 ,o01, o02 = O00[i], O01[i], O02[i]
-            o10, o11, o12 = O10[i], O11[i], O12[i]
-            o20, o21, o22 = O20[i], O21[i], O22[i]
-
-            SHAPE = s00.shape
-
-            so_00 = (s00**2 + o00**2).ravel('F')
-            so_01 = (s01**2 + o01**2).ravel('F')
-            so_02 = (s02**2 + o02**2).ravel('F')
-
-            so_10 = (s10**2 + o10**2).ravel('F')
-            so_11 = (s11**2 + o11**2).ravel('F')
-            so_12 = (s12**2 + o12**2).ravel('F')
-
-            so_20 = (s20**2 + o20**2).ravel('F')
-            so_21 = (s21**2 + o21**2).ravel('F')
-            so_22 = (s22**2 + o22**2).ravel('F')
-
-            so = np.zeros((len(so_00),3,3))
-            so[:,0,0] = so_00
-            so[:,0,1] = so_01
-            so[:,0,2] = so_02
-            so[:,1,0] = so_10
-            so[:,1,1] = so_11
-            so[:,1,2] = so_12
-            so[:,2,0] = so_20
-            so[:,2,1] = so_21
-            so[:,2,2] = so_22
-
-            eigen_values, _ = np.linalg.eig(so)
+        for i in S[0][0]:  # we go through all local mesh elements
+            SHAPE = S[0][0][i].shape
+
+            # `so` is S^2 + Omega^2, the sum of the (matrix) squares.
+            so = np.zeros((S[0][0][i].size, 3, 3))
+            for m in range(3):
+                for n in range(3):
+                    so[:, m, n] = sum(
+                        S[m][k][i] * S[k][n][i] + O[m][k][i] * O[k][n][i] for k in range(3)
+                    ).ravel('F')
+
+            eigen_values = np.linalg.eigvalsh(so)  # symmetric
             Q[i] = (- 0.5 * np.sum(eigen_values, axis=1)).reshape(SHAPE, order='F')
             eigen_values = np.sort(eigen_values, axis=1)
             LAMBDA_2[i] = eigen_values[:,1].reshape(SHAPE, order='F')
diff --git a/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py b/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py
index 9f54026..1b1b599 100644
--- a/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py
+++ b/objects/CSCG/_3d/forms/standard/_2s/special/vortex_detection.py
@@ -138,54 +138,21 @@ class ___3dCSCG_2Form_Vortex_Detection___(FrozenOnly):
         """
         xyz, S, Oo = self.___PRIVATE_generate_S_and_Omega___(xi, eta, sigma)
 
-        S0, S1, S2 = S
-        O0, O1, O2 = Oo
-
-        S00, S01, S02 = S0
-        S10, S11, S12 = S1
-        S20, S21, S22 = S2
-
-        O00, O01, O02 = O0
-        O10, O11, O12 = O1
-        O20, O21, O22 = O2
-
         Q = dict()
         LAMBDA_2 = dict()
 
-        for i in S00:  # we go through all local mesh elements
-            s00, s01, s02 = S00[i], S01[i], S02[i]
-            s10, s11, s12 = S10[i], S11[i], S12[i]
-            s20, s21, s22 = S20[i], S21[i], S22[i]
-            o00, o01, o02 = O00[i], O01[i], O02[i]
-            o10, o11, o12 = O10[i], O11[i], O12[i]
-            o20, o21, o22 = O20[i], O21[i], O22[i]
-
-            SHAPE = s00.shape
-
-            so_00 = (s00**2 + o00**2).ravel('F')
-            so_01 = (s01**2 + o01**2).ravel('F')
-            so_02 = (s02**2 + o02**2).ravel('F')
-
-            so_10 = (s10**2 + o10**2).ravel('F')
-            so_11 = (s11**2 + o11**2).ravel('F')
-            so_12 = (s12**2 + o12**2).ravel('F')
-
-            so_20 = (s20**2 + o20**2).ravel('F')
-            so_21 = (s21**2 + o21**2).ravel('F')
-            so_22 = (s22**2 + o22**2).ravel('F')
-
-            so = np.zeros((len(so_00), 3, 3))
-            so[:, 0, 0] = so_00
-            so[:, 0, 1] = so_01
-            so[:, 0, 2] = so_02
-            so[:, 1, 0] = so_10
-            so[:, 1, 1] = so_11
-            so[:, 1, 2] = so_12
-            so[:, 2, 0] = so_20
-            so[:, 2, 1] = so_21
-            so[:, 2, 2] = so_22
-
-            eigen_values, _ = np.linalg.eig(so)
+        for i in S[0][0]:  # we go through all local mesh elements
+            SHAPE = S[0][0][i].shape
+
+            # `so` is S^2 + Omega^2, the sum of the (matrix) squares.
+            so = np.zeros((S[0][0][i].size, 3, 3))
+            for m in range(3):
+                for n in range(3):
+                    so[:, m, n] = sum(
+                        S[m][k][i] * S[k][n][i] + Oo[m][k][i] * Oo[k][n][i] for k in range(3)
+                    ).ravel('F')
+
+            eigen_values = np.linalg.eigvalsh(so)  # symmetric
             Q[i] = (- 0.5 * np.sum(eigen_values, axis=1)).reshape(SHAPE, order='F')
             eigen_values = np.sort(eigen_values, axis=1)
 
-- 
2.43.0


From c59bedab43ed8963926d93660f4fcf5818f07a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:25 +0000
Subject: [PATCH 71/72] fix: pseudo sparsity is the mean over all elements

---
 .../objects/sparseMatrix/condition/main.py       | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py
index e1cd037..6ba79cb 100644
--- a/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py
+++ b/tools/elementwiseCache/dataStructures/objects/sparseMatrix/condition/main.py
@@ -33,19 +33,11 @@ class EWC_SpaMat_Condition(FrozenOnly):
 
             local_sparsity.append(1 - spa_mat.nnz / np.prod(spa_mat.shape))
 
-        if len(local_sparsity) > 0:
-            local_sparsity = np.sum(local_sparsity) / len(local_sparsity)
-        else:
-            local_sparsity = None
-
-        local_sparsity = COMM.gather(local_sparsity, root=MASTER_RANK)
+        # gather the sums and the amounts of elements: cores may have different amounts of elements.
+        local_sparsity = COMM.gather((np.sum(local_sparsity), len(local_sparsity)), root=MASTER_RANK)
 
         if RANK == MASTER_RANK:
-            valid = list()
-            for ls in local_sparsity:
-                if ls is not None:
-                    valid.append(ls)
-
-            local_sparsity = sum(valid) / len(valid)
+            total = sum(ls[0] for ls in local_sparsity)
+            local_sparsity = total / sum(ls[1] for ls in local_sparsity)
 
         return COMM.bcast(local_sparsity, root=MASTER_RANK)
-- 
2.43.0


From 67abc29ee218a890536beb03bcefea7382100c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:46 +0000
Subject: [PATCH 72/72] fix: 0-forms can be reconstructed on the left boundary

---
 objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py b/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
index c4d2c38..369fe20 100644
--- a/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
+++ b/objects/CSCG/_2d/forms/standard/_0_form/base/reconstruct.py
@@ -128,9 +128,9 @@ class _2dCSCG_S0F_Reconstruct(_2dCSCG_SF_ReconstructBase):
                         elif position == 'D':
                             assert xi[-1] == 1, f"to construct on D edge, xi must be [..., 1]"
                         elif position == 'L':
-                            assert eta[0] == 1, f"to construct on L edge, eta must be [-1, ...]"
+                            assert eta[0] == -1, f"to construct on L edge, eta must be [-1, ...]"
                         elif position == 'R':
-                            assert eta[-1] == 1, f"to construct on R edge, xi must be [..., 1]"
+                            assert eta[-1] == 1, f"to construct on R edge, eta must be [..., 1]"
                         else:
                             raise Exception()
 
-- 
2.43.0

