From 5d5f54ae1da3530a3359b9d5819ca6c1d4d34e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 01/16] fix: fto setter keeps the old value when it rejects an
 array of the wrong length

---
 meent/on_jax/emsolver/_base.py   | 16 ++++++++--------
 meent/on_numpy/emsolver/_base.py | 16 ++++++++--------
 meent/on_torch/emsolver/_base.py | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index ac7c77f..c48f583 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -183,16 +183,16 @@ class _BaseRCWA:
             else:
                 raise ValueError
         elif isinstance(fto, np.ndarray) or isinstance(fto, jnp.ndarray):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError
         elif type(fto) in (int, float):
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index 230a482..d5e697a 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -155,16 +155,16 @@ class _BaseRCWA:
             else:
                 raise ValueError
         elif isinstance(fto, np.ndarray):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError
         elif type(fto) in (int, float):
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 919f4a2..33d04bb 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -193,16 +193,16 @@ class _BaseRCWA:
             else:
                 raise ValueError('Torch fto')
         elif isinstance(fto, np.ndarray) or isinstance(fto, torch.Tensor):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError('Torch fto')
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError('Torch fto')
         elif type(fto) in (int, float):
-- 
2.43.0


From 8e32e268764b3f2ae7e9c4197a5c33fd9386de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 02/16] fix: a rejected ucell leaves the solver unchanged; JAX
 no longer ignores unsupported dtypes

---
 meent/on_jax/emsolver/rcwa.py   | 8 ++++++--
 meent/on_numpy/emsolver/rcwa.py | 2 +-
 meent/on_torch/emsolver/rcwa.py | 3 +--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 2839f68..e40264c 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -95,22 +95,26 @@ class RCWAJax(_BaseRCWA):
     def ucell(self, ucell):
 
         if isinstance(ucell, jnp.ndarray):  # Raster
-            self._modeling_type_assigned = 0
             if ucell.dtype in (jnp.float64, jnp.float32, jnp.int64, jnp.int32):
                 dtype = self.type_float
                 self._ucell = ucell.astype(dtype)
             elif ucell.dtype in (jnp.complex128, jnp.complex64):
                 dtype = self.type_complex
                 self._ucell = ucell.astype(dtype)
+            else:
+                raise ValueError
+            self._modeling_type_assigned = 0
 
         elif isinstance(ucell, np.ndarray):  # Raster
-            self._modeling_type_assigned = 0
             if ucell.dtype in (np.int64, np.float64, np.int32, np.float32):
                 dtype = self.type_float
                 self._ucell = jnp.array(ucell, dtype=dtype)
             elif ucell.dtype in (np.complex128, np.complex64):
                 dtype = self.type_complex
                 self._ucell = jnp.array(ucell, dtype=dtype)
+            else:
+                raise ValueError
+            self._modeling_type_assigned = 0
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index 429e9b2..852fb00 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -89,7 +89,6 @@ class RCWANumpy(_BaseRCWA):
     def ucell(self, ucell):
 
         if isinstance(ucell, np.ndarray):  # Raster
-            self._modeling_type_assigned = 0
             if ucell.dtype in (np.int64, np.float64, np.int32, np.float32):
                 dtype = self.type_float
             elif ucell.dtype in (np.complex128, np.complex64):
@@ -98,6 +97,7 @@ class RCWANumpy(_BaseRCWA):
                 raise ValueError
             # self._ucell = np.array(ucell, dtype=dtype)
             self._ucell = ucell.astype(dtype)
+            self._modeling_type_assigned = 0
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 530e578..c7cdaf7 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -94,8 +94,6 @@ class RCWATorch(_BaseRCWA):
     def ucell(self, ucell):
 
         if isinstance(ucell, (torch.Tensor, np.ndarray)):
-            self._modeling_type_assigned = 0
-            
             if isinstance(ucell, np.ndarray):
                 ucell = torch.from_numpy(ucell)
 
@@ -117,6 +115,7 @@ class RCWATorch(_BaseRCWA):
                 dtype = self.type_float
 
             self._ucell = ucell.to(device=self.device, dtype=dtype)
+            self._modeling_type_assigned = 0
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
             self._ucell = ucell
-- 
2.43.0


From 002fc8a27c667fc2dcaed07f0077fed950ce03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 03/16] fix: TorchMeent no longer aliases the caller's numpy
 ucell (fit() overwrote it)

---
 meent/on_torch/emsolver/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index c7cdaf7..49bdc54 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -95,7 +95,7 @@ class RCWATorch(_BaseRCWA):
 
         if isinstance(ucell, (torch.Tensor, np.ndarray)):
             if isinstance(ucell, np.ndarray):
-                ucell = torch.from_numpy(ucell)
+                ucell = torch.tensor(ucell)  # copy: optimizing ucell must not write into the caller's array
 
             if ucell.dim() == 3:
                 # Isotropic (Layers, H, W): kept as-is. Do NOT expand to (..., 3) with
-- 
2.43.0


From afd0ac66365455fb830c853dcaea4cf1317c9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 04/16] fix: TorchMeent.grad accumulated gradients over calls

---
 meent/on_torch/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index 30084ce..bde82d9 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -17,6 +17,7 @@ class OptimizerTorch(Grad):
 
     def grad(self, pois, forward, loss_fn):
         [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
+        [setattr(getattr(self, poi), 'grad', None) for poi in pois]  # do not accumulate over calls
         result = forward()  # Forward Prop.
         loss = loss_fn(result)  # Loss
         loss.backward()  # Back Prop.
-- 
2.43.0


From fe7d7aa06c72f264444f80cfcc00ec671e7e42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 05/16] fix: JaxMeent.grad/fit leaked tracers into the solver
 when forward or loss raised

---
 meent/on_jax/optimizer/optimizer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/optimizer/optimizer.py b/meent/on_jax/optimizer/optimizer.py
index f561223..002ccdf 100644
--- a/meent/on_jax/optimizer/optimizer.py
+++ b/meent/on_jax/optimizer/optimizer.py
@@ -28,8 +28,10 @@ class OptimizerJax:
 
     def grad(self, pois, forward, loss_fn):
         params = {poi: (getattr(self, poi)) for poi in pois}
-        _, grads = self._grad(params, forward, loss_fn)
-        [setattr(self, poi, params[poi]) for poi in pois]
+        try:
+            _, grads = self._grad(params, forward, loss_fn)
+        finally:  # forward() assigned tracers to these attributes
+            [setattr(self, poi, params[poi]) for poi in pois]
 
         return grads
 
@@ -45,9 +47,10 @@ class OptimizerJax:
             params = optax.apply_updates(params, updates)
             return params, opt_state, loss_value
 
-        for _ in tqdm(range(iteration)):
-            params, opt_state, loss_value = step(params, opt_state)
-
-        [setattr(self, poi, params[poi]) for poi in pois]
+        try:
+            for _ in tqdm(range(iteration)):
+                params, opt_state, loss_value = step(params, opt_state)
+        finally:  # forward() assigned tracers to these attributes
+            [setattr(self, poi, params[poi]) for poi in pois]
 
         return params
-- 
2.43.0


From 3d0836ec64903dcf05bd01b060b780721207475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 06/16] fix: JaxMeent pytree flattening dropped use_pinv

---
 meent/on_jax/mee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meent/on_jax/mee.py b/meent/on_jax/mee.py
index ec7edaa..18fbd8d 100644
--- a/meent/on_jax/mee.py
+++ b/meent/on_jax/mee.py
@@ -24,6 +24,7 @@ class MeeJax(ModelingJax, RCWAJax, OptimizerJax):
             'type_complex': self.type_complex,
             'fourier_type': self.fourier_type,
             'enhanced_dfs': self.enhanced_dfs,
+            'use_pinv': self.use_pinv,
         }
 
         return children, aux_data
-- 
2.43.0


From a2ab0a8aabbb6d5191cd24002a7573d9411742b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 07/16] fix: read_material_table silently dropped directories
 it could not list

---
 meent/on_jax/modeler/modeling.py   | 7 ++++++-
 meent/on_numpy/modeler/modeling.py | 9 +++++++--
 meent/on_torch/modeler/modeling.py | 7 ++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 1747ca4..93106aa 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -734,6 +734,11 @@ def find_nk_index(material, mat_table, wl):
     return nk
 
 
+def _raise(error):
+    """walk() skips a directory it cannot list unless told otherwise."""
+    raise error
+
+
 def read_material_table(nk_path=None, type_complex=jnp.complex128):
     if type_complex == jnp.complex128:
         type_complex = jnp.float64
@@ -748,7 +753,7 @@ def read_material_table(nk_path=None, type_complex=jnp.complex128):
         nk_path = str(Path(__file__).resolve().parent.parent.parent) + '/nk_data'
 
     full_path_list, name_list, _ = [], [], []
-    for (dirpath, dirnames, filenames) in walk(nk_path):
+    for (dirpath, dirnames, filenames) in walk(nk_path, onerror=_raise):
         full_path_list.extend([f'{dirpath}/{filename}' for filename in filenames])
         name_list.extend(filenames)
     for path, name in zip(full_path_list, name_list):
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index acd0f50..2ed3e10 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -748,6 +748,11 @@ def find_nk_index(material, mat_table, wl):
     return nk
 
 
+def _raise(error):
+    """walk() skips a directory it cannot list unless told otherwise."""
+    raise error
+
+
 def read_material_table(nk_path=None, type_complex=np.complex128):
     if type_complex == np.complex128:
         type_complex = np.float64
@@ -762,7 +767,7 @@ def read_material_table(nk_path=None, type_complex=np.complex128):
         nk_path = str(Path(__file__).resolve().parent.parent.parent) + '/nk_data'
 
     full_path_list, name_list, _ = [], [], []
-    for (dirpath, dirnames, filenames) in walk(nk_path):
+    for (dirpath, dirnames, filenames) in walk(nk_path, onerror=_raise):
         full_path_list.extend([f'{dirpath}/{filename}' for filename in filenames])
         name_list.extend(filenames)
     for path, name in zip(full_path_list, name_list):
@@ -788,7 +793,7 @@ def read_table_comments(nk_path=None):
         nk_path = str(Path(__file__).resolve().parent.parent.parent) + '/nk_data'
 
     comments = {}
-    for (dirpath, dirnames, filenames) in walk(nk_path):
+    for (dirpath, dirnames, filenames) in walk(nk_path, onerror=_raise):
         for name in filenames:
             if name[-3:] != 'txt':
                 continue
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index c492e5c..04c1c6b 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -674,6 +674,11 @@ def find_nk_index(material, mat_table, wl):
     return nk
 
 
+def _raise(error):
+    """walk() skips a directory it cannot list unless told otherwise."""
+    raise error
+
+
 def read_material_table(nk_path=None, type_complex=torch.complex128):
     if type_complex == torch.complex128:
         type_complex = np.float64
@@ -688,7 +693,7 @@ def read_material_table(nk_path=None, type_complex=torch.complex128):
         nk_path = str(Path(__file__).resolve().parent.parent.parent) + '/nk_data'
 
     full_path_list, name_list, _ = [], [], []
-    for (dirpath, dirnames, filenames) in walk(nk_path):
+    for (dirpath, dirnames, filenames) in walk(nk_path, onerror=_raise):
         full_path_list.extend([f'{dirpath}/{filename}' for filename in filenames])
         name_list.extend(filenames)
     for path, name in zip(full_path_list, name_list):
-- 
2.43.0


From 847718ad195519b5332759034a0d5dd303fdc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 08/16] fix: calculate_field after a failed solve returned an
 empty or stale field map

---
 meent/on_jax/emsolver/rcwa.py   | 4 ++++
 meent/on_numpy/emsolver/rcwa.py | 4 ++++
 meent/on_torch/emsolver/rcwa.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index e40264c..91fd2eb 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -219,6 +219,7 @@ class RCWAJax(_BaseRCWA):
 
     @jax_device_set
     def conv_solve(self, **kwargs):
+        self.layer_info_list, self.T1 = [], None  # a failed solve must not leave the previous one's modes behind
         [setattr(self, k, v) for k, v in kwargs.items()]  # needed for optimization
 
         if self._modeling_type_assigned == 0:  # Raster
@@ -265,6 +266,9 @@ class RCWAJax(_BaseRCWA):
 
     @jax_device_set
     def calculate_field(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
+        if self.T1 is None:
+            raise RuntimeError('calculate_field needs a completed conv_solve.')
+
         kx, ky = self.get_kx_ky_vector(wavelength=self.wavelength)
 
         if self._grating_type_assigned == 0:
diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index 852fb00..98f74dd 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -172,6 +172,7 @@ class RCWANumpy(_BaseRCWA):
 
     def conv_solve(self, **kwargs):
         # [setattr(self, k, v) for k, v in kwargs.items()]  # no need in npmeent
+        self.layer_info_list, self.T1 = [], None  # a failed solve must not leave the previous one's modes behind
 
         if self.modeling_type_assigned == 0:  # Raster
 
@@ -200,6 +201,9 @@ class RCWANumpy(_BaseRCWA):
 
     def calculate_field(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
         # TODO: change res_ to accept array of points.
+        if self.T1 is None:
+            raise RuntimeError('calculate_field needs a completed conv_solve.')
+
         kx, ky = self.get_kx_ky_vector(wavelength=self.wavelength)
 
         if self._grating_type_assigned == 0:
diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 49bdc54..6acadca 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -193,6 +193,7 @@ class RCWATorch(_BaseRCWA):
         return result
 
     def conv_solve(self, **kwargs):
+        self.layer_info_list, self.T1 = [], None  # a failed solve must not leave the previous one's modes behind
         [setattr(self, k, v) for k, v in kwargs.items()]  # needed for optimization
 
         if self.modeling_type_assigned == 0:  # Raster
@@ -224,6 +225,9 @@ class RCWATorch(_BaseRCWA):
 
     def calculate_field(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
         """Return Ex, Ey, Ez, Hx, Hy, Hz in RETICOLO's field convention."""
+        if self.T1 is None:
+            raise RuntimeError('calculate_field needs a completed conv_solve.')
+
         kx, ky = self.get_kx_ky_vector(wavelength=self.wavelength)
 
         if self._grating_type_assigned == 0:
-- 
2.43.0


From e4a3ca855bc298bf7a4ec65002401f74b4b4e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:53 +0000
Subject: [PATCH 09/16] fix: gradients returned by TorchMeent.grad changed
 under later backward passes

---
 meent/on_torch/optimizer/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index bde82d9..31d6eb4 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -23,7 +23,8 @@ class OptimizerTorch(Grad):
         loss.backward()  # Back Prop.
         grad = {poi: getattr(self, poi).grad for poi in pois}  # gradient
 
-        return grad
+        # autograd keeps accumulating into .grad on later backward passes
+        return {poi: g if g is None else g.clone() for poi, g in grad.items()}
 
     def meent_optimizer(self, _pois, _opt, *args, **kwargs):
         _parameters_to_fit = [(getattr(self, poi)) for poi in _pois]
-- 
2.43.0


From 7146778b139605a4ca28aec9edc74905abf163f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:02 +0000
Subject: [PATCH 10/16] fix: Eig backward used the perturbation of whichever
 torch solver ran last

---
 meent/on_torch/emsolver/primitives.py      |  9 ++++-----
 meent/on_torch/emsolver/transfer_method.py | 14 +++++---------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/meent/on_torch/emsolver/primitives.py b/meent/on_torch/emsolver/primitives.py
index 196920d..93378f5 100644
--- a/meent/on_torch/emsolver/primitives.py
+++ b/meent/on_torch/emsolver/primitives.py
@@ -3,17 +3,16 @@ import torch
 
 
 class Eig(torch.autograd.Function):
-    perturbation = 1E-10
 
     @staticmethod
-    def forward(matrix):
+    def forward(matrix, perturbation):
         res = torch.linalg.eig(matrix)
         # print(111, res[0][0], res[1][0,0])
         return res
 
     @staticmethod
     def setup_context(ctx, inputs, output):
-        matrix, = inputs
+        matrix, ctx.perturbation = inputs  # per call: solvers may use different values
         eigval, eigvec = output
         ctx.save_for_backward(matrix, eigval, eigvec)
 
@@ -36,7 +35,7 @@ class Eig(torch.autograd.Function):
         W_H = eig_vector.T.conj()
 
         Fij = eig_val.reshape((1, -1)) - eig_val.reshape((-1, 1))
-        Fij = Fij / (torch.abs(Fij) ** 2 + Eig.perturbation)
+        Fij = Fij / (torch.abs(Fij) ** 2 + ctx.perturbation)
         diag_indices = torch.arange(len(Fij), device=Fij.device)
         Fij[diag_indices, diag_indices] = 0
 
@@ -44,7 +43,7 @@ class Eig(torch.autograd.Function):
         if not torch.is_complex(matrix):
             grad = grad.real
 
-        return grad
+        return grad, None
 
 
 class RobustPinv(torch.autograd.Function):
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 631e3ce..45499a9 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -60,8 +60,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
     if pol == 0:
         A = Kx ** 2 - epy_conv
 
-        Eig.perturbation = perturbation
-        eigenvalues, W = Eig.apply(A)
+        eigenvalues, W = Eig.apply(A, perturbation)
 
         # eigenvalues += 0j  # to get positive square root
         q = eigenvalues ** 0.5
@@ -71,8 +70,7 @@ def transfer_1d_2(pol, kx, epx_conv, epy_conv, epz_conv_i, device=torch.device('
     elif pol == 1:
         B = Kx @ epz_conv_i @ Kx - torch.eye(epy_conv.shape[0], device=device, dtype=type_complex)
 
-        Eig.perturbation = perturbation
-        eigenvalues, W = Eig.apply(epx_conv @ B)
+        eigenvalues, W = Eig.apply(epx_conv @ B, perturbation)
 
         # eigenvalues += 0j  # to get positive square root
         q = eigenvalues ** 0.5
@@ -273,9 +271,8 @@ def transfer_1d_conical_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device='cpu',
     Omega2_RL = Ky ** 2 + A
     Omega2_LR = Ky ** 2 + B @ epx_conv
 
-    Eig.perturbation = perturbation
-    eigenvalues_1, W_1 = Eig.apply(Omega2_RL)
-    eigenvalues_2, W_2 = Eig.apply(Omega2_LR)
+    eigenvalues_1, W_1 = Eig.apply(Omega2_RL, perturbation)
+    eigenvalues_2, W_2 = Eig.apply(Omega2_LR, perturbation)
 
     q_1 = eigenvalues_1 ** 0.5
     q_2 = eigenvalues_2 ** 0.5
@@ -571,8 +568,7 @@ def transfer_2d_2(kx, ky, epx_conv, epy_conv, epz_conv_i, device=torch.device('c
             torch.cat([Ky @ (epz_conv_i @ Kx @ epx_conv - Kx), Kx ** 2 + D @ epy_conv], dim=1)
         ])
 
-    Eig.perturbation = perturbation
-    eigenvalues, W = Eig.apply(Omega2_LR)
+    eigenvalues, W = Eig.apply(Omega2_LR, perturbation)
     q = eigenvalues ** 0.5
 
     q = torch.where(q.abs() < 1E-10, torch.full_like(q, 1E-10), q)
-- 
2.43.0


From 005bc82c251cd80d21dce8eb9950aa68c03df2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:03 +0000
Subject: [PATCH 11/16] fix: an inversion failure in Eig backward aborted the
 gradient instead of falling back to pinv

---
 meent/on_torch/emsolver/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/primitives.py b/meent/on_torch/emsolver/primitives.py
index 93378f5..4f885d4 100644
--- a/meent/on_torch/emsolver/primitives.py
+++ b/meent/on_torch/emsolver/primitives.py
@@ -39,7 +39,7 @@ class Eig(torch.autograd.Function):
         diag_indices = torch.arange(len(Fij), device=Fij.device)
         Fij[diag_indices, diag_indices] = 0
 
-        grad = torch.linalg.inv(W_H) @ (grad_eigval + Fij * (W_H @ grad_eigvec)) @ W_H
+        grad = meeinv(W_H) @ (grad_eigval + Fij * (W_H @ grad_eigvec)) @ W_H
         if not torch.is_complex(matrix):
             grad = grad.real
 
-- 
2.43.0


From 8e3d0369c9fbbb856d64e36e170c2dc517091b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:26 +0000
Subject: [PATCH 12/16] fix: draw() perturbed the caller's object list in place

---
 meent/on_jax/modeler/modeling.py   | 1 +
 meent/on_numpy/modeler/modeling.py | 1 +
 meent/on_torch/modeler/modeling.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 93106aa..9c385d4 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -485,6 +485,7 @@ class ModelingJax:
             perturbation_unit = 1E-6
 
         pmtvy_base, obj_list = layer_info
+        obj_list = [[list(tl), list(br), n] for tl, br, n in obj_list]  # the edges are perturbed below
 
         # Griding
         row_list = []
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 2ed3e10..656d1b6 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -503,6 +503,7 @@ class ModelingNumpy:
             perturbation_unit = 1E-6
 
         pmtvy_base, obj_list = layer_info
+        obj_list = [[list(tl), list(br), n] for tl, br, n in obj_list]  # the edges are perturbed below
 
         # Griding
         row_list = []
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 04c1c6b..a94f864 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -405,6 +405,7 @@ class ModelingTorch:
             perturbation_unit = 1E-6
 
         pmtvy_base, obj_list = layer_info
+        obj_list = [[list(tl), list(br), n] for tl, br, n in obj_list]  # the edges are perturbed below
 
         # Griding
         row_list = []
-- 
2.43.0


From f2b9ccffb70430a95f847c7cd83a60e875e3d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:50 +0000
Subject: [PATCH 13/16] fix: inversion failures in the torch Fourier
 factorisation bypassed the pinv fallback

---
 meent/on_torch/emsolver/fourier_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/emsolver/fourier_analysis.py b/meent/on_torch/emsolver/fourier_analysis.py
index 28757f7..4da2266 100644
--- a/meent/on_torch/emsolver/fourier_analysis.py
+++ b/meent/on_torch/emsolver/fourier_analysis.py
@@ -1,6 +1,8 @@
 import torch
 # import numpy as np
 
+from .primitives import meeinv
+
 
 def _cfs(x, cell, fto, period, device=torch.device('cpu'), type_complex=torch.complex128):
 
@@ -51,7 +53,7 @@ def cfs2d(cell, x, y, conti_x, conti_y, fto_x, fto_y, device=torch.device('cpu')
     conv1d = cfs1d[:, conv_index_1]
 
     if conti_x ^ conti_y:
-        conv1d = torch.linalg.inv(conv1d)
+        conv1d = meeinv(conv1d)
 
     conv1d = conv1d.reshape((-1, ff_y ** 2))
 
@@ -63,7 +65,7 @@ def cfs2d(cell, x, y, conti_x, conti_y, fto_x, fto_y, device=torch.device('cpu')
     conv2d = conv2d.reshape((ff_y*ff_x, ff_y*ff_x))
 
     if conti_x == 0:  # discontinuous in X (Column): inverse rule is applied.
-        conv2d = torch.linalg.inv(conv2d)
+        conv2d = meeinv(conv2d)
 
     return conv2d
 
@@ -87,7 +89,7 @@ def dfs2d(cell, conti_x, conti_y, fto_x, fto_y, device=torch.device('cpu'), type
     conv1d_pre = dfs1d[:, conv_index_1]
 
     if conti_x ^ conti_y:
-        conv1d = torch.linalg.inv(conv1d_pre)
+        conv1d = meeinv(conv1d_pre)
     else:
         conv1d = conv1d_pre
 
@@ -101,7 +103,7 @@ def dfs2d(cell, conti_x, conti_y, fto_x, fto_y, device=torch.device('cpu'), type
     conv2d = conv2d.reshape((ff_y*ff_x, ff_y*ff_x))
 
     if conti_x == 0:  # discontinuous in X (Column): inverse rule is applied.
-        conv2d = torch.linalg.inv(conv2d)
+        conv2d = meeinv(conv2d)
 
     return conv2d
 
-- 
2.43.0


From 35c4364e10a3e1d2bc11c73f79171d128dd1580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:19 +0000
Subject: [PATCH 14/16] fix: torch grad/fit raised once a precision change had
 recast a parameter

---
 meent/on_torch/optimizer/optimizer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index 31d6eb4..9e6370f 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -16,8 +16,13 @@ class OptimizerTorch(Grad):
         super().__init__()
 
     def grad(self, pois, forward, loss_fn):
-        [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
-        [setattr(getattr(self, poi), 'grad', None) for poi in pois]  # do not accumulate over calls
+        for poi in pois:
+            parameter = getattr(self, poi)
+            if parameter.is_leaf:
+                parameter.requires_grad = True
+            else:  # e.g. recast by a type_complex change after an earlier grad()
+                parameter.retain_grad()
+            parameter.grad = None  # do not accumulate over calls
         result = forward()  # Forward Prop.
         loss = loss_fn(result)  # Loss
         loss.backward()  # Back Prop.
@@ -32,6 +37,9 @@ class OptimizerTorch(Grad):
         return res
 
     def fit(self, pois, forward, loss_fn, optimizer, opt_options, iteration=1):
+        for poi in pois:  # recast by a type_complex change after an earlier grad(); torch.optim needs leaves
+            if not getattr(self, poi).is_leaf:
+                setattr(self, poi, getattr(self, poi).detach())
         optimizer = self.meent_optimizer(pois, optimizer, **opt_options)
         [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
 
-- 
2.43.0


From 0f9b79949e235ee0da71e3a6bd1433eac63b6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:36 +0000
Subject: [PATCH 15/16] fix: a rejected psi changed psi but not pol

---
 meent/on_jax/emsolver/_base.py   | 2 +-
 meent/on_numpy/emsolver/_base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index c48f583..3fce7ed 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -139,8 +139,8 @@ class _BaseRCWA:
     @psi.setter
     def psi(self, psi):
         if psi is not None:
-            self._psi = jnp.array(psi, dtype=self.type_complex)
             pol = -(2 * psi / jnp.pi - 1)
+            self._psi = jnp.array(psi, dtype=self.type_complex)
             self._pol = pol
 
     @property
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index d5e697a..34755d1 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -117,8 +117,8 @@ class _BaseRCWA:
     @psi.setter
     def psi(self, psi):
         if psi is not None:
-            self._psi = np.array(psi, dtype=self.type_complex)  # TODO: complex, QA
             pol = -(2 * psi / np.pi - 1)
+            self._psi = np.array(psi, dtype=self.type_complex)  # TODO: complex, QA
             self._pol = pol
 
     @property
-- 
2.43.0


From d4201fd7e2030af5afc074cac1f876f2c5775952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:36 +0000
Subject: [PATCH 16/16] fix: out-of-range wavelengths given as torch tensors
 were not reported

---
 meent/on_torch/modeler/modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index a94f864..7022aa6 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -618,7 +618,7 @@ def warn_if_out_of_range(material, mat_data, wl):
     always means the wavelength was passed in nanometres or micrometres.
     """
     try:
-        wl_min, wl_max = float(np.min(wl)), float(np.max(wl))
+        wl_min, wl_max = float(np.min(np.asarray(wl))), float(np.max(np.asarray(wl)))
     except Exception:  # device-resident or traced values have no range to inspect here
         return
 
-- 
2.43.0

