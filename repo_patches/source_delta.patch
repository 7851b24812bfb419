From 9b6db8e8b45652d68cde08b4aa975858afdea9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 01/18] fix: get_cache_dir survives concurrent creation and
 never returns a file

---
 kymatio/caching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/caching.py b/kymatio/caching.py
index 0c0d2a7..4da466c 100644
--- a/kymatio/caching.py
+++ b/kymatio/caching.py
@@ -51,11 +51,11 @@ def get_cache_dir(name="", cache_base_dir=None, create=True):
     """
     path = os.path.join(
         find_cache_base_dir(cache_base_dir=cache_base_dir), name)
-    if os.path.exists(path):
+    if os.path.isdir(path):
         return path
     else:
         if create:
-            os.makedirs(path)
+            os.makedirs(path, exist_ok=True)
             return path
         else:
             raise ValueError(
-- 
2.43.0


From 861d4e2a41ca265fd0ccd03a62d33d748c3566e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 02/18] fix: sqrt restores the floating-point error handling
 when it raises

---
 kymatio/scattering3d/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering3d/utils.py b/kymatio/scattering3d/utils.py
index de1b5d5..c039d39 100644
--- a/kymatio/scattering3d/utils.py
+++ b/kymatio/scattering3d/utils.py
@@ -88,8 +88,7 @@ def sqrt(x):
     if np.isrealobj(x) and (x < 0).any():
         warnings.warn("Negative value encountered in sqrt", RuntimeWarning,
             stacklevel=1)
-    old_settings = np.seterr(invalid='ignore')
-    y = np.sqrt(x)
-    np.seterr(**old_settings)
+    with np.errstate(invalid='ignore'):
+        y = np.sqrt(x)
 
     return y
-- 
2.43.0


From 9683d0c5af98f7e0173e6287fd9fafaa3092f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 03/18] fix: do not install a handler on the root logger when a
 front end is selected

---
 kymatio/frontend/entry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kymatio/frontend/entry.py b/kymatio/frontend/entry.py
index 7bb8190..88f97f6 100644
--- a/kymatio/frontend/entry.py
+++ b/kymatio/frontend/entry.py
@@ -3,6 +3,9 @@ import warnings
 import importlib
 
 
+logger = logging.getLogger(__name__)
+
+
 class ScatteringEntry(object):
     def __init__(self, *args, **kwargs):
         self.name = kwargs['name']
@@ -44,7 +47,7 @@ class ScatteringEntry(object):
         except Exception as e:
             raise e from RuntimeError('\nThe frontend \'' + frontend + '\' could not be correctly imported.')
 
-        logging.info('The ' + self.name + ' frontend ' + frontend + ' was imported.')
+        logger.info('The ' + self.name + ' frontend ' + frontend + ' was imported.')
 
 
 __all__ = ['ScatteringEntry']
-- 
2.43.0


From 4f02f782074b8405c54427b9d4f521014e912d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 04/18] fix: set __qualname__ of the front-end classes so that
 transforms can be pickled

---
 kymatio/jax.py        | 4 ++++
 kymatio/keras.py      | 2 ++
 kymatio/numpy.py      | 4 ++++
 kymatio/sklearn.py    | 4 ++++
 kymatio/tensorflow.py | 4 ++++
 kymatio/torch.py      | 4 ++++
 6 files changed, 22 insertions(+)

diff --git a/kymatio/jax.py b/kymatio/jax.py
index daebde7..fc99721 100644
--- a/kymatio/jax.py
+++ b/kymatio/jax.py
@@ -6,15 +6,19 @@ from .scattering3d.frontend.jax_frontend import (
 
 Scattering1D.__module__ = "kymatio.jax"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.jax"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.jax"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 
 TimeFrequencyScattering.__module__ = "kymatio.jax"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/keras.py b/kymatio/keras.py
index f812b00..d26896c 100644
--- a/kymatio/keras.py
+++ b/kymatio/keras.py
@@ -3,8 +3,10 @@ from .scattering2d.frontend.keras_frontend import ScatteringKeras2D as Scatterin
 
 Scattering1D.__module__ = "kymatio.keras"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.keras"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 __all__ = ["Scattering1D", "Scattering2D"]
diff --git a/kymatio/numpy.py b/kymatio/numpy.py
index e442e03..c3f0abb 100644
--- a/kymatio/numpy.py
+++ b/kymatio/numpy.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.numpy_frontend import (
 
 Scattering1D.__module__ = "kymatio.numpy"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.numpy"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.numpy"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.numpy"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/sklearn.py b/kymatio/sklearn.py
index 095596d..8d6fe8c 100644
--- a/kymatio/sklearn.py
+++ b/kymatio/sklearn.py
@@ -13,14 +13,18 @@ from .scattering3d.frontend.sklearn_frontend import (
 
 Scattering1D.__module__ = "kymatio.sklearn"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.sklearn"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.sklearn"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.sklearn"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/tensorflow.py b/kymatio/tensorflow.py
index b4ba8b2..651fd52 100644
--- a/kymatio/tensorflow.py
+++ b/kymatio/tensorflow.py
@@ -13,15 +13,19 @@ from .scattering3d.frontend.tensorflow_frontend import (
 
 Scattering1D.__module__ = "kymatio.tensorflow"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.tensorflow"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.tensorflow"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.tensorflow"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/torch.py b/kymatio/torch.py
index 7e5d749..3fb420a 100644
--- a/kymatio/torch.py
+++ b/kymatio/torch.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.torch_frontend import (
 
 Scattering1D.__module__ = "kymatio.torch"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.torch"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.torch"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.torch"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
-- 
2.43.0


From 2631d0ef536bf4fd427860daaa671012b5a99e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 05/18] fix: 2D padding does not hold a module, so that
 transforms can be copied and pickled

---
 kymatio/scattering2d/backend/numpy_backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kymatio/scattering2d/backend/numpy_backend.py b/kymatio/scattering2d/backend/numpy_backend.py
index 3c89a3c..2ad227c 100644
--- a/kymatio/scattering2d/backend/numpy_backend.py
+++ b/kymatio/scattering2d/backend/numpy_backend.py
@@ -1,7 +1,7 @@
 from ...backend.numpy_backend import NumpyBackend
 
 class Pad(object):
-    def __init__(self, np, pad_size, input_size):
+    def __init__(self, backend, pad_size, input_size):
         """
             Padding which allows to simultaneously pad in a reflection fashion
             and map to complex.
@@ -14,14 +14,14 @@ class Pad(object):
                 size of the original signal
 
         """
-        self.np = np
+        self.backend = backend
         self.pad_size = pad_size
 
     def __call__(self, x):
         paddings = ((0, 0),)
         paddings += ((self.pad_size[0], self.pad_size[1]), (self.pad_size[2], self.pad_size[3]))
 
-        output = self.np.pad(x, paddings, mode='reflect')
+        output = self.backend._np.pad(x, paddings, mode='reflect')
         return output
 
 
@@ -77,7 +77,7 @@ class NumpyBackend2D(NumpyBackend):
 
     @classmethod
     def Pad(cls, pad_size, input_size):
-        return cls._Pad(cls._np, pad_size, input_size)
+        return cls._Pad(cls, pad_size, input_size)
 
     @classmethod
     def stack(cls, arrays):
-- 
2.43.0


From a5e3febd1b5f58a80c2f757475b0f62edc9bf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 06/18] fix: 2D transforms with pre_pad can be pickled, and
 work in TensorFlow

---
 kymatio/scattering2d/frontend/base_frontend.py       | 6 +++++-
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 4 ----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..d1a96ec 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -4,6 +4,10 @@ from ..filter_bank import filter_bank
 from ..utils import compute_padding
 
 
+def _identity(x):
+    return x
+
+
 class ScatteringBase2D(ScatteringBase):
     def __init__(self, J, shape, L=8, max_order=2, pre_pad=False,
             backend=None, out_type='array'):
@@ -27,7 +31,7 @@ class ScatteringBase2D(ScatteringBase):
             self.pad = self.backend.Pad([(self._M_padded - M) // 2, (self._M_padded - M+1) // 2, (self._N_padded - N) // 2,
                                 (self._N_padded - N + 1) // 2], [M, N])
         else:
-            self.pad = lambda x: x
+            self.pad = _identity
 
         self.unpad = self.backend.unpad
 
diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..16c11df 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,10 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
 
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
-- 
2.43.0


From fa6154872cf2866fb6dc6569a0d2dc3cba3b380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 07/18] fix: a 3D call leaves no closure on the transform, so
 that it can still be pickled

---
 kymatio/scattering3d/frontend/numpy_frontend.py      | 4 ++--
 kymatio/scattering3d/frontend/tensorflow_frontend.py | 4 ++--
 kymatio/scattering3d/frontend/torch_frontend.py      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 9517153..c1ac321 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -36,10 +36,10 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         signal_shape = input_array.shape[-3:]
 
         input_array = input_array.reshape((-1,) + signal_shape)
-        self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+        averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
 
 
         scattering_shape = S.shape[1:]
diff --git a/kymatio/scattering3d/frontend/tensorflow_frontend.py b/kymatio/scattering3d/frontend/tensorflow_frontend.py
index 95e1a11..2bcf5a8 100644
--- a/kymatio/scattering3d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering3d/frontend/tensorflow_frontend.py
@@ -46,7 +46,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
                 raise ValueError('method must be in {}'.format(methods))
 
             if self.method == 'integral':
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
             batch_shape = tf.shape(x)[:-3]
             signal_shape = tf.shape(x)[-3:]
@@ -56,7 +56,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
             S = scattering3d(x, filters=self.filters,
                              rotation_covariant=self.rotation_covariant,
                              L=self.L, J=self.J, max_order=self.max_order,
-                             backend=self.backend, averaging=self.averaging)
+                             backend=self.backend, averaging=averaging)
 
             scattering_shape = tf.shape(S)[1:]
 
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 115fc4b..4fa88dc 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -68,10 +68,10 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
             raise ValueError('method must be in {}'.format(methods))
 
         if self.method == 'integral': \
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
         scattering_shape = S.shape[1:]
 
         S = S.reshape(batch_shape + scattering_shape)
-- 
2.43.0


From ae9c6e33979eb586bdedbba3ed94b0338bf8c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 08/18] fix: torch 2D transforms with pre_pad can be pickled

---
 kymatio/scattering2d/frontend/torch_frontend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering2d/frontend/torch_frontend.py b/kymatio/scattering2d/frontend/torch_frontend.py
index 66ba548..567b5cc 100644
--- a/kymatio/scattering2d/frontend/torch_frontend.py
+++ b/kymatio/scattering2d/frontend/torch_frontend.py
@@ -5,6 +5,10 @@ from ...scattering2d.core.scattering2d import scattering2d
 from ...frontend.torch_frontend import ScatteringTorch
 
 
+def _append_axis(x):
+    return x.reshape(x.shape + (1,))
+
+
 class ScatteringTorch2D(ScatteringTorch, ScatteringBase2D):
     def __init__(self, J, shape, L=8, max_order=2, pre_pad=False,
             backend='torch', out_type='array'):
@@ -16,7 +20,7 @@ class ScatteringTorch2D(ScatteringTorch, ScatteringBase2D):
 
         if pre_pad:
             # Need to cast to complex in Torch
-            self.pad = lambda x: x.reshape(x.shape + (1,))
+            self.pad = _append_axis
 
         self.register_filters()
 
-- 
2.43.0


From fc16b6c7b9697ae41944f4fd2091b5eeba77eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 09/18] fix: torch replicas of one transform do not share the
 structures that hold their filters

---
 .../scattering1d/frontend/torch_frontend.py   | 40 +++++++++++--------
 .../scattering3d/frontend/torch_frontend.py   |  6 ++-
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/kymatio/scattering1d/frontend/torch_frontend.py b/kymatio/scattering1d/frontend/torch_frontend.py
index 30dd35f..7665571 100644
--- a/kymatio/scattering1d/frontend/torch_frontend.py
+++ b/kymatio/scattering1d/frontend/torch_frontend.py
@@ -55,24 +55,34 @@ class ScatteringTorch1D(ScatteringTorch, ScatteringBase1D):
                 n += 1
         return n
 
+    def _load_levels(self, filt, buffer_dict, n):
+        """A copy of filt holding the buffers from number n on."""
+        levels = []
+        for _ in filt["levels"]:
+            levels.append(buffer_dict["tensor" + str(n)])
+            n += 1
+        return dict(filt, levels=levels), n
+
     def load_filters(self):
         """This function loads filters from the module's buffer"""
         buffer_dict = dict(self.named_buffers())
         n = 0
 
-        for level in range(len(self.phi_f["levels"])):
-            self.phi_f["levels"][level] = buffer_dict["tensor" + str(n)]
-            n += 1
+        # The filters are put into new structures: replicas of this module
+        # (nn.DataParallel) share the old ones but have buffers of their own.
+        self.phi_f, n = self._load_levels(self.phi_f, buffer_dict, n)
 
+        psi1_f = []
         for psi_f in self.psi1_f:
-            for level in range(len(psi_f["levels"])):
-                psi_f["levels"][level] = buffer_dict["tensor" + str(n)]
-                n += 1
+            psi_f, n = self._load_levels(psi_f, buffer_dict, n)
+            psi1_f.append(psi_f)
+        self.psi1_f = psi1_f
 
+        psi2_f = []
         for psi_f in self.psi2_f:
-            for level in range(len(psi_f["levels"])):
-                psi_f["levels"][level] = buffer_dict["tensor" + str(n)]
-                n += 1
+            psi_f, n = self._load_levels(psi_f, buffer_dict, n)
+            psi2_f.append(psi_f)
+        self.psi2_f = psi2_f
         return n
 
     def scattering(self, x):
@@ -142,14 +152,12 @@ class TimeFrequencyScatteringTorch(ScatteringTorch1D, TimeFrequencyScatteringBas
         buffer_dict = dict(self.named_buffers())
         n = super(TimeFrequencyScatteringTorch, self).load_filters()
 
-        for level in range(len(self.filters_fr[0]["levels"])):
-            self.filters_fr[0]["levels"][level] = buffer_dict["tensor" + str(n)]
-            n += 1
-
+        phi_fr_f, n = self._load_levels(self.filters_fr[0], buffer_dict, n)
+        psis_fr_f = []
         for psi_f in self.filters_fr[1]:
-            for level in range(len(psi_f["levels"])):
-                psi_f["levels"][level] = buffer_dict["tensor" + str(n)]
-                n += 1
+            psi_f, n = self._load_levels(psi_f, buffer_dict, n)
+            psis_fr_f.append(psi_f)
+        self.filters_fr = (phi_fr_f, psis_fr_f)
 
 
 TimeFrequencyScatteringTorch._document()
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 4fa88dc..7972a1c 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -59,9 +59,11 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
         input_array = input_array.reshape((-1,) + signal_shape + (1,))
 
 
+        # A new list: replicas of this module (nn.DataParallel) share the old one
+        # but have buffers of their own.
         buffer_dict = dict(self.named_buffers())
-        for k in range(len(self.filters)):
-            self.filters[k] = buffer_dict['tensor' + str(k)]
+        self.filters = [buffer_dict['tensor' + str(k)]
+                        for k in range(len(self.filters))]
 
         methods = ['integral']
         if not self.method in methods:
-- 
2.43.0


From a7eb1565884e0fa0e259f44a4def4e3eb62ce565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 10/18] fix: JTFS meta lists the paths in the order of the
 output, without the skipped zeroth order

---
 kymatio/scattering1d/frontend/base_frontend.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..824822c 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -656,16 +656,18 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.phi_f, self.log2_stride, self.average,
             self.filters_fr[0], self.log2_stride_fr, self.average_fr,
             self.out_type, self.format)
-        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
+        # Same paths, in the same order, as the output of scattering
+        S = list(S_gen)
+        if self.format == 'joint' and self.out_type == 'array':
+            # Skip zeroth order
+            S = S[1:]
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-                # If format='joint' and out_type='array' skip zeroth order
-                if not (self.format == 'joint' and self.out_type == 'array'):
-                    # Zeroth order: no n1, no n_fr, no n2
-                    meta['n'].append([np.nan, np.nan])
-                    meta['n_fr'].append(np.nan)
-                    meta['order'].append(0)
+                # Zeroth order: no n1, no n_fr, no n2
+                meta['n'].append([np.nan, np.nan])
+                meta['n_fr'].append(np.nan)
+                meta['order'].append(0)
             else:
                 if len(path['n']) == 1:
                     # First order and format='joint': n=(n_fr,)
-- 
2.43.0


From 2c4e8d45eac0288cbaf5c8e9380269caa312623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 11/18] fix: scikit-learn clones are built with the arguments
 of the original

---
 kymatio/frontend/sklearn_frontend.py           | 9 +++++++++
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 0fa33c7..8a7011d 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -6,6 +6,15 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         # No fitting necessary.
         return self
 
+    def get_params(self, deep=True):
+        # Some parameters (Q, T, F, stride) are also properties that show the
+        # value in use. Report the value passed by the user, so that a clone
+        # is built with the same arguments.
+        params = super().get_params(deep=deep)
+        for name in params:
+            params[name] = getattr(self, '_' + name, params[name])
+        return params
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + self.shape)
diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 824822c..f03dc41 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -74,7 +74,7 @@ class ScatteringBase1D(ScatteringBase):
                 "Pass stride = 2**(J-oversampling) or "
                 "stride = 2**(log2(T)-oversampling) "
                 "to retain current behavior.", DeprecationWarning)
-            if not self._stride in [None, 2**(self.log2_T-self._oversampling-1)]:
+            if not self._stride in [None, 2**(self.log2_T-self._oversampling)]:
                 raise ValueError("oversampling={} and stride={}"
                     "are incompatible".format(self._oversampling, self._stride))
             self._stride = 2 ** (self.log2_T-self._oversampling)
-- 
2.43.0


From d6b211e82586868547df48c06770af78cc0ad8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 12/18] fix: Keras layers use and serialise all their arguments

---
 kymatio/frontend/keras_frontend.py              |  4 ++--
 kymatio/scattering1d/frontend/keras_frontend.py | 16 +++++++++-------
 kymatio/scattering2d/frontend/keras_frontend.py | 14 +++++++++-----
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/kymatio/frontend/keras_frontend.py b/kymatio/frontend/keras_frontend.py
index 380291a..80a8628 100644
--- a/kymatio/frontend/keras_frontend.py
+++ b/kymatio/frontend/keras_frontend.py
@@ -2,8 +2,8 @@ from tensorflow.keras.layers import Layer
 
 
 class ScatteringKeras(Layer):
-    def __init__(self):
-        Layer.__init__(self)
+    def __init__(self, **kwargs):
+        Layer.__init__(self, **kwargs)
         self.frontend_name = 'keras'
 
     def build(self, input_shape):
diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..b631a15 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -7,13 +7,13 @@ from tensorflow.python.framework import tensor_shape
 
 
 class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
-    def __init__(self, J, Q=1, T=None, max_order=2, oversampling=0):
-        ScatteringKeras.__init__(self)
+    def __init__(self, J, Q=1, T=None, max_order=2, oversampling=0, **kwargs):
+        ScatteringKeras.__init__(self, **kwargs)
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self._max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
@@ -27,13 +27,15 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
+        k0 = self.S.log2_stride
         ln = self.S.ind_end[k0] - self.S.ind_start[k0]
         output_shape = [input_shape[0], nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        config = ScatteringKeras.get_config(self)
+        config.update(J=self.J, Q=self._Q, T=self._T, max_order=self._max_order,
+            oversampling=self._oversampling)
+        return config
 
 ScatteringKeras1D._document()
diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..f7b41c6 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -7,8 +7,8 @@ from tensorflow.python.framework import tensor_shape
 
 
 class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
-    def __init__(self, J, L=8, max_order=2, pre_pad=False):
-        ScatteringKeras.__init__(self)
+    def __init__(self, J, L=8, max_order=2, pre_pad=False, **kwargs):
+        ScatteringKeras.__init__(self, **kwargs)
         ScatteringBase2D.__init__(self, J, None, L, max_order, pre_pad,
                                   'array')
 
@@ -25,12 +25,16 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
+        nc = self.L * self.J + 1
+        if self.max_order == 2:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
         output_shape = [input_shape[0], nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "L", "max_order", "pre_pad"]
-        return {key: getattr(self, key) for key in keys}
+        config = ScatteringKeras.get_config(self)
+        config.update(J=self.J, L=self.L, max_order=self.max_order,
+            pre_pad=self.pre_pad)
+        return config
 
 ScatteringKeras2D._document()
-- 
2.43.0


From 671cb41bde68ac0fcb93283ebbf1b1ec986052f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 13/18] fix: input_checks of the NumPy backend does not refer
 to an undefined name

---
 kymatio/backend/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..22ddfb0 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -8,15 +8,15 @@ class NumpyBackend:
 
     name = 'numpy'
 
-    @staticmethod
-    def input_checks(x):
+    @classmethod
+    def input_checks(cls, x):
         if x is None:
             raise TypeError('The input should be not empty.')
 
         #want to make sure that we have either a numpy or numpy-like arrays.
         #since each numpy-like implements its own distinct ndarray, we need to
         #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, cls._np.ndarray)):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From dd075afb2a7c013c7eafcbec83a4f2ec0122eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 14/18] fix: import warn where the deprecated 2D attributes use
 it

---
 kymatio/scattering2d/frontend/base_frontend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index d1a96ec..9e92ce4 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,3 +1,5 @@
+from warnings import warn
+
 from ...frontend.base_frontend import ScatteringBase
 
 from ..filter_bank import filter_bank
-- 
2.43.0


From 278cfeaf9f8e7076ea5fefca476c5256d7e143cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:05 +0000
Subject: [PATCH 15/18] fix: TensorFlow 3D transforms can be traced with an
 unknown batch size

---
 kymatio/scattering3d/backend/tensorflow_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering3d/backend/tensorflow_backend.py b/kymatio/scattering3d/backend/tensorflow_backend.py
index 70bb662..66cb523 100644
--- a/kymatio/scattering3d/backend/tensorflow_backend.py
+++ b/kymatio/scattering3d/backend/tensorflow_backend.py
@@ -64,7 +64,7 @@ class TensorFlowBackend3D(TensorFlowBackend):
         """
         integrals = []
         for i_q, q in enumerate(integral_powers):
-            integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(input_array.shape[0], -1)), axis=1))
+            integrals.append(tf.reduce_sum(tf.pow(input_array, q), axis=(1, 2, 3)))
         return tf.stack(integrals, axis=-1)
 
     @staticmethod
@@ -98,7 +98,7 @@ class TensorFlowBackend3D(TensorFlowBackend):
     @staticmethod
     def stack(arrays, L):
         S = tf.stack(arrays, axis=1)
-        S = tf.reshape(S, tuple((S.shape[0], S.shape[1] // (L + 1), (L + 1))) + tuple(S.shape[2:]))
+        S = tf.reshape(S, tuple((-1, S.shape[1] // (L + 1), (L + 1))) + tuple(S.shape[2:]))
         return S
 
     @classmethod
-- 
2.43.0


From 6a76a714263ed4d7c991f1fbf74b19c1a27d7f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 16/18] fix: TensorFlow calls do not keep the name scopes they
 enter on the transform

---
 kymatio/frontend/tensorflow_frontend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kymatio/frontend/tensorflow_frontend.py b/kymatio/frontend/tensorflow_frontend.py
index 3d97a6a..bfbc611 100644
--- a/kymatio/frontend/tensorflow_frontend.py
+++ b/kymatio/frontend/tensorflow_frontend.py
@@ -5,10 +5,12 @@ class ScatteringTensorFlow(tf.Module):
         super(ScatteringTensorFlow, self).__init__(name=name)
         self.frontend_name = 'tensorflow'
 
-    @tf.Module.with_name_scope
     def __call__(self, x):
         """This method is an alias for `scattering`."""
-        return self.scattering(x)
+        # Enter a scope of this call's own: `self.name_scope` keeps those entered
+        # on the object, where other threads and copies would share them.
+        with tf.name_scope(self.name_scope.name):
+            return self.scattering(x)
 
     _doc_array = 'tf.Tensor'
     _doc_array_n = ''
-- 
2.43.0


From 83962d2014567f62fac6f4ceda362490f870656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:35 +0000
Subject: [PATCH 17/18] fix: Keras models with a tuple Q can be loaded again

---
 kymatio/scattering1d/frontend/keras_frontend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index b631a15..b9f9081 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -38,4 +38,12 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
             oversampling=self._oversampling)
         return config
 
+    @classmethod
+    def from_config(cls, config):
+        # A saved model holds its configuration as JSON, where a tuple is a list.
+        config = dict(config)
+        if isinstance(config.get('Q'), list):
+            config['Q'] = tuple(config['Q'])
+        return super().from_config(config)
+
 ScatteringKeras1D._document()
-- 
2.43.0


From 7ea23c7d1e6582506955bd99859216bca89faf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 18/18] fix: meta() and output_size() of 1D scattering when T
 is small

meta() walked the paths as if there were no averaging and asked for
filters at resolutions which exist only when T is large enough, so it
raised IndexError for transforms that work.
---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index f03dc41..80b4ffb 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -187,7 +187,7 @@ class ScatteringBase1D(ScatteringBase):
         backend = self._DryBackend()
         filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]
         S_gen = scattering1d(
-            None, backend, filters, self.log2_stride, average_local=False)
+            None, backend, filters, self.log2_stride, (self.average=='local'))
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
         meta = dict(order=np.array([len(path['n']) for path in S]))
         meta['key'] = [path['n'] for path in S]
-- 
2.43.0

