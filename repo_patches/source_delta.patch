From c871f199eecdc525af109b455193da597a46ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 01/24] fix: meta() and output_size() no longer raise
 IndexError for small T in 1D

The dry run walked the tree as if there was no averaging, hence looked up
filter resolutions that are not built when T is small with respect to 2**J.
---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..b4d24cc 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -187,7 +187,7 @@ class ScatteringBase1D(ScatteringBase):
         backend = self._DryBackend()
         filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]
         S_gen = scattering1d(
-            None, backend, filters, self.log2_stride, average_local=False)
+            None, backend, filters, self.log2_stride, (self.average=='local'))
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
         meta = dict(order=np.array([len(path['n']) for path in S]))
         meta['key'] = [path['n'] for path in S]
-- 
2.43.0


From 0355108bc74308b0dbbbdfed4e2772386da973e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 02/24] fix: build second-order filters at the resolution of
 the largest j1

With Q2 > Q1, paths with j1 = max(j1) < j2 raised an IndexError.
---
 kymatio/scattering1d/filter_bank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/filter_bank.py b/kymatio/scattering1d/filter_bank.py
index 750e0d6..dacc7e6 100644
--- a/kymatio/scattering1d/filter_bank.py
+++ b/kymatio/scattering1d/filter_bank.py
@@ -379,8 +379,8 @@ def scattering_filter_factory(N, J, Q, T, filterbank, _reduction=np.sum):
             j = get_max_dyadic_subsampling(xi, sigma, **filterbank_kwargs)
 
             # Resample to smaller resolutions if necessary (beyond 1st layer)
-            # The idiom min(previous_J, j, 1+log2_T) implements "j1 < j2"
-            for level in range(1, min(previous_J, j, 1+log2_T)):
+            # The idiom min(1+previous_J, j, 1+log2_T) implements "j1 < j2"
+            for level in range(1, min(1+previous_J, j, 1+log2_T)):
                 psi_level_reshaped = psi_levels[0].reshape(2**level, -1)
                 psi_level = _reduction(psi_level_reshaped, axis=0)
                 psi_levels.append(psi_level)
-- 
2.43.0


From a51d9bd9f6388c299287b2e3e8394d8d7dc60871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 03/24] fix: JTFS with a stride smaller than 2**max(j2) or
 stride_fr below 2**j_fr

The temporal subsampling of U2 depended on n1 when j2 > log2_stride, and
time_averaging/frequency_averaging picked the low-pass filter at the wrong
resolution, which raised a RuntimeError.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 9a3c3a6..d8cc7ea 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -172,7 +172,8 @@ def time_scattering_widthfirst(U_0, backend, filters, log2_stride, average_local
             k1 = min(j1, log2_stride) if average_local else j1
 
             if j2 > j1:
-                k2 = min(j2-k1, log2_stride) if average_local else (j2-k1)
+                sub2_adj = min(j2, log2_stride) if average_local else j2
+                k2 = max(sub2_adj - k1, 0)
                 U_2_c = backend.cdgmm(U_1_hat['coef'], psi2[n2]['levels'][k1])
                 U_2_hat = backend.subsample_fourier(U_2_c, 2 ** k2)
                 U_2_c = backend.ifft(U_2_hat)
@@ -271,7 +272,7 @@ def frequency_scattering(X, backend, filters_fr, log2_stride_fr,
         # as (X['n'][1:] + (n_fr,)), i.e., n=(n_fr,) is not spinned
         # and n=(n2, n_fr) if spinned. This 'n' tuple is unique.
         yield {**X, 'coef': Y_fr, 'n': (X['n'][1:] + (n_fr,)),
-            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**j_fr),
+            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**k_fr),
             'spin': spin}
 
 
@@ -306,7 +307,7 @@ def time_averaging(U_2, backend, phi_f, log2_stride):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t, n1)
     """
     log2_T = phi_f['j']
-    k_in = U_2['j'][-1]
+    k_in = min(U_2['j'][-1], log2_stride)
     k_J = log2_stride - k_in
     U_hat = backend.rfft(U_2['coef'])
     S_c = backend.cdgmm(U_hat, phi_f['levels'][k_in])
@@ -359,7 +360,7 @@ def frequency_averaging(U_2, backend, phi_fr_f, log2_stride_fr, average_fr):
             S_2_T = backend.average_global(U_2_T)
             n1_stride = U_2['n1_max']
         elif average_fr == 'local':
-            k_in = min(U_2['j_fr'][-1], log2_F)
+            k_in = min(U_2['j_fr'][-1], log2_stride_fr)
             k_J = log2_stride_fr - k_in
             U_hat = backend.rfft(U_2_T)
             S_c = backend.cdgmm(U_hat, phi_fr_f['levels'][k_in])
-- 
2.43.0


From 997b7d07d41b9257344390451cfee238279f4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 04/24] fix: JTFS frequential unpadding kept a spurious row
 when n1_stride divides n1_max

unpad_frequency expects the index of the last n1, not the number of n1.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index d8cc7ea..13e97dc 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -436,7 +436,7 @@ def jtfs_average_and_format(U_gen, backend, phi_f, log2_stride, average,
         # Frequential unpadding.
         if not (out_type == 'array' and format == 'joint'):
             path['coef'] = backend.unpad_frequency(
-                path['coef'], path['n1_max'], path['n1_stride'])
+                path['coef'], path['n1_max']-1, path['n1_stride'])
 
         # Splitting and reshaping
         if format == 'joint':
-- 
2.43.0


From 205346645aba9db94c7ca914f577966202bfa94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 05/24] fix: JTFS frequential padding for F > 2**J_fr and for
 J_fr large

The padded size must be a multiple of 2**log2_F and cannot be smaller than
the number of first-order filters.
---
 kymatio/scattering1d/frontend/base_frontend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index b4d24cc..8eb1d0e 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -563,8 +563,10 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         # (2) a multiple of all subsampling factors of frequential scattering:
         #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr)
         N_input_fr = (self.J+1) * self.Q[0]
-        K_fr = max(self.J_fr - self.oversampling_fr, 0)
-        N_padded_fr_subsampled = (N_input_fr + min_to_pad_fr) // (2 ** K_fr)
+        K_fr = max(self.J_fr - self.oversampling_fr, self.log2_F)
+        N_padded_fr_subsampled = max(
+            (N_input_fr + min_to_pad_fr) // (2 ** K_fr),
+            math.ceil(N_input_fr / (2 ** K_fr)))
         self._N_padded_fr = N_padded_fr_subsampled * (2 ** K_fr)
 
     def create_filters(self):
-- 
2.43.0


From a8ecd211e2452f1e679fab82a7ecc00073e77a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 06/24] fix: JTFS meta() lists paths in the order of the
 scattering output

With format='time' the metadata was sorted by n1 while the output is not; with
format='joint' and out_type='array', 'key' included the zeroth order.
---
 kymatio/scattering1d/frontend/base_frontend.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 8eb1d0e..d6d7d29 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -658,16 +658,18 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.phi_f, self.log2_stride, self.average,
             self.filters_fr[0], self.log2_stride_fr, self.average_fr,
             self.out_type, self.format)
-        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
+        # Paths are listed in the same order as in the output of scattering
+        S = list(S_gen)
+        if self.format == 'joint' and self.out_type == 'array':
+            # If format='joint' and out_type='array' skip zeroth order
+            S = S[1:]
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-                # If format='joint' and out_type='array' skip zeroth order
-                if not (self.format == 'joint' and self.out_type == 'array'):
-                    # Zeroth order: no n1, no n_fr, no n2
-                    meta['n'].append([np.nan, np.nan])
-                    meta['n_fr'].append(np.nan)
-                    meta['order'].append(0)
+                # Zeroth order: no n1, no n_fr, no n2
+                meta['n'].append([np.nan, np.nan])
+                meta['n_fr'].append(np.nan)
+                meta['order'].append(0)
             else:
                 if len(path['n']) == 1:
                     # First order and format='joint': n=(n_fr,)
-- 
2.43.0


From 9f39336cb9d55075e0f03c95ee351c41c0c0bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/24] fix: JTFS stride_fr error message reported stride

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index d6d7d29..3690a7e 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -755,7 +755,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 self._stride_fr))
         if self.average_fr in [False, "global"]:
             raise ValueError("stride_fr={} is incompatible with F={}.".format(
-                self._stride, self._F))
+                self._stride_fr, self._F))
         return int(log2_stride_fr)
 
     @property
-- 
2.43.0


From 04d72935b6b2d50f1eb394a48895506608c8793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 08/24] fix: deprecated 2D attributes M and N raised NameError
 (warn not imported)

---
 kymatio/scattering2d/frontend/base_frontend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..fade591 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,3 +1,5 @@
+from warnings import warn
+
 from ...frontend.base_frontend import ScatteringBase
 
 from ..filter_bank import filter_bank
-- 
2.43.0


From acef2e4d4ed223bd033f98d036d96262e14eee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 09/24] fix: pre_pad=True raised TypeError in the 2D TensorFlow
 frontend

The padding cast to complex, which rfft rejects; the cast happens in rfft.
---
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..bf12213 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,11 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
-
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
             try:
-- 
2.43.0


From 688bd33ca66f329642e9c05b91153571d621669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 10/24] fix: input_checks of the NumPy backend raised NameError
 instead of TypeError

---
 kymatio/backend/numpy_backend.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..a66070b 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -13,10 +13,9 @@ class NumpyBackend:
         if x is None:
             raise TypeError('The input should be not empty.')
 
-        #want to make sure that we have either a numpy or numpy-like arrays.
-        #since each numpy-like implements its own distinct ndarray, we need to
-        #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        #want to make sure that we have a numpy array. Backends of numpy-like
+        #libraries, which implement their own ndarray, override this check.
+        if not isinstance(x, numpy.ndarray):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From ccdd59e5fe20a2dbeb86c82fa202e29025970ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 11/24] fix: stride compatible with oversampling is
 2**(log2_T-oversampling)

The compatibility check was off by one: it rejected the stride which the
deprecation warning recommends and overrode another one silently.
---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 3690a7e..0419079 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -74,7 +74,7 @@ class ScatteringBase1D(ScatteringBase):
                 "Pass stride = 2**(J-oversampling) or "
                 "stride = 2**(log2(T)-oversampling) "
                 "to retain current behavior.", DeprecationWarning)
-            if not self._stride in [None, 2**(self.log2_T-self._oversampling-1)]:
+            if not self._stride in [None, 2**(self.log2_T-self._oversampling)]:
                 raise ValueError("oversampling={} and stride={}"
                     "are incompatible".format(self._oversampling, self._stride))
             self._stride = 2 ** (self.log2_T-self._oversampling)
-- 
2.43.0


From ebd0eae49ca232794e3cc66afb7415a8ef5a51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 12/24] fix: Keras 1D frontend ignored max_order and
 oversampling

Besides, get_config raised AttributeError and omitted T, and
compute_output_shape disregarded T and all but one of the batch dimensions.
---
 .../scattering1d/frontend/keras_frontend.py   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..1ec9e8a 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -12,28 +12,31 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self.max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-1:])
         self.S = ScatteringTensorFlow1D(J=self.J, shape=shape,
-            Q=self._Q, T=self._T, max_order=self._max_order,
+            Q=self._Q, T=self._T, max_order=self.max_order,
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
-        ln = self.S.ind_end[k0] - self.S.ind_start[k0]
-        output_shape = [input_shape[0], nc, ln]
+        if self.S.average == 'global':
+            ln = 1
+        else:
+            k0 = self.S.log2_stride
+            ln = self.S.ind_end[k0] - self.S.ind_start[k0]
+        output_shape = input_shape[:-1] + [nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        return {"J": self.J, "Q": self._Q, "T": self._T,
+            "max_order": self.max_order, "oversampling": self._oversampling}
 
 ScatteringKeras1D._document()
-- 
2.43.0


From 451c5c8150666d46a53757ff0a1d945723b233e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 13/24] fix: Keras 2D compute_output_shape disregarded
 max_order and channels

---
 kymatio/scattering2d/frontend/keras_frontend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..52dd6aa 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -25,8 +25,10 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
-        output_shape = [input_shape[0], nc, m0, m1]
+        nc = self.L * self.J + 1
+        if self.max_order > 1:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
+        output_shape = input_shape[:-2] + [nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From a7430a88d546294e1ef6e35a648a6df8a1245405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 14/24] fix: cloning a scikit-learn 1D transformer lost
 T='global' and T=0

get_params returned the values derived from T, Q and stride instead of the
arguments, hence sklearn.base.clone built another transform.
---
 kymatio/frontend/sklearn_frontend.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 0fa33c7..66ef82a 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -6,6 +6,17 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         # No fitting necessary.
         return self
 
+    def get_params(self, deep=True):
+        # Some arguments of __init__ (e.g., T or stride) are stored under a
+        # private name while the public name is a property derived from them.
+        # Return the former so that clones have the same behavior.
+        params = dict()
+        for key in self._get_param_names():
+            private_key = '_' + key
+            params[key] = getattr(
+                self, private_key if hasattr(self, private_key) else key)
+        return params
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + self.shape)
-- 
2.43.0


From f132b0277c7bf2e709f450d255e97b35f2e71dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 15/24] fix: 3D filters were off-center when a spatial
 dimension was odd

---
 kymatio/scattering3d/filter_bank.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/filter_bank.py b/kymatio/scattering3d/filter_bank.py
index 4994f5e..f6253ab 100644
--- a/kymatio/scattering3d/filter_bank.py
+++ b/kymatio/scattering3d/filter_bank.py
@@ -90,9 +90,9 @@ def gaussian_3d(M, N, O, sigma, fourier=True):
             that the origin is at the point [0, 0, 0]
     """
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
     if fourier:
@@ -137,9 +137,9 @@ def solid_harmonic_3d(M, N, O, sigma, l, fourier=True):
     """
     solid_harm = np.zeros((2*l+1, M, N, O), np.complex64)
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
 
-- 
2.43.0


From 23b1236da9dbfdc37cc50b0706682056afcb0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 16/24] fix: JTFS format='time' reported path order one too low

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 13e97dc..82ad638 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -381,7 +381,7 @@ def time_formatting(path, backend):
     else:
         coef_list = backend.split_frequency_axis(path["coef"])
     for i, n1 in enumerate(range(0, path["n1_max"], path["n1_stride"])):
-        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])-1}
+        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])}
         # If not spinned, X['n']=S1['n']=(n_fr,) is a 1-tuple.
         # If spinned, X['n']=Y2['n']=(n2,n_fr) is a 2-tuple.
         # In either case, we prepend n1 and define the new 'n'
-- 
2.43.0


From bab89463b8569654002260e108c0c2d25f125880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 17/24] fix: JTFS format='time' with T=0 unpadded coefficients
 at the wrong resolution

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 0419079..1dc2db1 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -619,7 +619,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
             if not self.average == 'global':
-                if not self.average and len(path['n']) > 1:
+                if not self.average and path['order'] > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
                 else:
-- 
2.43.0


From 1fc7d2b81672952700ed193e842ee6e31f493e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 18/24] fix: torch JTFS with T='global' and format='joint'
 failed to reshape its output

---
 kymatio/scattering1d/frontend/base_frontend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 1dc2db1..1e18537 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -628,6 +628,10 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 # Cases 2a, 2b, 3a, and 3b.
                 path['coef'] = self.backend.unpad(
                     path['coef'], self.ind_start[res], self.ind_end[res])
+            else:
+                # Case 1: keep the only time sample. This call removes the
+                # trailing singleton dimension of real PyTorch tensors.
+                path['coef'] = self.backend.unpad(path['coef'], 0, 1)
 
             # Reshape path to batch shape.
             path['coef'] = self.backend.reshape_output(path['coef'],
-- 
2.43.0


From c25fcece3bffc99db2ac4fd8a45a866e83837940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 19/24] fix: 3D NumPy and JAX frontends ignored an invalid
 method

---
 kymatio/scattering3d/frontend/numpy_frontend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 9517153..6b792f3 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -32,6 +32,10 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
                 'Tensor must be of spatial size (%i, %i, %i).' % (
                     self.M, self.N, self.O))
 
+        methods = ['integral']
+        if not self.method in methods:
+            raise ValueError('method must be in {}'.format(methods))
+
         batch_shape = input_array.shape[:-3]
         signal_shape = input_array.shape[-3:]
 
-- 
2.43.0


From 4be218d52c8db65ede825322192c5e38e5001dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:51 +0000
Subject: [PATCH 20/24] fix: Keras Scattering2D with pre_pad=True rejected
 every padded input

---
 kymatio/scattering2d/frontend/keras_frontend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 52dd6aa..24162bc 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -14,6 +14,10 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
+        if self.pre_pad:
+            # The input is already padded: recover a shape whose padding has
+            # the size of the input.
+            shape = tuple(n - 2 ** (self.J + 1) for n in shape)
         self.S = ScatteringTensorFlow2D(J=self.J, shape=shape,
                                         L=self.L, max_order=self.max_order,
                                         pre_pad=self.pre_pad)
@@ -25,6 +29,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
+        if self.pre_pad:
+            # The border of the padded input is removed from the output.
+            m0, m1 = m0 - 2, m1 - 2
         nc = self.L * self.J + 1
         if self.max_order > 1:
             nc += (self.L ** 2) * self.J * (self.J - 1) // 2
-- 
2.43.0


From f567bdc5f288006b621dce58bd25a3a573846d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 21/24] fix: scikit-learn Scattering2D with pre_pad=True
 reshaped padded rows to the unpadded shape

---
 kymatio/frontend/sklearn_frontend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 66ef82a..0163500 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -19,7 +19,11 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
 
     def predict(self, x):
         batch_shape = x.shape[:-1]
-        x = x.reshape((-1,) + self.shape)
+        shape = self.shape
+        if getattr(self, 'pre_pad', False):
+            # 2D only: the rows hold images that are already padded.
+            shape = (self._M_padded, self._N_padded)
+        x = x.reshape((-1,) + tuple(shape))
         Sx = self.scattering(x)
         Sx = Sx.reshape(batch_shape + (-1,))
 
-- 
2.43.0


From 49163e2e35ed05644ba30b6a3c4882081c8ede1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:00 +0000
Subject: [PATCH 22/24] fix: Keras Scattering1D with a tuple Q could not be
 restored from a saved model

---
 kymatio/scattering1d/frontend/keras_frontend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 1ec9e8a..9fd2379 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -39,4 +39,12 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         return {"J": self.J, "Q": self._Q, "T": self._T,
             "max_order": self.max_order, "oversampling": self._oversampling}
 
+    @classmethod
+    def from_config(cls, config):
+        config = dict(config)
+        if isinstance(config.get("Q"), list):
+            # a tuple becomes a list when a model is saved (JSON)
+            config["Q"] = tuple(config["Q"])
+        return cls(**config)
+
 ScatteringKeras1D._document()
-- 
2.43.0


From 4aa8a7be7dce7f840d319cc0c93e29de7031e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 23/24] fix: torch 3D transform depended on torch's default
 dtype

Filters and integrals were allocated with the default dtype: objects built
under set_default_dtype(float64) rejected float32 inputs, and integrals of
double inputs were rounded to float32.
---
 kymatio/scattering3d/backend/torch_backend.py   | 2 +-
 kymatio/scattering3d/frontend/torch_frontend.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering3d/backend/torch_backend.py b/kymatio/scattering3d/backend/torch_backend.py
index 9410818..016231c 100644
--- a/kymatio/scattering3d/backend/torch_backend.py
+++ b/kymatio/scattering3d/backend/torch_backend.py
@@ -144,7 +144,7 @@ class TorchBackend3D(TorchBackend):
                 to the powers p (l_p norms).
         """
         integrals = torch.zeros((input_array.shape[0], len(integral_powers)),
-                device=input_array.device)
+                dtype=input_array.dtype, device=input_array.device)
         for i_q, q in enumerate(integral_powers):
             integrals[:, i_q] = (input_array ** q).view(
                 input_array.shape[0], -1).sum(1)
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 115fc4b..560fd11 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -24,13 +24,13 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
     def register_filters(self):
         # transfer the filters from numpy to torch
         for k in range(len(self.filters)):
-            filt = torch.zeros(self.filters[k].shape + (2,))
+            filt = torch.zeros(self.filters[k].shape + (2,), dtype=torch.float32)
             filt[..., 0] = torch.from_numpy(self.filters[k].real).reshape(self.filters[k].shape)
             filt[..., 1] = torch.from_numpy(self.filters[k].imag).reshape(self.filters[k].shape)
             self.filters[k] = filt
             self.register_buffer('tensor' + str(k), self.filters[k])
 
-        g = torch.zeros(self.gaussian_filters.shape + (2,))
+        g = torch.zeros(self.gaussian_filters.shape + (2,), dtype=torch.float32)
         g[..., 0] = torch.from_numpy(self.gaussian_filters.real)
         self.gaussian_filters = g
         self.register_buffer('tensor_gaussian_filter', self.gaussian_filters)
-- 
2.43.0


From 8784bf4f2f0c36d78d0ee19ece6611345163f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 24/24] fix: 3D sqrt left NumPy's error state changed when it
 was interrupted

---
 kymatio/scattering3d/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering3d/utils.py b/kymatio/scattering3d/utils.py
index de1b5d5..c039d39 100644
--- a/kymatio/scattering3d/utils.py
+++ b/kymatio/scattering3d/utils.py
@@ -88,8 +88,7 @@ def sqrt(x):
     if np.isrealobj(x) and (x < 0).any():
         warnings.warn("Negative value encountered in sqrt", RuntimeWarning,
             stacklevel=1)
-    old_settings = np.seterr(invalid='ignore')
-    y = np.sqrt(x)
-    np.seterr(**old_settings)
+    with np.errstate(invalid='ignore'):
+        y = np.sqrt(x)
 
     return y
-- 
2.43.0

