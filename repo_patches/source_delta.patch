From 8f6d83d111a181d44ff81e5a246c401986abf55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 01/29] fix: keep the caller's coefficient dictionaries
 unchanged in MatrixWaverec3 and fswaverec

---
 src/ptwt/matmul_transform_3.py       | 4 ++--
 src/ptwt/separable_conv_transform.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..d5bc8db 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -466,8 +466,8 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            # do not write into the dictionaries provided by the caller.
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..9a14cf3 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,8 +179,9 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
-        approx = _separable_conv_idwtn(level_dict, wavelet)
+        # do not write into the dictionaries provided by the caller.
+        all_coeffs = {**level_dict, "a" * max(map(len, keys)): approx}
+        approx = _separable_conv_idwtn(all_coeffs, wavelet)
     return approx
 
 
-- 
2.43.0


From 3d82ba41db2e1cb34a5da641e3406a845c4f7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 02/29] fix: recompute the automatic level of MatrixWavedec
 objects for each input

---
 src/ptwt/matmul_transform.py   | 5 +++--
 src/ptwt/matmul_transform_2.py | 5 +++--
 src/ptwt/matmul_transform_3.py | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..1dc6a42 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -249,6 +249,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        self._infer_level = level is None
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
@@ -394,10 +395,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.input_length = length
             re_build = True
 
-        if self.level is None:
+        if self._infer_level or self.level is None:
+            # the automatic level depends on the shape of the current input.
             wlen = len(self.wavelet)
             self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..bab2bde 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -327,6 +327,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=2)
         self.level = level
+        self._infer_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
@@ -483,12 +484,12 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.input_signal_shape = height, width
             re_build = True
 
-        if self.level is None:
+        if self._infer_level or self.level is None:
+            # the automatic level depends on the shape of the current input.
             wlen = len(self.wavelet)
             self.level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index d5bc8db..5d978ac 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -119,6 +119,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        self._infer_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
@@ -222,7 +223,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.input_signal_shape = depth, height, width
             re_build = True
 
-        if self.level is None:
+        if self._infer_level or self.level is None:
+            # the automatic level depends on the shape of the current input.
             wlen = len(self.wavelet)
             self.level = int(
                 np.min(
@@ -233,7 +235,6 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
-- 
2.43.0


From 0e1663173fd42775720f69954ed7fcfd221812dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 03/29] fix: rebuild the cached wavelet matrices if device or
 dtype of the input change

---
 src/ptwt/matmul_transform.py   | 12 ++++++++++++
 src/ptwt/matmul_transform_2.py | 12 ++++++++++++
 src/ptwt/matmul_transform_3.py | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 1dc6a42..f38b7d0 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -259,6 +259,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         self.pad_list: list[bool] = []
         self.padded = False
         self.size_list: list[int] = []
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -402,6 +403,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        if self._matrix_device_dtype != (input_signal.device, input_signal.dtype):
+            # cached matrices from another device or with another precision.
+            self._matrix_device_dtype = (input_signal.device, input_signal.dtype)
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -550,6 +556,7 @@ class MatrixWaverec(object):
         self.level: Optional[int] = None
         self.input_length: Optional[int] = None
         self.padded = False
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -671,6 +678,11 @@ class MatrixWaverec(object):
             self.input_length = input_length
             re_build = True
 
+        if self._matrix_device_dtype != (torch_device, torch_dtype):
+            # cached matrices from another device or with another precision.
+            self._matrix_device_dtype = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index bab2bde..6739fc2 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -337,6 +337,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         ] = []
         self.pad_list: list[tuple[bool, bool]] = []
         self.padded = False
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -493,6 +494,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        if self._matrix_device_dtype != (input_signal.device, input_signal.dtype):
+            # cached matrices from another device or with another precision.
+            self._matrix_device_dtype = (input_signal.device, input_signal.dtype)
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -630,6 +636,7 @@ class MatrixWaverec2(object):
         self.input_signal_shape: Optional[tuple[int, int]] = None
 
         self.padded = False
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -774,6 +781,11 @@ class MatrixWaverec2(object):
             self.level = level
             re_build = True
 
+        if self._matrix_device_dtype != (torch_device, torch_dtype):
+            # cached matrices from another device or with another precision.
+            self._matrix_device_dtype = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 5d978ac..3580963 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -125,6 +125,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
         self.fwt_matrix_list: list[list[torch.Tensor]] = []
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -238,6 +239,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        if self._matrix_device_dtype != (input_signal.device, input_signal.dtype):
+            # cached matrices from another device or with another precision.
+            self._matrix_device_dtype = (input_signal.device, input_signal.dtype)
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -328,6 +334,7 @@ class MatrixWaverec3(object):
         self.ifwt_matrix_list: list[list[torch.Tensor]] = []
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
         self.level: Optional[int] = None
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -444,6 +451,11 @@ class MatrixWaverec3(object):
             self.level = level
             re_build = True
 
+        if self._matrix_device_dtype != (torch_device, torch_dtype):
+            # cached matrices from another device or with another precision.
+            self._matrix_device_dtype = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
-- 
2.43.0


From aa4dcbe46d2c012a1e0f35255f0f5a6d95a80726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 04/29] fix: drop the channel dimension if wavedec3 transforms
 no level

---
 src/ptwt/conv_transform_3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..c5def7f 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -140,6 +140,9 @@ def wavedec3(
             }
         )
     result_lst.reverse()
+    # without a transformed level the channel dimension is still present.
+    if len(res_lll.shape) == 5:
+        res_lll = res_lll.squeeze(1)
     coeffs: WaveletCoeffNd = res_lll, *result_lst
 
     return _postprocess_coeffs(coeffs, ndim=3, ds=ds, axes=axes)
-- 
2.43.0


From 13c631fa8c24bf57338463c51c30c58bce8e98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 05/29] fix: handle inputs too small for a single level in the
 2d and 3d matrix transforms

---
 src/ptwt/matmul_transform_2.py | 4 +++-
 src/ptwt/matmul_transform_3.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 6739fc2..d22c382 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -564,7 +564,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 )
                 split_list.append(WaveletDetailTuple2d(*reshaped))
                 ll = four_split[0]
-            ll = ll.T.reshape(batch_size, size[1] // 2, size[0] // 2).transpose(2, 1)
+            # size_list ends with the shape of the remaining approximation.
+            size = self.size_list[-1]
+            ll = ll.T.reshape(batch_size, size[1], size[0]).transpose(2, 1)
 
         split_list.reverse()
         result: WaveletCoeff2d = ll, *split_list
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 3580963..57198c2 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -430,6 +430,10 @@ class MatrixWaverec3(object):
         torch_device, torch_dtype = _check_same_device_dtype(coefficients)
 
         level = len(coefficients) - 1
+        if level == 0:
+            # no transformed level, the approximation is the signal.
+            return _postprocess_tensor(coefficients[0], ndim=3, ds=ds, axes=self.axes)
+
         if type(coefficients[-1]) is dict:
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
-- 
2.43.0


From 4ba8c485de33a8515d0810e7acc670cb26a221b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 06/29] fix: support all wavelet objects for the automatic
 level of wavedec2 and wavedec3

---
 src/ptwt/conv_transform_2.py | 2 +-
 src/ptwt/conv_transform_3.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ptwt/conv_transform_2.py b/src/ptwt/conv_transform_2.py
index a0ff680..19fbfb3 100644
--- a/src/ptwt/conv_transform_2.py
+++ b/src/ptwt/conv_transform_2.py
@@ -135,7 +135,7 @@ def wavedec2(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level([data.shape[-1], data.shape[-2]], wavelet)
+        level = pywt.dwt_max_level(min(data.shape[-2:]), dec_lo.shape[-1])
 
     result_lst: list[WaveletDetailTuple2d] = []
     res_ll = data
diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index c5def7f..3e8d7f8 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -114,9 +114,7 @@ def wavedec3(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level(
-            [data.shape[-1], data.shape[-2], data.shape[-3]], wavelet
-        )
+        level = pywt.dwt_max_level(min(data.shape[-3:]), dec_lo.shape[-1])
 
     result_lst: list[WaveletDetailDict] = []
     res_lll = data
-- 
2.43.0


From 36ee815d905b604d9ededf2824ba90fdfb196575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/29] fix: use the filter length for the automatic level of
 tensor tuple wavelets

---
 src/ptwt/matmul_transform.py         | 3 ++-
 src/ptwt/matmul_transform_2.py       | 3 ++-
 src/ptwt/matmul_transform_3.py       | 3 ++-
 src/ptwt/separable_conv_transform.py | 4 ++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index f38b7d0..8ff8808 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -20,6 +20,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -398,7 +399,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         if self._infer_level or self.level is None:
             # the automatic level depends on the shape of the current input.
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(np.log2(length / (wlen - 1)))
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index d22c382..d35e3df 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -19,6 +19,7 @@ from ._util import (
     _deprecated_alias,
     _ensure_axes,
     _get_filter_tensors,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -487,7 +488,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
         if self._infer_level or self.level is None:
             # the automatic level depends on the shape of the current input.
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 57198c2..678c1d7 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -15,6 +15,7 @@ from ._util import (
     _check_same_device_dtype,
     _deprecated_alias,
     _ensure_axes,
+    _get_len,
     _is_orthogonalize_method_supported,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -226,7 +227,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
 
         if self._infer_level or self.level is None:
             # the automatic level depends on the shape of the current input.
-            wlen = len(self.wavelet)
+            wlen = _get_len(self.wavelet)
             self.level = int(
                 np.min(
                     [
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 9a14cf3..ae8f0b4 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,8 +16,8 @@ import torch
 
 from ._util import (
     AxisHint,
-    _as_wavelet,
     _check_same_device_dtype,
+    _get_len,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -138,7 +138,7 @@ def _separable_conv_wavedecn(
     approx = input
 
     if level is None:
-        wlen = len(_as_wavelet(wavelet))
+        wlen = _get_len(wavelet)
         level = int(
             min([np.log2(axis_len / (wlen - 1)) for axis_len in input.shape[1:]])
         )
-- 
2.43.0


From b355ef47730cdd6ed6caa187445c0d16307ea08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 08/29] fix: replace rows of non-square matrices in
 sparse_replace_row

---
 src/ptwt/sparse_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..a72d7f3 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -233,7 +233,7 @@ def sparse_replace_row(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From 12bb24f18736a61ac6f390fde4892281c7261424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 09/29] fix: keep the dtype in sparse_kron if a factor has no
 entries

---
 src/ptwt/sparse_math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index a72d7f3..2b0ce05 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -64,8 +64,11 @@ def sparse_kron(
     # take care of the zero case.
     if nzz_a == 0 or nzz_b == 0:
         return torch.sparse_coo_tensor(
-            torch.zeros([2, 1]),
-            torch.zeros([1]),
+            torch.zeros([2, 1], dtype=torch.int64),
+            torch.zeros(
+                [1],
+                dtype=torch.promote_types(sparse_tensor_a.dtype, sparse_tensor_b.dtype),
+            ),
             size=output_shape,
             device=sparse_tensor_a.device,
         )
-- 
2.43.0


From 30b625a6ac79cb5bb56702467f845fb3fdf8faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 10/29] fix: allow diagonals outside of the matrix in
 sparse_diag

---
 src/ptwt/sparse_math.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 2b0ce05..9833315 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -184,14 +184,10 @@ def sparse_diag(
     if col_offset < 0:
         diag_indices[0] += abs(col_offset)
 
-    if torch.max(diag_indices[0]) >= rows:
-        mask = diag_indices[0] < rows
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
-    if torch.max(diag_indices[1]) >= cols:
-        mask = diag_indices[1] < cols
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
+    # drop the values that lie outside of the matrix.
+    mask = (diag_indices[0] < rows) & (diag_indices[1] < cols)
+    diag_indices = diag_indices[:, mask]
+    diagonal = diagonal[mask]
 
     diag = torch.sparse_coo_tensor(
         diag_indices,
-- 
2.43.0


From a5a38c41abd24a383a04880caffc8a3e65078f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 11/29] fix: discard the matrices of an interrupted
 construction in the matrix transforms

---
 src/ptwt/matmul_transform.py   | 10 ++++++++--
 src/ptwt/matmul_transform_2.py | 18 ++++++++++--------
 src/ptwt/matmul_transform_3.py | 10 ++++++++--
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 8ff8808..8bc2ba5 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -316,6 +316,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         if self.level is None or self.input_length is None:
             raise AssertionError
         self.fwt_matrix_list = []
+        matrix_list: list[torch.Tensor] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -351,10 +352,12 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 device=device,
                 dtype=dtype,
             )
-            self.fwt_matrix_list.append(an)
+            matrix_list.append(an)
             curr_length = curr_length // 2
 
         self.size_list.append(curr_length)
+        # only store complete lists, an interrupted construction must start again.
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> list[torch.Tensor]:
         """Compute the matrix FWT for the given input signal.
@@ -613,6 +616,7 @@ class MatrixWaverec(object):
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
         self.ifwt_matrix_list = []
+        matrix_list: list[torch.Tensor] = []
         self.size_list = []
         self.padded = False
         if self.level is None or self.input_length is None:
@@ -647,8 +651,10 @@ class MatrixWaverec(object):
                 device=device,
                 dtype=dtype,
             )
-            self.ifwt_matrix_list.append(sn)
+            matrix_list.append(sn)
             curr_length = curr_length // 2
+        # only store complete lists, an interrupted construction must start again.
+        self.ifwt_matrix_list = matrix_list
 
     def __call__(self, coefficients: WaveletCoeff1d) -> torch.Tensor:
         """Run the synthesis or inverse matrix FWT.
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index d35e3df..3d6e033 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -393,6 +393,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
+        matrix_list: list[Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -434,9 +435,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(
-                    (analysis_matrix_rows, analysis_matrix_cols)
-                )
+                matrix_list.append((analysis_matrix_rows, analysis_matrix_cols))
             else:
                 analysis_matrix_2d = construct_boundary_a2(
                     wavelet=self.wavelet,
@@ -446,10 +445,12 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(analysis_matrix_2d)
+                matrix_list.append(analysis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
         self.size_list.append((current_height, current_width))
+        # only store complete lists, an interrupted construction must start again.
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeff2d:
         """Compute the FWT for the given input signal.
@@ -691,6 +692,7 @@ class MatrixWaverec2(object):
         dtype: torch.dtype,
     ) -> None:
         self.ifwt_matrix_list = []
+        matrix_list: list[Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]] = []
         self.padded = False
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
@@ -729,9 +731,7 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(
-                    (synthesis_matrix_rows, synthesis_matrix_cols)
-                )
+                matrix_list.append((synthesis_matrix_rows, synthesis_matrix_cols))
             else:
                 synthesis_matrix_2d = construct_boundary_s2(
                     self.wavelet,
@@ -741,9 +741,11 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(synthesis_matrix_2d)
+                matrix_list.append(synthesis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
+        # only store complete lists, an interrupted construction must start again.
+        self.ifwt_matrix_list = matrix_list
 
     def __call__(
         self,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 678c1d7..e5aa59e 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -141,6 +141,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
+        matrix_list: list[list[torch.Tensor]] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -185,7 +186,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.fwt_matrix_list.append(analysis_matrics)
+            matrix_list.append(analysis_matrics)
 
             current_depth, current_height, current_width = (
                 current_depth // 2,
@@ -193,6 +194,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 current_width // 2,
             )
         self.size_list.append((current_depth, current_height, current_width))
+        # only store complete lists, an interrupted construction must start again.
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeffNd:
         """Compute a separable 3d FWT using boundary wavelets.
@@ -349,6 +352,7 @@ class MatrixWaverec3(object):
         dtype: torch.dtype,
     ) -> None:
         self.ifwt_matrix_list = []
+        matrix_list: list[list[torch.Tensor]] = []
         self.padded = False
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
@@ -391,12 +395,14 @@ class MatrixWaverec3(object):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.ifwt_matrix_list.append(synthesis_matrices)
+            matrix_list.append(synthesis_matrices)
             current_depth, current_height, current_width = (
                 current_depth // 2,
                 current_height // 2,
                 current_width // 2,
             )
+        # only store complete lists, an interrupted construction must start again.
+        self.ifwt_matrix_list = matrix_list
 
     def _cat_coeff_recursive(self, input_dict: WaveletDetailDict) -> torch.Tensor:
         done_dict = {}
-- 
2.43.0


From 2bb311dace52a070b75af23e79613b8dd2f80899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 12/29] fix: reject detail coefficient tuples of wrong length
 independently of the input shape

---
 src/ptwt/_util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index ae58976..e818750 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -407,7 +407,8 @@ def _coeff_tree_map(
     https://jax.readthedocs.io/en/latest/working-with-pytrees.html
 
     Raises:
-        ValueError: If the input type is not supported.
+        ValueError: If the input type is not supported or if a tuple
+            of detail coefficients does not contain three elements.
     """
     approx = function(coeffs[0])
     result_lst: list[
@@ -419,6 +420,11 @@ def _coeff_tree_map(
     ] = []
     for element in coeffs[1:]:
         if isinstance(element, tuple):
+            if len(element) != 3:
+                raise ValueError(
+                    f"Unexpected tuple length {len(element)}, detail coefficient "
+                    "tuples must contain 3 tensors."
+                )
             result_lst.append(
                 WaveletDetailTuple2d(
                     function(element[0]),
-- 
2.43.0


From ae60d04e6f4e9d843983ed0e7a57b9250b8564e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 13/29] fix: reject inconsistent coefficient sizes in
 MatrixWaverec3

---
 src/ptwt/matmul_transform_3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index e5aa59e..c3dd002 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -490,6 +490,17 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
+            # only the padding of a previous level may be cropped below.
+            max_crop = 0 if c_pos == 0 else 1
+            detail_shape = coeff_dict["ddd"].shape
+            if lll.shape[0] != detail_shape[0] or not all(
+                0 <= size - detail_size <= max_crop
+                for size, detail_size in zip(lll.shape[1:], detail_shape[1:])
+            ):
+                raise ValueError(
+                    "All coefficients on each level must have the same shape"
+                )
+
             # do not write into the dictionaries provided by the caller.
             lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
-- 
2.43.0


From b39fc6f90486844425e419658ee1c8fac35bbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 14/29] fix: reject inconsistent coefficient sizes in
 fswaverec2 and fswaverec3

---
 src/ptwt/separable_conv_transform.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index ae8f0b4..327d85f 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -177,8 +177,22 @@ def _separable_conv_waverecn(
         raise ValueError("All entries after approximation tensor must be dicts.")
 
     approx: torch.Tensor = coeffs[0]
-    for level_dict in coeffs[1:]:
+    for c_pos, level_dict in enumerate(coeffs[1:]):
         keys = list(level_dict.keys())
+        # only the padding of a previous level may be cropped below.
+        max_crop = 0 if c_pos == 0 else 1
+        for coeff in level_dict.values():
+            if (
+                coeff.shape != level_dict[keys[0]].shape
+                or approx.shape[0] != coeff.shape[0]
+                or not all(
+                    0 <= size - detail_size <= max_crop
+                    for size, detail_size in zip(approx.shape[1:], coeff.shape[1:])
+                )
+            ):
+                raise ValueError(
+                    "All coefficients on each level must have the same shape"
+                )
         # do not write into the dictionaries provided by the caller.
         all_coeffs = {**level_dict, "a" * max(map(len, keys)): approx}
         approx = _separable_conv_idwtn(all_coeffs, wavelet)
-- 
2.43.0


From fb084eb3eb6a211be8d88837f3116ae75bb0ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 15/29] fix: orthogonalize rows by qr if the last row is
 complete or the matrix is not square

---
 src/ptwt/sparse_math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 9833315..59a5ac9 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -275,6 +275,7 @@ def _orth_by_qr(
     selection_matrix = torch.sparse_coo_tensor(
         selection_indices,
         torch.ones_like(rows_to_orthogonalize),
+        size=(len(rows_to_orthogonalize), matrix.shape[0]),
         dtype=matrix.dtype,
         device=matrix.device,
     )
@@ -289,7 +290,7 @@ def _orth_by_qr(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From 65ccef4b2c5736ab7e0eb3559f00582d81db7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 16/29] fix: pad the low-pass filter in its own dtype in
 rec_lo_orthogonality_loss

---
 src/ptwt/wavelets_learnable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/wavelets_learnable.py b/src/ptwt/wavelets_learnable.py
index 2aaad82..2c4feea 100644
--- a/src/ptwt/wavelets_learnable.py
+++ b/src/ptwt/wavelets_learnable.py
@@ -240,6 +240,7 @@ class SoftOrthogonalWavelet(ProductFilter, torch.nn.Module):
                         filt_len,
                     ],
                     device=self.dec_lo.device,
+                    dtype=self.dec_lo.dtype,
                 ),
             ],
             -1,
-- 
2.43.0


From dc61664b95d730ed79facb88d090c317ec236192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 17/29] fix: build the stored transform matrices outside of
 inference mode

---
 src/ptwt/_util.py              | 17 +++++++++++++++++
 src/ptwt/matmul_transform.py   |  3 +++
 src/ptwt/matmul_transform_2.py |  3 +++
 src/ptwt/matmul_transform_3.py |  3 +++
 4 files changed, 26 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index e818750..e6da991 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -753,6 +753,23 @@ Param = ParamSpec("Param")
 RetType = TypeVar("RetType")
 
 
+def _outside_inference_mode(f: Callable[Param, RetType]) -> Callable[Param, RetType]:
+    """Leave the inference mode while calling the decorated function.
+
+    Tensors created in inference mode can not be used for gradient computations
+    later on. Functions which store tensors for later calls need this decorator.
+    """
+
+    @functools.wraps(f)
+    def wrapper(*args: Param.args, **kwargs: Param.kwargs) -> RetType:
+        if not torch.is_inference_mode_enabled():
+            return f(*args, **kwargs)
+        with torch.inference_mode(False), torch.no_grad():
+            return f(*args, **kwargs)
+
+    return wrapper
+
+
 def _deprecated_alias(
     **aliases: str,
 ) -> Callable[[Callable[Param, RetType]], Callable[Param, RetType]]:
diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 8bc2ba5..88e99a8 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -22,6 +22,7 @@ from ._util import (
     _get_filter_tensors,
     _get_len,
     _is_orthogonalize_method_supported,
+    _outside_inference_mode,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -310,6 +311,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_analysis_matrices(
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
@@ -612,6 +614,7 @@ class MatrixWaverec(object):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_synthesis_matrices(
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 3d6e033..16cd6ca 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -21,6 +21,7 @@ from ._util import (
     _get_filter_tensors,
     _get_len,
     _is_orthogonalize_method_supported,
+    _outside_inference_mode,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -385,6 +386,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_analysis_matrices(
         self,
         device: Union[torch.device, str],
@@ -686,6 +688,7 @@ class MatrixWaverec2(object):
                 "level."
             )
 
+    @_outside_inference_mode
     def _construct_synthesis_matrices(
         self,
         device: Union[torch.device, str],
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c3dd002..c937679 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -17,6 +17,7 @@ from ._util import (
     _ensure_axes,
     _get_len,
     _is_orthogonalize_method_supported,
+    _outside_inference_mode,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -133,6 +134,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @_outside_inference_mode
     def _construct_analysis_matrices(
         self,
         device: Union[torch.device, str],
@@ -346,6 +348,7 @@ class MatrixWaverec3(object):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @_outside_inference_mode
     def _construct_synthesis_matrices(
         self,
         device: Union[torch.device, str],
-- 
2.43.0


From eceac998966e495f9a0bc2ab10aad41e22745d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 18/29] fix: drop the stored transform matrices before
 recording the new input shape

---
 src/ptwt/matmul_transform.py   | 4 ++++
 src/ptwt/matmul_transform_2.py | 5 +++++
 src/ptwt/matmul_transform_3.py | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 88e99a8..d702e81 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -399,6 +399,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         re_build = False
         if self.input_length != length:
+            self.fwt_matrix_list = []
             self.input_length = length
             re_build = True
 
@@ -410,6 +411,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             raise ValueError("level must be a positive integer.")
 
         if self._matrix_device_dtype != (input_signal.device, input_signal.dtype):
+            self.fwt_matrix_list = []
             # cached matrices from another device or with another precision.
             self._matrix_device_dtype = (input_signal.device, input_signal.dtype)
             re_build = True
@@ -684,11 +686,13 @@ class MatrixWaverec(object):
 
         re_build = False
         if self.level != level or self.input_length != input_length:
+            self.ifwt_matrix_list = []
             self.level = level
             self.input_length = input_length
             re_build = True
 
         if self._matrix_device_dtype != (torch_device, torch_dtype):
+            self.ifwt_matrix_list = []
             # cached matrices from another device or with another precision.
             self._matrix_device_dtype = (torch_device, torch_dtype)
             re_build = True
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 16cd6ca..67d669a 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -486,6 +486,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             or self.input_signal_shape[0] != height
             or self.input_signal_shape[1] != width
         ):
+            self.fwt_matrix_list = []
             self.input_signal_shape = height, width
             re_build = True
 
@@ -499,6 +500,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             raise ValueError("level must be a positive integer.")
 
         if self._matrix_device_dtype != (input_signal.device, input_signal.dtype):
+            self.fwt_matrix_list = []
             # cached matrices from another device or with another precision.
             self._matrix_device_dtype = (input_signal.device, input_signal.dtype)
             re_build = True
@@ -782,14 +784,17 @@ class MatrixWaverec2(object):
             or self.input_signal_shape[0] != height
             or self.input_signal_shape[1] != width
         ):
+            self.ifwt_matrix_list = []
             self.input_signal_shape = height, width
             re_build = True
 
         if self.level != level:
+            self.ifwt_matrix_list = []
             self.level = level
             re_build = True
 
         if self._matrix_device_dtype != (torch_device, torch_dtype):
+            self.ifwt_matrix_list = []
             # cached matrices from another device or with another precision.
             self._matrix_device_dtype = (torch_device, torch_dtype)
             re_build = True
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c937679..e052397 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -227,6 +227,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             or self.input_signal_shape[1] != height
             or self.input_signal_shape[2] != width
         ):
+            self.fwt_matrix_list = []
             self.input_signal_shape = depth, height, width
             re_build = True
 
@@ -246,6 +247,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             raise ValueError("level must be a positive integer.")
 
         if self._matrix_device_dtype != (input_signal.device, input_signal.dtype):
+            self.fwt_matrix_list = []
             # cached matrices from another device or with another precision.
             self._matrix_device_dtype = (input_signal.device, input_signal.dtype)
             re_build = True
@@ -458,14 +460,17 @@ class MatrixWaverec3(object):
             or self.input_signal_shape[1] != height
             or self.input_signal_shape[2] != width
         ):
+            self.ifwt_matrix_list = []
             self.input_signal_shape = depth, height, width
             re_build = True
 
         if self.level != level:
+            self.ifwt_matrix_list = []
             self.level = level
             re_build = True
 
         if self._matrix_device_dtype != (torch_device, torch_dtype):
+            self.ifwt_matrix_list = []
             # cached matrices from another device or with another precision.
             self._matrix_device_dtype = (torch_device, torch_dtype)
             re_build = True
-- 
2.43.0


From fa7682ed26528b9d6ba9542854ae934d23212cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 19/29] fix: keep the number of columns when a matrix meets an
 empty batch

---
 src/ptwt/matmul_transform_2.py | 12 ++++++------
 src/ptwt/sparse_math.py        | 10 +++++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 67d669a..8935c9a 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -541,7 +541,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
                 split_list.append(WaveletDetailTuple2d(lh, hl, hh))
         else:
-            ll = input_signal.transpose(-2, -1).reshape([batch_size, -1]).T
+            ll = input_signal.transpose(-2, -1).flatten(1).T
             for scale, fwt_matrix in enumerate(self.fwt_matrix_list):
                 fwt_matrix = cast(torch.Tensor, fwt_matrix)
                 pad = self.pad_list[scale]
@@ -551,7 +551,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                         batch_size, size[1] - int(pad[0]), size[0] - int(pad[1])
                     ).transpose(2, 1)
                     ll_reshape = _add_padding(ll_reshape, pad)
-                    ll = ll_reshape.transpose(2, 1).reshape([batch_size, -1]).T
+                    ll = ll_reshape.transpose(2, 1).flatten(1).T
                 coefficients = torch.sparse.mm(fwt_matrix, ll)
                 # get the ll,
                 four_split = torch.split(
@@ -840,10 +840,10 @@ class MatrixWaverec2(object):
             else:
                 ll = torch.cat(
                     [
-                        ll.transpose(2, 1).reshape([batch_size, -1]),
-                        lh.transpose(2, 1).reshape([batch_size, -1]),
-                        hl.transpose(2, 1).reshape([batch_size, -1]),
-                        hh.transpose(2, 1).reshape([batch_size, -1]),
+                        ll.transpose(2, 1).flatten(1),
+                        lh.transpose(2, 1).flatten(1),
+                        hl.transpose(2, 1).flatten(1),
+                        hh.transpose(2, 1).flatten(1),
                     ],
                     -1,
                 )
diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 59a5ac9..62e1db3 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -604,13 +604,17 @@ def batch_mm(matrix: torch.Tensor, matrix_batch: torch.Tensor) -> torch.Tensor:
         ValueError: If the matrices cannot be multiplied due to incompatible matrix
             shapes.
     """
-    batch_size = matrix_batch.shape[0]
+    batch_size, _, columns = matrix_batch.shape
     if matrix.shape[1] != matrix_batch.shape[1]:
         raise ValueError("Matrix shapes not compatible.")
 
     # Stack the vector batch into columns. (b, n, k) -> (n, b, k) -> (n, b*k)
-    vectors = matrix_batch.transpose(0, 1).reshape(matrix.shape[1], -1)
-    return matrix.mm(vectors).reshape(matrix.shape[0], batch_size, -1).transpose(1, 0)
+    vectors = matrix_batch.transpose(0, 1).flatten(1)
+    return (
+        matrix.mm(vectors)
+        .reshape(matrix.shape[0], batch_size, columns)
+        .transpose(1, 0)
+    )
 
 
 def _batch_dim_mm(
-- 
2.43.0


From 03df7616bf2ca2fd9962f7d03cb3d5dac1a86416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:36 +0000
Subject: [PATCH 20/29] fix: reject inconsistent packet leaves also when Python
 runs with -O

---
 src/ptwt/packets.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a4dceb6..238f6d5 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -228,9 +228,10 @@ class WaveletPacket(BaseDict):
                 rec = self._get_waverec(data_a.shape[self.axis])([data_a, data_d])
                 if level > 0:
                     if rec.shape[self.axis] != self[node].shape[self.axis]:
-                        assert (
-                            rec.shape[self.axis] == self[node].shape[self.axis] + 1
-                        ), "padding error, please open an issue on github"
+                        if rec.shape[self.axis] != self[node].shape[self.axis] + 1:
+                            raise AssertionError(
+                                "padding error, please open an issue on github"
+                            )
                         rec = rec.swapaxes(self.axis, -1)[..., :-1].swapaxes(
                             -1, self.axis
                         )
@@ -512,14 +513,16 @@ class WaveletPacket2D(BaseDict):
                     rec = _swap_axes(rec, self.axes)
                     swapped_node = _swap_axes(self[node], self.axes)
                     if rec.shape[-1] != swapped_node.shape[-1]:
-                        assert (
-                            rec.shape[-1] == swapped_node.shape[-1] + 1
-                        ), "padding error, please open an issue on GitHub"
+                        if rec.shape[-1] != swapped_node.shape[-1] + 1:
+                            raise AssertionError(
+                                "padding error, please open an issue on GitHub"
+                            )
                         rec = rec[..., :-1]
                     if rec.shape[-2] != swapped_node.shape[-2]:
-                        assert (
-                            rec.shape[-2] == swapped_node.shape[-2] + 1
-                        ), "padding error, please open an issue on GitHub"
+                        if rec.shape[-2] != swapped_node.shape[-2] + 1:
+                            raise AssertionError(
+                                "padding error, please open an issue on GitHub"
+                            )
                         rec = rec[..., :-1, :]
                     rec = _undo_swap_axes(rec, self.axes)
                 self[node] = rec
-- 
2.43.0


From 5a50deae20c13d014976c026b27476b8d82047f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 21/29] fix: keep type and parameters of differentiable
 continuous wavelets when they are copied

---
 src/ptwt/continuous_transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index 9bceb7c..1558aab 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -252,6 +252,10 @@ class _DifferentiableContinuousWavelet(
             requires_grad=True,
         )
 
+    def __reduce__(self) -> tuple[Any, ...]:
+        """Copy and pickle the parameters, pywt only knows about the name."""
+        return type(self), (self.name,), self.__dict__
+
     def __call__(self, grid_values: torch.Tensor) -> torch.Tensor:
         """Return numerical values for the wavelet on a grid.
 
-- 
2.43.0


From d8302ce13fa5c695d520cf2c1f6f0ca11280156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 22/29] fix: list the root as the 2d packet node of level zero
 in frequency order

---
 src/ptwt/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index 238f6d5..c1cf8d6 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -745,7 +745,7 @@ class WaveletPacket2D(BaseDict):
         wp_natural_path = product(["a", "h", "v", "d"], repeat=level)
 
         def _get_graycode_order(level: int, x: str = "a", y: str = "d") -> list[str]:
-            graycode_order = [x, y]
+            graycode_order = [x, y] if level > 0 else [""]
             for _ in range(level - 1):
                 graycode_order = [x + path for path in graycode_order] + [
                     y + path for path in graycode_order[::-1]
-- 
2.43.0


From ae15cd14a2bb43406b122fee24f8e5905938c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 23/29] fix: keep the nodes of a packet tree if transform
 rejects its data

---
 src/ptwt/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index c1cf8d6..466d516 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -170,9 +170,9 @@ class WaveletPacket(BaseDict):
         Returns:
             This wavelet packet object (to allow call chaining).
         """
-        self.data = {"": data}
         if maxlevel is None:
             maxlevel = pywt.dwt_max_level(data.shape[self.axis], self.wavelet.dec_len)
+        self.data = {"": data}
         self.maxlevel = maxlevel
         return self
 
@@ -459,10 +459,10 @@ class WaveletPacket2D(BaseDict):
         Returns:
             This wavelet packet object (to allow call chaining).
         """
-        self.data = {"": data}
         if maxlevel is None:
             min_transform_size = min(_swap_axes(data, self.axes).shape[-2:])
             maxlevel = pywt.dwt_max_level(min_transform_size, self.wavelet.dec_len)
+        self.data = {"": data}
         self.maxlevel = maxlevel
 
         return self
-- 
2.43.0


From d007f6fd9c51d3cebee99af65128cbea3a56bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 24/29] fix: keep integer indices in cat_sparse_identity_matrix

Indices computed in the dtype of the matrix lose precision beyond 2^24 in
float32, which repeated some diagonal entries and left out others.
---
 src/ptwt/sparse_math.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 62e1db3..e5631c1 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -131,13 +131,11 @@ def cat_sparse_identity_matrix(
     x = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
         device=sparse_matrix.device,
     )
     y = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
         device=sparse_matrix.device,
     )
     extra_indices = torch.stack([x, y])
-- 
2.43.0


From d374109e60c9eb1874621eb3fa62d2d059feb65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 25/29] fix: slice the coefficients of the compression example
 correctly

WaveletReconstruction1D started each slice at the length of a band instead of
the end of the previous slice, so more than two bands did not reconstruct.
---
 examples/network_compression/wavelet_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/network_compression/wavelet_linear.py b/examples/network_compression/wavelet_linear.py
index 9403118..8c4fccc 100644
--- a/examples/network_compression/wavelet_linear.py
+++ b/examples/network_compression/wavelet_linear.py
@@ -146,6 +146,6 @@ class WaveletReconstruction1D(torch.nn.Module):
         for s in range(self.scales + 1):
             stop = start + self.coefficient_lengths[::-1][s]
             coeff_lst.append(x[..., start:stop])
-            start = self.coefficient_lengths[s]
+            start = stop
         y = waverec(coeff_lst, self.wavelet)
         return y
-- 
2.43.0


From fb2a098c27f3f805c29d24336a0d8f1e47547544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 26/29] fix: let the mnist example run without compression

With --compression None the network has no wavelet to show.
---
 examples/network_compression/mnist_compression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/network_compression/mnist_compression.py b/examples/network_compression/mnist_compression.py
index cc98471..e698bd5 100644
--- a/examples/network_compression/mnist_compression.py
+++ b/examples/network_compression/mnist_compression.py
@@ -57,6 +57,7 @@ class Net(nn.Module):
         self.log_softmax = torch.nn.LogSoftmax(dim=1)
         self.flatten = torch.nn.Flatten(start_dim=1)
         self.relu = torch.nn.ReLU()
+        self.wavelet = wavelet
 
         if compression == "None":
             fc1 = torch.nn.Linear(4 * 4 * 50, 500)
@@ -76,7 +77,6 @@ class Net(nn.Module):
             )
         elif compression == "Wavelet":
             assert wavelet is not None, "initial wavelet must be set."
-            self.wavelet = wavelet
             fc1 = WaveletLayer(
                 init_wavelet=wavelet, scales=6, depth=800, p_drop=wave_dropout
             )
@@ -340,6 +340,9 @@ def main():
     # plt.legend(['wavlet loss', 'accuracy'])
     # plt.show()
 
+    if model.wavelet is None:
+        return
+
     plt.plot(model.wavelet.filter_bank.dec_lo.detach().cpu().numpy(), "-*")
     plt.plot(model.wavelet.filter_bank.dec_hi.detach().cpu().numpy(), "-*")
     plt.plot(model.wavelet.filter_bank.rec_lo.detach().cpu().numpy(), "-*")
-- 
2.43.0


From 5e675d1903d265f8ef467a9a5459e0fc474220da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:34 +0000
Subject: [PATCH 27/29] fix: reject filter banks of unequal lengths in the
 matrix classes

All six classes document a ValueError if the wavelet filters have
different lengths, but compared the length of the first decomposition
filter to that of the first reconstruction filter only. A bank whose
high-pass filters are shorter or longer gave a result.
---
 src/ptwt/matmul_transform.py   | 4 ++--
 src/ptwt/matmul_transform_2.py | 4 ++--
 src/ptwt/matmul_transform_3.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index d702e81..6324e0b 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -266,7 +266,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
 
-        if self.wavelet.dec_len != self.wavelet.rec_len:
+        if len(set(map(len, self.wavelet.filter_bank))) != 1:
             raise ValueError("All filters must have the same length")
 
     @property
@@ -569,7 +569,7 @@ class MatrixWaverec(object):
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
 
-        if self.wavelet.dec_len != self.wavelet.rec_len:
+        if len(set(map(len, self.wavelet.filter_bank))) != 1:
             raise ValueError("All filters must have the same length")
 
     @property
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 8935c9a..0eec143 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -344,7 +344,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
 
-        if self.wavelet.dec_len != self.wavelet.rec_len:
+        if len(set(map(len, self.wavelet.filter_bank))) != 1:
             raise ValueError("All filters must have the same length")
 
     @property
@@ -649,7 +649,7 @@ class MatrixWaverec2(object):
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
 
-        if self.wavelet.dec_len != self.wavelet.rec_len:
+        if len(set(map(len, self.wavelet.filter_bank))) != 1:
             raise ValueError("All filters must have the same length")
 
     @property
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index e052397..5b700df 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -131,7 +131,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
-        if self.wavelet.dec_len != self.wavelet.rec_len:
+        if len(set(map(len, self.wavelet.filter_bank))) != 1:
             raise ValueError("All filters must have the same length")
 
     @_outside_inference_mode
@@ -347,7 +347,7 @@ class MatrixWaverec3(object):
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
 
-        if self.wavelet.dec_len != self.wavelet.rec_len:
+        if len(set(map(len, self.wavelet.filter_bank))) != 1:
             raise ValueError("All filters must have the same length")
 
     @_outside_inference_mode
-- 
2.43.0


From 5e02f00705ea9fa65204d5e870c75b11e4bfc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:26 +0000
Subject: [PATCH 28/29] Revert "fix: let the mnist example run without
 compression"

This reverts commit fb2a098c27f3f805c29d24336a0d8f1e47547544.
---
 examples/network_compression/mnist_compression.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/examples/network_compression/mnist_compression.py b/examples/network_compression/mnist_compression.py
index e698bd5..cc98471 100644
--- a/examples/network_compression/mnist_compression.py
+++ b/examples/network_compression/mnist_compression.py
@@ -57,7 +57,6 @@ class Net(nn.Module):
         self.log_softmax = torch.nn.LogSoftmax(dim=1)
         self.flatten = torch.nn.Flatten(start_dim=1)
         self.relu = torch.nn.ReLU()
-        self.wavelet = wavelet
 
         if compression == "None":
             fc1 = torch.nn.Linear(4 * 4 * 50, 500)
@@ -77,6 +76,7 @@ class Net(nn.Module):
             )
         elif compression == "Wavelet":
             assert wavelet is not None, "initial wavelet must be set."
+            self.wavelet = wavelet
             fc1 = WaveletLayer(
                 init_wavelet=wavelet, scales=6, depth=800, p_drop=wave_dropout
             )
@@ -340,9 +340,6 @@ def main():
     # plt.legend(['wavlet loss', 'accuracy'])
     # plt.show()
 
-    if model.wavelet is None:
-        return
-
     plt.plot(model.wavelet.filter_bank.dec_lo.detach().cpu().numpy(), "-*")
     plt.plot(model.wavelet.filter_bank.dec_hi.detach().cpu().numpy(), "-*")
     plt.plot(model.wavelet.filter_bank.rec_lo.detach().cpu().numpy(), "-*")
-- 
2.43.0


From 7c8da758a63b8cbebb695fbee45c0585eb47e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:26 +0000
Subject: [PATCH 29/29] Revert "fix: slice the coefficients of the compression
 example correctly"

This reverts commit d374109e60c9eb1874621eb3fa62d2d059feb65f.
---
 examples/network_compression/wavelet_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/network_compression/wavelet_linear.py b/examples/network_compression/wavelet_linear.py
index 8c4fccc..9403118 100644
--- a/examples/network_compression/wavelet_linear.py
+++ b/examples/network_compression/wavelet_linear.py
@@ -146,6 +146,6 @@ class WaveletReconstruction1D(torch.nn.Module):
         for s in range(self.scales + 1):
             stop = start + self.coefficient_lengths[::-1][s]
             coeff_lst.append(x[..., start:stop])
-            start = stop
+            start = self.coefficient_lengths[s]
         y = waverec(coeff_lst, self.wavelet)
         return y
-- 
2.43.0

