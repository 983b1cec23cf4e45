From 85ba9a61bc2f9c63d7bcb05c33d2486ac53c5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:33 +0000
Subject: [PATCH 01/16] fix: pairwise_distances(x, y) returned the transposed
 matrix

The generic implementation put x along the columns, so the (i, j) entry was
the distance between x[j] and y[i] and the shape was (l, n) instead of the
documented (n, l).
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From 99e6e0b6f4b25dc7b09221f6da02b04644f19f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:38 +0000
Subject: [PATCH 02/16] fix: use double precision distances for every integer
 dtype

_can_be_numpy_double compared the array-api-compat namespace with the numpy
module itself, so it was never true: distances between integers were computed
in the integer dtype and wrapped around (silently wrong for int8, uint8, ...).
Unsigned integers convert to double as safely as signed ones.
---
 dcor/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 4d41b8c..2e6ae64 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -153,7 +153,7 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
     converted to double (if the roundtrip conversion works).
 
     """
-    if array_namespace(x) != np:
+    if array_namespace(x) != numpy_namespace:
         return False
 
     return (
@@ -161,7 +161,7 @@ def _can_be_numpy_double(x: ArrayType) -> bool:
             np.issubdtype(x.dtype, np.floating)
             and x.dtype.itemsize <= np.dtype(float).itemsize
         ) or (
-            np.issubdtype(x.dtype, np.signedinteger)
+            np.issubdtype(x.dtype, np.integer)
             and np.can_cast(x, float)
         )
     )
-- 
2.43.0


From a935349724215863e44f534d2b0b0d73b5fa95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 03/16] fix: integer samples overflowed in the fast algorithms

---
 dcor/_fast_dcov_avl.py       | 4 +++-
 dcor/_fast_dcov_mergesort.py | 4 +++-
 dcor/_utils.py               | 9 +++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..aed2f3a 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -29,7 +29,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _integer_to_double, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -535,6 +535,8 @@ def _distance_covariance_sqr_terms_avl(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    x, y = _integer_to_double(x, y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..d469260 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -27,7 +27,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _integer_to_double, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -394,6 +394,8 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    x, y = _integer_to_double(x, y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_utils.py b/dcor/_utils.py
index 2e6ae64..3716ac9 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -144,6 +144,15 @@ def _transform_to_2d(*args: T) -> Iterable[T]:
         yield array
 
 
+def _integer_to_double(*args: T) -> Iterable[T]:
+    """Convert NumPy integer arrays to double, to prevent overflows."""
+    for array in args:
+        if np.issubdtype(array.dtype, np.integer):
+            array = array.astype(np.float64)
+
+        yield array
+
+
 def _can_be_numpy_double(x: ArrayType) -> bool:
     """
     Return if the array can be safely converted to double.
-- 
2.43.0


From e7848c2bf4c64b4e7a3f63087b6922952e29f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 04/16] fix: mergesort rounded the partial sums to the type of
 y

---
 dcor/_fast_dcov_mergesort.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index d469260..85ce429 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -44,7 +44,10 @@ def _compute_weight_sums(
 
     n_samples = y.shape[0]
 
-    weight_sums = np.zeros(weights.shape[1:] + (n_samples,), dtype=y.dtype)
+    weight_sums = np.zeros(
+        weights.shape[1:] + (n_samples,),
+        dtype=weights.dtype,
+    )
 
     # Buffer that contains the indexes of the current and
     # last iterations
-- 
2.43.0


From e1107a6c6006d6e3d18247645d068377d3f5a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 05/16] fix: mergesort accepted samples of different length

---
 dcor/_fast_dcov_mergesort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 85ce429..6936936 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -19,6 +19,7 @@ import numpy as np
 from numba import boolean, float64
 from numba.types import Tuple as NumbaTuple
 
+from ._dcor_internals import _check_same_n_elements
 from ._dcor_internals_numba import (
     NumbaMatrix,
     NumbaMatrixReadOnly,
@@ -397,6 +398,8 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    _check_same_n_elements(x, y)
+
     x, y = _integer_to_double(x, y)
 
     if compile_mode not in impls_dict:
-- 
2.43.0


From 9933e750e3d3c13869225196e75a21c00d4733d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:18 +0000
Subject: [PATCH 06/16] fix: catastrophic cancellation in the fast algorithms

---
 dcor/_fast_dcov_avl.py       | 6 ++++++
 dcor/_fast_dcov_mergesort.py | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index aed2f3a..ac6bd18 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -210,6 +210,12 @@ def _get_impl_args(
     n = x.shape[0]
     assert n > 3
     assert n == y.shape[0]
+
+    # The distances do not depend on the location. Moving the samples near
+    # the origin prevents catastrophic cancellation.
+    x = x - np.min(x)
+    y = y - np.min(y)
+
     temp = np.arange(n)
 
     argsort_x = np.argsort(x)
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 6936936..6edb480 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -222,8 +222,10 @@ def _generate_distance_covariance_sqr_terms_mergesort_impl(
         return_var_terms: bool = False,
     ) -> Any:
 
-        x = np.ascontiguousarray(x)
-        y = np.ascontiguousarray(y)
+        # The distances do not depend on the location. Moving the samples near
+        # the origin prevents catastrophic cancellation.
+        x = np.ascontiguousarray(x) - np.min(x)
+        y = np.ascontiguousarray(y) - np.min(y)
 
         compute_aijbij_term = (
             _compute_aijbij_term_compiled
-- 
2.43.0


From 243732ad6d0a7ed3c1d3a76a697540121aa21685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:18 +0000
Subject: [PATCH 07/16] fix: rowwise failed for integer and object samples

---
 dcor/_fast_dcov_avl.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index ac6bd18..ee178ad 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -636,11 +636,18 @@ def _rowwise_distance_covariance_sqr_avl_generic(
         assert y.shape[2] == 1
         y = y[..., 0]
 
-    res = np.zeros(x.shape[0], dtype=x.dtype)
-
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
 
+    # The optimized implementations compute everything in double precision.
+    if not (
+        np.can_cast(x.dtype, np.float64, casting="same_kind")
+        and np.can_cast(y.dtype, np.float64, casting="same_kind")
+    ):
+        return NotImplemented
+
+    res = np.zeros(x.shape[0], dtype=np.float64)
+
     impl = rowwise_impls_dict[compile_mode]
 
     impl(x, y, unbiased, res)
-- 
2.43.0


From 0fa166f998783521c2da6ef1bd19356cd36804ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:18 +0000
Subject: [PATCH 08/16] fix: reshape to a tuple, as the array API requires

---
 dcor/_energy.py | 4 ++--
 dcor/_utils.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
diff --git a/dcor/_utils.py b/dcor/_utils.py
index 3716ac9..02ad480 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -123,7 +123,7 @@ def _transform_to_1d(*args: T) -> Iterable[T]:
 
         if dim == 2:
             assert array.shape[1] == 1
-            array = xp.reshape(array, -1)
+            array = xp.reshape(array, (-1,))
 
         yield array
 
-- 
2.43.0


From cad0cc56004be62017f504fd0877a551e2e45074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:46 +0000
Subject: [PATCH 09/16] fix: rowwise correlations of vectors with columns
 raised

The rows were concatenated, which fails if those of x and y do not have
the same shape, even in cases without an optimized implementation.
---
 dcor/_rowwise.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..040e125 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -59,18 +59,13 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
         cov_fun = (_dcor.u_distance_covariance_sqr if unbiased
                    else _dcor.distance_covariance_sqr)
 
-        n_comps = len(x)
-
-        concat_x = np.concatenate((x, x, y))
-        concat_y = np.concatenate((y, x, y))
-
-        res_covs = cov_fun.rowwise_function(concat_x, concat_y, **kwargs)
-        if res_covs is NotImplemented:
+        # The rows of x and y may have different shapes (vectors and columns).
+        cov = cov_fun.rowwise_function(x, y, **kwargs)
+        if cov is NotImplemented:
             return NotImplemented
 
-        cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_std = _sqrt(cov_fun.rowwise_function(x, x, **kwargs))
+        y_std = _sqrt(cov_fun.rowwise_function(y, y, **kwargs))
 
         with np.errstate(divide='ignore', invalid='ignore'):
             corr_sqr = cov / x_std / y_std
-- 
2.43.0


From 2d4bb33d038bac441538f57ac44f1e88c59bf8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 10/16] fix: rowwise correlation was infinite for a rounded
 null variance

---
 dcor/_rowwise.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index 040e125..ba5622b 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -64,13 +64,15 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
         if cov is NotImplemented:
             return NotImplemented
 
-        x_std = _sqrt(cov_fun.rowwise_function(x, x, **kwargs))
-        y_std = _sqrt(cov_fun.rowwise_function(y, y, **kwargs))
+        x_var = cov_fun.rowwise_function(x, x, **kwargs)
+        y_var = cov_fun.rowwise_function(y, y, **kwargs)
+        # Rounding can make a null variance negative.
+        denominator = _sqrt(np.abs(x_var * y_var))
 
         with np.errstate(divide='ignore', invalid='ignore'):
-            corr_sqr = cov / x_std / y_std
+            corr_sqr = cov / denominator
 
-        corr_sqr[np.isnan(corr_sqr)] = 0
+        corr_sqr[denominator == 0] = 0
 
         return corr_sqr
 
-- 
2.43.0


From c9f486651b9fc86b8c66e0a04243a0771cd7e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:45 +0000
Subject: [PATCH 11/16] fix: partial measures accepted a sample with a single
 observation

The matrices were broadcast, and a value was returned, instead of raising
as for any other difference in the number of observations.
---
 dcor/_partial_dcor.py | 7 +++++++
 dcor/independence.py  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index e9b58f4..792c255 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -6,6 +6,7 @@ from typing import TypeVar
 import numpy as np
 
 from ._dcor_internals import (
+    _check_same_n_elements,
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
@@ -78,6 +79,9 @@ def partial_distance_covariance(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
@@ -146,6 +150,9 @@ def partial_distance_correlation(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
diff --git a/dcor/independence.py b/dcor/independence.py
index 36fb521..7901791 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -209,6 +209,9 @@ def partial_distance_covariance_test(
         True
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     random_state = _random_state_init(random_state)
 
     # Compute U-centered matrices
-- 
2.43.0


From 8af771bc031e2805dfbab8194591add17fb83ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:03 +0000
Subject: [PATCH 12/16] fix: products of integer matrices overflowed

---
 dcor/_dcor_internals.py | 12 +++++++++++-
 dcor/_utils.py          |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/dcor/_dcor_internals.py b/dcor/_dcor_internals.py
index d8f5fd7..62f25ac 100644
--- a/dcor/_dcor_internals.py
+++ b/dcor/_dcor_internals.py
@@ -10,7 +10,13 @@ import warnings
 from typing import Callable, Literal, Protocol, Tuple, TypeVar, overload
 
 from . import distances
-from ._utils import ArrayType, CompileMode, _transform_to_2d, array_namespace
+from ._utils import (
+    ArrayType,
+    CompileMode,
+    _integer_to_double,
+    _transform_to_2d,
+    array_namespace,
+)
 
 Array = TypeVar("Array", bound=ArrayType)
 
@@ -385,6 +391,8 @@ def mean_product(a: Array, b: Array) -> Array:
         2.5
 
     """
+    a, b = _integer_to_double(a, b)
+
     xp = array_namespace(a, b)
     return xp.mean(a * b)
 
@@ -455,6 +463,8 @@ def u_product(a: Array, b: Array) -> Array:
     """
     n = a.shape[0]
 
+    a, b = _integer_to_double(a, b)
+
     xp = array_namespace(a, b)
 
     return xp.sum(a * b) / (n * (n - 3))
diff --git a/dcor/_utils.py b/dcor/_utils.py
index 02ad480..9f3b19f 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -147,7 +147,10 @@ def _transform_to_2d(*args: T) -> Iterable[T]:
 def _integer_to_double(*args: T) -> Iterable[T]:
     """Convert NumPy integer arrays to double, to prevent overflows."""
     for array in args:
-        if np.issubdtype(array.dtype, np.integer):
+        if isinstance(array, np.ndarray) and np.issubdtype(
+            array.dtype,
+            np.integer,
+        ):
             array = array.astype(np.float64)
 
         yield array
-- 
2.43.0


From d281ba9912f54ab7c02edfe3d094a0503ad2e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 13/16] fix: rowwise raised for samples in extended precision

The optimized implementation only accepts what can be safely converted to
double precision; anything else goes through the general implementation.
---
 dcor/_fast_dcov_avl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index ee178ad..da08c69 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -641,8 +641,8 @@ def _rowwise_distance_covariance_sqr_avl_generic(
 
     # The optimized implementations compute everything in double precision.
     if not (
-        np.can_cast(x.dtype, np.float64, casting="same_kind")
-        and np.can_cast(y.dtype, np.float64, casting="same_kind")
+        np.can_cast(x.dtype, np.float64, casting="safe")
+        and np.can_cast(y.dtype, np.float64, casting="safe")
     ):
         return NotImplemented
 
-- 
2.43.0


From b39589de607354ff5e42cc6e1ccf152f4d3351ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:43 +0000
Subject: [PATCH 14/16] fix: the affinely invariant measures depended on the
 location

The rows of a constant sample became different after the product with the
(huge) inverse square root of a rounded null covariance, when it has eight
columns or more: the correlation was not 0.  A large offset of the data lost
precision in the same product.
---
 dcor/_dcor_internals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dcor/_dcor_internals.py b/dcor/_dcor_internals.py
index 62f25ac..b02cb36 100644
--- a/dcor/_dcor_internals.py
+++ b/dcor/_dcor_internals.py
@@ -736,7 +736,11 @@ def _cov(x: Array) -> Array:
 
 def _af_inv_scaled(x: Array) -> Array:
     """Scale a random vector for using the affinely invariant measures."""
-    x, = _transform_to_2d(x)
+    x, = _integer_to_double(*_transform_to_2d(x))
+
+    # The location is irrelevant.  Removing it here keeps every rounding error
+    # relative to the spread of the data (and constant data constant).
+    x = x - x[:1, :]
 
     cov_matrix = _cov(x)
 
-- 
2.43.0


From 9eacaeb28fa4cf48397b37fbc671b736188e9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:49 +0000
Subject: [PATCH 15/16] fix: rowwise overflowed for rows of more than 2^21
 numbers

The cube of the number of observations does not fit in 64 bits in the
compiled code.
---
 dcor/_dcor_internals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dcor/_dcor_internals.py b/dcor/_dcor_internals.py
index b02cb36..9f9c087 100644
--- a/dcor/_dcor_internals.py
+++ b/dcor/_dcor_internals.py
@@ -196,11 +196,13 @@ def _dcov_from_terms(
     if bias_corrected:
         first_term /= (n_samples - 3)
         second_term /= (n_samples - 2) * (n_samples - 3)
-        third_term /= (n_samples - 1) * (n_samples - 2) * (n_samples - 3)
+        third_term /= (n_samples - 1) * (n_samples - 2)
+        third_term /= n_samples - 3  # The product can overflow
     else:
         first_term /= n_samples
         second_term /= n_samples**2
-        third_term /= n_samples**3
+        third_term /= n_samples**2
+        third_term /= n_samples  # The cube can overflow
 
     return first_term - 2 * second_term + third_term
 
-- 
2.43.0


From ed2d8b64e4c66c007ae2008072ba5d5b2bd6e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:49 +0000
Subject: [PATCH 16/16] fix: samples of different dimension were broadcast by
 the naive distances

Scipy already raises ValueError for the types that it supports; the naive
implementation (objects, extended precision, other array namespaces)
returned the distances of broadcast data.
---
 dcor/distances.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcor/distances.py b/dcor/distances.py
index 3e72cd9..0e0cc55 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,6 +27,9 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
+    if x.shape[-1] != y.shape[-1]:
+        raise ValueError("x and y must have the same number of columns")
+
     x = xp.expand_dims(x, axis=1)
     y = xp.expand_dims(y, axis=0)
 
-- 
2.43.0

