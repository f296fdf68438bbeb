From 3e0ef7828e5f863bbf2b1835e3de2b8a863eb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 1/8] fix: rowwise optimized kernel fails for integer data

The result array took the dtype of x, so integer observations raised a
casting error instead of returning the (floating point) covariances.
---
 dcor/_fast_dcov_avl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..a4a7c39 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -628,7 +628,12 @@ def _rowwise_distance_covariance_sqr_avl_generic(
         assert y.shape[2] == 1
         y = y[..., 0]
 
-    res = np.zeros(x.shape[0], dtype=x.dtype)
+    # The result is always floating point, even for integer data
+    res_dtype = np.result_type(x, y)
+    if not np.issubdtype(res_dtype, np.floating):
+        res_dtype = np.float64
+
+    res = np.zeros(x.shape[0], dtype=res_dtype)
 
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
-- 
2.43.0


From 14cd7b438b4d70d228b003c053801897ff84c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 2/8] fix: uncompiled mergesort fails when only y is an integer
 array

The sums of the weights were stored with the dtype of y, but the weights
also contain x, so the uncompiled fallback raised a casting error.
---
 dcor/_fast_dcov_mergesort.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..bad7bc8 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -44,7 +44,10 @@ def _compute_weight_sums(
 
     n_samples = y.shape[0]
 
-    weight_sums = np.zeros(weights.shape[1:] + (n_samples,), dtype=y.dtype)
+    weight_sums = np.zeros(
+        weights.shape[1:] + (n_samples,),
+        dtype=weights.dtype,
+    )
 
     # Buffer that contains the indexes of the current and
     # last iterations
-- 
2.43.0


From fd08123a0d3337faa4c51b3a47499603a18fdd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 3/8] fix: transposed distances between two sets outside the
 SciPy path

_cdist_naive returned an l x n matrix instead of the documented n x l one.
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From caa919fae985c71eb895c383513bffff2bc9acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:27 +0000
Subject: [PATCH 4/8] fix: rowwise fails when the pairs cannot be stacked in a
 matrix

Pairs of different lengths, vectors mixed with column matrices, elements
wider than double and empty lists made the optimized implementation raise,
although the per-pair computation is well defined.  Use it in such cases.
---
 dcor/_rowwise.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..c08c84d 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -14,14 +14,43 @@ from ._utils import ArrayType, RowwiseMode as RowwiseMode, _sqrt, array_namespac
 Array = TypeVar("Array", bound=ArrayType)
 
 
+def _stack_random_variables(samples):
+    """
+    Stack samples of random variables in the rows of a matrix.
+
+    Return ``None`` if that is not possible, or if the elements cannot be
+    used by the optimized implementations.
+
+    """
+    samples = [np.asarray(s) for s in samples]
+
+    if not samples or not all(_dcor._is_random_variable(s) for s in samples):
+        return None
+
+    samples = [np.reshape(s, -1) for s in samples]
+
+    if len({s.shape for s in samples}) > 1:
+        return None
+
+    matrix = np.stack(samples)
+
+    return matrix if np.can_cast(matrix.dtype, float) else None
+
+
 def _generate_rowwise_distance_covariance_sqr(unbiased):
     def rowwise_distance_covariance_sqr(
             x, y, exponent=1, *,
             method=_dcor.DistanceCovarianceMethod.AUTO,
             **kwargs):
 
-        if not _dcor._can_use_fast_algorithm(x[0], y[0],
-                                             exponent=exponent):
+        x = _stack_random_variables(x)
+        y = _stack_random_variables(y)
+
+        if x is None or y is None or not _dcor._can_use_fast_algorithm(
+            x[0],
+            y[0],
+            exponent=exponent,
+        ):
             return NotImplemented
 
         if (method in (_dcor.DistanceCovarianceMethod.AUTO,
@@ -59,6 +88,12 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
         cov_fun = (_dcor.u_distance_covariance_sqr if unbiased
                    else _dcor.distance_covariance_sqr)
 
+        x = _stack_random_variables(x)
+        y = _stack_random_variables(y)
+
+        if x is None or y is None or x.shape != y.shape:
+            return NotImplemented
+
         n_comps = len(x)
 
         concat_x = np.concatenate((x, x, y))
-- 
2.43.0


From 1660682a57f7fd9a50b8a9c030d9dab14f21a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:33 +0000
Subject: [PATCH 5/8] fix: U-statistic energy distance fails outside NumPy

The array API standard requires the shape passed to reshape to be a tuple,
so the flattening of the distance matrix was rejected by strict namespaces.
---
 dcor/_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
-- 
2.43.0


From 712f3eea2347d99a3f781d41ff269db7db1e3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:25 +0000
Subject: [PATCH 6/8] fix: uncompiled mergesort fails for arrays of objects

---
 dcor/_fast_dcov_mergesort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index bad7bc8..5dc5ff8 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -96,7 +96,7 @@ def _compute_weight_sums(
                 previous_index_1 = previous_indexes[subarray_1_idx]
                 previous_index_2 = previous_indexes[subarray_2_idx]
 
-                if y[previous_index_1].item() >= y[previous_index_2].item():
+                if y[previous_index_1] >= y[previous_index_2]:
                     current_indexes[indexes_idx] = previous_index_1
                     subarray_1_idx += 1
                 else:
@@ -174,7 +174,7 @@ def _generate_compute_aijbij_term(
 
         d = 4 * sums_term - 2 * cov_term
 
-        return d.item()
+        return d
 
     return _compute_aijbij_term
 
-- 
2.43.0


From a50ad29c26e02bb7a866a5ac94f8082a5d4c8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:12 +0000
Subject: [PATCH 7/8] fix: members of DistanceCovarianceMethod cannot be
 pickled

---
 dcor/_dcor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcor/_dcor.py b/dcor/_dcor.py
index 7b6922b..20b21c9 100644
--- a/dcor/_dcor.py
+++ b/dcor/_dcor.py
@@ -419,6 +419,10 @@ class DistanceCovarianceMethod(Enum):
     def __repr__(self) -> str:
         return '%s.%s' % (self.__class__.__name__, self.name)
 
+    def __reduce_ex__(self, protocol: int) -> Tuple[object, ...]:
+        # The values are not comparable after unpickling: pickle by name.
+        return getattr, (self.__class__, self.name)
+
 
 _DistanceCovarianceMethodName = Literal["auto", "naive", "avl", "mergesort"]
 DistanceCovarianceMethodLike = Union[
-- 
2.43.0


From 1ba41e238e56354b140388ff5eb9ea92ea5d8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:09 +0000
Subject: [PATCH 8/8] fix: rowwise correlation of a constant variable is
 infinite

---
 dcor/_rowwise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index c08c84d..98cccb6 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -104,13 +104,13 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
             return NotImplemented
 
         cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_var = res_covs[n_comps:2 * n_comps]
+        y_var = res_covs[2 * n_comps:]
 
-        with np.errstate(divide='ignore', invalid='ignore'):
-            corr_sqr = cov / x_std / y_std
-
-        corr_sqr[np.isnan(corr_sqr)] = 0
+        # Same convention as when there is only one pair
+        denominator = _sqrt(np.abs(x_var * y_var))
+        corr_sqr = np.zeros_like(cov)
+        np.divide(cov, denominator, out=corr_sqr, where=denominator != 0)
 
         return corr_sqr
 
-- 
2.43.0

