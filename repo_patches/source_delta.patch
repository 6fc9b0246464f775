From c8397939470431e4ae1664c890d3faaf507dccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 01/21] fix: mean_var and marginals of a zero-mean normal give
 the mean as a column vector

Whenever the mean was stored as the scalar zero, Normal.mean_var and Normal.marginals
(and thus the credible bounds) returned that scalar, or an unconverted variance, depending
on which attributes were queried before.
---
 stheno/random.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..e86b02f 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -173,18 +173,12 @@ class Normal(RandomVector):
     @property
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
-        if self._mean is not None and self._var is not None:
-            return self._mean, self._var
-        elif self._mean is not None:
-            return self._mean, self.var
-        elif self._var is not None:
-            return self.mean, self._var
-        else:
+        if self._mean is None and self._var is None:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
-                self._resolve_mean(construct_zeros=True)
-                self._resolve_var()
-            return self.mean, self.var
+        # Always go through the properties: `self._mean` can be an unresolved zero and
+        # `self._var` an unconverted matrix.
+        return self.mean, self.var
 
     @property
     def dtype(self):
@@ -207,17 +201,11 @@ class Normal(RandomVector):
         Returns:
             tuple: A tuple containing the marginal means and marginal variances.
         """
-        if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
-        elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
-        elif self._var_diag is not None:
-            mean, var_diag = self.mean, self._var_diag
-        else:
+        if self._mean is None and self._var_diag is None:
             if self._construct_mean_var_diag is not None:
                 self._mean, self._var_diag = self._construct_mean_var_diag()
-                self._resolve_mean(construct_zeros=True)
-            mean, var_diag = self.mean, self.var_diag
+        # Always go through the properties: `self._mean` can be an unresolved zero.
+        mean, var_diag = self.mean, self.var_diag
         # It can happen that the variances are slightly negative due to numerical noise.
         # Prevent NaNs from the following square root by taking the maximum with zero.
         # Also strip away any matrix structure.
-- 
2.43.0


From 4257bb798de8c8410eb32e4ff593001802c039df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 02/21] fix: let NumPy arrays defer to the reflected operators
 of random objects

Adding an array to, or multiplying an array by, a normal or a process from the left
returned an object array of random objects.
---
 stheno/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stheno/random.py b/stheno/random.py
index e86b02f..536f4ce 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -15,6 +15,10 @@ __all__ = ["Random", "RandomProcess", "RandomVector", "Normal"]
 class Random:
     """A random object."""
 
+    # Make sure that NumPy arrays defer to the reflected operators below, instead of
+    # broadcasting the operation over the elements of the array.
+    __array_ufunc__ = None
+
     def __radd__(self, other):
         return self + other
 
-- 
2.43.0


From 3e882ae67ccfc35a6859868cc881f13416e3637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 03/21] fix: account for multi-output processes when inferring
 the sizes of distributions

Samples of a finite-dimensional distribution of a Cartesian product were split at the wrong
positions, joint observations of a Cartesian product with missing values raised an error,
and the dimensionality of a Cartesian product of Cartesian products was wrong.
---
 stheno/mo/infer.py      | 6 +++++-
 stheno/mo/kernel.py     | 5 +++--
 stheno/mo/mean.py       | 4 +++-
 stheno/model/measure.py | 3 ++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 9eb9859..80a1262 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -42,7 +42,11 @@ def infer_size(k: Kernel, x: B.Numeric):
 
 @_dispatch
 def infer_size(k: Kernel, x: FDD):
-    return Dimension(num_elements(x))
+    if isinstance(x.p, int):
+        # `x.p` is the `id` of a process, so its kernel is not available.
+        return Dimension(num_elements(x))
+    # The process of `x` can have multiple outputs.
+    return infer_size(x.p.kernel, x.x)
 
 
 def _check_and_merge(k, *ds):
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..23f1064 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -5,7 +5,7 @@ from mlkernels import (
     elwise,
 )
 
-from .infer import infer_size
+from .infer import dimensionality, infer_size
 from .. import PromisedFDD as FDD, _dispatch
 
 __all__ = ["MultiOutputKernel"]
@@ -78,7 +78,8 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    # The processes can have multiple outputs themselves.
+    return sum(dimensionality(k.measure.kernels[p]) for p in k.ps)
 
 
 @_dispatch
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 6e9b6e4..a4f06d3 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -1,6 +1,7 @@
 from lab import B
 from mlkernels import Mean
 
+from .infer import dimensionality
 from .. import PromisedFDD as FDD, _dispatch
 
 __all__ = ["MultiOutputMean"]
@@ -43,4 +44,5 @@ class MultiOutputMean(Mean):
 
 @_dispatch
 def dimensionality(m: MultiOutputMean):
-    return len(m.ps)
+    # The processes can have multiple outputs themselves.
+    return sum(dimensionality(m.measure.kernels[p]) for p in m.ps)
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..a403a0e 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,6 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
+from ..mo import infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -438,7 +439,7 @@ class Measure:
         state, sample = self(combine(*fdds)).sample(state, n)
 
         # Unpack sample.
-        lengths = [num_elements(fdd) for fdd in fdds]
+        lengths = [infer_size(fdd.p.kernel, fdd.x) for fdd in fdds]
         i, samples = 0, []
         for length in lengths:
             samples.append(sample[..., i : i + length, :])
-- 
2.43.0


From a164eea981d4456aadc259c69ebe348f49b9c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 04/21] fix: restore the default measure when a measure context
 is entered again

Entering the context of a measure within a context of that measure made that measure the
default forever.
---
 stheno/model/measure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index a403a0e..ed83438 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -45,15 +45,16 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        # A measure can be entered multiple times, so keep a stack.
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(self.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From f75c6c0f46d3dc676e551315c260ca0b03e509a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 05/21] fix: add combined processes to measures in the order of
 those measures

The measures of a process were iterated in the order of a set, so with many posteriors the
measure of a sum, product, or Cartesian product could be a posterior.
---
 stheno/model/gp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..3308d7b 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -32,12 +32,14 @@ def intersection_measure_group(*ps):
 
     Args:
         *ps (:class:`.gp.GP`): Processes.
+
+    Returns:
+        list[:class:`.measure.Measure`]: Measures, in the order in which the first process
+            was added to them. The first one is the measure of all processes.
     """
     assert_same_measure(*ps)
-    intersection = set(ps[0]._measures)
-    for p in ps[1:]:
-        intersection &= set(p._measures)
-    return intersection
+    others = [set(p._measures) for p in ps[1:]]
+    return [m for m in ps[0]._measures if all(m in other for other in others)]
 
 
 def cross(*ps):
-- 
2.43.0


From 9e2e4e0d464413e26a4d96cda4231d82940ff758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 06/21] fix: a failed attempt to name a process changes nothing

Renaming a process to a name that is taken removed the old name of the process, could
rename the process in some of its measures only, and left a newly constructed process in the
measure.
---
 stheno/model/gp.py      |  7 +++++++
 stheno/model/measure.py | 16 ++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index 3308d7b..d720934 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -88,6 +88,10 @@ class GP(RandomProcess):
         if isinstance(kernel, (B.Numeric, FunctionType)):
             kernel = kernel * OneKernel()
 
+        # Check the name before the measure is changed.
+        if name:
+            measure._assert_name_available(self, name)
+
         # Add a new `GP` to the measure with the resolved kernel and mean. The measure
         # will add itself to `self.measures`.
         measure.add_independent_gp(self, mean, kernel)
@@ -130,6 +134,9 @@ class GP(RandomProcess):
     @name.setter
     @_dispatch
     def name(self, name: str):
+        # Check all measures first: if one check fails, nothing may have changed.
+        for measure in self._measures:
+            measure._assert_name_available(self, name)
         for measure in self._measures:
             measure.name(self, name)
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index ed83438..ae225c1 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -77,21 +77,25 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check this first: if it fails, nothing may have changed.
+        self._assert_name_available(p, name)
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
 
+    def _assert_name_available(self, p, name):
+        # Check that name is not in use by another GP.
+        if self._gps_by_name.get(name, p) is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
     def _add_p(self, p):
         # Attach process to measure.
         self.ps.append(p)
-- 
2.43.0


From d0f4334b0ff5977e6d16ecdfcb6a2e8b7cfb157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 07/21] fix: Measure.add_gp uses the given right rule

---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index ae225c1..18bb4fb 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -139,7 +139,7 @@ class Measure:
             :class:`.gp.GP`: New GP.
         """
         p = GP()
-        self._update(p, mean, kernel, left_rule, right_rule=None)
+        self._update(p, mean, kernel, left_rule, right_rule=right_rule)
         return p
 
     @_dispatch
-- 
2.43.0


From 45260f58ba98d7ca5594fed72b11bb2223617547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 08/21] fix: the mean of a product of correlated processes
 includes their covariance

Stheno approximates a product by moment matching, but for correlated factors, such as in
f * f, the mean was the product of the means, which is off by the covariance.
---
 stheno/model/measure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 18bb4fb..a646d6a 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -264,9 +264,14 @@ class Measure:
             self.mul(GP(), lambda x: self.means[p1](x), p2),
             self.mul(GP(), p1, lambda x: self.means[p2](x)),
         )
+        mean = -self.means[p1] * self.means[p2]
+        cov = self.kernels[p1, p2]
+        if not isinstance(cov, ZeroKernel):
+            # The factors are correlated, which contributes to the mean of the product.
+            mean = mean + (lambda x: cov.elwise(x))
         term2 = self.add_independent_gp(
             GP(),
-            -self.means[p1] * self.means[p2],
+            mean,
             (
                 self.kernels[p1] * self.kernels[p2]
                 + self.kernels[p1, p2] * self.kernels[p2, p1]
-- 
2.43.0


From e8eedad7a60fe436257ec44b9172dc92168f8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 09/21] fix: Compute elwise of covariances between multi-output
 processes

The variance diagonal of the sum of two Cartesian products raised a
ValueError, even though the sizes of the two products line up.
---
 stheno/mo/kernel.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 23f1064..a752270 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -61,14 +61,23 @@ def elwise(k: MultiOutputKernel, x: B.Numeric, y: B.Numeric):
     return elwise(k, tuple(p(x) for p in k.ps), tuple(p(y) for p in k.ps))
 
 
+def _elwise_mixed(k, x, y):
+    # The process of the FDD can itself have multiple outputs. If the sizes line up, the
+    # outputs do too.
+    K = B.dense(pairwise(k, x, y))
+    if B.shape(K, -2) != B.shape(K, -1):
+        raise ValueError('Unclear combination of arguments given to "elwise".')
+    return B.diag_extract(K)[..., :, None]
+
+
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: FDD, y: B.Numeric):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_mixed(k, x, y)
 
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: B.Numeric, y: FDD):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_mixed(k, x, y)
 
 
 @elwise.dispatch
-- 
2.43.0


From d015b846d5fa36df9e9a17ebc11aaac3789a1ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:30 +0000
Subject: [PATCH 10/21] fix: Marginals of sums of a process and a multiple by a
 function of it

The cross-covariance of a process multiplied by a function had a structured
matrix as its elementwise computation, which is not a column that can be
squeezed or indexed like those of all other kernels.
---
 stheno/model/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index a646d6a..a30684c 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -2,7 +2,6 @@ from types import FunctionType
 from typing import Union
 
 from lab import B
-from matrix import Constant
 from mlkernels import TensorProductKernel, ZeroKernel, num_elements
 
 from .. import PromisedMeasure, _dispatch
@@ -247,7 +246,8 @@ class Measure:
     @_dispatch
     def mul(self, p_mul: GP, p: GP, f: FunctionType):
         def ones(x):
-            return Constant(B.one(x), num_elements(x), 1)
+            # This must be an ordinary column: `elwise` of the kernel must be one too.
+            return B.ones(B.dtype(x), num_elements(x), 1)
 
         return self._update(
             p_mul,
-- 
2.43.0


From c5d1aa8feb0ebe4ec1ec07ebe942f2c734154ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 11/21] fix: missing observations of scaled and posterior
 multi-output processes

---
 stheno/model/fdd.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 4908ea2..5dd628f 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -1,7 +1,7 @@
 import mlkernels
 from lab import B
 from matrix import AbstractMatrix, Dense, Zero, Diagonal
-from mlkernels import Kernel, num_elements
+from mlkernels import Kernel, PosteriorKernel, ScaledKernel, num_elements
 from wbml.util import indented_kv
 
 from .. import PromisedFDD, PromisedGP, _dispatch
@@ -146,3 +146,20 @@ def _take_x(k: Kernel, xs: tuple, mask: B.Numeric):
         xs_taken += (_take_x(k, x, mask[i : i + n]),)
         i += n
     return xs_taken
+
+
+# Scaled and posterior kernels have the inputs of the kernel that they are made of, which
+# can be a multi-output kernel.
+
+
+@_dispatch.multi((ScaledKernel, B.Numeric, B.Numeric), (ScaledKernel, FDD, B.Numeric))
+def _take_x(k, x, mask):
+    return _take_x(k[0], x, mask)
+
+
+@_dispatch.multi(
+    (PosteriorKernel, B.Numeric, B.Numeric),
+    (PosteriorKernel, FDD, B.Numeric),
+)
+def _take_x(k, x, mask):
+    return _take_x(k.k_ij, x, mask)
-- 
2.43.0


From 2d79a53b52a135d07cf0421e93db0a6476724581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 12/21] fix: covariances of Cartesian products with processes
 that are created later

---
 stheno/mo/infer.py      | 30 +++++++++++++++++++++++++++++-
 stheno/mo/kernel.py     |  7 ++++++-
 stheno/model/measure.py | 31 +++++++++++++++++--------------
 3 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 80a1262..5f77999 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -10,7 +10,7 @@ from mlkernels import (
 
 from .. import _dispatch, PromisedFDD as FDD
 
-__all__ = ["infer_size", "dimensionality"]
+__all__ = ["infer_size", "dimensionality", "has_multiple_outputs"]
 
 
 @num_elements.dispatch
@@ -104,3 +104,31 @@ def dimensionality(k: SubspaceKernel):
         dimensionality(k.k_zi),
         dimensionality(k.k_zj),
     )
+
+
+@_dispatch
+def has_multiple_outputs(k: Join):
+    """Check whether a kernel of a process is made from a multi-output kernel.
+
+    Args:
+        k (:class:`mlkernels.Kernel`): Kernel of the process.
+
+    Returns:
+        bool: `True` if `k` is made from a multi-output kernel, and `False` otherwise.
+    """
+    return has_multiple_outputs(k[0]) or has_multiple_outputs(k[1])
+
+
+@_dispatch
+def has_multiple_outputs(k: Wrapped):
+    return has_multiple_outputs(k[0])
+
+
+@_dispatch
+def has_multiple_outputs(k: Element):
+    return False
+
+
+@_dispatch
+def has_multiple_outputs(k: PosteriorKernel):
+    return has_multiple_outputs(k.k_ij)
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index a752270..a527048 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -5,7 +5,7 @@ from mlkernels import (
     elwise,
 )
 
-from .infer import dimensionality, infer_size
+from .infer import dimensionality, has_multiple_outputs, infer_size
 from .. import PromisedFDD as FDD, _dispatch
 
 __all__ = ["MultiOutputKernel"]
@@ -91,6 +91,11 @@ def dimensionality(k: MultiOutputKernel):
     return sum(dimensionality(k.measure.kernels[p]) for p in k.ps)
 
 
+@_dispatch
+def has_multiple_outputs(k: MultiOutputKernel):
+    return True
+
+
 @_dispatch
 def _take_x(k: MultiOutputKernel, x: B.Numeric, mask: B.Numeric):
     i = 0
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index a30684c..0888c91 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -9,7 +9,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
-from ..mo import infer_size
+from ..mo import has_multiple_outputs, infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -39,6 +39,7 @@ class Measure:
         self._pids = set()
         self.means = LazyVector()
         self.kernels = LazyMatrix()
+        self._left_rules = {}
 
         # Store named GPs in both ways.
         self._gps_by_name = {}
@@ -102,13 +103,26 @@ class Measure:
         # Add measure to list of measures of process.
         p._measures.append(self)
 
+    def _add_left_rule(self, p, left_rule):
+        def rule(j):
+            # The inputs of a process with multiple outputs can be finite-dimensional
+            # distributions, and its size is not the number of inputs. Only the rule
+            # of that process itself, which works for any other process, knows how to
+            # deal with that.
+            if j in self._left_rules and has_multiple_outputs(self.kernels[j]):
+                return reversed(self._left_rules[j](id(p)))
+            return left_rule(j)
+
+        self._left_rules[id(p)] = left_rule
+        self.kernels.add_left_rule(id(p), self._pids, rule)
+
     def _update(self, p, mean, kernel, left_rule, right_rule=None):
         # Update means.
         self.means[p] = mean
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, left_rule)
+        self._add_left_rule(p, left_rule)
         if right_rule:
             self.kernels.add_right_rule(id(p), self._pids, right_rule)
         else:
@@ -169,18 +183,7 @@ class Measure:
         Returns:
             :class:`.gp.GP`: The newly added independent GP.
         """
-        # Update means.
-        self.means[p] = mean
-
-        # Update kernels.
-        self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, lambda j: ZeroKernel())
-        self.kernels.add_right_rule(id(p), self._pids, lambda i: ZeroKernel())
-
-        # Only now add `p`: `self.pids` above needs to not include `id(p)`.
-        self._add_p(p)
-
-        return p
+        return self._update(p, mean, kernel, lambda j: ZeroKernel())
 
     @_dispatch
     def sum(self, p_sum: GP, other, p: GP):
-- 
2.43.0


From 1b1bb76b621806ebcf4260731f9223db0b7ff7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 13/21] fix: KL divergence and Wasserstein distance of normals
 with structured means

---
 stheno/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 536f4ce..e32e55f 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -294,7 +294,8 @@ class Normal(RandomVector):
             scalar: KL divergence.
         """
         return (
-            B.iqf_diag(other.var, other.mean - self.mean)[..., 0]
+            # The means can be structured matrices, which NumPy arrays cannot deal with.
+            B.iqf_diag(other.var, B.dense(B.subtract(other.mean, self.mean)))[..., 0]
             + B.ratio(self.var, other.var)
             + B.logdet(other.var)
             - B.logdet(self.var)
@@ -315,7 +316,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From f63d545d94c50c0e6c126a305a1520fa9988c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 14/21] fix: taking subsets of scaled and posterior processes
 when TensorFlow is loaded

---
 stheno/model/fdd.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 5dd628f..18371dc 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -152,14 +152,21 @@ def _take_x(k: Kernel, xs: tuple, mask: B.Numeric):
 # can be a multi-output kernel.
 
 
-@_dispatch.multi((ScaledKernel, B.Numeric, B.Numeric), (ScaledKernel, FDD, B.Numeric))
-def _take_x(k, x, mask):
+@_dispatch
+def _take_x(k: ScaledKernel, x: B.Numeric, mask: B.Numeric):
+    return _take_x(k[0], x, mask)
+
+
+@_dispatch
+def _take_x(k: ScaledKernel, x: FDD, mask: B.Numeric):
     return _take_x(k[0], x, mask)
 
 
-@_dispatch.multi(
-    (PosteriorKernel, B.Numeric, B.Numeric),
-    (PosteriorKernel, FDD, B.Numeric),
-)
-def _take_x(k, x, mask):
+@_dispatch
+def _take_x(k: PosteriorKernel, x: B.Numeric, mask: B.Numeric):
+    return _take_x(k.k_ij, x, mask)
+
+
+@_dispatch
+def _take_x(k: PosteriorKernel, x: FDD, mask: B.Numeric):
     return _take_x(k.k_ij, x, mask)
-- 
2.43.0


From f2a1e3874c587b10636463f446dce5e37df7f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 15/21] fix: second moment and Wasserstein distance of batches
 of normals

---
 stheno/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index e32e55f..9d5226d 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -197,7 +197,7 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        return self.var + B.outer(B.dense(self.mean))
 
     def marginals(self):
         """Get the marginals.
@@ -316,7 +316,8 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
+        mean_diff = B.uprank(B.dense(B.subtract(self.mean, other.mean)))
+        mean_part = B.sum(mean_diff**2, axis=(-2, -1))
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From e250e0c735eac4ec09bcea5a7fffd37586a5dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 16/21] fix: condition Cartesian products repeatedly

---
 stheno/model/measure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 0888c91..5d51466 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -388,9 +388,15 @@ class Measure:
         posterior._pids = set(self._pids)
 
         posterior.means.add_rule(posterior._pids, lambda i: obs.posterior_mean(self, i))
-        posterior.kernels.add_rule(
-            posterior._pids, lambda i, j: obs.posterior_kernel(self, i, j)
-        )
+
+        def kernel_rule(i, j):
+            k = obs.posterior_kernel(self, i, j)
+            if i != j and any(has_multiple_outputs(self.kernels[p]) for p in (i, j)):
+                # Like in :meth:`cross`, the dimensionality cannot be inferred.
+                k = ADK(k)
+            return k
+
+        posterior.kernels.add_rule(posterior._pids, kernel_rule)
 
         # Update backreferences.
         for p in posterior.ps:
-- 
2.43.0


From 56f57c251b20ac60c32ab0a794b4ddb8dbc236c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 17/21] fix: covariances with transformed Cartesian products

---
 stheno/mo/infer.py      | 43 ++++++++++++++++++++++++++++++++++++++++-
 stheno/mo/kernel.py     |  7 ++++++-
 stheno/model/measure.py | 11 +++++------
 3 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 5f77999..fb8cbde 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -1,3 +1,5 @@
+from typing import Union
+
 import lab as B
 from algebra import Element, Wrapped, Join
 from lab.shape import Dimension
@@ -5,12 +7,15 @@ from mlkernels import (
     Kernel,
     num_elements,
     PosteriorKernel,
+    ReversedKernel,
+    ScaledKernel,
     SubspaceKernel,
 )
 
+from .adk import AmbiguousDimensionalityKernel
 from .. import _dispatch, PromisedFDD as FDD
 
-__all__ = ["infer_size", "dimensionality", "has_multiple_outputs"]
+__all__ = ["infer_size", "dimensionality", "has_multiple_outputs", "takes_fdds"]
 
 
 @num_elements.dispatch
@@ -132,3 +137,39 @@ def has_multiple_outputs(k: Element):
 @_dispatch
 def has_multiple_outputs(k: PosteriorKernel):
     return has_multiple_outputs(k.k_ij)
+
+
+@_dispatch
+def takes_fdds(k: Join):
+    """Check whether the inputs of a kernel can be finite-dimensional distributions.
+
+    Args:
+        k (:class:`mlkernels.Kernel`): Kernel of a process.
+
+    Returns:
+        bool: `True` if the inputs of `k` can be finite-dimensional distributions, and
+            `False` otherwise.
+    """
+    return takes_fdds(k[0]) and takes_fdds(k[1])
+
+
+@_dispatch
+def takes_fdds(k: Wrapped):
+    # Most of these change the inputs, which does not work for finite-dimensional
+    # distributions.
+    return False
+
+
+@_dispatch
+def takes_fdds(k: Union[AmbiguousDimensionalityKernel, ReversedKernel, ScaledKernel]):
+    return takes_fdds(k[0])
+
+
+@_dispatch
+def takes_fdds(k: Element):
+    return False
+
+
+@_dispatch
+def takes_fdds(k: PosteriorKernel):
+    return takes_fdds(k.k_ij)
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index a527048..7eb8d42 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -5,7 +5,7 @@ from mlkernels import (
     elwise,
 )
 
-from .infer import dimensionality, has_multiple_outputs, infer_size
+from .infer import dimensionality, has_multiple_outputs, infer_size, takes_fdds
 from .. import PromisedFDD as FDD, _dispatch
 
 __all__ = ["MultiOutputKernel"]
@@ -96,6 +96,11 @@ def has_multiple_outputs(k: MultiOutputKernel):
     return True
 
 
+@_dispatch
+def takes_fdds(k: MultiOutputKernel):
+    return True
+
+
 @_dispatch
 def _take_x(k: MultiOutputKernel, x: B.Numeric, mask: B.Numeric):
     i = 0
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 5d51466..5c2308e 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -9,7 +9,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
-from ..mo import has_multiple_outputs, infer_size
+from ..mo import has_multiple_outputs, infer_size, takes_fdds
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -105,11 +105,10 @@ class Measure:
 
     def _add_left_rule(self, p, left_rule):
         def rule(j):
-            # The inputs of a process with multiple outputs can be finite-dimensional
-            # distributions, and its size is not the number of inputs. Only the rule
-            # of that process itself, which works for any other process, knows how to
-            # deal with that.
-            if j in self._left_rules and has_multiple_outputs(self.kernels[j]):
+            # If the inputs of a process can be finite-dimensional distributions, then
+            # only the rule of that process itself, which works for any other process,
+            # knows how to deal with those inputs and with the size of the process.
+            if j in self._left_rules and takes_fdds(self.kernels[j]):
                 return reversed(self._left_rules[j](id(p)))
             return left_rule(j)
 
-- 
2.43.0


From 8969602a72223c76a2c84998bbf0cf0329dde101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 18/21] fix: log-densities, divergences and conditioning with
 low-rank covariances

---
 stheno/model/observations.py |  4 +++-
 stheno/random.py             | 34 ++++++++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/stheno/model/observations.py b/stheno/model/observations.py
index ebd9656..8c1065d 100644
--- a/stheno/model/observations.py
+++ b/stheno/model/observations.py
@@ -5,6 +5,7 @@ from matrix import AbstractMatrix, Diagonal
 from mlkernels import PosteriorKernel, PosteriorMean, SubspaceKernel, num_elements
 
 from .. import _dispatch
+from ..random import _invertible
 from .fdd import FDD
 from .gp import cross
 
@@ -137,6 +138,7 @@ class Observations(AbstractObservations):
             return self._K_x[id(measure)]
         except KeyError:
             K_x = measure.kernels[self.fdd.p](self.fdd.x) + self.fdd.noise
+            K_x = _invertible(K_x)
             self._K_x[id(measure)] = K_x
             return K_x
 
@@ -283,7 +285,7 @@ class AbstractPseudoObservations(AbstractObservations):
 
         # Construct the necessary kernel matrices.
         K_zx = measure.kernels[p_z, p_x](z, x)
-        K_z = B.add(measure.kernels[p_z](z), noise_z)
+        K_z = _invertible(B.add(measure.kernels[p_z](z), noise_z))
         self._K_z[id(measure)] = K_z
 
         # Noise kernel matrix:
diff --git a/stheno/random.py b/stheno/random.py
index 9d5226d..76646f0 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -3,7 +3,7 @@ from typing import Union
 
 from algebra.util import identical
 from lab import B
-from matrix import AbstractMatrix, Diagonal, Zero
+from matrix import AbstractMatrix, Constant, Dense, Diagonal, LowRank, Zero
 from plum import convert
 from wbml.util import indented_kv
 
@@ -12,6 +12,22 @@ from . import _dispatch
 __all__ = ["Random", "RandomProcess", "RandomVector", "Normal"]
 
 
+def _invertible(a):
+    """Low-rank matrices cannot be inverted, so convert those to dense matrices, for which
+    a Cholesky decomposition can be computed.
+
+    Args:
+        a (matrix): Variance that needs to be inverted.
+
+    Returns:
+        matrix: `a`, possibly as a dense matrix.
+    """
+    if isinstance(a, (Constant, LowRank, Zero)):
+        return Dense(B.dense(a))
+    else:
+        return a
+
+
 class Random:
     """A random object."""
 
@@ -261,11 +277,12 @@ class Normal(RandomVector):
                 available_x = B.take(x, available)
                 return Normal(available_mean, available_var).logpdf(available_x)
 
+        var = _invertible(self.var)
         logpdfs = (
             -(
-                B.logdet(self.var)[..., None]  # Correctly line up with `iqf_diag`.
+                B.logdet(var)[..., None]  # Correctly line up with `iqf_diag`.
                 + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi)
-                + B.iqf_diag(self.var, B.subtract(x, self.mean))
+                + B.iqf_diag(var, B.subtract(x, self.mean))
             )
             / 2
         )
@@ -278,7 +295,7 @@ class Normal(RandomVector):
             scalar: The entropy.
         """
         return (
-            B.logdet(self.var)
+            B.logdet(_invertible(self.var))
             + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi + 1)
         ) / 2
 
@@ -293,12 +310,13 @@ class Normal(RandomVector):
         Returns:
             scalar: KL divergence.
         """
+        self_var, other_var = _invertible(self.var), _invertible(other.var)
         return (
             # The means can be structured matrices, which NumPy arrays cannot deal with.
-            B.iqf_diag(other.var, B.dense(B.subtract(other.mean, self.mean)))[..., 0]
-            + B.ratio(self.var, other.var)
-            + B.logdet(other.var)
-            - B.logdet(self.var)
+            B.iqf_diag(other_var, B.dense(B.subtract(other.mean, self.mean)))[..., 0]
+            + B.ratio(self_var, other_var)
+            + B.logdet(other_var)
+            - B.logdet(self_var)
             - B.cast(self.dtype, self.dim)
         ) / 2
 
-- 
2.43.0


From 75712a2fac2461df51716e065164ba6056a7d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 19/21] fix: subtract functions from processes

---
 stheno/model/gp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index d720934..ebb0fb4 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -182,6 +182,12 @@ class GP(RandomProcess):
             measure.sum(res, self, other)
         return res
 
+    def __sub__(self, other):
+        if isinstance(other, FunctionType):
+            # Functions cannot be negated, so negate their values.
+            return self + (lambda x: -other(x))
+        return RandomProcess.__sub__(self, other)
+
     @_dispatch
     def __mul__(self, other: Union[B.Numeric, FunctionType]):
         res = GP()
-- 
2.43.0


From f720e8889556373c5a4e5363e58b3591a59d3648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 20/21] fix: variance of a normal that is multiplied by a
 column vector

---
 stheno/random.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index 76646f0..00f2cad 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -387,9 +387,11 @@ class Normal(RandomVector):
 
     @_dispatch
     def __mul__(self, other: B.Numeric):
+        # `other` can be a column vector, which scales every element differently.
+        other_t = B.transpose(other) if B.rank(other) > 1 else other
         return Normal(
             B.multiply(self.mean, other),
-            B.multiply(self.var, B.multiply(other, other)),
+            B.multiply(self.var, B.multiply(other, other_t)),
         )
 
     def lmatmul(self, other):
-- 
2.43.0


From 31f35d6a9613ef62d8f13913b05bc5ee47e7e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 21/21] fix: refuse to condition on observations of processes
 of other measures

---
 stheno/model/measure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 5c2308e..fa867b6 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -382,6 +382,14 @@ class Measure:
         Returns:
             list[:class:`.gp.GP`]: Posterior processes.
         """
+        # Check this first: a posterior that cannot be computed would make it impossible
+        # to derive new processes from the existing ones.
+        for fdd in [obs.fdd] + ([obs.u] if hasattr(obs, "u") else []):
+            if id(fdd.p) not in self._pids:
+                raise AssertionError(
+                    f"Observed process {fdd.p} is not associated to the measure."
+                )
+
         posterior = Measure()
         posterior.ps = list(self.ps)
         posterior._pids = set(self._pids)
-- 
2.43.0

