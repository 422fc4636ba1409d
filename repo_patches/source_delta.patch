From ea683c180c72417b9b0623c4920feba48f3ba81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 001/133] fix: constrained_max and constrained_positive_part
 reject points on the boundary of their domain

The non-negativity check used arg < +tol, so exact zeros (including everything
their own projections return) were reported infeasible, and bound checks used >=.
---
 regreg/atoms/seminorms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index df6af7e..50f637f 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -947,7 +947,7 @@ class constrained_max(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = lagrange * np.max(arg)
         if not anyneg or not check_feasibility:
             return v
@@ -956,7 +956,7 @@ class constrained_max(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         inside = np.max(arg) <= bound * (1 + self.tol)
         if inside and not anyneg:
             return 0
@@ -1025,7 +1025,7 @@ class constrained_positive_part(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = np.maximum(arg, 0).sum()
         if not anyneg or not check_feasibility:
             return v * lagrange
@@ -1035,7 +1035,7 @@ class constrained_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         value = self.seminorm(arg, lagrange=1, check_feasibility=True)
-        if value >= bound * (1 + self.tol):
+        if value > bound * (1 + self.tol):
             return np.inf
         return 0
 
@@ -1112,7 +1112,7 @@ class max_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         v = np.max(np.maximum(arg,0))
-        if v >= bound * (1 + self.tol):
+        if v > bound * (1 + self.tol):
             return np.inf
         return 0
 
-- 
2.43.0


From 303f30ee8e0df60eb39074e91f172467dae17d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 002/133] fix: l2_epigraph projections move points already
 inside the cone

For a point strictly inside the cone the threshold is negative, and the
projection returned another point of the cone instead of the point itself;
a zero coefficient part gave nan.
---
 regreg/atoms/cones.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 1beb2f9..157fc1c 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -469,8 +469,12 @@ class l2_epigraph(cone):
         norm = x[-1]
         coef = x[:-1]
         norm_coef = np.linalg.norm(coef)
+        if norm_coef <= norm:
+            return np.array(x)
         thold = (norm_coef - norm) / 2.
         result = np.zeros_like(x)
+        if norm_coef == 0:
+            return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return result
@@ -513,8 +517,12 @@ class l2_epigraph_polar(cone):
         norm = arg[-1]
         coef = arg[:-1]
         norm_coef = np.linalg.norm(coef)
+        if norm_coef <= norm:
+            return -arg
         thold = (norm_coef - norm) / 2.
         result = np.zeros_like(arg)
+        if norm_coef == 0:
+            return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return -result
-- 
2.43.0


From c59b3c64f01dcf73d196232d8112e2b34094d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 003/133] fix: piecewise linear root finder fails when every
 penalised norm is zero

With b = 0 and nothing above it (empty input, or all weights zero) the search
indexed an empty array or divided by zero; t = 0 already solves f(t) <= b.
---
 regreg/atoms/piecewise_linear.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/piecewise_linear.pyx b/regreg/atoms/piecewise_linear.pyx
index f16e181..288ec4f 100644
--- a/regreg/atoms/piecewise_linear.pyx
+++ b/regreg/atoms/piecewise_linear.pyx
@@ -40,7 +40,7 @@ def find_solution_piecewise_linear(DTYPE_float_t b,
     cdef int q = norms.shape[0]
     cdef int stop = 0
 
-    if (weights * norms).sum() < b:
+    if (weights * norms).sum() <= b:
         return 0
 
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = norms / np.maximum(weights, 1e-20)
@@ -106,7 +106,7 @@ def find_solution_piecewise_linear_c(DTYPE_float_t b,
     cdef int q = norms.shape[0]
     cdef int stop = 0
 
-    if (norms).sum() < b:
+    if (norms).sum() <= b:
         return 0
 
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = norms
-- 
2.43.0


From ef60d9d8c4d940a2f6d01b831f87962c8e055281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 004/133] fix: block_sum and block_max proximal maps raise
 NameError on Python 3 (xrange)

---
 regreg/atoms/block_norms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7abb416..e69b0a4 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -87,7 +87,7 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, x, lipschitz, lagrange)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.lagrange_prox(x[i], lipschitz=lipschitz,
                                            lagrange=lagrange)
         return v
@@ -201,7 +201,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.bound_prox(self, x,
                                       bound=bound)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.bound_prox(x[i], 
                                         bound=bound)
         return v
-- 
2.43.0


From 117d2774dfc23ba2f25293f3bba41c7ef385eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 005/133] fix: row-wise l2 block norm proximal maps return nan
 for zero rows

---
 regreg/atoms/block_norms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index e69b0a4..3956505 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -283,7 +283,7 @@ class linf_l2(block_max):
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
         v = arg.copy()
-        v[norm >= bound] *= bound / norm[norm >= bound][:,np.newaxis]
+        v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
     @doc_template_user
@@ -296,7 +296,7 @@ class linf_l2(block_max):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = arg
-        factor = (norm - proj_factor) / norm
+        factor = (norm - proj_factor) / (norm + (norm == 0))
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
@@ -466,7 +466,7 @@ class l1_l2(block_sum):
         arg = arg.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         norm = np.sqrt((arg**2).sum(1))
-        mult = np.maximum(norm - lagrange / lipschitz, 0) / norm
+        mult = np.maximum(norm - lagrange / lipschitz, 0) / (norm + (norm == 0))
         return arg * mult[:, np.newaxis]
 
     @doc_template_user
@@ -480,7 +480,7 @@ class l1_l2(block_sum):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = arg
-        factor = proj_factor / norm
+        factor = proj_factor / (norm + (norm == 0))
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
-- 
2.43.0


From d7653ee37ece288815aacea855fa89750173111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 006/133] fix: block_sum.constraint raises in bound form

The inner norms were asked for their Lagrange value without a parameter.
---
 regreg/atoms/block_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 3956505..5632a48 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -77,7 +77,7 @@ class block_sum(seminorms.seminorm):
     def constraint(self, x):
         # XXX should we check feasibility here?
         x = x.reshape(self.shape)
-        v = np.sum(self.seminorms(x, check_feasibility=False))
+        v = np.sum(self.seminorms(x, lagrange=1., check_feasibility=False))
         if v <= self.bound * (1 + self.tol):
             return 0
         return np.inf
-- 
2.43.0


From fe7318c9764888afdd103ac1648c4ad19686351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 007/133] fix: setting a zero offset keeps the previous offset

---
 regreg/problems/composite.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 13a4b6f..5cecf49 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -41,8 +41,7 @@ class composite(object):
     def set_offset(self, value):
         if value is not None:
             value = asarray(value)
-            if npany(value != 0):
-                self._offset = value
+            self._offset = value if npany(value != 0) else None
         else:
             self._offset = None
 
-- 
2.43.0


From be4bc6105b5d7fb59d0a263e4f9e9c49d8c6878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 008/133] fix: weighted norm proximal maps return nan when zero
 meets an infinite weight

---
 regreg/atoms/weighted_atoms.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 18b7c63..ce4ea35 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -174,8 +174,10 @@ class l1norm(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        return np.sign(arg) * np.maximum(np.fabs(arg)-lagrange * self.weights
-                                       / lipschitz, 0)
+        _isinf = np.isinf(self.weights)
+        cut = np.where(_isinf, np.inf,
+                       lagrange * np.where(_isinf, 0, self.weights) / lipschitz)
+        return np.sign(arg) * np.maximum(np.fabs(arg)-cut, 0)
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
@@ -187,7 +189,8 @@ class l1norm(seminorm):
                                                    0,
                                                    np.fabs(arg[_keep]),
                                                    self.weights[_keep])
-        cut = self.weights * (_lagrange + _isinf)
+        cut = np.where(_isinf, np.inf,
+                       np.where(_isinf, 0, self.weights) * _lagrange)
         value = np.sign(arg) * np.maximum(np.fabs(arg) - cut, 0)
         return value
     
@@ -246,14 +249,19 @@ class supnorm(seminorm):
                                                    0,
                                                    np.fabs(arg[_keep]),
                                                    weights[_keep])
-        resid = np.sign(arg) * np.maximum(np.fabs(arg)-_lagrange * weights, 0)
+        cut = np.where(_isinf, np.inf,
+                       _lagrange * np.where(_isinf, 0, weights))
+        resid = np.sign(arg) * np.maximum(np.fabs(arg)-cut, 0)
 
         return arg - resid
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        return np.clip(arg, -bound * self.invweights, bound * self.invweights)
+        _isinf = np.isinf(self.invweights)
+        limit = np.where(_isinf, np.inf,
+                         bound * np.where(_isinf, 0, self.invweights))
+        return np.clip(arg, -limit, limit)
 
     def terms(self, arg, check_feasibility=True):
         """
-- 
2.43.0


From b0146a988167dfa50c24b9b78baf624c468d054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 009/133] fix: group lasso constraint rejects boundary points,
 its dual accepts points off zero weight groups

---
 regreg/atoms/group_lasso.py         | 4 ++--
 regreg/atoms/mixed_lasso_cython.pyx | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 77ff69b..8bc1a38 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -257,7 +257,7 @@ class group_lasso(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        inball = self.seminorm(arg, lagrange=1) <= bound
+        inball = self.seminorm(arg, lagrange=1, check_feasibility=True) <= bound * (1 + self.tol)
         if inball:
             return 0
         else:
@@ -354,7 +354,7 @@ class group_lasso_dual(group_lasso):
                                                     self._group_array,
                                                     self._weight_array,
                                                     self._norms_cython,
-                                                    False)
+                                                    check_feasibility=int(check_feasibility))
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index d96d53f..2f6522e 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -295,7 +295,7 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if xl1.shape not in [(), (0,)]:
         value = np.fabs(xl1).max()
     else:
-        value = -np.inf
+        value = 0
 
     xpos = x[positive_part]
     if xpos.shape not in [(), (0,)]:
-- 
2.43.0


From 2fd1e62bcaad01de853199be7981b39abfee3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 010/133] fix: sparse group lasso dual constraint ignores its
 bound, Lagrange form cannot be evaluated

---
 regreg/atoms/sparse_group_lasso.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index e11fb5b..d0e56ba 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -250,7 +250,8 @@ class sparse_group_lasso_dual(sparse_group_lasso):
                                              self.groups,
                                              self.lasso_weights,
                                              weights=self.weights,
-                                             lagrange=self.bound)
+                                             lagrange=self.bound,
+                                             bound=self.lagrange)
          return self._base_conjugate_atom
 
      @doc_template_user
@@ -263,7 +264,10 @@ class sparse_group_lasso_dual(sparse_group_lasso):
      @doc_template_user
      def constraint(self, x, bound=None):
          bound = seminorm.constraint(self, x, bound=bound)
-         return inside_set(self.base_conjugate, x)
+         proj = self.bound_prox(x, bound=bound)
+         if np.linalg.norm(proj - x) <= max(np.linalg.norm(x), 1) * self.tol:
+             return 0
+         return np.inf
 
      @doc_template_user
      def lagrange_prox(self, x,  lipschitz=1, lagrange=None):
-- 
2.43.0


From b5271c4c818fd92bce142c9699964727e22a6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 011/133] fix: sparse_group_block constraint raises and terms
 ignores l2_weight

---
 regreg/atoms/sparse_group_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 14bdeae..a0fd168 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -70,7 +70,7 @@ class sparse_group_block(l1_l2):
     def constraint(self, x):
         x = x.reshape(self.shape)
         l1_norms = np.fabs(x).sum()
-        l2_norms = np.sqrt(np.sum(x**2), 1).sum()
+        l2_norms = np.sqrt(np.sum(x**2, 1)).sum()
         norm_sum = self.l1_weight * l1_norms + self.l2_weight * l2_norms
         if norm_sum <= self.bound * (1 + self.tol):
             return 0
@@ -140,7 +140,7 @@ class sparse_group_block(l1_l2):
         
         """
         terms = (np.fabs(arg).sum(1) * self.l1_weight + 
-                 np.sqrt((arg**2).sum(1)) * self.l1_weight)
+                 np.sqrt((arg**2).sum(1)) * self.l2_weight)
         return terms
 
 class sparse_group_block_dual(sparse_group_block):
-- 
2.43.0


From f2d4034e41d9ded6cec638eef4ff94271861b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 012/133] fix: projection_complement constraint tests the
 complementary space

---
 regreg/atoms/linear_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 17920cd..1cdfcd6 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -159,7 +159,7 @@ class projection_complement(linear_constraint):
     @doc_template_user
     def constraint(self, x):
         projx = self.cone_prox(x)
-        incone = np.linalg.norm(projx) / max([np.linalg.norm(x),1]) < self.tol
+        incone = np.linalg.norm(x-projx) / max([np.linalg.norm(x),1]) < self.tol
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From d4c602268836bae5ac7e49c30bcfa719bc941073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 013/133] fix: nuclear norm epigraph ignores the largest
 singular value

---
 regreg/atoms/svd_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 4745552..c1f0437 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -259,7 +259,7 @@ class nuclear_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = np.fabs(D[1:]).sum() <= (1 + self.tol) * norm
+        incone = np.fabs(D).sum() <= (1 + self.tol) * norm
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From 1c026745492de9f064fc88b4b519edac3dad4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 014/133] fix: conjugates of block norms use the parameter
 given at construction, not the current one

---
 regreg/atoms/block_norms.py        | 14 ++++++--------
 regreg/atoms/sparse_group_block.py | 10 ++++------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 5632a48..fdb9c21 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -128,8 +128,8 @@ class block_sum(seminorms.seminorm):
             atom = cls(atom_cls, 
                        self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -309,12 +309,11 @@ class linf_l2(block_max):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -536,12 +535,11 @@ class l1_l2(block_sum):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index a0fd168..08efd10 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -93,14 +93,13 @@ class sparse_group_block(l1_l2):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -213,14 +212,13 @@ class sparse_group_block_dual(sparse_group_block):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
-- 
2.43.0


From 2d87c387d477fbbea942a8bae47796262a785ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 015/133] fix: conjugate of svd, slope, simplex and linear
 constraint atoms with a quadratic raises NameError

---
 regreg/atoms/linear_constraints.py | 2 +-
 regreg/atoms/simplex.py            | 1 +
 regreg/atoms/slope.py              | 1 +
 regreg/atoms/svd_norms.py          | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 1cdfcd6..b081e10 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -3,7 +3,7 @@ from scipy import sparse
 from copy import copy
 import warnings
 
-from ..problems.composite import composite, nonsmooth
+from ..problems.composite import composite, nonsmooth, smooth_conjugate
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 42468d6..436f07a 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -5,6 +5,7 @@ import numpy as np
 from copy import copy
 
 from ..atoms import atom, _work_out_conjugate, affine_atom
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
 
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 000f03b..02e696c 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -20,6 +20,7 @@ from ._isotonic_py import pav as isotonic_regression_py
 from .seminorms import seminorm
 
 from ..atoms import _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
 
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index c1f0437..2b3132f 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -9,6 +9,7 @@ from copy import copy
 import numpy as np
 
 from ..atoms import atom, _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from .seminorms import conjugate_seminorm_pairs, seminorm, l1norm, supnorm
 from .cones import cone, conjugate_cone_pairs
 from .projl1_cython import projl1, projl1_epigraph
-- 
2.43.0


From 47bd2fb58e6cd62a166055bd306152796503acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 016/133] fix: linear classmethod of simplex, maximum and
 linear constraint atoms raises

---
 regreg/atoms/linear_constraints.py | 16 +++++++++++++---
 regreg/atoms/simplex.py            | 30 ++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index b081e10..acd9960 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -4,6 +4,7 @@ from copy import copy
 import warnings
 
 from ..problems.composite import composite, nonsmooth, smooth_conjugate
+from ..affine import linear_transform
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
@@ -93,9 +94,18 @@ class linear_constraint(cone):
     @doc_template_user
     def linear(cls, linear_operator, basis, diag=False,
                linear_term=None, offset=None):
-        l = linear_transform(linear_operator, diag=diag)
-        cone = cls(l.input_shape, basis,
-                   linear_term=linear_term, offset=offset)
+        if not isinstance(linear_operator, linear_transform):
+            l = linear_transform(linear_operator, diag=diag)
+        else:
+            l = linear_operator
+        quadratic = None
+        if linear_term is not None:
+            quadratic = identity_quadratic(0, 0, linear_term, 0)
+        # atoms SUBTRACT their offset
+        if offset is not None:
+            offset = -np.asarray(offset)
+        cone = cls(l.output_shape, basis,
+                   quadratic=quadratic, offset=offset)
         return affine_cone(cone, l)
 
 @objective_doc_templater()
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 436f07a..972aec7 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -6,6 +6,8 @@ from copy import copy
 
 from ..atoms import atom, _work_out_conjugate, affine_atom
 from ..problems.composite import smooth_conjugate
+from ..affine import linear_transform
+from ..identity_quadratic import identity_quadratic
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
 
@@ -64,9 +66,17 @@ class simplex_constraint(atom):
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
                linear_term=None, offset=None):
-        l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        if not isinstance(linear_operator, linear_transform):
+            l = linear_transform(linear_operator, diag=diag)
+        else:
+            l = linear_operator
+        quadratic = None
+        if linear_term is not None:
+            quadratic = identity_quadratic(0, 0, linear_term, 0)
+        # atoms SUBTRACT their offset
+        if offset is not None:
+            offset = -np.asarray(offset)
+        atom = cls(l.output_shape, quadratic=quadratic, offset=offset)
         return affine_atom(atom, l)
 
     @doc_template_user
@@ -196,9 +206,17 @@ class maximum(atom):
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
                linear_term=None, offset=None):
-        l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        if not isinstance(linear_operator, linear_transform):
+            l = linear_transform(linear_operator, diag=diag)
+        else:
+            l = linear_operator
+        quadratic = None
+        if linear_term is not None:
+            quadratic = identity_quadratic(0, 0, linear_term, 0)
+        # atoms SUBTRACT their offset
+        if offset is not None:
+            offset = -np.asarray(offset)
+        atom = cls(l.output_shape, quadratic=quadratic, offset=offset)
         return affine_atom(atom, l)
 
     @doc_template_user
-- 
2.43.0


From 7db5ea5d395642aab4f3c61441c0942cf2580382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 017/133] fix: affine offset of a transform enters an affine
 atom with the wrong sign

---
 regreg/atoms/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 8d02ba4..af04ab1 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -116,10 +116,11 @@ class affine_atom(object):
         # the atom. in this way, the affine_transform is actually
         # always linear
         if atransform.affine_offset is not None:
+            # atoms SUBTRACT their offset, affine transforms ADD theirs
             if self.atom.offset is not None:
-                self.atom.offset += atransform.affine_offset
+                self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
-                self.atom.offset = atransform.affine_offset
+                self.atom.offset = -atransform.affine_offset
             ltransform = linear_transform(atransform.linear_operator,
                                           diag=atransform.diagD)
         else:
-- 
2.43.0


From 7d4e5616045db6dc7d9d085a7ad657f4a5efed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 018/133] fix: mixed_lasso applies its offset twice and its
 feasibility verdicts are inverted

---
 regreg/atoms/mixed_lasso.py         | 27 ++++++++++++++++-----------
 regreg/atoms/mixed_lasso_cython.pyx | 10 +++++++---
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 0f9b969..627142a 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -152,22 +152,24 @@ class mixed_lasso(atom):
         """
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        if self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
+        x = np.asarray(x, float)
         x_offset = self.apply_offset(x)
         v = self.seminorm(x_offset, check_feasibility=check_feasibility)
         v += self.quadratic.objective(x, 'func')
         return v
 
     def seminorm(self, x, check_feasibility=False):
-        x_offset = self.apply_offset(x)
+        x = np.asarray(x, float)
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso(x_offset,
+        v = seminorm_mixed_lasso(x,
                                  self._l1_penalty,
                                  self._unpenalized,
                                  self._positive_part,
@@ -175,7 +177,7 @@ class mixed_lasso(atom):
                                  self._groups,
                                  self._weight_array,
                                  self._norms_cython,
-                                 np.int(check_feasibility))
+                                 int(check_feasibility))
 
         return v * self.lagrange
 
@@ -326,10 +328,12 @@ class mixed_lasso_dual(mixed_lasso):
     def constraint(self, x, bound=None):
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        if self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
+        x = np.asarray(x, float)
         x_offset = self.apply_offset(x)
         if check_feasibility:
             v = self.constraint(x_offset, self.bound)
@@ -339,21 +343,22 @@ class mixed_lasso_dual(mixed_lasso):
         return v
 
     def seminorm(self, x, lagrange=1, check_feasibility=False):
-        x_offset = self.apply_offset(x)
+        x = np.asarray(x, float)
 
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso_dual(x_offset, 
+        v = seminorm_mixed_lasso_dual(x, 
                                       self._l1_penalty,
                                       self._unpenalized,
                                       self._positive_part,
                                       self._nonnegative,
                                       self._groups,
                                       self._weight_array,
-                                      self._norms_cython)
-        return v 
+                                      self._norms_cython,
+                                      check_feasibility=int(check_feasibility))
+        return lagrange * v
 
     def proximal(self, proxq, prox_control=None):
         r"""
diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 2f6522e..a365563 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -126,10 +126,10 @@ def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     tol = 1.e-5
     if check_feasibility:
         xpos = x[positive_part]
-        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < tol:
+        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < -tol:
             value = np.inf
         xnn = x[nonnegative]
-        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < nntol:
+        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < -nntol:
             value = np.inf
 
     return value
@@ -312,7 +312,11 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if check_feasibility:
         xnn = x[nonnegative]
         if xnn.shape not in [(), (0,)]:
-            if xnn.min() < -nntol:
+            if xnn.max() > nntol:
+                value = np.inf
+        xun = x[unpenalized]
+        if xun.shape not in [(), (0,)]:
+            if np.fabs(xun).max() > nntol:
                 value = np.inf
 
     return value
-- 
2.43.0


From 2edec0f0ebcd18f4e08e39c0e4c289fc852689dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 019/133] fix: cone constraints reject projections near the
 apex or origin, their tolerance is purely relative

---
 regreg/atoms/cones.py       | 16 ++++++++--------
 regreg/atoms/group_lasso.py |  8 ++++----
 regreg/atoms/svd_norms.py   |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 157fc1c..ff99013 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -321,7 +321,7 @@ class nonnegative(cone):
 
     @doc_template_user
     def constraint(self, x):
-        tol_lim = np.fabs(x).max() * self.tol
+        tol_lim = max(np.fabs(x).max(), 1) * self.tol
         incone = np.all(np.greater_equal(x, -tol_lim))
         if incone:
             return 0
@@ -358,7 +358,7 @@ class nonpositive(nonnegative):
 
     @doc_template_user
     def constraint(self, x):
-        tol_lim = np.fabs(x).max() * self.tol
+        tol_lim = max(np.fabs(x).max(), 1) * self.tol
         incone = np.all(np.less_equal(x, tol_lim))
         if incone:
             return 0
@@ -459,7 +459,7 @@ class l2_epigraph(cone):
     @doc_template_user
     def constraint(self, x):
         
-        incone = np.linalg.norm(x[:-1]) <= (1 + self.tol) * x[-1]
+        incone = np.linalg.norm(x[:-1]) <= x[-1] + self.tol * max(abs(x[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -506,7 +506,7 @@ class l2_epigraph_polar(cone):
 
     @doc_template_user
     def constraint(self, x):
-        incone = np.linalg.norm(x[:-1]) <= (1 + self.tol) * (-x[-1])
+        incone = np.linalg.norm(x[:-1]) <= -x[-1] + self.tol * max(abs(x[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -553,7 +553,7 @@ class l1_epigraph(cone):
 
     @doc_template_user
     def constraint(self, x):
-        incone = np.fabs(x[:-1]).sum() <= (1 + self.tol) * x[-1]
+        incone = np.fabs(x[:-1]).sum() <= x[-1] + self.tol * max(abs(x[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -589,7 +589,7 @@ class l1_epigraph_polar(cone):
     @doc_template_user
     def constraint(self, x):
         
-        incone = np.fabs(-x[:-1]).max() <= (1 + self.tol) * ( -x[-1])
+        incone = np.fabs(-x[:-1]).max() <= -x[-1] + self.tol * max(abs(x[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -625,7 +625,7 @@ class linf_epigraph(cone):
 
     @doc_template_user
     def constraint(self, x):
-        incone = np.fabs(x[:-1]).max() <= (1 + self.tol) * x[-1]
+        incone = np.fabs(x[:-1]).max() <= x[-1] + self.tol * max(abs(x[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -662,7 +662,7 @@ class linf_epigraph_polar(cone):
 
     @doc_template_user
     def constraint(self, x):
-        incone = np.fabs(x[:-1]).sum() <= (1 + self.tol) * (-x[-1])
+        incone = np.fabs(x[:-1]).sum() <= -x[-1] + self.tol * max(abs(x[-1]), 1)
         if incone:
             return 0
         return np.inf
diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 8bc1a38..5e3d36e 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -510,7 +510,7 @@ class group_lasso_cone(cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * arg[-1]
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= arg[-1] + self.tol * max(abs(arg[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -604,7 +604,7 @@ class group_lasso_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= -arg[-1] + self.tol * max(abs(arg[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -661,7 +661,7 @@ class group_lasso_dual_epigraph(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= arg[-1] + self.tol * max(abs(arg[-1]), 1)
         if incone:
             return 0
         return np.inf
@@ -719,7 +719,7 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= -arg[-1] + self.tol * max(abs(arg[-1]), 1)
         if incone:
             return 0
         return np.inf
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 2b3132f..72ef3ba 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -260,7 +260,7 @@ class nuclear_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = np.fabs(D).sum() <= (1 + self.tol) * norm
+        incone = np.fabs(D).sum() <= norm + self.tol * max(abs(norm), 1)
         if incone:
             return 0
         return np.inf
@@ -306,7 +306,7 @@ class nuclear_norm_epigraph_polar(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = D.max() <= (1 + self.tol) * (-norm)
+        incone = D.max() <= -norm + self.tol * max(abs(norm), 1)
         if incone:
             return 0
         return np.inf
@@ -353,7 +353,7 @@ class operator_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = D.max() <= (1 + self.tol) * norm
+        incone = D.max() <= norm + self.tol * max(abs(norm), 1)
         if incone:
             return 0
         return np.inf
@@ -400,7 +400,7 @@ class operator_norm_epigraph_polar(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = D.sum() <= (1 + self.tol) * (-norm)
+        incone = D.sum() <= -norm + self.tol * max(abs(norm), 1)
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From dbe0e60b15a2ce41788658e7e784b60e69127f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 020/133] fix: weighted supnorm with no finite weight raises

---
 regreg/atoms/weighted_atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index ce4ea35..e24f49e 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -226,7 +226,7 @@ class supnorm(seminorm):
             check_zero = ~finite * (arg != 0)
             if check_zero.sum():
                 return np.inf
-        return lagrange * np.fabs(arg[finite] * self.weights[finite]).max()
+        return lagrange * np.max(np.fabs(arg[finite] * self.weights[finite]), initial=0)
 
     @doc_template_user
     def constraint(self, arg, bound=None):
-- 
2.43.0


From a159619b0e6df05f3fe0cb20c3c374af5c2ac379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 021/133] fix: block_sum and block_max can be copied, hence
 smoothed

---
 regreg/atoms/block_norms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index fdb9c21..6fc3e72 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -6,6 +6,7 @@ l1/l*, linf/l* norms. These are used in multiresponse LASSOs.
 from __future__ import print_function, division, absolute_import
 
 import warnings
+from copy import copy
 
 import numpy as np
 
@@ -51,6 +52,17 @@ class block_sum(seminorms.seminorm):
                              offset=None,
                              quadratic=quadratic)
 
+    def __copy__(self):
+        args = (copy(self.shape),)
+        if self.__class__ in [block_sum, block_max]:
+            # these constructors also take the class of the row atom
+            args = (self.atom.__class__,) + args
+        return self.__class__(*args,
+                              lagrange=copy(self.lagrange),
+                              bound=copy(self.bound),
+                              offset=copy(self.offset),
+                              quadratic=copy(self.quadratic))
+
     @doc_template_user
     @doc_template_provider
     def seminorms(self, x, lagrange=None, check_feasibility=False):
-- 
2.43.0


From ef95c17205d26475a365f91282546b5215d74fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 022/133] fix: copies of atoms do not share their quadratic or
 weights with the original

---
 regreg/atoms/linear_constraints.py | 2 +-
 regreg/atoms/mixed_lasso.py        | 8 ++++----
 regreg/atoms/simplex.py            | 4 ++--
 regreg/atoms/slope.py              | 2 +-
 regreg/atoms/sparse_group_block.py | 2 +-
 regreg/atoms/sparse_group_lasso.py | 2 +-
 regreg/atoms/svd_norms.py          | 2 +-
 regreg/atoms/weighted_atoms.py     | 2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index acd9960..b9970c8 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -55,7 +55,7 @@ class linear_constraint(cone):
         return self.__class__(copy(self.shape),
                               self.basis.copy(),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 627142a..eebfd2d 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -90,10 +90,10 @@ class mixed_lasso(atom):
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
                               self.lagrange,
-                              weights=self.weights,
+                              weights=copy(self.weights),
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -275,10 +275,10 @@ class mixed_lasso_dual(mixed_lasso):
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
                               self.bound,
-                              weights=self.weights,
+                              weights=copy(self.weights),
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 972aec7..c299b3d 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -30,7 +30,7 @@ class simplex_constraint(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -170,7 +170,7 @@ class maximum(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 02e696c..b01a5c9 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -90,7 +90,7 @@ class slope(seminorm):
 
     def __copy__(self):
          return self.__class__(self.weights.copy(),
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 08efd10..9609c25 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -113,7 +113,7 @@ class sparse_group_block(l1_l2):
          return self.__class__(self.shape,
                                self.l1_weight,
                                self.l2_weight,
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index d0e56ba..12447e9 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -120,7 +120,7 @@ class sparse_group_lasso(group_lasso, seminorm):
          return self.__class__(self.groups.copy(),
                                self.lasso_weights.copy(),
                                weights=copy(self.weights),
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 72ef3ba..94f9019 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -195,7 +195,7 @@ class svd_cone(cone):
         return self.__class__(copy(self.matrix_shape),
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
 
     def __repr__(self):
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index e24f49e..15fb0de 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -52,7 +52,7 @@ class seminorm(unweighted_seminorm):
 
     def __copy__(self):
         return self.__class__(self.weights.copy(),
-                              quadratic=self.quadratic,
+                              quadratic=copy(self.quadratic),
                               initial=self.coefs,
                               bound=copy(self.bound),
                               lagrange=copy(self.lagrange),
-- 
2.43.0


From 1eeb5054918ba2d6885a9b5a0c5fc9ef5f427aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 023/133] fix: identity_quadratic.recenter keeps the constant
 and accepts any center

---
 regreg/identity_quadratic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 8762578..65b77df 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -98,7 +98,10 @@ class identity_quadratic(object):
 
         if offset is not None:
             cpq = copy(self)
-            cpq.center -= offset 
+            # q(x) = cpq(x - offset)
+            if cpq.linear_term is not None:
+                cpq.constant_term = cpq.constant_term + (cpq.linear_term * offset).sum()
+            cpq.center = (0 if cpq.center is None else cpq.center) - offset
             cpq = cpq.collapsed()
             return offset, cpq
         else:
-- 
2.43.0


From 0176744e0bf74325b79cc94e221f535d82c66661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 024/133] fix: identity_quadratic.noneify looked for a missing
 attribute

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 65b77df..a5bc6dd 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -83,8 +83,8 @@ class identity_quadratic(object):
             self.constant_term = 0
         if self.linear_term is not None and all(self.linear_term == 0):
             self.linear_term = None
-        if self.center is not None and all(self.center_term == 0):
-            self.center_term = None
+        if self.center is not None and all(self.center == 0):
+            self.center = None
 
     def zeroify(self):
         for a in ['coef', 'center', 'linear_term', 'constant_term']:
-- 
2.43.0


From bf9d9719b935245335f4294c1e31ceef403d06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 025/133] fix: conjugate of a linear function is the indicator
 of its linear term

---
 regreg/identity_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index a5bc6dd..515a8d9 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -256,4 +256,4 @@ class identity_quadratic(object):
             # possible import problem here
             from ..atoms.cones import zero_constraint
             q = identity_quadratic(0,0,0,-a.constant_term)
-            return zero_constraint(a.linear_term.shape, offset=-a.linear_term, quadratic=q)
+            return zero_constraint(a.linear_term.shape, offset=a.linear_term, quadratic=q)
-- 
2.43.0


From 068f6f70c834bed7fca1c73abb2b9ef07ce74fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 026/133] fix: identity_quadratic.conjugate of a linear
 function could not import the zero constraint

---
 regreg/identity_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 515a8d9..252482c 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -254,6 +254,6 @@ class identity_quadratic(object):
                                       -a.constant_term)
         else:
             # possible import problem here
-            from ..atoms.cones import zero_constraint
+            from .atoms.cones import zero_constraint
             q = identity_quadratic(0,0,0,-a.constant_term)
             return zero_constraint(a.linear_term.shape, offset=a.linear_term, quadratic=q)
-- 
2.43.0


From faaa6f104104213bfc7ab93bc511a082f0f82c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 027/133] fix: composition reported no offset exactly when it
 has one

---
 regreg/affine/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4289826..c3f9ed8 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -850,7 +850,7 @@ class composition(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if not np.allclose(affine_offset, 0): 
+        if np.all(np.equal(affine_offset, 0)):
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
-- 
2.43.0


From e8a92d7d426d9644f98e4030415c062ce88ab682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 028/133] fix: aslinear swapped input and output shapes

---
 regreg/affine/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index c3f9ed8..96dd834 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -753,8 +753,8 @@ class aslinear(linear_transform):
     def __init__(self, transform):
         self._transform = astransform(transform)
         self.affine_offset = None
-        self.input_shape = self._transform.output_shape
-        self.output_shape = self._transform.input_shape
+        self.input_shape = self._transform.input_shape
+        self.output_shape = self._transform.output_shape
 
     def linear_map(self, x):
         return self._transform.linear_map(x)
-- 
2.43.0


From 040683ece83d09615cd499a36abc29b5ee084098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 029/133] fix: affine_sum dropped small offsets from
 affine_offset

---
 regreg/affine/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 96dd834..7e1033a 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -892,7 +892,7 @@ class affine_sum(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if np.allclose(affine_offset, 0): 
+        if np.all(np.equal(affine_offset, 0)):
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
-- 
2.43.0


From f82927975ab95ed8468f8f389ad7f9d0074a2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 030/133] fix: every affine transform reports its affine_offset
 (scaler, reshape, intercept, blocks, scalar multiple, residual)

---
 regreg/affine/__init__.py   | 21 +++++++++++++++++++--
 regreg/affine/block_maps.py |  4 ++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 7e1033a..84cb807 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -33,6 +33,17 @@ def broadcast_first(a, b, op):
     return op(a, b).reshape(shape)
 
 
+def _offset_of(transform):
+    """
+    The offset of a transform as observed through its affine_map, 
+    None if there is none.
+    """
+    offset = transform.affine_map(np.zeros(transform.input_shape))
+    if np.all(np.equal(offset, 0)):
+        return None
+    return offset
+
+
 class AffineError(Exception):
     pass
 
@@ -341,6 +352,8 @@ class scaler(linear_transform):
     def __init__(self, scalings):
         self.scalings = np.asarray(scalings)
         self.input_shape = self.output_shape = self.scalings.shape
+        self.affine_offset = None
+        self.linear_operator = None
 
     def linear_map(self, x):
         return self.scalings * x
@@ -361,6 +374,8 @@ class reshape(linear_transform):
     def __init__(self, input_shape, output_shape):
         self.input_shape = input_shape
         self.output_shape = output_shape
+        self.affine_offset = None
+        self.linear_operator = None
 
     def linear_map(self, x):
         return x.reshape(self.output_shape)
@@ -465,7 +480,8 @@ class add_intercept(affine_transform):
         self.input_shape = (self._transform.input_shape[0] + 1,) # assumes a vector input, 
         self.output_shape = self._transform.output_shape
         self.linear_operator = None
-        
+        self.affine_offset = _offset_of(self)
+
     def affine_map(self, x): # first coordinate is intercept
         return self._transform.affine_map(x[1:]) + x[0]
 
@@ -827,6 +843,7 @@ class residual(affine_transform):
         self.affine_offset = None
         if not self.input_shape == self.output_shape:
             raise ValueError('output and input shapes should be the same to compute residual')
+        self.affine_offset = _offset_of(self)
 
     def linear_map(self, x):
         return x - self.transform.linear_map(x)
@@ -921,8 +938,8 @@ class scalar_multiply(affine_transform):
     def __init__(self, atransform, scalar):
         self.input_shape, self.output_shape = (atransform.input_shape, atransform.output_shape)
         self.scalar = scalar
-        self.affine_offset = None
         self._atransform = atransform
+        self.affine_offset = _offset_of(self)
 
     def affine_map(self, x):
         if self.scalar != 1.:
diff --git a/regreg/affine/block_maps.py b/regreg/affine/block_maps.py
index 995d56c..3662548 100644
--- a/regreg/affine/block_maps.py
+++ b/regreg/affine/block_maps.py
@@ -59,6 +59,8 @@ class block_columns(affine_transform):
         for offset in self._offsets:
             self._slices.append(slice(idx, idx+offset.shape[0], 1))
             idx += offset.shape[0]
+        self.affine_offset = _buffer if np.any(_buffer) else None
+        self.linear_operator = None
 
     def affine_map(self, arg):
         
@@ -146,6 +148,8 @@ class block_rows(affine_transform):
             raise ValueError('output of transforms should be the same and hstackable')
 
         self.output_shape = self._offset.shape
+        self.affine_offset = self._offset if np.any(self._offset) else None
+        self.linear_operator = None
 
     def affine_map(self, arg):
         
-- 
2.43.0


From a76c2df7b70e6e7ddd5c9a21f8f778691bb3b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 031/133] fix: affine_offset of a nested affine transform is
 its total offset, a linear transform has none

---
 regreg/affine/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 84cb807..a1c2f9f 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -111,6 +111,13 @@ class affine_transform(object):
                 self.output_shape = self.linear_operator.output_shape
                 self.affineD = True
                 self.diagD = False
+                # the total offset includes that of the operator
+                inner_offset = self.linear_operator.affine_offset
+                if inner_offset is not None:
+                    if self.affine_offset is None:
+                        self.affine_offset = inner_offset
+                    else:
+                        self.affine_offset = self.affine_offset + inner_offset
             elif linear_operator.ndim == 1 and not diag:
                 self.linear_operator = self.linear_operator.reshape((1,-1))
                 self.diagD = False
@@ -225,10 +232,7 @@ class affine_transform(object):
         This routine is subclassed in affine_atom as a matrix multiplications,
         but could also call FFTs if D is a DFT matrix, in a subclass.
         """
-        if self.affineD:
-            v = self.linear_operator.affine_map(x)
-        else:
-            v = self.linear_map(x)
+        v = self.linear_map(x)
         if self.affine_offset is not None:
             # Deal with 1D and 2D input, affine_offset cases
             return broadcast_first(self.affine_offset, v, add)
@@ -279,6 +283,8 @@ class linear_transform(affine_transform):
         if linear_operator is None:
             raise AffineError('linear_operator cannot be None')
         affine_transform.__init__(self, linear_operator, None, diag=diag, input_shape=input_shape)
+        # only the linear part of linear_operator is used
+        self.affine_offset = None
 
 
 class selector(linear_transform):
-- 
2.43.0


From 611e44bce91e4ab8476b9e22fda2eaef94cd909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 032/133] fix: selector.adjoint_map returned its internal
 buffer, reshaped its argument and lost repeated indices

---
 regreg/affine/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index a1c2f9f..b8e4e62 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -336,22 +336,24 @@ class selector(linear_transform):
     def linear_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.linear_map(x_indexed)
 
     def affine_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
-        if not hasattr(self, "_output"):
-            self._output = np.zeros(self.initial_shape)
+        output = np.zeros(self.initial_shape)
         if self.reshape is not None:
-            u.shape = self.affine_transform.output_shape
-        self._output[self.index_obj] = self.affine_transform.adjoint_map(u)
-        return self._output
+            u = u.reshape(self.affine_transform.output_shape)
+        adj = np.asarray(self.affine_transform.adjoint_map(u))
+        # indices may be repeated
+        np.add.at(output, self.index_obj, 
+                  adj.reshape(output[self.index_obj].shape))
+        return output
 
 class scaler(linear_transform):
 
-- 
2.43.0


From d850ebea4da38ac4019e866df0d8258c4ccdf96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 033/133] fix: posneg.adjoint_map returned its internal buffer

---
 regreg/affine/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index b8e4e62..de88d72 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -972,10 +972,8 @@ class posneg(affine_transform):
 
     def __init__(self, linear_transform):
         self.linear_transform = astransform(linear_transform)
-        # where to store output so we don't recreate arrays 
         self.affine_offset = None
         self.input_shape = (2,) + self.linear_transform.input_shape
-        self._adjoint_output = np.zeros(self.input_shape)
         self.output_shape = self.linear_transform.output_shape
 
     def linear_map(self, x):
@@ -986,7 +984,7 @@ class posneg(affine_transform):
         return self.linear_map(x)
 
     def adjoint_map(self, x):
-        u = self._adjoint_output
+        u = np.zeros(self.input_shape)
         u[0] = self.linear_transform.adjoint_map(x)
         u[1] = -u[0]
         return u
-- 
2.43.0


From ed104707667cef4b4c8b97481150f0d9bc64538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 034/133] fix: vstack and product accept blocks with matrix
 output

---
 regreg/affine/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index de88d72..fe1ee5a 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -569,20 +569,20 @@ class vstack(affine_transform):
         self.affine_offset = np.empty(self.output_shape)
         x = np.zeros(self.input_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            self.affine_offset[g] = t.affine_map(x)
+            self.affine_offset[g] = t.affine_map(x).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
             
     def linear_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         return result
 
     def affine_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -702,7 +702,7 @@ class product(affine_transform):
         self.affine_offset = np.zeros(self.output_shape)
         for g, s, t in zip(self.output_slices, self.input_shapes,
                            self.transforms):
-            self.affine_offset[g] = t.affine_map(np.zeros(s))
+            self.affine_offset[g] = t.affine_map(np.zeros(s)).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
 
@@ -712,7 +712,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         return result
 
     def affine_map(self, x):
@@ -721,7 +721,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -732,8 +732,8 @@ class product(affine_transform):
         for og, ig, t, s in zip(self.output_slices,
                                 self.input_slices, 
                                 self.transforms,
-                                self.input_shapes):
-            result[ig] = t.adjoint_map(u[og]).reshape(-1)
+                                self.output_shapes):
+            result[ig] = t.adjoint_map(u[og].reshape(s)).reshape(-1)
         return result
 
 
-- 
2.43.0


From 7f1301f3da8b890ccd8bf9dfa63af67e4525141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 035/133] fix: scaler multiplied the columns instead of the
 rows of a matrix

---
 regreg/affine/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index fe1ee5a..011a5ef 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -364,6 +364,9 @@ class scaler(linear_transform):
         self.linear_operator = None
 
     def linear_map(self, x):
+        if self.scalings.ndim == 1 and x.ndim == 2:
+            # a matrix of columns
+            return self.scalings[:, np.newaxis] * x
         return self.scalings * x
 
     def affine_map(self, x):
-- 
2.43.0


From c2186bbdb404017200e4c108a37062d722927d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 036/133] fix: atoms can be composed with any affine transform
 that has an offset

---
 regreg/atoms/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index af04ab1..cf95dd3 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -6,7 +6,7 @@ import numpy as np
 from ..identity_quadratic import identity_quadratic
 from ..problems.composite import nonsmooth
 from ..affine import (linear_transform, identity as identity_transform, 
-                    affine_transform)
+                    affine_transform, aslinear)
 from ..smooth import affine_smooth
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
@@ -121,8 +121,12 @@ class affine_atom(object):
                 self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
                 self.atom.offset = -atransform.affine_offset
-            ltransform = linear_transform(atransform.linear_operator,
-                                          diag=atransform.diagD)
+            if getattr(atransform, 'linear_operator', None) is not None:
+                ltransform = linear_transform(atransform.linear_operator,
+                                              diag=atransform.diagD)
+            else:
+                # e.g. a composition or a stack of transforms
+                ltransform = aslinear(atransform)
         else:
             ltransform = atransform
         self.linear_transform = ltransform
-- 
2.43.0


From b399e04584c5dd17fce08348600d13e9b36ae9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 037/133] fix: power_L of a zero transform was nan

---
 regreg/affine/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 011a5ef..8408344 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -757,6 +757,9 @@ def power_L(transform, max_its=500,tol=1e-8, debug=False):
         v = transform.adjoint_map(transform.linear_map(v))
         old_norm = norm
         norm = np.linalg.norm(v)
+        if norm == 0:
+            # the linear part is zero
+            return 0.
         v /= norm
         if debug:
             print("L", norm)
-- 
2.43.0


From 52de84aaa6ec5afbbd3c9eafc26a42a0988e826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 038/133] fix: scalar affine offsets are broadcast

---
 regreg/affine/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 8408344..21a2743 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -26,6 +26,7 @@ def broadcast_first(a, b, op):
         shape equal to ``b.shape``
     """
     shape = b.shape
+    a = np.asarray(a)
     if a.ndim == 1:
         a = a[:,None]
     if b.ndim == 1:
-- 
2.43.0


From 7787b0c9c530c7300df32792be1a74cdb6a9c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 039/133] fix: normalize without cancellation: constant columns
 map to zero, sparse scaling without centering, integer data

---
 regreg/affine/__init__.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 21a2743..c087799 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -450,23 +450,25 @@ def normalize(transform,
     n = M.shape[0]
 
     if center:
-        if not sparseM:
-            col_means = M.mean(0)
-        else:
-            tmp = M.copy()
-            col_means = np.asarray(tmp.mean(0)).reshape(-1)
-            tmp.data **= 2
+        col_means = np.asarray(M.mean(0)).reshape(-1)
     else:
         col_means = np.zeros(M.shape[1])
         ddof = ddof - 1
 
     if scale:
+        # sum of squares about col_means: subtracting n * col_means**2 from
+        # the raw sum of squares leaves only rounding for constant columns
         if not sparseM:
-            col_scales = np.sqrt((np.sum(M**2,0) - n * col_means**2) / (n - ddof)) 
+            col_ss = np.sum((M - col_means)**2, 0)
         else:
-            col_scales = np.asarray(np.sqrt((np.asarray(tmp.sum(0)).reshape(-1) -
-                                             n * col_means**2) / (n - ddof))).reshape(-1)
-        nonzero_scales = col_scales > 0
+            tmp = sparse.csc_matrix(M, dtype=float, copy=True)
+            tmp.sum_duplicates()
+            nstored = np.diff(tmp.indptr)
+            tmp.data -= np.repeat(col_means, nstored)
+            tmp.data **= 2
+            col_ss = np.asarray(tmp.sum(0)).reshape(-1) + (n - nstored) * col_means**2
+        col_scales = np.sqrt(col_ss / (n - ddof))
+        nonzero_scales = col_scales > n * np.finfo(float).eps * np.fabs(col_means)
         inv_col_scales = np.zeros_like(col_scales)
         inv_col_scales[nonzero_scales] = 1 / col_scales[nonzero_scales]
 
-- 
2.43.0


From 30dd79e1be41087c9c4bb9e82af3c6e1c28cee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 040/133] fix: trend filters difference along the sorted knots

---
 regreg/affine/fused_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 9804fec..2f09ff2 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -56,7 +56,7 @@ class trend_filter(affine_transform):
         self.knots = np.sort(knots)
         self.steps = self.knots[1:] - self.knots[:-1]
 
-        self.linear_transform = difference_transform(knots, order=order, sorted=True,
+        self.linear_transform = difference_transform(self.knots, order=order, sorted=True,
                                                      transform=True)
         self.affine_offset = None
         self.input_shape = self.linear_transform.input_shape
@@ -85,7 +85,7 @@ class trend_filter_inverse(affine_transform):
         if order != 1:
             raise ValueError('pseudo inverse only worked out for first order')
             
-        dtransform = difference_transform(knots, order=order, sorted=True,
+        dtransform = difference_transform(self.knots, order=order, sorted=True,
                                           transform=True)
 
         self.affine_offset = None
-- 
2.43.0


From 5517c1e5038be075b6ab13962f903146f28307f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 041/133] fix: trend_filter_inverse: adjoint accumulates along
 the signal for matrices

---
 regreg/affine/fused_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 2f09ff2..ec47c8a 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -120,7 +120,7 @@ class trend_filter_inverse(affine_transform):
         if x.ndim == 2:
             # assuming m is the first axis
             x = x - x.mean(0)[np.newaxis,:]
-            C = np.cumsum(x[1:][::-1], 1)[::-1]
+            C = np.cumsum(x[1:][::-1], 0)[::-1]
             return C * self.steps[:,np.newaxis]
 
 
-- 
2.43.0


From 1fcaba3654904acd3b8fbb107622a92509744b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 042/133] fix: SMUCE_stat restores the scaling of the transform
 and uses sigma

---
 regreg/affine/multiscale.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index dfdd7e5..11bb26e 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -214,8 +214,12 @@ def SMUCE_stat(M, Z, sigma=None):
     M.scaling, old = np.sqrt(M.sizes), M.scaling
     Z0 = Z - Z.mean()
     if sigma is None:
-        sigma_hat = np.std(Z)
-    T = np.fabs(M.linear_map(Z0) / sigma_hat) - np.sqrt(2 * np.log(p / M.sizes))
+        sigma = np.std(Z)
+    try:
+        stat = M.linear_map(Z0)
+    finally:
+        M.scaling = old
+    T = np.fabs(stat / sigma) - np.sqrt(2 * np.log(p / M.sizes))
     idx = np.argmax(T)
     return T[idx], M.slices[idx]
 
@@ -250,6 +254,6 @@ def choose_tuning_parameter(M, ndraw=100, quantile=0.95, sigma=None):
     p = M.input_shape[0]
     for i in range(ndraw):
         Z = np.random.standard_normal(p)
-        V.append(SMUCE_stat(M, Z)[0])
+        V.append(SMUCE_stat(M, Z, sigma=sigma)[0])
     return np.percentile(V, 100*quantile)
 
-- 
2.43.0


From 7281f6ce0522e86ab71f030483aa177b2f427466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 043/133] fix: partial_svd: ranks and warm starts wider than
 the smaller dimension

---
 regreg/affine/factored_matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d163e22..d0af410 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -319,14 +319,15 @@ def partial_svd(transform,
     n = np.product(transform.output_shape)
     p = np.product(transform.input_shape)
 
-    rank = int(np.min([rank,p]))
-    q = np.min([rank + padding, p])
+    rank = int(np.min([rank,n,p]))
+    q = int(np.min([rank + padding,n,p]))
     if warm_start is not None:
         if warm_start.shape == (n,q):
             U = warm_start
         elif len(warm_start.shape) == 1:
             U = np.hstack([warm_start.reshape((warm_start.shape[0],1)), np.random.standard_normal((n,q-1))])            
         else:
+            warm_start = warm_start[:,:q]
             U = np.hstack([warm_start, np.random.standard_normal((n,q-warm_start.shape[1]))])            
     else:
         U = np.random.standard_normal((n,q))
-- 
2.43.0


From 1e8cb3bcc5a404add7b68f23391de050706cd5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:08 +0000
Subject: [PATCH 044/133] fix: factored operator_norm of wide matrices: shape
 of the warm start

---
 regreg/affine/factored_matrix.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d0af410..c03058f 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -399,7 +399,7 @@ class nuclear_norm(nuclear_norm_atom):
         else:
             self.warm_start = warm_start
             if warm_start.shape != (m, self.initial_rank):
-                raise ValueError('expecting warm_start to have shape %s' % (m, self.initial_rank))
+                raise ValueError('expecting warm_start to have shape %s' % ((m, self.initial_rank),))
 
     @doc_template_user
     def seminorm(self, X, check_feasibility=False,
@@ -512,12 +512,15 @@ class operator_norm(operator_norm_atom):
                                     initial=0)
 
         self.initial_rank = initial_rank
+        # as for the nuclear norm, the warm start is of
+        # whichever side has largest dimension
+        m = max(self.shape)
         if warm_start is None:
-            self.warm_start = np.random.standard_normal((self.shape[0], self.initial_rank))
+            self.warm_start = np.random.standard_normal((m, self.initial_rank))
         else:
             self.warm_start = warm_start
-            if warm_start.shape != (self.shape[0], self.initial_rank):
-                raise ValueError('expecting warm_start to have shape %s' % (self.shape[0], self.initial_rank))
+            if warm_start.shape != (m, self.initial_rank):
+                raise ValueError('expecting warm_start to have shape %s' % ((m, self.initial_rank),))
 
         self._nuclear_atom = nuclear_norm(shape,
                                           lagrange=lagrange,
-- 
2.43.0


From 36c7bbb2b85761d8d4b47edcf9355e8a999181bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:08 +0000
Subject: [PATCH 045/133] fix: factored nuclear_norm: proximal map honours the
 lipschitz constant

---
 regreg/affine/factored_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index c03058f..df1174d 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -417,6 +417,7 @@ class nuclear_norm(nuclear_norm_atom):
         def soft_threshold_rule(L):
             return lambda D: np.fabs(D).min() <= L
 
+        lagrange = lagrange / lipschitz
         svt_rule = soft_threshold_rule(lagrange)
         if self.warm_start is not None:
             padding = 0
-- 
2.43.0


From e40fad1dad35216a4daffc70bd797cd7e231a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:08 +0000
Subject: [PATCH 046/133] fix: factored_matrix: copies keep the affine offset

---
 regreg/affine/factored_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index df1174d..5fe1504 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -52,7 +52,8 @@ class factored_matrix(object):
             self.X = astransform(linear_operator)
 
     def copy(self):
-        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()])
+        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()],
+                               affine_offset=self.affine_offset)
 
     def _setX(self,transform):
         transform = astransform(transform)
-- 
2.43.0


From ea125e00662a53c353b8f0b7f1af74a78b0ccc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 047/133] fix: factored_matrix: zero transforms, cutoffs
 relative to the scale

---
 regreg/affine/factored_matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index 5fe1504..a980f73 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -229,10 +229,10 @@ def compute_iterative_svd(transform,
         if rank > max_rank:
             raise ValueError('maximum rank exceeded')
 
-        if np.max(D) < 1.e-14:
+        if np.max(D) == 0:
             break
 
-    ind = np.where(D >= min_singular)[0]
+    ind = np.where(D >= min_singular * np.max(D))[0]
     if not need_to_transpose:
         if U.ndim == 2:
             return U[:,ind], D[ind],  VT[ind,:]
@@ -362,11 +362,12 @@ def partial_svd(transform,
 
     singular_values = np.diagonal(R)[ind]
 
-    nonzero = np.where(np.fabs(singular_values) > 1e-12)[0]
+    # relative to the largest: the scale of the transform is arbitrary
+    nonzero = np.where(np.fabs(singular_values) > 1e-12 * np.fabs(singular_values).max())[0]
     if len(nonzero):
         return U[:,ind[nonzero]] * np.sign(singular_values[nonzero]), np.fabs(singular_values[nonzero]),  V[:,ind[nonzero]].T
     else:
-        return U[:,ind[0]], np.zeros((1,1)),  V[:,ind[0]].T
+        return U[:,ind[:1]], np.zeros(1),  V[:,ind[:1]].T
 
 @objective_doc_templater()
 class nuclear_norm(nuclear_norm_atom):
-- 
2.43.0


From ce7d9d9af20a3d45df7a7af784bdd5ff3f8c1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 048/133] fix: partial_svd: a warm start orthogonal to the
 leading singular vectors

---
 regreg/affine/factored_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index a980f73..b53037d 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -330,6 +330,10 @@ def partial_svd(transform,
         else:
             warm_start = warm_start[:,:q]
             U = np.hstack([warm_start, np.random.standard_normal((n,q-warm_start.shape[1]))])            
+        # leading singular vectors orthogonal to the guess would never be found
+        scale = np.sqrt(np.sum(U**2, 0) / n)
+        scale[scale == 0] = 1
+        U = U + 0.1 * scale * np.random.standard_normal(U.shape)
     else:
         U = np.random.standard_normal((n,q))
 
-- 
2.43.0


From 1c9b970e9c43a27e86f35baf1f9ca025e11e642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 049/133] fix: losses no longer overwrite the case weights they
 are given

---
 regreg/smooth/binary.py | 14 +++++++-------
 regreg/smooth/cox.py    |  4 ++--
 regreg/smooth/glm.py    | 12 ++++++------
 regreg/smooth/mglm.py   |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 8d0a9b3..e3a826d 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -92,7 +92,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -169,7 +169,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         if np.max(x) > 1e2:
             overflow = True
@@ -350,7 +350,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -417,7 +417,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -590,7 +590,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -660,7 +660,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -826,7 +826,7 @@ class huber_svm(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         huber_arg = (2 * self.successes - 1) * param # first encode binary as \pm 1
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f977389..f9d11f7 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -97,7 +97,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         censoring = self.censoring
 
@@ -170,7 +170,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         eta = natural_param # shorthand
         eta = self.apply_offset(eta)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e2acad2..55d7d02 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -913,7 +913,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         natural_param = self.apply_offset(natural_param)
         resid = natural_param - self.response 
@@ -957,7 +957,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
         return self.scale(np.ones_like(natural_param) * cw)
 
     def get_data(self):
@@ -1104,7 +1104,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -1151,7 +1151,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         return self.scale(cw * np.exp(x))
             
@@ -1289,7 +1289,7 @@ class huber_loss(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         resid = param - self.response 
@@ -1481,7 +1481,7 @@ class stacked_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         linpred = natural_param # shorthand
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a2e738a..1a78de6 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -345,7 +345,7 @@ class stacked_common_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
-- 
2.43.0


From 215ef7b2032fce82478be92bd1dcdcdcc5883e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 050/133] fix: copies (hence subsamples) of the Huber losses
 keep their case weights

---
 regreg/smooth/binary.py | 3 ++-
 regreg/smooth/glm.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index e3a826d..4697af4 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -918,7 +918,8 @@ class huber_svm(smooth_atom):
                          coef=self.coef,
                          offset=copy(self.offset),
                          quadratic=copy(self.quadratic),
-                         initial=copy(self.coefs))
+                         initial=copy(self.coefs),
+                         case_weights=copy(self.case_weights))
     
     # End loss API
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 55d7d02..ab1f415 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1380,7 +1380,8 @@ class huber_loss(smooth_atom):
                           coef=self.coef,
                           offset=copy(self.offset),
                           quadratic=copy(self.quadratic),
-                          initial=copy(self.coefs))
+                          initial=copy(self.coefs),
+                          case_weights=copy(self.case_weights))
 
     # End loss API
 
-- 
2.43.0


From 3af0592b953c4499162702a5430f1ea3c7a2a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 051/133] fix: Hessians of the logistic, Poisson and general
 linear model losses honour offsets and large linear predictors

---
 regreg/smooth/binary.py | 11 ++---------
 regreg/smooth/glm.py    |  3 ++-
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 4697af4..664bc93 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -171,15 +171,8 @@ class logistic_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        if np.max(x) > 1e2:
-            overflow = True
-            not_overflow_ind = np.where(x <= 1e2)[0]
-            exp_x = np.zeros_like(x)
-            exp_x[not_overflow_ind] = np.exp(x[not_overflow_ind])
-            exp_x[~not_overflow_ind] = np.exp(100)
-        else:
-            overflow = False
-            exp_x = np.exp(x)
+        x = self.apply_offset(x)
+        exp_x = np.exp(np.minimum(x, 1e2)) # to prevent overflow
 
         return self.scale(exp_x / (1 + exp_x)**2 * self.trials * cw)
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index ab1f415..10b03e3 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -225,7 +225,7 @@ class glm(smooth_atom):
 
         """
 
-        linpred = self.linear_predictor(beta)
+        linpred = self.linear_predictor(self.apply_offset(beta))
         X = self.data[0]
         if self._is_transform:
             raise ValueError('refusing to form Hessian for arbitrary affine_transform, use an ndarray or scipy.sparse')
@@ -1153,6 +1153,7 @@ class poisson_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
+        x = self.apply_offset(x)
         return self.scale(cw * np.exp(x))
             
     def get_data(self):
-- 
2.43.0


From 4c0bb41d20e3ff4beaa6e1db25ee6e5750c66114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 052/133] fix: probit loss honours its offset and is consistent
 for large linear predictors

---
 regreg/smooth/binary.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 664bc93..af01477 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -346,35 +346,30 @@ class probit_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
+        # work on the log scale to prevent overflow
 
-        prob = normal_dbn.cdf(x)
-        prob[x < -20] = normal_dbn.cdf(-20)   # to prevent overflow
-        prob_c = normal_dbn.sf(x) # to prevent overflow
-        prob_c[x > 20] = normal_dbn.sf(20)
+        lprob = normal_dbn.logcdf(x)
+        lprob_c = normal_dbn.logsf(x)
 
         if mode == 'both':
 
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-            pdf = normal_dbn.pdf(x)
+            lpdf = normal_dbn.logpdf(x)
 
             f, g = (-self.scale(np.sum(cw * (self.successes * lprob + 
                                             (self.trials - self.successes) * lprob_c))),
-                     -self.scale(cw * pdf * (self.successes / prob - 
-                                             (self.trials - self.successes) / prob_c)))
+                     -self.scale(cw * (self.successes * np.exp(lpdf - lprob) - 
+                                       (self.trials - self.successes) * np.exp(lpdf - lprob_c))))
             return f, g
         elif mode == 'grad':
-            pdf = normal_dbn.pdf(x)
-            g = - self.scale(cw * pdf * (self.successes / prob - 
-                                         (self.trials - self.successes) / prob_c)) 
+            lpdf = normal_dbn.logpdf(x)
+            g = - self.scale(cw * (self.successes * np.exp(lpdf - lprob) - 
+                                   (self.trials - self.successes) * np.exp(lpdf - lprob_c)))
             return g
 
         elif mode == 'func':
 
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-
             f = -self.scale(np.sum(cw * (self.successes * lprob + 
                                          (self.trials - self.successes) * lprob_c)))
             return f
@@ -412,10 +407,9 @@ class probit_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
-        deriv_term = normal_dbn.pdf(x)**2
-        return self.scale(deriv_term * self.trials * cw / V)
+        x = self.apply_offset(x)
+        info = np.exp(2 * normal_dbn.logpdf(x) - normal_dbn.logcdf(x) - normal_dbn.logsf(x))
+        return self.scale(info * self.trials * cw)
 
     def get_data(self):
         return self.successes
-- 
2.43.0


From 9c887f51b08f4bc9dd7eba3ca6a17cabb03d3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 053/133] fix: complementary log-log loss, curvature and mean
 are those of the model beyond |eta|=5 and honour the offset

---
 regreg/smooth/binary.py | 44 ++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index af01477..1a2b0d1 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -580,37 +580,28 @@ class cloglog_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
+
+        haz, prob = self._hazard(x)
+        lprob_c = -haz
 
-        cutoff = 5
-        x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
-        prob_ = 1 - np.exp(-np.exp(x_))
-        prob_c_ = np.exp(-np.exp(x_)) 
-        prob = prob_.copy()
-        prob_c = prob_c_.copy()
         if mode == 'both':
 
             lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-            lpdf = x - np.exp(x)
-            pdf = np.exp(lpdf)
 
             f, g = (-self.scale(np.sum(cw * (self.successes * lprob + 
                                             (self.trials - self.successes) * lprob_c))),
-                     -self.scale(cw * pdf * (self.successes / prob - 
-                                             (self.trials - self.successes) / prob_c)))
+                     -self.scale(cw * (self.successes * haz * np.exp(-haz) / prob - 
+                                       (self.trials - self.successes) * haz)))
             return f, g
         elif mode == 'grad':
-            lpdf = x - np.exp(x)
-            pdf = np.exp(lpdf)
-
-            g = - self.scale(cw * pdf * (self.successes / prob - 
-                                         (self.trials - self.successes) / prob_c)) 
+            g = - self.scale(cw * (self.successes * haz * np.exp(-haz) / prob - 
+                                   (self.trials - self.successes) * haz))
             return g
 
         elif mode == 'func':
 
             lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
 
             f = -self.scale(np.sum(cw * (self.successes * lprob + 
                                          (self.trials - self.successes) * lprob_c)))
@@ -649,12 +640,10 @@ class cloglog_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
-        lpdf = x - np.exp(x)
-        pdf = np.exp(lpdf)
-        deriv_term = pdf**2
-        return self.scale(deriv_term * self.trials * cw / V)
+        x = self.apply_offset(x)
+        haz, prob = self._hazard(x)
+        info = haz * (haz * np.exp(-haz)) / prob
+        return self.scale(info * self.trials * cw)
 
     def get_data(self):
         return self.successes
@@ -735,8 +724,13 @@ class cloglog_loglike(smooth_atom):
     # End loss API
 
     def mean_function(self, eta, trials=None):
-        eta = np.clip(eta, -5, 5)
-        return 1 - np.exp(-np.exp(eta))
+        return self._hazard(eta)[1]
+
+    @staticmethod
+    def _hazard(eta):
+        # returns exp(eta) and 1 - exp(-exp(eta)), clipping to prevent overflow
+        haz = np.exp(np.clip(eta, -500, 500))
+        return haz, -np.expm1(-haz)
 
 class huber_svm(smooth_atom):
 
-- 
2.43.0


From beb480ca189bb28dd0bdac64a0b2ed450637f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 054/133] fix: copies of the likelihood losses do not add their
 constant again

---
 regreg/smooth/binary.py | 51 ++++++++++++++++++++++-------------------
 regreg/smooth/glm.py    | 15 ++++++------
 2 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 1a2b0d1..961de56 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -210,14 +210,15 @@ class logistic_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return logistic_loglike(self.shape,
-                                copy(successes),
-                                trials=copy(trials),
-                                coef=self.coef,
-                                offset=copy(self.offset),
-                                quadratic=copy(self.quadratic),
-                                initial=copy(self.coefs),
-                                case_weights=copy(self.case_weights))
+        value = logistic_loglike(self.shape,
+                               copy(successes),
+                               trials=copy(trials),
+                               coef=self.coef,
+                               offset=copy(self.offset),
+                               initial=copy(self.coefs),
+                               case_weights=copy(self.case_weights))
+        value.quadratic = copy(self.quadratic) # already includes the constant added above
+        return value
 
     def subsample(self, case_idx):
         """
@@ -445,14 +446,15 @@ class probit_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return probit_loglike(self.shape,
-                              copy(successes),
-                              trials=copy(trials),
-                              coef=self.coef,
-                              offset=copy(self.offset),
-                              quadratic=copy(self.quadratic),
-                              initial=copy(self.coefs),
-                              case_weights=copy(self.case_weights))
+        value = probit_loglike(self.shape,
+                             copy(successes),
+                             trials=copy(trials),
+                             coef=self.coef,
+                             offset=copy(self.offset),
+                             initial=copy(self.coefs),
+                             case_weights=copy(self.case_weights))
+        value.quadratic = copy(self.quadratic) # already includes the constant added above
+        return value
 
     def subsample(self, case_idx):
         """
@@ -679,14 +681,15 @@ class cloglog_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return cloglog_loglike(self.shape,
-                               copy(successes),
-                               trials=copy(trials),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        value = cloglog_loglike(self.shape,
+                              copy(successes),
+                              trials=copy(trials),
+                              coef=self.coef,
+                              offset=copy(self.offset),
+                              initial=copy(self.coefs),
+                              case_weights=copy(self.case_weights))
+        value.quadratic = copy(self.quadratic) # already includes the constant added above
+        return value
 
     def subsample(self, case_idx):
         """
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 10b03e3..9a6360d 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1166,13 +1166,14 @@ class poisson_loglike(smooth_atom):
 
     def __copy__(self):
         counts = self.data
-        return poisson_loglike(self.shape,
-                               copy(counts),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        value = poisson_loglike(self.shape,
+                              copy(counts),
+                              coef=self.coef,
+                              offset=copy(self.offset),
+                              initial=copy(self.coefs),
+                              case_weights=copy(self.case_weights))
+        value.quadratic = copy(self.quadratic) # already includes the constant added above
+        return value
 
     def subsample(self, case_idx):
         """
-- 
2.43.0


From 54aaacf094cee3b44ce72811eb95a814c41a2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 055/133] fix: Cox loss is not NaN when the last cases have
 weight zero (e.g. after subsampling)

---
 regreg/smooth/cox_fns.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index 3ac752a..a7e2990 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -98,7 +98,9 @@ void _update_outer_1st(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight / *exp_accum;
+    if (censoring * case_weight > 0) { // cases with no weight may have an empty risk set
+      cur_val = cur_val + censoring * case_weight / *exp_accum;
+    }
     outer_1st_accum = ((double *) outer_1st_accum_ptr + idx);
     *outer_1st_accum = cur_val;
   }
@@ -134,7 +136,9 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    if (censoring * case_weight > 0) { // cases with no weight may have an empty risk set
+      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
   }
@@ -169,7 +173,9 @@ double _cox_objective(double *linear_pred_ptr,     /* Linear term in objective *
     censoring = *((size_t *) censoring_ptr + idx);
     case_weight = *((double *) case_weight_ptr + idx);
     linear_pred = *((double *) linear_pred_ptr + idx);
-    cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    if (censoring * case_weight > 0) { // cases with no weight may have an empty risk set
+      cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    }
   }
 
   return(cur_val);
-- 
2.43.0


From eb431bea34c476685670ca57d348002059e6e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 056/133] fix: Cox hessian_mult honours the scale of the loss

---
 regreg/smooth/cox.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f9d11f7..a61db6d 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -178,20 +178,22 @@ class cox_loglike(smooth_atom):
 
         H = np.zeros(eta.shape, float)
 
-        return cox_hessian(H,
-                           eta,
-                           right_vector,
-                           self._exp_buffer,
-                           self._exp_accum,
-                           self._expZ_accum,
-                           self._outer_1st,
-                           self._outer_2nd,
-                           cw,
-                           censoring,
-                           self._ordering,
-                           self._rankmin,
-                           self._rankmax,
-                           eta.shape[0])
+        H = cox_hessian(H,
+                        eta,
+                        right_vector,
+                        self._exp_buffer,
+                        self._exp_accum,
+                        self._expZ_accum,
+                        self._outer_1st,
+                        self._outer_2nd,
+                        cw,
+                        censoring,
+                        self._ordering,
+                        self._rankmin,
+                        self._rankmax,
+                        eta.shape[0])
+
+        return self.scale(H)
 
     def get_data(self):
         return np.array([self.event_times, self.censoring]).T
-- 
2.43.0


From 23059934f72645b9568f7a009ca741434a882162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 057/133] fix: Cox loss recomputes its risk sets when its data
 is set

---
 regreg/smooth/cox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index a61db6d..8a24727 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -35,10 +35,6 @@ class cox_loglike(smooth_atom):
 
         self.data = np.asarray([event_times, censoring]).T
 
-        self._ordering = np.argsort(self.event_times).astype(np.intp)
-        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
-        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
-
         if case_weights is not None:
             case_weights = np.asarray(case_weights).astype(float)
             if not np.all(case_weights >= 0):
@@ -203,6 +199,10 @@ class cox_loglike(smooth_atom):
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
 
+        self._ordering = np.argsort(self.event_times).astype(np.intp)
+        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
+        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
+
     data = property(get_data, set_data)
 
     def __copy__(self):
-- 
2.43.0


From 42bee73636c6b18aaed9a824008c3df017cd4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 058/133] fix: Cox loss does not overwrite gradients it
 returned earlier

---
 regreg/smooth/cox.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 8a24727..338b0b3 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -44,7 +44,6 @@ class cox_loglike(smooth_atom):
             self.case_weights = np.ones(self.event_times.shape, float)
 
         # buffers to store results used by C code
-        self._G = np.zeros(self.event_times.shape, float) # gradient 
         self._exp_buffer = np.zeros(self.event_times.shape, float) # exp(eta)
         self._exp_accum = np.zeros(self.event_times.shape, float) # accum of exp(eta)
         self._expZ_accum = np.zeros(self.event_times.shape, float) # accum of Z*exp(eta)
@@ -98,7 +97,7 @@ class cox_loglike(smooth_atom):
         censoring = self.censoring
 
         if mode in ['both', 'grad']:
-            G = cox_gradient(self._G,
+            G = cox_gradient(np.zeros(eta.shape, float),
                              eta,
                              self._exp_buffer,
                              self._exp_accum,
-- 
2.43.0


From 245039141dd6c57a6870be214940a8c940f3c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 059/133] fix: Cox loss accepts integer weights and linear
 predictors and does not overflow for large ones

---
 regreg/smooth/cox.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 338b0b3..2919171 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -86,13 +86,14 @@ class cox_loglike(smooth_atom):
         
         eta = natural_param # shorthand
 
-        eta = self.apply_offset(eta)
+        eta = self._center(self.apply_offset(eta))
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
             cw = cw * self.case_weights
+        cw = np.asarray(cw, float)
 
         censoring = self.censoring
 
@@ -166,9 +167,11 @@ class cox_loglike(smooth_atom):
         cw = case_weights
         if self.case_weights is not None:
             cw = cw * self.case_weights
+        cw = np.asarray(cw, float)
 
         eta = natural_param # shorthand
-        eta = self.apply_offset(eta)
+        eta = self._center(self.apply_offset(eta))
+        right_vector = np.asarray(right_vector, float)
         censoring = self.censoring
 
         H = np.zeros(eta.shape, float)
@@ -190,6 +193,12 @@ class cox_loglike(smooth_atom):
 
         return self.scale(H)
 
+    def _center(self, eta):
+        # the likelihood does not depend on constants added to eta,
+        # this prevents overflow in exp(eta)
+        eta = np.asarray(eta, float)
+        return eta - np.max(eta)
+
     def get_data(self):
         return np.array([self.event_times, self.censoring]).T
 
-- 
2.43.0


From c968a3f7b3ae56d2e3dc59fd64449d89111c6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 060/133] fix: glm.hessian works for sparse designs

---
 regreg/smooth/glm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 9a6360d..2ea7722 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -234,14 +234,18 @@ class glm(smooth_atom):
             if not hasattr(self.saturated_loss, 'hessian_mult'):
                 raise ValueError('loss has no hessian or hessian_mult method')
             right_mult = np.zeros(X.shape)
+            dense_X = X.toarray() if sparse.issparse(X) else X
             for j in range(X.shape[1]):
                 right_mult[:,j] = self.saturated_loss.hessian_mult(linpred, 
-                                                                   X[:,j], 
+                                                                   dense_X[:,j], 
                                                                    case_weights=self.case_weights)
         else:
             W = self.saturated_loss.hessian(linpred, 
                                             case_weights=self.case_weights)
-            right_mult = W[:,None] * X
+            if sparse.issparse(X):
+                right_mult = sparse.diags(W).dot(X)
+            else:
+                right_mult = W[:,None] * X
         if not sparse.issparse(X): # assuming it is an ndarray
             return X.T.dot(right_mult)
         else:
-- 
2.43.0


From 3fa458501f2ae372dcea09f1fc5597bc23e1dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 061/133] fix: value of the Huberised SVM loss matches its
 gradient for every smoothing parameter

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 961de56..4bb8ba8 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -911,5 +911,5 @@ def _huber_svm(z, smoothing_parameter):
     eps = smoothing_parameter
     arg = (1 - z) / eps # function of (2 * y - 1) * eta when y is binary
     proj_arg = (0 < arg) * (arg < 1) * arg + (arg >= 1) 
-    return arg * proj_arg - eps * proj_arg**2 / 2, -proj_arg
+    return (1 - z) * proj_arg - eps * proj_arg**2 / 2, -proj_arg
 
-- 
2.43.0


From 65fa5cee7cd7363328a0816e093d025429b6696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 062/133] fix: huberized_svm honours its scale and offset

---
 regreg/smooth/losses.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/losses.py b/regreg/smooth/losses.py
index 0551b70..eb4a4a5 100644
--- a/regreg/smooth/losses.py
+++ b/regreg/smooth/losses.py
@@ -65,7 +65,11 @@ class huberized_svm(smooth_atom):
         else returns both.
         """
         
-        return self.smoothed_atom.smooth_objective(beta,
-                                                   mode=mode,
-                                                   check_feasibility=check_feasibility)
+        beta = self.apply_offset(beta)
+        value = self.smoothed_atom.smooth_objective(beta,
+                                                    mode=mode,
+                                                    check_feasibility=check_feasibility)
+        if mode == 'both':
+            return self.scale(value[0]), self.scale(value[1])
+        return self.scale(value)
 
-- 
2.43.0


From de09b2bcbc908ea10e88160c1129840fb7415cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:35 +0000
Subject: [PATCH 063/133] fix: multinomial losses honour their case weights and
 are exact for large linear predictors

---
 regreg/smooth/mglm.py | 73 +++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 1a78de6..b2c7358 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -744,8 +744,6 @@ class stacked_common_loglike(smooth_atom):
 
 class multinomial_loglike(smooth_atom):
 
-    overflow_clip = 50
-
     """
     An overparametrized multinomial regression for nominal responses (e.g. Agresti, pg 267)
     """
@@ -820,31 +818,37 @@ class multinomial_loglike(smooth_atom):
         if mode == 'grad', return only the gradient
         if mode == 'func', return only the function value
         """
+        if mode not in ['both', 'grad', 'func']:
+            raise ValueError("mode incorrectly specified")
+
         eta = self.apply_offset(natural_param)  # shorthand
-        eta = np.clip(eta, 
-                      -self.overflow_clip, 
-                      self.overflow_clip) # to prevent overflow
-        exp_eta = np.exp(eta)
+
+        # subtracting the row maximum prevents overflow without 
+        # changing the probabilities
+        row_max = np.max(eta, axis=1)
+        exp_eta = np.exp(eta - row_max[:,None])
+        total = np.sum(exp_eta, axis=1)
 
         if case_weights is None:
-            cw = np.ones(natural_param.shape[0])
+            cw = np.ones(eta.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
+
+        if mode in ['both', 'func']:
+            f = - self.scale(np.dot(cw, np.sum(self.counts * eta, axis=1) - 
+                                    self.trials * (row_max + np.log(total))))
+        if mode in ['both', 'grad']:
+            ratio = exp_eta * (self.trials / total)[:,None]
+            g = - self.scale(cw[:,None] * (self.counts - ratio))
 
         if mode == 'both':
-            ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
-            f, g = (- self.scale(np.sum(cw[:,None] * self.counts * eta) -  np.dot(cw * self.trials, np.log(np.sum(exp_eta, axis=1)))),
-                      - self.scale(cw[:,None] * (self.counts - ratio)))
             return f, g
         elif mode == 'grad':
-            ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
-            f, g = None, - self.scale(cw[:,None] * (self.counts - ratio))
             return g
-        elif mode == 'func':
-            f, g = - self.scale(np.sum(cw[:,None] * self.counts * eta) -  np.dot(cw * self.trials, np.log(np.sum(exp_eta, axis=1)))), None
-            return f
         else:
-            raise ValueError("mode incorrectly specified")
+            return f
 
     def subsample(self, case_idx):
         """
@@ -881,8 +885,6 @@ class multinomial_loglike(smooth_atom):
 
 class multinomial_baseline_loglike(smooth_atom):
 
-    overflow_clip = 50
-
     """
     A class for baseline-category logistic regression for nominal responses (e.g. Agresti, pg 267)
     """
@@ -964,34 +966,37 @@ class multinomial_baseline_loglike(smooth_atom):
         if mode == 'grad', return only the gradient
         if mode == 'func', return only the function value
         """
-        eta = self.apply_offset(natural_parameter) # shorthand
-        eta = np.clip(eta, 
-                      -self.overflow_clip, 
-                      self.overflow_clip) # to prevent overflow
-        exp_eta = np.exp(eta)
+        if mode not in ['both', 'grad', 'func']:
+            raise ValueError("mode incorrectly specified")
+
+        eta = self.apply_offset(natural_parameter)  # shorthand
+
+        # subtracting the row maximum prevents overflow without 
+        # changing the probabilities
+        row_max = np.maximum(np.max(eta, axis=1), 0)
+        exp_eta = np.exp(eta - row_max[:,None])
+        total = np.exp(-row_max) + np.sum(exp_eta, axis=1)
 
         if case_weights is None:
             cw = np.ones(eta.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
-        #TODO: Using transposes to scale the rows of a 2d array - should we use an affine_transform to do this?
-        #JT: should be able to do this with np.newaxis
+        if mode in ['both', 'func']:
+            f = - self.scale(np.dot(cw, np.sum(self.firstcounts * eta, axis=1) - 
+                                    self.trials * (row_max + np.log(total))))
+        if mode in ['both', 'grad']:
+            ratio = exp_eta * (self.trials / total)[:,None]
+            g = - self.scale(cw[:,None] * (self.firstcounts - ratio))
 
         if mode == 'both':
-            ratio = ((self.trials/(1. + np.sum(exp_eta, axis=1))) * exp_eta.T).T
-            f, g = (- self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, np.log(1. + np.sum(exp_eta, axis=1)))), 
-                      - self.scale(cw[:,None] * (self.firstcounts - ratio)))
             return f, g
         elif mode == 'grad':
-            ratio = ((self.trials/(1. + np.sum(exp_eta, axis=1))) * exp_eta.T).T
-            f, g = None, - self.scale(cw[:,None] * (self.firstcounts - ratio))
             return g
-        elif mode == 'func':
-            f, g = - self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, np.log(1. + np.sum(exp_eta, axis=1)))), None
-            return f
         else:
-            raise ValueError("mode incorrectly specified")
+            return f
 
     def subsample(self, case_idx):
         """
-- 
2.43.0


From 1dacbc0030effae7c39085e63e49a0a39f753faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 064/133] fix: copies and subsamples of multinomial losses do
 not share state with the original

---
 regreg/smooth/mglm.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index b2c7358..d975cb2 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -850,6 +850,16 @@ class multinomial_loglike(smooth_atom):
         else:
             return f
 
+    def __copy__(self):
+        value = self.__class__(self.shape,
+                               copy(self.counts),
+                               coef=self.coef,
+                               offset=copy(self.offset),
+                               initial=copy(self.coefs),
+                               case_weights=copy(self.case_weights))
+        value.quadratic = copy(self.quadratic) # already includes the constant added above
+        return value
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
@@ -998,6 +1008,16 @@ class multinomial_baseline_loglike(smooth_atom):
         else:
             return f
 
+    def __copy__(self):
+        value = self.__class__(self.shape,
+                               copy(self.counts),
+                               coef=self.coef,
+                               offset=copy(self.offset),
+                               initial=copy(self.coefs),
+                               case_weights=copy(self.case_weights))
+        value.quadratic = copy(self.quadratic) # already includes the constant added above
+        return value
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
-- 
2.43.0


From c1d4921b809adf83995e23612bb34c607140aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:10 +0000
Subject: [PATCH 065/133] fix: stacked losses do not overwrite gradients they
 returned earlier

---
 regreg/smooth/glm.py  | 11 ++++++-----
 regreg/smooth/mglm.py | 15 ++++++++-------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 2ea7722..103758d 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1442,7 +1442,6 @@ class stacked_loglike(smooth_atom):
             idx += l.shape[0]
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -1494,21 +1493,23 @@ class stacked_loglike(smooth_atom):
 
         linpred = self.apply_offset(linpred)
         if mode == 'grad':
+            gradient = np.zeros(self.shape)
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
-            return self.scale(self._gradient)
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
                 value += self._losses[d].smooth_objective(linpred[slice], 'func')
             return self.scale(value)
         elif mode == 'both':
+            gradient = np.zeros(self.shape)
             value = 0
             for d, slice in enumerate(self._slices):
                 f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
-                self._gradient[slice] = g
+                gradient[slice] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index d975cb2..ef52d76 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -299,7 +299,6 @@ class stacked_common_loglike(smooth_atom):
         self.data = np.array([l.data for l in losses]).T
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -351,11 +350,12 @@ class stacked_common_loglike(smooth_atom):
 
         x = self.apply_offset(x)
         if mode == 'grad':
+            gradient = np.zeros(self.shape)
             for i in range(len(self._losses)):
-                self._gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
-                                                                       'grad', 
-                                                                       case_weights=cw) 
-            return self.scale(self._gradient)
+                gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
+                                                                 'grad', 
+                                                                 case_weights=cw) 
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for i in range(len(self._losses)):
@@ -364,14 +364,15 @@ class stacked_common_loglike(smooth_atom):
                                                           case_weights=cw)
             return self.scale(value)
         elif mode == 'both':
+            gradient = np.zeros(self.shape)
             value = 0
             for i in range(len(self._losses)):
                 f, g = self._losses[i].smooth_objective(x[:,i], 
                                                         'both', 
                                                         case_weights=cw)
-                self._gradient[:,i] = g
+                gradient[:,i] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
-- 
2.43.0


From 07f5feb57e65db5674ea11e3fb6f40de4d0f4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:10 +0000
Subject: [PATCH 066/133] fix: copies of stacked losses do not share the
 individual losses

---
 regreg/smooth/glm.py  | 2 +-
 regreg/smooth/mglm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 103758d..9895760 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1522,7 +1522,7 @@ class stacked_loglike(smooth_atom):
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_loglike(copy(self._losses),
+        return stacked_loglike([copy(loss) for loss in self._losses],
                                coef=self.coef,
                                offset=copy(self.offset),
                                quadratic=copy(self.quadratic),
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index ef52d76..bb6fbd4 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -385,7 +385,7 @@ class stacked_common_loglike(smooth_atom):
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_common_loglike(copy(self._losses),
+        return stacked_common_loglike([copy(loss) for loss in self._losses],
                                       coef=self.coef,
                                       offset=copy(self.offset),
                                       quadratic=copy(self.quadratic),
-- 
2.43.0


From 3343b7751fca4841f937ba0a551c634549642dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:10 +0000
Subject: [PATCH 067/133] fix: stacked_loglike honours its case weights

---
 regreg/smooth/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 9895760..08d6478 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1495,18 +1495,18 @@ class stacked_loglike(smooth_atom):
         if mode == 'grad':
             gradient = np.zeros(self.shape)
             for d, slice in enumerate(self._slices):
-                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
             return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
-                value += self._losses[d].smooth_objective(linpred[slice], 'func')
+                value += self._losses[d].smooth_objective(linpred[slice], 'func', case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
             gradient = np.zeros(self.shape)
             value = 0
             for d, slice in enumerate(self._slices):
-                f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
+                f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
                 gradient[slice] = g
                 value += f
             return self.scale(value), self.scale(gradient)
-- 
2.43.0


From 447691344a182bd3da4754e39fe1e1ae44a86ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 068/133] fix: constructors of stacked losses build the losses
 they are named after

---
 regreg/smooth/glm.py  | 46 +++++++++++++++++++++++++------------------
 regreg/smooth/mglm.py | 34 ++++++++++++++++----------------
 2 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 08d6478..ea609da 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1654,8 +1654,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [logistic_loglike(np.shape(successes[i]),
+                                   successes[i],
+                                   trials=trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -1708,8 +1712,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [probit_loglike(successes[i],
-                                 trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [probit_loglike(np.shape(successes[i]),
+                                 successes[i],
+                                 trials=trials[i],
                                  coef=coef)
                   for i in range(len(successes))]
 
@@ -1762,8 +1770,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [cloglog_loglike(successes[i],
-                                  trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [cloglog_loglike(np.shape(successes[i]),
+                                  successes[i],
+                                  trials=trials[i],
                                   coef=coef)
                   for i in range(len(successes))]
 
@@ -1811,10 +1823,10 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -1823,8 +1835,7 @@ class stacked_loglike(smooth_atom):
                      case_weights=case_weights)
 
     @classmethod
-    def huber(klass,
-              X, 
+    def huber(klass, 
               responses,
               smoothing_parameter,
               case_weights=None,
@@ -1868,7 +1879,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef) 
                   for response in responses]
 
         return klass(losses,
@@ -1879,7 +1891,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def huber_svm(klass,
-                  X, 
                   successes,
                   smoothing_parameter,
                   case_weights=None,
@@ -1923,7 +1934,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
@@ -1934,7 +1946,6 @@ class stacked_loglike(smooth_atom):
 
     @classmethod
     def cox(klass, 
-            X, 
             event_times,
             censoring,
             coef=1., 
@@ -1948,9 +1959,6 @@ class stacked_loglike(smooth_atom):
         Parameters
         ----------
 
-        X : [ndarray, `regreg.affine.affine_transform`]
-            Design matrix
-
         event_times : ndarray
             Observed times for Cox proportional hazard model.
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index bb6fbd4..944fd37 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -517,8 +517,12 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+
+        losses = [logistic_loglike(np.shape(successes[i]),
+                                   successes[i],
+                                   trials=trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -566,10 +570,10 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -578,9 +582,8 @@ class stacked_common_loglike(smooth_atom):
                      case_weights=case_weights)
 
     @classmethod
-    def huber(klass,
-              X, 
-              response,
+    def huber(klass, 
+              responses,
               smoothing_parameter,
               case_weights=None,
               coef=1., 
@@ -623,7 +626,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef) 
                   for response in responses]
 
         return klass(losses,
@@ -633,8 +637,7 @@ class stacked_common_loglike(smooth_atom):
                      case_weights=case_weights)
 
     @classmethod
-    def huber_svm(klass,
-                  X, 
+    def huber_svm(klass, 
                   successes,
                   smoothing_parameter,
                   case_weights=None,
@@ -678,7 +681,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
@@ -689,7 +693,6 @@ class stacked_common_loglike(smooth_atom):
 
     @classmethod
     def cox(klass, 
-            X, 
             event_times,
             censoring,
             coef=1., 
@@ -703,9 +706,6 @@ class stacked_common_loglike(smooth_atom):
         Parameters
         ----------
 
-        X : [ndarray, `regreg.affine.affine_transform`]
-            Design matrix
-
         event_times : ndarray
             Observed times for Cox proportional hazard model.
 
-- 
2.43.0


From 6283e13107f81269d36579f988a7b627f417bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 069/133] fix: mglm.stacked raised NameError

---
 regreg/smooth/mglm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 944fd37..2a700f2 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -257,7 +257,6 @@ class mglm(glm):
         """
 
         loss = stacked_common_loglike(losses,
-                                      successes,
                                       coef=coef,
                                       offset=saturated_offset)
 
-- 
2.43.0


From ce9ff3d09952b6f0f159f9852989777639fcf8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 070/133] fix: mglm checks its case weights like glm

---
 regreg/smooth/mglm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 2a700f2..bd784c6 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -74,7 +74,11 @@ class mglm(glm):
         self.affine_atom = affine_smooth(loss, X)
         if case_weights is None:
             case_weights = np.ones(X.shape[0])
-        self.case_weights = case_weights
+        if not np.all(np.asarray(case_weights) >= 0):
+            raise ValueError('case_weights should be non-negative')
+        self.case_weights = np.asarray(case_weights)
+        if self.case_weights.shape != loss.shape[:1]:
+            raise ValueError('case_weights should have same shape as loss.shape[:1]')
         smooth_atom.__init__(self,
                              (X.shape[1], loss.shape[1]),
                              coef=1.,
-- 
2.43.0


From 5ff9b3c1c221d618b9c93d644570faecf5310175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 071/133] fix: copies and subsamples of (m)glm keep their scale

---
 regreg/smooth/glm.py  | 16 +++++++++-------
 regreg/smooth/mglm.py | 14 ++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index ea609da..757f4aa 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -257,13 +257,15 @@ class glm(smooth_atom):
     def __copy__(self):
         klass = self.__class__
         X, Y = self.data
-        return klass(copy(X), 
-                     copy(Y), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=self.case_weights.copy())
+        value = klass(copy(X), 
+                      copy(Y), 
+                      copy(self.saturated_loss), 
+                      quadratic=copy(self.quadratic),
+                      initial=copy(self.coefs),
+                      offset=copy(self.offset),
+                      case_weights=self.case_weights.copy())
+        value.coef = self.coef
+        return value
 
     def subsample(self, idx):
         """
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index bd784c6..c1af06c 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -140,12 +140,14 @@ class mglm(glm):
     def __copy__(self):
         klass = self.__class__
         X, _ = self.data
-        return klass(copy(X), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=copy(self.case_weights))
+        value = klass(copy(X), 
+                      copy(self.saturated_loss), 
+                      quadratic=copy(self.quadratic),
+                      initial=copy(self.coefs),
+                      offset=copy(self.offset),
+                      case_weights=copy(self.case_weights))
+        value.coef = self.coef
+        return value
        
     @classmethod
     def multinomial(klass, 
-- 
2.43.0


From ea8f5a0b50d9b89c99ac0f6d130d731f334ac765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 072/133] fix: FISTA's restart option resets the Nesterov
 weight

---
 regreg/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index b034926..9f53990 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -122,7 +122,7 @@ class FISTA(algorithm):
                 if self.debug:
                     print("\tRestarting weights")
                 self.working_coefs = self.composite.coefs
-                t_old = 1.
+                self.weight_old = 1.
 
             objective_hist[itercount] = working_obj
 
-- 
2.43.0


From 72116d9033ffd27ea29b59b174aa2adbaef6227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 073/133] fix: FISTA.fit honours FISTA=False and prox_control

---
 regreg/algorithms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index 9f53990..97a4892 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -91,7 +91,8 @@ class FISTA(algorithm):
 
         if debug is not None:
             self.debug = debug
-        self.prox_control = {}
+        self.prox_control = prox_control
+        self.use_nesterov = FISTA
 
         objective_hist = np.zeros(max_its)
         
@@ -136,7 +137,7 @@ class FISTA(algorithm):
                 lipschitz = self.composite.lipschitz
                 self.step = 1. / lipschitz
                 if self.prox_control != {}:
-                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=prox_control)
+                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=self.prox_control)
                 else:
                     proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0))
                 proposed_smooth = self.composite.smooth_objective(proposed_coefs, mode='func')
@@ -215,7 +216,7 @@ class FISTA(algorithm):
             return objective_hist[:itercount]
 
     def update_working_coefs(self, proposed_coefs):
-        if FISTA:
+        if self.use_nesterov:
             #Use Nesterov weights
             self.weight_new = 0.5 * (1 + np.sqrt(1+4*(self.weight_old**2)))
             #XXX should that be self.working_coefs or self.composite.coefs at the end of this line?
@@ -237,7 +238,7 @@ class FISTA(algorithm):
                                                                  self.working_coefs, 
                                                                  working_grad, 
                                                                  0), 
-                                                              prox_control=prox_control)
+                                                              prox_control=self.prox_control)
             else:
                 proposed_coefs = self.composite.proximal_step(sq(1. / self.step, 
                                                                  self.working_coefs, 
-- 
2.43.0


From febfa2866aa0e64ffd485ce62b592fc547f54ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 074/133] fix: composite.proximal_optimum raised TypeError

---
 regreg/problems/composite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 5cecf49..9ff72ec 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -88,10 +88,8 @@ class composite(object):
         and nonsmooth objective the value.
         """
         argmin = self.proximal(quadratic)
-        if self.quadratic is None:
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) 
-        else: 
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) + self.quadratic.objective(argmin, 'func') 
+        # nonsmooth_objective already includes self.quadratic
+        return argmin, quadratic.objective(argmin, 'func') + self.nonsmooth_objective(argmin)
 
     def proximal_step(self, quadratic, prox_control=None):
         """
-- 
2.43.0


From 254b3c329d15c667bc6b35d9bf9c92d95d2a1706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 075/133] fix: smooth.solve reports the optimum of the problem
 it solved, extra quadratic included

---
 regreg/problems/composite.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 9ff72ec..97a6bb9 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -213,12 +213,13 @@ class smooth(composite):
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         self.solver = FISTA(self)
         self.solver.fit(**fit_args)
-        self.quadratic = oldq
 
         if return_optimum:
-            return self.objective(self.coefs), self.coefs
+            value = (self.objective(self.coefs), self.coefs)
         else:
-            return self.coefs
+            value = self.coefs
+        self.quadratic = oldq
+        return value
 
 class smooth_conjugate(smooth):
 
-- 
2.43.0


From a59606919b1cbd7c87628501eeca2eab3c03d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 076/133] fix: gengrad takes proximal steps instead of counting
 the smooth part twice

---
 regreg/problems/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index c782fef..1d03b9f 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -104,7 +104,7 @@ def gengrad(simple_problem, lipschitz, tol=1.0e-8, max_its=1000, debug=False,
     while True:
         vnew, g = simple_problem.smooth_objective(coef, 'both')
         vnew += simple_problem.nonsmooth_objective(coef)
-        newcoef = simple_problem.solve(identity_quadratic(lipschitz, coef, g, 0))
+        newcoef = simple_problem.proximal(identity_quadratic(lipschitz, coef, g, 0))
         if coef_stop:
             coef_stop_check = (np.linalg.norm(coef-newcoef) <= tol * 
                                np.max([np.linalg.norm(coef),
-- 
2.43.0


From ee886e544f5b4771f4a48d6c57e7e73c26476e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 077/133] fix: container.solve uses the quadratic it is given

---
 regreg/problems/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 526e7ca..de5a988 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -157,9 +157,9 @@ class container(composite):
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
         if quadratic is not None:
-            oldq, newq = self.quadratic, self.quadratic + quadratic
+            oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         else:
-            oldq = newq = self.quadratic
+            oldq = self.quadratic
 
         solver = FISTA(self)
         solver.fit(**fit_args)
-- 
2.43.0


From b6c478a7f4f2c7b3b0f5e2171040d802b95f9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 078/133] fix: container's proximal map includes the quadratics
 of the container and its smooth atoms

---
 regreg/problems/container.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index de5a988..1a9e940 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -106,7 +106,8 @@ class container(composite):
             prox_control = prox_defaults
 
             primal_objective = zero_nonsmooth(transform.input_shape)
-            primal_objective.quadratic = proxq + self.quadratic + self.smoothq
+            totalq = (proxq + self.quadratic + self.smoothq).collapsed()
+            primal_objective.quadratic = totalq
             dual_objective = primal_objective.conjugate
             dualp = dual_problem(dual_objective,
                                  transform,
@@ -126,23 +127,25 @@ class container(composite):
 
             if dualopt.perform_backtrack:
                 #If backtracking set start_step
-                prox_control['start_step'] = proxq.coef / self.dual_reference_lipschitz 
+                prox_control['start_step'] = totalq.coef / self.dual_reference_lipschitz 
 
             # the lipschitz estimate comes from the
             # fact that the conjugate of a quadratic
             # with coef lipschitz is quadratic with coef 1/lipschitz
 
-            dualp.lipschitz = self.dual_reference_lipschitz / proxq.coef
+            dualp.lipschitz = self.dual_reference_lipschitz / totalq.coef
 
             if hasattr(self, 'dual_minimizer'):
                 dualopt.composite.coefs[:] = self.dual_minimizer
             history = dualopt.fit(**prox_control)
             dual_minimizer = dualopt.composite.coefs
-            lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
+            # the minimizer of the total quadratic plus the linear
+            # term contributed by the dual variables
+            primal = -(totalq.linear_term + transform.adjoint_map(dual_minimizer)) / totalq.coef
             if prox_control['return_objective_hist']:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz), history
+                return primal, history
             else:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz)
+                return primal
 
         else:
             proxq = proxq + self.quadratic + self.smoothq
-- 
2.43.0


From 94c102ec8c35388ed66662f4a3049efed5871b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 079/133] fix: a container of penalties only raised IndexError

---
 regreg/problems/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 1a9e940..1a47a9f 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -42,7 +42,7 @@ class container(composite):
         if len(self.nonsmooth_atoms) == 0:
             self.nonsmooth_atoms = [zero_nonsmooth(self.smooth_atoms[0].shape)]
 
-        self.transform, self.atom = stacked_dual(self.smooth_atoms[0].shape, *self.nonsmooth_atoms)
+        self.transform, self.atom = stacked_dual((self.smooth_atoms + self.nonsmooth_atoms)[0].shape, *self.nonsmooth_atoms)
         self.coefs = np.zeros(self.transform.input_shape)
 
         self.smoothq = identity_quadratic(0,0,0,0)
-- 
2.43.0


From 5b8727c83f94b46c7cd97eee78318a796f03cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 080/133] fix: dual_problem.solve(return_optimum=True)
 evaluated the dual objective at the primal point

---
 regreg/problems/dual_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index afefb88..d658823 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -82,7 +82,7 @@ class dual_problem(composite):
         solver = FISTA(self)
         solver.fit(**fit_args)
         if return_optimum:
-            return self.objective(self.primal), self.primal
+            return self.objective(self.coefs), self.primal
         return self.primal
 
     def latexify(self, var=None):
-- 
2.43.0


From 6f02261c705913b9c180cad129b8493f68475b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 081/133] fix: the sum of smooth objectives kept only the
 smooth parts of its atoms

---
 regreg/smooth/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 1cb06d6..15ee8a1 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -325,6 +325,15 @@ class sum(smooth_atom):
         self.coefs = self.atoms[0].coefs
         self.shape = self.coefs.shape
 
+        # the atoms' quadratics are part of the functions being summed
+        for weight, atom in zip(self.weights, self.atoms):
+            if not atom.quadratic.iszero:
+                q = atom.quadratic.collapsed()
+                self.quadratic = self.quadratic + identity_quadratic(weight * q.coef,
+                                                                     0,
+                                                                     weight * q.linear_term,
+                                                                     weight * q.constant_term)
+
     def smooth_objective(self, x, mode='both', check_feasibility=False):
 
         """
-- 
2.43.0


From 2d078550ff7696a6fbefcb8a9f6768777eb5704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 082/133] fix: ADMM's loss update applies the adjoint of the
 transform

---
 regreg/problems/admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 4cf141b..bee94e1 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -56,7 +56,7 @@ class admm_problem(object):
 
         self.fit_args = fit_args # for the smooth_sum FISTA run
 
-        assert (self.loss.shape == self.transform.output_shape)
+        assert (self.loss.shape == self.transform.input_shape)
 
     def update_loss_coefs(self):
         """
@@ -68,7 +68,7 @@ class admm_problem(object):
                             self.transform.affine_offset)
         if alpha is None:
             alpha = 0
-        linear_term = self.linear_transform.dot(y - rho * (z - alpha))
+        linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
         self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
                                                        **self.fit_args)
 
-- 
2.43.0


From 55b37ec265aef6eca7cafe35f159fdec9855e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 083/133] fix: ADMM uses the quadratic it is given

---
 regreg/problems/admm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index bee94e1..e83473f 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -69,7 +69,10 @@ class admm_problem(object):
         if alpha is None:
             alpha = 0
         linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
+        quadratic = identity_quadratic(0, 0, linear_term, 0)
+        if self.quadratic is not None:
+            quadratic = quadratic + self.quadratic
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=quadratic,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From 261297e3b816e9e6e40d23d07abe27149cef5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 084/133] fix: quasi_newton's inner problem includes the
 quadratic of the loss

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index ac4fd46..5b33a15 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -244,7 +244,7 @@ class quasi_newton(object):
         # warm start the subproblem
         self.quadratic_problem.coefs[:] = self.coefs 
 
-        quad_soln = self.quadratic_problem.solve(quad + self.quadratic,
+        quad_soln = self.quadratic_problem.solve(quad + self.quadratic + self.smooth_atom.quadratic,
                                                  **fit_args)
         direction = quad_soln - self.coefs
         return direction, grad, quad_soln 
-- 
2.43.0


From 7ae4e98d6ec55e590af14821cde70b1ec7ac1b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 085/133] fix: quasi_newton turned NaN when a step left the
 solution unchanged

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 5b33a15..6586c9e 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -341,7 +341,7 @@ class quasi_newton(object):
             Next gradient.
         """
         return (np.fabs(old_soln - new_soln).max()
-                < 1.e-6 * np.linalg.norm(new_soln))
+                <= 1.e-6 * np.linalg.norm(new_soln))
 
     def backtrack(self, 
                   direction,
-- 
2.43.0


From 5f25436e56ec223c2843c737a5f9cb5313f80317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:09 +0000
Subject: [PATCH 086/133] fix: quasi_newton's Hessian update divided by zero
 without curvature along the step

---
 regreg/problems/newton.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 6586c9e..cc5f9fe 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -130,6 +130,12 @@ class quasi_newton(object):
         if (y.dot(s) < -1e-5):
             raise ValueError('failure in BFGS update -- dot product is negative')
 
+        # without curvature along s the update is not defined,
+        # the current Hessian is kept
+
+        if not (y.dot(s) > 0 and s.dot(Bs) > 0):
+            return
+
         # update is done in place
         # note that this means self.quadratic_problem.Q is also updated!
         
-- 
2.43.0


From 38a3c812cbc759ad1c1d9151ece2cf10e1bf47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 087/133] fix: the optimum reported by solving a glm left out
 its quadratic

---
 regreg/problems/composite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 97a6bb9..c66c2f8 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -215,7 +215,9 @@ class smooth(composite):
         self.solver.fit(**fit_args)
 
         if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
+            # some losses (e.g. glm) override objective to be the loss alone
+            value = (self.smooth_objective(self.coefs, 'func') +
+                     self.nonsmooth_objective(self.coefs), self.coefs)
         else:
             value = self.coefs
         self.quadratic = oldq
-- 
2.43.0


From 87e2cb768fa7905b5cfcccf01c23abaf288c2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 088/133] fix: separable.selectors raised NameError

---
 regreg/problems/separable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index eae94b5..c8345e1 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -168,7 +168,7 @@ class separable(atom):
 
     @property
     def selectors(self):
-        return [selector(group, self.shape, reshape)
+        return [selector(group, self.shape, shape)
                 for group, shape in zip(self.groups, self.shapes)]
 
 class separable_problem(simple_problem):
-- 
2.43.0


From e97673e4594a3b1f792de0328ae7596cce07bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 089/133] fix: separable.selectors reshape their pieces

---
 regreg/problems/separable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index c8345e1..73b2bfc 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -168,7 +168,7 @@ class separable(atom):
 
     @property
     def selectors(self):
-        return [selector(group, self.shape, shape)
+        return [selector(group, self.shape, reshape=shape)
                 for group, shape in zip(self.groups, self.shapes)]
 
 class separable_problem(simple_problem):
-- 
2.43.0


From 436a4d897d8dfaab3d50870e692ea0862ce2ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 090/133] fix: separable.proximal reshapes the center of the
 quadratic for pieces with a shape

---
 regreg/problems/separable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 73b2bfc..323bd85 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -142,7 +142,10 @@ class separable(atom):
                                                     self.assign_shapes):
             proxq_group = proxq[group]
             if shape is not None:
-                proxq_group.linear_term.shape = shape
+                for attr in ['center', 'linear_term']:
+                    value = getattr(proxq_group, attr)
+                    if np.ndim(value) > 0:
+                        setattr(proxq_group, attr, np.reshape(value, shape))
             v[group] = atom.proximal(proxq_group, prox_control).reshape(assign_shape)
         return v
 
-- 
2.43.0


From 799ed15a6ef824a4b03712c4adb814196ed36505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 091/133] fix: mixed lasso dual projection returned its work
 buffer, overwritten by the next call

---
 regreg/atoms/mixed_lasso_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index a365563..8e99a9e 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -92,7 +92,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
 
-    return projection
+    return projection.copy()
 
 def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x, 
                          cnp.ndarray[DTYPE_intp_t, ndim=1] l1_penalty, 
-- 
2.43.0


From 0842d1dfeedb7fcf15cf14db5d95b1521fce4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 092/133] fix: mixed lasso proximal maps were nan at a zero l1
 coordinate with a zero parameter

---
 regreg/atoms/mixed_lasso_cython.pyx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 8e99a9e..0aaab51 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -47,9 +47,7 @@ def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = (prox_center[l1_penalty] * 
-                              np.minimum(1, implied_bound / 
-                                         np.fabs(prox_center[l1_penalty])))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -implied_bound, implied_bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(implied_bound, 
                                            prox_center[positive_part])
@@ -87,7 +85,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1, bound / np.fabs(prox_center[l1_penalty]))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -bound, bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -374,7 +372,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
             if groups[i] >= 0:
                 projection[i] = prox_center[i] * factors[groups[i]]
 
-        projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1., cut / np.fabs(prox_center[l1_penalty]))
+        projection[l1_penalty] = np.clip(prox_center[l1_penalty], -cut, cut)
         projection[unpenalized] = 0
         projection[positive_part] = np.minimum(cut, prox_center[positive_part])
         projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -441,7 +439,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
                 if groups[i] >= 0:
                     projection[i] = x[i] * factors[groups[i]]
 
-            projection[l1_penalty] = x[l1_penalty] * np.minimum(1., cut / np.fabs(x[l1_penalty]))
+            projection[l1_penalty] = np.clip(x[l1_penalty], -cut, cut)
             projection[unpenalized] = 0
             projection[positive_part] = np.minimum(cut, x[positive_part])
             projection[nonnegative] = np.minimum(x[nonnegative], 0)
-- 
2.43.0


From c95c8a3646ce3fce615ea87db40de80735c6ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 093/133] fix: quasi_newton's line search accepted steps that
 increase the objective

---
 regreg/problems/newton.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index cc5f9fe..b9c1c2a 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -395,4 +395,15 @@ class quasi_newton(object):
                             disp=False,
                             maxiter=maxiter,
                             maxfun=maxfun)
-        return step, restriction(step)
+
+        # with few evaluations the search may end at a step 
+        # that increases the objective
+
+        current, value = restriction(0), restriction(step)
+        for _ in range(30):
+            if not value > current:
+                break
+            step = step / 2.
+            value = restriction(step)
+
+        return step, value
-- 
2.43.0


From 8b58a88b46aa05b30ed3137fde0b48fa1314f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 094/133] fix: FISTA's backtracking looped forever instead of
 raising when no step is acceptable

---
 regreg/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index 97a4892..f2ea6d2 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -264,7 +264,7 @@ class FISTA(algorithm):
 
             self.attempt_decrease = False
             self.step /= self.alpha
-            if not self.step > 0:
+            if not self.step > np.finfo(float).tiny: # division never reaches exactly 0
                 raise ValueError("stepsize zero reached")
             if self.debug:
                 print("%i    Decreasing step to" % itercount, self.step)
-- 
2.43.0


From 4aac0aed84a1b21d37f48b80ff91154cfff82b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 095/133] fix: mixed and group lasso kernels silently ignored
 the tail of arguments that are too long

---
 regreg/atoms/mixed_lasso_cython.pyx | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 0aaab51..ee62389 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -13,6 +13,10 @@ DTYPE_int = int
 ctypedef cnp.int_t DTYPE_int_t
 ctypedef cnp.intp_t DTYPE_intp_t
 
+cdef _check_length(cnp.ndarray[DTYPE_float_t, ndim=1] x, int p):
+    if x.shape[0] != p:
+        raise ValueError('argument has length %d but penalty has length %d' % (x.shape[0], p))
+
 def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center, 
                               DTYPE_float_t lagrange, 
                               DTYPE_float_t lipschitz,
@@ -32,6 +36,8 @@ def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     
     cdef implied_bound = lagrange / lipschitz
     
+    _check_length(prox_center, p)
+
     for i in range(p):
         if groups[i] >= 0:
             norms[groups[i]] = norms[groups[i]] + prox_center[i]**2
@@ -70,6 +76,8 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     cdef int i, j
     cdef int p = groups.shape[0]
     
+    _check_length(prox_center, p)
+
     for i in range(p):
         if groups[i] >= 0:
             norms[groups[i]] = norms[groups[i]] + prox_center[i]**2
@@ -107,6 +115,8 @@ def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     cdef DTYPE_float_t value
     cdef int p = groups.shape[0]
     
+    _check_length(x, p)
+
     for i in range(p):
         if groups[i] >= 0:
             norms[groups[i]] = norms[groups[i]] + x[i]**2
@@ -150,6 +160,8 @@ def strong_set_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     cdef int i, j
     cdef int p = groups.shape[0]
     
+    _check_length(x, p)
+
     for i in range(p):
         if groups[i] >= 0:
             norms[groups[i]] = norms[groups[i]] + x[i]**2
@@ -186,6 +198,9 @@ def check_KKT_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] grad,
     cdef int i, j
     cdef int p = groups.shape[0]
     
+    _check_length(grad, p)
+    _check_length(solution, p)
+
     # L1 check
 
     cdef int debug = 0
@@ -285,6 +300,8 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     cdef DTYPE_float_t value
     cdef int p = groups.shape[0]
     
+    _check_length(x, p)
+
     for i in range(p):
         if groups[i] >= 0:
             norms[groups[i]] = norms[groups[i]] + x[i]**2
@@ -338,6 +355,8 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     
     cdef int q = norms.shape[0]
     
+    _check_length(prox_center, p)
+
     for i in range(p):
         if groups[i] >= 0:
             norms[groups[i]] = norms[groups[i]] + prox_center[i]**2
@@ -402,6 +421,8 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
     
     cdef int q = norms.shape[0]
     
+    _check_length(x, p)
+
     for i in range(p):
         if groups[i] >= 0:
             norms[groups[i]] = norms[groups[i]] + x[i]**2
-- 
2.43.0


From de30561f72cb259f8137af64060bccd3485696ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 096/133] fix: the survival kernels processed undefined times
 and invalid censoring labels

---
 regreg/smooth/cox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 2919171..9e4ed8b 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -204,6 +204,10 @@ class cox_loglike(smooth_atom):
 
     def set_data(self, data):
         event_times, censoring = np.asarray(data).T
+        if np.any(np.isnan(np.asarray(event_times, float))):
+            raise ValueError('event_times should not be nan')
+        if not np.all(np.isin(censoring, [0, 1])):
+            raise ValueError('censoring should be 0 or 1')
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
 
-- 
2.43.0


From 6dbbd04711b1b3b8e6d91bda87ccbf4b9412d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 097/133] fix: strong_rules left unpenalised features out of
 its subproblems and never solved the first parameter

---
 regreg/paths/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index f1ace48..795901f 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -241,14 +241,19 @@ def strong_rules(path_obj,
     ever_active = path_obj.updated_ever_active([])
 
     dev_solution = path_obj.saturated_loss.smooth_objective(linear_predictor, 'func')
-    solutions = [solution.T.copy()]
+    solutions = []
     dev_explained = [dev_solution]
 
     all_failing = np.zeros(path_obj.group_shape, np.bool)
-    subproblem_set = path_obj.updated_ever_active([])
 
-    for lagrange_new, lagrange_cur in zip(lagrange_seq[1:], 
-                                          lagrange_seq[:-1]):
+    # unpenalized groups and groups active in the initial solution
+    # must always be part of the subproblem
+    subproblem_set = sorted(set(list(path_obj.unpenalized[0]) +
+                                path_obj.updated_ever_active(path_obj.active_set(solution))))
+
+    lagrange_seq = np.asarray(lagrange_seq)
+    for lagrange_new, lagrange_cur in zip(lagrange_seq,
+                                          np.concatenate([lagrange_seq[:1], lagrange_seq[:-1]])):
         tol = inner_tol
         num_tries = 0
         debug = False
-- 
2.43.0


From 51f4925f33286472867293aa7877ac987e1afa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 098/133] fix: sparse group lasso paths misjudged which
 variables are unpenalised

---
 regreg/paths/sparse_group_lasso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 680c16e..58ce614 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -66,7 +66,7 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self._unpenalized_vars = _candidate_bool(self.penalty.groups, 
                                                  unpenalized_groups)
-        self._penalized_vars = np.zeros(self.shape, np.bool)
+        self._penalized_vars = np.ones(self.shape, np.bool)
         self._penalized_vars[self._unpenalized_vars] = 0
 
         if np.any(unpenalized_idx):
@@ -111,8 +111,8 @@ class sparse_group_lasso_path(group_lasso_path):
             self._unpen_groups = []
             self._unpen_group_idx = np.zeros(self.group_shape, np.bool)
             for i, g in enumerate(self.penalty._sorted_groupids):
-                unpen_group = (self.penalty.weights[g] == 0 +
-                               np.any(self.penalty.lasso_weights[self.penalty.groups == g]
+                unpen_group = (self.penalty.weights[g] == 0 and
+                               np.all(self.penalty.lasso_weights[self.penalty.groups == g]
                                       == 0))
                 self._unpen_group_idx[i] = unpen_group
                 if unpen_group:
@@ -415,7 +415,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sqlasso.l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sglasso.lasso_weights.mean()) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From 9d7834a395893f282d03828f1fa0ee03e500d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 099/133] fix: sparse group block paths ignored l1_alpha

---
 regreg/paths/sparse_group_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 4169ce3..f7a6fd9 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -55,15 +55,15 @@ class sparse_group_common_path(group_lasso_path):
         self.l1_penalty = l1_penalty
         self.l2_penalty = l2_penalty
         if l1_alpha is not None:
-            self.l1_penalty *= l1_alpha
-            self.l2_penalty *= (1 - l1_alpha)
+            self.l1_penalty = self.l1_penalty * l1_alpha
+            self.l2_penalty = self.l2_penalty * (1 - l1_alpha)
 
         # the penalty parameters
 
         self.alpha = alpha
         self.penalty = sparse_group_block(self.X.input_shape,
-                                          l1_penalty, 
-                                          l2_penalty, 
+                                          self.l1_penalty, 
+                                          self.l2_penalty, 
                                           lagrange=1)
         self.group_shape = (self.penalty.shape[0],)
         self.shape = self.penalty.shape
-- 
2.43.0


From 847b4b0feaaa26cd356b8c8c7bc149e27f212f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 100/133] fix: sparse group lasso dual norm blew up rounding
 noise in unpenalised groups

---
 regreg/atoms/sparse_group_lasso.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 12447e9..9516f07 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -259,6 +259,11 @@ class sparse_group_lasso_dual(sparse_group_lasso):
          lagrange = seminorm.seminorm(self, x, 
                                       check_feasibility=check_feasibility, 
                                       lagrange=lagrange)
+         x = np.asarray(x)
+         if not check_feasibility:
+             # as for the group LASSO, unpenalized coordinates are left out
+             group_weights = np.array([self.weights[g] for g in self.groups])
+             x = x * ((self.lasso_weights > 0) + (group_weights > 0))
          return gauge_function_dual(self.base_conjugate, x) * lagrange
 
      @doc_template_user
-- 
2.43.0


From d66bc5019d06d17c809b5fd1e2f0fd5fbeb1f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 101/133] fix: a step size that collapsed at one point of a
 path spoiled all later points

---
 regreg/paths/__init__.py | 6 ++++--
 regreg/paths/basil.py    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 795901f..815b0ca 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -229,6 +229,7 @@ def strong_rules(path_obj,
         final_step = 1000. / _lipschitz 
     else:
         final_step = initial_step
+    start_step = final_step
 
     # gradient of restricted elastic net at lambda_max
 
@@ -271,7 +272,7 @@ def strong_rules(path_obj,
                                                           subproblem_set,
                                                           lagrange_new,
                                                           tol=tol,
-                                                          start_step=final_step,
+                                                          start_step=max(start_step, final_step),
                                                           debug=debug and verbose,
                                                           coef_stop=coef_stop)
 
@@ -398,6 +399,7 @@ def warm_start(path_obj,
         path_obj.final_step = 1000. / _lipschitz 
     else:
         path_obj.final_step = initial_step
+    start_step = path_obj.final_step
 
     objective = []
     solutions = []
@@ -410,7 +412,7 @@ def warm_start(path_obj,
         problem = simple_problem(total_loss, penalty)
         problem.coefs[:] = solution
         solve_args['tol'] = inner_tol
-        solve_args['start_step'] = path_obj.final_step
+        solve_args['start_step'] = max(start_step, path_obj.final_step)
         solution = problem.solve(**solve_args)
 
         objective.append(loss.smooth_objective(solution, mode='func'))
diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 0fc2327..b901b10 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -21,6 +21,7 @@ def basil_inner_loop(path_obj,
         final_step = 1000. / _lipschitz 
     else:
         final_step = initial_step
+    start_step = final_step
 
     # gradient of restricted elastic net at lambda_max
 
@@ -60,7 +61,7 @@ def basil_inner_loop(path_obj,
                                                       subproblem_set,
                                                       lagrange,
                                                       tol=inner_tol,
-                                                      start_step=final_step,
+                                                      start_step=max(start_step, final_step),
                                                       debug=debug and verbose,
                                                       coef_stop=coef_stop,
                                                       **solve_args)
-- 
2.43.0


From 7880beb992eb3dd6eecbb12445ae79aa66d04e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 102/133] fix: basil overwrote the gradient in its caller's
 initial data

---
 regreg/paths/basil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index b901b10..944db43 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -28,6 +28,7 @@ def basil_inner_loop(path_obj,
     solution, grad_solution = initial_data
 
     solution = solution.copy()
+    grad_solution = grad_solution.copy()
     last_grad = grad_solution.copy()
     inactive_ranks = path_obj.check_KKT(grad_solution,
                                         solution,
-- 
2.43.0


From ccb0c7216e7c2698e4fde896a2badd1d0180f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 103/133] fix: subsampling a sparse group lasso path mixed its
 weights with l1_alpha twice

---
 regreg/paths/sparse_group_lasso.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 58ce614..f2f156b 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -37,13 +37,16 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self.saturated_loss = saturated_loss
         self.X = astransform(X)
-        self.l1_alpha = l1_alpha # used only in constructor and 
-                                 # in subsample
+        self.l1_alpha = l1_alpha # already part of the weights of
+                                 # self.penalty, so `subsample` uses
+                                 # the weights before mixing
 
         # the penalty parameters
 
         self.alpha = alpha
         self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
+        self._unmixed_weights = (copy(self.penalty.lasso_weights),
+                                 copy(self.penalty.weights))
         l2_weight = 1 - l1_alpha
         for g in self.penalty.weights.keys():
             self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
@@ -148,11 +151,12 @@ class sparse_group_lasso_path(group_lasso_path):
 
         '''
         subsample_loss = self.saturated_loss.subsample(case_idx)
+        lasso_weights, weights = self._unmixed_weights
         return self.__class__(subsample_loss,
                               self.X,
                               self.penalty.groups,
-                              self.penalty.lasso_weights,
-                              weights=self.penalty.weights,
+                              lasso_weights,
+                              weights=weights,
                               elastic_net_param=self.elastic_net_param,
                               alpha=self.alpha,
                               l1_alpha=self.l1_alpha)
-- 
2.43.0


From d20698878208a698e563df73773a3db0105896c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 104/133] fix: keep basil's own gradient up to date between
 batches while leaving the caller's alone

---
 regreg/paths/basil.py | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 944db43..3241e0a 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -4,13 +4,26 @@ from ..affine import power_L
 def basil_inner_loop(path_obj,
                      lagrange_subseq,
                      initial_data, # (solution, grad) pair
-                     inner_tol=1.e-5,
-                     verbose=False,
-                     initial_step=None,
-                     check_active=False,
-                     step_nvar=50,
-                     candidate_set=None,
-                     solve_args={}):
+                     *args,
+                     **keyword_args):
+
+    solution, grad_solution = initial_data
+    return _basil_inner_loop(path_obj,
+                             lagrange_subseq,
+                             (solution, grad_solution.copy()),
+                             *args,
+                             **keyword_args)
+
+def _basil_inner_loop(path_obj,
+                      lagrange_subseq,
+                      initial_data, # (solution, grad) pair, grad is overwritten
+                      inner_tol=1.e-5,
+                      verbose=False,
+                      initial_step=None,
+                      check_active=False,
+                      step_nvar=50,
+                      candidate_set=None,
+                      solve_args={}):
 
     debug = True
     coef_stop = False
@@ -28,7 +41,6 @@ def basil_inner_loop(path_obj,
     solution, grad_solution = initial_data
 
     solution = solution.copy()
-    grad_solution = grad_solution.copy()
     last_grad = grad_solution.copy()
     inactive_ranks = path_obj.check_KKT(grad_solution,
                                         solution,
@@ -118,7 +130,8 @@ def basil(path_obj,
 
     lagrange_solved, solutions, candidate_set = [np.inf], [], []
 
-    cur_data = initial_data
+    # the inner loop keeps the gradient up to date
+    cur_data = (initial_data[0], initial_data[1].copy())
 
     while True:
         
@@ -129,16 +142,14 @@ def basil(path_obj,
             (lagrange_incr, 
              solution_incr, 
              last_grad,
-             candidate_set) = basil_inner_loop(path_obj,
-                                               lagrange_cand,
-                                               cur_data,
-                                               inner_tol=inner_tol,
-                                               step_nvar=step_nvar,
-                                               candidate_set=candidate_set,
-                                               solve_args=solve_args)
+             candidate_set) = _basil_inner_loop(path_obj,
+                                                lagrange_cand,
+                                                cur_data,
+                                                inner_tol=inner_tol,
+                                                step_nvar=step_nvar,
+                                                candidate_set=candidate_set,
+                                                solve_args=solve_args)
             if len(solution_incr) > 0:
-                cur_soln = (solution_incr[-1], last_grad)
-
                 solutions.extend(solution_incr)
                 lagrange_solved.extend(lagrange_incr)
         else:
-- 
2.43.0


From 2cb8ea13bd09263c380e8cd9bcb32ad9940160a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 105/133] fix: cross validation folds were unbalanced or
 missing when rounding hit a fold boundary

---
 regreg/paths/cross_validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/cross_validate.py b/regreg/paths/cross_validate.py
index c8cfb13..d87daa1 100644
--- a/regreg/paths/cross_validate.py
+++ b/regreg/paths/cross_validate.py
@@ -48,7 +48,7 @@ def cross_validate(path_obj,
     else:
         if type(cv) != type(3):
             raise ValueError('without sklearn, cv should be an integer')
-        groups = np.floor(np.arange(nsample)  / nsample * cv).astype(np.int)
+        groups = (np.arange(nsample) * cv) // nsample
         np.random.shuffle(groups)
         folds = [(groups != g, groups == g)
                  for g in np.unique(groups)]
@@ -138,7 +138,7 @@ def cross_validate_alt(path_obj,
     else:
         if type(cv) != type(3):
             raise ValueError('without sklearn, cv should be an integer')
-        groups = np.floor(np.arange(nsample)  / nsample * cv).astype(np.int)
+        groups = (np.arange(nsample) * cv) // nsample
         np.random.shuffle(groups)
         folds = [(groups != g, groups == g)
                  for g in np.unique(groups)]
-- 
2.43.0


From a36729562e9c5ec024026bd7abec54caac6b87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 106/133] fix: cross validation of multinomial paths raised

---
 regreg/paths/cross_validate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/paths/cross_validate.py b/regreg/paths/cross_validate.py
index d87daa1..f8ba938 100644
--- a/regreg/paths/cross_validate.py
+++ b/regreg/paths/cross_validate.py
@@ -40,6 +40,8 @@ def cross_validate(path_obj,
     # Compute paths for all folds 
 
     response = path_obj.saturated_loss.data
+    if isinstance(response, tuple): # multinomial: counts and trials
+        response = response[0]
     nsample = response.shape[0]
     have_sklearn = False
     if have_sklearn:
@@ -130,6 +132,8 @@ def cross_validate_alt(path_obj,
     # Compute paths for all folds 
 
     response = path_obj.saturated_loss.data
+    if isinstance(response, tuple): # multinomial: counts and trials
+        response = response[0]
     nsample = response.shape[0]
     have_sklearn = False
     if have_sklearn:
-- 
2.43.0


From f50fd3cf2ce281abcb2c7baca36d9357be6f6bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 107/133] fix: estimators could not score a single case with
 weights or offset

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3e5dabc..4e85d83 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -213,7 +213,9 @@ class base_mixin(object):
                 offset = None
 
             if neg_index < 0:
-                response = np.squeeze(y[:,:neg_index])
+                response = y[:,:neg_index]
+                if response.shape[1] == 1:
+                    response = response[:,0]
 
         return response, case_weights, offset
 
-- 
2.43.0


From 59371eff4ae4d1b9f9d5105bb5cfe8892e830490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 108/133] fix: score modified its argument and ignored sample
 weights of estimators without case weights

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 4e85d83..77bd855 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -172,7 +172,9 @@ class base_mixin(object):
                                     # in regreg
         if sample_weight is not None:
             if case_weights is not None:
-                case_weights *= sample_weight
+                case_weights = case_weights * sample_weight
+            else:
+                case_weights = np.asarray(sample_weight)
         return self._saturated_score(predictions, response, case_weights=case_weights)
 
     def _construct_atom(self):
-- 
2.43.0


From e43861cfe7b8625667935d43da7736538397e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 109/133] fix: estimators ignored their quadratic argument

---
 regreg/sklearn/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 77bd855..5e45fb7 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -122,6 +122,8 @@ class base_mixin(object):
         self._loglike = loglike = self._loglike_factory(X, y)
         atom_ = self._construct_atom()
         problem = simple_problem(loglike, atom_)
+        if self.quadratic is not None:
+            problem.quadratic = self.quadratic
         if self.initial is not None:
             problem.coefs[:] = self.initial
         self._coefs = problem.solve(**self.solve_args)
-- 
2.43.0


From ddb77c208a5c4300b731e2a44a0ea925e9db8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 110/133] fix: elastic net mixing dropped the quadratic part of
 the penalty

---
 regreg/sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 5e45fb7..5216690 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -373,7 +373,7 @@ class lagrange_mixin(base_mixin):
             # reweight penalty and add elastic net
             ridge_term = identity_quadratic(self.enet_alpha * atom_.lagrange, 0, 0, 0)
             atom_.lagrange *= (1 - self.enet_alpha)
-            atom_.quadratic = ridge_term
+            atom_.quadratic = atom_.quadratic + ridge_term
         return atom_
             
 class classifier_mixin(base_mixin):
-- 
2.43.0


From ce64959351ab3bf446deb86df4d79eb8b7b806b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 111/133] fix: lagrange estimators with unpenalized features
 failed with a NaN objective

---
 regreg/sklearn/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 5216690..8a53594 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -360,8 +360,9 @@ class lagrange_mixin(base_mixin):
         return self
 
     def _fit_null_soln(self, loglike, atom):
-        old_lagrange = atom.lagrange
-        atom.lagrange = np.inf
+        # infinite for all practical purposes, np.inf would be 
+        # multiplied by weights or seminorms that are 0
+        atom.lagrange = np.sqrt(np.finfo(float).max)
         problem = simple_problem(loglike, atom)
         null_soln = problem.solve()
         null_grad = loglike.smooth_objective(null_soln, 'grad')
-- 
2.43.0


From 7d496e684aefbdbb7dd18c53a93e919433924d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 112/133] fix: accuracy compared linear predictors instead of
 labels with the response

---
 regreg/sklearn/cloglog.py     | 3 ++-
 regreg/sklearn/logistic.py    | 3 ++-
 regreg/sklearn/multinomial.py | 7 ++++---
 regreg/sklearn/probit.py      | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 3ff4c35..6eb1a55 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -119,7 +119,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.mean(labels == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 617f155..db9c89e 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -117,7 +117,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.mean(labels == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index fd19257..448375a 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -59,8 +59,8 @@ if have_sklearn:
                 SST = 2 * loss(np.multiply.outer(multinom_0,  np.ones_like(response)))
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-                labels = predictions > 0
-                return np.mean(labels == response)
+                labels = np.argmax(predictions, 1)
+                return np.mean(labels == np.argmax(response, 1))
             else:
                 return np.nan
 
@@ -96,7 +96,8 @@ if have_sklearn:
             successes = response
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = np.argmax(predictions, 1)
+                return np.mean(labels == np.argmax(successes, 1))
             return np.nan
 
         def predict(self, X):
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index c5b1ba8..25e31f2 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -118,7 +118,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.mean(labels == successes)
             return np.nan
 
         def predict_proba(self, X):
-- 
2.43.0


From 0c588edb6d9f0549f20238d0806c065168f40454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 113/133] fix: mean deviance of cloglog estimators was not
 divided by the number of cases

---
 regreg/sklearn/cloglog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 6eb1a55..7163389 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -64,7 +64,7 @@ if have_sklearn:
             if self.score_method == 'deviance':
                 return -2 * loss(predictions)
             elif self.score_method == 'mean_deviance':
-                return -2 * loss(predictions)
+                return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = response.mean()
-- 
2.43.0


From 3ae32a3894a9b475c456f084afebcf3ae754b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 114/133] fix: labels of cloglog classifiers contradicted their
 probabilities

---
 regreg/sklearn/cloglog.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 7163389..361d5fb 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -72,7 +72,7 @@ if have_sklearn:
                 SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-                labels = predictions > 0
+                labels = predictions > np.log(np.log(2)) # probability above 1/2
                 return np.mean(labels == response)
             else:
                 return np.nan
@@ -119,10 +119,29 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                labels = predictions > 0
+                labels = predictions > np.log(np.log(2)) # probability above 1/2
                 return np.mean(labels == successes)
             return np.nan
 
+        def predict(self, X):
+            """
+            Predict new labels in classification setting.
+
+            Parameters
+            ----------
+
+            X : np.ndarray((n, p))
+                Feature matrix.
+
+            Returns
+            -------
+
+            labels : np.ndarray(n)
+                Predictions from classification model.
+
+            """
+            return X.dot(self._coefs) > np.log(np.log(2)) # probability above 1/2
+
         def predict_proba(self, X):
             """
             Predict new probabilities in classification setting.
-- 
2.43.0


From 2938abe2ca74ace9b59eef002faf9fe6f407607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 115/133] fix: class probabilities overflowed or were
 normalised along the wrong axis

---
 regreg/sklearn/logistic.py    | 4 ++--
 regreg/sklearn/multinomial.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index db9c89e..38ad948 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import expit
 
 have_sklearn = True
 try:
@@ -139,8 +140,7 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / (1 + exp_lin)
+            return expit(linpred)
 
     class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
         pass
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 448375a..087de4e 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -138,8 +138,8 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / exp_lin.sum(1)
+            exp_lin = np.exp(linpred - linpred.max(1)[:,None])
+            return exp_lin / exp_lin.sum(1)[:,None]
 
     class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
         pass
-- 
2.43.0


From 228720c45871be84960840355c3b2c9308e84691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 116/133] fix: R2 scores of multinomial, binomial and survival
 estimators used an invalid null deviance

---
 regreg/sklearn/cloglog.py     | 4 ++--
 regreg/sklearn/cox.py         | 2 +-
 regreg/sklearn/logistic.py    | 4 ++--
 regreg/sklearn/multinomial.py | 2 +-
 regreg/sklearn/probit.py      | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 361d5fb..8b6fd32 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -67,9 +67,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 cloglog_0 = gumbel_r.ppf(pi_0)
-                SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
+                SST = 2 * loss(cloglog_0 * np.ones_like(predictions)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > np.log(np.log(2)) # probability above 1/2
diff --git a/regreg/sklearn/cox.py b/regreg/sklearn/cox.py
index ccc1427..7a64244 100644
--- a/regreg/sklearn/cox.py
+++ b/regreg/sklearn/cox.py
@@ -54,7 +54,7 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                SST = loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
+                SST = 2 * loss(np.zeros(response.shape[0])) # X: correct for Cox?
                 return 1 - SSE / SST
             elif self.score_method == 'C-index':
                 return np.nan
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 38ad948..962d769 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -66,9 +66,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 logit_0 = np.log(pi_0 / (1 - pi_0))
-                SST = 2 * loss(logit_0 * np.ones_like(response)) # X: correct for logistic?
+                SST = 2 * loss(logit_0 * np.ones_like(predictions)) # X: correct for logistic?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 087de4e..027e783 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -56,7 +56,7 @@ if have_sklearn:
                 SSE = 2 * loss(predictions)
                 pi_0 = np.mean(response, 0)
                 multinom_0 = np.log(pi_0)
-                SST = 2 * loss(np.multiply.outer(multinom_0,  np.ones_like(response)))
+                SST = 2 * loss(np.multiply.outer(np.ones(response.shape[0]), multinom_0))
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = np.argmax(predictions, 1)
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index 25e31f2..c59d3e4 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -66,9 +66,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 probit_0 = normal_dbn.ppf(pi_0)
-                SST = 2 * loss(probit_0 * np.ones_like(response)) # X: correct for probit?
+                SST = 2 * loss(probit_0 * np.ones_like(predictions)) # X: correct for probit?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-- 
2.43.0


From 6e2f0fbc3249efc870a6174e95d34fc301378e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 117/133] fix: R2 score of cloglog estimators inverted the
 wrong link for its null deviance

---
 regreg/sklearn/cloglog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 8b6fd32..be10feb 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.stats import gumbel_r
+from scipy.stats import gumbel_l
 
 have_sklearn = True
 try:
@@ -68,7 +68,7 @@ if have_sklearn:
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
-                cloglog_0 = gumbel_r.ppf(pi_0)
+                cloglog_0 = gumbel_l.ppf(pi_0)
                 SST = 2 * loss(cloglog_0 * np.ones_like(predictions)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-- 
2.43.0


From 50902b83152af5b8da5e2950f3d4544d5fb285c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 118/133] fix: terms of the weighted norms are the summands and
 the maximised values

supnorm.terms divided by the weights its seminorm multiplies with, and an
infinite weight on a zero coordinate gave nan in l1norm.terms.
---
 regreg/atoms/weighted_atoms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 15fb0de..15877ad 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -201,7 +201,7 @@ class l1norm(seminorm):
 
         """
         arg = np.asarray(arg)
-        return np.fabs(arg) * self.weights
+        return np.where(arg != 0, np.fabs(arg), 1) * np.where(arg != 0, self.weights, 0)
 
 @objective_doc_templater()
 class supnorm(seminorm):
@@ -270,9 +270,11 @@ class supnorm(seminorm):
 
         """
         arg = np.asarray(arg)
-        v = np.fabs(arg) / self.weights
+        finite = np.isfinite(self.weights)
+        v = np.zeros(arg.shape)
+        v[finite] = np.fabs(arg[finite]) * self.weights[finite]
         if check_feasibility:
-            v[self.weights == 0] = np.where(np.fabs(arg[self.weights == 0]) != 0, np.inf, 0)
+            v[~finite] = np.where(arg[~finite] != 0, np.inf, 0)
         return v
 
 conjugate_weighted_pairs = {}
-- 
2.43.0


From a6457e0267658fe9c8698d2c84ff3a9a44006afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 119/133] fix: Cox Hessian does not square the sum over a risk
 set

The square underflows to zero, and the Hessian becomes nan, once linear
predictors of a late risk set are about 370 below the largest one.
---
 regreg/smooth/cox_fns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index a7e2990..be8f2db 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -137,7 +137,7 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
     if (censoring * case_weight > 0) { // cases with no weight may have an empty risk set
-      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+      cur_val = cur_val + censoring * case_weight * ((*expZ_accum) / (*exp_accum)) / (*exp_accum);
     }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
-- 
2.43.0


From 96561a934ad5064efbcbd1e2044699e9304c2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 120/133] fix: container took the proximal map of an atom
 behind any selector as that of the atom on the selected coordinates

A selector may also repeat coordinates, reshape them or apply a further
transform; then the general (dual) proximal map has to be used.
---
 regreg/problems/container.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 1a47a9f..8af8583 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -93,7 +93,7 @@ class container(composite):
         transform, atom = self.transform, self.atom
 
         if not (isinstance(transform, afidentity) or
-                isinstance(transform, afselector)):
+                _picks_coordinates(transform)):
             #Default fitting parameters
             prox_defaults = {'max_its': 5000,
                              'min_its': 5,
@@ -174,3 +174,16 @@ class container(composite):
         self.quadratic = oldq
         return value
 
+def _picks_coordinates(transform):
+    """
+    Does this transform only select coordinates, each at most once,
+    so that the proximal map of its composition with an
+    atom is the proximal map of the atom on these coordinates?
+    """
+    if not (isinstance(transform, afselector) and
+            isinstance(transform.affine_transform, afidentity) and
+            transform.reshape is None):
+        return False
+    indices = np.arange(np.product(transform.input_shape))
+    selected = indices.reshape(transform.input_shape)[transform.index_obj]
+    return np.unique(selected).shape[0] == np.size(selected)
-- 
2.43.0


From 5977ecab46152b4b812271b2614ace7c5a5223f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 121/133] fix: separable penalties could not be evaluated on
 reshaped groups that are not contiguous

Assigning the shape of a view is not always possible, the proximal map
already reshaped.
---
 regreg/problems/separable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 323bd85..9a8f4bc 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -102,7 +102,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.seminorm(x_group,
                                    lagrange=lagrange,
                                    check_feasibility=check_feasibility)
@@ -115,7 +115,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.constraint(x_group, bound=bound)
         return value
 
@@ -126,7 +126,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.nonsmooth_objective(x_group,
                                               check_feasibility=check_feasibility)
         return value
-- 
2.43.0


From ad5b2694e18b0fb3038914f12b47b156e7fdb4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 122/133] fix: a smooth conjugate with a quadratic could not be
 conjugated

Both cases raised (an undefined name, an unknown keyword) and the offset
had the wrong sign.
---
 regreg/problems/composite.py | 114 +++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 46 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index c66c2f8..21bef4a 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -1,4 +1,4 @@
-from numpy import zeros, asarray, any as npany
+from numpy import zeros, asarray, any as npany, sum as np_sum
 from copy import copy
 
 # local imports
@@ -301,53 +301,22 @@ class smooth_conjugate(smooth):
                 return atom
         else:
             q = self.quadratic.collapsed()
+            total = (self.atom.quadratic + self.smoothing_quadratic).collapsed()
+
             if q.coef == 0:
-                newq = copy(atom.quadratic)
-                newq.constant_term -= q.constant_term
-                offset = -q.linear_term
-                if atom.offset is not None:
-                    offset -= atom.offset
-                atom = copy(atom)
-                atom.offset = offset
-                atom.quadratic = newq
+                # the function this is the conjugate of, translated by
+                # the linear term and with the constant subtracted
+                atom = copy(self.atom)
+                atom.offset = (q.linear_term if self.atom.offset is None
+                               else q.linear_term + self.atom.offset)
+                atom.quadratic = sq(total.coef, 
+                                    q.linear_term, 
+                                    total.linear_term, 
+                                    total.constant_term - q.constant_term -
+                                    np_sum(total.linear_term * q.linear_term))
                 return atom
-            if q.coef != 0:
-                r = q.coef
-                sq_ = self.smoothing_quadratic
-                newq = sq_ + q.conjugate
-                new_smooth = smooth_conjugate(self.atom, quadratic=newq)
-                output = smooth(self.atom.shape,
-                                offset=None,
-                                quadratic=sq(1./r, q.linear_term, 0, 0),
-                                initial=None)
-                output.smoothed_atom = new_smooth
-
-                def smooth_objective(self, x, mode='func', check_feasibility=False):
-                    # what if self.quadratic is later changed? hmm..
-                    r = 1. / self.quadratic.coef
-                    if mode == 'func':
-                        v = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                check_feasibility=check_feasibility)
-                        return self.smoothing_quadratic.objective(x, 'func') - v
-                    elif mode == 'both':
-                        v1, g1 = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                     check_feasibility=check_feasibility)
-                        v2, g2 = self.smoothing_quadratic.objective(x, mode=mode, 
-                                                                    check_feasibility=check_feasibility)
-                        return v2-v1, g2-g1/r
-                    elif mode == 'grad':
-                        g1 = self.smoothed_atom.smooth_objective(x/r, mode='grad', 
-                                                                     check_feasibility=check_feasibility)
-                        g2 = self.smoothing_quadratic.objective(x, mode='grad', 
-                                                                    check_feasibility=check_feasibility)
-                        return g2-g1/r
-                    else:
-                        raise ValueError("mode incorrectly specified")
-                        
-                output.smooth_objective = type(output.smooth_objective)(smooth_objective,
-                                                                        output, 
-                                                                        smooth)
-                return output
+            else:
+                return smooth_envelope(self.atom, total, q)
     conjugate = property(get_conjugate)
 
     def latexify(self, var=None, idx=''):
@@ -401,3 +370,56 @@ class smooth_conjugate(smooth):
 
     def proximal(self, proxq, prox_control=None):
         raise ValueError('no proximal defined')
+
+class smooth_envelope(smooth):
+
+    r"""
+    The conjugate of a smooth conjugate to which a quadratic was added.
+
+    In the notation of `smooth_conjugate`, for $r > 0$, this is
+
+    .. math::
+
+        v \mapsto \frac{1}{2r} \|v-\gamma\|^2_2 - a - 
+        \sup_x \left(\left(\frac{v-\gamma}{r}\right)^Tx - 
+        \frac{1}{2r} \|x\|^2_2 - f(x) \right)
+
+    with f the atom plus its quadratic.
+    """
+
+    def __init__(self, atom, atom_quadratic, quadratic):
+
+        r = quadratic.coef
+        self.r = r
+        self.center = quadratic.linear_term # gamma
+        self.constant = quadratic.constant_term # a
+        atom = copy(atom)
+        atom.quadratic = atom_quadratic
+        self.smoothed_conjugate = smooth_conjugate(atom, sq(1./r, 0, 0, 0))
+        self.lipschitz = 1. / r
+        self.shape = atom.shape
+        self.coefs = zeros(self.shape)
+
+    def smooth_objective(self, x, mode='both', check_feasibility=False):
+        """
+        Evaluate a smooth function and/or its gradient
+
+        if mode == 'both', return both function value and gradient
+        if mode == 'grad', return only the gradient
+        if mode == 'func', return only the function value
+        """
+
+        if mode not in ['both', 'func', 'grad']:
+            raise ValueError("mode incorrectly specified")
+
+        z = (x - self.center) / self.r
+        value, argmax = self.smoothed_conjugate.smooth_objective(z, 'both')
+        value = self.r * (z**2).sum() / 2. - self.constant - value
+        grad = z - argmax / self.r
+
+        if mode == 'both':
+            return value, grad
+        elif mode == 'grad':
+            return grad
+        else:
+            return value
-- 
2.43.0


From 1fae6dcd0dd3ece3e573eca5b60f9936c9b53417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 123/133] fix: the conjugate of a quadratic loss with a matrix
 or a diagonal could not be computed

get_conjugate referred to undefined names for every loss with a Q; the
cholesky solver it relies on could not be used as a transform, nor with
banded matrices.
---
 regreg/smooth/quadratic.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index f0c48dd..8196b69 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -169,20 +169,27 @@ class quadratic_loss(smooth_atom):
             as_quad = (identity_quadratic(self.coef, self.offset, 0, 0) + self.quadratic).collapsed()
             return smooth_conjugate(zero(self.shape, quadratic=as_quad))
         else:
-            #XXX this needs to be tested
-            sq = self.quadratic.collapsed()
-            if self.offset is not None:
-                sq.linear_term -= self.scale(self.Q_transform.linear_map(self.offset))
-            if self.Q_transform.diagD:
+            # the function is x'Hx/2 + <b,x> + c with H below, its
+            # conjugate is (u-b)'H^{-1}(u-b)/2 - c
+            zero_ = np.zeros(self.shape)
+            c, b = self.quadratic.objective(zero_, 'both')
+            value, grad = self.smooth_objective(zero_, 'both')
+            offset = b + grad
+            outq = identity_quadratic(0, 0, 0, -(c + value))
+            coef = self.quadratic.coef or 0
+            if self.Qdiag:
                 return quadratic_loss(self.shape,
-                                      Q=1./(self.coef*self.Q_transform.linear_operator + sq.coef),
+                                      Q=1./(self.coef * np.asarray(self.Q) + coef),
                                       offset=offset,
                                       quadratic=outq, 
                                       coef=1.,
                                       Qdiag=True)
             elif factor:
+                identity = np.identity(self.shape[0])
+                H = np.array([self.scale(self.Q_transform.linear_map(e)) 
+                              for e in identity]) + coef * identity
                 return quadratic_loss(self.shape,
-                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape)),
+                                      Q=cholesky(H),
                                       Qdiag=False,
                                       offset=offset,
                                       quadratic=outq,
@@ -207,8 +214,10 @@ class cholesky(object):
     '''
 
     def __init__(self, Q, cholesky=None, banded=False):
-        self.input_shape = Q.shape[0]
-        self.output_shape = Q.shape[0]
+        # banded matrices are stored by diagonals
+        n = Q.shape[1] if banded else Q.shape[0]
+        self.input_shape = (n,)
+        self.output_shape = (n,)
         self.affine_offset = None
         self._Q = Q
         self.banded = banded
@@ -224,7 +233,7 @@ class cholesky(object):
         if not self.banded:
             return cho_solve(self._cholesky, x)
         else:
-            return cho_solve_banded(self._cholesky, x)
+            return cho_solve_banded((self._cholesky, False), x)
 
     def affine_map(self, x):
         return self.linear_map(x)
-- 
2.43.0


From d2ad4f503a2236a3b0a34b845ea1bcd2837d951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 124/133] fix: separable ignored its own quadratic, and its
 conjugate the coordinates outside all groups

A quadratic attached to a separable penalty entered neither its value nor
its proximal map, so its (smooth) conjugate and smoothed version were
wrong; the conjugate of a separable penalty was finite away from zero on
coordinates that are not penalized.
---
 regreg/problems/separable.py | 51 ++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 9a8f4bc..9942044 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -6,12 +6,15 @@ The penalty is specified by a primal shape, a sequence of atoms and
 a sequence of slicing objects.
 """
 
+from copy import copy
+
 import numpy as np
 
 from ..affine import selector
 from ..atoms import atom, affine_atom
 from ..problems.simple import simple_problem
 from ..atoms.cones import zero
+from ..identity_quadratic import identity_quadratic
 from .composite import smooth_conjugate
 
 def has_overlap(shape, groups):
@@ -120,7 +123,7 @@ class separable(atom):
         return value
 
     def nonsmooth_objective(self, x, check_feasibility=False):
-        value = 0
+        value = self.quadratic.objective(x, 'func')
         for atom, group, shape in zip(self.atoms,
                                       self.groups,
                                       self.shapes):
@@ -135,6 +138,7 @@ class separable(atom):
         # This allows separable to not have every
         # coefficient penalized in a natural way
         # because this instantiates it at the prox map of the zero penalty
+        proxq = proxq + self.quadratic
         v = self.zero_atom.proximal(proxq)
         for atom, group, shape, assign_shape in zip(self.atoms,
                                                     self.groups,
@@ -151,12 +155,35 @@ class separable(atom):
 
     @property
     def conjugate(self):
-        if self.quadratic.coef == 0:
+        quadratic = self.quadratic.collapsed()
+        if quadratic.coef == 0:
+            # the linear term is that of each atom on its group
+            linear = np.zeros(self.shape) + quadratic.linear_term
+            conjugates = []
+            free = np.ones(self.shape, bool)
+            for atom, group, shape in zip(self.atoms, self.groups, self.shapes):
+                free[group] = False
+                linear_group = linear[group]
+                if shape is not None:
+                    linear_group = linear_group.reshape(shape)
+                if np.any(linear_group != 0):
+                    atom = copy(atom)
+                    atom.quadratic = atom.quadratic + identity_quadratic(0, 0, linear_group, 0)
+                conjugates.append(atom.conjugate)
+            groups, shapes = list(self.groups), list(self.shapes)
+            # coordinates in no group are not penalized
+            if np.any(free):
+                free = np.nonzero(free)
+                rest = zero((len(free[0]),), 
+                            quadratic=identity_quadratic(0, 0, linear[free], 0))
+                conjugates.append(rest.conjugate)
+                groups.append(free)
+                shapes.append(None)
             conjugate_atom = separable(self.shape,
-                                       [atom.conjugate 
-                                        for atom in self.atoms],
-                                       self.groups,
-                                       shapes=self.shapes)
+                                       conjugates,
+                                       groups,
+                                       shapes=shapes)
+            conjugate_atom.quadratic = identity_quadratic(0, 0, 0, -quadratic.constant_term)
         else:
             conjugate_atom = smooth_conjugate(self)
         self._conjugate = conjugate_atom
@@ -201,11 +228,13 @@ class separable_problem(simple_problem):
 
     @staticmethod
     def fromatom(separable_atom, smooth_f):
-        return separable_problem(smooth_f, separable_atom.shape, 
-                                 separable_atom.atoms,
-                                 separable_atom.groups,
-                                 False,
-                                 shapes=separable_atom.shapes)
+        problem = separable_problem(smooth_f, separable_atom.shape, 
+                                    separable_atom.atoms,
+                                    separable_atom.groups,
+                                    False,
+                                    shapes=separable_atom.shapes)
+        problem.proximal_atom.quadratic = separable_atom.quadratic
+        return problem
     @property
     def selectors(self):
         return self.proximal_atom.selectors
-- 
2.43.0


From 76c439719347fe6fb607a2fcb1c24dc9d5afa437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 125/133] fix: positive_part_lagrange with an offset was off by
 a constant

---
 regreg/atoms/seminorms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 50f637f..f946e18 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -846,6 +846,9 @@ def positive_part_lagrange(shape, lagrange,
     '''
     lin = np.ones(shape) * .5 * lagrange
     linq = identity_quadratic(0,0,lin,0)
+    if offset is not None:
+        # the linear term is evaluated before the offset is subtracted
+        linq.constant_term = -(lin * offset).sum()
     if quadratic is not None:
         linq = linq + quadratic
     return l1norm(shape, lagrange=0.5*lagrange,
-- 
2.43.0


From d6ea11adae6cddd5a451427da4903170ff717edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 126/133] fix: case weights of the wrong length were accepted
 by the cox and poisson losses

---
 regreg/smooth/cox.py | 2 ++
 regreg/smooth/glm.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 9e4ed8b..ba68fd2 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -40,6 +40,8 @@ class cox_loglike(smooth_atom):
             if not np.all(case_weights >= 0):
                 raise ValueError('case_weights should be non-negative')
             self.case_weights = np.asarray(case_weights)
+            if self.case_weights.shape != self.event_times.shape:
+                raise ValueError('case_weights should have same shape as event_times')
         else:
             self.case_weights = np.ones(self.event_times.shape, float)
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 757f4aa..feec38f 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1069,6 +1069,8 @@ class poisson_loglike(smooth_atom):
             if not np.all(case_weights >= 0):
                 raise ValueError('case_weights should be non-negative')
             self.case_weights = np.asarray(case_weights)
+            if self.case_weights.shape != np.shape(self.counts):
+                raise ValueError('case_weights should have same shape as counts')
         else:
             self.case_weights = None
 
-- 
2.43.0


From fcd8fc1be198348fc85eb942229802c2b1d4f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 127/133] fix: negative penalty parameters and weights were
 accepted on assignment and by grouped penalties

---
 regreg/atoms/group_lasso.py        | 5 +++++
 regreg/atoms/mixed_lasso.py        | 5 +++++
 regreg/atoms/seminorms.py          | 4 ++++
 regreg/atoms/sparse_group_block.py | 4 ++++
 4 files changed, 18 insertions(+)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 5e3d36e..d691990 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -70,6 +70,9 @@ class group_lasso(seminorm):
             self._weight_array[i] = self.weights.get(g, np.sqrt(group.sum()))
             self.weights[g] = self._weight_array[i]
 
+        if not np.all(self._weight_array >= 0):
+            raise ValueError('weights should be nonnegative')
+
         # buffers for cython computations
 
         self._l1_cython = np.array([], np.intp)
@@ -84,6 +87,8 @@ class group_lasso(seminorm):
         """
         Set a group's weight after initialization.
         """
+        if not weight >= 0:
+            raise ValueError('weights should be nonnegative')
         idx = self._sorted_groupids.index(group)
         self._weight_array[idx] = weight
         self.weights[group] = weight
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index eebfd2d..ede8cea 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -73,6 +73,11 @@ class mixed_lasso(atom):
             self._groups[g] = idx
             self._weight_array[idx] = self.weights.get(label, np.sqrt(g.sum()))
 
+        if not np.all(self._weight_array >= 0):
+            raise ValueError('weights should be nonnegative')
+        if lagrange is not None and lagrange < 0:
+            raise ValueError('penalty parameter should be non-negative')
+
         # buffers for cython computations
 
         self._norms_cython = np.zeros_like(self._weight_array)
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index f946e18..da83366 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -235,6 +235,8 @@ class seminorm(atom):
         AttributeError: atom is in bound mode
 
         """
+        if lagrange is not None and lagrange < 0:
+            raise ValueError('Lagrange multiplier should be non-negative')
         if self.bound is None:
             self._lagrange = lagrange
         else:
@@ -274,6 +276,8 @@ class seminorm(atom):
         ...
         AttributeError: atom is in lagrange mode
         """
+        if bound is not None and bound < 0:
+            raise ValueError('Bound on the seminorm should be non-negative')
         if self.lagrange is None:
             self._bound = bound
         else:
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 9609c25..0c49ac3 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -51,6 +51,8 @@ class sparse_group_block(l1_l2):
                        quadratic=quadratic,
                        initial=initial)
 
+        if l1_weight < 0 or l2_weight < 0:
+            raise ValueError('weights should be nonnegative')
         self.l1_weight = l1_weight
         self.l2_weight = l2_weight
 
@@ -170,6 +172,8 @@ class sparse_group_block_dual(sparse_group_block):
                        quadratic=quadratic,
                        initial=initial)
 
+        if l1_weight < 0 or l2_weight < 0:
+            raise ValueError('weights should be nonnegative')
         self.l1_weight = l1_weight
         self.l2_weight = l2_weight
 
-- 
2.43.0


From 453122faec847e6194ac73a904b0d5471ed34f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 128/133] fix: a selector with a change of shape and a
 transform declared the wrong output shape

---
 regreg/affine/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index c087799..82e28b0 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -323,16 +323,16 @@ class selector(linear_transform):
         self.index_obj = index_obj
         self.initial_shape = initial_shape
         self.reshape = reshape
-        if affine_transform == None:
-            test = np.empty(initial_shape)
-            affine_transform = identity(test[index_obj].shape)
+        if affine_transform is None:
+            if self.reshape is None:
+                test = np.empty(initial_shape)
+                affine_transform = identity(test[index_obj].shape)
+            else:
+                affine_transform = identity(self.reshape)
         self.affine_transform = affine_transform
         self.affine_offset = self.affine_transform.affine_offset
         self.input_shape = initial_shape
-        if self.reshape is None:
-            self.output_shape = self.affine_transform.output_shape
-        else:
-            self.output_shape = self.reshape
+        self.output_shape = self.affine_transform.output_shape
             
     def linear_map(self, x):
         x_indexed = x[self.index_obj]
-- 
2.43.0


From 34c16da199069cad52db22ac6c956d5bb07756bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:22 +0000
Subject: [PATCH 129/133] fix: a loss composed with an affine map lost the
 quadratic attached to it

---
 regreg/smooth/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 15ee8a1..662cf58 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -233,8 +233,12 @@ class affine_smooth(smooth_atom):
         """
 
         eta = self.affine_transform.affine_map(arg)
+        q = self.atom.quadratic # part of the function being composed
         if mode == 'both':
             v, g = self.atom.smooth_objective(eta, mode='both')
+            if not q.iszero:
+                v = v + q.objective(eta, 'func')
+                g = g + q.objective(eta, 'grad')
             if self.store_grad:
                 self.grad = g
             g = self.affine_transform.adjoint_map(g)
@@ -243,6 +247,8 @@ class affine_smooth(smooth_atom):
             return v, g
         elif mode == 'grad':
             g = self.atom.smooth_objective(eta, mode='grad')
+            if not q.iszero:
+                g = g + q.objective(eta, 'grad')
             if self.store_grad:
                 self.grad = g
             g = self.affine_transform.adjoint_map(g)
@@ -251,6 +257,8 @@ class affine_smooth(smooth_atom):
             return g 
         elif mode == 'func':
             v = self.atom.smooth_objective(eta, mode='func')
+            if not q.iszero:
+                v = v + q.objective(eta, 'func')
             return v 
 
     @property
-- 
2.43.0


From 3f3a22ba89775ee1b77d348fb928750dc3da5559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 130/133] fix: proximal maps called directly truncated or
 refused arrays of whole numbers

---
 regreg/atoms/block_norms.py | 6 +++---
 regreg/atoms/cones.py       | 6 +++---
 regreg/atoms/seminorms.py   | 6 +++---
 regreg/atoms/simplex.py     | 1 +
 regreg/atoms/svd_norms.py   | 8 ++++----
 5 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 6fc3e72..9a3f721 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -294,7 +294,7 @@ class linf_l2(block_max):
         norm = np.sqrt((arg**2).sum(1))
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
-        v = arg.copy()
+        v = arg.astype(float)
         v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
@@ -309,7 +309,7 @@ class linf_l2(block_max):
         else:
             proj_factor = arg
         factor = (norm - proj_factor) / (norm + (norm == 0))
-        v = arg.copy()
+        v = arg.astype(float)
         v *= factor[:,np.newaxis]
         return v
 
@@ -492,7 +492,7 @@ class l1_l2(block_sum):
         else:
             proj_factor = arg
         factor = proj_factor / (norm + (norm == 0))
-        v = arg.copy()
+        v = arg.astype(float)
         v *= factor[:,np.newaxis]
         return v
 
diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index ff99013..9e79110 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -472,7 +472,7 @@ class l2_epigraph(cone):
         if norm_coef <= norm:
             return np.array(x)
         thold = (norm_coef - norm) / 2.
-        result = np.zeros_like(x)
+        result = np.zeros(np.shape(x))
         if norm_coef == 0:
             return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
@@ -520,7 +520,7 @@ class l2_epigraph_polar(cone):
         if norm_coef <= norm:
             return -arg
         thold = (norm_coef - norm) / 2.
-        result = np.zeros_like(arg)
+        result = np.zeros(np.shape(arg))
         if norm_coef == 0:
             return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
@@ -560,7 +560,7 @@ class l1_epigraph(cone):
 
     @doc_template_user
     def cone_prox(self, x):
-        return projl1_epigraph(x)
+        return projl1_epigraph(np.asarray(x, float))
 
     @doc_template_user
     def proximal(self, quadratic, prox_control=None):
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index da83366..3673e64 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -891,7 +891,7 @@ class positive_part(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = arg.copy()
         pos = v > 0
         v = np.atleast_1d(v)
@@ -1060,7 +1060,7 @@ class constrained_positive_part(seminorm):
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = np.zeros(arg.shape, float)
         v = np.atleast_1d(v)
         pos = arg > 0
@@ -1131,7 +1131,7 @@ class max_positive_part(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = np.zeros(arg.shape, float)
         v = np.atleast_1d(v)
         pos = arg > 0
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index c299b3d..6a810db 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -99,6 +99,7 @@ class simplex_constraint(atom):
 
     def _basic_prox(self, prox_arg, lipschitz):
         # lipschitz is ignored because it is a constraint
+        prox_arg = np.asarray(prox_arg, float)
         value = find_solution_piecewise_linear_uncon(1, prox_arg)
         return (prox_arg - value).clip(min=0)        
 
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 94f9019..2104f13 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -274,7 +274,7 @@ class nuclear_norm_epigraph(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = projl1_epigraph(newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1] 
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
@@ -321,7 +321,7 @@ class nuclear_norm_epigraph_polar(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = newD - projl1_epigraph(newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1]
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
@@ -368,7 +368,7 @@ class operator_norm_epigraph(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = newD + projl1_epigraph(-newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1]
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
@@ -414,7 +414,7 @@ class operator_norm_epigraph_polar(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = -projl1_epigraph(-newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1]
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
-- 
2.43.0


From 8538afee9bf8fb05076c6b94fff57e525f6852d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:02 +0000
Subject: [PATCH 131/133] fix: warm_start wrote its own entries into the solver
 arguments it was given

---
 regreg/paths/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 815b0ca..8518ae7 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -411,9 +411,10 @@ def warm_start(path_obj,
 
         problem = simple_problem(total_loss, penalty)
         problem.coefs[:] = solution
-        solve_args['tol'] = inner_tol
-        solve_args['start_step'] = max(start_step, path_obj.final_step)
-        solution = problem.solve(**solve_args)
+        cur_args = dict(solve_args,
+                        tol=inner_tol,
+                        start_step=max(start_step, path_obj.final_step))
+        solution = problem.solve(**cur_args)
 
         objective.append(loss.smooth_objective(solution, mode='func'))
         solutions.append(solution.T.copy())
-- 
2.43.0


From 951a12bf9c11e70a70c0fd986cf4ccf7560e72f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:08 +0000
Subject: [PATCH 132/133] fix: containers of atoms composed with transforms
 only could not be built

---
 regreg/problems/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 8af8583..3da1cd1 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -42,7 +42,10 @@ class container(composite):
         if len(self.nonsmooth_atoms) == 0:
             self.nonsmooth_atoms = [zero_nonsmooth(self.smooth_atoms[0].shape)]
 
-        self.transform, self.atom = stacked_dual((self.smooth_atoms + self.nonsmooth_atoms)[0].shape, *self.nonsmooth_atoms)
+        # atoms composed with a transform only have the shape of their argument
+        first = (self.smooth_atoms + self.nonsmooth_atoms)[0]
+        shape = first.shape if hasattr(first, 'shape') else first.input_shape
+        self.transform, self.atom = stacked_dual(shape, *self.nonsmooth_atoms)
         self.coefs = np.zeros(self.transform.input_shape)
 
         self.smoothq = identity_quadratic(0,0,0,0)
-- 
2.43.0


From d4fcadd4baf18de5947c0cbc3f85169e15ab49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 133/133] fix: mean of the logistic model was nan for large
 linear predictors

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 4bb8ba8..933d82e 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -256,7 +256,7 @@ class logistic_loglike(smooth_atom):
     # End loss API
 
     def mean_function(self, eta, trials=None):
-        _exp_eta = np.exp(eta)
+        _exp_eta = np.exp(np.minimum(eta, 1e2)) # to prevent overflow
         return _exp_eta / (1. + _exp_eta)
 
 class probit_loglike(smooth_atom):
-- 
2.43.0

