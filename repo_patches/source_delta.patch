From 3373c7944beab170dd3a05cfa3b6c5a25f179ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 01/58] fix: Sum.add applies the weight of an atom to its
 constant offset

---
 maxlike/func/func_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..57afed9 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -177,10 +177,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
-- 
2.43.0


From 4b509486378c32b21c1f3725fa0ab0603cf5093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 02/58] fix: Sum.eval includes the constant offset, as
 Sum.__call__ does

---
 maxlike/func/func_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 57afed9..f95a620 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -217,7 +217,7 @@ class Sum(Func):
                 grad[i] += w * atom_grad[i]
                 for j in range(i + 1):
                     hess[i][j] += w * atom_hess[i][j]
-        return val, grad, hess
+        return val + self.b, grad, hess
 
 
 class Product(Func):
-- 
2.43.0


From e71d835d8d4d0fbe9f34703d9a75493bdd41e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 03/58] fix: FuncWrap supports parameter maps in any order

---
 maxlike/func/func_op.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index f95a620..d31b14e 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -78,12 +78,15 @@ class FuncWrap(Func):
 
     def hess(self, params, i, j):
         try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
+            idx = self.param_map.index(i)
+            jdx = self.param_map.index(j)
         except ValueError:
             return Tensor(0)
+        args = self.param_map(params)
+        # only the lower triangle of the hessian is available
+        if idx < jdx:
+            return self._expand(self.foo.hess(args, jdx, idx).transpose())
+        return self._expand(self.foo.hess(args, idx, jdx))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
@@ -97,9 +100,13 @@ class FuncWrap(Func):
                 hess_line = []
                 for j in range(i):
                     jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
+                    if jdx is None:
+                        hess_line.append(Tensor(0))
+                    elif idx < jdx:
+                        hess_line.append(self._expand(
+                            foo_hess[jdx][idx].transpose()))
+                    else:
+                        hess_line.append(self._expand(foo_hess[idx][jdx]))
                 hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
                 hess.append(hess_line)
             except ValueError:
-- 
2.43.0


From e168f45e2fbf6474dfa71cfc3d2e5625e02efc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 04/58] fix: FuncWrap adds the contributions of a parameter
 mapped more than once

---
 maxlike/func/func_op.py | 78 ++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index d31b14e..3fdce4b 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -49,13 +49,10 @@ class FuncWrap(Func):
                 foo_val, foo_grad, foo_hess = foo.eval(obj.param_map(params))
                 val = obj._expand(foo_val)
                 n = len(params)
-                grad = []
+                grad = [Tensor(0)] * n
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
-                for i in range(n):
-                    try:
-                        grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
-                        grad.append(Tensor(0))
+                for k, i in enumerate(obj.param_map):
+                    grad[i] = grad[i] + obj._expand(foo_grad[k])
                 return val, grad, hess
 
             self.hess = null_method(self)
@@ -68,52 +65,45 @@ class FuncWrap(Func):
     def __call__(self, params):
         return self._expand(self.foo(self.param_map(params)))
 
+    def _positions(self, i):
+        # positions where foo receives the i-th parameter
+        return [k for k, idx in enumerate(self.param_map) if idx == i]
+
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
-            return Tensor(0)
+        args = self.param_map(params)
+        return sum((self._expand(self.foo.grad(args, k))
+                    for k in self._positions(i)), Tensor(0))
 
     def hess(self, params, i, j):
-        try:
-            idx = self.param_map.index(i)
-            jdx = self.param_map.index(j)
-        except ValueError:
-            return Tensor(0)
         args = self.param_map(params)
-        # only the lower triangle of the hessian is available
-        if idx < jdx:
-            return self._expand(self.foo.hess(args, jdx, idx).transpose())
-        return self._expand(self.foo.hess(args, idx, jdx))
+        res = Tensor(0)
+        for k in self._positions(i):
+            for l in self._positions(j):
+                # only the lower triangle of the hessian is available
+                if k < l:
+                    h = self.foo.hess(args, l, k).transpose()
+                else:
+                    h = self.foo.hess(args, k, l)
+                res = res + self._expand(h)
+        return res
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
         val = self._expand(foo_val)
-        grad, hess = [], []
-        idx_list = []
-        for i in range(len(params)):
-            try:
-                idx = self.param_map.index(i)
-                grad.append(self._expand(foo_grad[idx]))
-                hess_line = []
-                for j in range(i):
-                    jdx = idx_list[j]
-                    if jdx is None:
-                        hess_line.append(Tensor(0))
-                    elif idx < jdx:
-                        hess_line.append(self._expand(
-                            foo_hess[jdx][idx].transpose()))
-                    else:
-                        hess_line.append(self._expand(foo_hess[idx][jdx]))
-                hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
-                hess.append(hess_line)
-            except ValueError:
-                idx = None
-                grad.append(Tensor(0))
-                hess.append([Tensor(0)] * (i + 1))
-            idx_list.append(idx)
+        n = len(params)
+        grad = [Tensor(0)] * n
+        hess = [[Tensor(0)] * (i + 1) for i in range(n)]
+        for k, i in enumerate(self.param_map):
+            grad[i] = grad[i] + self._expand(foo_grad[k])
+            for l, j in enumerate(self.param_map):
+                if i < j:
+                    continue
+                # only the lower triangle of the hessian is available
+                if k < l:
+                    h = foo_hess[l][k].transpose()
+                else:
+                    h = foo_hess[k][l]
+                hess[i][j] = hess[i][j] + self._expand(h)
         return val, grad, hess
 
 
-- 
2.43.0


From 08ba6b194dfc27751c88692cd037fade88d3a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 05/58] fix: contractions with a null tensor give a null tensor

---
 maxlike/tensor/tensor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..0a3970b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -662,7 +662,7 @@ class Tensor(BaseTensor):
             return self.transpose().dot_left(other)
 
         if (other.values.ndim == 0) and (other.values == 0):
-            return 0
+            return Tensor(0)
 
         raise ValueError
 
@@ -678,6 +678,10 @@ class Tensor(BaseTensor):
         - N Y M E
           *
         """
+        if isinstance(other, Tensor):
+            if other.values.ndim == 0 and other.values == 0:
+                return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         if (self.x_dim != other.n) & (self.y_dim == other.n):
@@ -723,11 +727,9 @@ class Tensor(BaseTensor):
             *
         """
 
-        try:
+        if isinstance(other, Tensor):
             if other.values.ndim == 0 and other.values == 0:
-                return 0
-        except:
-            pass
+                return Tensor(0)
 
         dim = max(self.dim, other.dim)
 
-- 
2.43.0


From 34097766f5551269455a11ff2bb4c54575ca6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 06/58] fix: sum of a GenericTensor whose elements lack some of
 the spaces

---
 maxlike/tensor/tensor.py | 54 ++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 0a3970b..36acfc7 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -232,13 +232,13 @@ class GenericTensor(BaseTensor):
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-        if not sum_val and not sum_dim:
+        if sum_val is False and not sum_dim:
             return self
 
         if sum_val is False:
             idx = []
         elif sum_val is True:
-            idx = np.arange(self.n).tolist()
+            idx = list(range(self.n))
         else:
             if isinstance(sum_val, int):
                 idx = [sum_val]
@@ -250,36 +250,31 @@ class GenericTensor(BaseTensor):
             if len(idx) == self.n:
                 sum_val = True
 
+        n = self.n - len(idx)
+        dim = 0 if sum_dim is True else self.dim
         if sum_dim is True:
-            idx += (self.n + np.arange(self.dim)).tolist()
+            idx += list(range(self.n, self.n + self.dim))
 
-        shape_n = np.ones(len(idx), dtype=np.int)
-        el_sizes = np.empty(len(self.elements), dtype=np.int)
-        for k, el in enumerate(self.elements):
-            p = el.x_dim + el.y_dim
-            shape = np.array(el.values.shape)[(p + np.array(idx)).tolist()]
-            shape_n = np.maximum(shape_n, shape)
-            el_sizes[k] = np.array(shape).prod()
+        # elements that don't depend on some of the spaces need to be reshaped
+        elements = [
+            el.reshape(self.x_dim, self.y_dim, self.n, self.dim)
+            for el in self.elements]
 
-        size = shape_n.prod()
+        p = self.x_dim + self.y_dim
+        el_shapes = np.ones((len(elements), len(idx)), dtype=int)
+        for k, el in enumerate(elements):
+            el_shapes[k] = [el.values.shape[p + i] for i in idx]
+        sizes = (el_shapes.max(0, initial=1) / el_shapes).prod(1)
+
+        elements = [el.sum(sum_val, sum_dim) * size
+                    for el, size in zip(elements, sizes)]
 
         if sum_val is True:
-            values = 0
-            for el, el_size in zip(self.elements, el_sizes):
-                idx = []
-                idx += [None] * (self.x_dim - el.x_dim) + [slice(None)] * el.x_dim
-                idx += [None] * (self.y_dim - el.y_dim) + [slice(None)] * el.y_dim
-                idx += [...]
-                values = values + el.sum(sum_val, sum_dim).\
-                    values[tuple(idx)] * (size / el_size)
-
-            dim = 0 if sum_dim is True else self.dim
+            values = sum(el.values for el in elements)
             return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
 
         # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
-                        for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+        return GenericTensor(self.x_dim, self.y_dim, n, dim, elements)
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
@@ -371,6 +366,8 @@ class GenericTensor(BaseTensor):
 
         # Tensor
         if isinstance(other, (int, float, np.ndarray, Tensor)):
+            if not isinstance(other, Tensor):
+                other = Tensor(other)
             new_elements = list(self.elements)
             if op_type in [TensorOp.ADD, TensorOp.SUB]:
                 for k, el in enumerate(new_elements):
@@ -614,6 +611,15 @@ class Tensor(BaseTensor):
             x_map=self.x_map,
             y_map=self.y_map)
 
+    def reshape(self, x_dim, y_dim, n, dim):
+        """
+        Adds singleton axis for the empty spaces
+        """
+        return Tensor(
+            self.values[self.__reshape_idx(x_dim, y_dim, n, dim)],
+            x_dim=x_dim, y_dim=y_dim, dim=dim,
+            x_map=self.x_map, y_map=self.y_map)
+
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-- 
2.43.0


From 30f6e460c75d6d8a4d1eafaa6bda17c5da531ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 07/58] fix: contractions of a null tensor give a null tensor

---
 maxlike/tensor/tensor.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 36acfc7..f6561aa 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -218,6 +218,9 @@ class GenericTensor(BaseTensor):
 
     __slots__ = ['elements']
 
+    def _isnull(self):
+        return False
+
     def __init__(self, x_dim=0, y_dim=0, n=0, dim=0, elements=None):
         super(GenericTensor, self).__init__(x_dim, y_dim, n, dim)
         # all of the elements need to have the same shape
@@ -633,6 +636,9 @@ class Tensor(BaseTensor):
             self.values, x_dim=self.x_dim, y_dim=self.y_dim, dim=0,
             x_map=self.x_map, y_map=self.y_map)
 
+    def _isnull(self):
+        return self.values.ndim == 0 and self.values == 0
+
     def dot(self, other):
 
         if self.values.ndim == 0:
@@ -684,9 +690,8 @@ class Tensor(BaseTensor):
         - N Y M E
           *
         """
-        if isinstance(other, Tensor):
-            if other.values.ndim == 0 and other.values == 0:
-                return Tensor(0)
+        if self._isnull() or other._isnull():
+            return Tensor(0)
 
         dim = max(self.dim, other.dim)
 
@@ -733,9 +738,8 @@ class Tensor(BaseTensor):
             *
         """
 
-        if isinstance(other, Tensor):
-            if other.values.ndim == 0 and other.values == 0:
-                return Tensor(0)
+        if self._isnull() or other._isnull():
+            return Tensor(0)
 
         dim = max(self.dim, other.dim)
 
-- 
2.43.0


From b19aa6ac3f17be825141062ccb2e957715ba8299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 08/58] fix: arithmetic with a scalar Tensor as left operand is
 the dense one

---
 maxlike/tensor/tensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index f6561aa..9718b79 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -846,6 +846,14 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if self.values == 0:
+                if op_type in [TensorOp.MUL, TensorOp.DIV]:
+                    return Tensor(0)
+            elif op_type in [TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB]:
+                return Tensor(
+                    op_type.value(self.values, other.toarray()),
+                    other.x_dim, other.y_dim, other.dim)
+
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From c18cbe6e3f529d5fa183e4b0ed8a402679ca73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 09/58] fix: transpose of tensors with multi-axis x or y spaces

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 9718b79..a8a421b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -626,8 +626,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(0, self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From 75a89db5638e835260358da255a5d7d77b449f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 10/58] fix: partial sums of a Tensor keep its outcome axes and
 mappings

---
 maxlike/tensor/tensor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index a8a421b..da959d9 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -488,7 +488,8 @@ class Tensor(BaseTensor):
         if sum_val is False:
             if sum_dim is True:
                 val = val.sum(tuple(p + self.n + np.arange(self.dim)))
-            return Tensor(val, self.x_dim, self.y_dim, 0,
+            dim = 0 if sum_dim is True else self.dim
+            return Tensor(val, self.x_dim, self.y_dim, dim,
                           self.x_map, self.y_map)
 
         if sum_val is True:
@@ -531,7 +532,16 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        # mappings to the axis that were not collapsed
+        x_map, y_map = (array('b', [
+            -1 if f < 0 or f in sum_val else
+            f - sum(1 for i in sum_val if i < f)
+            for f in mapping]) for mapping in (self.x_map, self.y_map))
+
+        return Tensor(
+            val, self.x_dim, self.y_dim, dim,
+            x_map if max(x_map, default=-1) >= 0 else None,
+            y_map if max(y_map, default=-1) >= 0 else None)
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From 61521102f7e7dff94c48c56a205a5f09512cc869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 11/58] fix: a scalar value of a term keeps the feature axes of
 the model

---
 maxlike/func/func_op.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3fdce4b..aa576ab 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -47,7 +47,7 @@ class FuncWrap(Func):
         if isnull(foo.hess):
             def eval(obj, params):
                 foo_val, foo_grad, foo_hess = foo.eval(obj.param_map(params))
-                val = obj._expand(foo_val)
+                val = obj._expand_val(foo_val)
                 n = len(params)
                 grad = [Tensor(0)] * n
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
@@ -62,8 +62,15 @@ class FuncWrap(Func):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
                  expand(self.dim_map, self.n_dim, dim=True)
 
+    def _expand_val(self, x):
+        # unlike the null derivatives, a null value keeps its spaces
+        if x.values.ndim == 0:
+            return Tensor(x.values.reshape((1,) * (
+                (self.n_feat or 0) + self.n_dim)), dim=self.n_dim)
+        return self._expand(x)
+
     def __call__(self, params):
-        return self._expand(self.foo(self.param_map(params)))
+        return self._expand_val(self.foo(self.param_map(params)))
 
     def _positions(self, i):
         # positions where foo receives the i-th parameter
@@ -89,7 +96,7 @@ class FuncWrap(Func):
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
-        val = self._expand(foo_val)
+        val = self._expand_val(foo_val)
         n = len(params)
         grad = [Tensor(0)] * n
         hess = [[Tensor(0)] * (i + 1) for i in range(n)]
-- 
2.43.0


From 14e060cc712b9f7f58d10658e6a9069a7b6cde04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 12/58] fix: mixed derivative of MarkovMatrix with a non
 symmetric skew

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..8a074cf 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -137,7 +137,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From e20c7af2189bc7a9aa0fe50b4947f9c62b146c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 13/58] fix: CollapseMatrix uses the given conditions

---
 maxlike/func/matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 8a074cf..40d3379 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -14,11 +14,14 @@ class CollapseMatrix(Func):
         sgn(A*x + B*y + C) == s
         """
         if conditions is None:
-            self.conditions = [
+            conditions = [
                 (1, -1, 0, 1),
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        elif np.ndim(conditions) == 1:
+            conditions = [conditions]
+        self.conditions = conditions
 
     def __call__(self, params):
         """
-- 
2.43.0


From 3f50998594d7ea13c8c18c34725f4f99d119bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 14/58] fix: CollapseMatrix gradient with three or more
 features

---
 maxlike/func/matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 40d3379..cf4f0ec 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -50,8 +50,7 @@ class CollapseMatrix(Func):
             val.append(ones * filt)
         x_dim = ones.ndim
         val = np.stack(val, -1)
-        val = val.swapaxes(0, x_dim - 2)
-        val = val.swapaxes(1, x_dim - 1)
+        val = np.moveaxis(val, (x_dim - 2, x_dim - 1), (0, 1))
         x_map = array('b', range(x_dim - 2))
         x_map.append(-1)
         x_map.append(-1)
-- 
2.43.0


From a0b4594944e370f013a18a57974a0b8816419555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 15/58] fix: contractions of a GenericTensor with a null tensor
 give a null tensor

---
 maxlike/tensor/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index da959d9..073bdd8 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -318,6 +318,8 @@ class GenericTensor(BaseTensor):
 
     def dot_left(self, other):
         if isinstance(other, Tensor):
+            if other._isnull():
+                return Tensor(0)
             gt = GenericTensor()
             for el in self.elements:
                 gt = gt + el.dot_left(other)
@@ -333,6 +335,8 @@ class GenericTensor(BaseTensor):
 
     def dot_right(self, other):
         if isinstance(other, Tensor):
+            if other._isnull():
+                return Tensor(0)
             gt = GenericTensor()
             for el in self.elements:
                 gt = gt + el.dot_right(other)
-- 
2.43.0


From 0af9d206de35a8840eabae42fb0daeccd0d69a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 16/58] fix: Collapse of derivatives that don't span every axis
 of the value

---
 maxlike/func/func_op.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index aa576ab..b5383fd 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,3 +1,4 @@
+import numpy as np
 from ..tensor import Tensor
 from .func_base import Func, Affine, null_method, isnull
 from six.moves import reduce
@@ -121,27 +122,29 @@ class Collapse(Func):
         self.sum_val = sum_val
         self.sum_dim = sum_dim
 
+    def _sum(self, x, val):
+        # the derivatives can be constant along some of the axis of the value
+        if x._isnull():
+            return Tensor(0)
+        ones = Tensor(np.ones(val.values.shape), dim=val.dim)
+        return (x * ones).sum(self.sum_val, self.sum_dim)
+
     def __call__(self, params):
         return self.foo(params).\
             sum(sum_val=self.sum_val,
                 sum_dim=self.sum_dim)
 
     def grad(self, params, i):
-        return self.foo.grad(params, i).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo.grad(params, i), self.foo(params))
 
     def hess(self, params, i, j):
-        return self.foo.hess(params, i, j).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo.hess(params, i, j), self.foo(params))
 
     def eval(self, params):
         val, grad, hess = self.foo.eval(params)
         return val.sum(self.sum_val, self.sum_dim), \
-               [d.sum(self.sum_val, self.sum_dim) for d in grad], \
-               [[h.sum(self.sum_val, self.sum_dim)
-                 for h in h_line] for h_line in hess]
+               [self._sum(d, val) for d in grad], \
+               [[self._sum(h, val) for h in h_line] for h_line in hess]
 
 
 class Sum(Func):
-- 
2.43.0


From 01964d55dfffa1025b7f30ea88a8f4c95c77b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 17/58] fix: derivatives of X, Logistic and ArcTan keep the
 outcome axes

---
 maxlike/func/func.py    |  3 ++-
 maxlike/func/sigmoid.py | 17 +++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..56a9205 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -57,7 +57,8 @@ class X(Func):
         return Tensor(params[0])
 
     def grad(self, params, i):
-        return grad_tensor(np.ones_like(params[0]), params, i, True)
+        return grad_tensor(np.ones_like(params[0]), params, i, True,
+                           dim=getattr(params[0], 'dim', 0))
 
     hess = null_func
 
diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index c295680..cbe9123 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -20,19 +20,22 @@ class Logistic(Func):
 
     def grad(self, params, i):
         f = expit(params[0])
-        return grad_tensor(f * (1 - f), params, i, True)
+        return grad_tensor(f * (1 - f), params, i, True,
+                           dim=getattr(f, 'dim', 0))
 
     def hess(self, params, i, j):
         f = expit(params[0])
         return hess_tensor(f * (1 - f) * (1 - 2 * f),
-                           params, i, j, True, True)
+                           params, i, j, True, True,
+                           dim=getattr(f, 'dim', 0))
 
     def eval(self, params):
         f = expit(params[0])
+        dim = getattr(f, 'dim', 0)
         return Tensor(f), \
-               [grad_tensor(f * (1 - f), params, 0, True)], \
+               [grad_tensor(f * (1 - f), params, 0, True, dim=dim)], \
                [[hess_tensor(f * (1 - f) * (1 - 2 * f),
-                             params, 0, 0, True, True)]]
+                             params, 0, 0, True, True, dim=dim)]]
 
 
 class ArcTan(Func):
@@ -43,9 +46,11 @@ class ArcTan(Func):
 
     def grad(self, params, i):
         x = params[0]
-        return grad_tensor(1 / (1 + x * x), params, i, True)
+        return grad_tensor(1 / (1 + x * x), params, i, True,
+                           dim=getattr(x, 'dim', 0))
 
     def hess(self, params, i, j):
         x = params[0]
         return hess_tensor(-2 * x / (1 + x * x) ** 2,
-                           params, i, j, True, True)
+                           params, i, j, True, True,
+                           dim=getattr(x, 'dim', 0))
-- 
2.43.0


From 26dc2aede65bb7cdbd04d5afc322cf3f5f9c61ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 18/58] fix: std_error of a model without constraints

---
 maxlike/maxlike_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..97b7088 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -310,12 +310,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
-        if cut == 0:
-            cut = None
+        cut = len(self.flat_hess_) - len(self.constraint)
         return [p.as_masked() for p in
             self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self.flat_hess_))[:cut]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From 833561d8fae6294f5a05384d77565bb39de19a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 19/58] fix: verbose Broyden fit prints the value of the
 objective

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 97b7088..6713686 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -534,7 +534,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From 9554f3b2b9c8550081a4bcd49778f17420faa321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 20/58] fix: the root finders raise their errors, instead of
 returning them or a TypeError

---
 maxlike/skellam.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..1c200ec 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,8 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError(
+                "Error: no root found after %d steps" % max_steps)
     return a
 
 
@@ -156,7 +157,8 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no root found after %d steps" % max_steps)
     return a, b
 
 
@@ -204,5 +206,6 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no root found after %d steps" % max_steps)
     return a
-- 
2.43.0


From a70b09ac4b2c3b6dd8880affcfe19e5c51418032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 21/58] fix: conditional_skellam_cdf_root stops after max_steps

---
 maxlike/skellam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 1c200ec..acc6a15 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -205,6 +205,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
             raise ConvergenceError(
                 "Error: no root found after %d steps" % max_steps)
-- 
2.43.0


From fb424c55dcb9732a90778e432f94406eec5c9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 22/58] fix: parameters given as integers or lists, with lists
 or a boolean as mask

---
 maxlike/maxlike_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 6713686..2514313 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -18,13 +18,17 @@ class Param(object):
 
     def __init__(self, values, mask=None):
         
+        values = np.array(values, dtype=float)
         if mask is None or mask is False:
-            mask = np.zeros_like(values, dtype=np.bool)
+            mask = np.zeros(values.shape, dtype=bool)
+        elif mask is True:
+            mask = np.ones(values.shape, dtype=bool)
         else:
+            mask = np.array(mask, dtype=bool)
             assert mask.shape == values.shape
 
-        object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.asarray(mask))
+        object.__setattr__(self, 'values', values)
+        object.__setattr__(self, 'mask',   mask)
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
-- 
2.43.0


From 26956a3bb8af6ce82dfe4d6662796a35a01d1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 23/58] fix: gradient of Linear has the shape of the parameter,
 so it can be used as regularization

---
 maxlike/func/func.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 56a9205..e77d999 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -17,13 +17,10 @@ class Linear(Func):
                     for w, p in zip(params, self.weights)))
 
     def grad(self, params, i):
-        return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True)
+        return grad_tensor(self.weights[i] * np.ones_like(params[i]),
+                           params, i, True).sum()
 
-    def hess(self, params, i, j):
-        return hess_tensor(np.zeros((1, ) *
-            (np.asarray(params[j]).ndim + np.asarray(params[i]).ndim)),
-            params, i, j, True, True)
+    hess = null_func
 
 
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
-- 
2.43.0


From f1da32c5fe4ebb3189de4a1f779cc92c8bd2b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 24/58] fix: flat gradient and Hessian with null blocks

---
 maxlike/maxlike_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 2514313..17d5787 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -339,7 +339,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 grad[idx] -= grad_h[i]
 
-        grad = [d.values[~p.mask] for d, p in zip(grad, params)] + grad[n:]
+        # derivatives may be null or constant along some axis of the parameter
+        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
+                for d, p in zip(grad, params)] + grad[n:]
         grad = np.concatenate(grad)
 
         return grad
@@ -390,7 +392,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         #
         # then hess[i][j].shape = shape[j] x shape[i]
 
-        hess = [[hess[i][j].values[
+        hess = [[np.broadcast_to(
+                     hess[i][j].values, p_i.shape + params[j].shape)[
                      np.multiply.outer(~p_i.mask, ~params[j].mask)].
                      reshape((p_i.count(), params[j].count()))
                  for j in range(i + 1)]
-- 
2.43.0


From 22ac104e5e69d6ce991ee8e6316e08538df07a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 25/58] fix: Hessian of constraints and regularizations with a
 param_map in any order

---
 maxlike/maxlike_base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 17d5787..635a5ec 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -362,6 +362,13 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         # --------------------------------------------------------------------
         # 2nd phase: Add constraints / regularization to grad and hess
         # --------------------------------------------------------------------
+        # only the lower blocks are kept, whatever the order of the param_map
+        def add_block(i, j, diag, block):
+            if i >= j:
+                hess[i][j] += block
+            if i <= j and not diag:
+                hess[j][i] += block.transpose()
+
         for k, (param_map, gamma, g) in enumerate(self.constraint):
             args = [params[k] for k in param_map]
             grad_g = g.grad(args)
@@ -369,14 +376,15 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                    add_block(idx, param_map[j], i == j,
+                              gamma * hess_g[i][j])
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
             hess_h = h.hess(args)
             for i, idx in enumerate(param_map):
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+                    add_block(idx, param_map[j], i == j, -hess_h[i][j])
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From 2b76478b40461f9d4b0edb536638afcf6825e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 26/58] fix: derivatives of the Finite likelihood with terms
 that don't depend on the outcome

---
 maxlike/maxlike.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 3e79b2d..1020dad 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -1,5 +1,6 @@
 import numpy as np
 from .maxlike_base import MaxLike
+from .tensor import Tensor
 from scipy.special import gammaln
 
 
@@ -133,20 +134,24 @@ class Finite(MaxLike):
         """
         grad = []
         z = y.sum(False)
+        # the derivatives may be constant along the outcomes
+        ones = Tensor(np.ones(y.values.shape), dim=y.dim)
         for d in der:
-            dz = d.sum(False)
+            dz = (d * ones).sum(False)
             grad.append((self.N * (d / y - dz / z)).sum())
         return grad
 
     def hess_like(self, params, y, der, hess):
         H = []
         z = y.sum(False)
-        dz = [d.sum(False) for d in der]
+        # the derivatives may be constant along the outcomes
+        ones = Tensor(np.ones(y.values.shape), dim=y.dim)
+        dz = [(d * ones).sum(False) for d in der]
         for i in range(len(params)):
             hess_line = []
             for j in range(i + 1):
                 h = hess[i][j]
-                hz = h.sum(False)
+                hz = (h * ones).sum(False)
                 H1 = (h - der[i] * der[j].transpose() / y) / y
                 H2 = (hz - dz[i] * dz[j].transpose() / z) / z
                 hess_line.append((self.N * (H1 - H2)).sum())
-- 
2.43.0


From 80242a96731fe78ddfc449e7753671af4c601024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 27/58] fix: division of a Func by a scalar

---
 maxlike/func/func_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..67e11ad 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -193,9 +193,11 @@ class Func(with_metaclass(FuncMeta, object)):
     def __rmul__(self, a):
         return Affine(self, a, 0)
 
-    def __div__(self, a):
+    def __truediv__(self, a):
         return Affine(self, 1.0 / a, 0)
 
+    __div__ = __truediv__
+
     def __matmul__(self, other):
         return Compose(self, other)
 
-- 
2.43.0


From 4563e24d6300a0d355c9dabf58e9ecbef6d14fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 28/58] fix: copulas of integer marginals

---
 maxlike/func/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index cb67977..752b048 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -34,8 +34,8 @@ def copulaWrap(C):
     def wrap(obj, params, *args, **kwargs):
         x = np.asarray(params[0]).cumsum(-1)
         y = np.asarray(params[1]).cumsum(-1)
-        x /= x[..., -1][..., None]
-        y /= y[..., -1][..., None]
+        x = x / x[..., -1][..., None]
+        y = y / y[..., -1][..., None]
         # exclude last element
         F_xy = C(obj, x[..., None], y[..., None, :], *args, **kwargs)
         F_xy = np.insert(F_xy, 0, 0, -1)
-- 
2.43.0


From bb970a998d8b5e14614b1b6adb804f8d6c6438af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 29/58] fix: a failed Broyden fit keeps the Hessian of the last
 successful one

---
 maxlike/maxlike_base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 635a5ec..27a1337 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -529,12 +529,14 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-                if not (self.converged and
-                        hasattr(self, 'flat_hess_') and
-                        self.flat_hess_.shape[0] == grad.shape[0]):
-                    self.flat_hess_ = self.flat_hess(params, y, der, hess).data
+                if self.converged and \
+                        hasattr(self, 'flat_hess_') and \
+                        self.flat_hess_.shape[0] == grad.shape[0]:
+                    flat_hess = self.flat_hess_
+                else:
+                    flat_hess = self.flat_hess(params, y, der, hess)
 
-                J = pinvh(self.flat_hess_)
+                J = pinvh(flat_hess)
                 
                 c_len = len(self.constraint)
                 i1 = (-(c_len + 1) % grad.shape[0]) + 1
-- 
2.43.0


From a97bd1e320f37f3e4ab596d8749faa8ccebb10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 30/58] fix: Newton fit starting at the optimum doesn't fail
 because of rounding errors

---
 maxlike/maxlike_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 27a1337..99b40e5 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -500,7 +500,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     new_flat_params = flat_params - mult * step
                     params = self._reshape_params(new_flat_params)
                     g = self.g(params, self.model(params))
-                    if g >= prev_g:
+                    # at the optimum g may decrease by a rounding error
+                    if g >= prev_g - 1e-12 * abs(prev_g):
                         flat_params = new_flat_params
                         break
                     else:
-- 
2.43.0


From f78a48531d568beebc55fd04fad7bcb548572901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 31/58] fix: Log, ArcTan, Set and the Markov functions applied
 directly to a parameter

---
 maxlike/func/func.py    |  2 +-
 maxlike/func/matrix.py  | 16 ++++++++--------
 maxlike/func/sigmoid.py | 12 ++++++------
 maxlike/func/tennis.py  |  6 +++---
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index e77d999..b5299ec 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -123,7 +123,7 @@ class Log(Func):
         return Tensor(np.log(params[0]))
 
     def grad(self, params, i):
-        f = Tensor(1 / params[0])
+        f = 1 / Tensor(params[0])
         return grad_tensor(f, params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index cf4f0ec..5da8b28 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -68,8 +68,8 @@ class MarkovMatrix(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -101,8 +101,8 @@ class MarkovMatrix(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -182,8 +182,8 @@ class MarkovVector(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -212,8 +212,8 @@ class MarkovVector(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index cbe9123..0cbd0b5 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -41,16 +41,16 @@ class Logistic(Func):
 class ArcTan(Func):
 
     def __call__(self, params):
-        x = params[0]
-        return Tensor(np.arctan(x))
+        x = Tensor(params[0])
+        return np.arctan(x)
 
     def grad(self, params, i):
-        x = params[0]
+        x = Tensor(params[0])
         return grad_tensor(1 / (1 + x * x), params, i, True,
-                           dim=getattr(x, 'dim', 0))
+                           dim=x.dim)
 
     def hess(self, params, i, j):
-        x = params[0]
+        x = Tensor(params[0])
         return hess_tensor(-2 * x / (1 + x * x) ** 2,
                            params, i, j, True, True,
-                           dim=getattr(x, 'dim', 0))
+                           dim=x.dim)
diff --git a/maxlike/func/tennis.py b/maxlike/func/tennis.py
index b7175ad..a0e9cc9 100644
--- a/maxlike/func/tennis.py
+++ b/maxlike/func/tennis.py
@@ -103,7 +103,7 @@ class Set(Func):
     """
 
     def __call__(self, params):
-        p, t = params
+        p, t = map(np.asarray, params)
         p = np.minimum(p, 1 - 1e-10)
         p = np.maximum(p, 1e-10)
         q = 1 - p
@@ -118,7 +118,7 @@ class Set(Func):
         return Tensor(np.stack(s).swapaxes(0, -1), dim=1)
     
     def grad(self, params, i):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         d = []
@@ -141,7 +141,7 @@ class Set(Func):
                            params, i, True, dim=1)
     
     def hess(self, params, i, j):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         h = []
-- 
2.43.0


From a73b4e8f81592cfb94fd75aa9b113173bf23cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 32/58] fix: contraction of an unmapped gradient with a mapped
 Hessian

---
 maxlike/tensor/tensor.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 073bdd8..44d2e2a 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -81,23 +81,6 @@ def arr_expand_cross_diag(arr, p, map1, map2):
     return arr
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
-        else:
-            arr = arr.swapaxes(p + k, p + f)
-    return arr
-
-
 class TensorOp(Enum):
     ID = partial(lambda x: x)
     RSUB = partial(lambda x, y: np.subtract(y, x))
@@ -775,15 +758,17 @@ class Tensor(BaseTensor):
 
         val = self.values
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
-        val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
+        if self.x_map:
+            other_val = other.values
+            x_map = compose_mappings(self.x_map, other.x_map)
+            y_map = compose_mappings(self.x_map, other.y_map)
+        else:
+            # the axis that 'other' is mapped to will be summed
+            other_val = other.toarray()
+            x_map = array('b')
+            y_map = array('b')
+        val = other_val[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
-        if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
-                                     other.x_map, other.y_map)
-
-        x_map = compose_mappings(self.x_map, other.x_map)
-        y_map = compose_mappings(self.x_map, other.y_map)
         val = val.sum(tuple(p + np.arange(other.n)))
         return Tensor(val,
                       x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
-- 
2.43.0


From 4a53f10f7788cfd939f6157616d3db9a7e5aaf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 33/58] fix: flip of a null derivative

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 44d2e2a..493563f 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -578,7 +578,7 @@ class Tensor(BaseTensor):
                 y_map=y_map)
 
     def flip(self, where, dim=False):
-        if where is None or where == []:
+        if where is None or where == [] or self._isnull():
             return self
 
         if isinstance(where, int):
-- 
2.43.0


From 6415f7384381a6260586e6c3c66fbd2bb0272238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 34/58] fix: dense form of a GenericTensor whose elements lack
 some of the spaces

---
 maxlike/tensor/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 493563f..bd291fe 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -213,8 +213,10 @@ class GenericTensor(BaseTensor):
         object.__setattr__(self, 'elements', tuple(elements))
 
     def toarray(self):
-        return sum([el.toarray() if isinstance(el, Tensor) else el
-                    for el in self.elements])
+        # elements that don't depend on some of the spaces need to be reshaped
+        return sum([
+            el.reshape(self.x_dim, self.y_dim, self.n, self.dim).toarray()
+            for el in self.elements])
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-- 
2.43.0


From 543ecdc7bcd1be546afe16de8f71084d4e668984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 35/58] fix: element-wise product of tensors with different
 mappings

---
 maxlike/tensor/tensor.py | 70 +++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index bd291fe..91fbbee 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -47,9 +47,14 @@ def arr_take_diag(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f < 0:
             continue
-        arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
+        if 1 in (arr.shape[q + k], arr.shape[p + f]):
+            # broadcasted along at least one of the axis
+            if arr.shape[p + f] == 1:
+                arr = arr.swapaxes(q + k, p + f)
+            continue
+        arr = np.diagonal(arr, 0, q + k, p + f)
+        arr = np.moveaxis(arr, -1, p + f - 1)
+        arr = np.expand_dims(arr, q + k)
     return arr
 
 
@@ -70,17 +75,37 @@ def arr_expand_diag(arr, q, p, mapping):
 def arr_expand_cross_diag(arr, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for i, j in zip(map1, map2):
-        if i == j:
+        if i == j or i < 0 or j < 0:
             continue
         n = arr.shape[p + i]
         idx[p + i] = n
         idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
+        arr = arr * np.eye(n).reshape(idx)
         idx[p + i] = 1
         idx[p + j] = 1
     return arr
 
 
+def arr_match_mappings(arr1, arr2, q, p, dim, map1, map2):
+    """
+    Arrays and mapping of the factors of an element-wise product, from
+    the ones of its operands
+    """
+    if not map1 and not map2:
+        return arr1, arr2, array('b')
+    map1 = map1 or array('b', [-1] * dim)
+    map2 = map2 or array('b', [-1] * dim)
+    # an axis mapped in only one of the operands
+    arr1 = arr_take_diag(arr1, q, p, [
+        j if i < 0 else -1 for i, j in zip(map1, map2)])
+    arr2 = arr_take_diag(arr2, q, p, [
+        i if j < 0 else -1 for i, j in zip(map1, map2)])
+    # an axis with different mappings
+    arr1 = arr_expand_cross_diag(arr1, p, map1, map2)
+    return arr1, arr2, array('b', [
+        j if i < 0 else i for i, j in zip(map1, map2)])
+
+
 class TensorOp(Enum):
     ID = partial(lambda x: x)
     RSUB = partial(lambda x, y: np.subtract(y, x))
@@ -912,34 +937,19 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
+        l_values = l_values[l_idx]
+        r_values = r_values[r_idx]
+        p = x_dim + y_dim
 
-        if self.x_map:
-            x_map = self.x_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.x_map, other.x_map)
-            if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
-        else:
-            x_map = other.x_map
-            if x_map and self.x_dim:
-                l_values = arr_take_diag(l_values, 0, p, other.x_map)
-
-        if self.y_map:
-            y_map = self.y_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.y_map, other.y_map)
-            if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
-        else:
-            y_map = other.y_map
-            if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+        l_values, r_values, x_map = arr_match_mappings(
+            l_values, r_values, 0, p, x_dim,
+            self.x_map, other.x_map)
+        l_values, r_values, y_map = arr_match_mappings(
+            l_values, r_values, x_dim, p, y_dim,
+            self.y_map, other.y_map)
 
         return Tensor(
-            op_type.value(l_values[l_idx], r_values[r_idx]),
+            op_type.value(l_values, r_values),
             x_dim=x_dim, y_dim=y_dim, dim=dim,
             x_map=x_map, y_map=y_map)
 
-- 
2.43.0


From 7d4eef0dccef6b6232d2c7719ee87de05c447f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 36/58] fix: re-layouts of a GenericTensor whose elements lack
 some of the spaces

---
 maxlike/tensor/tensor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 91fbbee..b157790 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -289,17 +289,22 @@ class GenericTensor(BaseTensor):
         # else:
         return GenericTensor(self.x_dim, self.y_dim, n, dim, elements)
 
+    def __full_elements(self):
+        # elements that don't depend on some of the spaces need to be reshaped
+        return [el.reshape(self.x_dim, self.y_dim, self.n, self.dim)
+                for el in self.elements]
+
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
         new_dim = newsize if dim else self.dim
         return GenericTensor(
             self.x_dim, self.y_dim, new_n, new_dim,
-            [el.expand(where, newsize, dim) for el in self.elements])
+            [el.expand(where, newsize, dim) for el in self.__full_elements()])
 
     def flip(self, where, dim=False):
         return GenericTensor(
             self.x_dim, self.y_dim, self.n, self.dim,
-            [el.flip(where, dim) for el in self.elements])
+            [el.flip(where, dim) for el in self.__full_elements()])
 
     def transpose(self):
         return GenericTensor(
@@ -309,7 +314,7 @@ class GenericTensor(BaseTensor):
     def drop_dim(self):
         return GenericTensor(
             self.x_dim, self.y_dim, self.n + self.dim, 0,
-            [el.drop_dim() for el in self.elements])
+            [el.drop_dim() for el in self.__full_elements()])
 
     def dot(self, other):
         if isinstance(other, Tensor):
-- 
2.43.0


From 52f6e02dec10a9cd8afab60d8d07ff15e02b205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 37/58] fix: truncation of the Skellam distribution to the
 requested tolerance

---
 maxlike/skellam.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index acc6a15..b28c598 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,6 +1,7 @@
 import numpy as np
 from math import exp
 from scipy.special import ndtri, factorial
+from scipy.stats import poisson
 from .maxlike_base import ConvergenceError
 
 
@@ -37,9 +38,17 @@ def tol2size(tol=1e-8, *args):
     return int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
 
 
+def truncation_size(tol, *args):
+    """
+    Number of outcomes such that the tail probabilities of the Poisson
+    distributions with the given rates, and their derivatives, are below tol
+    """
+    return int(poisson.isf(max(.1 * tol, 1e-15), max(args))) + 2
+
+
 def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
     # assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = truncation_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     xy = (xy >= n) if inverse else (xy <= n)
@@ -48,7 +57,7 @@ def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
 
 def skellam_cdf_pair(a, b, n=0, tol=1e-8):
     assert isinstance(n, int)
-    size = tol2size(tol, a, b)
+    size = truncation_size(tol, a, b)
     rng = np.arange(size)
     xy = rng[None, :] - rng[:, None]
     s = skellam_frame(a, b, size)
@@ -176,11 +185,11 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
     count = 0
     floor = 1e-6
     max_steps = 50
-    size = tol2size(.5 * tol, b)
+    size = truncation_size(.5 * tol, b)
     Poi_b, dPoi_b = poisson_vector(b, size)
     rng_b = np.arange(size)
     while e > abs(tol):
-        size = tol2size(tol, a, b)
+        size = truncation_size(tol, a, b)
         rng_a = np.arange(size)
         xy = rng_b[None, :] - rng_a[:, None]
         Poi_a, dPoi_a = poisson_vector(a, size)
-- 
2.43.0


From 2a03a1e7997cb1a2e5f7525ae11fb35ea4383330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 38/58] fix: Poisson probabilities of large rates don't
 overflow

---
 maxlike/skellam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index b28c598..40cc3c1 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,14 +1,16 @@
 import numpy as np
 from math import exp
-from scipy.special import ndtri, factorial
+from scipy.special import ndtri, gammaln, xlogy
 from scipy.stats import poisson
 from .maxlike_base import ConvergenceError
 
 
 def poisson_vector(a, size=10):
-    curve = np.vectorize(lambda u: a**u / factorial(u))(np.arange(size))
-    dcurve = np.append(-1, curve[:-1] - curve[1:])
-    return exp(-a) * np.array([curve, dcurve])
+    # the powers of a large rate overflow
+    u = np.arange(size)
+    curve = np.exp(xlogy(u, a) - gammaln(u + 1) - a)
+    dcurve = np.append(-exp(-a), curve[:-1] - curve[1:])
+    return np.array([curve, dcurve])
 
 
 def skellam_frame(a, b, size=10):
-- 
2.43.0


From 18be05d3986a8b31655218ecd55e35f7979a3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 39/58] fix: steps of skellam_cdf_root are limited, instead of
 running out of memory

---
 maxlike/skellam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 40cc3c1..da8161c 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -153,8 +153,10 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
         s, ds = skellam[:, 0], skellam[:, [1, 2]]
         e = np.linalg.norm(target - s)
         step = np.linalg.solve(ds, target - s)
+        # far from the root, the steps (and the frames) can be too large
+        ceil = 2 * (a + b) + 1
         scale_factor = 1
-        new_ab = np.maximum((a, b) + scale_factor * step, floor)
+        new_ab = np.clip((a, b) + scale_factor * step, floor, ceil)
         new_s = s
         new_e = np.linalg.norm(new_s - target)
         for i in range(10):
@@ -163,7 +165,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 break
             else:
                 scale_factor *= .5
-                new_ab = np.maximum((a, b) + scale_factor * step, floor)
+                new_ab = np.clip((a, b) + scale_factor * step, floor, ceil)
                 new_s = skellam_cdf_pair(new_ab[0], new_ab[1], n, tol)[:, 0]
                 new_e = np.linalg.norm(new_s - target)
         count += 1
-- 
2.43.0


From 6bf5b4d4f5ff5e9743ac89705dd0f6a7585ee7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 40/58] fix: Clayton and Gumbel copulas with large parameters

---
 maxlike/func/copula.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index 752b048..458c935 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -103,8 +103,11 @@ class Clayton(Copula):
 
     @no_divwarn
     def __call__(self, x, y):
-        return np.power(
-            np.power(x, -self.a) + np.power(y, -self.a) - 1,
+        # the powers of the smallest value are factored out, to not overflow
+        lo, hi = np.minimum(x, y), np.maximum(x, y)
+        z = np.divide(lo, hi, out=np.zeros_like(lo), where=hi > 0)
+        return lo * np.power(
+            1 + np.power(z, self.a) - np.power(lo, self.a),
             -1 / self.a)
 
 
@@ -127,10 +130,12 @@ class Gumbel(Copula):
 
     @no_divwarn
     def __call__(self, x, y):
-        return np.exp(-np.power(
-            np.power(-np.log(x), self.a) +
-            np.power(-np.log(y), self.a),
-            1 / self.a))
+        # the largest value is factored out, to not overflow or underflow
+        x, y = -np.log(x), -np.log(y)
+        lo, hi = np.minimum(x, y), np.maximum(x, y)
+        z = np.divide(lo, hi, out=np.zeros_like(lo),
+                      where=(hi > 0) & np.isfinite(lo))
+        return np.exp(-hi * np.power(1 + np.power(z, self.a), 1 / self.a))
 
 
 class Frank(Copula):
-- 
2.43.0


From 9a24ba28eec9704af411cb2c6b487e035334be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 41/58] fix: Frank copula with large or tiny parameters

---
 maxlike/func/copula.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index 458c935..d79c9fb 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -148,11 +148,22 @@ class Frank(Copula):
         assert rho != 0
         self.a = rho
 
+    @no_divwarn
     def __call__(self, x, y):
-        return (-1 / self.a) * np.log(1 +
-            (np.exp(-self.a * x) - 1) *
-            (np.exp(-self.a * y) - 1) /
-            (np.exp(-self.a) - 1))
+        a = abs(self.a)
+        if self.a < 0:
+            # C(u, v; -a) = u - C(u, 1 - v; a)
+            y = 1 - y
+        if a < 2:
+            res = np.log1p(np.expm1(-a * x) * np.expm1(-a * y) / np.expm1(-a))
+        else:
+            # sum of positive terms, to not lose the small values
+            res = np.logaddexp(
+                -a * x + np.log(-np.expm1(-a * y)),
+                -a * y + np.log(-np.expm1(-a * (1 - y))))
+            res = res - np.log(-np.expm1(-a))
+        res = -res / a
+        return x - res if self.a < 0 else res
 
 
 class AkiMikhailHaq(Copula):
-- 
2.43.0


From 4c3ffa6b60880b597fa37e9ead9d6972809f0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 42/58] fix: Gaussian copula with a correlation above 0.925

---
 maxlike/func/copula.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index d79c9fb..c06b5bd 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -22,7 +22,7 @@ def vectorize(n_in, n_out):
 @no_divwarn
 @vectorize(3, 1)
 def gauss_bivar(x, y, rho):
-    return mvnun((-999, -999), (x, y), (0, 0), ((1, rho), (rho, 1)))[0]
+    return mvnun((-np.inf, -np.inf), (x, y), (0, 0), ((1, rho), (rho, 1)))[0]
 
 
 def copulaWrap(C):
@@ -81,8 +81,8 @@ class Gaussian(Copula):
 
     def __call__(self, x, y):
         return gauss_bivar(
-            np.clip(ndtri(x), -999, 999),
-            np.clip(ndtri(y), -999, 999),
+            np.clip(ndtri(x), -40, 40),
+            np.clip(ndtri(y), -40, 40),
             self.rho)
 
 
-- 
2.43.0


From 0859114df1f3eb83ddbebc3a115e2d1b022c741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 43/58] fix: all derivatives at once of scaled and composed
 functions with null derivatives

---
 maxlike/func/func_base.py | 15 +++++++++------
 maxlike/func/func_op.py   |  6 +++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 67e11ad..63d4963 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,8 +9,11 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
+def null_grad(obj):
+    return MethodType(vector_wrap(null_func), obj)
+
+def null_hess(obj):
+    return MethodType(matrix_wrap(null_func), obj)
 
 def isnull(foo):
     return getattr(foo, 'null', False)
@@ -210,10 +213,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -257,8 +260,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_grad(self)
+            self.hess = null_hess(self)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index b5383fd..e4d2663 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,6 +1,6 @@
 import numpy as np
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, null_grad, null_hess, isnull
 from six.moves import reduce
 from types import MethodType
 
@@ -43,7 +43,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -56,7 +56,7 @@ class FuncWrap(Func):
                     grad[i] = grad[i] + obj._expand(foo_grad[k])
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
             self.eval = MethodType(eval, self)
 
     def _expand(self, x):
-- 
2.43.0


From 37ff2dd601de21b6e3da5a02cdfb25dd151e04de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 44/58] fix: one-pass evaluation of compositions with a
 parameter outside a list

---
 maxlike/func/func_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 63d4963..11191ee 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -285,7 +285,7 @@ class Compose(Func):
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
-- 
2.43.0


From aa5e9fbf843cca418e0c96084f2e974247bbac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 45/58] fix: one-pass evaluation of re-indexed functions with a
 parameter outside a list

---
 maxlike/func/func_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index e4d2663..9b09931 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,6 +1,6 @@
 import numpy as np
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_grad, null_hess, isnull
+from .func_base import Func, Affine, null_grad, null_hess, eval_wrap, isnull
 from six.moves import reduce
 from types import MethodType
 
@@ -57,7 +57,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_hess(self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From 9ee2913262189f9224187982e7b8a1ada910de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 46/58] fix: contractions with a GenericTensor made of null
 tensors

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index b157790..e3cc907 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -227,7 +227,7 @@ class GenericTensor(BaseTensor):
     __slots__ = ['elements']
 
     def _isnull(self):
-        return False
+        return all(el._isnull() for el in self.elements)
 
     def __init__(self, x_dim=0, y_dim=0, n=0, dim=0, elements=None):
         super(GenericTensor, self).__init__(x_dim, y_dim, n, dim)
-- 
2.43.0


From de65c00ae791d4fe0539fa017a71295afe1ecf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 47/58] fix: the Broyden method follows the multipliers of the
 constraints

---
 maxlike/maxlike_base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 99b40e5..81698af 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -522,6 +522,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         elif method == "broyden":
 
             g = self.g(params)
+            constraint = self.constraint
 
             if verbose > 0:
                 print(0, g)
@@ -548,6 +549,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
                     step = -np.dot(J, grad)
                     flat_params += step[:i1]
+                    self.constraint = [
+                        (param_map, gamma + dgamma, h)
+                        for (param_map, gamma, h), dgamma in
+                        zip(self.constraint, step[i1:])]
                     params = self._reshape_params(flat_params)
                     g = self.g(params)
 
@@ -569,7 +574,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             except Exception as err:
                 self.converged = False
                 raise err
-        
+
+            finally:
+                self.constraint = constraint
+
         else:
             raise ValueError("Invalid Method")
 
-- 
2.43.0


From cf0837e09a4347744b7233e32a90f7ab2dda4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 48/58] fix: masking an entry of a returned parameter does not
 fix it in the estimator

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 81698af..3a08a39 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -40,7 +40,7 @@ class Param(object):
         return (~self.mask).sum()
 
     def as_masked(self):
-        return np.ma.array(self.values, mask=self.mask)
+        return np.ma.array(self.values, mask=self.mask.copy())
 
     def __array__(self, *args, **kwargs):
         return np.asarray(self.values)
-- 
2.43.0


From ed0c6df01ea72aff0ed2c2d26a86f98e6eb5b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 49/58] fix: a Newton fit does not stop at a shortened step,
 where constraints may not hold

---
 maxlike/maxlike_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 3a08a39..27df60f 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -514,7 +514,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         "Error: the objective function did not increase " +
                         "after %d steps" % max_inner_steps, "step")
 
-                if abs(prev_g / g - 1) < tol:
+                # only a full step meets the constraints
+                if mult == 1 and abs(prev_g / g - 1) < tol:
                     self.params = params
                     self.flat_hess_ = hess
                     return True
-- 
2.43.0


From 0045dbdd282224e1faa32090c2c31b029dd7224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 50/58] fix: a Broyden fit does not start from the Hessian of
 an earlier fit

---
 maxlike/maxlike_base.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 27df60f..ceca3cd 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -532,12 +532,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-                if self.converged and \
-                        hasattr(self, 'flat_hess_') and \
-                        self.flat_hess_.shape[0] == grad.shape[0]:
-                    flat_hess = self.flat_hess_
-                else:
-                    flat_hess = self.flat_hess(params, y, der, hess)
+                # that of an earlier fit may belong to other data
+                flat_hess = self.flat_hess(params, y, der, hess)
 
                 J = pinvh(flat_hess)
                 
-- 
2.43.0


From de9002e11c2f1f07981cfc281cd66b2aad4b91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 51/58] fix: Poisson overflows with integer rates and with
 sizes above 170

---
 maxlike/func/func_proba.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/maxlike/func/func_proba.py b/maxlike/func/func_proba.py
index f6f74f5..de2e5cf 100644
--- a/maxlike/func/func_proba.py
+++ b/maxlike/func/func_proba.py
@@ -14,31 +14,28 @@ class Poisson(Func):
     def __init__(self, size=10):
         self.size = size
 
-    def __call__(self, params):
+    def _vector(self, params):
+        # as a product of quotients, the power and the factorial overflow
         a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = (a ** x) / factorial(x)
-        return Tensor(vec, dim=1)
+        vec = np.cumprod(a / np.arange(1, self.size), -1)
+        return np.insert(vec, 0, 1, -1)
+
+    def __call__(self, params):
+        return Tensor(self._vector(params), dim=1)
 
     def grad(self, params, i):
-        a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = ((a ** x) / factorial(x))
+        vec = self._vector(params)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         return grad_tensor(vec, params, i, True, dim=1)
 
     def hess(self, params, i, j):
-        a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = ((a ** x) / factorial(x))
+        vec = self._vector(params)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         return hess_tensor(vec, params, i, j, True, True, dim=1)
 
     def eval(self, params):
-        a = np.asarray(params[0])[..., None]
-        x = np.arange(self.size)
-        vec = (a ** x) / factorial(x)
+        vec = self._vector(params)
         val = Tensor(vec, dim=1)
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         grad = grad_tensor(vec, params, 0, True, dim=1)
-- 
2.43.0


From c1d28a3df103d31140cb7124b5b9b2cc309d3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 52/58] fix: LogNegativeBinomial is minus infinity beyond 170

---
 maxlike/func/func_proba.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_proba.py b/maxlike/func/func_proba.py
index de2e5cf..fa393ee 100644
--- a/maxlike/func/func_proba.py
+++ b/maxlike/func/func_proba.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import factorial, gammaln
+from scipy.special import gammaln
 from ..tensor import Tensor
 from .func import Exp
 from .func_base import Func, grad_tensor, hess_tensor
@@ -61,7 +61,7 @@ class LogNegativeBinomial(Func):
         vec += gammaln(self.r + x)
         vec -= gammaln(self.r)
         vec += self.r * np.log(self.r)
-        vec -= np.log(factorial(x))
+        vec -= gammaln(x + 1)
         vec -= (x + self.r) * np.log(self.r + m)
         return Tensor(vec, dim=1)
 
@@ -92,7 +92,7 @@ class LogNegativeBinomial(Func):
         vec += gammaln(self.r + x)
         vec -= gammaln(self.r)
         vec += self.r * np.log(self.r)
-        vec -= np.log(factorial(x))
+        vec -= gammaln(x + 1)
         vec -= (x + self.r) * np.log(self.r + m)
         val = Tensor(vec, dim=1)
         grad = grad_tensor(
-- 
2.43.0


From edaeaf722332221d7f3fb739ab8139d0d09ba6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 53/58] fix: zero-inflated Poisson objective overflows for
 means above 709

---
 maxlike/maxlike.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 1020dad..4fb6d63 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -44,8 +44,11 @@ class ZeroInflatedPoisson(MaxLike):
         self.Z = None
 
     def like(self, params, y):
+        # e ** exp_y overflows
+        exp_y = np.exp(y)
         return (self.X * y + self.Z * np.log(self.s) -
-                self.N * np.log(np.exp(np.exp(y)) + self.s - 1) - 
+                self.N * (exp_y +
+                          np.log(1 + (self.s - 1) * np.exp(-exp_y))) -
                 gammaln(self.X + 1)).sum()
 
     def grad_like(self, params, y, der):
-- 
2.43.0


From f86cebce4b971bd727447cf1e4e85fc068076e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 54/58] fix: a successful Newton fit leaves converged False

---
 maxlike/maxlike_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index ceca3cd..45b651a 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -518,6 +518,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 if mult == 1 and abs(prev_g / g - 1) < tol:
                     self.params = params
                     self.flat_hess_ = hess
+                    self.converged = True
                     return True
 
         elif method == "broyden":
-- 
2.43.0


From abb3780cb8e84f284486740e47567c2b0032e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 55/58] fix: numpy's binary functions ignore the second operand
 of a tensor

---
 maxlike/tensor/tensor.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index e3cc907..db536a0 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -445,16 +445,21 @@ class GenericTensor(BaseTensor):
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         name = ufunc.__name__
         try:
-            op_type = {
-                'add': TensorOp.ADD,
-                'subtract': TensorOp.RSUB,
-                'multiply': TensorOp.MUL,
-                'true_divide': TensorOp.RDIV,
-                'divide': TensorOp.RDIV,
+            op_type, rop_type = {
+                'add': (TensorOp.ADD, TensorOp.ADD),
+                'subtract': (TensorOp.SUB, TensorOp.RSUB),
+                'multiply': (TensorOp.MUL, TensorOp.MUL),
+                'true_divide': (TensorOp.DIV, TensorOp.RDIV),
+                'divide': (TensorOp.DIV, TensorOp.RDIV),
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
-        return self.bin_op(inputs[0], op_type)
+        if method != '__call__':
+            raise InvalidOperation('Invalid ufunc method:', method)
+        # the tensor may be any of the operands
+        if isinstance(inputs[0], BaseTensor):
+            return inputs[0].bin_op(inputs[1], op_type)
+        return self.bin_op(inputs[0], rop_type)
 
 
 class Tensor(BaseTensor):
@@ -987,16 +992,21 @@ class Tensor(BaseTensor):
                           x_dim=0, y_dim=0, dim=self.dim)
 
         try:
-            op_type = {
-                'add': TensorOp.ADD,
-                'subtract': TensorOp.RSUB,
-                'multiply': TensorOp.MUL,
-                'true_divide': TensorOp.RDIV,
-                'divide': TensorOp.RDIV,
+            op_type, rop_type = {
+                'add': (TensorOp.ADD, TensorOp.ADD),
+                'subtract': (TensorOp.SUB, TensorOp.RSUB),
+                'multiply': (TensorOp.MUL, TensorOp.MUL),
+                'true_divide': (TensorOp.DIV, TensorOp.RDIV),
+                'divide': (TensorOp.DIV, TensorOp.RDIV),
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
-        return self.bin_op(inputs[0], op_type)
+        if method != '__call__':
+            raise InvalidOperation('Invalid ufunc method:', method)
+        # the tensor may be any of the operands
+        if isinstance(inputs[0], BaseTensor):
+            return inputs[0].bin_op(inputs[1], op_type)
+        return self.bin_op(inputs[0], rop_type)
 
     def __reshape_idx(self, x_dim, y_dim, n, dim):
         idx = []
-- 
2.43.0


From cbe94f595201f5bedc17754574ea6e2900da3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 56/58] fix: maximum and minimum of a tensor as second operand
 recurse for ever

---
 maxlike/tensor/tensor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index db536a0..373576d 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -984,12 +984,18 @@ class Tensor(BaseTensor):
             return Tensor(ufunc(self.values), x_dim=0, y_dim=0, dim=self.dim)
 
         if name in ("maximum", "minimum"):
-            if (self.x_dim > 0) | (self.y_dim > 0):
+            if any(getattr(x, 'x_dim', 0) + getattr(x, 'y_dim', 0) > 0
+                   for x in inputs):
                 raise InvalidOperation(
                     "{} only supported for Tensor".format(name) +
                     "for x_dim == y_dim == 0")
-            return Tensor(ufunc(self.values, inputs[1]),
-                          x_dim=0, y_dim=0, dim=self.dim)
+            tensors = [x if isinstance(x, Tensor) else Tensor(np.array(x))
+                       for x in inputs]
+            n = max(x.n for x in tensors)
+            dim = max(x.dim for x in tensors)
+            return Tensor(ufunc(*[x.reshape(0, 0, n, dim).values
+                                  for x in tensors]),
+                          x_dim=0, y_dim=0, dim=dim)
 
         try:
             op_type, rop_type = {
-- 
2.43.0


From b6f3aeb957e11b05a0afc8697b17acacba10e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:34 +0000
Subject: [PATCH 57/58] fix: combine a sum of tensors with a numpy scalar like
 with any other number

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 373576d..8683551 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -374,7 +374,7 @@ class GenericTensor(BaseTensor):
         # Scalar
         # Array
         #  -> are converted to tensor
-        if isinstance(other, (int, float, np.ndarray)):
+        if isinstance(other, (int, float, np.number, np.ndarray)):
             x_dim = self.x_dim
             y_dim = self.y_dim
             n = self.n
@@ -387,7 +387,7 @@ class GenericTensor(BaseTensor):
             dim = max(self.dim, other.dim)
 
         # Tensor
-        if isinstance(other, (int, float, np.ndarray, Tensor)):
+        if isinstance(other, (int, float, np.number, np.ndarray, Tensor)):
             if not isinstance(other, Tensor):
                 other = Tensor(other)
             new_elements = list(self.elements)
-- 
2.43.0


From 9cdf3efc203787c297efe994cd6a137a6049085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:44 +0000
Subject: [PATCH 58/58] fix: product of tensors in which two parameter axes get
 mapped to the same feature

---
 maxlike/tensor/tensor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 8683551..d8d1656 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -102,8 +102,18 @@ def arr_match_mappings(arr1, arr2, q, p, dim, map1, map2):
         i if j < 0 else -1 for i, j in zip(map1, map2)])
     # an axis with different mappings
     arr1 = arr_expand_cross_diag(arr1, p, map1, map2)
-    return arr1, arr2, array('b', [
+    mapping = array('b', [
         j if i < 0 else i for i, j in zip(map1, map2)])
+    # at most one axis can be mapped to each feature
+    for k, f in enumerate(mapping):
+        if f >= 0 and f in mapping[:k]:
+            idx = np.ones(arr1.ndim, dtype=np.int32)
+            n = max(arr1.shape[p + f], arr2.shape[p + f])
+            idx[q + k] = n
+            idx[p + f] = n
+            arr1 = arr1 * np.eye(n).reshape(idx)
+            mapping[k] = -1
+    return arr1, arr2, mapping
 
 
 class TensorOp(Enum):
-- 
2.43.0

