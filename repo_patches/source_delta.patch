From b6aaf61854e33e453793874808e126051d82ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 01/29] fix: Sequential backward passes no longer use
 intermediate values of another forward pass

The feature maps were taken from a cache filled by forward hooks, so a product at (x, val)
silently used the activations of whatever input was seen last, layers shared between
containers or used twice corrupted the cache, a deepcopy filled the cache of the original,
and the hook closures made the model impossible to pickle.
---
 nnj/sequential.py | 65 +++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..1f070cb 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -20,20 +20,19 @@ class Sequential(AbstractJacobian, nn.Sequential):
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
-            self.handles = []
 
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
+    def _compute_feature_maps(self, x: Tensor) -> List[Tensor]:
+        """Returns the input of every layer, followed by the output of the last one"""
+        feature_maps = [x]
+        for module in self._modules.values():
+            feature_maps.append(module(feature_maps[-1]))
+        return feature_maps
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
+        feature_maps = self._compute_feature_maps(x)
         if self.add_hooks:
-            self.feature_maps = [x]
-        for module in self._modules.values():
-            val = module(x)
-            x = val
-        return x
+            self.feature_maps = [feature_map.detach() for feature_map in feature_maps]
+        return feature_maps[-1]
 
     @torch.no_grad()
     def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
@@ -138,8 +137,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x)
@@ -148,8 +147,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
             for k in range(len(self._modules_list)):
                 # propagate through the input
                 matrix = self._modules_list[k].jmjTp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix,
                     wrt="input",
                     from_diag=from_diag if k == 0 else diag_backprop,
@@ -182,8 +181,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 # propagate through the input
                 if jmjTp is not None:
                     jmjTp = self._modules_list[k].jmjTp(
-                        self.feature_maps[k],
-                        self.feature_maps[k + 1],
+                        feature_maps[k],
+                        feature_maps[k + 1],
                         jmjTp,
                         wrt="input",
                         from_diag=diag_backprop,
@@ -194,8 +193,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                 if self._modules_list[k]._n_params == 0:
                     continue
                 jmjTp_from_layer = self._modules_list[k].jmjTp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix[k_with_params],
                     wrt="weight",
                     from_diag=from_diag,
@@ -228,22 +227,22 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert wrt in ["input", "weight"]
 
-        # forward pass for computing hook values
-        if val is None:
-            val = self.forward(x)
+        # forward pass (intermediate values are recomputed here, since the last ones seen may belong to another input)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
 
         # backward pass
         vs = []
         for k in range(len(self._modules_list) - 1, -1, -1):
             # backpropagate through the weight
             if wrt == "weight":
-                v_k = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="weight")
+                v_k = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="weight")
                 if v_k is not None:
                     vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                 if k == 0:
                     break
             # backpropagate through the input
-            vector = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="input")
+            vector = self._modules_list[k].vjp(feature_maps[k], feature_maps[k + 1], vector, wrt="input")
         if wrt == "weight":
             return torch.cat(vs, dim=1) if len(vs) > 0 else None
         elif wrt == "input":
@@ -264,8 +263,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -274,13 +273,13 @@ class Sequential(AbstractJacobian, nn.Sequential):
         for k in range(len(self._modules_list) - 1, -1, -1):
             # backpropagate through the weight
             if wrt == "weight":
-                m_k = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="weight")
+                m_k = self._modules_list[k].mjp(feature_maps[k], feature_maps[k + 1], matrix, wrt="weight")
                 if m_k is not None:
                     ms = m_k + ms if isinstance(m_k, list) else [m_k] + ms
                 if k == 0:
                     break
             # backpropagate through the input
-            matrix = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="input")
+            matrix = self._modules_list[k].mjp(feature_maps[k], feature_maps[k + 1], matrix, wrt="input")
         if wrt == "weight":
             return torch.cat(ms, dim=2) if len(ms) > 0 else None
         elif wrt == "input":
@@ -302,8 +301,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        feature_maps = self._compute_feature_maps(x)
+        val = feature_maps[-1]
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
             from_diag = True
@@ -313,8 +312,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
             # backpropagate through the weight
             if wrt == "weight":
                 m_k = self._modules_list[k].jTmjp(
-                    self.feature_maps[k],
-                    self.feature_maps[k + 1],
+                    feature_maps[k],
+                    feature_maps[k + 1],
                     matrix,
                     wrt="weight",
                     from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
@@ -328,8 +327,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     break
             # backpropagate through the input
             matrix = self._modules_list[k].jTmjp(
-                self.feature_maps[k],
-                self.feature_maps[k + 1],
+                feature_maps[k],
+                feature_maps[k + 1],
                 matrix,
                 wrt="input",
                 from_diag=from_diag if k == len(self._modules_list) - 1 else diag_backprop,
-- 
2.43.0


From 260f22e507d900f181e0dbdb4a52104a76042acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 02/29] fix: Sequential keeps layer list and parameter count in
 step with edits

append, insert, item assignment and deletion, inherited from nn.Sequential, changed what
forward computes but not the layers and the parameter count used by the jacobian products.
---
 nnj/sequential.py     | 16 ++++++++--------
 nnj/skipconnection.py |  5 ++++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 1f070cb..6ff4adf 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -9,18 +9,18 @@ from nnj.abstract_jacobian import AbstractJacobian
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
-        self._modules_list = list(self._modules.values())
-
-        self._n_params = 0
-        # for k in range(len(self._modules)):
-        #    self._n_params += self._modules_list[k]._n_params
-        for layer in self._modules_list:
-            self._n_params += layer._n_params
-
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
 
+    @property
+    def _modules_list(self) -> List[nn.Module]:
+        return list(self._modules.values())
+
+    @property
+    def _n_params(self) -> int:
+        return sum(layer._n_params for layer in self._modules_list)
+
     def _compute_feature_maps(self, x: Tensor) -> List[Tensor]:
         """Returns the input of every layer, followed by the output of the last one"""
         feature_maps = [x]
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..d879ca7 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -12,7 +12,10 @@ class SkipConnection(nn.Module, AbstractJacobian):
         super().__init__()
 
         self._F = Sequential(*args, add_hooks=add_hooks)
-        self._n_params = self._F._n_params
+
+    @property
+    def _n_params(self) -> int:
+        return self._F._n_params
 
     def forward(self, x: Tensor):
         return torch.cat([x, self._F(x)], dim=1)
-- 
2.43.0


From 8c04da36987102f1b61de6a34b056cd5da4fa458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 03/29] fix: None is the identity matrix in every product, as
 documented

It failed for image inputs (the ones were not flattened), for SkipConnection, Flatten,
Reshape, L2Norm and custom layers, and the README example (None together with
diag_backprop) failed an assertion.
---
 nnj/abstract_jacobian.py | 18 ++++++++++++++----
 nnj/conv2d.py            |  2 +-
 nnj/flatten.py           |  4 ++--
 nnj/reshape.py           |  4 ++--
 nnj/sequential.py        |  6 +++++-
 nnj/skipconnection.py    |  8 +++++++-
 6 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..a05b06d 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -74,7 +74,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
     ) -> Union[Tensor, None]:
         """
@@ -83,6 +83,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            return jacobian
         return torch.einsum("bij,bjk->bik", jacobian, matrix)
 
     @torch.no_grad()
@@ -90,7 +92,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
         from_diag: bool = False,
         to_diag: bool = False,
@@ -121,6 +123,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            matrix = torch.ones_like(jacobian[:, 0, :])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
@@ -171,7 +176,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
     ) -> Union[Tensor, None]:
         """
@@ -180,6 +185,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            return jacobian
         return torch.einsum("bij,bjk->bik", matrix, jacobian)
 
     @torch.no_grad()
@@ -187,7 +194,7 @@ class AbstractJacobian:
         self,
         x: Tensor,
         val: Union[Tensor, None],
-        matrix: Tensor,
+        matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
         from_diag: bool = False,
         to_diag: bool = False,
@@ -218,6 +225,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:  # identity
+            matrix = torch.ones_like(jacobian[:, :, 0])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..e57e996 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -380,7 +380,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
diff --git a/nnj/flatten.py b/nnj/flatten.py
index b0be53a..4dd0b0d 100644
--- a/nnj/flatten.py
+++ b/nnj/flatten.py
@@ -68,7 +68,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -140,7 +140,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
diff --git a/nnj/reshape.py b/nnj/reshape.py
index dfabfd8..42a5908 100644
--- a/nnj/reshape.py
+++ b/nnj/reshape.py
@@ -69,7 +69,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -141,7 +141,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 6ff4adf..acd574f 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -134,6 +134,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
+        # None means identity, which is diagonal
+        from_diag = from_diag or matrix is None
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass
@@ -141,7 +143,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val = feature_maps[-1]
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
                 from_diag = True
             # forward pass again
             for k in range(len(self._modules_list)):
@@ -299,6 +301,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
+        # None means identity, which is diagonal
+        from_diag = from_diag or matrix is None
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass
         feature_maps = self._compute_feature_maps(x)
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index d879ca7..fe21460 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -100,11 +100,15 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
+        # None means identity, which is diagonal
+        from_diag = from_diag or matrix is None
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
         b = x.shape[0]
         l1, l2 = x[0].numel(), val[0].numel()
+        if matrix is None and wrt == "input":
+            matrix = torch.ones_like(x).reshape(b, l1)
         jmjTp = self._F.jmjTp(
             x,
             None if val is None else val[:, l1:],
@@ -192,11 +196,13 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
+        # None means identity, which is diagonal
+        from_diag = from_diag or matrix is None
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
-- 
2.43.0


From 8a85721977d5c6097ac49c4a74a1a641fa2e212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 04/29] fix: default jTmjp transposes the jacobian in the
 diagonal cases too

The three cases with a diagonal were only right for symmetric jacobians, and failed or were
silently wrong for custom layers that rely on the default implementation.
---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index a05b06d..0d694df 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -233,13 +233,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From a486ef4ca9f7fe4e2a9ea1e356750493cbb078c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 05/29] fix: set_weight copies the vector instead of aliasing
 it

Later in-place changes to the vector changed the model, and two models set from the same
vector shared their weights.
---
 nnj/abstract_jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 0d694df..3c043be 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -253,4 +253,4 @@ class AbstractJacobian:
         """
         Sets the weight of the module.
         """
-        torch.nn.utils.vector_to_parameters(weight, self.parameters())
+        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())
-- 
2.43.0


From 22304bae03b6af549caf83daf0ba822e9e1484d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 06/29] fix: Softplus jacobian respects the threshold

---
 nnj/softplus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnj/softplus.py b/nnj/softplus.py
index 1275a45..4fa78ea 100644
--- a/nnj/softplus.py
+++ b/nnj/softplus.py
@@ -23,7 +23,10 @@ class Softplus(AbstractDiagonalJacobian, nn.Softplus):
         if wrt == "input":
             if val is None:
                 val = self.forward(x)
-            diag_jacobian = (torch.sigmoid(self.beta * x)).reshape(val.shape[0], -1)
+            diag_jacobian = torch.sigmoid(self.beta * x)
+            # the function reverts to the identity above the threshold
+            diag_jacobian = torch.where(self.beta * x > self.threshold, torch.ones_like(x), diag_jacobian)
+            diag_jacobian = diag_jacobian.reshape(val.shape[0], -1)
             if diag:
                 return diag_jacobian
             else:
-- 
2.43.0


From c5e89eb7b6cc8524c3d35697eced31affa03a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 07/29] fix: L2Norm jacobian accounts for eps in the derivative
 of the norm

---
 nnj/l2norm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..a12001e 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,8 +37,10 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            # the norm is not differentiable in 0, there its gradient is taken to be 0
+            norm_gradient = torch.einsum("b,bi->bi", torch.where(norm > 0, 1.0 / norm, torch.zeros_like(norm)), x)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, norm_gradient)
+            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
-- 
2.43.0


From 1bf7ea17a5958808aebd70a3f3aa3e185033db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 08/29] fix: ReLU never works in place

With inplace=True the jacobian products changed their input, and corrupted the output of the
previous layer, which its own jacobian is computed from.
---
 nnj/relu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnj/relu.py b/nnj/relu.py
index f455bd7..840c545 100644
--- a/nnj/relu.py
+++ b/nnj/relu.py
@@ -9,6 +9,8 @@ from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian
 class ReLU(AbstractDiagonalJacobian, nn.ReLU):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
+        # the jacobian products of this and of the previous layer need the value before the activation
+        self.inplace = False
         self._n_params = 0
 
     @torch.no_grad()
-- 
2.43.0


From dbbe4cb26bb6a6403fe0ecc62c2f34278b81ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:46 +0000
Subject: [PATCH 09/29] fix: MaxPool2d products locate the maxima of the input
 they are given

They used the positions found in the last forward pass, whatever its input was.
---
 nnj/maxpool2d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..5db3f90 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -13,8 +13,8 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         self._n_params = 0
         self.idx = None
 
-    def forward(self, input: Tensor):
-        val, idx = F.max_pool2d(
+    def _pool(self, input: Tensor) -> Tuple[Tensor, Tensor]:
+        return F.max_pool2d(
             input,
             self.kernel_size,
             self.stride,
@@ -23,7 +23,9 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             self.ceil_mode,
             return_indices=True,
         )
-        self.idx = idx
+
+    def forward(self, input: Tensor):
+        val, self.idx = self._pool(input)
         return val
 
     @torch.no_grad()
@@ -98,7 +100,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
             matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
-            idx = self.idx.reshape(-1)
+            idx = self._pool(x)[1].reshape(-1)
             matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
@@ -170,7 +172,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             arange_repeated = torch.repeat_interleave(torch.arange(b * c2), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
             # indexes for col
-            idx = self.idx.reshape(b * c2, h2 * w2)
+            idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
             vector_J[arange_repeated, idx] = vector
@@ -208,7 +210,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2), h2 * w2).long()
             arange_repeated = arange_repeated.reshape(b * n_rows * c2, h2 * w2)
             # indexes for col
-            idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
+            idx = self._pool(x)[1].reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
@@ -256,7 +258,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 arange_repeated = torch.repeat_interleave(torch.arange(b * c1 * c1), h2 * w2 * h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 # indexes for height and width
-                idx = self.idx.reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
+                idx = self._pool(x)[1].reshape(b, c1, h2 * w2).unsqueeze(2).expand(-1, -1, h2 * w2, -1)
                 idx_col = idx.unsqueeze(1).expand(-1, c1, -1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2)
                 idx_row = (
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
@@ -292,7 +294,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
                 arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
                 # indexes for height and width
-                idx = self.idx.reshape(b * c2, h2 * w2)
+                idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-- 
2.43.0


From 388fd4174f64bc5f00ef1a9cdcf2f5763ac91d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:01 +0000
Subject: [PATCH 10/29] fix: MaxPool2d backward passes add up contributions of
 overlapping windows

With stride smaller than the kernel an input can be the maximum of several windows, and only
one of them was kept.
---
 nnj/maxpool2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 5db3f90..207eb35 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -175,7 +175,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -214,7 +214,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -265,7 +265,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 )
 
                 Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -298,7 +298,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From b832df946cf32ecc64b5010aaea2ea1a625f6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:01 +0000
Subject: [PATCH 11/29] fix: MaxPool2d.jmp accepts a matrix with any number of
 columns

---
 nnj/maxpool2d.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 207eb35..0dc9616 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -98,11 +98,10 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self._pool(x)[1].reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
-            matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
+            matrix = matrix[arange_repeated, idx, :].reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
         elif wrt == "weight":
             # non parametric layer has no jacobian with respect to weight
-- 
2.43.0


From 48faccbadd9d6b5ac115e86ddb5951058c473bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:24 +0000
Subject: [PATCH 12/29] fix: Conv2d, MaxPool2d and Upsample work in the
 precision of their input

Buffers were always float32: products failed with float64 models, or silently lost precision.
---
 nnj/conv2d.py    | 10 +++++-----
 nnj/maxpool2d.py |  8 ++++----
 nnj/upsample.py  | 10 +++++-----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index e57e996..b7692c7 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +503,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, dtype=x.dtype, device=x.device)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +625,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 0dc9616..bc5c0b2 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -46,7 +46,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -173,7 +173,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self._pool(x)[1].reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
@@ -212,7 +212,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self._pool(x)[1].reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
             matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
@@ -263,7 +263,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
                 Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..297579a 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +172,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +219,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +268,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From 296ee0e9ee8bdd128f82657150ad8f535a7a20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 13/29] fix: Conv2d weight products handle dilation

The roles of stride and dilation swap between a convolution and the convolution that gives
the derivative with respect to its kernel.
---
 nnj/conv2d.py | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index b7692c7..b416d69 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -30,8 +30,11 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
             in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode
         )
 
-        dw_padding_h = compute_reversed_padding(self.padding[0], kernel_size=self.kernel_size[0])
-        dw_padding_w = compute_reversed_padding(self.padding[1], kernel_size=self.kernel_size[1])
+        # size covered by the kernel, once dilated
+        dilated_kernel_h = self.dilation[0] * (self.kernel_size[0] - 1) + 1
+        dilated_kernel_w = self.dilation[1] * (self.kernel_size[1] - 1) + 1
+        dw_padding_h = compute_reversed_padding(self.padding[0], kernel_size=dilated_kernel_h)
+        dw_padding_w = compute_reversed_padding(self.padding[1], kernel_size=dilated_kernel_w)
         self.dw_padding = (dw_padding_h, dw_padding_w)
         self._n_params = self.weight.numel() if self.bias is None else self.weight.numel() + out_channels
         self.use_vmap = use_vmap_for_backprop
@@ -206,9 +209,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                         vector_single_batch.reshape(-1, 1, h2, w2),
                         weight=reversed_input_single_batch,
                         bias=None,
-                        stride=self.stride,
+                        stride=self.dilation,
                         padding=self.dw_padding,
-                        dilation=self.dilation,
+                        dilation=self.stride,
                         groups=self.groups,
                     ).reshape(c2 * c1 * kernel_h * kernel_w)
                     return vector_J_single_batch
@@ -230,9 +233,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                         vector_single_batch.reshape(-1, 1, h2, w2),
                         weight=reversed_input_single_batch,
                         bias=None,
-                        stride=self.stride,
+                        stride=self.dilation,
                         padding=self.dw_padding,
-                        dilation=self.dilation,
+                        dilation=self.stride,
                         groups=self.groups,
                     ).reshape(c2 * c1 * kernel_h * kernel_w)
 
@@ -311,9 +314,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                             matrix_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                             weight=reversed_input_single_batch,
                             bias=None,
-                            stride=self.stride,
+                            stride=self.dilation,
                             padding=self.dw_padding,
-                            dilation=self.dilation,
+                            dilation=self.stride,
                             groups=self.groups,
                         )
                         .reshape(c2, *matrix_single_batch.shape[4:], c1, kernel_h, kernel_w)
@@ -341,9 +344,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                             matrix_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                             weight=reversed_input_single_batch,
                             bias=None,
-                            stride=self.stride,
+                            stride=self.dilation,
                             padding=self.dw_padding,
-                            dilation=self.dilation,
+                            dilation=self.stride,
                             groups=self.groups,
                         )
                         .reshape(c2, *matrix_single_batch.shape[4:], c1, kernel_h, kernel_w)
@@ -455,9 +458,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                                 matrix_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                                 weight=reversed_input_single_batch,
                                 bias=None,
-                                stride=self.stride,
+                                stride=self.dilation,
                                 padding=self.dw_padding,
-                                dilation=self.dilation,
+                                dilation=self.stride,
                                 groups=self.groups,
                             )
                             .reshape(c2, num_of_rows, c1, kernel_h, kernel_w)
@@ -483,9 +486,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                                 matrix_J_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                                 weight=reversed_input_single_batch,
                                 bias=None,
-                                stride=self.stride,
+                                stride=self.dilation,
                                 padding=self.dw_padding,
-                                dilation=self.dilation,
+                                dilation=self.stride,
                                 groups=self.groups,
                             )
                             .reshape(c2, self._n_params, c1, kernel_h, kernel_w)
@@ -522,9 +525,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                                 matrix_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                                 weight=reversed_input_single_batch,
                                 bias=None,
-                                stride=self.stride,
+                                stride=self.dilation,
                                 padding=self.dw_padding,
-                                dilation=self.dilation,
+                                dilation=self.stride,
                                 groups=self.groups,
                             )
                             .reshape(c2, num_of_rows, c1, kernel_h, kernel_w)
@@ -550,9 +553,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                                 matrix_J_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                                 weight=reversed_input_single_batch,
                                 bias=None,
-                                stride=self.stride,
+                                stride=self.dilation,
                                 padding=self.dw_padding,
-                                dilation=self.dilation,
+                                dilation=self.stride,
                                 groups=self.groups,
                             )
                             .reshape(c2, self._n_params, c1, kernel_h, kernel_w)
@@ -607,9 +610,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                                 matrix_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                                 weight=weigth_sq,
                                 bias=None,
-                                stride=self.stride,
+                                stride=self.dilation,
                                 padding=self.dw_padding,
-                                dilation=self.dilation,
+                                dilation=self.stride,
                                 groups=self.groups,
                             )
                             .reshape(c2, *matrix_single_batch.shape[4:], c1, kernel_h, kernel_w)
@@ -638,9 +641,9 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                                 matrix_single_batch.movedim((1, 2, 3), (-3, -2, -1)).reshape(-1, 1, h2, w2),
                                 weight=weigth_sq,
                                 bias=None,
-                                stride=self.stride,
+                                stride=self.dilation,
                                 padding=self.dw_padding,
-                                dilation=self.dilation,
+                                dilation=self.stride,
                                 groups=self.groups,
                             )
                             .reshape(c2, *matrix_single_batch.shape[4:], c1, kernel_h, kernel_w)
-- 
2.43.0


From 6729c12f3ecb323ae929a559af76aaf6f22e14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 14/29] fix: Conv2d products are refused for padding modes they
 do not implement

They were silently computed as if the padding was made of zeros.
---
 nnj/conv2d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index b416d69..a775958 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -43,6 +43,10 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 f"I can't handle stride = {self.stride}, sorry. Only stride 1 is supported (until pytorch extends the conv class)"
             )
 
+    def _assert_zero_padding(self) -> None:
+        if self.padding_mode != "zeros" and self.padding != (0, 0):
+            raise NotImplementedError(f"jacobian products are not implemented for padding_mode = {self.padding_mode}")
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -167,6 +171,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         vector jacobian product
         """
+        self._assert_zero_padding()
         if val is None:
             val = self.forward(x)
         b, c1, h1, w1 = x.shape
@@ -258,6 +263,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         matrix jacobian product
         """
+        self._assert_zero_padding()
         if val is None:
             val = self.forward(x)
         if matrix is None:
@@ -380,6 +386,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
+        self._assert_zero_padding()
         if val is None:
             val = self.forward(x)
         if matrix is None:
-- 
2.43.0


From c84973046f75bb4420f2645d9ac78387652c74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 15/29] fix: Upsample products are refused for modes they do
 not implement

Bilinear upsampling and fractional scale factors were silently treated as a nearest
upsampling by an integer factor.
---
 nnj/upsample.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/nnj/upsample.py b/nnj/upsample.py
index 297579a..96c4099 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -12,6 +12,15 @@ class Upsample(nn.Upsample, AbstractJacobian):
         super().__init__(*args, **kwargs)
         self._n_params = 0
 
+    def _block_size(self) -> int:
+        """Size of the block each pixel is copied to. Jacobian products are only implemented when there is such a block"""
+        scale = self.scale_factor
+        if not self.mode.startswith("nearest") or not isinstance(scale, float) or not scale.is_integer():
+            raise NotImplementedError(
+                f"jacobian products are not implemented for mode = {self.mode} and scale_factor = {scale}"
+            )
+        return int(scale)
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -133,13 +142,14 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
+            scale = self._block_size()
+            weight = torch.ones(1, 1, scale, scale, dtype=x.dtype, device=x.device)
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
                 weight=weight,
                 bias=None,
-                stride=int(self.scale_factor),
+                stride=scale,
                 padding=0,
                 dilation=1,
                 groups=1,
@@ -172,13 +182,14 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
+            scale = self._block_size()
+            weight = torch.ones(1, 1, scale, scale, dtype=x.dtype, device=x.device)
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
                 weight=weight,
                 bias=None,
-                stride=int(self.scale_factor),
+                stride=scale,
                 padding=0,
                 dilation=1,
                 groups=1,
@@ -219,7 +230,8 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
+                scale = self._block_size()
+                weight = torch.ones(1, 1, scale, scale, dtype=x.dtype, device=x.device)
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -227,7 +239,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
                     matrix.reshape(b * c2 * c2 * h2 * w2, 1, h2, w2),
                     weight=weight,
                     bias=None,
-                    stride=int(self.scale_factor),
+                    stride=scale,
                     padding=0,
                     dilation=1,
                     groups=1,
@@ -239,7 +251,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
                     Jt_matrixt.reshape(b * c2 * c2 * h1 * w1, 1, h2, w2),
                     weight=weight,
                     bias=None,
-                    stride=int(self.scale_factor),
+                    stride=scale,
                     padding=0,
                     dilation=1,
                     groups=1,
@@ -268,13 +280,14 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
+                scale = self._block_size()
+                weight = torch.ones(1, 1, scale, scale, dtype=x.dtype, device=x.device)
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
                     weight=weight,
                     bias=None,
-                    stride=int(self.scale_factor),
+                    stride=scale,
                     padding=0,
                     dilation=1,
                     groups=1,
-- 
2.43.0


From eb2363155991751ea7e0b96996359d3e9ba466d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 16/29] fix: SkipConnection of non parametric layers has no
 jacobian with respect to weight

It failed instead of returning None, also inside of a Sequential.
---
 nnj/sequential.py     |  8 ++++----
 nnj/skipconnection.py | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index acd574f..61f175c 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -35,7 +35,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         return feature_maps[-1]
 
     @torch.no_grad()
-    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
+    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         return self.mjp(x, val, None, wrt=wrt)
 
@@ -50,7 +50,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
@@ -87,7 +87,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -129,7 +129,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index fe21460..69d414d 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -26,7 +26,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         x: Tensor,
         val: Union[Tensor, None] = None,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         jac = self._F.jacobian(x, val, wrt=wrt)
         b = x.shape[0]
@@ -37,6 +37,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             identity = torch.diag_embed(torch.ones_like(x).reshape(b, l))
             return torch.cat([identity, jac], dim=1)
         elif wrt == "weight":
+            if jac is None:  # non parametric layers only
+                return None
             zeros = torch.zeros(b, l, self._n_params, device=x.device, dtype=x.dtype)
             return torch.cat([zeros, jac], dim=1)
 
@@ -51,7 +53,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         vector: Tensor,
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian vector product
         """
@@ -61,6 +63,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
+            if jvp is None:  # non parametric layers only
+                return None
             zeros = torch.zeros_like(x).reshape(b, l)
             return torch.cat([zeros, jvp], dim=1)
 
@@ -71,7 +75,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         val: Union[Tensor, None],
         matrix: Union[Tensor, None],
         wrt: Literal["input", "weight"] = "input",
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix product
         """
@@ -83,6 +87,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
+            if jmp is None:  # non parametric layers only
+                return None
             zeros = torch.zeros(b, l, matrix.shape[2], device=x.device, dtype=x.dtype)
             return torch.cat([zeros, jmp], dim=1)
 
@@ -96,7 +102,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         from_diag: bool = False,
         to_diag: bool = False,
         diag_backprop: bool = False,
-    ) -> Tensor:
+    ) -> Union[Tensor, None]:
         """
         jacobian matrix jacobian.T product
         """
@@ -134,6 +140,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             mjTp = self._F.jmp(x, None if val is None else val[:, l1:], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
             return torch.cat([torch.cat([matrix, mjTp], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1)
         elif wrt == "weight":
+            if jmjTp is None:  # non parametric layers only
+                return None
             if to_diag:
                 return torch.cat([torch.zeros_like(x).reshape(b, l1), jmjTp], dim=1)
             zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
-- 
2.43.0


From 03983a65f7a6f1ea90b92374dd86ebf7b6320afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 17/29] fix: invert_block_diagonal inverts the matrix

cholesky_inverse takes the Cholesky factor, it was given the matrix itself.
---
 nnj/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..6e0d9c3 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -42,4 +42,4 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
 def invert_block_diagonal(matrix):
     if isinstance(matrix, list):
         return [invert_block_diagonal(m) for m in matrix]
-    return torch.cholesky_inverse(matrix)
+    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
-- 
2.43.0


From 674201774484c7f6492a71210134361bf2f787ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:33 +0000
Subject: [PATCH 18/29] fix: convert_to_nnj keeps the configuration of the
 layers

Padding, dilation, groups, missing biases, pooling strides, upsampling and softplus settings
and nested Sequentials were dropped, so the converted model computed another function.
---
 nnj/utils.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 6e0d9c3..6cecc6f 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -7,28 +7,56 @@ import nnj
 from nnj.sequential import Sequential
 
 
-def convert_to_nnj(sequential: Sequential) -> Sequential:
+def convert_to_nnj(sequential: nn.Sequential) -> Sequential:
     model = []
     for layer in sequential:
-        if layer.__class__.__name__ == "Linear":
+        if isinstance(layer, nnj.AbstractJacobian):
+            nnj_layer = layer
+        elif layer.__class__.__name__ == "Sequential":
+            nnj_layer = convert_to_nnj(layer)
+        elif layer.__class__.__name__ == "Linear":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
             )
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = nnj.Upsample(
+                size=layer.size,
+                scale_factor=layer.scale_factor,
+                mode=layer.mode,
+                align_corners=layer.align_corners,
+            )
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
+        elif layer.__class__.__name__ == "Flatten" and (layer.start_dim, layer.end_dim) != (1, -1):
+            raise NotImplementedError(f"I can't convert {layer}, only the whole sample can be flattened")
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From aabc2be23ee13a88542e135a4b6b3b4852652998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 19/29] fix: log likelihoods can be constructed with their
 default aggregation

The assertion rejected "return all", and accepted None, for which nothing was ever returned.
---
 nnj/log_likelihoods.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..fc7e408 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -9,13 +9,15 @@ from nnj.abstract_jacobian import AbstractJacobian
 class LogLikelihood(nn.Module):
     def __init__(
         self,
-        aggregate_batch: Literal["return all", "sum", "average"] = "return all",
+        aggregate_batch: Optional[Literal["return all", "sum", "average"]] = "return all",
         metric_shape: Literal["full", "diag"] = "diag",
         metric_backprop: Literal["exact", "approx"] = "exact",
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        if aggregate_batch is None:
+            aggregate_batch = "return all"
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From 7f4bbeced6018d32296aa7a9216afb34803cc229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 20/29] fix: the full ggn of a container can be aggregated over
 the batch

It is a list with a block for each layer, and torch.sum does not take lists.
---
 nnj/log_likelihoods.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index fc7e408..23025b9 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -25,6 +25,16 @@ class LogLikelihood(nn.Module):
         self.metric_shape = metric_shape
         self.metric_backprop = metric_backprop
 
+    def _aggregate(self, metric: Union[torch.Tensor, list, None]) -> Union[torch.Tensor, list, None]:
+        if isinstance(metric, list):  # one block for each layer
+            return [self._aggregate(block) for block in metric]
+        if metric is None or self.aggregate_batch == "return all":
+            return metric
+        elif self.aggregate_batch == "sum":
+            return torch.sum(metric, dim=0)
+        elif self.aggregate_batch == "average":
+            return torch.mean(metric, dim=0)
+
 
 class LogGaussian(LogLikelihood):
     @torch.no_grad()
@@ -72,7 +82,7 @@ class LogGaussian(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, list, None]:
         b = x.shape[0]
         val = model(x)
 
@@ -87,12 +97,7 @@ class LogGaussian(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate(JtHJ)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -145,7 +150,7 @@ class LogBinaryBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, list, None]:
         b = x.shape[0]
         val = model(x)
 
@@ -163,12 +168,7 @@ class LogBinaryBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate(JtHJ)
 
 
 class LogBernoulli(LogLikelihood):
@@ -223,7 +223,7 @@ class LogBernoulli(LogLikelihood):
         model: AbstractJacobian,
         target: Optional[torch.Tensor] = None,
         wrt: Literal["input", "weight"] = "weight",
-    ) -> torch.Tensor:
+    ) -> Union[torch.Tensor, list, None]:
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
@@ -255,9 +255,4 @@ class LogBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate(JtHJ)
-- 
2.43.0


From e04ac39ccab566e931a46d86b53b5d08e32d46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 21/29] fix: LogBernoulli.ggn works with more than one
 categorical variable per sample

---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 23025b9..4a13bfa 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -227,7 +227,7 @@ class LogBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         exp_val = torch.exp(val)
         normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-- 
2.43.0


From cb31fa37e70cdec87627b5968529bbb03702d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 22/29] fix: Bernoulli gradients and ggn do not overflow for
 large logits

The exponential overflowed and the result was nan, from logits of 89 on in float32.
---
 nnj/log_likelihoods.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 4a13bfa..73ecf31 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -132,7 +132,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -154,7 +154,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        bernoulli_prob = torch.sigmoid(val)
         log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
@@ -202,9 +202,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -229,9 +227,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() // c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From 950986520d3710a3dc99ea4e33a7b1259a5f3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 23/29] fix: LogBernoulli.ggn supports the approximate
 backpropagation

Containers refuse to start the diagonal approximation from a full matrix.
---
 nnj/log_likelihoods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 73ecf31..863fe55 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -241,12 +241,15 @@ class LogBernoulli(LogLikelihood):
                 .movedim((-2, -1), (1, 3))
                 .reshape(b, l * c, l * c)
             )
+        if self.metric_backprop == "approx":
+            # the approximation only propagates diagonals
+            log_bernoulli_hessian = torch.diagonal(log_bernoulli_hessian, dim1=1, dim2=2)
         JtHJ = model.jTmjp(
             x,
             val,
             log_bernoulli_hessian,
             wrt=wrt,
-            from_diag=False,
+            from_diag=self.metric_backprop == "approx",
             to_diag=self.metric_shape == "diag",
             diag_backprop=self.metric_backprop == "approx",
         )
-- 
2.43.0


From 5ad075c9775c586375d6aba3690bacaba913178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:00 +0000
Subject: [PATCH 24/29] fix: Linear.jacobian with respect to input does not
 alias the weight

---
 nnj/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnj/linear.py b/nnj/linear.py
index fc19c8a..45c0092 100644
--- a/nnj/linear.py
+++ b/nnj/linear.py
@@ -21,7 +21,8 @@ class Linear(nn.Linear, AbstractJacobian):
         """Returns the Jacobian matrix"""
         b, c1 = x.shape
         if wrt == "input":
-            return self.weight.unsqueeze(0).expand(b, *self.weight.shape)
+            # a copy, which later changes of the weight do not affect
+            return self.weight.unsqueeze(0).repeat(b, 1, 1)
         elif wrt == "weight":
             if val is None:
                 val = self.forward(x)
-- 
2.43.0


From 1cfc6ed87cef4a19bd81c0008f8cc111d10a9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:11 +0000
Subject: [PATCH 25/29] fix: Sequential forward products never add into a
 tensor a layer handed out

---
 nnj/sequential.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 61f175c..c95a8b5 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -74,7 +74,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     if jvp is None:
                         jvp = jvp_from_layer
                     else:
-                        jvp += jvp_from_layer
+                        jvp = jvp + jvp_from_layer
                 p += module._n_params
                 x = val
             assert p == self._n_params
@@ -113,7 +113,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     if jmp is None:
                         jmp = jmp_from_layer
                     else:
-                        jmp += jmp_from_layer
+                        jmp = jmp + jmp_from_layer
                 p += module._n_params
                 x = val
             assert p == self._n_params
@@ -208,7 +208,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
                     if jmjTp is None:
                         jmjTp = jmjTp_from_layer
                     else:
-                        jmjTp += jmjTp_from_layer
+                        jmjTp = jmjTp + jmjTp_from_layer
             return jmjTp
 
     #######################
-- 
2.43.0


From 09038ba28d60a7ae3fbb9c160e624ea4a52fbdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:12 +0000
Subject: [PATCH 26/29] fix: refuse to convert layers that only share their
 name with a torch layer

---
 nnj/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnj/utils.py b/nnj/utils.py
index 6cecc6f..90a9c83 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -10,8 +10,11 @@ from nnj.sequential import Sequential
 def convert_to_nnj(sequential: nn.Sequential) -> Sequential:
     model = []
     for layer in sequential:
+        torch_class = getattr(nn, layer.__class__.__name__, None)
         if isinstance(layer, nnj.AbstractJacobian):
             nnj_layer = layer
+        elif torch_class is not None and layer.__class__.forward is not torch_class.forward:
+            raise NotImplementedError(f"I can't convert {layer}, it has the name of a torch layer but is not that layer")
         elif layer.__class__.__name__ == "Sequential":
             nnj_layer = convert_to_nnj(layer)
         elif layer.__class__.__name__ == "Linear":
-- 
2.43.0


From 2009d7840098838edb075cd858b3a56ed4da21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:12 +0000
Subject: [PATCH 27/29] fix: refuse max pooling with return_indices instead of
 leaving out the indices

---
 nnj/maxpool2d.py | 2 ++
 nnj/utils.py     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index bc5c0b2..6ea6cac 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -10,6 +10,8 @@ from nnj.abstract_jacobian import AbstractJacobian
 class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
+        if self.return_indices:
+            raise NotImplementedError("MaxPool2d returns the output only, return_indices is not implemented")
         self._n_params = 0
         self.idx = None
 
diff --git a/nnj/utils.py b/nnj/utils.py
index 90a9c83..25e978c 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -47,6 +47,7 @@ def convert_to_nnj(sequential: nn.Sequential) -> Sequential:
                 stride=layer.stride,
                 padding=layer.padding,
                 dilation=layer.dilation,
+                return_indices=layer.return_indices,
                 ceil_mode=layer.ceil_mode,
             )
         elif layer.__class__.__name__ == "Upsample":
-- 
2.43.0


From 97dc6f281594feb14acb4938bbe51a0be185ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 28/29] fix: refuse Flatten of other dimensions instead of
 flattening the whole sample

---
 nnj/flatten.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nnj/flatten.py b/nnj/flatten.py
index 4dd0b0d..c3b21b8 100644
--- a/nnj/flatten.py
+++ b/nnj/flatten.py
@@ -7,9 +7,10 @@ from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian
 
 
 class Flatten(AbstractDiagonalJacobian, nn.Module):
-    def __init__(self, *args, **kwargs):
+    def __init__(self, start_dim: int = 1, end_dim: int = -1):
         super().__init__()
-        self.dims = args
+        if (start_dim, end_dim) != (1, -1):
+            raise NotImplementedError(f"Flatten({start_dim}, {end_dim}) is not implemented, only the whole sample")
         self._n_params = 0
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From e83fde9b20f9fac4a192fc9ba99b1fc728f2f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 29/29] fix: refuse unknown options of Reshape instead of
 ignoring them

---
 nnj/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/reshape.py b/nnj/reshape.py
index 42a5908..89a4817 100644
--- a/nnj/reshape.py
+++ b/nnj/reshape.py
@@ -7,7 +7,7 @@ from nnj.abstract_diagonal_jacobian import AbstractDiagonalJacobian
 
 
 class Reshape(AbstractDiagonalJacobian, nn.Module):
-    def __init__(self, *args, **kwargs):
+    def __init__(self, *args):
         super().__init__()
         self.dims = args
         self._n_params = 0
-- 
2.43.0

