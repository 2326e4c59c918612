From 9176e9d8c6f328f6d259b64d21d8c50f7b5d7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:25 +0000
Subject: [PATCH 001/130] fix: sum and multiply goos flows of unequal shape by
 broadcasting

---
 spins/goos/math.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 45c2c27..fb1c9cf 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -251,7 +251,9 @@ class Sum(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.sum([x.array for x in inputs], axis=0)
+        # The arrays may differ in shape (e.g. scalar plus vector), so rely on
+        # broadcasting rather than stacking them.
+        flow.array = sum(x.array for x in inputs)
         return flow
 
     def grad(self, inputs: List[flows.NumericFlow],
@@ -280,6 +282,14 @@ class Sum(Function):
                 type(obj)))
 
 
+def _broadcast_prod(arrays: List[np.ndarray]) -> np.ndarray:
+    """Multiplies arrays elementwise, broadcasting arrays of unequal shape."""
+    prod = 1
+    for arr in arrays:
+        prod = prod * arr
+    return prod
+
+
 class Product(Function):
     node_type = "goos.function.product"
 
@@ -289,7 +299,7 @@ class Product(Function):
 
     def eval(self, inputs: List[flows.NumericFlow]) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.prod([x.array for x in inputs], axis=0)
+        flow.array = _broadcast_prod([x.array for x in inputs])
         return flow
 
     def grad(self, input_vals: List[flows.NumericFlow],
@@ -298,8 +308,8 @@ class Product(Function):
         grads = []
         for i in range(len(input_val_arr)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_val_arr[:i], axis=0)
-            prod_after = np.prod(input_val_arr[i + 1:], axis=0)
+            prod_before = _broadcast_prod(input_val_arr[:i])
+            prod_after = _broadcast_prod(input_val_arr[i + 1:])
             grads.append(prod_before * prod_after * grad_val.array_grad)
 
         grad_flows = []
-- 
2.43.0


From 42566eaafbe2cd795016477a3f032fd7ea98ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:58 +0000
Subject: [PATCH 002/130] fix: use collections.abc.Iterable so that Workspace
 can be created on current Python

---
 spins/invdes/problem_graph/workspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index 989b91b..ad1fe2c 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -4,7 +4,7 @@ The workspace has the following responsibilities:
     1) Creating and caching problem graph node objects.
     2) Handling execution of transformations.
 """
-import collections
+import collections.abc
 from datetime import datetime
 import glob
 import logging
@@ -56,7 +56,7 @@ class Workspace:
         # TODO(logansu): Accept argument-less variable.
         self._objects[VARIABLE_NODE] = problem.Variable(1)
 
-        if isinstance(nodes, collections.Iterable):
+        if isinstance(nodes, collections.abc.Iterable):
             for node in nodes:
                 self._add_node(node)
         elif nodes:
-- 
2.43.0


From 9a917deff168561ae8c19a01b3cecf5a16ed8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 003/130] fix: do not share one gradient array between the
 inputs of a goos sum

---
 spins/goos/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index fb1c9cf..6fcbd22 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -265,7 +265,9 @@ class Sum(Function):
             if ind == i:
                 grads.append(copy.deepcopy(grad_val))
             else:
-                grads.append(goos.NumericFlow.Grad(grad_val.array_grad))
+                # Copy since gradients are accumulated in place.
+                grads.append(
+                    goos.NumericFlow.Grad(copy.deepcopy(grad_val.array_grad)))
         return grads
 
     def __add__(self, obj):
-- 
2.43.0


From a632a3d83c02c722bde150dcec69c358bc34a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 004/130] fix: sum the gradient of a goos scalar that is
 broadcast against a vector

---
 spins/goos/math.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 6fcbd22..3a68bf6 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -241,6 +241,13 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
         return dom_flow
 
 
+def _sum_to_shape(grad: np.ndarray, value: np.ndarray) -> np.ndarray:
+    """Sums a gradient over the axes along which `value` was broadcast."""
+    if np.size(value) == 1 and np.size(grad) > 1:
+        return np.reshape(np.sum(grad), np.shape(value))
+    return grad
+
+
 class Sum(Function):
     node_type = "goos.function.sum"
 
@@ -267,7 +274,9 @@ class Sum(Function):
             else:
                 # Copy since gradients are accumulated in place.
                 grads.append(
-                    goos.NumericFlow.Grad(copy.deepcopy(grad_val.array_grad)))
+                    goos.NumericFlow.Grad(
+                        _sum_to_shape(copy.deepcopy(grad_val.array_grad),
+                                      inputs[i].array)))
         return grads
 
     def __add__(self, obj):
@@ -322,7 +331,9 @@ class Product(Function):
                 flow.array_grad = grad
                 grad_flows.append(flow)
             else:
-                grad_flows.append(goos.NumericFlow.Grad(grad))
+                grad_flows.append(
+                    goos.NumericFlow.Grad(
+                        _sum_to_shape(grad, input_vals[i].array)))
         return grad_flows
 
     def __mul__(self, obj):
-- 
2.43.0


From c291baadf113f975d3a8846e1f3c571403351d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 005/130] fix: gradient of the norm of a zero vector is zero,
 as documented

---
 spins/goos/math.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 3a68bf6..8675e0b 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -465,8 +465,12 @@ class Norm(Function):
     def grad(self, input_vals: List[goos.NumericFlow],
              grad_val: goos.NumericFlow.Grad) -> List[goos.NumericFlow.Grad]:
         arr = input_vals[0].array.flatten()
-        norm_grad = np.conj(arr) * (
-            np.abs(arr) / np.linalg.norm(arr, ord=self._ord))**(self._ord - 1)
+        norm_val = np.linalg.norm(arr, ord=self._ord)
+        if norm_val == 0:
+            grad = type(input_vals[0]).Grad()
+            grad.array_grad = np.zeros(input_vals[0].array.shape)
+            return [grad]
+        norm_grad = np.conj(arr) * (np.abs(arr) / norm_val)**(self._ord - 1)
         # Avoid division by zero.
         norm_grad[np.abs(arr) > 0] /= np.abs(arr[np.abs(arr) > 0])
         norm_grad = np.reshape(norm_grad, input_vals[0].array.shape)
-- 
2.43.0


From 246486652b8081d77fa14d5fed46e1a534be1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 006/130] fix: allow dividing by integer-valued goos functions

---
 spins/goos/math.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 8675e0b..311f57d 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -350,6 +350,13 @@ class Product(Function):
                 type(obj)))
 
 
+def _to_float(arr: np.ndarray) -> np.ndarray:
+    """Converts integer arrays, which cannot be raised to negative powers."""
+    if np.issubdtype(np.asarray(arr).dtype, np.integer):
+        return np.asarray(arr, dtype=float)
+    return arr
+
+
 class Power(Function):
     node_type = "goos.function.power"
 
@@ -360,7 +367,7 @@ class Power(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         value = copy.deepcopy(inputs[0])
-        value.array = value.array**self._pow
+        value.array = _to_float(value.array)**self._pow
         return value
 
     def grad(self, input_vals: List[flows.NumericFlow],
@@ -368,7 +375,8 @@ class Power(Function):
              context: goos.EvalContext) -> List[flows.NumericFlow.Grad]:
         new_grad_val = copy.deepcopy(grad_val)
         new_grad_val.array_grad *= (self._pow *
-                                    input_vals[0].array**(self._pow - 1))
+                                    _to_float(input_vals[0].array)
+                                    **(self._pow - 1))
         return [new_grad_val]
 
 
-- 
2.43.0


From 6acbd87e942cbea78fb31fc8ec757917de316f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 007/130] fix: do not truncate the gradient of a slice of an
 integer-valued goos function

---
 spins/goos/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 311f57d..b96ff8b 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -577,7 +577,8 @@ class Slice(Function):
         slices = self._make_slices(shape)
 
         grad = type(inputs[0]).Grad()
-        grad.array_grad = np.zeros_like(inputs[0].array)
+        grad.array_grad = np.zeros(shape,
+                                   dtype=np.result_type(grad_val.array_grad))
         grad.array_grad[slices] = grad_val.array_grad
         return [grad]
 
-- 
2.43.0


From d7b119e833425c0b8f71873d6516720c8d269474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:23 +0000
Subject: [PATCH 008/130] fix: do not run a parallelized goos node together
 with its own input

---
 spins/goos/graph_executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index d688101..6cd41d7 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -186,6 +186,8 @@ def _eval_fun_vals(
                 node = next(node_iter)
 
             # Figure out block of heavy compute nodes.
+            # A node whose input is part of the block has to wait for the block
+            # to complete.
             heavy_node_block = []
             # Keep track of whether we reached the last node in the graph.
             # This is necessary because if the last node happens to be a heavy
@@ -193,7 +195,8 @@ def _eval_fun_vals(
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and
+                       not set(graph[node]) & set(heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -336,7 +339,10 @@ def eval_grad(
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A node that is an input of the block needs the gradients that
+                # are computed by the block.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[node_] for node_ in heavy_node_block):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
-- 
2.43.0


From 85d90909f72426617835a200e39295acbc0de408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:23 +0000
Subject: [PATCH 009/130] fix: type empty gradients of parallelized goos nodes
 by their own inputs

---
 spins/goos/graph_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 6cd41d7..fc8e3ff 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -305,7 +305,7 @@ def eval_grad(
         # empty gradient structure.
         for i in range(len(node_grad_vals)):
             if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(input_vals[i]).Grad()
+                node_grad_vals[i] = type(fun_vals[graph[node][i]]).Grad()
 
         # Update the gradient values.
         for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
-- 
2.43.0


From d3a83534cb0823ab6376e57dfafaddd15b666b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:02 +0000
Subject: [PATCH 010/130] fix: do not re-evaluate a goos node with a known
 value when it is parallelized

---
 spins/goos/graph_executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index fc8e3ff..91e9360 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -197,7 +197,9 @@ def _eval_fun_vals(
             try:
                 while (_is_heavy_fun(fun_map[node]) and
                        not set(graph[node]) & set(heavy_node_block)):
-                    heavy_node_block.append(node)
+                    # Values set by the caller are not recomputed.
+                    if node not in fun_vals:
+                        heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
                 last_node_reached = True
@@ -211,7 +213,7 @@ def _eval_fun_vals(
                      [fun_flags[in_node] for in_node in graph[node_]]))
 
             with concurrent.futures.ThreadPoolExecutor(
-                    max_workers=len(arg_list)) as executor:
+                    max_workers=max(len(arg_list), 1)) as executor:
                 heavy_node_vals = executor.map(
                     lambda args: _eval_fun_and_flags(*args), arg_list)
 
-- 
2.43.0


From 4a265ef964d2463031481f7621559a3a786fc31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:02 +0000
Subject: [PATCH 011/130] fix: accept lists as bounds of a goos variable, as
 documented

---
 spins/goos/optplan/optplan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 649e844..587c45f 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -495,12 +495,14 @@ class OptimizationPlan:
                 lower_bounds = -np.inf
             if np.isscalar(lower_bounds):
                 lower_bounds = np.ones_like(node._value) * lower_bounds
+            lower_bounds = np.array(lower_bounds)
 
             upper_bounds = node._upper_bounds
             if upper_bounds is None:
                 upper_bounds = np.inf
             if np.isscalar(upper_bounds):
                 upper_bounds = np.ones_like(node._value) * upper_bounds
+            upper_bounds = np.array(upper_bounds)
 
             self._var_bounds[node._goos_name] = [lower_bounds, upper_bounds]
 
-- 
2.43.0


From 39d0b8579f031d2bbf2056424e4eef6dd50ebb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:02 +0000
Subject: [PATCH 012/130] fix: do not hand out references to the state of a
 goos plan

---
 spins/goos/optplan/optplan.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 587c45f..7da01cb 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -486,7 +486,7 @@ class OptimizationPlan:
 
         from spins.goos import math
         if isinstance(node, math.Variable):
-            self._var_value[node._goos_name] = node._value
+            self._var_value[node._goos_name] = node._value.copy()
             self._var_frozen[node._goos_name] = node._is_param
 
             # Make `lower_bounds` array have same size as node value.
@@ -532,7 +532,7 @@ class OptimizationPlan:
         return self._var_value[node._goos_name].copy()
 
     def get_var_bounds(self, node: "goos.Variable") -> List[np.ndarray]:
-        return self._var_bounds[node._goos_name].copy()
+        return copy.deepcopy(self._var_bounds[node._goos_name])
 
     @_requires_action
     def freeze_var(self, node: "goos.Variable") -> None:
@@ -656,7 +656,7 @@ class OptimizationPlan:
                                 frozen_flags=frozen_flags)
 
             override_map[self._node_map[var_name]] = (
-                flows.NumericFlow(var_value), context)
+                flows.NumericFlow(var_value.copy()), context)
         return graph_executor.eval_fun(nodes, override_map)
 
     def eval_node(self, node: ProblemGraphNode) -> flows.Flow:
-- 
2.43.0


From 5fdf4afb4b84c8a175ced64fb3599e1ef7d610d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:02 +0000
Subject: [PATCH 013/130] fix: frozen goos variables have zero gradient, as
 documented

---
 spins/goos/optplan/optplan.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 7da01cb..f6062fe 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -696,7 +696,13 @@ class OptimizationPlan:
 
             override_map[self._node_map[var_name]] = (
                 flows.NumericFlow(var_value), grad_value, context)
-        return graph_executor.eval_grad(node, wrt_nodes, override_map)
+        grads = graph_executor.eval_grad(node, wrt_nodes, override_map)
+        # Frozen variables have zero gradient.
+        for i, wrt_node in enumerate(wrt_nodes):
+            if self._var_frozen.get(wrt_node._goos_name, False):
+                value = self._var_value[wrt_node._goos_name]
+                grads[i] = flows.NumericFlow.Grad(np.zeros(value.shape))
+        return grads
 
     def __enter__(self):
         push_plan(self)
-- 
2.43.0


From 9e15b788ff97fa89a54ebcbeb188d216163dbd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:02 +0000
Subject: [PATCH 014/130] fix: goos checkpoints can be written at any time, as
 documented

---
 spins/goos/optplan/optplan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index f6062fe..e7367a0 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -354,10 +354,12 @@ class OptimizationPlan:
         data = {
             "version": "0.2.0",
             "action_ptr": self._action_ptr,
-            "action": self._actions[self._action_ptr]._goos_name,
+            "action": None,
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
         }
+        if self._action_ptr < len(self._actions):
+            data["action"] = self._actions[self._action_ptr]._goos_name
         # TODO(logansu): Remove "transformation" and "parametrization".
         # For backwards capatibility, keep the name "transformation" and
         # add an empty parametrization.
-- 
2.43.0


From bbd2cfe315f31d5f0fc9ace8025535a9a2a874cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:02 +0000
Subject: [PATCH 015/130] fix: a goos plan is not modifiable after one of its
 actions failed

---
 spins/goos/optplan/optplan.py | 44 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index e7367a0..3750235 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -560,11 +560,14 @@ class OptimizationPlan:
                 generated. Checkpoints will only be created if a save path
                 is specified.
         """
-        self._modifiable = True
         while self._action_ptr < len(self._actions):
             self.logger.info("Running action {} ({}).".format(
                 self._action_ptr, self._actions[self._action_ptr]._goos_name))
-            self._actions[self._action_ptr].run(self)
+            self._modifiable = True
+            try:
+                self._actions[self._action_ptr].run(self)
+            finally:
+                self._modifiable = False
 
             if auto_checkpoint and self._save_path:
                 self.write_checkpoint(
@@ -573,7 +576,6 @@ class OptimizationPlan:
 
             self._action_ptr += 1
             self._action_data = None
-        self._modifiable = False
 
     def resume(self,
                checkpoint: str = None,
@@ -601,23 +603,28 @@ class OptimizationPlan:
             self.read_checkpoint(checkpoint)
 
         self._modifiable = True
-
-        # Attempt to resume if there is event data to resume from.
-        if self._action_data:
-            self.logger.info("Resuming action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
-
-            if hasattr(self._actions[self._action_ptr], "resume"):
-                self._actions[self._action_ptr].resume(self, self._action_data)
+        try:
+            # Attempt to resume if there is event data to resume from.
+            if self._action_data:
+                self.logger.info("Resuming action {} ({}).".format(
+                    self._action_ptr,
+                    self._actions[self._action_ptr]._goos_name))
+
+                if hasattr(self._actions[self._action_ptr], "resume"):
+                    self._actions[self._action_ptr].resume(
+                        self, self._action_data)
+                else:
+                    self.logger.warning(
+                        "Action has no resume capabilities {}, re-running.".
+                        format(self._action_ptr))
+                    self._actions[self._action_ptr].run(self)
             else:
-                self.logger.warning(
-                    "Action has no resume capabilities {}, re-running.".format(
-                        self._action_ptr))
+                self.logger.info("Running action {} ({}).".format(
+                    self._action_ptr,
+                    self._actions[self._action_ptr]._goos_name))
                 self._actions[self._action_ptr].run(self)
-        else:
-            self.logger.info("Running action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
-            self._actions[self._action_ptr].run(self)
+        finally:
+            self._modifiable = False
 
         if auto_checkpoint and self._save_path:
             self.write_checkpoint(
@@ -626,7 +633,6 @@ class OptimizationPlan:
 
         self._action_ptr += 1
         self._action_data = None
-        self._modifiable = False
 
         self.run()
 
-- 
2.43.0


From 5058926e16b4a04ab31b17f47ade89ae9b7b730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 016/130] fix: resuming from a goos checkpoint does not repeat
 the completed action

---
 spins/goos/optplan/optplan.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 3750235..89f27ec 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -569,14 +569,17 @@ class OptimizationPlan:
             finally:
                 self._modifiable = False
 
-            if auto_checkpoint and self._save_path:
-                self.write_checkpoint(
-                    os.path.join(self._save_path,
-                                 "action{}.chkpt".format(self._action_ptr)))
-
+            # Point to the next action first: A resume from the checkpoint must
+            # not execute the completed action again.
             self._action_ptr += 1
             self._action_data = None
 
+            if auto_checkpoint and self._save_path:
+                self.write_checkpoint(
+                    os.path.join(
+                        self._save_path,
+                        "action{}.chkpt".format(self._action_ptr - 1)))
+
     def resume(self,
                checkpoint: str = None,
                auto_checkpoint: bool = True) -> None:
@@ -602,6 +605,10 @@ class OptimizationPlan:
         if checkpoint:
             self.read_checkpoint(checkpoint)
 
+        # Nothing to do if all the actions were already completed.
+        if self._action_ptr >= len(self._actions):
+            return
+
         self._modifiable = True
         try:
             # Attempt to resume if there is event data to resume from.
@@ -626,13 +633,13 @@ class OptimizationPlan:
         finally:
             self._modifiable = False
 
+        self._action_ptr += 1
+        self._action_data = None
+
         if auto_checkpoint and self._save_path:
             self.write_checkpoint(
                 os.path.join(self._save_path,
-                             "action{}.chkpt".format(self._action_ptr)))
-
-        self._action_ptr += 1
-        self._action_data = None
+                             "action{}.chkpt".format(self._action_ptr - 1)))
 
         self.run()
 
-- 
2.43.0


From eb035ae43f398353fa8fdac2a0c7361f9eea67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 017/130] fix: a resumed goos plan does not overwrite the logs
 written before

---
 spins/goos/optplan/optplan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 89f27ec..9f4d89b 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -357,6 +357,7 @@ class OptimizationPlan:
             "action": None,
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
+            "log_counter": self._log_counter,
         }
         if self._action_ptr < len(self._actions):
             data["action"] = self._actions[self._action_ptr]._goos_name
@@ -463,6 +464,7 @@ class OptimizationPlan:
             data = pickle.load(handle)
 
         self._action_ptr = data["action_ptr"]
+        self._log_counter = data.get("log_counter", self._log_counter)
         self._action_data = data.get("event", None)
 
         # Unpack variables.
-- 
2.43.0


From a5f389f6313e902dfcce98e480db795637b7f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 018/130] fix: resuming a goos plan honors auto_checkpoint for
 every action

---
 spins/goos/optplan/optplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 9f4d89b..6eb7b92 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -643,7 +643,7 @@ class OptimizationPlan:
                 os.path.join(self._save_path,
                              "action{}.chkpt".format(self._action_ptr - 1)))
 
-        self.run()
+        self.run(auto_checkpoint)
 
     def eval_nodes(self, nodes: List[ProblemGraphNode]) -> List[flows.Flow]:
         """Evaluates nodes.
-- 
2.43.0


From 5b48dff3269d94c8c4cdf7125c463a59f2667cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 019/130] fix: count the completed iterations when a goos
 optimization is resumed

---
 spins/goos/optimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 1f59b6e..edae194 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -238,8 +238,11 @@ class ScipyOptimizer(goos.Action):
 
         # Adjust total number of iterations if we are resuming.
         options = copy.deepcopy(self._options)
-        if "maxiter" in options:
-            options["maxiter"] -= start_iter
+        if "maxiter" in options["options"]:
+            options["options"]["maxiter"] -= start_iter
+            if options["options"]["maxiter"] <= 0:
+                # All the iterations were completed before the resume.
+                return
 
         initial_val = np.hstack(initial_val)
         self._results = scipy.optimize.minimize(func,
-- 
2.43.0


From 142794fa10078e0deb933c07b2fb1a2071e370e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 020/130] fix: apply every constraint of a goos optimization
 instead of only the last

---
 spins/goos/optimize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index edae194..6678f7d 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -150,13 +150,14 @@ class ScipyOptimizer(goos.Action):
             constraints = []
             for eq in self._cons_eq:
 
-                def cons_fun(x):
+                # Bind the loop variable as it changes after this iteration.
+                def cons_fun(x, eq=eq):
                     unpack_and_set(x)
                     val = plan.eval_node(eq).array
                     plan.logger.debug("Eq. cons. function evaluated: %f", val)
                     return val
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(eq, variables)
                     val = []
@@ -182,13 +183,13 @@ class ScipyOptimizer(goos.Action):
             for ineq in self._cons_ineq:
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     unpack_and_set(x)
                     val = plan.eval_node(ineq).array
                     plan.logger.debug("Ineq. cons. function evaluated: %f", val)
                     return -val
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(ineq, variables)
                     val = []
-- 
2.43.0


From f619083038101897ed54c31d4e767b4a8f03cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:39 +0000
Subject: [PATCH 021/130] fix: allow a parameter as the iteration counter of a
 goos optimization

---
 spins/goos/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 6678f7d..e0a10e6 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -230,7 +230,9 @@ class ScipyOptimizer(goos.Action):
             nonlocal iter_num
             iter_num += 1
             if self._iter:
-                plan.set_var_value(self._iter, iter_num)
+                plan.set_var_value(self._iter,
+                                   iter_num,
+                                   check_frozen=not self._iter._is_param)
 
             plan.write_event({
                 "state": "optimizing",
-- 
2.43.0


From 7b792ed9737bb398b11069f44e64f3797d5da2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:39 +0000
Subject: [PATCH 022/130] fix: allow adding a scalar to a sum of several goos
 vectors

---
 spins/goos/math.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index b96ff8b..49be440 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -222,14 +222,15 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
             ind = 0
 
     if not dom_flow:
-        # Check whether all flows but one is a scalar.
+        # Check whether all the flows that are not scalars have same shape.
         for i, flow in enumerate(flow_list):
             if np.size(flow.array) > 1:
                 if not dom_flow:
                     dom_flow = flow
                     ind = i
-                else:
-                    raise ValueError("Only one non-scalar is permitted.")
+                elif np.shape(flow.array) != np.shape(dom_flow.array):
+                    raise ValueError(
+                        "All non-scalars must have the same shape.")
 
     if not dom_flow:
         dom_flow = flow_list[0]
-- 
2.43.0


From 165bfdad2651eed524986a5ed18cc5888f127c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 023/130] fix: goos gradients of scalars that are stored as
 multi-dimensional arrays

---
 spins/goos/graph_executor.py |  4 +++-
 spins/goos/math.py           | 13 +++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 91e9360..2de6a28 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -290,7 +290,9 @@ def eval_grad(
     if override_map:
         for fun, flow in override_map.items():
             known_grads[id(fun)] = [flow[1]]
-    grad_vals[out_node] = flows.NumericFlow.Grad(np.array([1.0]))
+    out_ndim = np.ndim(getattr(fun_vals[out_node], "array", 1.0))
+    grad_vals[out_node] = flows.NumericFlow.Grad(
+        np.ones((1,) * max(out_ndim, 1)))
 
     def _eval_grad(node, input_vals, grad_val, context):
         context = goos.EvalContext(context)
diff --git a/spins/goos/math.py b/spins/goos/math.py
index 49be440..8c43308 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -244,8 +244,10 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
 
 def _sum_to_shape(grad: np.ndarray, value: np.ndarray) -> np.ndarray:
     """Sums a gradient over the axes along which `value` was broadcast."""
-    if np.size(value) == 1 and np.size(grad) > 1:
-        return np.reshape(np.sum(grad), np.shape(value))
+    if np.size(value) == 1:
+        grad = np.sum(grad)
+    if np.size(value) == np.size(grad):
+        grad = np.reshape(grad, np.shape(value))
     return grad
 
 
@@ -271,7 +273,10 @@ class Sum(Function):
         _, ind = find_dominant_numeric_flow(inputs, return_ind=True)
         for i in range(len(inputs)):
             if ind == i:
-                grads.append(copy.deepcopy(grad_val))
+                grad = copy.deepcopy(grad_val)
+                grad.array_grad = _sum_to_shape(grad.array_grad,
+                                                inputs[i].array)
+                grads.append(grad)
             else:
                 # Copy since gradients are accumulated in place.
                 grads.append(
@@ -329,7 +334,7 @@ class Product(Function):
         for i, grad in enumerate(grads):
             if ind == i:
                 flow = copy.deepcopy(grad_val)
-                flow.array_grad = grad
+                flow.array_grad = _sum_to_shape(grad, input_vals[i].array)
                 grad_flows.append(flow)
             else:
                 grad_flows.append(
-- 
2.43.0


From 63941c71fe4b0d81c5d8a430b6b00a5454f1b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:40 +0000
Subject: [PATCH 024/130] fix: do not hand out a reference to the value of a
 goos constant

---
 spins/goos/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 8c43308..d84c79e 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -82,7 +82,7 @@ class Constant(Function):
 
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
-        return flows.NumericFlow(self._value)
+        return flows.NumericFlow(self._value.copy())
 
     def grad(self, inputs: List[flows.NumericFlow],
              grad_val: flows.NumericFlow.Grad,
-- 
2.43.0


From 02a20626fd05001f15a8c4cdb3026093050f71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:56 +0000
Subject: [PATCH 025/130] fix: compare optplan versions as a whole instead of
 part by part

---
 spins/goos/optplan/schema.py             | 2 +-
 spins/invdes/problem_graph/optplan/io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optplan/schema.py b/spins/goos/optplan/schema.py
index 6f7d19f..f7d297c 100644
--- a/spins/goos/optplan/schema.py
+++ b/spins/goos/optplan/schema.py
@@ -448,7 +448,7 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 3:
+    if version_parts[:2] < [0, 3]:
         raise ValueError(
             "Optplan must be at least version 0.3.0, got {}".format(version))
 
diff --git a/spins/invdes/problem_graph/optplan/io.py b/spins/invdes/problem_graph/optplan/io.py
index 261dff3..f251385 100644
--- a/spins/invdes/problem_graph/optplan/io.py
+++ b/spins/invdes/problem_graph/optplan/io.py
@@ -286,7 +286,7 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 2 or version_parts[2] < 3:
+    if version_parts < [0, 2, 3]:
         raise ValueError(
             "Optplan must be at least version 0.2.1, got {}".format(version))
 
-- 
2.43.0


From 63d05904b455061468786f443d8514dd828595db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:56 +0000
Subject: [PATCH 026/130] fix: nodes created after loading a goos plan are not
 given names of loaded nodes

---
 spins/goos/optplan/optplan.py |  6 ++++++
 spins/goos/optplan/schema.py  | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 6eb7b92..b61fd2b 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -311,6 +311,12 @@ class OptimizationPlan:
         with open(os.path.join(save_folder, "optplan.json"), "r") as fp:
             plan = optplan.schema.loads(fp.read())
 
+        # Nodes that are created from now on (even the ones created by the
+        # nodes that are being loaded) must not be given the name of a node of
+        # the loaded plan.
+        for model in plan.nodes + (plan.actions or []):
+            optplan.schema.reserve_name(model.type, model.name)
+
         from schematics import models
 
         def process_field(model: models.Model,
diff --git a/spins/goos/optplan/schema.py b/spins/goos/optplan/schema.py
index f7d297c..4dc6532 100644
--- a/spins/goos/optplan/schema.py
+++ b/spins/goos/optplan/schema.py
@@ -272,6 +272,20 @@ def generate_name(model_type: str) -> str:
     return name
 
 
+def reserve_name(model_type: str, name: str) -> None:
+    """Makes sure that `generate_name` does not generate `name` again.
+
+    Args:
+        model_type: String model type of the node with name `name`.
+        name: Name that is already in use, e.g. by a node that was loaded.
+    """
+    prefix, _, num = name.rpartition(".")
+    if prefix == model_type and num.isdigit():
+        optplan.PROBLEM_GRAPH_NAME_MAP[model_type] = max(
+            optplan.PROBLEM_GRAPH_NAME_MAP.get(model_type, 0),
+            int(num) + 1)
+
+
 def _iter_optplan_fields(
         model: models.Model,
         visited: Set[int],
-- 
2.43.0


From 660955beb121e621e831a16526abf21ea4504e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 027/130] fix: Grid.ind2pos indexes with an integer and checks
 the upper bound

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index eb4d3c2..a04c13a 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -250,13 +250,13 @@ class Grid:
             else:
                 low_bound = -0.5
                 high_bound = -0.5
-            if (ind < low_bound).any() or (ind > self.shape - high_bound).any():
+            if (ind < low_bound).any() or (ind > self.shape + high_bound).any():
                 raise GridError('Position outside of grid: {}'.format(ind))
 
         if round_ind:
             rind = np.clip(np.round(ind), 0, self.shape - 1)
             sxyz = self.shifted_xyz(which_shifts, which_grid)
-            position = [sxyz[a][rind[a]].astype(int) for a in range(3)]
+            position = [sxyz[a][int(rind[a])] for a in range(3)]
         else:
             sexyz = self.shifted_exyz(which_shifts, which_grid)
             position = [
-- 
2.43.0


From c23ba9b3dfde6410c1c8c4ccad8f212cfb3bd371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 028/130] fix: Grid.fill_cuboid and fill_slab accept integer
 directions

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index a04c13a..c576152 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -627,7 +627,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
@@ -660,7 +660,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
-- 
2.43.0


From b7f46cceed59e29bac5d079357d19d4e74380c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 029/130] fix: Grid honors a per-axis periodic list

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index c576152..bc2b3a3 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -358,7 +358,7 @@ class Grid:
         if is_scalar(periodic):
             self.periodic = [periodic] * 3
         else:
-            self.periodic = [False] * 3
+            self.periodic = list(periodic)
 
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
-- 
2.43.0


From e4ca79fb2ab74608b25b6118200fe2bb00238a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 030/130] fix: Grid raises its errors about misshapen shifts

---
 spins/gridlock/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index bc2b3a3..068b4dd 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -363,19 +363,19 @@ class Grid:
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
         if self.shifts.shape[1] != 3:
-            GridError(
+            raise GridError(
                 'Misshapen shifts on the primary grid; second axis size should be 3,'
                 ' shape is {}'.format(self.shifts.shape))
         if self.comp_shifts.shape[1] != 3:
-            GridError(
+            raise GridError(
                 'Misshapen shifts on the complementary grid: second axis size should be 3,'
                 ' shape is {}'.format(self.comp_shifts.shape))
         if self.comp_shifts.shape[0] != self.shifts.shape[0]:
-            GridError(
+            raise GridError(
                 'Inconsistent number of shifts in the primary and complementary grid'
             )
         if not ((self.shifts >= 0).all() and (self.comp_shifts >= 0).all()):
-            GridError(
+            raise GridError(
                 'Shifts are required to be non-negative for both primary and complementary grid'
             )
 
-- 
2.43.0


From 09a1f07d35098e6e84ba3c98dfb31f02cb31bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 031/130] fix: Grid renders when there are fewer grids than
 shifts

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 068b4dd..296c7c4 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -964,7 +964,7 @@ class Grid:
                         eps=polygon[1])
 
         # Finally, adding the background permittivity
-        for i in range(0, self.shifts.shape[0]):
+        for i in range(len(self.grids)):
             self.grids[i] = self.grids[i] + self.grids_bg[i] * self.frac_bg[i]
 
     def get_slice(self,
-- 
2.43.0


From a69cd5df2ae795220f00af3b259dbf3ffab8839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 032/130] fix: Grid renders complex permittivities over real
 background arrays

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 296c7c4..8055437 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -403,7 +403,7 @@ class Grid:
                     if not np.array_equal(initial[i].shape, self.shape):
                         raise GridError(
                             'Initial grid sizes must match given coordinates')
-                    self.grids_bg[i] = initial[i]
+                    self.grids_bg[i] = np.array(initial[i], dtype=complex)
 
         if isinstance(ext_dir, Direction):
             self.ext_dir = ext_dir.value
-- 
2.43.0


From 62afdfd8ce4ca1ad73d120eb9d4812c6158c4fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 033/130] fix: Grid draws with a list of permittivities as
 documented

---
 spins/gridlock/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 8055437..b6ccc5e 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -494,8 +494,9 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
-        elif eps.ndim != 1 and eps.size != self.shifts.shape[0]:
-            raise GridErro(
+        eps = np.asarray(eps)
+        if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
+            raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
             )
         # Translating polygon by its center
@@ -526,6 +527,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.asarray(eps)
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
@@ -558,6 +560,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.asarray(eps)
 
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
@@ -598,6 +601,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.asarray(eps)
 
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
-- 
2.43.0


From bd3a916e50e0b039c294d6b7d016ff408c3d4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 034/130] fix: Grid.get_slice handles complex grids,
 sample_period and the last plane

---
 spins/gridlock/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index b6ccc5e..fec2a78 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -1010,6 +1010,7 @@ class Grid:
         center_index = self.pos2ind(
             center3, which_shifts, round_ind=False,
             check_bounds=False)[surface_normal]
+        center_index = min(center_index, self.shape[surface_normal] - 1)
         centers = np.unique([floor(center_index),
                              ceil(center_index)]).astype(int)
         if len(centers) == 2:
@@ -1024,11 +1025,11 @@ class Grid:
                 'Coordinate of selected plane must be within simulation domain')
 
         # Extract grid values from planes above and below visualized slice
-        sliced_grid = zeros(self.shape[surface])
+        sliced_grid = 0
         for ci, weight in zip(centers, w):
             s = tuple(
                 ci if a == surface_normal else np.s_[::sp] for a in range(3))
-            sliced_grid += weight * self.grids[which_shifts][tuple(s)]
+            sliced_grid = sliced_grid + weight * self.grids[which_shifts][s]
 
         # Remove extra dimensions
         sliced_grid = np.squeeze(sliced_grid)
-- 
2.43.0


From 6567586ffad99db55b3a0bc2d88677b6b20ce0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:08 +0000
Subject: [PATCH 035/130] fix: Grid does not truncate positions to integers

---
 spins/gridlock/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index fec2a78..f89ea4f 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -624,7 +624,7 @@ class Grid:
         is x, then the two elements correspond to y,z, if it is y then x,z and if it is z then x,y
         '''
         surf_center = np.array(surf_center)
-        surf_extent = np.array(surf_extent)
+        surf_extent = np.array(surf_extent, dtype=float)
 
         # Validating input arguments
         if isinstance(fill_dir, Direction):
@@ -804,7 +804,7 @@ class Grid:
 
         def to_3D(vector: List or np.ndarray,
                   z: float = 0.5 * (z_extent[0] + z_extent[1])):
-            return np.insert(vector, self.ext_dir, z)
+            return np.insert(np.asarray(vector, dtype=float), self.ext_dir, z)
 
         def get_zi(z: float, which_shifts: float):
             pos_3D = to_3D([0, 0], z)
@@ -1006,7 +1006,7 @@ class Grid:
         surface = np.delete(range(3), surface_normal)
 
         # Extract indices and weights of planes
-        center3 = np.insert([0, 0], surface_normal, (center,))
+        center3 = np.insert([0.0, 0.0], surface_normal, (center,))
         center_index = self.pos2ind(
             center3, which_shifts, round_ind=False,
             check_bounds=False)[surface_normal]
-- 
2.43.0


From 6d2f4ff45d022769247ad6c84e9b4303d0ae1705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 036/130] fix: fields of shape gradients are summed once when a
 shape is used twice

---
 spins/goos/flows.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 748f412..c37c1f4 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -95,14 +95,17 @@ class FlowMeta(type):
                                                   grad_fields,
                                                   bases=grad_bases)
 
+            # Fields of the base classes are summed by the base classes.
+            own_fields = [
+                field for field in grad_fields
+                if not any(field[0] in getattr(base, "__dataclass_fields__", {})
+                           for base in grad_bases)
+            ]
+
             def __iadd__(self, value):
-                for field in grad_fields:
-                    field_val = getattr(self, field[0])
-                    value_val = getattr(value, field[0])
-                    try:
-                        field_val.__iadd__(value_val)
-                    except AttributeError:
-                        setattr(self, field[0], value_val + field_val)
+                for field in own_fields:
+                    setattr(self, field[0],
+                            getattr(self, field[0]) + getattr(value, field[0]))
                 return super(cls.Grad, self).__iadd__(value)
 
             cls.Grad.__iadd__ = __iadd__
-- 
2.43.0


From 8072c608b5fc8134fe1ca97a5ee29e098ca29bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 037/130] fix: rendering gradient weights all field components
 equally

---
 spins/goos_sim/maxwell/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/goos_sim/maxwell/render.py b/spins/goos_sim/maxwell/render.py
index ecd2c4e..4b2632b 100644
--- a/spins/goos_sim/maxwell/render.py
+++ b/spins/goos_sim/maxwell/render.py
@@ -151,10 +151,11 @@ class PixelatedContShapeFlowImpl(GeometryImpl):
             ]
             mat = get_rendering_matrix(shape_coords, grid_coords)
             grid_vals = contrast * mat.T @ grid.grids[axis].flatten()
-            grad += np.real(np.reshape(grid_vals, self.shape.array.shape))
+            axis_grad = np.real(np.reshape(grid_vals, self.shape.array.shape))
             # TODO(logansu): Fix complex gradient.
             if np.iscomplexobj(grid_vals):
-                grad *= 2
+                axis_grad = 2 * axis_grad
+            grad += axis_grad
 
         return goos.PixelatedContShapeFlow.Grad(array_grad=grad)
 
-- 
2.43.0


From 9c221486e22156c786b5cc1c4c7334b13fd98b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 038/130] fix: shapes at integer positions can be translated by
 fractions

---
 spins/goos/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index c1bac0c..f35b412 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -509,7 +509,7 @@ class TranslateShape(Shape):
 
     def eval(self, inputs: List[ShapeFlow]) -> ShapeFlow:
         flow = copy.deepcopy(inputs[0])
-        flow.pos += self._offset
+        flow.pos = flow.pos + np.asarray(self._offset)
         return flow
 
     def grad(self, inputs: List[ShapeFlow],
-- 
2.43.0


From f5f80b0ef2d1600c0280c3922f11996f826428c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 039/130] fix: cuboid accepts an array as rotation

---
 spins/goos/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index f35b412..68c1e7e 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -78,7 +78,7 @@ def cuboid(extents, pos, rot=None, **kwargs):
         extents = goos.Constant(extents)
     if not isinstance(pos, goos.Function):
         pos = goos.Constant(pos)
-    if rot and not isinstance(rot, goos.Function):
+    if rot is not None and not isinstance(rot, goos.Function):
         rot = goos.Constant(rot)
 
     return Cuboid(extents, pos, rot, **kwargs)
-- 
2.43.0


From 4d2ece61f3716cf4f1fd88989bb74c0f56623e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 040/130] fix: pixelated shapes have as many pixels as edge
 coordinates

---
 spins/goos/shapes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index 68c1e7e..8de6bcd 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -252,10 +252,7 @@ class PixelatedContShapeFlow(ShapeFlow, goos.NumericFlow):
         # Compute edge coordinates assuming that each pixel is `pixel_size`
         # large.
         edge_coords = []
-        for i in range(len(extents)):
-            num_pixels = np.ceil(extents[i] / pixel_size[i])
-            if num_pixels * pixel_size[i] < extents[i]:
-                num_pixels += 1
+        for i, num_pixels in enumerate(cls.get_shape(extents, pixel_size)):
             coord = pixel_size[i] * np.arange(0, num_pixels + 1)
             edge_coords.append(coord - (coord[0] + coord[-1]) / 2)
 
-- 
2.43.0


From 89a3c40d700e345b198f9096bf9eb83cd5ac58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 041/130] fix: make_slice honors index 0

---
 spins/goos/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/goos/util.py b/spins/goos/util.py
index d252826..3508d55 100644
--- a/spins/goos/util.py
+++ b/spins/goos/util.py
@@ -148,10 +148,10 @@ def make_slice(
     if z == "center":
         z = shape[2] // 2
 
-    if x:
+    if x is not None:
         slicer[0] = slice(x, x + 1)
-    if y:
+    if y is not None:
         slicer[1] = slice(y, y + 1)
-    if z:
+    if z is not None:
         slicer[2] = slice(z, z + 1)
     return tuple(slicer)
-- 
2.43.0


From 28f88412fa1827401bdcdffd999dcc54b7595665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 042/130] fix: SchemaRegistryStack.push pushes the registry

---
 spins/goos/schema_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/schema_registry.py b/spins/goos/schema_registry.py
index c1e575e..99dfc25 100644
--- a/spins/goos/schema_registry.py
+++ b/spins/goos/schema_registry.py
@@ -45,7 +45,7 @@ class SchemaRegistryStack:
     def push(self, registry: SchemaRegistry = None):
         if not registry:
             registry = SchemaRegistry()
-        self._stack.append(context)
+        self._stack.append(registry)
 
     def pop(self):
         return self._stack.pop()
-- 
2.43.0


From a7ae3a82175b2428276104da3e0c0674a97f81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:17 +0000
Subject: [PATCH 043/130] fix: rastering keeps intersections on the bounding
 box of the polygon

---
 spins/gridlock/float_raster.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spins/gridlock/float_raster.py b/spins/gridlock/float_raster.py
index f7fffe4..2dea251 100644
--- a/spins/gridlock/float_raster.py
+++ b/spins/gridlock/float_raster.py
@@ -313,18 +313,25 @@ def _expand_polygon_vertices(poly_xy: np.ndarray,
     #       Final y:   [y1, y2 ............. ym, yn, yn ...n times... yn]
     # where the first `m` coordinates correspond to the `m` horizontal gridlines
     # and the next `n` coordinates correspond to the `n` vertical gridlines.
+    # The gridlines extend beyond the bounding box so that the intersections
+    # with polygon segments on the bounding box are not lost to round-off.
+    pad_x, pad_y = max_coords - min_coords
     # Setup a tuple of the initial and final x coordinates (stored as 1D
     # arrays).
-    x_coords_grid = (np.hstack((np.full_like(local_grid_y, local_grid_x[0]),
+    x_coords_grid = (np.hstack((np.full_like(local_grid_y,
+                                             local_grid_x[0] - pad_x),
                                 local_grid_x)),
-                     np.hstack((np.full_like(local_grid_y, local_grid_x[-1]),
+                     np.hstack((np.full_like(local_grid_y,
+                                             local_grid_x[-1] + pad_x),
                                 local_grid_x)))
     # Setup a tuple of the initial and final y coordinates (stored as 1D
     # arrays).
     y_coords_grid = (np.hstack((local_grid_y,
-                                np.full_like(local_grid_x, local_grid_y[0]))),
+                                np.full_like(local_grid_x,
+                                             local_grid_y[0] - pad_y))),
                      np.hstack((local_grid_y,
-                                np.full_like(local_grid_x, local_grid_y[-1]))))
+                                np.full_like(local_grid_x,
+                                             local_grid_y[-1] + pad_y))))
 
     # Perform the intersection computation. Note that this computation returns
     # an adjacency matrix indicating which segments of the polygon intersect
@@ -444,7 +451,7 @@ def raster_2D(poly_xy: np.ndarray,
 
     # If the shape fell completely outside our area, just return a blank grid.
     if vertices.size == 0:
-        return zeros((grid_x.size - 1, grid_y.size - 1))
+        return np.zeros((grid_x.size - 1, grid_y.size - 1))
     # Calculate segment cover, area, and corresponding pixel's subscripts.
     poly = np.hstack((vertices, vertices[0]))
     endpoint_avg = (poly[:-1] + poly[1:]) * 0.5
-- 
2.43.0


From 8baa60ad197a541f3c22ab33bf398f2f50645408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 044/130] fix: average_2xFarEdge averages each pixel with the
 next one, as documented

---
 spins/gridlock/selection_matrix.py       | 19 +++++++++----------
 spins/invdes/problem/selection_matrix.py | 16 +++++++---------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/spins/gridlock/selection_matrix.py b/spins/gridlock/selection_matrix.py
index 55fd8a2..d97a177 100644
--- a/spins/gridlock/selection_matrix.py
+++ b/spins/gridlock/selection_matrix.py
@@ -47,9 +47,8 @@ def average_2xFarEdge(grid_size, design_bounds):
     # X grid averages pixels adjacent in x.
     I0 = scipy.sparse.identity(design_area[0], format='csr')
 
-    I0_shift_x = scipy.sparse.hstack([I0[:, 1:], I0[:, :1]], format='csr')
-    I0_shift_x[-1, 0] = 0
-    I0_shift_x[-1, -1] = 1
+    # The last pixel is averaged with itself.
+    I0_shift_x = scipy.sparse.vstack([I0[1:, :], I0[-1:, :]], format='csr')
 
     Sx_flat_block = scipy.sparse.vstack((zero_padding_l,
                                          (I0 + I0_shift_x) / 2, zero_padding_r),
@@ -64,14 +63,14 @@ def average_2xFarEdge(grid_size, design_bounds):
     Sy_flat_preshift = scipy.sparse.block_diag(
         [Sy_flat_block] * design_area[1], format='csr')
 
-    Sy_flat_shift = scipy.sparse.hstack((Sy_flat_preshift[:, design_area[0]:],
-                                         Sy_flat_preshift[:, :design_area[0]]),
-                                        format='csr')
-    excess = Sy_flat_shift[:, 0:design_area[0]]
-    # Undo circular part of shift.
-    Sy_flat_shift[:, 0:design_area[0]] = 0
+    num_rows, num_cols = Sy_flat_preshift.shape
+    Sy_flat_shift = scipy.sparse.hstack(
+        (scipy.sparse.csr_matrix((num_rows, design_area[0])),
+         Sy_flat_preshift[:, :num_cols - design_area[0]]),
+        format='csr')
     # Double-up on stuff that doesn't have a second.
-    Sy_flat_shift[:, -design_area[0]:] += excess
+    Sy_flat_shift[:, num_cols - design_area[0]:] += (
+        Sy_flat_preshift[:, num_cols - design_area[0]:])
 
     Sy_flat = scipy.sparse.vstack(
         (zero_padding_t, (Sy_flat_preshift + Sy_flat_shift) / 2,
diff --git a/spins/invdes/problem/selection_matrix.py b/spins/invdes/problem/selection_matrix.py
index 38743e7..3fcda7d 100644
--- a/spins/invdes/problem/selection_matrix.py
+++ b/spins/invdes/problem/selection_matrix.py
@@ -41,9 +41,8 @@ def average_2xFarEdge(grid_size, design_bounds):
     # X grid averages pixels adjacent in x.
     I0 = scipy.sparse.identity(design_area[0], format='csr')
 
-    I0_shift_x = scipy.sparse.hstack([I0[:, 1:], I0[:, :1]], format='csr')
-    I0_shift_x[-1, 0] = 0
-    I0_shift_x[-1, -1] = 1
+    # The last pixel is averaged with itself.
+    I0_shift_x = scipy.sparse.vstack([I0[1:, :], I0[-1:, :]], format='csr')
 
     Sx_flat_block = scipy.sparse.vstack(
         (zero_padding_l, (I0 + I0_shift_x) / 2, zero_padding_r), format='csr')
@@ -57,15 +56,14 @@ def average_2xFarEdge(grid_size, design_bounds):
     Sy_flat_preshift = scipy.sparse.block_diag(
         [Sy_flat_block] * design_area[1], format='csr')
 
+    num_rows, num_cols = Sy_flat_preshift.shape
     Sy_flat_shift = scipy.sparse.hstack(
-        (Sy_flat_preshift[:, design_area[0]:],
-         Sy_flat_preshift[:, :design_area[0]]),
+        (scipy.sparse.csr_matrix((num_rows, design_area[0])),
+         Sy_flat_preshift[:, :num_cols - design_area[0]]),
         format='csr')
-    excess = Sy_flat_shift[:, 0:design_area[0]]
-    # Undo circular part of shift.
-    Sy_flat_shift[:, 0:design_area[0]] = 0
     # Double-up on stuff that doesn't have a second.
-    Sy_flat_shift[:, -design_area[0]:] += excess
+    Sy_flat_shift[:, num_cols - design_area[0]:] += (
+        Sy_flat_preshift[:, num_cols - design_area[0]:])
 
     Sy_flat = scipy.sparse.vstack(
         (zero_padding_t, (Sy_flat_preshift + Sy_flat_shift) / 2,
-- 
2.43.0


From c5617185f83164718e3a6490b26415341bc715a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:44 +0000
Subject: [PATCH 045/130] fix: functional.e_full divides by the permeability

---
 spins/fdfd_tools/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/fdfd_tools/functional.py b/spins/fdfd_tools/functional.py
index c0fd2d9..38ea02a 100644
--- a/spins/fdfd_tools/functional.py
+++ b/spins/fdfd_tools/functional.py
@@ -84,7 +84,7 @@ def e_full(omega: complex,
         return [c - omega**2 * e * x for c, e, x in zip(curls, epsilon, e)]
 
     def op_mu(e):
-        curls = ch([m * y for m, y in zip(mu, ce(e))])
+        curls = ch([y / m for m, y in zip(mu, ce(e))])
         return [c - omega**2 * p * x for c, p, x in zip(curls, epsilon, e)]
 
     if np.any(np.equal(mu, None)):
-- 
2.43.0


From 9fa6a47a6fa81a5c46be14f5daa4baf6602599c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:44 +0000
Subject: [PATCH 046/130] fix: make_nonuniform_grid keeps both borders and the
 default mesh of each axis

---
 spins/fdfd_tools/grid.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/spins/fdfd_tools/grid.py b/spins/fdfd_tools/grid.py
index f769a1f..4188bc7 100644
--- a/spins/fdfd_tools/grid.py
+++ b/spins/fdfd_tools/grid.py
@@ -217,8 +217,8 @@ def make_nonuniform_grid(SimBorders: List[int],
     y = np.linspace(np.floor(SimBorders[2]), np.ceil(SimBorders[3]), NY + 1)
     z = np.linspace(np.floor(SimBorders[4]), np.ceil(SimBorders[5]), NZ + 1)
     dx = dx_default[0] * np.ones((1, NX + 1))
-    dy = dx_default[0] * np.ones((1, NY + 1))
-    dz = dx_default[0] * np.ones((1, NZ + 1))
+    dy = dx_default[1] * np.ones((1, NY + 1))
+    dz = dx_default[2] * np.ones((1, NZ + 1))
 
     # define a function that makes a dx vector with DX in between x0 and xn and
     # that increases outside of the [x0, xn] with grad_mesh
@@ -249,20 +249,25 @@ def make_nonuniform_grid(SimBorders: List[int],
     dyv = np.amin(dy, axis=0)
     dzv = np.amin(dz, axis=0)
 
+    # scale the mesh so that it spans exactly the simulation borders
+    def rescale(mesh, start, end):
+        mesh = np.array(mesh)
+        return start + (mesh - start) * (end - start) / (mesh[-1] - start)
+
     # make the mesh: start at the simulation border and take step with the mesh
     # size give at that point
     xs = [SimBorders[0]]
     while xs[-1] < SimBorders[1]:
         xs = xs + [xs[-1] + dxv[int((xs[-1] - x[0]) // step)]]
-    xs = (xs / np.max(xs) * SimBorders[1])
+    xs = rescale(xs, SimBorders[0], SimBorders[1])
     ys = [SimBorders[2]]
     while ys[-1] < SimBorders[3]:
         ys = ys + [ys[-1] + dyv[int((ys[-1] - y[0]) // step)]]
-    ys = (ys / np.max(ys) * SimBorders[3])
+    ys = rescale(ys, SimBorders[2], SimBorders[3])
     zs = [SimBorders[4]]
     while zs[-1] < SimBorders[5]:
         zs = zs + [zs[-1] + dzv[int((zs[-1] - z[0]) // step)]]
-    zs = (zs / np.max(zs) * SimBorders[5])
+    zs = rescale(zs, SimBorders[4], SimBorders[5])
 
     # return results
     return xs, ys, zs
-- 
2.43.0


From 57f277fe5dc2412265033552e9733c4b755095e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 047/130] fix: eh_full accepts the default permeability

---
 spins/fdfd_tools/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_tools/operators.py b/spins/fdfd_tools/operators.py
index ffedcb6..398656d 100644
--- a/spins/fdfd_tools/operators.py
+++ b/spins/fdfd_tools/operators.py
@@ -226,9 +226,10 @@ def eh_full(omega: complex,
         pm = sparse.diags(np.where(pmc, 0, 1))  # set pm to (not PMC)
 
     iwe = pe @ (1j * omega * sparse.diags(epsilon)) @ pe
-    iwm = 1j * omega
-    if not np.any(np.equal(mu, None)):
-        iwm *= sparse.diags(mu)
+    if np.any(np.equal(mu, None)):
+        iwm = 1j * omega * sparse.eye(epsilon.size)
+    else:
+        iwm = 1j * omega * sparse.diags(mu)
     iwm = pm @ iwm @ pm
 
     A1 = pe @ curl_h(dxes, bloch_vec, shift_orthogonal) @ pm
-- 
2.43.0


From 4c32514e7cae92ee3e1945421f574e4b250ee9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:25 +0000
Subject: [PATCH 048/130] fix: the tolerance of the iterative FDFD solvers is
 relative to the source

---
 spins/fdfd_solvers/local_matrix_solvers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/spins/fdfd_solvers/local_matrix_solvers.py b/spins/fdfd_solvers/local_matrix_solvers.py
index 7186b06..bab5cac 100644
--- a/spins/fdfd_solvers/local_matrix_solvers.py
+++ b/spins/fdfd_solvers/local_matrix_solvers.py
@@ -137,8 +137,7 @@ class QmrSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.qmr(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.qmr(A, b, tol=self.relative_tol, atol=0)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
@@ -158,8 +157,7 @@ class BiCgSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.bicg(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.bicg(A, b, tol=self.relative_tol, atol=0)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
-- 
2.43.0


From 1425c6bc30993d975566716d98fe1f85e6c19051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:25 +0000
Subject: [PATCH 049/130] fix: FDFD solves with PEC are not singular

---
 spins/fdfd_solvers/local_matrix_solvers.py | 5 +++++
 spins/fdfd_tools/solvers.py                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spins/fdfd_solvers/local_matrix_solvers.py b/spins/fdfd_solvers/local_matrix_solvers.py
index bab5cac..c1b47fc 100644
--- a/spins/fdfd_solvers/local_matrix_solvers.py
+++ b/spins/fdfd_solvers/local_matrix_solvers.py
@@ -64,6 +64,11 @@ class LocalMatrixSolver:
             pmc=pmc,
             bloch_vec=bloch_vec)
 
+        # The wave operator vanishes in PEC cells, where the field is zero.
+        if pec is not None:
+            A0 = A0 + scipy.sparse.diags(np.where(pec, 1, 0))
+            b0 = np.where(pec, 0, b0)
+
         Pl, Pr = operators.e_full_preconditioners(dxes)
 
         if adjoint:
diff --git a/spins/fdfd_tools/solvers.py b/spins/fdfd_tools/solvers.py
index 4bd1361..ff81324 100644
--- a/spins/fdfd_tools/solvers.py
+++ b/spins/fdfd_tools/solvers.py
@@ -93,6 +93,11 @@ def generic(
     b0 = -1j * omega * J
     A0 = operators.e_full(omega, dxes, epsilon=epsilon, mu=mu, pec=pec, pmc=pmc)
 
+    # The wave operator vanishes in PEC cells, where the field is zero.
+    if pec is not None:
+        A0 = A0 + scipy.sparse.diags(np.where(pec, 1, 0))
+        b0 = np.where(pec, 0, b0)
+
     Pl, Pr = operators.e_full_preconditioners(dxes)
 
     if adjoint:
-- 
2.43.0


From e8169cfda5330c46dc0d200e3367834085faa060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:25 +0000
Subject: [PATCH 050/130] fix: the QMR wrapper calls the given callback instead
 of itself

---
 spins/fdfd_tools/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/fdfd_tools/solvers.py b/spins/fdfd_tools/solvers.py
index ff81324..eb80fb6 100644
--- a/spins/fdfd_tools/solvers.py
+++ b/spins/fdfd_tools/solvers.py
@@ -33,10 +33,11 @@ def _scipy_qmr(A: scipy.sparse.csr_matrix, b: np.ndarray,
             print('Solver residual at iteration', iter, ':', norm(A @ xk - b))
 
     if 'callback' in kwargs:
+        callback = kwargs['callback']
 
         def augmented_callback(xk):
             print_residual(xk)
-            kwargs['callback'](xk)
+            callback(xk)
 
         kwargs['callback'] = augmented_callback
     else:
-- 
2.43.0


From 7fc034feef67b39a9f3450b2a790bcef2daf6418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:25 +0000
Subject: [PATCH 051/130] fix: the photonic crystal mode solver returns several
 E-field modes

---
 spins/fdfd_solvers/phc_mode_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spins/fdfd_solvers/phc_mode_solver.py b/spins/fdfd_solvers/phc_mode_solver.py
index 8140143..39655d3 100644
--- a/spins/fdfd_solvers/phc_mode_solver.py
+++ b/spins/fdfd_solvers/phc_mode_solver.py
@@ -150,9 +150,6 @@ def mode_solver(bloch_vec: np.ndarray,
     omega = np.sqrt(eig_value)
 
     if op_type == 'efield':
-        if len(eig_value) == 1:
-            mode_field = eps_norm @ mode_field
-        else:
-            mode_field = [eps_norm @ mode for mode in mode_field]
+        mode_field = eps_norm @ mode_field
 
     return omega, mode_field.transpose()
-- 
2.43.0


From ff3fe06320ccf72fca845622e376c42cce5c2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 052/130] fix: the Maxwell solver uploads whole files after a
 connection error

---
 spins/fdfd_solvers/maxwell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 567787d..0368460 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -24,6 +24,8 @@ def upload_files(server_url: str, directory: str, filenames: List[str]):
             succeeded = False
             while not succeeded:
                 try:
+                    # A failed attempt may have read the file already.
+                    f.seek(0)
                     requests.post(server_url,
                                   data={'key': filename},
                                   files={'file': f})
-- 
2.43.0


From a3aa280ae2f7868439ae4ca49928727727e44dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 053/130] fix: adjoint fields of the Maxwell solver inside the
 PML

---
 spins/fdfd_solvers/maxwell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 0368460..184ad37 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -204,7 +204,7 @@ class MaxwellSolver:
             ]
             new_J = fdfd_tools.unvec(J, shape)
             for k in range(3):
-                new_J[k] /= np.conj(s[k])
+                new_J[k] /= s[k]
             J = fdfd_tools.vec(new_J)
 
         # Generate ID based on date, time, and UUID.
@@ -392,7 +392,7 @@ class MaxwellSolver:
         # Undo right preconditioner for adjoint calculations.
         if adjoint:
             for i in range(3):
-                E[i] = np.multiply(E[i], np.conj(s[i]))
+                E[i] = np.multiply(E[i], s[i])
 
         # Remove downloaded files.
         if solver_info:
-- 
2.43.0


From 242fa202b3f3faafeee26878774c9878f03fb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 054/130] fix: adjoint solves of the Maxwell solver with
 symmetry

---
 spins/fdfd_solvers/maxwell.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 184ad37..de22c7b 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -387,13 +387,12 @@ class MaxwellSolver:
                 with h5py.File(file_prefix + 'i') as f:
                     field_comp += 1j * f['data'][:].astype(np.complex128)
                 E.append(field_comp)
+            # Undo right preconditioner for adjoint calculations.
+            if adjoint:
+                for i in range(3):
+                    E[i] = np.multiply(E[i], s[i])
             E = apply_symmetry(E, symmetry)
 
-        # Undo right preconditioner for adjoint calculations.
-        if adjoint:
-            for i in range(3):
-                E[i] = np.multiply(E[i], s[i])
-
         # Remove downloaded files.
         if solver_info:
             file_prefix = os.path.join(download_dir, sim_name_prefix)
-- 
2.43.0


From 9ae73b379c14ef8ce406343a2f79ec1b5a2a5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 055/130] fix: the Maxwell solver does not modify the
 boundaries it is given

---
 spins/fdfd_solvers/maxwell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index de22c7b..b79a8fb 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -127,6 +127,7 @@ class MaxwellSolver:
             symmetry = np.zeros(3)
         if pemc is None:
             pemc = np.zeros(6)
+        pemc = np.array(pemc)
 
         server_url = 'http://' + self.server + '/'
 
-- 
2.43.0


From 8ca32bda7554503e61f682adccbb22c178b0e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 056/130] fix: the Maxwell solver downloads the solver info
 that it returns

---
 spins/fdfd_solvers/maxwell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index b79a8fb..0b78659 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -312,6 +312,9 @@ class MaxwellSolver:
                 for quad in 'ri'
             ]
 
+        if solver_info:
+            filenames += [sim_name_prefix + 'time_info', sim_name_prefix + 'status']
+
         download_files(server_url, download_dir, filenames)
 
         # define apply_symmetry
-- 
2.43.0


From 4bf0f1c84e5c9f7562a568d2d240aaba542ba699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:41 +0000
Subject: [PATCH 057/130] fix: the waveguide mode solver warns about lossy
 materials instead of failing

---
 spins/fdfd_solvers/waveguide_mode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spins/fdfd_solvers/waveguide_mode.py b/spins/fdfd_solvers/waveguide_mode.py
index da605ec..a34ffc7 100644
--- a/spins/fdfd_solvers/waveguide_mode.py
+++ b/spins/fdfd_solvers/waveguide_mode.py
@@ -3,6 +3,7 @@ import numpy as np
 import scipy.sparse as sparse
 import scipy.sparse.linalg as spalg
 from typing import Dict, List
+import warnings
 
 from spins.fdfd_tools import vec, unvec, dx_lists_t, vfield_t, field_t
 from spins.fdfd_tools import operators, waveguide, functional
-- 
2.43.0


From c9e5410b016cb8f24c7d4c20dcc8b9ebbc0fb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:32 +0000
Subject: [PATCH 058/130] fix: dipole sources keep their phase in a medium of
 real permittivity

---
 spins/fdfd_solvers/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/fdfd_solvers/dipole.py b/spins/fdfd_solvers/dipole.py
index 655dfe6..d8d42d6 100644
--- a/spins/fdfd_solvers/dipole.py
+++ b/spins/fdfd_solvers/dipole.py
@@ -29,7 +29,7 @@ def build_dipole_source(omega: complex, dxes: List[np.ndarray],
     # The 0.0266 constant is an empirically determined constant.
     j_norm = np.sqrt(power) / np.sqrt(0.02661928208866846 * (omega**2 * dx**3))
 
-    J = np.zeros_like(eps)
+    J = np.zeros_like(eps, dtype=complex)
     J[int(axis)][tuple(position)] = 1 / eps_source * j_norm * phase / abs(phase)
 
     return J
-- 
2.43.0


From 8dc379954985ef583f00f715b2cf8fb2cd16f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:32 +0000
Subject: [PATCH 059/130] fix: goos simulations accept a real permittivity

---
 spins/goos_sim/maxwell/simulate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index c818a92..3881726 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -503,7 +503,7 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         if self._last_eps is None or self._last_eps != input_vals[0]:
             eps = input_vals[0].array
             sim = FdfdSimProp(eps=eps,
-                              source=np.zeros_like(eps),
+                              source=np.zeros_like(eps, dtype=complex),
                               wlen=self._wlen,
                               dxes=self._dxes,
                               pml_layers=self._pml_layers,
@@ -541,7 +541,7 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
              grad_val: goos.ArrayFlow.Grad) -> List[goos.Flow.Grad]:
         eps = input_vals[0].array
         sim = FdfdSimProp(eps=eps,
-                          source=np.zeros_like(eps),
+                          source=np.zeros_like(eps, dtype=complex),
                           wlen=self._wlen,
                           dxes=self._dxes,
                           pml_layers=self._pml_layers,
-- 
2.43.0


From 0b4ed3d98d6be105a91cf4e1b100d4032f8d0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:32 +0000
Subject: [PATCH 060/130] fix: goos simulation outputs without gradient raise
 NotImplementedError

---
 spins/goos_sim/maxwell/simulate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index 3881726..df7a9b3 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -224,14 +224,14 @@ class SimOutputImpl:
         pass
 
     def eval(self, sim: FdfdSimProp) -> goos.Flow:
-        raise NotImplemented("{} cannot be evaluated.".format(type(self)))
+        raise NotImplementedError("{} cannot be evaluated.".format(type(self)))
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.Flow.Grad) -> None:
         # If an implementation is not provided, then the gradient must be
         # `None` to indicate that the gradient is not needed.
         if grad_val:
-            raise NotImplemented(
+            raise NotImplementedError(
                 "Cannot differentiate with respect to {}".format(type(self)))
 
 
-- 
2.43.0


From 4d5f17289cff5feaca0853f74a2a1cbeca5e288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:32 +0000
Subject: [PATCH 061/130] fix: the goos Maxwell solver uses the requested
 algorithm

---
 spins/goos_sim/maxwell/simulate.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index df7a9b3..b08376c 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -21,6 +21,14 @@ DIRECT_SOLVER = local_matrix_solvers.MultiprocessingSolver(
     local_matrix_solvers.DirectSolver())
 
 
+# Names of the algorithms as used by `fdfd_solvers.maxwell.MaxwellSolver`.
+MAXWELL_SOLVERS = {
+    "maxwell_cg": "CG",
+    "maxwell_bicgstab": "biCGSTAB",
+    "maxwell_eig": "Jacobi-Davidson",
+}
+
+
 @dataclasses.dataclass
 class FdfdSimProp:
     """Represents properties of a FDFD simulation."""
@@ -429,7 +437,7 @@ class MaxwellSolverImpl:
         if server is None:
             server = os.getenv("MAXWELL_SERVER", "localhost:9041")
         self._solver = MaxwellSolver(dims,
-                                     solver=solver.solver,
+                                     solver=MAXWELL_SOLVERS[solver.solver],
                                      server=server,
                                      err_thresh=solver.err_thresh,
                                      max_iters=solver.max_iters)
-- 
2.43.0


From 6c8622195552e653f249f001f87679827aa62eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 062/130] fix: an objective times an array is a product instead
 of a sum

---
 spins/invdes/problem/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 028924a..17513bd 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -147,7 +147,7 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
         if isinstance(obj, numbers.Number):
             return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, np.ndarray):
-            return Sum([self, Constant(obj)], parallelize=False)
+            return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, OptimizationFunction):
             return Product([self, obj])
         raise TypeError("Attempting to add unknown object to objective")
-- 
2.43.0


From d87a212b7131164eb9ed4b6271a3730a80196c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 063/130] fix: products of objectives accept factors of
 different shapes and types

---
 spins/invdes/problem/objective.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 17513bd..4d75357 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -580,7 +580,7 @@ class Product(OptimizationFunction):
     def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
         total = 1.0
         for obj in input_vals:
-            total *= obj
+            total = total * obj
         return total
 
     def grad(self, input_vals: List[np.ndarray],
@@ -588,9 +588,11 @@ class Product(OptimizationFunction):
         grads = []
         for i in range(len(input_vals)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_vals[:i], axis=0)
-            prod_after = np.prod(input_vals[i + 1:], axis=0)
-            grads.append(prod_before * prod_after * grad_val)
+            # The values need not have the same shape or type.
+            prod = grad_val
+            for val in input_vals[:i] + input_vals[i + 1:]:
+                prod = prod * val
+            grads.append(prod)
         return grads
 
     def __mul__(self, obj):
-- 
2.43.0


From fd8368ca610477b651d5525982a0a87c30784d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 064/130] fix: objective constants copy their value, as
 documented

---
 spins/invdes/problem/objective.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 4d75357..e7e1dad 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -8,6 +8,7 @@ objectives.
 
 import abc
 import concurrent.futures
+import copy
 import numbers
 from typing import List, Union
 
@@ -377,7 +378,7 @@ class Constant(OptimizationFunction):
         """
         super().__init__([])
 
-        self.value = value
+        self.value = copy.copy(value)
         self.value_shape = np.array(self.value).shape
 
     def calculate_objective_function(self, param: Parametrization) -> float:
-- 
2.43.0


From 6ab6b3dbf91fd157449e8de003bb645a7869e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 065/130] fix: objective constants can be raised to constants

---
 spins/invdes/problem/objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index e7e1dad..2598eff 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -421,6 +421,8 @@ class Constant(OptimizationFunction):
         return Constant(-self.value)
 
     def __pow__(self, obj):
+        if isinstance(obj, Constant):
+            return Constant(self.value**obj.value)
         return Constant(self.value**obj)
 
     def __str__(self):
-- 
2.43.0


From 53f196e6e75462a3cf504f45553154f59ff1e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 066/130] fix: do not run a heavy objective together with its
 own input

---
 spins/invdes/problem/graph_executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index f214d71..7b85aff 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -151,6 +151,8 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
                 node = next(node_iter)
 
             # Figure out block of heavy compute nodes.
+            # A node whose input is part of the block has to wait for the block
+            # to complete.
             heavy_node_block = []
             # Keep track of whether we reached the last node in the graph.
             # This is necessary because if the last node happens to be a heavy
@@ -158,7 +160,8 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and
+                       not set(graph[node]) & set(heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -287,7 +290,10 @@ def eval_grad(fun: "OptimizationFunction",
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A node that is an input of the block needs the gradients that
+                # are computed by the block.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[node_] for node_ in heavy_node_block):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
-- 
2.43.0


From bd46995fac90ed68c7ab68b8e7593604bcbfa20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 067/130] fix: gradients of real and complex uses of an
 objective can be summed

---
 spins/invdes/problem/graph_executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index 7b85aff..a75fc98 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -281,7 +281,8 @@ def eval_grad(fun: "OptimizationFunction",
                     # Update the gradient values.
                     for next_node, next_fun_grad in zip(graph[node],
                                                         node_grad_vals):
-                        grad_vals[next_node] += next_fun_grad
+                        grad_vals[
+                            next_node] = grad_vals[next_node] + next_fun_grad
 
                 node = next(node_iter)
 
@@ -314,7 +315,7 @@ def eval_grad(fun: "OptimizationFunction",
             for node_, node_grad_vals in zip(heavy_node_block, heavy_node_vals):
                 for next_node, next_fun_grad in zip(graph[node_],
                                                     node_grad_vals):
-                    grad_vals[next_node] += next_fun_grad
+                    grad_vals[next_node] = grad_vals[next_node] + next_fun_grad
 
             if last_node_reached:
                 break
-- 
2.43.0


From 857a3ce221af8c349ea3eb22a80ff826c2f13deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 068/130] fix: gradients of constant objectives are vectors

---
 spins/invdes/problem/graph_executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index a75fc98..4f95775 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -330,6 +330,9 @@ def eval_grad(fun: "OptimizationFunction",
         total_grads += [
             np.array(grad_vals[in_node]) @ param.calculate_gradient()
         ]
+    if not total_grads:
+        # The function does not depend on the parametrization.
+        return np.zeros(len(param.to_vector()))
     return np.sum(total_grads, axis=0)
 
 
-- 
2.43.0


From 984d9e5899919eaacfa4f2567f0a26ae088bf862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:29 +0000
Subject: [PATCH 069/130] fix: gradient of Fit2Eps is that of its value

---
 spins/invdes/problem/structure_objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/structure_objectives.py b/spins/invdes/problem/structure_objectives.py
index 9ce0e86..703ab26 100644
--- a/spins/invdes/problem/structure_objectives.py
+++ b/spins/invdes/problem/structure_objectives.py
@@ -29,7 +29,7 @@ class Fit2Eps(OptimizationFunction):
         z = param.get_structure()
         err = self.eps_bg + self.S @ z - self.eps
         return np.asfortranarray(
-            np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
+            2 * np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
 
     def __str__(self) -> str:
         return 'fit2eps()'
-- 
2.43.0


From dd7949c2b1f62894818f24ed6a7b35f1d288d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:57 +0000
Subject: [PATCH 070/130] fix: slack parametrizations accept bounds given as
 lists and arrays

---
 spins/invdes/problem/slack_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/slack_optimization_problem.py b/spins/invdes/problem/slack_optimization_problem.py
index 101fdb2..d6f64c1 100644
--- a/spins/invdes/problem/slack_optimization_problem.py
+++ b/spins/invdes/problem/slack_optimization_problem.py
@@ -78,8 +78,8 @@ class SlackParam(Parametrization):
         if param_bounds is None:
             param_size = len(self.param.to_vector())
             param_bounds = [(None,) * param_size, (None,) * param_size]
-        minBounds = param_bounds[0] + self.num_slack * (0,)
-        maxBounds = param_bounds[1] + self.num_slack * (None,)
+        minBounds = tuple(param_bounds[0]) + self.num_slack * (0,)
+        maxBounds = tuple(param_bounds[1]) + self.num_slack * (None,)
         return minBounds, maxBounds
 
     def get_param(self):
-- 
2.43.0


From b51179407006477b2b02b7098f12f9d2909a022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:42 +0000
Subject: [PATCH 071/130] fix: generate_polygons returns every contour, not
 only the first one

---
 spins/invdes/parametrization/parametrization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index d3905ab..9a3347f 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -326,7 +326,7 @@ class CubicParam(Parametrization):
         cs = plt.contour(x_extended, y_extended, phi_extended - 0.5, [0])
         paths = cs.collections[0].get_paths()
 
-        return [p.to_polygons()[0] for p in paths]
+        return [poly for p in paths for poly in p.to_polygons()]
 
 
 class HermiteParam(Parametrization):
-- 
2.43.0


From 1cb02fcded0dec0641c5e10607f245eab4492dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:42 +0000
Subject: [PATCH 072/130] fix: gradient of the sigmoid parametrizations stays
 finite when the sigmoid saturates

---
 spins/invdes/parametrization/parametrization.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index 9a3347f..15f23c1 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -245,11 +245,9 @@ class CubicParam(Parametrization):
             return z_cubic
 
     def calculate_gradient(self) -> np.ndarray:
-        z_cubic = self.vec2f @ self.vector
         if self.k:
-            return sparse.diags(
-                2 * self.k * np.exp(-self.k * (2 * z_cubic - 1)) /
-                (1 + np.exp(-self.k * (2 * z_cubic - 1)))**2) @ self.vec2f
+            z = self.get_structure()
+            return sparse.diags(2 * self.k * z * (1 - z)) @ self.vec2f
         else:
             return self.vec2f
 
@@ -432,10 +430,8 @@ class HermiteParam(Parametrization):
         return 1 / (1 + np.exp(-self.k * (2 * z_cubic - 1)))
 
     def calculate_gradient(self) -> np.ndarray:
-        z_cubic = self.vec2f @ self.vector
-        return sparse.diags(2 * self.k * np.exp(-self.k * (2 * z_cubic - 1)) /
-                            (1 + np.exp(-self.k *
-                                        (2 * z_cubic - 1)))**2) @ self.vec2f
+        z = self.get_structure()
+        return sparse.diags(2 * self.k * z * (1 - z)) @ self.vec2f
 
     def set_k(self, k):
         self.k = k
-- 
2.43.0


From fcd5573102f66eb417a7c85ab49c42a16dbd600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:42 +0000
Subject: [PATCH 073/130] fix: CubicParam accepts missing and per-element
 bounds

---
 spins/invdes/parametrization/parametrization.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index 15f23c1..a432067 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -253,10 +253,20 @@ class CubicParam(Parametrization):
 
     def get_bounds(self):
         vec_len = len(self.vector)
-        return ((self.lower_bound, ) * vec_len, (self.upper_bound, ) * vec_len)
+        lower_bound, upper_bound = self.lower_bound, self.upper_bound
+        if lower_bound is None or isinstance(lower_bound, numbers.Number):
+            lower_bound = (lower_bound, ) * vec_len
+        if upper_bound is None or isinstance(upper_bound, numbers.Number):
+            upper_bound = (upper_bound, ) * vec_len
+        return (lower_bound, upper_bound)
 
     def project(self) -> None:
-        self.vector = np.clip(self.vector, self.lower_bound, self.upper_bound)
+        # `np.clip` does not accept `None` as valid bound for an element.
+        lower_bound, upper_bound = self.get_bounds()
+        self.vector = np.clip(
+            self.vector,
+            [b if b is not None else -np.inf for b in lower_bound],
+            [b if b is not None else np.inf for b in upper_bound])
 
     def encode(self) -> np.ndarray:
         return self.vector
-- 
2.43.0


From 9f77676dcbb5a2a5d8e8e5e51f5f27054769ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:42 +0000
Subject: [PATCH 074/130] fix: the Jacobian of CompositeParam can be applied to
 gradient vectors

---
 .../composite_parametrization.py                | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/parametrization/composite_parametrization.py b/spins/invdes/parametrization/composite_parametrization.py
index 3f6c8c4..21b472b 100644
--- a/spins/invdes/parametrization/composite_parametrization.py
+++ b/spins/invdes/parametrization/composite_parametrization.py
@@ -143,8 +143,23 @@ class CompositeParam(parametrization.Parametrization):
             return np.hstack([param.calculate_gradient() @ sub_vec for
                               param, sub_vec in zip(self._params, split_vec)])
 
+        def _vec_jacobian_prod(vec: np.ndarray) -> np.ndarray:
+            """Calculate the product of a vector with the (real) jacobian.
+
+            Args:
+                 vec: The numpy array to be multiplied with the jacobian.
+
+            Returns:
+                 The product of the transpose of the jacobian with `vec`.
+            """
+            split_vec = _split_vector(
+                vec, [param.get_structure().size for param in self._params])
+            return np.hstack([sub_vec @ param.calculate_gradient() for
+                              param, sub_vec in zip(self._params, split_vec)])
+
         return linalg.LinearOperator((self._z_size, np.sum(self._param_sizes)),
-                                     matvec=_jacobian_vec_prod)
+                                     matvec=_jacobian_vec_prod,
+                                     rmatvec=_vec_jacobian_prod)
 
     def encode(self) -> np.ndarray:
         """Encode the parametrization into a vector form.
-- 
2.43.0


From e44ec9ddb939302ee014e4cc733db385b2e682d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:39 +0000
Subject: [PATCH 075/130] fix: ScipyOptimizer passes every constraint to scipy,
 not only the last one

---
 spins/invdes/optimization/scipy_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 94dd2a7..3689b80 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -87,11 +87,11 @@ class ScipyOptimizer:
             constraints = []
             for eq in opt.get_equality_constraints():
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_gradient(param)
 
@@ -103,11 +103,11 @@ class ScipyOptimizer:
             for ineq in opt.get_inequality_constraints():
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_gradient(param)
 
-- 
2.43.0


From 09a9c8501d7787c463a3cd54bc36095750e9e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:39 +0000
Subject: [PATCH 076/130] fix: ScipyOptimizer does not delete the tolerance
 from the caller's options

---
 spins/invdes/optimization/scipy_optimizer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 3689b80..4a2ba2f 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -35,16 +35,15 @@ class ScipyOptimizer:
         self.objective = objective
         self.param = parametrization
         self.method = method
-        self.options = options
+        self.options = dict(options) if options else options
         self.constraints = constraints
         self.bounds = bounds
         self.tol = tol
 
         # Spins places tols in options, tol saved in self.tol and removed from self.options
-        if options:
-            if "tol" in options.keys():
-                self.tol = options["tol"]
-                del self.options["tol"]
+        if self.options:
+            if "tol" in self.options.keys():
+                self.tol = self.options.pop("tol")
 
     def __call__(self, opt, param, callback=None):
         if isinstance(opt, OptimizationFunction):
-- 
2.43.0


From 337068ca75d24d09096f3a5d9b49b491ecfd049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:39 +0000
Subject: [PATCH 077/130] fix: gradient optimizers do not run past the
 requested number of iterations

---
 spins/invdes/optimization/gradient_descent.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index acd63b0..cd6d308 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -72,9 +72,9 @@ class GradientOptimizer:
         # Keep a list of possible stop iterations.
         # Then take the minimum of the possibilities.
         stop_iter_list = []
-        if iters:
+        if iters is not None:
             stop_iter_list.append(self._iters + iters)
-        if self._max_iters:
+        if self._max_iters is not None:
             stop_iter_list.append(self._max_iters)
 
         # Compute stopping iteration.
@@ -82,15 +82,12 @@ class GradientOptimizer:
         if stop_iter_list:
             stop_iter = np.min(stop_iter_list)
 
-        while True:
+        while stop_iter is None or self._iters < stop_iter:
             stop_opt = self.iterate()
             # Increase iteration count and break if done.
             self._iters += 1
             if callback:
                 callback(self.param)
-            # Check if we should break from iteration count.
-            if stop_iter and self._iters >= stop_iter:
-                break
             # Check if we should break from other factors.
             if stop_opt:
                 break
-- 
2.43.0


From ee6862d3d9620727dbbef02756bf4a39b45b48da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:39 +0000
Subject: [PATCH 078/130] fix: normalized gradient descent stays at a
 stationary point

---
 spins/invdes/optimization/gradient_descent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index cd6d308..d6206ce 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -126,8 +126,8 @@ class GradientDescent(GradientOptimizer):
         gradient = self.objective.calculate_gradient(self.param)
         gradient_norm = np.linalg.norm(gradient)
 
-        if self.normalize_gradient:
-            gradient /= gradient_norm
+        if self.normalize_gradient and gradient_norm > 0:
+            gradient = gradient / gradient_norm
 
         self.param.decode(self.param.encode() - self.alpha * gradient)
         self.param.project()
-- 
2.43.0


From bc7867bc545963783522ccefa033163117958523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:44 +0000
Subject: [PATCH 079/130] fix: numbers can be divided by optplan functions

---
 spins/invdes/problem_graph/optplan/optplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/optplan/optplan.py b/spins/invdes/problem_graph/optplan/optplan.py
index ebc1f3d..f6536d6 100644
--- a/spins/invdes/problem_graph/optplan/optplan.py
+++ b/spins/invdes/problem_graph/optplan/optplan.py
@@ -219,7 +219,7 @@ class Function(ProblemGraphNode):
     def __rsub__(self, obj) -> "optplan.Sum":
         return -self + obj
 
-    def __rdiv__(self, obj) -> "optplan.Product":
+    def __rtruediv__(self, obj) -> "optplan.Product":
         return self**(-1) * obj
 
 
-- 
2.43.0


From e69f57972f7232048a927745d78db97cabb7460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:44 +0000
Subject: [PATCH 080/130] fix: optplan functions can be divided by numpy
 integers

---
 spins/invdes/problem_graph/optplan/optplan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/invdes/problem_graph/optplan/optplan.py b/spins/invdes/problem_graph/optplan/optplan.py
index f6536d6..8adac1e 100644
--- a/spins/invdes/problem_graph/optplan/optplan.py
+++ b/spins/invdes/problem_graph/optplan/optplan.py
@@ -205,6 +205,8 @@ class Function(ProblemGraphNode):
         return self + (-obj)
 
     def __truediv__(self, obj) -> "optplan.Product":
+        if isinstance(obj, numbers.Number):
+            return self * (1 / obj)
         return self * obj**-1
 
     def __neg__(self) -> "optplan.Product":
-- 
2.43.0


From b1de050830f73e396deaa1163d790b912f9569fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:02 +0000
Subject: [PATCH 081/130] fix: Workspace.get_object rejects a different node
 with the name of an existing one

---
 spins/invdes/problem_graph/workspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index ad1fe2c..bc94b47 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -181,6 +181,9 @@ class Workspace:
         # just in case someone decided to modify `node` after adding it to
         # the workspace.
         if node.name in self._objects:
+            if node is not self._nodes[node.name]:
+                raise ValueError("Node with same name added, got {}".format(
+                    node.name))
             if return_graph_node:
                 return self._objects[node.name], self._nodes[node.name]
             else:
-- 
2.43.0


From 8d26d88818477e7ab761da0524c0d012cc74a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:53 +0000
Subject: [PATCH 082/130] fix: optimization plans without nodes can be loaded

---
 spins/invdes/problem_graph/optplan/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem_graph/optplan/io.py b/spins/invdes/problem_graph/optplan/io.py
index f251385..012ec63 100644
--- a/spins/invdes/problem_graph/optplan/io.py
+++ b/spins/invdes/problem_graph/optplan/io.py
@@ -247,7 +247,7 @@ def validate(plan: optplan.OptimizationPlan) -> None:
 
     # Check for non-unique nodes.
     names = set()
-    for node in plan.nodes:
+    for node in plan.nodes or []:
         if node.name in names:
             raise ValueError("Nonunique name found: {}".format(node.name))
         names.add(node.name)
@@ -307,7 +307,7 @@ def loads(serialized_plan: str) -> optplan.OptimizationPlan:
     # Unpack the optimization plan.
     # First create a dictionary mapping strings to the node.
     node_map = {}
-    for node in plan.nodes:
+    for node in plan.nodes or []:
         node_map[node.name] = node
 
     # Now, recursively fill any node names with the actual node.
@@ -318,7 +318,7 @@ def loads(serialized_plan: str) -> optplan.OptimizationPlan:
     if plan.transformations:
         for transformation in plan.transformations:
             _iter_optplan_fields(transformation, visited, process_field)
-    for node in plan.nodes:
+    for node in plan.nodes or []:
         _iter_optplan_fields(node, visited, process_field)
 
     validate_references(plan)
-- 
2.43.0


From 0e0e689005c87a40bf574ae3a35f28102871166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:07 +0000
Subject: [PATCH 083/130] fix: a crash while writing a log or checkpoint file
 does not prevent resuming

---
 spins/invdes/problem_graph/workspace.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index bc94b47..6e4a011 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -324,8 +324,7 @@ class Logger:
 
         # Save the data.
         file_path = os.path.join(self._path, checkpoint_file)
-        with open(file_path, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(data, file_path)
 
     def write(self,
               event: Dict,
@@ -374,8 +373,23 @@ class Logger:
         # Save the data.
         file_path = os.path.join(
             self._path, os.path.join("step{}.pkl".format(self._log_counter)))
-        with open(file_path, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(data, file_path)
+
+
+def _write_pickle(data: Dict, file_path: str) -> None:
+    """Writes a Pickle file such that it is either complete or not there.
+
+    Log and checkpoint files are used to resume after a crash so a crash in the
+    middle of writing one of them must not leave an incomplete file behind.
+
+    Args:
+        data: Data to write.
+        file_path: Path of the file.
+    """
+    temp_path = file_path + ".tmp"
+    with open(temp_path, "wb") as handle:
+        pickle.dump(data, handle)
+    os.replace(temp_path, file_path)
 
 
 def get_latest_log_step(folder: str) -> int:
-- 
2.43.0


From 1067742b06890fbf73a3014cc9d075aacb348465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:08 +0000
Subject: [PATCH 084/130] fix: resuming restores all the parameters and
 parametrizations of a plan

---
 spins/invdes/problem_graph/solver.py    | 21 ++++++++++-----------
 spins/invdes/problem_graph/workspace.py | 17 +++++++++++++++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index e4ed8cc..df9b08e 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -133,19 +133,13 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
         with open(chkpt_file, "rb") as fp:
             chkpt_data = pickle.load(fp)
 
-        # Iterate through all the previous transformations, restoring any
-        # parametrizations and parameters along the way. It is not strictly
-        # necessary to restore parametrizations/parameters along the way,
-        # but it was done out of implementation convenience.
+        # Add all the nodes that the previous transformations have used.
         for transform in plan.transformations[:transform_index]:
-            # Restore any parametrizations.
-            work.get_object(transform.parametrization).deserialize(
-                chkpt_data["parametrizations"][transform.parametrization.name])
+            work.add_nodes(transform)
 
-            # Add any parameter descriptions. Actual values restored below.
-            if transform.parameter_list:
-                for set_param in transform.parameter_list:
-                    work._add_node(set_param.parameter)
+        # Restore any parametrizations.
+        for param, param_data in chkpt_data["parametrizations"].items():
+            work.get_object(param).deserialize(param_data)
 
         # Now restore all parameter values.
         for param, param_value in chkpt_data["parameters"].items():
@@ -177,6 +171,11 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
                 log_data["parametrization"])
         event_data = log_data["event"]
 
+        # Restore the parameters that were set when the transformation started.
+        work.add_nodes(plan.transformations[transform_index])
+        for param, param_value in log_data["parameters"].items():
+            work.get_object(param).set_parameter_value(param_value)
+
     # TODO(logansu): Remove hack.
     work.logger._log_counter = log_data["log_counter"]
 
diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index 6e4a011..2581ca0 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -13,6 +13,8 @@ import pickle
 import re
 from typing import Dict, List, Optional, Union
 
+from schematics import models
+
 from spins.invdes import parametrization
 from spins.invdes import problem
 from spins.invdes.problem import graph_executor
@@ -97,6 +99,21 @@ class Workspace:
             from spins.invdes.problem_graph.optplan.io import _iter_optplan_fields
             _iter_optplan_fields(node, visited, process_field)
 
+    def add_nodes(self, model: models.Model) -> None:
+        """Adds all the nodes that a model refers to.
+
+        Args:
+            model: Model with references to nodes, e.g. a transformation.
+        """
+        # TODO(logansu): Deal with this private import.
+        from spins.invdes.problem_graph.optplan.io import _iter_optplan_fields
+
+        def process_field(unused_parent: models.Model,
+                          child: optplan.ProblemGraphNode) -> None:
+            self._add_node(child)
+
+        _iter_optplan_fields(model, set(), process_field)
+
     @property
     def filepath(self) -> str:
         return self._filepath
-- 
2.43.0


From 4c9433cba4ede4789fa57f41a61197b145f65176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:08 +0000
Subject: [PATCH 085/130] fix: optimization transformations accept missing and
 zero options and leave the plan unchanged

---
 spins/invdes/problem_graph/creator_opt.py | 24 +++++++++++------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index bafe7ac..5fe8449 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -43,13 +43,12 @@ class ScipyOptimizer:
         """
         self._opt_prob = opt_prob
         self.optimizer = optimizer
-        if optimization_options is None:
-            optimization_options = {}
-        else:
+        # Ignore any options that are not set.
+        self.optimization_options = {}
+        if optimization_options is not None:
             for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
-        self.optimization_options = optimization_options
+                if value is not None:
+                    self.optimization_options[key] = value
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
             self.monitor_lists = optplan.ScipyOptimizerMonitorList()
@@ -139,7 +138,7 @@ class ScipyOptimizer:
                 monitor_list=self.monitor_lists.callback_monitors)
 
         # Run optimization.
-        opt_options = self.optimization_options.to_native()
+        opt_options = dict(self.optimization_options)
         # If restoring, decrease maximum number of iterations based on
         # number of iterations already performed.
         if "maxiter" in opt_options:
@@ -244,13 +243,12 @@ class PenaltyOptimizer:
         """
         self._opt_prob = opt_prob
         self.optimizer = optimizer
-        if optimization_options is None:
-            optimization_options = {}
-        else:
+        # Ignore any options that are not set.
+        self.optimization_options = {}
+        if optimization_options is not None:
             for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
-        self.optimization_options = optimization_options
+                if value is not None:
+                    self.optimization_options[key] = value
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
             self.monitor_lists = optplan.ScipyOptimizerMonitorList()
-- 
2.43.0


From 8a7b9e633af16474aa873ce703711ef9e470c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:08 +0000
Subject: [PATCH 086/130] fix: resuming after the last iteration does not run
 another iteration

---
 spins/invdes/problem_graph/creator_opt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index 5fe8449..d4f0b18 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -143,6 +143,8 @@ class ScipyOptimizer:
         # number of iterations already performed.
         if "maxiter" in opt_options:
             opt_options["maxiter"] -= iteration
+            if opt_options["maxiter"] <= 0:
+                return
 
         scipy_optimizer = optim.ScipyOptimizer(
             method=self.optimizer, options=opt_options)
-- 
2.43.0


From 7f39cafa190c9f845f553768b3cf7859d36ce447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:08 +0000
Subject: [PATCH 087/130] fix: penalty transformation accepts constraints that
 involve constants

---
 spins/invdes/problem_graph/creator_opt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index d4f0b18..4d2b606 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -373,12 +373,16 @@ def create_penalty_optimizer(params: optplan.ScipyOptimizerTransformation,
     # Grab the constraints.
     eq_con_list = None
     if params.constraints_eq:
-        eq_con_list = [work.get_object(con) for con in params.constraints_eq]
+        eq_con_list = [
+            problem.RealPart(work.get_object(con))
+            for con in params.constraints_eq
+        ]
 
     ineq_con_list = None
     if params.constraints_ineq:
         ineq_con_list = [
-            work.get_object(con) for con in params.constraints_ineq
+            problem.RealPart(work.get_object(con))
+            for con in params.constraints_ineq
         ]
 
     # Make optimization problem.
-- 
2.43.0


From 7378b3618cdf5819a98cce1f4b2e081b8f37cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 088/130] fix: ScipyOptimizer passes real gradients to scipy

---
 spins/invdes/optimization/scipy_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 4a2ba2f..a18fcb0 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -57,7 +57,9 @@ class ScipyOptimizer:
 
         def jacobian(x):
             param.from_vector(x)
-            return np.asfortranarray(objective.calculate_gradient(param))
+            # Functions that involve complex numbers have complex gradients.
+            return np.asfortranarray(
+                np.real(objective.calculate_gradient(param)))
 
         # To avoid scipy warning, only pass Jacobian to methods that need it.
         methods_that_need_jacobian = {
-- 
2.43.0


From c044134207235c885e423abcfbab36dcfa7a85d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 089/130] fix: monitor specifications can be loaded with
 current versions of PyYAML

---
 spins/invdes/problem_graph/log_tools/monitor_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/log_tools/monitor_spec.py b/spins/invdes/problem_graph/log_tools/monitor_spec.py
index 59351b6..ab1687c 100644
--- a/spins/invdes/problem_graph/log_tools/monitor_spec.py
+++ b/spins/invdes/problem_graph/log_tools/monitor_spec.py
@@ -179,5 +179,5 @@ def load_from_yml(filename: str) -> MonitorDescriptionList:
         MonitorDescriptionList object containing the monitor spec information.
     """
     with open(filename) as fp:
-        monitor_descriptions = MonitorDescriptionList(yaml.load(fp))
+        monitor_descriptions = MonitorDescriptionList(yaml.safe_load(fp))
     return monitor_descriptions
-- 
2.43.0


From 49576aac3d7fb52ac845f89e34fdc270e2acb17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 090/130] fix: monitors of events without iterations can be
 joined across transformations

---
 spins/invdes/problem_graph/log_tools/loader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index ca86766..7a08e73 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -325,11 +325,10 @@ def get_joined_scalar_monitors(
         transformation_data = monitor_data[transformation].data
         transformation_iters = monitor_data[transformation].iteration
         dat_length = len(data)
+        last_iter = iterations[-1] if iterations else 0
+        iterations.extend([it + last_iter for it in transformation_iters])
         if dat_length > 0:
-            iterations.extend(transformation_iters + iterations[-1])
             transformation_changes.append(dat_length)
-        else:
-            iterations.extend(transformation_iters)
         data.extend(transformation_data)
 
     data = process_scalar(data, scalar_operation=scalar_operation)
-- 
2.43.0


From 249d2f94b98d9734b8233fd0b19a09b659345dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 091/130] fix: field monitors without vector operation are
 plotted as their magnitude

---
 spins/invdes/problem_graph/log_tools/loader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index 7a08e73..d46f28c 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -372,7 +372,8 @@ def process_field(field: List,
     Args:
         field: Field slice data as a list of x, y, and z 2-dimensional data.
         vector_operation: String specifying the component of the field data.
-            Choices are "magnitude", "x", "y", or "z".
+            Choices are "magnitude", "x", "y", or "z". If `None`, the magnitude
+            is used.
         scalar_operation: String specifying how to process each element of the
             field data. Choices are "power", "magnitude", "phase", "real",
             or "imag".
@@ -380,7 +381,7 @@ def process_field(field: List,
     Returns:
         List containing the processed field data.
     """
-    if vector_operation.lower() == "magnitude":
+    if not vector_operation or vector_operation.lower() == "magnitude":
         mag = (np.sqrt(
             np.abs(field[0])**2 + np.abs(field[1])**2 + np.abs(field[2])**2))
     elif vector_operation.lower() == "x":
@@ -389,6 +390,9 @@ def process_field(field: List,
         mag = field[1]
     elif vector_operation.lower() == "z":
         mag = field[2]
+    else:
+        raise ValueError(
+            "Unknown vector operation, got {}".format(vector_operation))
     mag = process_scalar(mag, scalar_operation=scalar_operation)
     return mag
 
-- 
2.43.0


From 2677fce69212f166b1c9f43349cefcb669b6d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 092/130] fix: overlap monitors can be listed and plotted

---
 spins/invdes/problem_graph/log_tools/loader.py  | 10 +++++-----
 spins/invdes/problem_graph/log_tools/plotter.py |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index d46f28c..f2ecc28 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -288,12 +288,12 @@ def get_overlap_monitor_names(log_df: pd.DataFrame) -> List[str]:
     Returns:
         List of overlap monitor name strings.
     """
-    monitor_names = get_monitor_name_by_type(log_df)
+    prefix = LOG_MONITOR_DATA_KEY + ":"
     overlap_names = []
-    for name in monitor_names.scalars:
+    for column in log_df.columns:
         # Currently, all overlap monitors have an autogen name including "overlap".
-        if "overlap" in name.lower():
-            overlap_names.append(name)
+        if column.startswith(prefix) and "overlap" in column.lower():
+            overlap_names.append(column[len(prefix):])
     return overlap_names
 
 
@@ -349,7 +349,7 @@ def process_scalar(data: Union[float, List],
     """
     if not scalar_operation:
         return data
-    elif scalar_operation.lower() == "magnitude_squared":
+    elif scalar_operation.lower() in ("magnitude_squared", "power"):
         return np.absolute(data)**2
     elif scalar_operation.lower() == "magnitude":
         return np.absolute(data)
diff --git a/spins/invdes/problem_graph/log_tools/plotter.py b/spins/invdes/problem_graph/log_tools/plotter.py
index bd68ddb..5d4241e 100644
--- a/spins/invdes/problem_graph/log_tools/plotter.py
+++ b/spins/invdes/problem_graph/log_tools/plotter.py
@@ -254,11 +254,16 @@ def plot_overlaps(log_df: pd.DataFrame,
     overlap_names = loader.get_overlap_monitor_names(log_df)
 
     # Plot overlap monitors.
+    monitor_list = [
+        monitor_spec.JoinedMonitorDescription(
+            monitor_name=name,
+            monitor_type=loader.SCALAR_TYPE,
+            scalar_operation=compute_complex) for name in overlap_names
+    ]
     plot_scalar_monitors(
-        monitor_name_list=overlap_names,
+        monitor_spec.MonitorDescriptionList(monitor_list=monitor_list),
         log_df=log_df,
         same_plt=same_plt,
-        compute_complex=compute_complex,
         pdf_obj=pdf_obj,
         filename=filename,
         show=show)
-- 
2.43.0


From c2f679231770196b7cab1a8aedee9259651ab2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 093/130] fix: field monitors whose data is an array can be
 plotted

---
 spins/invdes/problem_graph/log_tools/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/log_tools/plotter.py b/spins/invdes/problem_graph/log_tools/plotter.py
index 5d4241e..2a3a02f 100644
--- a/spins/invdes/problem_graph/log_tools/plotter.py
+++ b/spins/invdes/problem_graph/log_tools/plotter.py
@@ -160,7 +160,7 @@ def plot_field_data(
             transformation_name=transformation_name,
             iteration=iteration,
             event_name=event_name)
-        if field_dat:
+        if len(field_dat) > 0:
             field = loader.process_field(
                 field_dat,
                 vector_operation=monitor_description.vector_operation,
-- 
2.43.0


From f65ef12036c40da5f2f9c45467d99e4d783e7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 094/130] fix: the summary of monitors mentions monitors
 without data instead of failing

---
 spins/invdes/problem_graph/log_tools/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index f2ecc28..165dd5d 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -415,5 +415,8 @@ def display_summary(
         monitor_data = get_single_monitor_data(log_df, mon.monitor_names)
         monitor_data = process_scalar(
             monitor_data, scalar_operation=mon.scalar_operation)
+        if np.size(monitor_data) == 0:
+            print("{name}: No data found.".format(name=mon.joiner_id))
+            continue
         print("{name}: {value:1.4E}".format(
             name=mon.joiner_id, value=monitor_data))
-- 
2.43.0


From 62c655b946405cf6c56511a50c15f76b105102b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:35 +0000
Subject: [PATCH 095/130] fix: data of a given iteration is found when the
 monitor was recorded after it, too

---
 spins/invdes/problem_graph/log_tools/loader.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index 165dd5d..6a723c9 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -226,6 +226,7 @@ def get_single_monitor_data(
         all_event_names = [event_name]
 
     # Get all data for the given monitor name associated with the event_name.
+    last_data = None
     for name_transformation in reversed(all_transformation_names):
         for name_event in reversed(all_event_names):
             data_all = get_monitor_data(log_df, monitor_names, name_event)
@@ -234,14 +235,15 @@ def get_single_monitor_data(
             if not data_all or name_transformation not in data_all.keys():
                 continue
 
-            transformation_key = name_transformation
-
-            if iteration in data_all[transformation_key].iteration:
-                iteration_index = data_all[transformation_key].iteration.index(
-                    iteration)
-            else:
-                iteration_index = -1
-            return data_all[transformation_key].data[iteration_index]
+            event_data = data_all[name_transformation]
+            if iteration in event_data.iteration:
+                return event_data.data[event_data.iteration.index(iteration)]
+            if last_data is None:
+                last_data = event_data
+        # The iteration may have been recorded in another event of the last
+        # transformation with data.
+        if last_data is not None:
+            return last_data.data[-1]
 
     return []
 
-- 
2.43.0


From 94f3328815dff35af555da915d609bba6c4cb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 096/130] fix: grating discretization can return uniform
 structures

---
 spins/invdes/problem/grating.py       |  6 ++++++
 spins/invdes/problem_graph/grating.py | 11 +++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem/grating.py b/spins/invdes/problem/grating.py
index be0843d..692d11c 100644
--- a/spins/invdes/problem/grating.py
+++ b/spins/invdes/problem/grating.py
@@ -106,6 +106,9 @@ class GratingFeatureConstraint(problem.OptimizationFunction):
             List of constraints.
         """
         constraints = []
+        # There is nothing to constrain if there are no edges.
+        if len(vec) == 0:
+            return [np.zeros(0)]
         # The minimum feature constraint.
         constraints.append(-(_diff_matrix(len(vec)) @ vec -
                              np.ones(len(vec) - 1) * self._min_feature))
@@ -129,6 +132,9 @@ class GratingFeatureConstraint(problem.OptimizationFunction):
             List of constraint gradients.
         """
         constraints = []
+        # There is nothing to constrain if there are no edges.
+        if len(vec) == 0:
+            return np.zeros((0, 0))
 
         # The minimum feature constraint.
         constraints.append(-_diff_matrix(len(vec)))
diff --git a/spins/invdes/problem_graph/grating.py b/spins/invdes/problem_graph/grating.py
index 144056e..83aef6e 100644
--- a/spins/invdes/problem_graph/grating.py
+++ b/spins/invdes/problem_graph/grating.py
@@ -49,7 +49,7 @@ class GratingEdgeDiscretization:
         # To remedy, prepend a rising edge at the left boundary and append a
         # falling edge at the end, EXCEPT if there is already an edge
         # already there.
-        if edge_loc[0] == 0:
+        if edge_loc and edge_loc[0] == 0:
             edge_loc = edge_loc[1:]
         else:
             edge_loc = [0] + edge_loc
@@ -132,10 +132,9 @@ def _get_edge_loc_dp(x: List[float], min_feature: float = 0) -> np.ndarray:
         k_int = k // divisions
         k_frac = (k % divisions) / divisions
         # Possibility 1: Edge starts at 0 and goes until k.
+        val = zero_value[k_int]
         if k_int < len(x):
-            val = zero_value[k_int] + func(x[k_int], 1 - k_frac) * k_frac
-        else:
-            val = max_val
+            val += func(x[k_int], 1 - k_frac) * k_frac
         new_edges = [0, k / divisions]
         best_i_ind = 0
         # Possibility 2: Last edge started at i.
@@ -178,4 +177,8 @@ def _get_edge_loc_dp(x: List[float], min_feature: float = 0) -> np.ndarray:
     struct_best_ind = np.argmin(dp[d:]) + d
     edge_loc = struct_dp[struct_best_ind]
 
+    # Possibility 3: There are no edges at all.
+    if one_value[-1] < dp[struct_best_ind]:
+        edge_loc = []
+
     return edge_loc
-- 
2.43.0


From 14b57e2c549c6a491fd3ff86a12548e9fb50ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 097/130] fix: grating discretization respects minimum features
 between two divisions

---
 spins/invdes/problem_graph/grating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/grating.py b/spins/invdes/problem_graph/grating.py
index 83aef6e..329fbf8 100644
--- a/spins/invdes/problem_graph/grating.py
+++ b/spins/invdes/problem_graph/grating.py
@@ -123,7 +123,8 @@ def _get_edge_loc_dp(x: List[float], min_feature: float = 0) -> np.ndarray:
     dp = [max_val] * max_k
 
     # min_feature size in terms of grid units.
-    d = int(min_feature * divisions)
+    # Round up (except for rounding errors) to not violate the constraint.
+    d = int(np.ceil(min_feature * divisions - 1e-9))
     struct_dp = [[] for i in range(d)]
 
     # k = this right edge
-- 
2.43.0


From 2f82913f96592ef9bda2bc9c2e24c85c03075c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 098/130] fix: grating discretization of inverted gratings

---
 spins/invdes/problem_graph/grating.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/grating.py b/spins/invdes/problem_graph/grating.py
index 329fbf8..8204afd 100644
--- a/spins/invdes/problem_graph/grating.py
+++ b/spins/invdes/problem_graph/grating.py
@@ -48,7 +48,11 @@ class GratingEdgeDiscretization:
         # `GratingParam` assumes the first edge is a rising edge.
         # To remedy, prepend a rising edge at the left boundary and append a
         # falling edge at the end, EXCEPT if there is already an edge
-        # already there.
+        # already there. An inverted grating starts with a falling edge.
+        if param._inverted:
+            param.from_vector(edge_loc)
+            return
+
         if edge_loc and edge_loc[0] == 0:
             edge_loc = edge_loc[1:]
         else:
-- 
2.43.0


From 82f0a825d9371caee266a3060d577838856278a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 099/130] fix: multi-etch gratings with several etch depths
 within one pixel

---
 spins/goos/grating.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 97a954b..363ef66 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -435,31 +435,18 @@ class MultiEtchEdgeParametrization(Parametrization):
         level_vecs = self.get_level_vecs()
         raster_vecs = [self.build_rasterized_1D(vec) for vec in level_vecs]
 
-        layer_pixels = np.diff(np.r_[0, self.etch_depths])
-        # Generate the structure.
+        # Below the deepest etch, the structure is filled.
+        raster_vecs.append(np.ones(self.dims[0]))
+
+        # Generate the structure. Each layer extends over a range of depths and
+        # contributes to the pixels by its overlap with them.
         total_z = np.zeros(self.dims)
-        z_ind = 0
-        partial_pixels = 0
-        for i, raster_vec in enumerate(raster_vecs):
-            pixels_left = layer_pixels[i]
-            if i != 0:
-                if np.abs(partial_pixels) > 0.001:
-                    total_z[:, z_ind] += raster_vec * (1 - partial_pixels)
-                    z_ind += 1
-                    pixels_left -= (1 - partial_pixels)
-            full_pixels = int(pixels_left)
-            partial_pixels = pixels_left - full_pixels
-            if full_pixels > 0:
-                total_z[:, z_ind:z_ind + full_pixels] = np.hstack(
-                    (raster_vec[:, np.newaxis],) * full_pixels)
-                z_ind += full_pixels
-            if np.abs(partial_pixels) > 0.001:
-                total_z[:, z_ind] += raster_vec * partial_pixels
-        # Add final layers of ones.
-        if np.abs(partial_pixels) > 0.001:
-            total_z[:, z_ind] += 1 - partial_pixels
-            z_ind += 1
-        total_z[:, z_ind:self.dims[1]] = 1
+        layer_edges = np.r_[0, self.etch_depths, self.dims[1]]
+        pixel_edges = np.arange(self.dims[1] + 1)
+        for start, end, raster_vec in zip(layer_edges[:-1], layer_edges[1:],
+                                          raster_vecs):
+            overlap = np.diff(np.clip(pixel_edges, start, end))
+            total_z += np.outer(raster_vec, overlap)
         return total_z.flatten(order='F')
 
     def get_bounds(self):
-- 
2.43.0


From c80ec926dccf7316472decd77c86f4aeb3f7ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 100/130] fix: bounds of grating widths are those of the level
 of the segment

---
 spins/goos/grating.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 363ef66..3318845 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -300,19 +300,22 @@ class GratingL2D(goos.Action):
 
         if not self._use_edge_locs:
             widths = np.r_[edges[0], edges[1:] - edges[:-1]]
+            # `levels[i]` is the level after edge `i` whereas `widths[i]` is the
+            # width of the segment that ends at edge `i`.
+            width_levels = np.r_[self._start_depth_ind, levels[:-1]].astype(int)
             plan.set_var_value(self._disc_widths, widths)
 
             if np.isscalar(self._min_features):
                 min_feats = self._min_features
             else:
-                min_feats = np.array([self._min_features[i] for i in levels])
+                min_feats = np.array([self._min_features[i] for i in width_levels])
 
             if self._max_features is None:
                 max_feats = np.inf
             elif np.isscalar(self._max_features):
                 max_feats = self._max_features
             else:
-                max_feats = np.array([self._max_features[i] for i in levels])
+                max_feats = np.array([self._max_features[i] for i in width_levels])
 
             ones = np.ones_like(widths)
             plan.set_var_bounds(self._disc_widths,
-- 
2.43.0


From 35e3cf70274266fd0c0d0b09eede8ca2ecee0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 101/130] fix: gradient of the constraint on the first grating
 edge

---
 spins/goos/grating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 3318845..167b7b0 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -719,7 +719,7 @@ class EdgeLocConstraint(goos.Function):
 
             # Append constraints for first and last edge.
             first = np.zeros(len(vector))
-            first[0] = 1
+            first[0] = -1
             last = np.zeros(len(vector))
             last[-1] = 1
             self._diff_mat = np.vstack([self._diff_mat, first, last])
-- 
2.43.0


From 0a8cf39a9edb5b6cbb4c84a7ab8521c6611c0822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:18 +0000
Subject: [PATCH 102/130] fix: exporting polygons to GDS terminates and tells
 close polygons from nested ones

---
 spins/gds/gen_gds.py | 90 ++++++++++++++------------------------------
 1 file changed, 29 insertions(+), 61 deletions(-)

diff --git a/spins/gds/gen_gds.py b/spins/gds/gen_gds.py
index 3a2def7..da45337 100644
--- a/spins/gds/gen_gds.py
+++ b/spins/gds/gen_gds.py
@@ -40,67 +40,35 @@ def gen_gds(poly_coords: List[np.ndarray],
 
     if deembed:
 
-        containment_mx = []
-        for polygon in gds_polygons:
-            containment_mx.append(gdspy.inside(test_points, [polygon]))
-
-        # Subtract by identity matrix since polygon_i trivially contains
-        # polygon_i.
-        containment_mx = np.array(containment_mx) - np.eye(len(gds_polygons))
-        # overlap_list[i] tells how many polygons are contained in polygon i.
-        overlap_list = np.sum(containment_mx, axis=1)
-
-        overlap_num = 0
-        while sum(overlap_list) != 0:
-
-            overlap_num = overlap_num + 1
-
-            # We loop until there are no longer any more polygons of a specific
-            # overlap number before going to the next overlap number.
-            #
-            # The reasoning for this is as we begin to delete polygons,
-            # the overlap number changes and so polygons which were of
-            # overlap_num > 1, may become polygons of overlap_num = 1.
-            #
-            # np.where(overlap_list==overlap_num)[0].size is how we see if
-            # any polygons satisfy the current overlap number.
-
-            target_polys = np.where(overlap_list == overlap_num)[0]
-            while target_polys.size != 0:
-
-                # We iterate through each polygon in our polygon list until no
-                # polygon satisfies the current overlap number.
-                for i in target_polys[::-1]:
-                    containment_list = np.nonzero(containment_mx[i, :])[0]
-                    # Concatenate all the contained polygons to subtract out.
-                    poly_list = sum([
-                        gds_polygons[j].polygons for j in containment_list
-                    ], [])
-                    # Note that we had to turn precision from the default 1e-3
-                    # to 1e-6 to avoid errors in the NOT operation.
-                    gds_polygons[i] = gdspy.boolean(gds_polygons[i],
-                                                    gdspy.PolygonSet(poly_list),
-                                                    "not",
-                                                    layer=0,
-                                                    precision=1e-6)
-                    for j in containment_list:
-                        gds_polygons[j] = None
-                        test_points[j] = None
-
-                for k in range(len(gds_polygons) - 1, -1, -1):
-                    if gds_polygons[k] is None:
-                        del gds_polygons[k]
-                        del test_points[k]
-
-                containment_mx = []
-                for polygon in gds_polygons:
-                    containment_mx.append(gdspy.inside(test_points, [polygon]))
-
-                containment_mx = np.array(containment_mx) - np.eye(
-                    len(gds_polygons))
-                overlap_list = np.sum(containment_mx, axis=1)
-
-                target_polys = np.where(overlap_list == overlap_num)[0]
+        # `containment_mx[i, j]` tells whether polygon i contains polygon j.
+        # Note that the precision is increased from the default 1e-3 to 1e-6 as
+        # otherwise polygons in close proximity are taken to be contained.
+        containment_mx = np.zeros((len(gds_polygons),) * 2, dtype=bool)
+        for i, polygon in enumerate(gds_polygons):
+            containment_mx[i, :] = gdspy.inside(
+                test_points, [polygon], precision=1e-6)
+        # Polygon i trivially contains polygon i.
+        np.fill_diagonal(containment_mx, False)
+
+        # `depth[i]` tells how many polygons contain polygon i. The polygons of
+        # odd depth are the holes of the polygons of one depth less.
+        depth = np.sum(containment_mx, axis=0)
+        deembedded_polygons = []
+        for i in np.where(depth % 2 == 0)[0]:
+            holes = np.where(containment_mx[i, :] & (depth == depth[i] + 1))[0]
+            polygon = gds_polygons[i]
+            if holes.size:
+                # Concatenate all the contained polygons to subtract out.
+                poly_list = sum([gds_polygons[j].polygons for j in holes], [])
+                # Note that we had to turn precision from the default 1e-3
+                # to 1e-6 to avoid errors in the NOT operation.
+                polygon = gdspy.boolean(polygon,
+                                        gdspy.PolygonSet(poly_list),
+                                        "not",
+                                        layer=0,
+                                        precision=1e-6)
+            deembedded_polygons.append(polygon)
+        gds_polygons = deembedded_polygons
 
     for polygon in gds_polygons:
         poly_cell.add(polygon)
-- 
2.43.0


From 20d77cefbaa4e6c4d9980c6ed78ea143b48d39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:07 +0000
Subject: [PATCH 103/130] fix: GDS import only requires the cell with most
 polygons to be unique

---
 spins/gds/parse_gds.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/spins/gds/parse_gds.py b/spins/gds/parse_gds.py
index 1298c0c..dfe4caf 100644
--- a/spins/gds/parse_gds.py
+++ b/spins/gds/parse_gds.py
@@ -102,6 +102,7 @@ class GDSImport:
 
         if cell_name is None:
             max_num_polys = 0
+            num_max_cells = 0
             for cell in top_level_cells:
                 # Ignore cells that are hidden
                 if cell.name.startswith("$$$"):
@@ -114,15 +115,18 @@ class GDSImport:
                     for polygon_set in polygon_sets:
                         num_polys += len(polygon_set.polygons)
 
-                    if max_num_polys == num_polys:
-                        raise ValueError(
-                            "Multiple top level cells with same number of "
-                            "polygons. Unable to uniquely identify top level"
-                            " cell. Please specify cell by name instead.")
                     if max_num_polys < num_polys:
                         max_num_polys = num_polys
                         max_poly_tlc = cell
+                        num_max_cells = 1
+                    elif max_num_polys == num_polys:
+                        num_max_cells += 1
 
+            if max_num_polys > 0 and num_max_cells > 1:
+                raise ValueError(
+                    "Multiple top level cells with same number of "
+                    "polygons. Unable to uniquely identify top level"
+                    " cell. Please specify cell by name instead.")
             if max_num_polys > 0:
                 return max_poly_tlc
             else:
-- 
2.43.0


From 2e06f0df1e099eede1665b6d817781b602c06fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:20 +0000
Subject: [PATCH 104/130] Revert "fix: monitor specifications can be loaded
 with current versions of PyYAML"

This reverts commit c044134207235c885e423abcfbab36dcfa7a85d0.
---
 spins/invdes/problem_graph/log_tools/monitor_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/log_tools/monitor_spec.py b/spins/invdes/problem_graph/log_tools/monitor_spec.py
index ab1687c..59351b6 100644
--- a/spins/invdes/problem_graph/log_tools/monitor_spec.py
+++ b/spins/invdes/problem_graph/log_tools/monitor_spec.py
@@ -179,5 +179,5 @@ def load_from_yml(filename: str) -> MonitorDescriptionList:
         MonitorDescriptionList object containing the monitor spec information.
     """
     with open(filename) as fp:
-        monitor_descriptions = MonitorDescriptionList(yaml.safe_load(fp))
+        monitor_descriptions = MonitorDescriptionList(yaml.load(fp))
     return monitor_descriptions
-- 
2.43.0


From 398a04ced28cee77242bfb19cac51d78a141f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:38 +0000
Subject: [PATCH 105/130] fix: simulation caches notice structures that are
 modified in-place

---
 spins/invdes/problem_graph/creator_em.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_em.py b/spins/invdes/problem_graph/creator_em.py
index cfbd252..9c4ed38 100644
--- a/spins/invdes/problem_graph/creator_em.py
+++ b/spins/invdes/problem_graph/creator_em.py
@@ -375,7 +375,8 @@ class FdfdSimulation(problem.OptimizationFunction):
             del self._cache[0]
 
         # Insert data into cache.
-        self._cache.append((eps, electric_fields))
+        # Keep a copy of the structure as it may be modified in-place later.
+        self._cache.append((np.copy(eps), electric_fields))
         return electric_fields
 
     def _simulate_adjoint(self, eps: np.ndarray,
@@ -423,7 +424,8 @@ class FdfdSimulation(problem.OptimizationFunction):
             del self._cache_adjoint[0]
 
         # Insert data into cache.
-        self._cache_adjoint.append((eps, source, electric_fields))
+        self._cache_adjoint.append((np.copy(eps), np.copy(source),
+                                    electric_fields))
 
         return electric_fields
 
-- 
2.43.0


From a4537671fa191ff76a9a1bb3045f4e98d99fafea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:37 +0000
Subject: [PATCH 106/130] fix: a crash while writing a goos log or checkpoint
 file leaves no incomplete file

---
 spins/goos/optplan/optplan.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index b61fd2b..4a725b9 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -434,8 +434,7 @@ class OptimizationPlan:
             file_path = os.path.join(
                 self._save_path,
                 os.path.join("step{}.pkl".format(self._log_counter)))
-            with open(file_path, "wb") as handle:
-                pickle.dump(data, handle)
+            _write_pickle(data, file_path)
             self._logger.info("Data saved to %s", file_path)
 
     def write_checkpoint(self, filename: str) -> None:
@@ -454,8 +453,7 @@ class OptimizationPlan:
         self._logger.info("Saving checkpoint file: %s", checkpoint_file)
 
         # Save the data.
-        with open(checkpoint_file, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(data, checkpoint_file)
 
     def read_checkpoint(self, filename: str) -> None:
         """Reads a chekcpoint file.
@@ -735,6 +733,22 @@ class OptimizationPlan:
         pop_plan()
 
 
+def _write_pickle(data: Dict, file_path: str) -> None:
+    """Writes a Pickle file such that it is either complete or not there.
+
+    Log and checkpoint files are used to resume after a crash so a crash in the
+    middle of writing one of them must not leave an incomplete file behind.
+
+    Args:
+        data: Data to write.
+        file_path: Path of the file.
+    """
+    temp_path = "{}.tmp".format(file_path)
+    with open(temp_path, "wb") as handle:
+        pickle.dump(data, handle)
+    os.replace(temp_path, file_path)
+
+
 def push_plan(plan: OptimizationPlan) -> None:
     optplan.GLOBAL_PLAN_STACK.append(plan)
 
-- 
2.43.0


From c2d45e2625342358bcce684971526b2ffd0c1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 107/130] fix: plane wave sources transmit the requested power

---
 spins/fdfd_tools/free_space_sources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/fdfd_tools/free_space_sources.py b/spins/fdfd_tools/free_space_sources.py
index 04d1911..53a0066 100644
--- a/spins/fdfd_tools/free_space_sources.py
+++ b/spins/fdfd_tools/free_space_sources.py
@@ -327,8 +327,10 @@ def build_plane_wave_source(eps_grid: Grid,
                                                  omega=omega,
                                                  dxes=dxes,
                                                  slices=slices_P)
-    fields['E'] /= np.sqrt(abs(P))
-    fields['H'] /= np.sqrt(abs(P))
+    # `P` is the integral of `E x H*`, i.e. twice the time-averaged power.
+    scale = np.sqrt(2 * power / abs(P))
+    fields['E'] = [scale * e for e in fields['E']]
+    fields['H'] = [scale * h for h in fields['H']]
     fields['E'] = [mask * e for e in fields['E']]
     fields['H'] = [mask * h for h in fields['H']]
 
-- 
2.43.0


From fd2d608d8db79acf404d31737d55e6c9ca4518b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 108/130] fix: gaussian beams along x and y are centered at the
 given position

---
 spins/fdfd_tools/free_space_sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spins/fdfd_tools/free_space_sources.py b/spins/fdfd_tools/free_space_sources.py
index 53a0066..ec89f07 100644
--- a/spins/fdfd_tools/free_space_sources.py
+++ b/spins/fdfd_tools/free_space_sources.py
@@ -400,6 +400,10 @@ def build_gaussian_source(eps_grid: Grid,
     Returns:
         Current source J.
     """
+    # The scalar field is evaluated in coordinates in which the third one is
+    # along `axis`.
+    center = [center[i] for i in np.roll(range(3), 2 - axis)]
+
     # Make scalar fields.
     eps_val = np.real(np.average(eps_grid.grids[0][tuple(slices)]))
     scalar_field_function = lambda x, y, z, R: gaussian_beam_z_axis_x_pol(
-- 
2.43.0


From 89ddd487bd727913ee15bf69a2a9c64516638098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 109/130] fix: plane wave sources accept borders of any number
 of cells

---
 spins/fdfd_tools/free_space_sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_tools/free_space_sources.py b/spins/fdfd_tools/free_space_sources.py
index ec89f07..c45c020 100644
--- a/spins/fdfd_tools/free_space_sources.py
+++ b/spins/fdfd_tools/free_space_sources.py
@@ -278,11 +278,11 @@ def build_plane_wave_source(eps_grid: Grid,
         coords = []
         for i in range(3):
             if (size[i] - 1) > 2 * border[i] and border[i] > 0:
-                d = 1 / np.array(border[i])
+                ramp = np.arange(1, border[i] + 1) / border[i]
                 x = np.hstack([
-                    np.arange(1, 0, -d),
+                    ramp[::-1],
                     np.zeros(size[i] - 2 * border[i]),
-                    np.arange(d, 1 + d, d)
+                    ramp,
                 ])
             else:
                 x = np.zeros(size[i])
-- 
2.43.0


From f8b75efb3b2c6d3870b6a8a65e3294ed8db64b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 110/130] fix: free-space sources leave the given slices and
 borders alone

---
 spins/fdfd_tools/free_space_sources.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spins/fdfd_tools/free_space_sources.py b/spins/fdfd_tools/free_space_sources.py
index c45c020..8054edb 100644
--- a/spins/fdfd_tools/free_space_sources.py
+++ b/spins/fdfd_tools/free_space_sources.py
@@ -299,8 +299,7 @@ def build_plane_wave_source(eps_grid: Grid,
         return mask
 
     # Prepare border and the mask for be fields.
-    if isinstance(border, int):
-        border = 3 * [border]
+    border = 3 * [border] if isinstance(border, int) else list(border)
     border[axis] = 0  # You can not have a border in the axis direction
     size = [s.stop - s.start for s in slices]
     for i, (b, s) in enumerate(zip(border, size)):
@@ -339,7 +338,7 @@ def build_plane_wave_source(eps_grid: Grid,
 
     # make current
     field_slices = [slice(None, None)] * 3
-    J_slices = slices
+    J_slices = list(slices)
     if polarity == -1:
         ind = slices[axis].start
         field_slices[axis] = slice(None, ind)
@@ -429,7 +428,7 @@ def build_gaussian_source(eps_grid: Grid,
 
     # make current
     field_slices = [slice(None, None)] * 3
-    J_slices = slices
+    J_slices = list(slices)
     if polarity == -1:
         ind = slices[axis].start
         field_slices[axis] = slice(None, ind)
-- 
2.43.0


From 1c9d887ba5a3b19cb967369ef3dcfe22d8c62ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 111/130] fix: caches of EM objectives notice structures that
 are modified in-place

---
 spins/invdes/problem/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index b384270..876a0d1 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -107,7 +107,8 @@ class FdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, electric_fields))
+            # Keep a copy of the structure as it may be modified in-place later.
+            self.cache.append((np.copy(z), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray) -> np.ndarray:
@@ -182,7 +183,8 @@ class AdjointFdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, J, electric_fields))
+            # Keep copies as the arguments may be modified in-place later.
+            self.cache.append((np.copy(z), np.copy(J), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
-- 
2.43.0


From faa71e1d6c9b35ddd62092c78fc6932bc680aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 112/130] fix: adjoint simulations of EM objectives inside the
 PML

---
 spins/invdes/problem/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index 876a0d1..2216203 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -237,7 +237,7 @@ class AdjointFdfdSimulation:
         new_J = np.copy(fdfd_tools.unvec(J, self.sim.dims))
 
         for k in range(3):
-            new_J[k] /= np.conj(s[k])
+            new_J[k] /= s[k]
         new_J = fdfd_tools.vec(new_J)
         mu = None
         if self.sim.mu is not None:
@@ -256,6 +256,6 @@ class AdjointFdfdSimulation:
         # Unvec to undo right pre-conditioner.
         efields = fdfd_tools.unvec(efields, self.sim.dims)
         for i in range(3):
-            efields[i] = np.multiply(efields[i], np.conj(s[i]))
+            efields[i] = np.multiply(efields[i], s[i])
         efields = fdfd_tools.vec(efields)
         return efields
-- 
2.43.0


From c6387eb7e6a9a9aa880f9e8611b6d73bdb93fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 113/130] fix: gradient of BasicOverlapObjective for odd powers

---
 spins/invdes/problem/emobjective.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem/emobjective.py b/spins/invdes/problem/emobjective.py
index 797e524..1832503 100644
--- a/spins/invdes/problem/emobjective.py
+++ b/spins/invdes/problem/emobjective.py
@@ -269,12 +269,12 @@ class BasicOverlapObjective(EmObjective):
         Cx = np.array(C.H.dot(x))
         overlap = np.abs(Cx)
 
-        f0 = ((overlap < alpha) * (overlap - alpha) +
-              (beta < overlap) * (beta - overlap))
+        f0 = ((overlap < alpha) * (alpha - overlap) +
+              (beta < overlap) * (overlap - beta))
 
         df0_viol_dx = scipy.sparse.diags(
-            (1 * (overlap < alpha) - 1 *
-             (beta < overlap)) * 0.5 * np.conj(Cx) / overlap) @ C.H
+            (1 * (beta < overlap) - 1 *
+             (overlap < alpha)) * 0.5 * np.conj(Cx) / overlap) @ C.H
 
         df_viol_dx = (
             pf * scipy.sparse.diags(f0**(pf - 1)) * df0_viol_dx).sum(axis=0)
-- 
2.43.0


From a545143ed0c8102878e78dfca97ba6994010da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 114/130] fix: far-field objectives can be created and subtract
 the background

---
 spins/invdes/problem/ffobjective.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spins/invdes/problem/ffobjective.py b/spins/invdes/problem/ffobjective.py
index aa2ae10..660e4c4 100644
--- a/spins/invdes/problem/ffobjective.py
+++ b/spins/invdes/problem/ffobjective.py
@@ -84,11 +84,11 @@ class DirectedPower(EmObjective):
             scipy.sparse.eye(n_points),
             scipy.sparse.eye(n_points)
         ])
-        points2triangles = farfield.farfield.points2triangles_averaging_matrix(
+        points2triangles = farfield.points2triangles_averaging_matrix(
             self.points, self.triangles)
-        area_vector = area_selection_vector(self.points, self.triangles,
-                                            FF_cond['th_bounds'],
-                                            FF_cond['ph_bounds'])
+        area_vector = farfield.area_selection_vector(
+            self.points, self.triangles, FF_cond['th_bounds'],
+            FF_cond['ph_bounds'])
         self.directed_power_vector = area_vector @ points2triangles @ sum_matrix
 
         # initialize direcitivity and FarField
@@ -96,7 +96,7 @@ class DirectedPower(EmObjective):
 
     def calculate_partial_df_dx(self, x, z):
         if self.E_background is not None:
-            E = x - E_background
+            E = x - self.E_background
         else:
             E = x
 
@@ -109,11 +109,11 @@ class DirectedPower(EmObjective):
 
     def calculate_f(self, x, z):
         if self.E_background is not None:
-            E = x - E_background
+            E = x - self.E_background
         else:
             E = x
 
-        self.FarField = self.FF_projection_matrix @ x
+        self.FarField = self.FF_projection_matrix @ E
         directed_power = 0.5 * self.directed_power_vector @ np.abs(
             self.FarField)**2
 
@@ -195,7 +195,7 @@ class BasicScatter(EmObjective):
 
     def calculate_partial_df_dx(self, x, z):
         if self.E_background is not None:
-            E = x - E_background
+            E = x - self.E_background
         else:
             E = x
 
@@ -234,7 +234,7 @@ class BasicScatter(EmObjective):
     def calculate_f(self, x, z):
         #Test for background
         if self.E_background is not None:
-            E = x - E_background
+            E = x - self.E_background
         else:
             E = x
         #calculate far field
-- 
2.43.0


From 0274df4b425144d7ca285835967d0d15aebeb4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 115/130] fix: far-field coordinate transformations work with
 current numpy

---
 spins/invdes/problem/farfield.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/spins/invdes/problem/farfield.py b/spins/invdes/problem/farfield.py
index 0286128..5eda392 100644
--- a/spins/invdes/problem/farfield.py
+++ b/spins/invdes/problem/farfield.py
@@ -596,8 +596,8 @@ def cart2spheric_matrix(x: np.array, y: np.array, z: np.array,
           np.sin(th) * np.sin(ph),
           np.cos(th)],
          [np.cos(th) * np.cos(ph),
-          np.cos(th) * np.sin(ph), -np.sin(th)], [-np.sin(ph),
-                                                  np.cos(ph), 0]])
+          np.cos(th) * np.sin(ph), -np.sin(th)],
+         [-np.sin(ph), np.cos(ph), np.zeros_like(ph)]])
     # roll to get the axis correct
     t_3d = np.roll(t_3d, 2 - axis, axis=1)
     # make sparse transformation matrix
@@ -634,20 +634,21 @@ def spheric2cart_matrix(r: np.array, th: np.array, ph: np.array,
           np.cos(th) * np.cos(ph), -np.sin(ph)],
          [np.sin(th) * np.sin(ph),
           np.cos(th) * np.sin(ph),
-          np.cos(ph)], [np.cos(th), -np.sin(th), 0]])
+          np.cos(ph)], [np.cos(th), -np.sin(th),
+                        np.zeros_like(ph)]])
     # roll to get the axis correct
     t_3d = np.roll(t_3d, 2 - axis, axis=0)
 
     # make sparse transformation matrix
-    t00 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 0] * np.ones_like(x)))
-    t01 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 1] * np.ones_like(x)))
-    t02 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 2] * np.ones_like(x)))
-    t10 = sparse.csr_matrix(sp.sparse.diags(t_3d[1, 0] * np.ones_like(x)))
-    t11 = sparse.csr_matrix(sp.sparse.diags(t_3d[1, 1] * np.ones_like(x)))
-    t12 = sparse.csr_matrix(sp.sparse.diags(t_3d[1, 2] * np.ones_like(x)))
-    t20 = sparse.csr_matrix(sp.sparse.diags(t_3d[2, 0] * np.ones_like(x)))
-    t21 = sparse.csr_matrix(sp.sparse.diags(t_3d[2, 1] * np.ones_like(x)))
-    t22 = sparse.csr_matrix(sp.sparse.diags(t_3d[2, 2] * np.ones_like(x)))
+    t00 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 0] * np.ones_like(th)))
+    t01 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 1] * np.ones_like(th)))
+    t02 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 2] * np.ones_like(th)))
+    t10 = sparse.csr_matrix(sp.sparse.diags(t_3d[1, 0] * np.ones_like(th)))
+    t11 = sparse.csr_matrix(sp.sparse.diags(t_3d[1, 1] * np.ones_like(th)))
+    t12 = sparse.csr_matrix(sp.sparse.diags(t_3d[1, 2] * np.ones_like(th)))
+    t20 = sparse.csr_matrix(sp.sparse.diags(t_3d[2, 0] * np.ones_like(th)))
+    t21 = sparse.csr_matrix(sp.sparse.diags(t_3d[2, 1] * np.ones_like(th)))
+    t22 = sparse.csr_matrix(sp.sparse.diags(t_3d[2, 2] * np.ones_like(th)))
 
     t = sparse.bmat([[t00, t01, t02], [t10, t11, t12], [t20, t21, t22]])
 
-- 
2.43.0


From cf160593ceea55e83a03d1ea4ea1273f82990cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:37 +0000
Subject: [PATCH 116/130] fix: near-to-far-field transformation uses the
 positions of the fields

The fields are interpolated to the position of the H component normal to the
plane, but the phases of their contributions were those of the cell centers,
half a cell away along both tangential axes. The contributions of the faces
of a box hence did not match each other.
---
 spins/invdes/problem/farfield.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem/farfield.py b/spins/invdes/problem/farfield.py
index 5eda392..04a81bf 100644
--- a/spins/invdes/problem/farfield.py
+++ b/spins/invdes/problem/farfield.py
@@ -93,8 +93,14 @@ def make_near2farfield_matrix(points: np.array,
     z_slice = slice(
         find_ind(pos[2] - width[2] / 2, z),
         find_ind(pos[2] + width[2] / 2, z) + abs(normal[2]), 1)
+    # Both fields are moved to the position of the H component along the normal,
+    # which is half a cell further along the two other axes.
+    pos_H = [
+        grid.xyz[i] if i == axis else np.asarray(grid.exyz[i])[1:]
+        for i in range(3)
+    ]
     x_crop, y_crop, z_crop, dx_crop, dy_crop, dz_crop, fos = fields_on_slice(
-        x, y, z, dxes, x_slice, y_slice, z_slice)
+        pos_H[0], pos_H[1], pos_H[2], dxes, x_slice, y_slice, z_slice)
 
     # Calculate the area elements
     d_crop = [dx_crop, dy_crop, dz_crop]
-- 
2.43.0


From ae99bcaacde5bae6cbb5d120f71a8999e21b72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:37 +0000
Subject: [PATCH 117/130] fix: far-field selections that span half a turn are
 never empty

---
 spins/invdes/problem/farfield.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem/farfield.py b/spins/invdes/problem/farfield.py
index 04a81bf..cc4582d 100644
--- a/spins/invdes/problem/farfield.py
+++ b/spins/invdes/problem/farfield.py
@@ -780,8 +780,12 @@ def triangle_selection_vector(points: np.ndarray, triangles: np.ndarray,
     ph0 = np.cos(bound_ph[0]) + 1j * np.sin(bound_ph[0])
     ph1 = np.cos(bound_ph[1]) + 1j * np.sin(bound_ph[1])
     if (np.diff(bound_ph)[0] <= np.pi):
+        ph_width = np.angle(ph1 / ph0)
+        # Rounding errors may turn a width of pi into -pi.
+        if np.isclose(ph_width, -np.pi):
+            ph_width = np.pi
         s_ph = np.logical_and(
-            np.angle(php / ph0) < np.angle(ph1 / ph0),
+            np.angle(php / ph0) < ph_width,
             np.angle(php / ph0) > 0)
     else:
         s_ph = np.logical_not(
-- 
2.43.0


From afff230f700a58015f169800566b8ee7aa952df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:02 +0000
Subject: [PATCH 118/130] fix: spherical coordinates around the x and y axis

The components of the unit vectors were permuted in the wrong direction: the
unit vectors about the x axis were those about the y axis and vice versa.
---
 spins/invdes/problem/farfield.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/spins/invdes/problem/farfield.py b/spins/invdes/problem/farfield.py
index cc4582d..f70cbe3 100644
--- a/spins/invdes/problem/farfield.py
+++ b/spins/invdes/problem/farfield.py
@@ -605,7 +605,7 @@ def cart2spheric_matrix(x: np.array, y: np.array, z: np.array,
           np.cos(th) * np.sin(ph), -np.sin(th)],
          [-np.sin(ph), np.cos(ph), np.zeros_like(ph)]])
     # roll to get the axis correct
-    t_3d = np.roll(t_3d, 2 - axis, axis=1)
+    t_3d = np.roll(t_3d, axis - 2, axis=1)
     # make sparse transformation matrix
     t00 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 0] * np.ones_like(x)))
     t01 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 1] * np.ones_like(x)))
@@ -643,7 +643,7 @@ def spheric2cart_matrix(r: np.array, th: np.array, ph: np.array,
           np.cos(ph)], [np.cos(th), -np.sin(th),
                         np.zeros_like(ph)]])
     # roll to get the axis correct
-    t_3d = np.roll(t_3d, 2 - axis, axis=0)
+    t_3d = np.roll(t_3d, axis - 2, axis=0)
 
     # make sparse transformation matrix
     t00 = sparse.csr_matrix(sp.sparse.diags(t_3d[0, 0] * np.ones_like(th)))
@@ -667,9 +667,13 @@ def spheric2spheric_matrix(r: np.array,
                            initial_axis=2,
                            new_axis=2) -> sp.sparse.csr.csr_matrix:
 
-    x = r * np.cos(ph) * np.sin(th)
-    y = r * np.sin(ph) * np.sin(th)
-    z = r * np.cos(th)
+    # Angles refer to the initial axis.
+    x, y, z = np.roll([
+        r * np.cos(ph) * np.sin(th), r * np.sin(ph) * np.sin(th),
+        r * np.cos(th)
+    ],
+                      initial_axis - 2,
+                      axis=0)
 
     sp2cart = spheric2cart_matrix(r, th, ph, initial_axis)
     cart2sp = cart2spheric_matrix(x, y, z, new_axis)
-- 
2.43.0


From 6b29d8b2b167e47dbe4b0ce1865783bb40077c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:44 +0000
Subject: [PATCH 119/130] fix: polygons of CubicParam are not transposed

Generating the polygons of designs that are not square failed; those of square
designs had x and y exchanged.
---
 spins/invdes/parametrization/parametrization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index a432067..f618353 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -331,7 +331,8 @@ class CubicParam(Parametrization):
         y_extended = np.r_[y_z[0] - dx / 2, y_z, y_z[-1] + dx / 2]
 
         import matplotlib.pyplot as plt
-        cs = plt.contour(x_extended, y_extended, phi_extended - 0.5, [0])
+        # `contour` expects rows along y.
+        cs = plt.contour(x_extended, y_extended, phi_extended.T - 0.5, [0])
         paths = cs.collections[0].get_paths()
 
         return [poly for p in paths for poly in p.to_polygons()]
-- 
2.43.0


From d065db0fb0845bc25cb866aee1b7813940d555ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:44 +0000
Subject: [PATCH 120/130] fix: exported designs of reduced selection matrices
 have the right size

---
 spins/invdes/problem_graph/solver.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index df9b08e..b14954d 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -68,9 +68,14 @@ def run_plan(plan: optplan.OptimizationPlan,
     parametrization = work.get_object(final_parametrization)
     # TODO(logansu): Have a better way of generating GDS than this.
     if hasattr(parametrization, "generate_polygons"):
-        simspace_name = final_parametrization.simulation_space
-        poly_coords = parametrization.generate_polygons(
-            work.get_object(simspace_name).dx)
+        simspace_params = final_parametrization.simulation_space
+        dx = work.get_object(simspace_params).dx
+        # `generate_polygons` takes design pixels to be half a cell wide, but
+        # those of a reduced selection matrix are one cell wide.
+        if (simspace_params.selection_matrix_type ==
+                optplan.SelectionMatrixType.REDUCED.value):
+            dx *= 2
+        poly_coords = parametrization.generate_polygons(dx)
 
         console_logger.info("Exporting GDS of final design.")
         spins.gds.gen_gds(poly_coords,
-- 
2.43.0


From 327f3e3dcbb62de3dd250c162751814c65653287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:49 +0000
Subject: [PATCH 121/130] fix: goos.Slice with a negative or out-of-range index
 is not an empty array

---
 spins/goos/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index d84c79e..57b9776 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -592,7 +592,9 @@ class Slice(Function):
         slices = []
         for i, dim in enumerate(shape):
             if isinstance(self._slices[i], int):
-                slices += [slice(self._slices[i], self._slices[i] + 1)]
+                # Negative indices count from the end.
+                ind = range(dim)[self._slices[i]]
+                slices += [slice(ind, ind + 1)]
             elif isinstance(self._slices[i], List):
                 slices += [slice(self._slices[i][0], self._slices[i][1])]
             elif self._slices[i] == "c" or self._slices[i] == "center":
-- 
2.43.0


From 0fb89156c518cd7e55b72eff0135f12b7f0597d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:49 +0000
Subject: [PATCH 122/130] fix: goos gradients given as None have the shape of
 their input when summed

---
 spins/goos/flows.py          | 2 +-
 spins/goos/graph_executor.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index c37c1f4..6ea78c6 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -202,7 +202,7 @@ class NumericFlow(Flow):
         array_grad: np.ndarray = np_zero_field(1)
 
         def __iadd__(self, value):
-            self.array_grad += value.array_grad
+            self.array_grad = self.array_grad + value.array_grad
             return super().__iadd__(value)
 
         def __eq__(self, value) -> bool:
diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 2de6a28..4ca5c20 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -309,7 +309,11 @@ def eval_grad(
         # empty gradient structure.
         for i in range(len(node_grad_vals)):
             if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(fun_vals[graph[node][i]]).Grad()
+                flow = fun_vals[graph[node][i]]
+                node_grad_vals[i] = type(flow).Grad()
+                if isinstance(flow, flows.NumericFlow):
+                    node_grad_vals[i].array_grad = np.zeros(
+                        np.shape(flow.array))
 
         # Update the gradient values.
         for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
-- 
2.43.0


From 4af3c0d2e711ae405b4730c08b5ca552e66e5c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:20 +0000
Subject: [PATCH 123/130] fix: goos plans do not share the arrays of their
 state with their callers

---
 spins/goos/optplan/optplan.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 4a725b9..bee705e 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -352,9 +352,9 @@ class OptimizationPlan:
         var_data = {}
         for var_name, var_val in self._var_value.items():
             var_data[var_name] = {
-                "value": var_val,
+                "value": var_val.copy(),
                 "frozen": self._var_frozen[var_name],
-                "bounds": self._var_bounds[var_name],
+                "bounds": copy.deepcopy(self._var_bounds[var_name]),
             }
 
         data = {
@@ -534,7 +534,7 @@ class OptimizationPlan:
     @_requires_action
     def set_var_bounds(self, node: "goos.Variable",
                        bounds: List[np.ndarray]) -> List[np.ndarray]:
-        self._var_bounds[node._goos_name] = copy.copy(bounds)
+        self._var_bounds[node._goos_name] = copy.deepcopy(bounds)
 
     def get_var_value(self, node: "goos.Variable") -> np.ndarray:
         return self._var_value[node._goos_name].copy()
-- 
2.43.0


From 522eae0af7417f346cd42e1fecc20e960e3315d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:24 +0000
Subject: [PATCH 124/130] fix: goos groups of shapes can be translated

---
 spins/goos/shapes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index 8de6bcd..7f7f00c 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -505,7 +505,12 @@ class TranslateShape(Shape):
         return inputs[0]
 
     def eval(self, inputs: List[ShapeFlow]) -> ShapeFlow:
-        flow = copy.deepcopy(inputs[0])
+        return self._translate(inputs[0])
+
+    def _translate(self, shape: ShapeFlow) -> ShapeFlow:
+        if isinstance(shape, goos.ArrayFlow):
+            return goos.ArrayFlow([self._translate(flow) for flow in shape])
+        flow = copy.deepcopy(shape)
         flow.pos = flow.pos + np.asarray(self._offset)
         return flow
 
-- 
2.43.0


From b4228de0591c615eeb4105a11de0138fba3eb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 125/130] fix: the Maxwell client retries when a reply is cut
 off

---
 spins/fdfd_solvers/maxwell.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 0b78659..3a55a47 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -15,6 +15,11 @@ import spins.fdfd_tools as fdfd_tools
 
 logger = logging.getLogger(__name__)
 
+# A connection that fails while the reply is being received is reported as a
+# `ChunkedEncodingError`, which is not a `ConnectionError`.
+CONNECTION_ERRORS = (requests.exceptions.ConnectionError,
+                     requests.exceptions.ChunkedEncodingError)
+
 
 def upload_files(server_url: str, directory: str, filenames: List[str]):
     """ Uploads a list of files to the given server. """
@@ -30,7 +35,7 @@ def upload_files(server_url: str, directory: str, filenames: List[str]):
                                   data={'key': filename},
                                   files={'file': f})
                     succeeded = True
-                except requests.exceptions.ConnectionError:
+                except CONNECTION_ERRORS:
                     logger.exception('ConnectionError during upload: ' +
                                      filename)
                     # Random retry time to prevent DoS on any machine.
@@ -49,7 +54,7 @@ def download_files(server_url: str, directory: str, filenames: List[str]):
                     r = requests.get(server_url + filename)
                     f.write(r.content)
                     succeeded = True
-                except requests.exceptions.ConnectionError:
+                except CONNECTION_ERRORS:
                     logger.exception('ConnectionError during download: ' +
                                      filename)
                     # Random retry time to prevent DoS on any machine.
@@ -291,7 +296,7 @@ class MaxwellSolver:
                     time.sleep(5)
                 elif check_existence('finished'):
                     break
-            except requests.exceptions.ConnectionError:
+            except CONNECTION_ERRORS:
                 logger.exception(
                     'ConnectionError while waiting for results. Retrying...')
                 # Random retry time to prevent DoS on any machine.
-- 
2.43.0


From 874e92404387ed4839e8b606ff7240a2418c4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:44 +0000
Subject: [PATCH 126/130] fix: remote adjoint solves agree with local ones for
 complex frequencies

---
 spins/fdfd_solvers/maxwell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 3a55a47..d60c51c 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -183,6 +183,8 @@ class MaxwellSolver:
         dxes = [[dxes[j][i][slices[i]] for i in range(3)] for j in range(2)]
 
         if adjoint:
+            # The current is multiplied by the conjugated frequency later.
+            J = J * (omega / np.conj(omega))
             omega = np.conj(omega)
             mu = np.conj(mu)
             epsilon = np.conj(epsilon)
-- 
2.43.0


From 84a14d96ebf8896505b30c7589ab8b0c9b6a0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:34 +0000
Subject: [PATCH 127/130] fix: a penalty optimizer can be used for several
 problems

---
 spins/invdes/optimization/constrained_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/invdes/optimization/constrained_optimizer.py b/spins/invdes/optimization/constrained_optimizer.py
index edadb54..a51fb0d 100644
--- a/spins/invdes/optimization/constrained_optimizer.py
+++ b/spins/invdes/optimization/constrained_optimizer.py
@@ -108,6 +108,8 @@ class PenaltyOptimizer:
             mu = mu**self.tau
             if cycle_callback:
                 cycle_callback(slack_param.get_param())
+        # The next problem starts from the first cycle.
+        self.cycle_num = 0
         return slack_param.get_param()
 
 
-- 
2.43.0


From 47f5f0754f7c12d6fe2b071d27f1e3fb2c787886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:15 +0000
Subject: [PATCH 128/130] fix: periodic Hermite parametrizations accept values
 on the whole grid

---
 spins/invdes/parametrization/parametrization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index f618353..f654428 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -401,7 +401,7 @@ class HermiteParam(Parametrization):
                 self.geometry_matrix.shape[1])
         elif len(initial_value) == self.geometry_matrix.shape[1]:
             self.vector = initial_value
-        elif len(initial_value) == self.geometry_matrix.shape[0]:
+        elif len(initial_value) == self.reverse_geometry_matrix.shape[1]:
             self.vector = self.reverse_geometry_matrix @ initial_value
         elif len(initial_value) == self.derivative_matrix.shape[1]:
             self.vector = self.reverse_geometry_matrix @ \
@@ -458,7 +458,7 @@ class HermiteParam(Parametrization):
             self.vector = vector * np.ones(self.geometry_matrix.shape[1])
         elif len(vector) == self.geometry_matrix.shape[1]:
             self.vector = vector
-        elif len(vector) == self.geometry_matrix.shape[0]:
+        elif len(vector) == self.reverse_geometry_matrix.shape[1]:
             self.vector = self.reverse_geometry_matrix @ vector
         #TODO vcruysse: account for the following cases
         #elif len(initial_value) == symmetry_matrix.shape[1]*4:
-- 
2.43.0


From 3d7e384db2d8f326ba06ffbd66bfb174f5e4b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:29 +0000
Subject: [PATCH 129/130] fix: gradients of EM objectives at complex
 frequencies

---
 spins/invdes/problem/emobjective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/emobjective.py b/spins/invdes/problem/emobjective.py
index 1832503..397052a 100644
--- a/spins/invdes/problem/emobjective.py
+++ b/spins/invdes/problem/emobjective.py
@@ -48,7 +48,7 @@ class EmObjective(OptimizationFunction):
              @ self.sim.selection_matrix)
         d = self.adjoint_sim.simulate(
             struct,
-            np.conj(partial_df_dx) / (-1j * self.sim.omega))
+            np.conj(partial_df_dx) / (-1j * np.conj(self.sim.omega)))
         total_df_dz = 2 * np.real(np.conj(np.transpose(d)) @ B)
 
         return total_df_dz
-- 
2.43.0


From d6d22d83f9cf2e5c8e0e2a82658d8e42adce1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:53 +0000
Subject: [PATCH 130/130] fix: goos.log_print prints any node, not only
 functions

A single shape (or other node that is not a Function) was iterated over.
---
 spins/goos/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 9021dad..772cf92 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -129,7 +129,7 @@ class LogPrint(goos.Action):
             plan.logger.info(self._obj)
             return
 
-        if isinstance(self._obj, goos.Function):
+        if isinstance(self._obj, goos.ProblemGraphNode):
             nodes = [self._obj]
         else:
             nodes = self._obj
-- 
2.43.0

