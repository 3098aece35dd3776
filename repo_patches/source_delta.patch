From a47b3ce31f5ee31cb51f5fdfd93f2ff55b0e5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 01/63] fix: is_chain accepts graphs without edges (or with
 parallel edges) on two nodes

---
 pystruct/inference/maxprod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index b08900e..ec1ac61 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -15,7 +15,8 @@ def edges_to_graph(edges, n_vertices=None):
 
 def is_chain(edges, n_vertices):
     """Check if edges specify a chain and are in order."""
-    return (np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
+    return (len(edges) == n_vertices - 1
+            and np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
             and np.all(edges[:, 1] == np.arange(1, n_vertices)))
 
 
-- 
2.43.0


From 97d691df420a0131c82c1007ba43b955edd4fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 02/63] fix: is_forest on graphs without edges and with
 parallel edges

---
 pystruct/utils/graph_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystruct/utils/graph_functions.py b/pystruct/utils/graph_functions.py
index c7004c2..52fffc9 100644
--- a/pystruct/utils/graph_functions.py
+++ b/pystruct/utils/graph_functions.py
@@ -4,6 +4,8 @@ import numpy as np
 def is_forest(edges, n_vertices=None):
     if n_vertices is not None and len(edges) > n_vertices - 1:
         return False
+    if len(edges) == 0:
+        return True
     n_vertices = np.max(edges) + 1
     parents = -np.ones(n_vertices)
     visited = np.zeros(n_vertices, dtype=np.bool)
@@ -30,4 +32,5 @@ def is_forest(edges, n_vertices=None):
                     visited[neighbor] = True
                 elif not parents[node] == neighbor:
                     return False
-    return True
+    # parallel edges are cycles, too
+    return np.sum(parents != -1) == len(edges)
-- 
2.43.0


From a68052ec7b961d42491ba6094793e384e2992926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 03/63] fix: max-product on trees decodes inconsistent labels
 when the optimum is not unique

---
 pystruct/inference/maxprod.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index ec1ac61..a2f0ec8 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -75,7 +75,6 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
         neighbors[edge[1]].append(edge[0])
         pairwise_weights[edge[1]].append(pw.T)
 
-    messages_forward = np.zeros((n_vertices, n_states))
     messages_backward = np.zeros((n_vertices, n_states))
     pw_forward = np.zeros((n_vertices, n_states, n_states))
     # build a breadth first search of the tree
@@ -110,20 +109,17 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
                              pw_forward[node], axis=1)
             message -= message.max()
             messages_backward[parent] += message
-    # messages from root back to leaves
+    # decode from root back to leaves, each node given the state of its parent
+    # (maximizing the max-marginals independently fails if the optimum is not
+    # unique)
+    y = np.zeros(n_vertices, dtype=np.int)
     for node in traversal:
         parent = parents[node]
+        scores = messages_backward[node] + unary_potentials[node]
         if parent != -1:
-            message = messages_forward[parent] + unary_potentials[parent] + pw_forward[node].T
-            # leaves to root messages from other children
-            message += messages_backward[parent] - np.max(messages_backward[node]
-                                                          + unary_potentials[node]
-                                                          + pw_forward[node], axis=1)
-            message = message.max(axis=1)
-            message -= message.max()
-            messages_forward[node] += message
-
-    return np.argmax(unary_potentials + messages_forward + messages_backward, axis=1)
+            scores = scores + pw_forward[node][y[parent]]
+        y[node] = np.argmax(scores)
+    return y
 
 
 def iterative_max_product(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 898824146a68450d7ec547b5453c9cfd1bdc8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 04/63] fix: inference_max_product ignores its tol parameter

---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index a2f0ec8..815af04 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -59,7 +59,7 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
         y = tree_max_product(unary_potentials, pairwise_potentials, edges)
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
-                                  max_iter=max_iter, damping=damping)
+                                  max_iter=max_iter, damping=damping, tol=tol)
     return y
 
 
-- 
2.43.0


From 3bb72ec2d21b5f9ba4106531fdcdd4635da2731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 05/63] fix: inference_dispatch ignores return_energy for
 max-product, unary and qpbo

---
 pystruct/inference/inference_methods.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 1b85793..bda2a3f 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from .linear_programming import lp_general_graph
 from .maxprod import inference_max_product
-from .common import _validate_params
+from .common import _validate_params, compute_energy
 
 def get_installed(method_filter=None):
     if method_filter is None:
@@ -96,6 +96,12 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
         # got
         kwargs = kwargs.copy()
         kwargs.update(additional_kwargs)
+    if return_energy and inference_method in ("qpbo", "unary", "max-product"):
+        # these don't report an energy, so evaluate the solution they return
+        y = inference_dispatch(unary_potentials, pairwise_potentials, edges,
+                               inference_method, **kwargs)
+        return y, -compute_energy(unary_potentials, pairwise_potentials,
+                                  edges, y)
     if inference_method == "qpbo":
         return inference_qpbo(unary_potentials, pairwise_potentials, edges,
                               **kwargs)
-- 
2.43.0


From 9513e353307d096d53f3c6a244cd42e578d49c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 06/63] fix: BinaryClf loss-augmented inference returns label 0
 for points on the margin

---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..35fbd94 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,10 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From fbe16ef3f4af2419a5747106b31fbc66465d53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 07/63] fix: BinaryClf.batch_joint_feature doesn't accept
 Y_true as the learners pass it

---
 pystruct/models/unstructured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 35fbd94..e740b33 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -64,7 +64,7 @@ class BinaryClf(StructuredModel):
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
         return y * x / 2.
 
-    def batch_joint_feature(self, X, Y):
+    def batch_joint_feature(self, X, Y, Y_true=None):
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
-- 
2.43.0


From ae906361f218c01b9624599b7f600e319ca6c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 08/63] fix: FrankWolfeSSVM fails on models with rescale_C

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..045ef23 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -132,7 +132,7 @@ class FrankWolfeSSVM(BaseSSVM):
         joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -158,7 +158,7 @@ class FrankWolfeSSVM(BaseSSVM):
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
-- 
2.43.0


From f2f259c8ae8e22eb39be502598b31fe857e3843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 09/63] fix: FrankWolfeSSVM refit starts from weights that
 don't match its dual variables

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 045ef23..668ffff 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -290,8 +290,8 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
-- 
2.43.0


From ecd271ba1a80c6d8e894c12804b6fee63baeb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 10/63] fix: FrankWolfeSSVM fails with check_dual_every=0

---
 pystruct/learners/frankwolfe_ssvm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 668ffff..dc2d8a7 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -205,6 +205,7 @@ class FrankWolfeSSVM(BaseSSVM):
         l_mat = np.zeros(n_samples)
         l = 0.0
         k = 0
+        dual_gap = np.inf
 
         rng = check_random_state(self.random_state)
         for iteration in range(self.max_iter):
@@ -303,7 +304,10 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        if self.objective_curve_:
+            self.objective_curve_.append(self.objective_curve_[-1])
+        else:
+            self.objective_curve_.append(self._calc_dual_gap(X, Y)[0])
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From ea937b93625e42dd5f04bad9b68653d18310108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 11/63] fix: OneSlackSSVM inference cache fails on models with
 rescale_C

---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..5a49bb1 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -325,8 +325,11 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-- 
2.43.0


From 7ad948bf540fff63beab40c996df423deff1f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 12/63] fix: OneSlackSSVM.constraint_equal fails on two relaxed
 labelings

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 5a49bb1..f99b57b 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -298,7 +298,7 @@ class OneSlackSSVM(BaseSSVM):
                         and all(np.all(_pw1 == _pw2) for _pw1, _pw2
                                 in zip(pw_m_1, pw_m_2))
                 else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
+                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1 == pw_m_2)
             else:
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
-- 
2.43.0


From c41597deaf3094ec2ce50ac76124294e288363c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 13/63] fix: OneSlackSSVM.fit fails if no constraint is
 violated (e.g. warm start at the optimum)

---
 pystruct/learners/one_slack_ssvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index f99b57b..22bfc61 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -455,6 +455,8 @@ class OneSlackSSVM(BaseSSVM):
             constraints = self.constraints_
 
         self.last_slack_ = -1
+        # stays like this if there is no new constraint
+        objective = self.objective_curve_[-1] if self.objective_curve_ else 0
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
-- 
2.43.0


From 2515b411f501ea976c562fdc61cd498f4e3b5ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 14/63] fix: SubgradientSSVM mini-batches fail on models with
 rescale_C

---
 pystruct/learners/subgradient_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..efe59c2 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -301,8 +301,8 @@ class SubgradientSSVM(BaseSSVM):
                 Y_b = Y[batch]
                 Y_hat = self.model.batch_loss_augmented_inference(
                     X_b, Y_b, w, relaxed=True)
-                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b)
-                                       - self.model.batch_joint_feature(X_b, Y_hat))
+                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b, Y_b)
+                                       - self.model.batch_joint_feature(X_b, Y_hat, Y_b))
                 loss = np.sum(self.model.batch_loss(Y_b, Y_hat))
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
-- 
2.43.0


From 99e9ff156c9007174f9e4f8b7f0b4f268c7f5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 15/63] fix: loss-augmented inference fails with integer class
 weights

---
 pystruct/models/base.py      | 2 +-
 pystruct/models/typed_crf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index 8e3fa44..7c8ffd4 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -112,7 +112,7 @@ class StructuredModel(object):
             if len(self.class_weight) != n_things:
                 raise ValueError("class_weight must have length n_states or"
                                  " be None")
-            self.class_weight = np.array(self.class_weight)
+            self.class_weight = np.array(self.class_weight, dtype=float)
             self.uniform_class_weight = False
         else:
             self.class_weight = np.ones(n_things)
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..56ae4fd 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -86,7 +86,7 @@ class TypedCRF(CRF):
                                      " per node type. Wrong for type %d" % i)
 
             # class weights are computed by type and simply concatenated
-            self.l_class_weight = [np.asarray(class_weight)
+            self.l_class_weight = [np.asarray(class_weight, dtype=float)
                                    for class_weight in l_class_weight]
         else:
             self.l_class_weight = [np.ones(n) for n in self.l_n_states]
-- 
2.43.0


From c51ce6f793fde59e8310cf063bf497fc2813e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 16/63] fix: TypedCRF.initialize checks nothing on Python 3
 (lazy map)

---
 pystruct/models/typed_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 56ae4fd..73d064d 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -155,9 +155,11 @@ class TypedCRF(CRF):
         It is optional to call it. Does data checking only!
         """
         if isinstance(X, list):
-            map(self._check_size_x, X)
+            for x in X:
+                self._check_size_x(x)
             if not (Y is None):
-                map(self._check_size_xy, X, Y)
+                for x, y in zip(X, Y):
+                    self._check_size_xy(x, y)
         else:
             self._check_size_x(X)
             self._check_size_xy(X, Y)
-- 
2.43.0


From 4bf3612e13b1082fa26a1c8f34329546b94a5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 17/63] fix: TypedCRF.unflattenY fails if the features of a
 type are None

---
 pystruct/models/typed_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 73d064d..5e1f526 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -140,7 +140,7 @@ class TypedCRF(CRF):
         i_start_node = 0
         (l_node_features, l_edges, l_edge_features) = X
         for n_start_state, nf in zip(self._l_type_startindex, l_node_features):
-            n_nodes = nf.shape[0]
+            n_nodes = 0 if nf is None else nf.shape[0]
             Y = flatY[i_start_node: i_start_node+n_nodes] - n_start_state
             lY.append(Y)
             i_start_node += n_nodes
-- 
2.43.0


From d23106f2ecc1ff29cebad46c0e8da2525a38f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 18/63] fix: setInferenceException has no effect

---
 pystruct/models/crf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index ba46682..03bd232 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -59,6 +59,12 @@ class CRF(StructuredModel):
         loss_augment_unaries(unary_potentials, np.asarray(y),
                              self.class_weight)
 
+    def _exception_kwargs(self):
+        # models with setInferenceException
+        if getattr(self, 'inference_exception', False):
+            return {'inference_exception': True}
+        return {}
+
     def loss_augmented_inference(self, x, y, w, relaxed=False,
                                  return_energy=False):
         """Loss-augmented Inference for x relative to y using parameters w.
@@ -115,7 +121,8 @@ class CRF(StructuredModel):
 
         return inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                   self.inference_method, relaxed=relaxed,
-                                  return_energy=return_energy)
+                                  return_energy=return_energy,
+                                  **self._exception_kwargs())
 
     def inference(self, x, w, relaxed=False, return_energy=False,
                   constraints=None):
@@ -174,10 +181,12 @@ class CRF(StructuredModel):
                                       self.inference_method,
                                       relaxed=relaxed,
                                       return_energy=return_energy,
-                                      constraints=constraints)
+                                      constraints=constraints,
+                                      **self._exception_kwargs())
         else:
             return inference_dispatch(unary_potentials, pairwise_potentials,
                                       edges,
                                       self.inference_method,
                                       relaxed=relaxed,
-                                      return_energy=return_energy)
+                                      return_energy=return_energy,
+                                      **self._exception_kwargs())
-- 
2.43.0


From 58d4ef56779fdf7b0962cf99ddd1d3d721b09015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 19/63] fix: directional grids with 8-neighborhood only have
 two kinds of edges

---
 pystruct/utils/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystruct/utils/graph.py b/pystruct/utils/graph.py
index affd1d5..d8e5198 100644
--- a/pystruct/utils/graph.py
+++ b/pystruct/utils/graph.py
@@ -21,7 +21,9 @@ def make_grid_edges(x, neighborhood=4, return_lists=False):
 
 def edge_list_to_features(edge_list):
     edges = np.vstack(edge_list)
-    edge_features = np.zeros((edges.shape[0], 2))
-    edge_features[:len(edge_list[0]), 0] = 1
-    edge_features[len(edge_list[0]):, 1] = 1
+    edge_features = np.zeros((edges.shape[0], len(edge_list)))
+    start = 0
+    for i, direction in enumerate(edge_list):
+        edge_features[start:start + len(direction), i] = 1
+        start += len(direction)
     return edge_features
-- 
2.43.0


From 41a8663c542b93f53ddcacb2094986fb6a0de227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 20/63] fix: LatentDirectionalGridCRF ignores neighborhood

---
 pystruct/models/latent_grid_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index ed312b1..41e8d52 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -66,7 +66,8 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
         self.antisymmetric_edge_features = []
         self.n_edge_features = 2 if neighborhood == 4 else 4
         LatentGridCRF.__init__(self, n_labels, n_features, n_states_per_label,
-                               inference_method=inference_method)
+                               inference_method=inference_method,
+                               neighborhood=neighborhood)
 
     def _set_size_joint_feature(self):
         LatentGridCRF._set_size_joint_feature(self)
-- 
2.43.0


From 545ae0c98173d317eda2c30a84f0b7b1ce4802ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 21/63] fix: LatentDirectionalGridCRF.loss_augmented_inference
 lacks return_energy

---
 pystruct/models/latent_grid_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index 41e8d52..41dab4b 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -86,7 +86,9 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
                         symmetric=False)
         return np.array(H).reshape(Y.shape)
 
-    def loss_augmented_inference(self, x, h, w, relaxed=False):
+    def loss_augmented_inference(self, x, h, w, relaxed=False,
+                                 return_energy=False):
         h = LatentGridCRF.loss_augmented_inference(self, x, h, w,
-                                                   relaxed=relaxed)
+                                                   relaxed=relaxed,
+                                                   return_energy=return_energy)
         return h
-- 
2.43.0


From 1d570e86c981c49cad5450bbfb47b981eb918f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:38 +0000
Subject: [PATCH 22/63] fix: latent models choose forbidden states if pairwise
 potentials are large or unaries negative

---
 pystruct/models/latent_graph_crf.py | 13 +++++++++++--
 pystruct/models/latent_node_crf.py  | 29 +++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index c77e5b6..be0d2e1 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -58,6 +58,13 @@ def kmeans_init(X, Y, all_edges, n_labels, n_states_per_label,
     return H
 
 
+def pairwise_influence(pairwise_potentials, edges):
+    """Bound on how much edges can change the score of a state of a node."""
+    if len(edges) == 0:
+        return 0
+    return np.max(np.bincount(np.ravel(edges))) * np.ptp(pairwise_potentials)
+
+
 class LatentGraphCRF(GraphCRF):
     """CRF with latent states for variables.
 
@@ -174,10 +181,12 @@ class LatentGraphCRF(GraphCRF):
         # forbid h that is incompoatible with y
         # by modifying unary params
         other_states = self._states_map != y[:, np.newaxis]
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[other_states] = -1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        max_entry = np.maximum(np.max(unary_potentials), 1)
+        unary_potentials[other_states] = min(
+            -1e2 * max_entry, np.min(unary_potentials) - 1
+            - pairwise_influence(pairwise_potentials, edges))
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (self.label_from_latent(h) != y).any():
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 14cbd84..e7536fc 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -14,6 +14,7 @@ from scipy import sparse
 from sklearn.cluster import KMeans
 
 from . import GraphCRF
+from .latent_graph_crf import pairwise_influence
 from ..inference import inference_dispatch
 from ..utils import expand_sym, compress_sym
 
@@ -205,9 +206,13 @@ class LatentNodeCRF(GraphCRF):
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
         max_entry = np.maximum(np.max(unaries), 1)
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        forbidden = min(-1e2 * max_entry, np.min(unaries) - 1
+                        - pairwise_influence(
+                            self._get_pairwise_potentials(x, w),
+                            self._get_edges(x)))
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -232,10 +237,12 @@ class LatentNodeCRF(GraphCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        max_entry = np.maximum(np.max(unary_potentials), 1)
+        unary_potentials[np.arange(len(y)), y] = max(
+            1e2 * max_entry, np.max(unary_potentials) + 1
+            + pairwise_influence(pairwise_potentials, edges))
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (h[:len(y)] != y).any():
@@ -505,9 +512,13 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
         max_entry = np.maximum(np.max(unaries), 1)
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        forbidden = min(-1e2 * max_entry, np.min(unaries) - 1
+                        - pairwise_influence(
+                            self._get_pairwise_potentials(x, w),
+                            self._get_edges(x)))
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -532,10 +543,12 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        max_entry = np.maximum(np.max(unary_potentials), 1)
+        unary_potentials[np.arange(len(y)), y] = max(
+            1e2 * max_entry, np.max(unary_potentials) + 1
+            + pairwise_influence(pairwise_potentials, edges))
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (h[:len(y)] != y).any():
-- 
2.43.0


From 766a29e4ea84df31345c8d3c839c5a3103b52b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:38 +0000
Subject: [PATCH 23/63] fix: EdgeFeatureLatentNodeCRF.joint_feature without
 edges and with integer edge features

---
 pystruct/models/latent_node_crf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index e7536fc..2ec0f57 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -619,10 +619,10 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             unary_marginals[gx, y] = 1
 
             # pairwise
-            pw = [np.outer(unary_marginals[edge[0]].T,
-                           unary_marginals[edge[1]]).ravel()
-                  for edge in edges]
-            pw = np.vstack(pw)
+            pw = np.zeros((edges.shape[0], self.n_states ** 2))
+            class_pair_ind = (y[edges[:, 1]] + self.n_states *
+                              y[edges[:, 0]])
+            pw[np.arange(len(edges)), class_pair_ind] = 1
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 1cde7dda93615a1eb3930a2213073e0d8c0a7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:38 +0000
Subject: [PATCH 24/63] fix: LatentNodeCRF.init_latent for samples without
 hidden nodes

---
 pystruct/models/latent_node_crf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 2ec0f57..68065d4 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -44,7 +44,7 @@ def kmeans_init(X, Y, n_labels, n_hidden_states, latent_node_features=False):
 
         graph = sparse.coo_matrix((np.ones(edges.shape[0]), edges.T),
                                   (n_visible + n_hidden, n_visible + n_hidden))
-        graph = (graph + graph.T)[-n_hidden:, :n_visible]
+        graph = (graph + graph.T)[n_visible:, :n_visible]
 
         neighbors = graph * labels_one_hot.reshape(n_visible, -1)
         # normalize (for borders)
@@ -58,9 +58,14 @@ def kmeans_init(X, Y, n_labels, n_hidden_states, latent_node_features=False):
         # for old versions :-/
         km = KMeans(k=n_hidden_states)
 
-    km.fit(all_feats_stacked)
+    if len(all_feats_stacked):
+        km.fit(all_feats_stacked)
     H = []
     for y, feats in zip(Y, all_feats):
+        if len(feats) == 0:
+            # no hidden nodes
+            H.append(y.copy())
+            continue
         H.append(np.hstack([y, km.predict(feats) + n_labels]))
 
     return H
-- 
2.43.0


From c882721f0dc3aef5615a632a4480271d6c9d52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 25/63] fix: setting LatentSSVM.C overwrites the weights

---
 pystruct/learners/latent_structured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index a5c4fa3..aef7542 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -179,7 +179,7 @@ class LatentSSVM(BaseSSVM):
 
     @C.setter
     def C(self, C_):
-        self.base_ssvm.w = C_
+        self.base_ssvm.C = C_
 
     @property
     def n_jobs(self):
-- 
2.43.0


From a810bd21329289c51c83741c90a4a466291edaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 26/63] fix: LatentSSVM.fit doesn't return self

---
 pystruct/learners/latent_structured_svm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index aef7542..0eb9d66 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -125,6 +125,7 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        return self
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
-- 
2.43.0


From b4dcb50922c08da5d937e7c5cdb75986359ce7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 27/63] fix: SubgradientLatentSSVM fails with n_jobs > 1

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..55b7e9b 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -176,7 +176,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From 8d0158f8a8ee06fdbeab72aeb51e38192a30ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 28/63] fix: SubgradientLatentSSVM.score compares labels as if
 they were latent states

---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 55b7e9b..d8a09f0 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -262,12 +262,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
-- 
2.43.0


From 85ce55a95c8d5957de1d9b3e91f497a47571c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 29/63] fix: find_constraint_latent computes the loss as if
 labels were latent states

---
 pystruct/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From 0e78a2bae91251d668188b02896f49bf0bdf9c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 30/63] fix: LatentGraphCRF.max_loss fails on latent states

---
 pystruct/models/latent_graph_crf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index be0d2e1..e258053 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -200,6 +200,10 @@ class LatentGraphCRF(GraphCRF):
         return GraphCRF.loss(self, self.label_from_latent(h),
                              self.label_from_latent(h_hat))
 
+    def max_loss(self, y):
+        # y can be given as labels or as latent states
+        return y.size
+
     def continuous_loss(self, y, y_hat):
         # continuous version of the loss
         # y_hat is the result of linear programming
-- 
2.43.0


From 0548fcefb5a374d7b6fd4f996237b224ca7607ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 31/63] fix: MultiLabelClf.loss fails for a single label

---
 pystruct/models/multilabel_svm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index ed305a8..dd908ab 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -66,6 +66,11 @@ class MultiLabelClf(CRF):
         self._set_size_joint_feature()
         self._set_class_weight()
 
+    def _set_class_weight(self):
+        # the states of all nodes are 0 and 1
+        self.class_weight = np.ones(self.n_states)
+        self.uniform_class_weight = True
+
     def _get_edges(self, x):
         return self.edges
 
-- 
2.43.0


From a62429e0637b37d41c1303aad3c53fe9319be106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 32/63] fix: MultiLabelClf.joint_feature of relaxed labels
 fails on integer features

---
 pystruct/models/multilabel_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index dd908ab..8225adc 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -91,7 +91,7 @@ class MultiLabelClf(CRF):
             y_cont, pairwise_marginals = y
             y_signs = 2 * y_cont[:, 1] - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
         else:
             # discrete y
             y_signs = 2 * y - 1
-- 
2.43.0


From cd9baa1b0507c5842c7415381494c5c50c91d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 33/63] fix: MultiClassClf.batch_joint_feature fails on integer
 features

---
 pystruct/models/unstructured_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index e740b33..44c2a76 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -247,7 +247,8 @@ class MultiClassClf(StructuredModel):
             # implementation
             assert(X.shape[0] == Y.shape[0])
             assert(X.shape[1] == self.n_features)
-            crammer_singer_joint_feature(X, Y, result)
+            crammer_singer_joint_feature(np.asarray(X, dtype=float), Y,
+                                         result)
         return result.ravel()
 
     def inference(self, x, w, relaxed=None, return_energy=False):
-- 
2.43.0


From 9824885297a336e5b7f83ff9dd732a2ce2c090e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 34/63] fix: SaveLogger fails on the final save if the file
 name contains %d

---
 pystruct/utils/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..e2f2bd7 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -47,7 +47,7 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                file_name = file_name.replace("%d", str(iteration))
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From e8f44c1240242ad0fab829a36c03fb2156e2117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 35/63] fix: SaveLogger loses the inference cache of the
 learner if pickling fails

---
 pystruct/utils/logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index e2f2bd7..9a08dce 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -59,8 +59,10 @@ class SaveLogger(object):
                 # don't store the large inference cache!
                 learner.inference_cache_, tmp = (None,
                                                  learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
+                try:
+                    pickle.dump(learner, f, -1)
+                finally:
+                    learner.inference_cache_ = tmp
             else:
                 pickle.dump(learner, f, -1)
 
-- 
2.43.0


From 5b679f0ab077f2c2b16688e24bc3ca44eee5ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 36/63] fix: StructuredPerceptron raises a TypeError instead of
 NotImplementedError

---
 pystruct/learners/structured_perceptron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index e130fc5..75b7166 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -104,7 +104,7 @@ class StructuredPerceptron(BaseSSVM):
             if self.average is True:
                 self.average = 0
             elif self.average < -1:
-                raise NotImplemented("The only negative value for averaging "
+                raise NotImplementedError("The only negative value for averaging "
                                      "implemented at the moment is `-1`. Try "
                                      "`max_iter - k` but be aware of the "
                                      "possibility of early stopping.")
-- 
2.43.0


From d7f0e8899330d1d7ca9a7a8aa33cc6129f61e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 37/63] fix: training loss curves of several fits are
 concatenated

---
 pystruct/learners/n_slack_ssvm.py            | 1 +
 pystruct/learners/one_slack_ssvm.py          | 1 +
 pystruct/learners/ssvm.py                    | 5 +++++
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 pystruct/learners/subgradient_ssvm.py        | 1 +
 5 files changed, 9 insertions(+)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..70edb1e 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -277,6 +277,7 @@ class NSlackSSVM(BaseSSVM):
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
+            self._reset_training_loss()
         else:
             # warm start
             objective = self._solve_n_slack_qp(constraints, n_samples)
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 22bfc61..2bdaa07 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -443,6 +443,7 @@ class OneSlackSSVM(BaseSSVM):
             self.alphas.append([self.C])
             self.inference_cache_ = None
             self.timestamps_ = [time()]
+            self._reset_training_loss()
         elif warm_start == "soft":
             self.w = np.zeros(self.model.size_joint_feature)
             constraints = []
diff --git a/pystruct/learners/ssvm.py b/pystruct/learners/ssvm.py
index 35a1d56..78a3ac2 100644
--- a/pystruct/learners/ssvm.py
+++ b/pystruct/learners/ssvm.py
@@ -83,6 +83,11 @@ class BaseSSVM(BaseEstimator):
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
+    def _reset_training_loss(self):
+        # forget the training curve of a previous fit
+        if hasattr(self, 'loss_curve_'):
+            del self.loss_curve_
+
     def _compute_training_loss(self, X, Y, iteration):
         # optionally compute training loss for output / training curve
         if (self.show_loss_every != 0
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index d8a09f0..6fcfcd7 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -137,6 +137,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
             self.w = getattr(self, "w", np.random.normal(
                 0, 1, size=self.model.size_joint_feature))
             self.timestamps_ = [time()]
+            self._reset_training_loss()
             self.objective_curve_ = []
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index efe59c2..dd64363 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -184,6 +184,7 @@ class SubgradientSSVM(BaseSSVM):
         if not warm_start:
             self.objective_curve_ = []
             self.timestamps_ = [time()]
+            self._reset_training_loss()
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
             else:
-- 
2.43.0


From 1049218783583aa99dc9e28bfa4ea4689ecdc776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 38/63] fix: FrankWolfeSSVM ignores show_loss_every

---
 pystruct/learners/frankwolfe_ssvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index dc2d8a7..9b5599b 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -188,6 +188,7 @@ class FrankWolfeSSVM(BaseSSVM):
             self.w = (1.0 - gamma) * self.w + gamma * ws
             l = (1.0 - gamma) * l + gamma * ls
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -262,6 +263,7 @@ class FrankWolfeSSVM(BaseSSVM):
                     print("dual: %f, dual_gap: %f, primal: %f"
                           % (dual_val, dual_gap, primal_val))
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -291,6 +293,7 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
+        self._reset_training_loss()
         self.w = np.zeros(self.model.size_joint_feature)
         self.l = 0
         try:
-- 
2.43.0


From 39a193f0c2caa4a0a5588dc91d396ca79de64591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 39/63] fix: relaxed ad3+ inference returns pairwise marginals
 in the wrong shape

---
 pystruct/inference/inference_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index bda2a3f..5d02b0e 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -521,6 +521,10 @@ def inference_ad3plus(l_unary_potentials, l_pairwise_potentials, l_edges
         print(solver_status)
 
     if relaxed and solver_status in ["fractional", "unsolved"]:
+        if not bMultiType:
+            # one row per edge, as all other methods (and multitype) do
+            l_pairwise_marginals = l_pairwise_marginals.reshape(
+                len(l_pairwise_marginals), l_unary_marginals.shape[-1] ** 2)
         y = (l_unary_marginals, l_pairwise_marginals)
     else:
         if inference_exception and solver_status in ["fractional", "unsolved"]:
-- 
2.43.0


From 6e0132d660b119a00d6a039143898785db5f40c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 40/63] fix: loopy max-product normalizes messages by the wrong
 maximum

---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 815af04..ffe84b7 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -150,7 +150,7 @@ def iterative_max_product(unary_potentials, pairwise_potentials, edges,
                       - messages[e, 0])
             old_message = messages[e, 1].copy()
             new_message = np.max(update, axis=1)
-            new_message -= np.max(messages[e, 1])
+            new_message -= np.max(new_message)
             new_message = damping * old_message + (1 - damping) * new_message
             messages[e, 1] = new_message
             update = new_message - old_message
-- 
2.43.0


From 882b3aac92629c3758fc3fb667a42e1bb2007fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 41/63] fix: NSlackSSVM.fit fails if no constraint is violated

The cutting plane objective was unbound if no sample had a violated
constraint (e.g. if all labels are the same).
---
 pystruct/learners/n_slack_ssvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 70edb1e..d0ba8b5 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -270,6 +270,8 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.zeros(self.model.size_joint_feature)
         n_samples = len(X)
         stopping_criterion = False
+        # cutting plane objective without any constraints
+        objective = 0.
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
-- 
2.43.0


From 41ba07c050e44aeb4e6689832fd13defd92d1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 42/63] fix: NSlackSSVM.fit fails with supplied constraints

Warm starting with known constraints only worked for a learner that had
been fitted before, with as many constraints for each sample as before.
It also appended to the lists that were passed.
---
 pystruct/learners/n_slack_ssvm.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index d0ba8b5..44f3a33 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -281,8 +281,16 @@ class NSlackSSVM(BaseSSVM):
             self.timestamps_ = [time()]
             self._reset_training_loss()
         else:
-            # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            # warm start, without changing the lists passed
+            constraints = [list(sample) for sample in constraints]
+            self.last_active = [np.zeros(len(sample), dtype=int)
+                                for sample in constraints]
+            if not hasattr(self, "objective_curve_"):
+                self.objective_curve_ = []
+                self.primal_objective_curve_ = []
+                self.timestamps_ = [time()]
+            if any(constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
-- 
2.43.0


From f1d6ea84e1d8ec42a1d8f970d4f8d6706338a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 43/63] fix: MultiClassClf.batch_joint_feature rejects labels
 given as a list

OneSlackSSVM with n_jobs > 1 passes the list of labels found by its
parallel loss-augmented inference, which raised an AttributeError (or,
with rescale_C, gave a wrong joint feature).
---
 pystruct/models/unstructured_svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 44c2a76..c77d1e3 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -234,6 +234,8 @@ class MultiClassClf(StructuredModel):
 
     def batch_joint_feature(self, X, Y, Y_true=None):
         result = np.zeros((self.n_states, self.n_features))
+        # labels found in parallel (n_jobs > 1) come as a list
+        Y = np.asarray(Y)
         if self.rescale_C:
             if Y_true is None:
                 raise ValueError("rescale_C is true, but no y_true was passed"
-- 
2.43.0


From 42208c8c6584dc43f58b696449fe9e895545cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 44/63] fix: StructuredPerceptron ignores its logger

---
 pystruct/learners/structured_perceptron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 75b7166..5cc47a9 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -157,6 +157,8 @@ class StructuredPerceptron(BaseSSVM):
                     print("avg loss: %f w: %s" % (self.loss_curve_[-1],
                                                   str(self.w)))
                     print("effective learning rate: %f" % effective_lr)
+                if self.logger is not None:
+                    self.logger(self, iteration)
                 if self.loss_curve_[-1] == 0:
                     if self.verbose:
                         print("Loss zero. Stopping.")
@@ -167,4 +169,6 @@ class StructuredPerceptron(BaseSSVM):
         finally:
             if self.average is not False:
                 self.w = w_bar
+        if self.logger is not None:
+            self.logger(self, 'final')
         return self
-- 
2.43.0


From 66040c12faf3d486901bb90ee8e25035182b95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 45/63] fix: grid models misread inputs with a wrong number of
 features

---
 pystruct/models/grid_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/grid_crf.py b/pystruct/models/grid_crf.py
index de0f3e1..0ebefa4 100644
--- a/pystruct/models/grid_crf.py
+++ b/pystruct/models/grid_crf.py
@@ -46,7 +46,7 @@ class GridCRF(GraphCRF):
         return make_grid_edges(x, neighborhood=self.neighborhood)
 
     def _get_features(self, x):
-        return x.reshape(-1, self.n_features)
+        return x.reshape(-1, x.shape[-1])
 
     def _reshape_y(self, y, shape_x, return_energy):
         if return_energy:
-- 
2.43.0


From 771b5548688031bf1d9efe380c6d93713d8e9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 46/63] fix: typed models accept more feature arrays than node
 types

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 2 +-
 pystruct/models/typed_crf.py                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index de1e770..6ca8c59 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -174,7 +174,7 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
             raise ValueError("Expected %d edge arrays "
                              "or None" % (self.n_types**2))
         l_edge_features = self._get_edge_features(x)
-        if len(l_edge_features) != self.n_types**2:
+        if len(x[2]) != self.n_types**2:
             raise ValueError("Expected %d edge feature arrays "
                              "or None" % (self.n_types**2))
 
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 5e1f526..3e86bd9 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -190,7 +190,7 @@ class TypedCRF(CRF):
     def _check_size_x(self, x):
         # node_features are [  i_in_typ -> features ]
         l_node_features = self._get_node_features(x)
-        if len(l_node_features) != self.n_types:
+        if len(x[0]) != self.n_types:
             raise ValueError("Expected one node feature array per node type.")
 
         for typ, typ_features in enumerate(l_node_features):
-- 
2.43.0


From 2fe47545be892fb8a476284be259f81031f925fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 47/63] fix: loss augmentation reads past the end of too short
 labellings

---
 pystruct/models/crf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index 03bd232..de9dd4d 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -56,8 +56,11 @@ class CRF(StructuredModel):
         """
         we define it as a method so that subclasses can specialize it.
         """
-        loss_augment_unaries(unary_potentials, np.asarray(y),
-                             self.class_weight)
+        y = np.asarray(y)
+        if len(y) != len(unary_potentials):
+            raise ValueError("Expected labels of %d nodes, got %d."
+                             % (len(unary_potentials), len(y)))
+        loss_augment_unaries(unary_potentials, y, self.class_weight)
 
     def _exception_kwargs(self):
         # models with setInferenceException
-- 
2.43.0


From 2ab38a967f995dbb5534c48910c471e627cf259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 48/63] fix: generate_bars crashes when a bar direction does
 not occur

---
 pystruct/datasets/synthetic_grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/datasets/synthetic_grids.py b/pystruct/datasets/synthetic_grids.py
index 2bc4008..e86ea52 100644
--- a/pystruct/datasets/synthetic_grids.py
+++ b/pystruct/datasets/synthetic_grids.py
@@ -115,7 +115,8 @@ def generate_bars(n_samples=5, noise=5, bars_size=3, total_size=8,
                     Y[i, t, l:l + bars_size] = 1
 
     Y_flips = Y.copy()
-    n_classes = len(np.unique(Y))
+    # not all classes need to occur in Y
+    n_classes = 3 if separate_labels else 2
     for y in Y_flips:
         flips = np.random.randint(total_size, size=[noise, 2])
         y[flips[:, 0], flips[:, 1]] = np.random.randint(n_classes, size=noise)
-- 
2.43.0


From 05617b442adf58ea45cfbbe21b58a35e025070e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 49/63] fix: OneSlackSSVM cannot warm start after stopping in
 the first iteration

---
 pystruct/learners/one_slack_ssvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 2bdaa07..ab017f6 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -455,6 +455,8 @@ class OneSlackSSVM(BaseSSVM):
         else:
             constraints = self.constraints_
 
+        # matches alphas even if training stops before the first update
+        self.constraints_ = constraints
         self.last_slack_ = -1
         # stays like this if there is no new constraint
         objective = self.objective_curve_[-1] if self.objective_curve_ else 0
-- 
2.43.0


From 4a090c365e718feaf2acaff250ed9938e7b9dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 50/63] fix: NSlackSSVM curves differ in length when stopped
 while computing the loss

---
 pystruct/learners/n_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 44f3a33..fbf67a4 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -351,8 +351,8 @@ class NSlackSSVM(BaseSSVM):
                                                            n_samples)
                         new_constraints += new_constraints_batch
 
-                self.objective_curve_.append(objective)
                 self._compute_training_loss(X, Y, iteration)
+                self.objective_curve_.append(objective)
 
                 primal_objective = (self.C
                                     * slack_sum
-- 
2.43.0


From b1640e8cc5933f07f1367871cb12fd2e85fe7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 51/63] fix: SubgradientSSVM warm start spoils the timestamps

---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index dd64363..267cb6a 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -190,7 +190,8 @@ class SubgradientSSVM(BaseSSVM):
             else:
                 self.learning_rate_ = self.learning_rate
         else:
-            self.timestamps_ = (np.array(self.timestamps_) - time()).tolist()
+            # continue from the training time so far
+            self.timestamps_[0] = time() - self.timestamps_[-1]
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-- 
2.43.0


From 87b769cedb311bc9f9dfff730638e06d73878ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 52/63] fix: plot_learning fails for learners that stopped in
 the first iteration

---
 pystruct/plot_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 4f69a0a..3eec944 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -62,7 +62,7 @@ def plot_learning(ssvm, time=True):
         print("loading timestamps")
         inds = np.array(ssvm.timestamps_)
         inds = inds[2:len(ssvm.objective_curve_) + 1] / 60.
-        inds = np.hstack([inds, [inds[-1]]])
+        inds = np.hstack([inds, [ssvm.timestamps_[-1] / 60.]])
         axes[0].set_xlabel('training time (min)')
     else:
         inds = np.arange(len(ssvm.objective_curve_))
-- 
2.43.0


From 09d6cc6607926a6c6091400ab9342f8bf2f6e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 53/63] fix: plot_learning fails for the perceptron

---
 pystruct/plot_learning.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 3eec944..d4eb4e6 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -43,6 +43,14 @@ def plot_learning(ssvm, time=True):
     print(ssvm)
     if hasattr(ssvm, 'base_ssvm'):
         ssvm = ssvm.base_ssvm
+    if not hasattr(ssvm, 'objective_curve_'):
+        # the perceptron has no objective, only the training error
+        fig, axes = plt.subplots(1, 1)
+        axes.plot(ssvm.loss_curve_)
+        axes.set_title("Training Error")
+        axes.set_xlabel('iterations')
+        plt.show()
+        return
     print("Iterations: %d" % len(ssvm.objective_curve_))
     print("Objective: %f" % ssvm.objective_curve_[-1])
     inference_run = None
-- 
2.43.0


From c320ce00cc0f5aba6d7adddc7329ca1f50bd1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 54/63] fix: plot_grid uses an accessor matplotlib no longer
 has

---
 pystruct/utils/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/plotting.py b/pystruct/utils/plotting.py
index cf3a32c..eb57fa2 100644
--- a/pystruct/utils/plotting.py
+++ b/pystruct/utils/plotting.py
@@ -30,7 +30,7 @@ def plot_grid(x, cmap=None, border_color=None, axes=None, linewidth=1):
     if axes is not None:
         axes.matshow(x, cmap=cmap)
     else:
-        axes = plt.matshow(x, cmap=cmap).get_axes()
+        axes = plt.matshow(x, cmap=cmap).axes
     axes.set_xticks(np.arange(1, x.shape[1]) - .5)
     axes.set_yticks(np.arange(1, x.shape[0]) - .5)
     if border_color is None:
-- 
2.43.0


From 528f8cb8bd6b6a0ecca5c68e7968c9592c5ac0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 55/63] fix: perceptron interrupted between samples loses
 average=-1 weights

---
 pystruct/learners/structured_perceptron.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 5cc47a9..1648e67 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -118,7 +118,6 @@ class StructuredPerceptron(BaseSSVM):
                     # By resetting at every iteration we effectively get
                     # averaging over the last one.
                     n_obs = 0
-                    w_bar.fill(0)
                 effective_lr = ((iteration + self.decay_t0) **
                                 self.decay_exponent)
                 losses = 0
-- 
2.43.0


From ee3e6eaf3f2cb01bd8e68c0f36feb1e4175da81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 56/63] fix: MultiLabelClf joint feature with unsigned labels
 or features

---
 pystruct/models/multilabel_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 8225adc..a07fc97 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -94,9 +94,9 @@ class MultiLabelClf(CRF):
             unary_marginals = unary_marginals * y_signs[:, np.newaxis]
         else:
             # discrete y
-            y_signs = 2 * y - 1
+            y_signs = 2 * np.asarray(y, dtype=np.int) - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
             pairwise_marginals = []
             for edge in self.edges:
                 # indicator of one of four possible states of the edge
-- 
2.43.0


From e020caff6a49fedc28713a1f3b2f1999fd2e02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 57/63] fix: pair indices of edge-feature joint features
 overflow for labels of 8 bits

---
 pystruct/models/edge_feature_graph_crf.py           | 1 +
 pystruct/models/latent_node_crf.py                  | 1 +
 pystruct/models/node_type_edge_feature_graph_crf.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index 72cd6d4..e397bcd 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -187,6 +187,7 @@ class EdgeFeatureGraphCRF(GraphCRF):
 
             ## pairwise
             pw = np.zeros((edges.shape[0], self.n_states ** 2))
+            y = y.astype(np.int)
             class_pair_ind = (y[edges[:, 1]] + self.n_states *
                               y[edges[:, 0]])
             pw[np.arange(len(edges)), class_pair_ind] = 1
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 68065d4..dc7b225 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -625,6 +625,7 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
 
             # pairwise
             pw = np.zeros((edges.shape[0], self.n_states ** 2))
+            y = y.astype(np.int)
             class_pair_ind = (y[edges[:, 1]] + self.n_states *
                               y[edges[:, 0]])
             pw[np.arange(len(edges)), class_pair_ind] = 1
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 6ca8c59..6252071 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -404,7 +404,8 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                     assert (0 <= y2).all() and (y2 <=
                                                 self.l_n_states[typ2]).all()
                     # set the 1s where they should
-                    class_pair_ind = (y2 + _n_states_typ2 * y1)
+                    class_pair_ind = (y2.astype(np.int) + _n_states_typ2 *
+                                      y1.astype(np.int))
                     _pw[np.arange(_n_edges), class_pair_ind] = 1
                 l_pw.append(_pw)
 
-- 
2.43.0


From 6de1cea66d0ac2f4b631fe7cf7d748bce2c87c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 58/63] fix: read-only or uint16 labels and features rejected
 by the compiled helpers

---
 pystruct/models/crf.py                              | 2 ++
 pystruct/models/node_type_edge_feature_graph_crf.py | 1 +
 pystruct/models/unstructured_svm.py                 | 5 +++--
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index de9dd4d..4cc9024 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -60,6 +60,8 @@ class CRF(StructuredModel):
         if len(y) != len(unary_potentials):
             raise ValueError("Expected labels of %d nodes, got %d."
                              % (len(unary_potentials), len(y)))
+        # a copy, as the compiled code takes no read-only arrays
+        y = y.astype(np.int64, casting='same_kind')
         loss_augment_unaries(unary_potentials, y, self.class_weight)
 
     def _exception_kwargs(self):
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 6252071..562a550 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -437,5 +437,6 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
             n_y = unary_potentials.shape[0]
             # label 0 must correspond to 1st weight
             y_typ = a_y[i_start:i_start+n_y] - self._l_type_startindex[typ]
+            y_typ = y_typ.astype(np.int64, casting='same_kind')
             loss_augment_unaries(unary_potentials, y_typ, class_weight)
             i_start += n_y
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index c77d1e3..df223df 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -249,8 +249,9 @@ class MultiClassClf(StructuredModel):
             # implementation
             assert(X.shape[0] == Y.shape[0])
             assert(X.shape[1] == self.n_features)
-            crammer_singer_joint_feature(np.asarray(X, dtype=float), Y,
-                                         result)
+            # (copies, as it takes no read-only arrays)
+            Y = Y.astype(np.int64, casting='same_kind')
+            crammer_singer_joint_feature(np.array(X, dtype=float), Y, result)
         return result.ravel()
 
     def inference(self, x, w, relaxed=None, return_energy=False):
-- 
2.43.0


From 9ba327f302c4a779819da055424bbf79120e33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 59/63] fix: loss-augmented and LP inference with integer or
 single-precision weights

---
 pystruct/inference/linear_programming.py | 2 +-
 pystruct/models/crf.py                   | 1 +
 pystruct/models/latent_graph_crf.py      | 1 +
 pystruct/models/latent_node_crf.py       | 2 ++
 pystruct/models/unstructured_svm.py      | 2 ++
 5 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/linear_programming.py b/pystruct/inference/linear_programming.py
index abd24b1..bdd7bca 100644
--- a/pystruct/inference/linear_programming.py
+++ b/pystruct/inference/linear_programming.py
@@ -72,7 +72,7 @@ def lp_general_graph(unaries, edges, edge_weights):
     coef = np.ravel(unaries)
     # pairwise:
     repeated_pairwise = edge_weights.ravel()
-    coef = np.hstack([coef, repeated_pairwise])
+    coef = np.hstack([coef, repeated_pairwise]).astype(float)
     c = cvxopt.matrix(coef, tc='d')
     # for positivity inequalities
     G = cvxopt.spdiag(cvxopt.matrix(-np.ones(n_variables)))
diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index 4cc9024..f09f968 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -118,6 +118,7 @@ class CRF(StructuredModel):
         """
         self.inference_calls += 1
         self._check_size_w(w)
+        w = np.asarray(w, dtype=float)   # the loss is no integer
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index e258053..414df69 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -162,6 +162,7 @@ class LatentGraphCRF(GraphCRF):
                                  return_energy=False):
         self.inference_calls += 1
         self._check_size_w(w)
+        w = np.asarray(w, dtype=float)   # the loss is no integer
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index dc7b225..d8e0b13 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -224,6 +224,7 @@ class LatentNodeCRF(GraphCRF):
                                  return_energy=False):
         self.inference_calls += 1
         self._check_size_w(w)
+        w = np.asarray(w, dtype=float)   # the loss is no integer
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
@@ -530,6 +531,7 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
                                  return_energy=False):
         self.inference_calls += 1
         self._check_size_w(w)
+        w = np.asarray(w, dtype=float)   # the loss is no integer
         unary_potentials = self._get_unary_potentials(x, w)
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index df223df..ff3b7ad 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -308,6 +308,7 @@ class MultiClassClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
+        w = np.asarray(w, dtype=float)   # the loss is no integer
         scores = np.dot(w.reshape(self.n_states, -1), x)
         other_classes = np.arange(self.n_states) != y
         if self.rescale_C:
@@ -319,6 +320,7 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores)
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
+        w = np.asarray(w, dtype=float)   # the loss is no integer
         scores = np.dot(X, w.reshape(self.n_states, -1).T)
         other_classes = (np.arange(self.n_states) != Y[:, np.newaxis])
         if self.rescale_C or self.uniform_class_weight:
-- 
2.43.0


From 5c0c9e6281191a5c933690a13f892b4730558848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 60/63] fix: learners with verbose output work with models that
 do not count inference calls

---
 pystruct/models/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index 7c8ffd4..a899a46 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -7,6 +7,9 @@ class StructuredModel(object):
     This class defines what is necessary to use the structured svm.
     You have to implement at least joint_feature and inference.
     """
+    # number of calls to inference, for models that count them
+    inference_calls = 0
+
     def __repr__(self):
         return ("%s, size_joint_feature: %d"
                 % (type(self).__name__, self.size_joint_feature))
-- 
2.43.0


From d161155a96786ec66338f5812b0d2832f4e7ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 61/63] fix: models whose sizes are not known yet can be
 printed

---
 pystruct/models/base.py                   | 2 +-
 pystruct/models/edge_feature_graph_crf.py | 4 ++--
 pystruct/models/unstructured_svm.py       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index a899a46..b259058 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -11,7 +11,7 @@ class StructuredModel(object):
     inference_calls = 0
 
     def __repr__(self):
-        return ("%s, size_joint_feature: %d"
+        return ("%s, size_joint_feature: %s"
                 % (type(self).__name__, self.size_joint_feature))
 
     def __init__(self):
diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index e397bcd..2e99fd8 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -100,8 +100,8 @@ class EdgeFeatureGraphCRF(GraphCRF):
         CRF.initialize(self, X, Y)
 
     def __repr__(self):
-        return ("%s(n_states: %d, inference_method: %s, n_features: %d, "
-                "n_edge_features: %d)"
+        return ("%s(n_states: %s, inference_method: %s, n_features: %s, "
+                "n_edge_features: %s)"
                 % (type(self).__name__, self.n_states, self.inference_method,
                    self.n_features, self.n_edge_features))
 
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index ff3b7ad..4e3c078 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -38,7 +38,7 @@ class BinaryClf(StructuredModel):
                              % (self.size_joint_feature, n_features))
 
     def __repr__(self):
-        return ("%s, n_features: %d"
+        return ("%s, n_features: %s"
                 % (type(self).__name__, self.size_joint_feature))
 
     def joint_feature(self, x, y):
@@ -195,7 +195,7 @@ class MultiClassClf(StructuredModel):
         self._set_class_weight()
 
     def __repr__(self):
-        return ("%s(n_features=%d, n_classes=%d)"
+        return ("%s(n_features=%s, n_classes=%s)"
                 % (type(self).__name__, self.n_features, self.n_states))
 
     def joint_feature(self, x, y, y_true=None):
-- 
2.43.0


From abe424dc498582fbfe14e1f54f5f633efa1ece27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 62/63] fix: n-slack training of typed models compares relaxed
 labelings without failing

---
 pystruct/learners/n_slack_ssvm.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index fbf67a4..81440bb 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -16,7 +16,7 @@ from joblib import Parallel, delayed
 from sklearn.utils import gen_even_slices
 
 from .ssvm import BaseSSVM
-from ..utils import unwrap_pairwise, find_constraint
+from ..utils import find_constraint
 
 
 class NSlackSSVM(BaseSSVM):
@@ -203,14 +203,23 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.dot(a, joint_feature_matrix)
         return -solution['primal objective']
 
+    @classmethod
+    def _same_labeling(cls, y_1, y_2):
+        # relaxed labelings are pairs of node and edge marginals, in lists of
+        # arrays when there are several node types
+        if isinstance(y_1, tuple) != isinstance(y_2, tuple):
+            return False
+        if isinstance(y_1, (tuple, list)) and isinstance(y_2, (tuple, list)):
+            return (len(y_1) == len(y_2)
+                    and all(cls._same_labeling(a, b)
+                            for a, b in zip(y_1, y_2)))
+        return np.all(y_1 == y_2)
+
     def _check_bad_constraint(self, y_hat, slack, old_constraints):
         if slack < 1e-5:
             return True
-        y_hat_plain = unwrap_pairwise(y_hat)
-
         already_active = np.any([True for y__, _, _ in old_constraints
-                                 if np.all(y_hat_plain ==
-                                           unwrap_pairwise(y__))])
+                                 if self._same_labeling(y_hat, y__)])
         if already_active:
             return True
 
-- 
2.43.0


From 9f1148778bdef1893f4eb49eb7f1c068f556c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:50 +0000
Subject: [PATCH 63/63] fix: LatentSSVM.fit honours initialize=False

The model was initialised with the training data all the same, so that
data which do not show every label were rejected.
---
 pystruct/learners/latent_structured_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index 0eb9d66..74b87dd 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -78,7 +78,8 @@ class LatentSSVM(BaseSSVM):
             Leave this true except if you really know what you are doing.
         """
 
-        self.model.initialize(X, Y)
+        if initialize:
+            self.model.initialize(X, Y)
         w = np.zeros(self.model.size_joint_feature)
         constraints = None
         ws = []
-- 
2.43.0

