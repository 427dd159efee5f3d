From aa885b6892bfc25fd927c0936f378efc12d1734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 001/145] fix: RBMNode.inverse silently returned None instead
 of refusing to invert

---
 mdp/nodes/rbm_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index 7fa5c20..ab1f4a9 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -194,7 +194,7 @@ class RBMNode(mdp.Node):
     def is_invertible():
         return False
 
-    def _pre_inversion_checks(self, y):
+    def _pre_sampling_checks(self, y):
         self._if_training_stop_training()
         # control the dimension of y
         self._check_output(y)
@@ -226,7 +226,7 @@ class RBMNode(mdp.Node):
             conditional probability.
         :rtype: tuple
         """
-        self._pre_inversion_checks(h)
+        self._pre_sampling_checks(h)
         return self._sample_v(h)
 
     def _energy(self, v, h):
@@ -413,7 +413,7 @@ class RBMWithLabelsNode(RBMNode):
           active at any time.
         :rtype: tuple
         """
-        self._pre_inversion_checks(h)
+        self._pre_sampling_checks(h)
 
         probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
                                                 concatenate=False)
-- 
2.43.0


From fe7cd7ffc4c9332d301fc6efb459980695ad8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 002/145] fix: executing NormalizingRecursiveExpansionNode
 modified the array passed by the caller

---
 mdp/nodes/recursive_expansion_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 1c2e382..472723b 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -690,7 +690,8 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             be along the first axis, variables along the second.
         :type x: numpy.ndarray
         """
-        self.domain_transformation(x)
+        # transform a copy: x may be the array owned by the caller
+        x = self.domain_transformation(x.copy())
         return super(NormalizingRecursiveExpansionNode, self)._execute(x)
 
     def _train(self, x):
-- 
2.43.0


From 65c9b94b674f04c874a3aede8eb55ef600b7d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 003/145] fix: a trained NormalizingRecursiveExpansionNode
 could not be pickled or saved (local closure kept as attribute)

---
 mdp/nodes/recursive_expansion_nodes.py | 48 +++++++++++++++-----------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 472723b..8558069 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -733,30 +733,27 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             than the ones already supplied during training.
         """
 
+        # offset and factor of the transformation (None for the identity)
+        self.offset = None
+        self.factor = None
+
         # the following conditionals go through different domain types
         if self.lower is None or self.upper is None:
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf') and self.upper == float('Inf'):
-            def f(x):
-                return x
+            pass
 
         elif self.lower == -float('Inf'):
             self.diff = self.amaxcolumn-self.upper
             self.diff = self.diff.clip(min=0)
-
-            def f(x):
-                x -= self.diff
-                return x
+            self.offset = -self.diff
 
         elif self.upper == float('Inf'):
             self.diff = self.amincolumn-self.lower
             self.diff = self.diff.clip(max=0)
+            self.offset = -self.diff
 
-            def f(x):
-                x -= self.diff
-                return x
         else:
             mean = self.lower+(self.upper-self.lower)/2.0
             dev = (self.upper-self.lower)
@@ -768,18 +765,27 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             datamean = (xmax+xmin)/2.
 
             if (xmax < self.upper) and (xmin > self.lower):
-                def f(x):
-                    return x
+                pass
             elif datamaxdev < dev:
-                def f(x):
-                    x += (-datamean)+mean
-                    return x
+                self.offset = (-datamean)+mean
             else:
-                def f(x):
-                    x += (-datamean)+mean*datamaxdev/dev
-                    x *= dev/datamaxdev
-                    return x
-        self.domain_transformation = f
+                self.offset = (-datamean)+mean*datamaxdev/dev
+                self.factor = dev/datamaxdev
+
+    def domain_transformation(self, x):
+        """Transform the data (in place) to the domain of the functions.
+
+        :param x: The data to be transformed.
+        :type x: numpy.ndarray
+
+        :returns: The transformed data.
+        :rtype: numpy.ndarray
+        """
+        if self.offset is not None:
+            x += self.offset
+        if self.factor is not None:
+            x *= self.factor
+        return x
 
     @staticmethod
     def is_trainable():
-- 
2.43.0


From 7329d0938ae67191b1d3fba70566485101c22709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 004/145] fix: CCIPCANode, MCANode and IncSFANode could not be
 trained with the documented init_eigen_vectors constructor arguments
 (TypeError)

---
 mdp/nodes/mca_nodes_online.py | 3 +++
 mdp/nodes/pca_nodes_online.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index 653a234..5516df9 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -111,6 +111,9 @@ class MCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # initial eigen vectors were given to the constructor
+            self.init_eigen_vectors = self._refcast(self._init_v)
 
     def _train(self, x):
         """Update the minor components."""
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index a5b482a..7f367d5 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -121,6 +121,9 @@ class CCIPCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # initial eigen vectors were given to the constructor
+            self.init_eigen_vectors = self._refcast(self._init_v)
 
     def _amnesic(self, n):
         """Return amnesic weights.
-- 
2.43.0


From 5924da14a51e2b0bddf292bc19091c48f1a300ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 005/145] fix: IncSFANode(remove_mean=False) could neither be
 trained nor inverted (AttributeError)

---
 mdp/nodes/sfa_nodes_online.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 61adb08..2757d43 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -146,7 +146,7 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-            x = self.avgnode.execute(x)
+                x = self.avgnode.execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
             x = self.whiteningnode.execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
@@ -235,7 +235,10 @@ class IncSFANode(mdp.OnlineNode):
 
         :return: The inverse of the slow feature response.
         """
-        return mult(y, pinv(self.sf)) + self.avgnode.avg
+        x = mult(y, pinv(self.sf))
+        if self.remove_mean:
+            x = x + self.avgnode.avg
+        return x
 
     def __repr__(self):
         """Print all args.
-- 
2.43.0


From ddad96291b9e182435f789d52ab00bef21493783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 006/145] fix: GrowingNeuralGasNode and NeuralGasNode moved the
 start positions owned by the caller in place

---
 mdp/nodes/neural_gas_nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index d0ec7b9..306cd13 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -136,8 +136,9 @@ class GrowingNeuralGasNode(Node):
         if start_poss is not None:
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
-            node1 = self._add_node(self._refcast(start_poss[0]))
-            node2 = self._add_node(self._refcast(start_poss[1]))
+            # copy: the positions are updated in place during training
+            node1 = self._add_node(numx.array(start_poss[0], dtype=self.dtype))
+            node2 = self._add_node(numx.array(start_poss[1], dtype=self.dtype))
             self._add_edge(node1, node2)
 
     def _set_input_dim(self, n):
@@ -447,7 +448,9 @@ class NeuralGasNode(GrowingNeuralGasNode):
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
             for node_ind in range(self.num_nodes):
-                self._add_node(self._refcast(start_poss[node_ind]))
+                # copy: the positions are updated in place during training
+                self._add_node(numx.array(start_poss[node_ind],
+                                          dtype=self.dtype))
         self.epoch = 0
 
 
-- 
2.43.0


From 30cb0574e775b21cbda9927cb44aebcaa9cec567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 007/145] fix: Cumulator nodes, HistogramNode, KNNClassifier
 (single label) and OnlineTimeDiffNode kept references to the caller's arrays,
 so overwriting a buffer changed what was learned; ClassifierCumulator could
 not be trained with a list of labels or a single label

---
 mdp/classifier_node.py          | 2 +-
 mdp/nodes/classifier_nodes.py   | 3 ++-
 mdp/nodes/misc_nodes.py         | 3 ++-
 mdp/nodes/stats_nodes_online.py | 3 ++-
 mdp/signal_node.py              | 3 ++-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mdp/classifier_node.py b/mdp/classifier_node.py
index 41a3f1a..587d1c3 100644
--- a/mdp/classifier_node.py
+++ b/mdp/classifier_node.py
@@ -123,7 +123,7 @@ class ClassifierCumulator(VariadicCumulator('data', 'labels'), ClassifierNode):
         else:
             labels = [labels] * x.shape[0]
 
-        self.labels.extend(labels.ravel().tolist())
+        self.labels.extend(numx.ravel(labels).tolist())
 
     def _stop_training(self, *args, **kwargs):
         """Transform the data and labels lists to array objects and reshape them."""
diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 9b57ebd..507afd4 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -773,7 +773,8 @@ class KNNClassifier(ClassifierNode):
         """Store x set for later neirest-neighbour calculation."""
         if label not in self._label_samples:
             self._label_samples[label] = []
-        self._label_samples[label].append(x)
+        # copy: the caller may overwrite the array after this call
+        self._label_samples[label].append(numx.array(x))
         
     def _check_train_args(self, x, labels):
         if isinstance(labels, (list, tuple, numx.ndarray)) and (
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..13e7041 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -900,7 +900,8 @@ class HistogramNode(PreserveDimNode):
         if self.data_hist is not None:
             self.data_hist = numx.concatenate([self.data_hist, x])
         else:
-            self.data_hist = x
+            # copy: the caller may overwrite the array after this call
+            self.data_hist = numx.array(x)
 
     def _stop_training(self):
         """Pickle the histogram data to file and clear it if required."""
diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 0b99c92..9c7497a 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -175,7 +175,8 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
     def _train(self, x):
         """Update the buffer."""
         self.x_prev = self.x_cur
-        self.x_cur = x[-1:]
+        # copy: the caller may overwrite the array after this call
+        self.x_cur = x[-1:].copy()
 
     @staticmethod
     def is_invertible():
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..4760c63 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -775,7 +775,8 @@ def VariadicCumulator(*fields):
             """Collect all input data in a list."""
             self.tlen += args[0].shape[0]
             for field, data in zip(self._cumulator_fields, args):
-                getattr(self, field).append(data)
+                # copy: the caller may overwrite the array after this call
+                getattr(self, field).append(numx.array(data))
 
         def _stop_training(self, *args, **kwargs):
             """Concatenate the collected data in a single array."""
-- 
2.43.0


From 929a6c28e99e68f75a6646574f8211924594a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 008/145] fix: KNNClassifier and NearestMeanClassifier broke
 ties in an order that depended on the chunking (and, for string labels, on
 PYTHONHASHSEED)

---
 mdp/nodes/classifier_nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 507afd4..1436010 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -660,7 +660,8 @@ class NearestMeanClassifier(ClassifierNode):
         """
         if isinstance(labels, (list, tuple, numx.ndarray)):
             labels = numx.asarray(labels)
-            for label in set(labels):
+            # in order of first appearance, ties are resolved in this order
+            for label in utils.OrderedDict.fromkeys(labels):
                 x_label = numx.compress(labels==label, x, axis=0)
                 self._update_mean(x_label, label)
         else:
@@ -763,7 +764,8 @@ class KNNClassifier(ClassifierNode):
         """
         if isinstance(labels, (list, tuple, numx.ndarray)):
             labels = numx.asarray(labels)
-            for label in set(labels):
+            # in order of first appearance, ties are resolved in this order
+            for label in utils.OrderedDict.fromkeys(labels):
                 x_label = numx.compress(labels==label, x, axis=0)
                 self._add_samples(x_label, label)
         else:
-- 
2.43.0


From 98d85456bacf56f0b1c8ccd260b8535958d83f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 009/145] fix: FlowNode around a one-node flow whose node has a
 fixed output dimension that cannot be set explicitly (e.g. an expansion node
 already used) could not be created

---
 mdp/hinet/flownode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..0f7748b 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -81,8 +81,8 @@ class FlowNode(mdp.Node):
 
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
-        if len(self._flow) == 1:
-            self._flow[-1].output_dim = n
+        if len(self._flow) == 1 and last_node.output_dim is None:
+            last_node.output_dim = n
         elif last_node.output_dim is None:
             self._fix_nodes_dimensions()
             # check if it worked
-- 
2.43.0


From 59786f4d28995b4d0b1b4eb351227b0a00c1fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 010/145] fix: inverting PCANode, CCIPCANode and MCANode with
 the documented argument n (use the first n components) raised ValueError

---
 mdp/nodes/mca_nodes_online.py | 2 +-
 mdp/nodes/pca_nodes.py        | 2 +-
 mdp/nodes/pca_nodes_online.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index 5516df9..3bec37a 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -205,7 +205,7 @@ class MCANode(mdp.OnlineNode):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :])
+            return mult(y[:, :n], v[:n, :])
         return mult(y, v)
 
     def __repr__(self):
diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index d9ea36d..d3276df 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -368,7 +368,7 @@ class PCANode(mdp.Node):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :]) + self.avg
+            return mult(y[:, :n], v[:n, :]) + self.avg
         return mult(y, v) + self.avg
 
 
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index 7f367d5..0f248de 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -254,7 +254,7 @@ class CCIPCANode(mdp.OnlineNode):
 
         v = self.get_recmatrix()
         if n is not None:
-            return mult(y, v[:n, :])
+            return mult(y[:, :n], v[:n, :])
         return mult(y, v)
 
     def __repr__(self):
-- 
2.43.0


From 661d8507bde27e555ec387e0d6cc04c743e625d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 011/145] fix: MeanInverseSwitchboard.inverse returned float64
 whatever the number type of the node

---
 mdp/hinet/switchboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index c90f07e..fdf1d01 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -107,7 +107,7 @@ class MeanInverseSwitchboard(Switchboard):
         """Take the mean of overlapping values."""
         n_y_cons = numx.bincount(self.connections)  # n. connections to y_i
         y_cons = numx.argsort(self.connections)  # x indices for y_i
-        y = numx.zeros((len(x), self.input_dim))
+        y = numx.zeros((len(x), self.input_dim), dtype=self.dtype)
         i_x_counter = 0  # counter for processed x indices
         i_y = 0  # current y index
         while True:
-- 
2.43.0


From 596dee0821377a412a2f730e5495e1fdff240bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 012/145] fix: FlowNode.copy() replaced the node list of the
 original's internal flow by a Flow (breaking e.g. adding a flow to it) and
 left the original without nodes when copying failed

---
 mdp/hinet/flownode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 0f7748b..58b3e2a 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -196,13 +196,15 @@ class FlowNode(mdp.Node):
         #    result of _get_train_seq).
         #
         # copy the nodes by delegation
-        old_nodes = self._flow[:]
+        old_nodes = self._flow.flow
         new_nodes = [node.copy() for node in old_nodes]
         # now copy the rest of this flownode via deepcopy
         self._flow.flow = None
-        new_flownode = _copy.deepcopy(self)
+        try:
+            new_flownode = _copy.deepcopy(self)
+        finally:
+            self._flow.flow = old_nodes
         new_flownode._flow.flow = new_nodes
-        self._flow.flow = old_nodes
         return new_flownode
 
     ## container methods ##
-- 
2.43.0


From bd049457ec4443a1f93545bbf78c92877c145b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 013/145] fix: saving a node or flow to a file with pickle
 protocol 0 (also CheckpointSaveFunction with binary=0) raised TypeError

---
 mdp/linear_flows.py     | 11 ++++-------
 mdp/nodes/misc_nodes.py |  5 ++---
 mdp/signal_node.py      |  5 ++---
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..1f12da8 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -438,9 +438,8 @@ class Flow(object):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickles are written in binary mode, whatever the protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
     def __call__(self, iterable, nodenr=None):
@@ -675,10 +674,8 @@ class CheckpointSaveFunction(CheckpointFunction):
         self.filename = filename
         self.proto = protocol
         self.stop_training = stop_training
-        if binary or protocol > 0:
-            self.mode = 'wb'
-        else:
-            self.mode = 'w'
+        # pickles are written in binary mode, whatever the protocol
+        self.mode = 'wb'
 
     def __call__(self, node):
         with open(self.filename, self.mode) as fid:
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 13e7041..24cee59 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -725,9 +725,8 @@ class NoiseNode(PreserveDimNode):
             # self.noise_func attribute.
             return real_pickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            # pickles are written in binary mode, whatever the protocol
+            with open(filename, 'wb') as flh:
                 real_pickle.dump(self, flh, protocol)
 
 
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 4760c63..0780af6 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -721,9 +721,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'wb' if protocol != 0 else 'w'
-            with open(filename, mode) as flh:
+            # pickles are written in binary mode, whatever the protocol
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From 2a424ad870d93ac901ee42b8205e31df6c9e807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 014/145] fix: a HitParadeNode that had seen data could not be
 pickled or saved (class exported under another name)

---
 mdp/nodes/__init__.py   |  2 +-
 mdp/nodes/misc_nodes.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mdp/nodes/__init__.py b/mdp/nodes/__init__.py
index b2ced40..521fdd5 100644
--- a/mdp/nodes/__init__.py
+++ b/mdp/nodes/__init__.py
@@ -32,7 +32,7 @@ from .recursive_expansion_nodes import (RecursiveExpansionNode,
                                         NormalizingRecursiveExpansionNode)
 
 # import internals for use in test_suites
-from .misc_nodes import OneDimensionalHitParade as _OneDimensionalHitParade
+from .misc_nodes import _OneDimensionalHitParade
 from .expansion_nodes import expanded_dim as _expanded_dim
 
 from .mca_nodes_online import MCANode
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 24cee59..a32c27b 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -35,14 +35,14 @@ class IdentityNode(PreserveDimNode):
     def is_trainable():
         return False
 
-class OneDimensionalHitParade(object):
+class _OneDimensionalHitParade(object):
     """
     Class to produce hit-parades (i.e., a list of the locally largest
     and smallest values) out of a one-dimensional time-series.
     """
     
     def __init__(self, n, d, real_dtype="d", integer_dtype="l"):
-        """Initializes an object of type 'OneDimensionalHitParade'.
+        """Initializes an object of type '_OneDimensionalHitParade'.
         
         :param n: Number of maxima and minima to remember.
         :type n: int
@@ -128,7 +128,7 @@ class OneDimensionalHitParade(object):
         
         :return: A tuple containing maxima and their corresponding indices
             as numpy.ndarrays (see example in definition of the method
-            ``OneDimensionalHitParade.update``). The maxima are sorted in
+            ``_OneDimensionalHitParade.update``). The maxima are sorted in
             descending order.
         :rtype: tuple
         """
@@ -143,7 +143,7 @@ class OneDimensionalHitParade(object):
         
         :return: A tuple containing minima and their corresponding indices
             as numpy.ndarrays (see example in definition of the 
-            ``OneDimensionalHitParade.update()`` function). The minima are sorted
+            ``_OneDimensionalHitParade.update()`` function). The minima are sorted
             in descending order.
         :rtype: tuple
         """
@@ -206,7 +206,7 @@ class HitParadeNode(PreserveDimNode):
         hit = self.hit
         old_tlen = self.tlen
         if hit is None:
-            hit = [OneDimensionalHitParade(self.n, self.d, self.dtype,
+            hit = [_OneDimensionalHitParade(self.n, self.d, self.dtype,
                                            self.itype)
                    for c in range(self.input_dim)]
         tlen = old_tlen + x.shape[0]
@@ -223,7 +223,7 @@ class HitParadeNode(PreserveDimNode):
         
         :return: A tuple containing maxima and their corresponding indices
             as numpy.ndarrays (see example in definition of the method
-            ``OneDimensionalHitParade.update``). The maxima are sorted in
+            ``_OneDimensionalHitParade.update``). The maxima are sorted in
             descending order.
         :rtype: tuple
         """
@@ -244,7 +244,7 @@ class HitParadeNode(PreserveDimNode):
         
         :return: A tuple containing minima and their corresponding indices
             as numpy.ndarrays (see example in definition of the 
-            ``OneDimensionalHitParade.update()`` function). The minima are sorted
+            ``_OneDimensionalHitParade.update()`` function). The minima are sorted
             in descending order.
         :rtype: tuple
         """
-- 
2.43.0


From 3d04b234ee3b1a3cd75508a4ca0c343d2f5e2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 015/145] fix: scikits-learn wrapper nodes could not be
 pickled, saved or sent to another process

---
 mdp/nodes/scikits_nodes.py | 1102 ++++++++++++++++++------------------
 1 file changed, 554 insertions(+), 548 deletions(-)

diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index e7c04b8..d48133c 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -1,549 +1,555 @@
-# -*- coding:utf-8; -*-
-"""Wraps the algorithms defined in scikits.learn in MDP Nodes.
-This module is based on the 0.6.X branch of scikits.learn .
-"""
-from __future__ import print_function
-__docformat__ = "restructuredtext en"
-
-try:
-    import sklearn
-    _sklearn_prefix = 'sklearn'
-except ImportError:
-    import scikits.learn as sklearn
-    _sklearn_prefix = 'scikits.learn'
-
-import inspect
-import re
-
-import mdp
-
-class ScikitsException(mdp.NodeException):
-    """Base class for exceptions in nodes wrapping scikits algorithms."""
-    pass
-
-# import all submodules of sklearn (to work around lazy import)
-from mdp.configuration import _version_too_old
-if _version_too_old(sklearn.__version__, (0, 8)):
-    scikits_modules = ['ann', 'cluster', 'covariance', 'feature_extraction',
-                       'feature_selection', 'features', 'gaussian_process', 'glm',
-                       'linear_model', 'preprocessing', 'svm',
-                       'pca', 'lda', 'hmm', 'fastica', 'grid_search', 'mixture',
-                       'naive_bayes', 'neighbors', 'qda']
-elif _version_too_old(sklearn.__version__, (0, 9)):
-    # package structure has been changed in 0.8
-    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
-                       'mixture', 'hmm', 'cluster', 'decomposition', 'lda',
-                       'covariance', 'cross_val', 'grid_search',
-                       'feature_selection.rfe', 'feature_extraction.image',
-                       'feature_extraction.text', 'pipelines', 'pls',
-                       'gaussian_process', 'qda']
-elif _version_too_old(sklearn.__version__, (0, 11)):
-    # from release 0.9 cross_val becomes cross_validation and hmm is deprecated
-    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
-                       'mixture', 'cluster', 'decomposition', 'lda',
-                       'covariance', 'cross_validation', 'grid_search',
-                       'feature_selection.rfe', 'feature_extraction.image',
-                       'feature_extraction.text', 'pipelines', 'pls',
-                       'gaussian_process', 'qda', 'ensemble', 'manifold',
-                       'metrics', 'preprocessing', 'tree']    
-elif _version_too_old(sklearn.__version__, (0, 17)):
-    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
-                       'mixture', 'cluster', 'decomposition', 'lda',
-                       'covariance', 'cross_validation', 'grid_search',
-                       'feature_selection', 'feature_extraction',
-                       'pipeline', 'pls', 'gaussian_process', 'qda',
-                       'ensemble', 'manifold', 'metrics', 'preprocessing',
-                       'semi_supervised', 'tree', 'hmm']
-
-else:
-    scikits_modules = ['calibration', 'cluster', 'covariance', 'cross_decomposition',
-                       'cross_validation', 'decomposition', 'discriminant_analysis',
-                       'ensemble', 'feature_extraction', 'feature_selection',
-                       'gaussian_process', 'grid_search', 'isotonic', 'kernel_approximation',
-                       'kernel_ridge', 'learning_curve', 'linear_model', 'manifold',
-                       'metrics', 'mixture', 'multiclass', 'naive_bayes', 'neighbors',
-                       'neural_network', 'preprocessing', 'random_projection',
-                       'semi_supervised', 'svm', 'tree']
-
-
-for name in scikits_modules:
-    # not all modules may be available due to missing dependencies
-    # on the user system.
-    # we just ignore failing imports
-    try:
-        __import__(_sklearn_prefix + '.' + name)
-    except ImportError:
-        pass
-
-
-_WS_LINE_RE = re.compile(r'^\s*$')
-_WS_PREFIX_RE = re.compile(r'^(\s*)')
-_HEADINGS_RE = re.compile(r'''^(Parameters|Attributes|Methods|Examples|Notes)\n
-                           (----+|====+)''', re.M + re.X)
-_UNDERLINE_RE = re.compile(r'----+|====+')
-_VARWITHUNDER_RE = re.compile(r'(\s|^)([a-zA-Z_][a-zA-Z0-9_]*_)(\s|$|[,.])')
-
-_HEADINGS = set(['Parameters', 'Attributes', 'Methods', 'Examples',
-                 'Notes', 'References'])
-
-_DOC_TEMPLATE = """
-%s
-This node has been automatically generated by wrapping the ``%s.%s`` class
-from the ``sklearn`` library.  The wrapped instance can be accessed
-through the ``scikits_alg`` attribute.
-%s
-"""
-
-def _gen_docstring(object, docsource=None):
-    module = object.__module__
-    name = object.__name__
-    if docsource is None:
-        docsource = object
-    docstring = docsource.__doc__
-    if docstring is None:
-        return None
-
-    lines = docstring.strip().split('\n')
-    for i,line in enumerate(lines):
-        if _WS_LINE_RE.match(line):
-            break
-    header = [line.strip() for line in lines[:i]]
-
-    therest = [line.rstrip() for line in lines[i+1:]]
-    body = []
-
-    if therest:
-        prefix = min(len(_WS_PREFIX_RE.match(line).group(1))
-                     for line in therest if line)
-        quoteind = None
-        for i, line in enumerate(therest):
-            line = line[prefix:]
-            if line in _HEADINGS:
-                body.append('**%s**' % line)
-            elif _UNDERLINE_RE.match(line):
-                body.append('')
-            else:
-                line = _VARWITHUNDER_RE.sub(r'\1``\2``\3', line)
-                if quoteind:
-                    if len(_WS_PREFIX_RE.match(line).group(1)) >= quoteind:
-                        line = quoteind * ' ' + '- ' + line[quoteind:]
-                    else:
-                        quoteind = None
-                        body.append('')
-                body.append(line)
-
-            if line.endswith(':'):
-                body.append('')
-                if i+1 < len(therest):
-                    next = therest[i+1][prefix:]
-                    quoteind = len(_WS_PREFIX_RE.match(next).group(1))
-
-    return _DOC_TEMPLATE % ('\n'.join(header), module, name, '\n'.join(body))
-
-# TODO: generalize dtype support
-# TODO: have a look at predict_proba for Classifier.prob
-# TODO: inverse <-> generate/rvs
-# TODO: deal with input_dim/output_dim
-# TODO: change signature of overwritten functions
-# TODO: wrap_scikits_instance
-# TODO: add sklearn availability to test info strings
-# TODO: which tests ? (test that particular algorithm are / are not trainable)
-# XXX: if class defines n_components, allow output_dim, otherwise throw exception
-#      also for classifiers (overwrite _set_output_dim)
-#      Problem: sometimes they call it 'k' (e.g., algorithms in sklearn.cluster)
-
-def apply_to_scikits_algorithms(current_module, action,
-                                processed_modules=None,
-                                processed_classes=None):
-    """Function that traverses a module to find scikits algorithms.
-    'sklearn' algorithms are identified by the 'fit' 'predict',
-    or 'transform' methods. The 'action' function is applied to each found
-    algorithm.
-    
-    :param action: A function that is called with as action(class_), where
-        'class_' is a class that defines the 'fit' or 'predict' method.
-    :type action: function
-    """
-
-    # only consider modules and classes once
-    if processed_modules is None:
-        processed_modules = []
-    if processed_classes is None:
-        processed_classes = []
-
-    if current_module in processed_modules:
-        return
-    processed_modules.append(current_module)
-
-    for member_name, member in list(current_module.__dict__.items()):
-        if not member_name.startswith('_'):
-
-            # classes
-            if (inspect.isclass(member) and
-                member not in processed_classes):
-                processed_classes.append(member)
-                if (hasattr(member, 'fit')
-                    or hasattr(member, 'predict')
-                    or hasattr(member, 'transform')):
-                    action(member)
-
-            # other modules
-            elif (inspect.ismodule(member) and
-                  member.__name__.startswith(_sklearn_prefix)):
-                apply_to_scikits_algorithms(member, action, processed_modules,
-                                            processed_classes)
-    return processed_classes
-
-
-_OUTPUTDIM_ERROR = """'output_dim' keyword not supported.
-Please set the output dimensionality using sklearn keyword
-arguments (e.g., 'n_components', or 'k'). See the docstring of this
-class for details."""
-
-def wrap_scikits_classifier(scikits_class):
-    """Wrap a sklearn classifier as an MDP Node subclass.
-    The wrapper maps these MDP methods to their sklearn equivalents:
-
-    - _stop_training -> fit
-    - _label -> predict
-
-    """
-
-    newaxis = mdp.numx.newaxis
-
-    # create a wrapper class for a sklearn classifier
-    class ScikitsNode(mdp.ClassifierCumulator):
-
-        def __init__(self, input_dim=None, output_dim=None, dtype=None,
-                     **kwargs):
-            """
-            Initializes an object of type 'ScikitsNode'.
-
-            :param input_dim: Dimensionality of the input.
-                Default is None.
-            :type input_dim: int
-        
-            :param output_dim: Dimensionality of the output.
-                Default is None.
-            :type output_dim: int
-        
-            :param dtype: Datatype of the input.
-                Default is None.
-            :type dtype: numpy.dtype or str
-            """
-            if output_dim is not None:
-                # output_dim and n_components cannot be defined at the same time
-                if 'n_components' in kwargs:
-                    msg = ("Dimensionality set both by "
-                           "output_dim=%d and n_components=%d""")
-                    raise ScikitsException(msg % (output_dim,
-                                                  kwargs['n_components']))
-
-
-            super(ScikitsNode, self).__init__(input_dim=input_dim,
-                                              output_dim=output_dim,
-                                              dtype=dtype)
-            self.scikits_alg = scikits_class(**kwargs)
-
-        # ---- re-direct training and execution to the wrapped algorithm
-
-        def _stop_training(self, **kwargs):
-            super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, self.labels, **kwargs)
-
-        def _label(self, x):
-            return self.scikits_alg.predict(x)[:, newaxis]
-
-        # ---- administrative details
-
-        @staticmethod
-        def is_invertible():
-            return False
-
-        @staticmethod
-        def is_trainable():
-            """Return True if the node can be trained, False otherwise.
-
-            :return: A boolean indicating whether the node can be trained.
-            :rtype: bool
-            """
-            return hasattr(scikits_class, 'fit')
-
-        # NOTE: at this point scikits nodes can only support up to
-        # 64-bits floats because some call numpy.linalg.svd, which for
-        # some reason does not support higher precisions
-        def _get_supported_dtypes(self):
-            """Return the list of dtypes supported by this node.
-            The types can be specified in any format allowed by numpy.dtype.
-
-            :return: The list of dtypes supported by this node.
-            :rtype: list
-            """
-            return ['float32', 'float64']
-
-    # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
-    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
-
-    # change the docstring of the methods to match the ones in sklearn
-
-    # methods_dict maps ScikitsNode method names to sklearn method names
-    methods_dict = {'__init__': '__init__',
-                    'stop_training': 'fit',
-                    'label': 'predict'}
-    if hasattr(scikits_class, 'predict_proba'):
-        methods_dict['prob'] = 'predict_proba'
-
-    for mdp_name, scikits_name in list(methods_dict.items()):
-        mdp_method = getattr(ScikitsNode, mdp_name)
-        scikits_method = getattr(scikits_class, scikits_name)
-        if hasattr(scikits_method, '__func__'):
-            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
-                                                        scikits_method.__func__)
-
-    if scikits_class.__init__.__doc__ is None:
-        try:
-            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
-        except AttributeError:
-            # we are in Python3
-            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
-
-    return ScikitsNode
-
-
-def wrap_scikits_transformer(scikits_class):
-    """Wrap a sklearn transformer as an MDP Node subclass.
-    The wrapper maps these MDP methods to their sklearn equivalents:
-
-    - _stop_training -> fit
-    - _execute -> transform
-
-    """
-
-    # create a wrapper class for a sklearn transformer
-    class ScikitsNode(mdp.Cumulator):
-
-        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
-            """
-            Initializes an object of type 'ScikitsNode'.
-
-            :param input_dim: Dimensionality of the input.
-                Default is None.
-            :type input_dim: int
-        
-            :param output_dim: Dimensionality of the output.
-                Default is None.
-            :type output_dim: int
-        
-            :param dtype: Datatype of the input.
-                Default is None.
-            :type dtype: numpy.dtype or str
-            """
-            if output_dim is not None:
-                raise ScikitsException(_OUTPUTDIM_ERROR)
-            super(ScikitsNode, self).__init__(input_dim=input_dim,
-                                              output_dim=output_dim,
-                                              dtype=dtype)
-            self.scikits_alg = scikits_class(**kwargs)
-
-        # ---- re-direct training and execution to the wrapped algorithm
-
-        def _stop_training(self, **kwargs):
-            super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, **kwargs)
-
-        def _execute(self, x):
-            return self.scikits_alg.transform(x)
-
-        # ---- administrative details
-
-        @staticmethod
-        def is_invertible():
-            return False
-
-        @staticmethod
-        def is_trainable():
-            """Return True if the node can be trained, False otherwise.
-
-            :return: A boolean indication whether the node can be trained.
-            :rtype: bool
-            """
-            return hasattr(scikits_class, 'fit')
-
-        # NOTE: at this point scikits nodes can only support up to
-        # 64-bits floats because some call numpy.linalg.svd, which for
-        # some reason does not support higher precisions
-        def _get_supported_dtypes(self):
-            """Return the list of dtypes supported by this node.
-            The types can be specified in any format allowed by numpy.dtype.
-
-            :return: The list of dtypes supported by this node.
-            :rtype: list
-            """
-            return ['float32', 'float64']
-
-    # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
-    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
-
-    # change the docstring of the methods to match the ones in sklearn
-
-    # methods_dict maps ScikitsNode method names to sklearn method names
-    methods_dict = {'__init__': '__init__',
-                    'stop_training': 'fit',
-                    'execute': 'transform'}
-
-    for mdp_name, scikits_name in list(methods_dict.items()):
-        mdp_method = getattr(ScikitsNode, mdp_name)
-        scikits_method = getattr(scikits_class, scikits_name, None)
-        if hasattr(scikits_method, '__func__'):
-            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
-                                                        scikits_method.__func__)
-
-    if scikits_class.__init__.__doc__ is None:
-        try:
-            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
-        except AttributeError:
-            # we are in Python3
-            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
-
-    return ScikitsNode
-
-
-def wrap_scikits_predictor(scikits_class):
-    """Wrap a sklearn transformer as an MDP Node subclass.
-    The wrapper maps these MDP methods to their sklearn equivalents:
-
-    - _stop_training -> fit
-    - _execute -> predict
-    
-    """
-
-    # create a wrapper class for a sklearn predictor
-    class ScikitsNode(mdp.Cumulator):
-
-        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
-            """
-            Initializes an object of type 'ScikitsNode'.
-
-            :param input_dim: Dimensionality of the input.
-                Default is None.
-            :type input_dim: int
-        
-            :param output_dim: Dimensionality of the output.
-                Default is None.
-            :type output_dim: int
-        
-            :param dtype: Datatype of the input.
-                Default is None.
-            :type dtype: numpy.dtype or str
-            """
-            if output_dim is not None:
-                raise ScikitsException(_OUTPUTDIM_ERROR)
-            super(ScikitsNode, self).__init__(input_dim=input_dim,
-                                              output_dim=output_dim,
-                                              dtype=dtype)
-            self.scikits_alg = scikits_class(**kwargs)
-
-        # ---- re-direct training and execution to the wrapped algorithm
-
-        def _stop_training(self, **kwargs):
-            super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, **kwargs)
-
-        def _execute(self, x):
-            return self.scikits_alg.predict(x)
-
-        # ---- administrative details
-
-        @staticmethod
-        def is_invertible():
-            return False
-
-        @staticmethod
-        def is_trainable():
-            """Return True if the node can be trained, False otherwise.
-
-            :return: A boolean indicating whether the node can be trained.
-            :rtype: bool"""
-            return hasattr(scikits_class, 'fit')
-
-        # NOTE: at this point scikits nodes can only support up to 64-bits floats
-        # because some call numpy.linalg.svd, which for some reason does not
-        # support higher precisions
-        def _get_supported_dtypes(self):
-            """Return the list of dtypes supported by this node.
-            The types can be specified in any format allowed by numpy.dtype."""
-            return ['float32', 'float64']
-
-    # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
-    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
-
-    # change the docstring of the methods to match the ones in sklearn
-
-    # methods_dict maps ScikitsNode method names to sklearn method names
-    methods_dict = {'__init__': '__init__',
-                    'stop_training': 'fit',
-                    'execute': 'predict'}
-
-    for mdp_name, scikits_name in list(methods_dict.items()):
-        mdp_method = getattr(ScikitsNode, mdp_name)
-        scikits_method = getattr(scikits_class, scikits_name)
-        if hasattr(scikits_method, '__func__'):
-            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
-                                                        scikits_method.__func__)
-
-    if scikits_class.__init__.__doc__ is None:
-        try:
-            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
-        except AttributeError:
-            # we are in Python3
-            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
-
-    return ScikitsNode
-
-
-#list candidate nodes
-def print_public_members(class_):
-    """Print methods of sklearn algorithm.
-    """
-    print('\n', '-' * 15)
-    print('%s (%s)' % (class_.__name__, class_.__module__))
-    for attr_name in dir(class_):
-        attr = getattr(class_, attr_name)
-        #print attr_name, type(attr)
-        if not attr_name.startswith('_') and inspect.ismethod(attr):
-            print(' -', attr_name)
-
-#apply_to_scikits_algorithms(sklearn, print_public_members)
-
-
-def wrap_scikits_algorithms(scikits_class, nodes_list):
-    """NEED DOCSTRING."""
-
-    name = scikits_class.__name__
-    if (name[:4] == 'Base' or name == 'LinearModel'
-        or name.startswith('EllipticEnvelop')
-        or name.startswith('ForestClassifier')):
-        return
-
-    if issubclass(scikits_class, sklearn.base.ClassifierMixin) and \
-        hasattr(scikits_class, 'fit'):
-        nodes_list.append(wrap_scikits_classifier(scikits_class))
-    # Some (abstract) transformers do not implement fit.
-    elif hasattr(scikits_class, 'transform') and hasattr(scikits_class, 'fit'):
-        nodes_list.append(wrap_scikits_transformer(scikits_class))
-    elif hasattr(scikits_class, 'predict') and hasattr(scikits_class, 'fit'):
-        nodes_list.append(wrap_scikits_predictor(scikits_class))
-
-scikits_nodes = []
-apply_to_scikits_algorithms(sklearn,
-                            lambda c: wrap_scikits_algorithms(c, scikits_nodes))
-
-# add scikit nodes to dictionary
-#scikits_module = new.module('scikits')
-DICT_ = {}
-for wrapped_c in scikits_nodes:
-    #print wrapped_c.__name__
+# -*- coding:utf-8; -*-
+"""Wraps the algorithms defined in scikits.learn in MDP Nodes.
+This module is based on the 0.6.X branch of scikits.learn .
+"""
+from __future__ import print_function
+__docformat__ = "restructuredtext en"
+
+try:
+    import sklearn
+    _sklearn_prefix = 'sklearn'
+except ImportError:
+    import scikits.learn as sklearn
+    _sklearn_prefix = 'scikits.learn'
+
+import inspect
+import re
+
+import mdp
+
+class ScikitsException(mdp.NodeException):
+    """Base class for exceptions in nodes wrapping scikits algorithms."""
+    pass
+
+# import all submodules of sklearn (to work around lazy import)
+from mdp.configuration import _version_too_old
+if _version_too_old(sklearn.__version__, (0, 8)):
+    scikits_modules = ['ann', 'cluster', 'covariance', 'feature_extraction',
+                       'feature_selection', 'features', 'gaussian_process', 'glm',
+                       'linear_model', 'preprocessing', 'svm',
+                       'pca', 'lda', 'hmm', 'fastica', 'grid_search', 'mixture',
+                       'naive_bayes', 'neighbors', 'qda']
+elif _version_too_old(sklearn.__version__, (0, 9)):
+    # package structure has been changed in 0.8
+    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
+                       'mixture', 'hmm', 'cluster', 'decomposition', 'lda',
+                       'covariance', 'cross_val', 'grid_search',
+                       'feature_selection.rfe', 'feature_extraction.image',
+                       'feature_extraction.text', 'pipelines', 'pls',
+                       'gaussian_process', 'qda']
+elif _version_too_old(sklearn.__version__, (0, 11)):
+    # from release 0.9 cross_val becomes cross_validation and hmm is deprecated
+    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
+                       'mixture', 'cluster', 'decomposition', 'lda',
+                       'covariance', 'cross_validation', 'grid_search',
+                       'feature_selection.rfe', 'feature_extraction.image',
+                       'feature_extraction.text', 'pipelines', 'pls',
+                       'gaussian_process', 'qda', 'ensemble', 'manifold',
+                       'metrics', 'preprocessing', 'tree']    
+elif _version_too_old(sklearn.__version__, (0, 17)):
+    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
+                       'mixture', 'cluster', 'decomposition', 'lda',
+                       'covariance', 'cross_validation', 'grid_search',
+                       'feature_selection', 'feature_extraction',
+                       'pipeline', 'pls', 'gaussian_process', 'qda',
+                       'ensemble', 'manifold', 'metrics', 'preprocessing',
+                       'semi_supervised', 'tree', 'hmm']
+
+else:
+    scikits_modules = ['calibration', 'cluster', 'covariance', 'cross_decomposition',
+                       'cross_validation', 'decomposition', 'discriminant_analysis',
+                       'ensemble', 'feature_extraction', 'feature_selection',
+                       'gaussian_process', 'grid_search', 'isotonic', 'kernel_approximation',
+                       'kernel_ridge', 'learning_curve', 'linear_model', 'manifold',
+                       'metrics', 'mixture', 'multiclass', 'naive_bayes', 'neighbors',
+                       'neural_network', 'preprocessing', 'random_projection',
+                       'semi_supervised', 'svm', 'tree']
+
+
+for name in scikits_modules:
+    # not all modules may be available due to missing dependencies
+    # on the user system.
+    # we just ignore failing imports
+    try:
+        __import__(_sklearn_prefix + '.' + name)
+    except ImportError:
+        pass
+
+
+_WS_LINE_RE = re.compile(r'^\s*$')
+_WS_PREFIX_RE = re.compile(r'^(\s*)')
+_HEADINGS_RE = re.compile(r'''^(Parameters|Attributes|Methods|Examples|Notes)\n
+                           (----+|====+)''', re.M + re.X)
+_UNDERLINE_RE = re.compile(r'----+|====+')
+_VARWITHUNDER_RE = re.compile(r'(\s|^)([a-zA-Z_][a-zA-Z0-9_]*_)(\s|$|[,.])')
+
+_HEADINGS = set(['Parameters', 'Attributes', 'Methods', 'Examples',
+                 'Notes', 'References'])
+
+_DOC_TEMPLATE = """
+%s
+This node has been automatically generated by wrapping the ``%s.%s`` class
+from the ``sklearn`` library.  The wrapped instance can be accessed
+through the ``scikits_alg`` attribute.
+%s
+"""
+
+def _gen_docstring(object, docsource=None):
+    module = object.__module__
+    name = object.__name__
+    if docsource is None:
+        docsource = object
+    docstring = docsource.__doc__
+    if docstring is None:
+        return None
+
+    lines = docstring.strip().split('\n')
+    for i,line in enumerate(lines):
+        if _WS_LINE_RE.match(line):
+            break
+    header = [line.strip() for line in lines[:i]]
+
+    therest = [line.rstrip() for line in lines[i+1:]]
+    body = []
+
+    if therest:
+        prefix = min(len(_WS_PREFIX_RE.match(line).group(1))
+                     for line in therest if line)
+        quoteind = None
+        for i, line in enumerate(therest):
+            line = line[prefix:]
+            if line in _HEADINGS:
+                body.append('**%s**' % line)
+            elif _UNDERLINE_RE.match(line):
+                body.append('')
+            else:
+                line = _VARWITHUNDER_RE.sub(r'\1``\2``\3', line)
+                if quoteind:
+                    if len(_WS_PREFIX_RE.match(line).group(1)) >= quoteind:
+                        line = quoteind * ' ' + '- ' + line[quoteind:]
+                    else:
+                        quoteind = None
+                        body.append('')
+                body.append(line)
+
+            if line.endswith(':'):
+                body.append('')
+                if i+1 < len(therest):
+                    next = therest[i+1][prefix:]
+                    quoteind = len(_WS_PREFIX_RE.match(next).group(1))
+
+    return _DOC_TEMPLATE % ('\n'.join(header), module, name, '\n'.join(body))
+
+# TODO: generalize dtype support
+# TODO: have a look at predict_proba for Classifier.prob
+# TODO: inverse <-> generate/rvs
+# TODO: deal with input_dim/output_dim
+# TODO: change signature of overwritten functions
+# TODO: wrap_scikits_instance
+# TODO: add sklearn availability to test info strings
+# TODO: which tests ? (test that particular algorithm are / are not trainable)
+# XXX: if class defines n_components, allow output_dim, otherwise throw exception
+#      also for classifiers (overwrite _set_output_dim)
+#      Problem: sometimes they call it 'k' (e.g., algorithms in sklearn.cluster)
+
+def apply_to_scikits_algorithms(current_module, action,
+                                processed_modules=None,
+                                processed_classes=None):
+    """Function that traverses a module to find scikits algorithms.
+    'sklearn' algorithms are identified by the 'fit' 'predict',
+    or 'transform' methods. The 'action' function is applied to each found
+    algorithm.
+    
+    :param action: A function that is called with as action(class_), where
+        'class_' is a class that defines the 'fit' or 'predict' method.
+    :type action: function
+    """
+
+    # only consider modules and classes once
+    if processed_modules is None:
+        processed_modules = []
+    if processed_classes is None:
+        processed_classes = []
+
+    if current_module in processed_modules:
+        return
+    processed_modules.append(current_module)
+
+    for member_name, member in list(current_module.__dict__.items()):
+        if not member_name.startswith('_'):
+
+            # classes
+            if (inspect.isclass(member) and
+                member not in processed_classes):
+                processed_classes.append(member)
+                if (hasattr(member, 'fit')
+                    or hasattr(member, 'predict')
+                    or hasattr(member, 'transform')):
+                    action(member)
+
+            # other modules
+            elif (inspect.ismodule(member) and
+                  member.__name__.startswith(_sklearn_prefix)):
+                apply_to_scikits_algorithms(member, action, processed_modules,
+                                            processed_classes)
+    return processed_classes
+
+
+_OUTPUTDIM_ERROR = """'output_dim' keyword not supported.
+Please set the output dimensionality using sklearn keyword
+arguments (e.g., 'n_components', or 'k'). See the docstring of this
+class for details."""
+
+def wrap_scikits_classifier(scikits_class):
+    """Wrap a sklearn classifier as an MDP Node subclass.
+    The wrapper maps these MDP methods to their sklearn equivalents:
+
+    - _stop_training -> fit
+    - _label -> predict
+
+    """
+
+    newaxis = mdp.numx.newaxis
+
+    # create a wrapper class for a sklearn classifier
+    class ScikitsNode(mdp.ClassifierCumulator):
+
+        def __init__(self, input_dim=None, output_dim=None, dtype=None,
+                     **kwargs):
+            """
+            Initializes an object of type 'ScikitsNode'.
+
+            :param input_dim: Dimensionality of the input.
+                Default is None.
+            :type input_dim: int
+        
+            :param output_dim: Dimensionality of the output.
+                Default is None.
+            :type output_dim: int
+        
+            :param dtype: Datatype of the input.
+                Default is None.
+            :type dtype: numpy.dtype or str
+            """
+            if output_dim is not None:
+                # output_dim and n_components cannot be defined at the same time
+                if 'n_components' in kwargs:
+                    msg = ("Dimensionality set both by "
+                           "output_dim=%d and n_components=%d""")
+                    raise ScikitsException(msg % (output_dim,
+                                                  kwargs['n_components']))
+
+
+            super(ScikitsNode, self).__init__(input_dim=input_dim,
+                                              output_dim=output_dim,
+                                              dtype=dtype)
+            self.scikits_alg = scikits_class(**kwargs)
+
+        # ---- re-direct training and execution to the wrapped algorithm
+
+        def _stop_training(self, **kwargs):
+            super(ScikitsNode, self)._stop_training(self)
+            return self.scikits_alg.fit(self.data, self.labels, **kwargs)
+
+        def _label(self, x):
+            return self.scikits_alg.predict(x)[:, newaxis]
+
+        # ---- administrative details
+
+        @staticmethod
+        def is_invertible():
+            return False
+
+        @staticmethod
+        def is_trainable():
+            """Return True if the node can be trained, False otherwise.
+
+            :return: A boolean indicating whether the node can be trained.
+            :rtype: bool
+            """
+            return hasattr(scikits_class, 'fit')
+
+        # NOTE: at this point scikits nodes can only support up to
+        # 64-bits floats because some call numpy.linalg.svd, which for
+        # some reason does not support higher precisions
+        def _get_supported_dtypes(self):
+            """Return the list of dtypes supported by this node.
+            The types can be specified in any format allowed by numpy.dtype.
+
+            :return: The list of dtypes supported by this node.
+            :rtype: list
+            """
+            return ['float32', 'float64']
+
+    # modify class name and docstring
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # needed to pickle the instances
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
+    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
+
+    # change the docstring of the methods to match the ones in sklearn
+
+    # methods_dict maps ScikitsNode method names to sklearn method names
+    methods_dict = {'__init__': '__init__',
+                    'stop_training': 'fit',
+                    'label': 'predict'}
+    if hasattr(scikits_class, 'predict_proba'):
+        methods_dict['prob'] = 'predict_proba'
+
+    for mdp_name, scikits_name in list(methods_dict.items()):
+        mdp_method = getattr(ScikitsNode, mdp_name)
+        scikits_method = getattr(scikits_class, scikits_name)
+        if hasattr(scikits_method, '__func__'):
+            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
+                                                        scikits_method.__func__)
+
+    if scikits_class.__init__.__doc__ is None:
+        try:
+            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
+        except AttributeError:
+            # we are in Python3
+            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
+
+    return ScikitsNode
+
+
+def wrap_scikits_transformer(scikits_class):
+    """Wrap a sklearn transformer as an MDP Node subclass.
+    The wrapper maps these MDP methods to their sklearn equivalents:
+
+    - _stop_training -> fit
+    - _execute -> transform
+
+    """
+
+    # create a wrapper class for a sklearn transformer
+    class ScikitsNode(mdp.Cumulator):
+
+        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
+            """
+            Initializes an object of type 'ScikitsNode'.
+
+            :param input_dim: Dimensionality of the input.
+                Default is None.
+            :type input_dim: int
+        
+            :param output_dim: Dimensionality of the output.
+                Default is None.
+            :type output_dim: int
+        
+            :param dtype: Datatype of the input.
+                Default is None.
+            :type dtype: numpy.dtype or str
+            """
+            if output_dim is not None:
+                raise ScikitsException(_OUTPUTDIM_ERROR)
+            super(ScikitsNode, self).__init__(input_dim=input_dim,
+                                              output_dim=output_dim,
+                                              dtype=dtype)
+            self.scikits_alg = scikits_class(**kwargs)
+
+        # ---- re-direct training and execution to the wrapped algorithm
+
+        def _stop_training(self, **kwargs):
+            super(ScikitsNode, self)._stop_training(self)
+            return self.scikits_alg.fit(self.data, **kwargs)
+
+        def _execute(self, x):
+            return self.scikits_alg.transform(x)
+
+        # ---- administrative details
+
+        @staticmethod
+        def is_invertible():
+            return False
+
+        @staticmethod
+        def is_trainable():
+            """Return True if the node can be trained, False otherwise.
+
+            :return: A boolean indication whether the node can be trained.
+            :rtype: bool
+            """
+            return hasattr(scikits_class, 'fit')
+
+        # NOTE: at this point scikits nodes can only support up to
+        # 64-bits floats because some call numpy.linalg.svd, which for
+        # some reason does not support higher precisions
+        def _get_supported_dtypes(self):
+            """Return the list of dtypes supported by this node.
+            The types can be specified in any format allowed by numpy.dtype.
+
+            :return: The list of dtypes supported by this node.
+            :rtype: list
+            """
+            return ['float32', 'float64']
+
+    # modify class name and docstring
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # needed to pickle the instances
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
+    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
+
+    # change the docstring of the methods to match the ones in sklearn
+
+    # methods_dict maps ScikitsNode method names to sklearn method names
+    methods_dict = {'__init__': '__init__',
+                    'stop_training': 'fit',
+                    'execute': 'transform'}
+
+    for mdp_name, scikits_name in list(methods_dict.items()):
+        mdp_method = getattr(ScikitsNode, mdp_name)
+        scikits_method = getattr(scikits_class, scikits_name, None)
+        if hasattr(scikits_method, '__func__'):
+            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
+                                                        scikits_method.__func__)
+
+    if scikits_class.__init__.__doc__ is None:
+        try:
+            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
+        except AttributeError:
+            # we are in Python3
+            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
+
+    return ScikitsNode
+
+
+def wrap_scikits_predictor(scikits_class):
+    """Wrap a sklearn transformer as an MDP Node subclass.
+    The wrapper maps these MDP methods to their sklearn equivalents:
+
+    - _stop_training -> fit
+    - _execute -> predict
+    
+    """
+
+    # create a wrapper class for a sklearn predictor
+    class ScikitsNode(mdp.Cumulator):
+
+        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
+            """
+            Initializes an object of type 'ScikitsNode'.
+
+            :param input_dim: Dimensionality of the input.
+                Default is None.
+            :type input_dim: int
+        
+            :param output_dim: Dimensionality of the output.
+                Default is None.
+            :type output_dim: int
+        
+            :param dtype: Datatype of the input.
+                Default is None.
+            :type dtype: numpy.dtype or str
+            """
+            if output_dim is not None:
+                raise ScikitsException(_OUTPUTDIM_ERROR)
+            super(ScikitsNode, self).__init__(input_dim=input_dim,
+                                              output_dim=output_dim,
+                                              dtype=dtype)
+            self.scikits_alg = scikits_class(**kwargs)
+
+        # ---- re-direct training and execution to the wrapped algorithm
+
+        def _stop_training(self, **kwargs):
+            super(ScikitsNode, self)._stop_training(self)
+            return self.scikits_alg.fit(self.data, **kwargs)
+
+        def _execute(self, x):
+            return self.scikits_alg.predict(x)
+
+        # ---- administrative details
+
+        @staticmethod
+        def is_invertible():
+            return False
+
+        @staticmethod
+        def is_trainable():
+            """Return True if the node can be trained, False otherwise.
+
+            :return: A boolean indicating whether the node can be trained.
+            :rtype: bool"""
+            return hasattr(scikits_class, 'fit')
+
+        # NOTE: at this point scikits nodes can only support up to 64-bits floats
+        # because some call numpy.linalg.svd, which for some reason does not
+        # support higher precisions
+        def _get_supported_dtypes(self):
+            """Return the list of dtypes supported by this node.
+            The types can be specified in any format allowed by numpy.dtype."""
+            return ['float32', 'float64']
+
+    # modify class name and docstring
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # needed to pickle the instances
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
+    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
+
+    # change the docstring of the methods to match the ones in sklearn
+
+    # methods_dict maps ScikitsNode method names to sklearn method names
+    methods_dict = {'__init__': '__init__',
+                    'stop_training': 'fit',
+                    'execute': 'predict'}
+
+    for mdp_name, scikits_name in list(methods_dict.items()):
+        mdp_method = getattr(ScikitsNode, mdp_name)
+        scikits_method = getattr(scikits_class, scikits_name)
+        if hasattr(scikits_method, '__func__'):
+            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
+                                                        scikits_method.__func__)
+
+    if scikits_class.__init__.__doc__ is None:
+        try:
+            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
+        except AttributeError:
+            # we are in Python3
+            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
+
+    return ScikitsNode
+
+
+#list candidate nodes
+def print_public_members(class_):
+    """Print methods of sklearn algorithm.
+    """
+    print('\n', '-' * 15)
+    print('%s (%s)' % (class_.__name__, class_.__module__))
+    for attr_name in dir(class_):
+        attr = getattr(class_, attr_name)
+        #print attr_name, type(attr)
+        if not attr_name.startswith('_') and inspect.ismethod(attr):
+            print(' -', attr_name)
+
+#apply_to_scikits_algorithms(sklearn, print_public_members)
+
+
+def wrap_scikits_algorithms(scikits_class, nodes_list):
+    """NEED DOCSTRING."""
+
+    name = scikits_class.__name__
+    if (name[:4] == 'Base' or name == 'LinearModel'
+        or name.startswith('EllipticEnvelop')
+        or name.startswith('ForestClassifier')):
+        return
+
+    if issubclass(scikits_class, sklearn.base.ClassifierMixin) and \
+        hasattr(scikits_class, 'fit'):
+        nodes_list.append(wrap_scikits_classifier(scikits_class))
+    # Some (abstract) transformers do not implement fit.
+    elif hasattr(scikits_class, 'transform') and hasattr(scikits_class, 'fit'):
+        nodes_list.append(wrap_scikits_transformer(scikits_class))
+    elif hasattr(scikits_class, 'predict') and hasattr(scikits_class, 'fit'):
+        nodes_list.append(wrap_scikits_predictor(scikits_class))
+
+scikits_nodes = []
+apply_to_scikits_algorithms(sklearn,
+                            lambda c: wrap_scikits_algorithms(c, scikits_nodes))
+
+# add scikit nodes to dictionary
+#scikits_module = new.module('scikits')
+DICT_ = {}
+for wrapped_c in scikits_nodes:
+    #print wrapped_c.__name__
     DICT_[wrapped_c.__name__] = wrapped_c
\ No newline at end of file
-- 
2.43.0


From cf9c22b4c21b12563eb0bd52f3b35626ea1cb840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 016/145] fix: mdp.Cumulator instances could not be pickled or
 saved

---
 mdp/signal_node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 0780af6..051913e 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -786,6 +786,8 @@ def VariadicCumulator(*fields):
     return Cumulator
 
 Cumulator = VariadicCumulator('data')
+# needed to pickle the instances
+Cumulator.__qualname__ = 'Cumulator'
 Cumulator.__doc__ = """A specialized version of `VariadicCumulator` which only
                     fills the field ``self.data``.
                     """
-- 
2.43.0


From ad2758526a377322d21ca213e5391b2989d6816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 017/145] fix: a pickled or saved NoiseNode carried a private
 copy of the global random generator and so no longer behaved like the
 original

---
 mdp/nodes/misc_nodes.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index a32c27b..1a8f3f2 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -706,6 +706,25 @@ class NoiseNode(PreserveDimNode):
         elif self.noise_type == 'multiplicative':
             return x*(1.+noise_mat)
 
+    def __getstate__(self):
+        # The functions of the global random number generator are stored by
+        # name. Otherwise the pickle would contain the state of the generator
+        # and the restored node would use a private copy of it.
+        state = self.__dict__.copy()
+        name = getattr(self.noise_func, '__name__', None)
+        if (name is not None and
+            getattr(mdp.numx_rand, name, None) == self.noise_func):
+            del state['noise_func']
+            state['_numx_rand_func'] = name
+        return state
+
+    def __setstate__(self, state):
+        state = dict(state)
+        if '_numx_rand_func' in state:
+            state['noise_func'] = getattr(mdp.numx_rand,
+                                          state.pop('_numx_rand_func'))
+        self.__dict__.update(state)
+
     def save(self, filename, protocol = -1):
         """Save a pickled serialization of the node to 'filename'.
         If 'filename' is None, return a string.
-- 
2.43.0


From d8c07f207835ee140fbed99b913cb7e7a60c64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 018/145] fix: an OnlineLayer or OnlineFlowNode created without
 a random generator replaced the private generators of its nodes by an
 unseeded one

---
 mdp/signal_node_online.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/signal_node_online.py b/mdp/signal_node_online.py
index 5582a66..10fe0da 100644
--- a/mdp/signal_node_online.py
+++ b/mdp/signal_node_online.py
@@ -217,9 +217,10 @@ class OnlineNode(Node):
     def _check_input(self, x):
         super(OnlineNode, self)._check_input(x)
 
-        # set numx_rng if necessary
+        # set numx_rng if necessary (nodes contained in this one keep the
+        # generator they were given, or set their own)
         if self.numx_rng is None:
-            self.numx_rng = mdp.numx_rand.RandomState()
+            self._numx_rng = mdp.numx_rand.RandomState()
 
         # set training type if necessary
         if self.training_type is None:
-- 
2.43.0


From d23a528628691424e6af022cc0bf06b58209f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 019/145] fix: utils.dig_node raised ValueError for a node
 without arrays

---
 mdp/utils/introspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/utils/introspection.py b/mdp/utils/introspection.py
index a86d51f..7b4ce79 100644
--- a/mdp/utils/introspection.py
+++ b/mdp/utils/introspection.py
@@ -62,8 +62,8 @@ class _Walk(object):
         return arrays
 
 def _format_dig(dict_):
-    longest_name = max(list(map(len, list(dict_.keys()))))
-    longest_size = max([len('%d'%x[0]) for x in list(dict_.values())])
+    longest_name = max([0] + list(map(len, list(dict_.keys()))))
+    longest_size = max([0] + [len('%d'%x[0]) for x in list(dict_.values())])
     msgs = []
     total_size = 0
     for name in sorted(dict_.keys()):
-- 
2.43.0


From 3b0d0f244802346df60e9cacf8811121bc738b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 020/145] fix: flow += other added the nodes before checking
 dimensions (a refused += left an inconsistent flow) and altered the list the
 flow was created from

---
 mdp/linear_flows.py        |  9 ++++++---
 mdp/linear_flows_online.py | 22 +++++++++++++---------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 1f12da8..1c7d1da 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -547,14 +547,17 @@ class Flow(object):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         return self
 
     # public container methods
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..9bda587 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -305,16 +305,18 @@ class OnlineFlow(mdp.Flow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
-        self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
+        self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(flow_copy)
         return self
 
     # public container methods
@@ -620,15 +622,17 @@ class CircularOnlineFlow(OnlineFlow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.OnlineNode):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = _deque(flow_copy)
         return self
 
     # public container methods
-- 
2.43.0


From 6d4e66e4290ea6b3eb0bdfe701acbfd1b3371619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 021/145] fix: assigning an iterator of nodes to a slice of a
 flow silently deleted the slice; a CircularOnlineFlow could not be added to
 another flow

---
 mdp/linear_flows.py        | 3 ++-
 mdp/linear_flows_online.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 1c7d1da..676bf19 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -497,6 +497,7 @@ class Flow(object):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            value = list(value)
             [self._check_value_type_isnode(item) for item in value]
         else:
             self._check_value_type_isnode(value)
@@ -527,7 +528,7 @@ class Flow(object):
     def __add__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            flow_copy = list(self.flow).__add__(other.flow)
+            flow_copy = list(self.flow) + list(other.flow)
             # check dimension consistency
             self._check_nodes_consistency(flow_copy)
             # if no exception was raised, accept the new sequence
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 9bda587..eeb78a4 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -255,6 +255,7 @@ class OnlineFlow(mdp.Flow):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            value = list(value)
             [self._check_value_type_is_online_or_nontrainable_node(item) for item in value]
         else:
             self._check_value_type_is_online_or_nontrainable_node(value)
@@ -281,7 +282,7 @@ class OnlineFlow(mdp.Flow):
     def __add__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            flow_copy = list(self.flow).__add__(other.flow)
+            flow_copy = list(self.flow) + list(other.flow)
             # check OnlineFlow compatibility
             self._check_compatibility(flow_copy)
             # check dimension consistency
-- 
2.43.0


From 9b6fba6708d1270c8468b4b2d0fb14f2c99b5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 022/145] fix: CircularOnlineFlow raised after having been
 changed by item assignment, deletion, insertion before the output node or
 pop, and could not be added to an OnlineFlow

---
 mdp/linear_flows_online.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index eeb78a4..31a32d7 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -573,9 +573,18 @@ class CircularOnlineFlow(OnlineFlow):
     # private container methods
 
     def __setitem__(self, key, value):
+        # apply the same operation to the positions to keep track of the output node
+        positions = list(range(len(self.flow)))
+        if isinstance(key, slice):
+            value = list(value)
+            positions[key] = [None] * len(value)
+        else:
+            positions[key] = None
         super(CircularOnlineFlow, self).__setitem__(key, value)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
+        if self.output_node_idx in positions:
+            self.output_node_idx = positions.index(self.output_node_idx)
+        else:
             print('Output node is replaced! Resetting the output node.')
             self.reset_output_node()
 
@@ -589,19 +598,20 @@ class CircularOnlineFlow(OnlineFlow):
             return self.flow[key]
 
     def __delitem__(self, key):
+        positions = list(range(len(self.flow)))
+        del positions[key]
         super(CircularOnlineFlow, self).__delitem__(key)
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
+        if self.output_node_idx in positions:
+            self.output_node_idx = positions.index(self.output_node_idx)
+        else:
             print('Output node deleted! Resetting the output node to the default last node.')
             self.reset_output_node()
-        elif self.output_node_idx > key.stop():
-            self.set_output_node(self.output_node_idx - key.stop + key.start)
 
     def __add__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            flow_copy = list(self.flow)
-            flow_copy.append(other)
+            flow_copy = list(self.flow) + list(other.flow)
             self._check_compatibility(flow_copy)
             self._check_nodes_consistency(flow_copy)
             # if no exception was raised, accept the new sequence
@@ -660,6 +670,3 @@ class CircularOnlineFlow(OnlineFlow):
         self[i:i] = [x]
         self._check_nodes_consistency(self.flow)
         self._check_compatibility(self.flow)
-
-        if self.output_node_idx >= i:
-            self.set_output_node(self.output_node_idx + 1)
-- 
2.43.0


From 50a0116dd4c12fd717e57d5966ce0d8da6a53efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 023/145] fix: CircularOnlineFlow could not be inverted,
 accepted a position past the end as input or output node, and ignored a
 stored input set before the first node knew its dimension

---
 mdp/linear_flows_online.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 31a32d7..d84cdc4 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -425,7 +425,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
@@ -540,7 +540,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
+        flow = list(self.flow)[:self.output_node_idx + 1]
         for i in range(len(flow) - 1, -1, -1):
             try:
                 x = flow[i].inverse(x)
@@ -550,7 +550,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -558,7 +558,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From 705ba4ffb7b177f7909a02ec15a6815dbb098b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 024/145] fix: Flow.train raised TypeError when None was given
 as the data of an already trained node

---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 676bf19..0261e53 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if node is not trainable or already trained
             return
 
         try:
-- 
2.43.0


From 04ba0895cab76f7d0e7834d72e338127893d29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 025/145] fix: after a failed parallel training a ParallelFlow
 stayed in the 'parallel training underway' state and could not be used any
 more; an iterable of schedulers raised TypeError when all nodes were trained

---
 mdp/parallel/parallelflows.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..96a35c8 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -324,19 +324,19 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -378,6 +378,9 @@ class ParallelFlow(mdp.Flow):
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
                 self._train_data_iterator = None
+                # parallel training is over, also after an exception
+                self._i_train_node = None
+                self._next_task = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
-- 
2.43.0


From ea104f91f57aadde1146be4347667dcce2173f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 026/145] fix: a ParallelBiFlow raised TypeError with an
 iterable of schedulers when all nodes were trained and stayed in the training
 state after a failure

---
 bimdp/parallel/parallelbiflow.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index fceac56..6516c5f 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -185,19 +185,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -221,6 +221,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                         self.use_results(results)
                     # check if we have to switch to next scheduler
                     if ((schedulers is not None) and
+                        (self._i_train_node is not None) and
                         (self._i_train_node > last_trained_node)):
                         # dispose unused schedulers
                         for _ in range(self._i_train_node - last_trained_node):
@@ -237,8 +238,13 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                             parallel.TrainResultContainer()
             finally:
                 # reset remaining iterator references, which cannot be pickled
+                self._train_data_iterables = None
+                self._train_msg_iterables = None
                 self._train_data_iterator = None
                 self._train_msg_iterator = None
+                # parallel training is over, also after an exception
+                self._i_train_node = None
+                self._next_task = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
-- 
2.43.0


From dd35c11c5e4a65d5206c308fcae40752e1c3509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 027/145] fix: a refused array (no rows, unsupported number
 type, wrong number of columns) nevertheless fixed the input dimension or
 number type of the node

---
 mdp/signal_node.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 051913e..316634a 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -472,16 +472,8 @@ class Node(with_metaclass(NodeMetaclass, object)):
             error_str = "x has rank %d, should be 2" % (x.ndim)
             raise NodeException(error_str)
 
-        # set the input dimension if necessary
-        if self.input_dim is None:
-            self.input_dim = x.shape[1]
-
-        # set the dtype if necessary
-        if self.dtype is None:
-            self.dtype = x.dtype
-
         # check the input dimension
-        if not x.shape[1] == self.input_dim:
+        if self.input_dim is not None and x.shape[1] != self.input_dim:
             error_str = "x has dimension %d, should be %d" % (x.shape[1],
                                                               self.input_dim)
             raise NodeException(error_str)
@@ -490,6 +482,14 @@ class Node(with_metaclass(NodeMetaclass, object)):
             error_str = "x must have at least one observation (zero given)"
             raise NodeException(error_str)
 
+        # x can be accepted: set the dtype if necessary
+        if self.dtype is None:
+            self.dtype = x.dtype
+
+        # set the input dimension if necessary
+        if self.input_dim is None:
+            self.input_dim = x.shape[1]
+
     def _check_output(self, y):
         # check output rank
         if not y.ndim == 2:
-- 
2.43.0


From d85dba008af1738320d45f5337bd7c4a716a2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 028/145] fix: BiCheckpointFlow raised TypeError when a
 checkpoint function returned nothing

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..f1508a8 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -607,7 +607,7 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                              msg_iterables[i_node], stop_messages[i_node])
             if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From 68261bbf396276c25de053d28931042e00140e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 029/145] fix: ParallelCheckpointFlow could not be trained
 without a scheduler (ParallelFlowException about a train_callable_class
 nobody gave)

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 96a35c8..49819d9 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -728,7 +728,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                                      **kwargs)
 
     def train(self, data_iterables, checkpoints, scheduler=None,
-              train_callable_class=FlowTrainCallable,
+              train_callable_class=None,
               overwrite_result_container=True,
               **kwargs):
         """Train all trainable nodes in the flow.
-- 
2.43.0


From c3e5806b828a92b7d0ac9b3491620a5cdaeb66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 030/145] fix: ParallelCheckpointBiFlow.train dropped
 stop_messages and raised TypeError without a scheduler

---
 bimdp/parallel/parallelbiflow.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 6516c5f..2017858 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -164,8 +164,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 err = ("A train_callable_class was specified but no scheduler "
                        "was given, so the train_callable_class has no effect.")
                 raise ParallelBiFlowException(err)
-            super(ParallelBiFlow, self).train(data_iterables, msg_iterables,
-                                              stop_messages,
+            super(ParallelBiFlow, self).train(data_iterables,
+                                              msg_iterables=msg_iterables,
+                                              stop_messages=stop_messages,
                                               **kwargs)
         else:
             if train_callable_class is None:
@@ -629,6 +630,7 @@ class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                         train_callable_class=train_callable_class,
                         overwrite_result_container=overwrite_result_container,
                         msg_iterables=msg_iterables,
+                        stop_messages=stop_messages,
                         **kwargs)
 
     def setup_parallel_training(self, data_iterables, checkpoints,
-- 
2.43.0


From 54939d87b619a4090a246b9813ee80d1bab38c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 031/145] fix: BiFlow.train raised BiFlowException when None
 was given as the data of an already trained node

---
 bimdp/biflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index f1508a8..e441f77 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -156,7 +156,8 @@ class BiFlow(mdp.Flow):
 
         Note: unlike the normal mdp.Flow we do no exception handling here.
         """
-        if not self.flow[nodenr].is_trainable():
+        if not self.flow[nodenr].is_training():
+            # the node is not trainable or already trained
             return
         iterable, msg_iterable, _ = self._sanitize_iterables(iterable,
                                                              msg_iterable)
-- 
2.43.0


From f1f0cb7df5a4a4cf3842362d463ad1fc4d448d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 032/145] fix: merging the messages of several chunks modified
 values (e.g. lists) owned by the user in place

---
 bimdp/biflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index e441f77..eb17c23 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -68,7 +68,9 @@ class MessageResultContainer(object):
                         self._msg_results[key] = msg[key]
                     else:
                         try:
-                            self._msg_results[key] += msg[key]
+                            # not in place, the value belongs to the user
+                            self._msg_results[key] = (self._msg_results[key] +
+                                                      msg[key])
                         except:
                             err = ("Could not combine final msg results "
                                    "in BiFlow.")
-- 
2.43.0


From aadd5b5f27c23649ccc66c31fc6feb5ea16f63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 033/145] fix: a BiNode result of invalid length was reported
 by a TypeError about string concatenation instead of a BiFlowException

---
 bimdp/biflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index eb17c23..ebef2a6 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -333,7 +333,7 @@ class BiFlow(mdp.Flow):
                 raise BiFlowException(err)
             else:
                 err = ("BiNode execution returned invalid result type: " +
-                       result)
+                       str(result))
                 raise BiFlowException(err)
             self._bi_reset()
             if msg:
@@ -543,7 +543,7 @@ class BiFlow(mdp.Flow):
                     x, msg, target = result
                 else:
                     err = ("BiNode execution returned invalid result type: " +
-                           result)
+                           str(result))
                     raise BiFlowException(err)
             else:
                 # just a normal MDP node
-- 
2.43.0


From e0fceb6bc2081578af922624fd13d2c90a43f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 034/145] fix: a relative target before the first node of a
 BiFlow silently continued counting from the end of the flow, one beyond the
 end raised IndexError

---
 bimdp/biflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index ebef2a6..c94be43 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -561,6 +561,11 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
+                elif not 0 <= i_node < len(self.flow):
+                    err = ("Target int value references a node outside of "
+                           "the flow (target " + str(target) + ", current " +
+                           "node " + str(i_node - target) + ").")
+                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
-- 
2.43.0


From 3f6f8d7a4b6e48fce33dc81c5e27eba55047fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 035/145] fix: BiFlow.execute returned False instead of None
 when no chunk had a data result, and raised for two such chunks

---
 bimdp/biflow.py                  |  4 +++-
 bimdp/parallel/parallelbiflow.py | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c94be43..dc59aeb 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -351,7 +351,7 @@ class BiFlow(mdp.Flow):
             else:
                 if y_results is None:
                     y_results = False
-                else:
+                elif y_results is not False:
                     err = "Some but not all y return values were None."
                     raise BiFlowException(err)
         if empty_iterator:
@@ -360,6 +360,8 @@ class BiFlow(mdp.Flow):
         # consolidate results
         if y_results:
             y_results = n.concatenate(y_results)
+        else:
+            y_results = None
         result_msg = msg_results.get_message()
         return y_results, result_msg
 
diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 2017858..56fc8c3 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -570,7 +570,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
-            y_results = []
+            y_results = None
             msg_results = MessageResultContainer()
             # use internal flownode to join all biflownodes
             self._flownode = BiFlowNode(BiFlow(self.flow))
@@ -583,19 +583,27 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 else:
                     y = result
                 if y is not None:
-                    try:
-                        y_results.append(y)
-                    except:
+                    if y_results is None:
+                        y_results = [y]
+                    elif y_results is False:
                         err = "Some but not all y return values were None."
                         raise BiFlowException(err)
+                    else:
+                        y_results.append(y)
                 else:
-                    y_results = None
+                    if y_results is None:
+                        y_results = False
+                    elif y_results is not False:
+                        err = "Some but not all y return values were None."
+                        raise BiFlowException(err)
                 # join biflownode
                 if forked_biflownode is not None:
                     self._flownode.join(forked_biflownode)
             # return results
-            if y_results is not None:
+            if y_results:
                 y_results = n.concatenate(y_results)
+            else:
+                y_results = None
             return (y_results, msg_results.get_message())
         else:
             err = "It seems that there are no results to retrieve."
-- 
2.43.0


From e6ae57a11e53c5f1aeb1a8478b846f5cfa90213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 036/145] fix: a BiFlow removed node specific keys from the
 messages owned by the user, so that later training phases (and later calls
 with the same messages) missed them

---
 bimdp/biflow.py                  |  8 ++++++++
 bimdp/parallel/parallelbiflow.py | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index dc59aeb..fac0a74 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -179,6 +179,9 @@ class BiFlow(mdp.Flow):
         empty_iterator = True
         for (x, msg) in zip(iterable, msg_iterable):
             empty_iterator = False
+            if isinstance(msg, dict):
+                # nodes remove keys, but the message belongs to the user
+                msg = msg.copy()
             ## execute the flow until the nodes return value is right
             i_node = 0
             while True:
@@ -255,6 +258,8 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
+            if isinstance(stop_msg, dict):
+                stop_msg = stop_msg.copy()
             result = self.flow[nodenr].stop_training(stop_msg)
         if result is None:
             # the training phase ends here without an execute phase
@@ -314,6 +319,9 @@ class BiFlow(mdp.Flow):
         for (x, msg, target) in zip(iterable, msg_iterable,
                                                target_iterable):
             empty_iterator = False
+            if isinstance(msg, dict):
+                # nodes remove keys, but the message belongs to the user
+                msg = msg.copy()
             if not target:
                 i_node = 0
             else:
diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 56fc8c3..5cc0bc5 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -289,7 +289,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         self._train_msg_iterables = msg_iterables
         if stop_messages is None:
             stop_messages = [None] * len(data_iterables)
-        self._stop_messages = stop_messages
+        # nodes remove keys, but the messages belong to the user
+        self._stop_messages = [msg.copy() if isinstance(msg, dict) else msg
+                               for msg in stop_messages]
         self._flownode = BiFlowNode(BiFlow(self.flow))
         self._i_train_node = 0
         self._next_train_phase()
@@ -377,6 +379,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             i_task += 1
             # Note: if x contains additional args assume that the
             # callable can handle this
+            if isinstance(msg, dict):
+                # nodes remove keys, but the message belongs to the user
+                msg = msg.copy()
             task_callable((x, msg))
             if self.verbose:
                 print ("    finished nonparallel task no. %d" % i_task)
@@ -405,6 +410,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         try:
             x = next(self._train_data_iterator)
             msg = next(self._train_msg_iterator)
+            if isinstance(msg, dict):
+                # nodes remove keys, but the message belongs to the user
+                msg = msg.copy()
             return ((x, msg), None)
         except StopIteration:
             return None
@@ -527,6 +535,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         try:
             x = next(self._exec_data_iterator)
             msg = next(self._exec_msg_iterator)
+            if isinstance(msg, dict):
+                # nodes remove keys, but the message belongs to the user
+                msg = msg.copy()
             target = next(self._exec_target_iterator)
             return ((x, msg, target), None)
         except StopIteration:
-- 
2.43.0


From ecc14495d494105b5ce51d2b3050f2fe58912a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 037/145] fix: a trained CloneBiLayer could not be switched
 back from node copies to a single node (AttributeError is_bi_training)

---
 bimdp/hinet/bilayer.py            | 4 ----
 bimdp/parallel/parallelbihinet.py | 3 ---
 2 files changed, 7 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index c8d3e28..afe0484 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -80,10 +80,6 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                 err = ("Calling switch_to_instance during training will "
                        "probably result in lost training data.")
                 raise CloneBiLayerException(err)
-            elif self.is_bi_training():
-                err = ("Calling switch_to_instance during bi_learning will "
-                       "probably result in lost learning data.")
-                raise CloneBiLayerException(err)
             self.node = self.nodes[0]
             self.nodes = [self.node] * len(self.nodes)
 
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index c32ad76..0cc81d1 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -35,9 +35,6 @@ class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
             if self.is_training():
                 for forked_node in self.nodes[1:]:
                     self.nodes[0].join(forked_node)
-            elif self.is_bi_training():
-                for forked_node in self.nodes[1:]:
-                    self.nodes[0].bi_join(forked_node)
             self.node = self.nodes[0]
             self.nodes = (self.node,) * len(self.nodes)
 
-- 
2.43.0


From bc5af61e34bd5abb9d473fd22bdc6f526d4a1ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 038/145] fix: an unknown start target of BiFlow.execute (or
 one returned by a node in training) was reported by a TypeError about list
 indices instead of a BiFlowException

---
 bimdp/biflow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index fac0a74..61c35d3 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -538,6 +538,9 @@ class BiFlow(mdp.Flow):
         current msg is simply carried forward around it.
         """
         ## this method is also used by other classes, like BiFlowNode
+        if not isinstance(i_node, int):
+            err = "Target node not found in flow, target: " + str(i_node)
+            raise BiFlowException(err)
         while i_node != stop_at_node:
             if isinstance(self.flow[i_node], BiNode):
                 result = self.flow[i_node].execute(x, msg)
-- 
2.43.0


From abf198bfc9f35b2332b8a25afe1e06550427a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 039/145] fix: the last node of a nested BiFlowNode could not
 return data without a target from train or stop_training (BiFlowException),
 though the flow continues with the next outer node

---
 bimdp/hinet/biflownode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 78d2dd2..4fad499 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -156,6 +156,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                     # to the outer flow
                     return result
                 ## check if the target is in this flow, return otherwise
+                if target is None:
+                    target = 1
                 if isinstance(target, int):
                     i_node = i_node + target
                     # values of +1 and -1 beyond this flow are allowed
@@ -205,6 +207,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                 err = ("Node produced invalid return value " +
                        "for stop_training: " + str(result))
                 raise BiFlowException(err)
+            if target is None:
+                target = 1
             if isinstance(target, int):
                 i_node = nodenr + target
                 # values of +1 and -1 beyond this flow are allowed
-- 
2.43.0


From 7eae90b86210200cdc356d6e064055e929abd268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 040/145] fix: deactivating (or refusing) an extension did not
 restore the classes: methods of subclasses were lost, static methods became
 plain functions, inherited attributes were copied, attributes of a
 conflicting active extension and of late registrations were removed

---
 mdp/extension.py | 123 ++++++++++++++++++++++++-----------------------
 1 file changed, 62 insertions(+), 61 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..49cba96 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -66,6 +66,11 @@ _TEARDOWN_FUNC_ATTR = "_extension_teardown"
 _extensions = dict()
 # set containing the names of the currently activated extensions
 _active_extensions = set()
+# dict with the injected attributes for each active extension, as a list of
+# (class, attribute name, attribute found in the class __dict__ before)
+_injected_attributes = dict()
+# marks attributes that were not defined in the class itself
+_NOT_DEFINED = object()
 
 
 class ExtensionException(MDPException):
@@ -293,6 +298,42 @@ def get_active_extensions():
     # value is used in a for-loop (see deactivate_extensions function)
     return list(_active_extensions)
 
+def _lookup_original_attribute(node_cls, attr_name):
+    """Return the raw pre-extension attribute (e.g. a staticmethod object)."""
+    for cls in node_cls.__mro__:
+        if attr_name in cls.__dict__:
+            if _EXTENSION_ATTR_PREFIX + attr_name in cls.__dict__:
+                # an extension has replaced the attribute in this class
+                attr_name = ORIGINAL_ATTR_PREFIX + attr_name
+            return cls.__dict__.get(attr_name, _NOT_DEFINED)
+    return _NOT_DEFINED
+
+def _inject_attribute(extension_name, node_cls, attr_name, attr_value,
+                      verbose=False):
+    """Inject a single extension attribute into a class."""
+    original_name = ORIGINAL_ATTR_PREFIX + attr_name
+    ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
+    if ext_attr_name in node_cls.__dict__:
+        # two extensions override the same attribute
+        err = ("Name collision for attribute '" + attr_name +
+               "' between extension '" + getattr(node_cls, ext_attr_name) +
+               "' and newly activated extension '" + extension_name + "'.")
+        raise ExtensionException(err)
+    class_attr = node_cls.__dict__.get(attr_name, _NOT_DEFINED)
+    ## store the original attribute / make it available
+    original_attr = _lookup_original_attribute(node_cls, attr_name)
+    injected_attributes = _injected_attributes.setdefault(extension_name, [])
+    injected_attributes.append((node_cls, attr_name, class_attr))
+    if original_attr is not _NOT_DEFINED:
+        if verbose:
+            print ("extension %s: overwriting %s in %s" %
+                   (extension_name, attr_name, node_cls.__name__))
+        setattr(node_cls, original_name, original_attr)
+    setattr(node_cls, attr_name, attr_value)
+    # store to which extension this attribute belongs, this is also
+    # used as a flag that this is an extension attribute
+    setattr(node_cls, ext_attr_name, extension_name)
+
 def activate_extension(extension_name, verbose=False):
     """Activate the extension by injecting the extension methods."""
     if extension_name not in list(_extensions.keys()):
@@ -313,30 +354,8 @@ def activate_extension(extension_name, verbose=False):
                 if verbose:
                     print ("extension %s: adding %s to %s" %
                            (extension_name, attr_name, node_cls.__name__))
-                ## store the original attribute / make it available
-                ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
-                if attr_name in dir(node_cls):
-                    if ext_attr_name in node_cls.__dict__:
-                        # two extensions override the same attribute
-                        err = ("Name collision for attribute '" +
-                               attr_name + "' between extension '" +
-                               getattr(node_cls, ext_attr_name)
-                               + "' and newly activated extension '" +
-                               extension_name + "'.")
-                        raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
-                        original_attr = getattr(node_cls, attr_name)
-                        if verbose:
-                            print ("extension %s: overwriting %s in %s" %
-                                (extension_name, attr_name, node_cls.__name__))
-                        setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
-                                original_attr)
-                setattr(node_cls, attr_name, attr_value)
-                # store to which extension this attribute belongs, this is also
-                # used as a flag that this is an extension attribute
-                setattr(node_cls, ext_attr_name, extension_name)
+                _inject_attribute(extension_name, node_cls, attr_name,
+                                  attr_value, verbose=verbose)
     except Exception:
         # make sure that an incomplete activation is reverted
         deactivate_extension(extension_name)
@@ -349,45 +368,27 @@ def deactivate_extension(extension_name, verbose=False):
         raise ExtensionException(err)
     if extension_name not in _active_extensions:
         return
-    for node_cls, attributes in list(_extensions[extension_name].items()):
-        if node_cls == _SETUP_FUNC_ATTR or node_cls == _TEARDOWN_FUNC_ATTR:
-            continue
-        for attr_name in list(attributes.keys()):
-            original_name = ORIGINAL_ATTR_PREFIX + attr_name
+    # only attributes that were really injected are removed, later ones first
+    injected_attributes = _injected_attributes.pop(extension_name, [])
+    for node_cls, attr_name, class_attr in reversed(injected_attributes):
+        if verbose:
+            print ("extension %s: removing %s from %s" %
+                   (extension_name, attr_name, node_cls.__name__))
+        for name in (attr_name, ORIGINAL_ATTR_PREFIX + attr_name,
+                     _EXTENSION_ATTR_PREFIX + attr_name):
+            if name in node_cls.__dict__:
+                delattr(node_cls, name)
+        if class_attr is not _NOT_DEFINED:
+            # restore the attribute defined by the class itself
             if verbose:
-                print ("extension %s: removing %s from %s" %
+                print ("extension %s: restoring %s in %s" %
                        (extension_name, attr_name, node_cls.__name__))
-            if original_name in node_cls.__dict__:
-                # restore the original attribute
-                if verbose:
-                    print ("extension %s: restoring %s in %s" %
-                           (extension_name, attr_name, node_cls.__name__))
-                delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
-                # Check if the attribute is defined by one of the super
-                # classes and test if the overwritten method is not that
-                # method, otherwise we would inject unwanted methods.
-                # Note: '==' tests identity for .__func__ and .__self__,
-                #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
-                    setattr(node_cls, attr_name, original_attr)
-                delattr(node_cls, original_name)
-            else:
-                try:
-                    # no original attribute to restore, so simply delete
-                    # might be missing if the activation failed
-                    delattr(node_cls, attr_name)
-                except AttributeError:
-                    pass
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-            except AttributeError:
-                pass
-    if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
-        _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
-    _active_extensions.remove(extension_name)
+            setattr(node_cls, attr_name, class_attr)
+    try:
+        if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
+            _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
+    finally:
+        _active_extensions.remove(extension_name)
 
 def activate_extensions(extension_names, verbose=False):
     """Activate all the extensions for the given names.
-- 
2.43.0


From e99255c818d20cc34162fd2d193764d5f872da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 041/145] fix: a failing activate_extensions deactivated all
 extensions, including those that were active before the call

---
 mdp/extension.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 49cba96..594ffd2 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -395,14 +395,16 @@ def activate_extensions(extension_names, verbose=False):
 
     extension_names -- Sequence of extension names.
     """
+    activated = []
     try:
         for extension_name in extension_names:
+            already_active = extension_name in _active_extensions
             activate_extension(extension_name, verbose=verbose)
+            if not already_active:
+                activated.append(extension_name)
     except:
-        # if something goes wrong deactivate all, otherwise we might be
-        # in an inconsistent state (e.g. methods for active extensions might
-        # have been removed)
-        deactivate_extensions(get_active_extensions())
+        # if something goes wrong revert to the state before the call
+        deactivate_extensions(reversed(activated))
         raise
 
 def deactivate_extensions(extension_names, verbose=False):
-- 
2.43.0


From dbf71d38d898f254ed07ca8cf5b89b11127e9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 042/145] fix: an extension context manager object that was
 entered again while active left its extensions active

---
 mdp/extension.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 594ffd2..f610a61 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -478,13 +478,15 @@ class extension(object):
         if isinstance(ext_names, __builtins__['str']):
             ext_names = [ext_names]
         self.ext_names = ext_names
+        # one entry for each time the context was entered
         self.deactivate_exts = []
 
     def __enter__(self):
         already_active = get_active_extensions()
-        self.deactivate_exts = [ext_name for ext_name in self.ext_names
-                                if ext_name not in already_active]
+        deactivate_exts = [ext_name for ext_name in self.ext_names
+                           if ext_name not in already_active]
         activate_extensions(self.ext_names)
+        self.deactivate_exts.append(deactivate_exts)
 
     def __exit__(self, type, value, traceback):
-        deactivate_extensions(self.deactivate_exts)
+        deactivate_extensions(self.deactivate_exts.pop())
-- 
2.43.0


From dea2b412900d2044abd3138a5a756a5393f2b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 043/145] fix: the original of an attribute extended in several
 branches of a class hierarchy was not the one the class had without
 extensions

---
 mdp/extension.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index f610a61..f5f355b 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -300,12 +300,15 @@ def get_active_extensions():
 
 def _lookup_original_attribute(node_cls, attr_name):
     """Return the raw pre-extension attribute (e.g. a staticmethod object)."""
+    replaced = dict((cls, class_attr)
+                    for injected_attributes in _injected_attributes.values()
+                    for cls, name, class_attr in injected_attributes
+                    if name == attr_name)
     for cls in node_cls.__mro__:
-        if attr_name in cls.__dict__:
-            if _EXTENSION_ATTR_PREFIX + attr_name in cls.__dict__:
-                # an extension has replaced the attribute in this class
-                attr_name = ORIGINAL_ATTR_PREFIX + attr_name
-            return cls.__dict__.get(attr_name, _NOT_DEFINED)
+        class_attr = replaced.get(cls, cls.__dict__.get(attr_name,
+                                                        _NOT_DEFINED))
+        if class_attr is not _NOT_DEFINED:
+            return class_attr
     return _NOT_DEFINED
 
 def _inject_attribute(extension_name, node_cls, attr_name, attr_value,
-- 
2.43.0


From 2e575ff6781fa7d613293219ad25bbbb61592a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 044/145] fix: execution of node classes derived from another
 class with its own _execute (SFA2Node, TimeDelayNode, CloneLayer...) was
 never cached, and generally did not see extensions of Node.execute

---
 mdp/signal_node.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 316634a..7ae742d 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -90,8 +90,8 @@ class NodeMetaclass(type):
             if recursed:
                 undec_pubmethod = orig_pubmethod._undecorated_
                 priv_info.update(NodeMetaclass._get_infos(undec_pubmethod))
-                wrapper_method = cls._wrap_function(undec_pubmethod,
-                                                    priv_info)
+                wrapper_method = cls._wrap_undecorated_method(priv_info,
+                                                              new_cls)
                 wrapper_method._undecorated_ = undec_pubmethod
             else:
                 priv_info.update(NodeMetaclass._get_infos(orig_pubmethod))
@@ -229,6 +229,39 @@ class NodeMetaclass(type):
         return wrapped_func
 
 
+    @staticmethod
+    def _get_undecorated_method(cls, name):
+        """Return the method inherited by cls, skipping all wrappers."""
+        for base in cls.__mro__[1:]:
+            method = base.__dict__.get(name)
+            if method is not None and not hasattr(method, '_undecorated_'):
+                return method
+
+    @staticmethod
+    def _wrap_undecorated_method(wrapper_infodict, cls):
+        """Return a wrapped version of the unwrapped method of a base class.
+
+        The method is looked up when the wrapper is called, since it might
+        have been replaced by an extension.
+
+        :param wrapper_infodict: The infodict to be used for constructing the
+            wrapper.
+        :param cls: Class to which the wrapper method will be added, this is
+            used for the lookup.
+        """
+        src = ("lambda %(signature)s: _get_method_(_wrapper_class_, "
+               "'%(name)s')(%(signature)s)" % wrapper_infodict)
+        wrapped_func = eval(
+            src, {"_wrapper_class_": cls,
+                  "_get_method_": NodeMetaclass._get_undecorated_method})
+        wrapped_func.__name__ = wrapper_infodict['name']
+        wrapped_func.__doc__ = wrapper_infodict['doc']
+        wrapped_func.__module__ = wrapper_infodict['module']
+        wrapped_func.__dict__.update(wrapper_infodict['dict'])
+        wrapped_func.__defaults__ = wrapper_infodict['defaults']
+        return wrapped_func
+
+
 class Node(with_metaclass(NodeMetaclass, object)):
     """A `Node` is the basic building block of an MDP application.
 
-- 
2.43.0


From 497b5ec22bc615ab099bbcf434e1bb2db96a4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 045/145] fix: executing a node failed (NoneType has no
 attribute cache) when the cache_execute extension was activated by name, also
 in the worker processes of a ProcessScheduler

---
 mdp/caching/caching_extension.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index fcb24b8..6d7808d 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -113,7 +113,9 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
             return self._non_extension_execute(x, *args, **kwargs)
 
         if self not in _cached_methods:
-            global _memory
+            if _memory is None:
+                # the extension was activated without activate_caching
+                set_cachedir()
             _cached_methods[self] = _memory.cache(
                 self._non_extension_execute.__func__)
             # execute pre-execution checks once so that all automatic
-- 
2.43.0


From 4e661eb3cde9cfbd108577ec95cfd4975ca8a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 046/145] fix: a node whose first cached execution was refused
 (unfinished training) was later served from the cache without finishing its
 training

---
 mdp/caching/caching_extension.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index 6d7808d..8d3b2a9 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -112,16 +112,18 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         if not self.is_cached():
             return self._non_extension_execute(x, *args, **kwargs)
 
+        # execute pre-execution checks so that all automatic settings of
+        # things like dtype and input_dim are done (also if the result is in
+        # the cache already), and caching begins from first execution, not
+        # the second
+        self._pre_execution_checks(x)
+
         if self not in _cached_methods:
             if _memory is None:
                 # the extension was activated without activate_caching
                 set_cachedir()
             _cached_methods[self] = _memory.cache(
                 self._non_extension_execute.__func__)
-            # execute pre-execution checks once so that all automatic
-            # settings of things like dtype and input_dim are done, and
-            # caching begins from first execution, not the second
-            self._pre_execution_checks(x)
 
         return _cached_methods[self](self, x, *args, **kwargs)
 
-- 
2.43.0


From c41d9b637d1fde2740dc6639959cf2b573d6ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 047/145] fix: set_instance_cache(False) left a node cached
 that had been registered twice

---
 mdp/caching/caching_extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index 8d3b2a9..7612129 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -99,7 +99,8 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         # add to global dictionary
         global _cached_instances
         if active:
-            _cached_instances.append(self)
+            if self not in _cached_instances:
+                _cached_instances.append(self)
         else:
             if self in _cached_instances:
                 _cached_instances.remove(self)
-- 
2.43.0


From 51e40681166cb0ae3621ed03c3293aedb5bb8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 048/145] fix: Scheduler locked up for ever after a task
 raised, after add_task without any callable and after get_results without
 tasks (IndexError); a function given to set_task_callable could not be used

---
 mdp/parallel/scheduling.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..5d7ad61 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -2,7 +2,6 @@
 This module contains the basic classes for task processing via a scheduler.
 """
 from __future__ import print_function
-from builtins import zip
 from builtins import object
 
 import threading
@@ -73,7 +72,7 @@ class OrderedResultContainer(ListResultContainer):
         results = self._results
         self._results = []
         results.sort(key=lambda x: x[1])
-        return list(zip(*results))[0]
+        return [result for result, _ in results]
 
 
 class TaskCallable(object):
@@ -248,6 +247,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
@@ -258,13 +258,19 @@ class Scheduler(object):
             # decide if a cached callable can be used
             task_callable = self._last_callable
         else:
-            if not hasattr(task_callable, "fork"):
-                # not a TaskCallable (probably a function), so wrap it
-                task_callable = TaskCallableWrapper(task_callable)
+            task_callable = self._wrap_callable(task_callable)
             self._last_callable = task_callable
             self._last_callable_index = self.task_counter
         self._process_task(data, task_callable, task_index)
 
+    @staticmethod
+    def _wrap_callable(task_callable):
+        """Return the callable, wrapped if it is not a TaskCallable."""
+        if not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
+        return task_callable
+
     def set_task_callable(self, task_callable):
         """Set the callable that will be used if no task_callable is given.
 
@@ -275,6 +281,8 @@ class Scheduler(object):
             is given.
         """
         self._lock.acquire()
+        if task_callable is not None:
+            task_callable = self._wrap_callable(task_callable)
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
         # than the last task, but not newer than the next incoming task
@@ -307,9 +315,10 @@ class Scheduler(object):
         while True:
             self._lock.acquire()
             if self._n_open_tasks == 0:
-                results = self.result_container.get_results()
-                self._lock.release()
-                return results
+                try:
+                    return self.result_container.get_results()
+                finally:
+                    self._lock.release()
             else:
                 self._lock.release()
                 time.sleep(1)
@@ -350,9 +359,16 @@ class Scheduler(object):
         Warning: Note that fork has not been called yet, so the provided
         task_callable must not be called. Only a forked version can be called.
         """
-        # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
+        try:
+            # IMPORTANT: always call fork, since it must be called at least
+            #    once!
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except:
+            # the exception is passed on to the caller of add_task
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
         # release lock before store_result
         self._lock.release()
         self._store_result(result, task_index)
-- 
2.43.0


From 5087129a5034b2b43993b2310900ca8bf8dcbbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 049/145] fix: ThreadScheduler ignored n_threads and started
 all tasks at once; a task callable that could not be forked or copied left
 the scheduler waiting for ever

---
 mdp/parallel/thread_schedule.py | 62 +++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..a39a730 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -52,36 +52,46 @@ class ThreadScheduler(Scheduler):
         It blocks when the maximum number of threads is reached (given by
         n_threads) or when the system is not able to start a new thread.
         """
+        while self._n_active_threads >= self._n_threads:
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        self._n_active_threads += 1
+        self._lock.release()
+        try:
+            task_callable = task_callable.fork()
+            if self.copy_callable:
+                # create a deep copy of the task_callable,
+                # since it might not be thread safe
+                # (but the fork is still required)
+                as_str = pickle.dumps(task_callable, -1)
+                task_callable = pickle.loads(as_str)
+        except:
+            # the exception is passed on to the caller of add_task
+            self._lock.acquire()
+            self._n_active_threads -= 1
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
         task_started = False
         while not task_started:
-            if self._n_active_threads >= self._n_threads:
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                self._lock.release()
-                task_callable = task_callable.fork()
-                if self.copy_callable:
-                    # create a deep copy of the task_callable,
-                    # since it might not be thread safe 
-                    # (but the fork is still required)
-                    as_str = pickle.dumps(task_callable, -1)
-                    task_callable = pickle.loads(as_str)
-                try:
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(data, task_callable,
-                                                    task_index))
-                    thread.start()
-                    task_started = True
-                except Exception:
-                    if self.verbose:
-                        print ("unable to create new thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(data, task_callable,
+                                                task_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
         result = task_callable(data)
-        self._store_result(result, task_index)
+        self._lock.acquire()
         self._n_active_threads -= 1
+        self._lock.release()
+        self._store_result(result, task_index)
-- 
2.43.0


From 11ab28ac9ac29511b30a30f9cdbdf0b5e07440ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 050/145] fix: a task that raised in a ThreadScheduler (or
 whose result could not be joined) made get_results wait for ever

---
 mdp/parallel/scheduling.py      | 41 +++++++++++++++++++++++++++++----
 mdp/parallel/thread_schedule.py | 11 +++++++--
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 5d7ad61..fbe708d 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -210,6 +210,7 @@ class Scheduler(object):
         self.result_container = result_container
         self.verbose = verbose
         self._n_open_tasks = 0  # number of tasks that are currently running
+        self._task_errors = []  # (task_index, exception) of failed tasks
         # count the number of submitted tasks, also used for the task index
         self._task_counter = 0
         self._lock = threading.Lock()
@@ -298,12 +299,29 @@ class Scheduler(object):
         This function blocks to avoid any problems during result storage.
         """
         self._lock.acquire()
-        self.result_container.add_result(result, task_index)
+        try:
+            self.result_container.add_result(result, task_index)
+            if self.verbose:
+                if task_index is not None:
+                    print("    finished task no. %d" % task_index)
+                else:
+                    print("    task failed")
+        except Exception as exception:
+            # e.g. the result could not be joined in the container
+            self._task_errors.append((task_index, exception))
+        finally:
+            self._n_open_tasks -= 1
+            self._lock.release()
+
+    def _store_error(self, exception, task_index):
+        """Store the exception raised by a task, instead of a result.
+
+        The exception is then raised in get_results.
+        """
+        self._lock.acquire()
+        self._task_errors.append((task_index, exception))
         if self.verbose:
-            if task_index is not None:
-                print("    finished task no. %d" % task_index)
-            else:
-                print("    task failed")
+            print("    task no. %s failed" % str(task_index))
         self._n_open_tasks -= 1
         self._lock.release()
 
@@ -311,11 +329,24 @@ class Scheduler(object):
         """Get the accumulated results from the result container.
 
         This method blocks if there are open tasks.
+
+        If a task failed in the background (in a thread or process) then the
+        exception of the first failed task is raised here, and the results
+        accumulated so far are dropped.
         """
         while True:
             self._lock.acquire()
             if self._n_open_tasks == 0:
                 try:
+                    task_errors = self._task_errors
+                    self._task_errors = []
+                    if task_errors:
+                        try:
+                            # reset the container
+                            self.result_container.get_results()
+                        finally:
+                            raise min(task_errors,
+                                      key=lambda x: x[0] or 0)[1]
                     return self.result_container.get_results()
                 finally:
                     self._lock.release()
diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index a39a730..e5d0b9e 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -90,8 +90,15 @@ class ThreadScheduler(Scheduler):
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
+        error = None
+        try:
+            result = task_callable(data)
+        except BaseException as exception:
+            error = exception
         self._lock.acquire()
         self._n_active_threads -= 1
         self._lock.release()
-        self._store_result(result, task_index)
+        if error is None:
+            self._store_result(result, task_index)
+        else:
+            self._store_error(error, task_index)
-- 
2.43.0


From 849f997f0fbf34cf3c2f3e70b5cb5b2ef6505506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 051/145] fix: a failing task or a dead process made
 ProcessScheduler.get_results wait for ever; tasks could be processed with the
 callable of a later task; a scheduler with a working process could not be
 used after a refused shutdown

---
 mdp/parallel/__init__.py         |   6 +-
 mdp/parallel/process_schedule.py | 209 ++++++++++++++++++++-----------
 mdp/parallel/scheduling.py       |   5 +
 3 files changed, 147 insertions(+), 73 deletions(-)

diff --git a/mdp/parallel/__init__.py b/mdp/parallel/__init__.py
index adcd44d..0660bae 100644
--- a/mdp/parallel/__init__.py
+++ b/mdp/parallel/__init__.py
@@ -22,7 +22,8 @@ flows or nodes.
 
 from .scheduling import (
     ResultContainer, ListResultContainer, OrderedResultContainer, TaskCallable,
-    SqrTestCallable, SleepSqrTestCallable, TaskCallableWrapper, Scheduler,
+    SqrTestCallable, SleepSqrTestCallable, TaskCallableWrapper, TaskException,
+    Scheduler,
     cpu_count, MDPVersionCallable
 )
 from .process_schedule import ProcessScheduler
@@ -56,7 +57,8 @@ if config.has_parallel_python:
 __all__ = [
     "ResultContainer", "ListResultContainer",
     "OrderedResultContainer", "TaskCallable", "SqrTestCallable",
-    "SleepSqrTestCallable", "TaskCallableWrapper", "Scheduler",
+    "SleepSqrTestCallable", "TaskCallableWrapper", "TaskException",
+    "Scheduler",
     "ProcessScheduler", "ThreadScheduler",
     "ParallelExtensionNode", "JoinParallelException",
     "NotForkableParallelException",
diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..4aa21e7 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -44,9 +44,10 @@ if __name__ == "__main__":
     warnings.filterwarnings("ignore", ".*")
 
 import mdp
-from mdp.parallel import Scheduler, cpu_count
+from mdp.parallel import Scheduler, TaskException, cpu_count
 
 SLEEP_TIME = 0.1  # time spend sleeping when waiting for a free process
+SHUTDOWN_TIMEOUT = 5.0  # time until a process that does not exit is killed
 
 
 class ProcessScheduler(Scheduler):
@@ -106,90 +107,157 @@ class ProcessScheduler(Scheduler):
         if source_paths is None:
             source_paths = sys.path
         process_args += source_paths
+        self._process_args = process_args
+        self._is_shutdown = False
         # list of processes not in use, start the processes now
-        self._free_processes = [subprocess.Popen(args=process_args,
-                                                 stdout=subprocess.PIPE,
-                                                 stdin=subprocess.PIPE)
+        self._free_processes = [self._start_process()
                                 for _ in range(self._n_processes)]
-        # tag each process with its cached callable task_index,
-        # this is compared with _last_callable_index to check if the cached
-        # task_callable is still up to date
-        for process in self._free_processes:
-            process._callable_index = -1
         if self.verbose:
             print ("scheduler initialized with %d processes" %
                    self._n_processes)
 
+    def _start_process(self):
+        """Start a new slave process and return it."""
+        process = subprocess.Popen(args=self._process_args,
+                                   stdout=subprocess.PIPE,
+                                   stdin=subprocess.PIPE)
+        # tag each process with its cached callable task_index,
+        # this is compared with the index of the callable of a task to check
+        # if the cached task_callable is the right one
+        process._callable_index = -1
+        return process
+
     def _shutdown(self):
         """Shut down the slave processes.
 
         If a process is still running a task then an exception is raised.
         """
         self._lock.acquire()
-        if len(self._free_processes) < self._n_processes:
-            raise Exception("some slave process is still working")
-        for process in self._free_processes:
-            pickle.dump("EXIT", process.stdin)
-            process.stdin.flush()
-        self._lock.release()
+        try:
+            if self._is_shutdown:
+                return
+            if len(self._free_processes) < self._n_processes:
+                raise Exception("some slave process is still working")
+            self._is_shutdown = True
+            processes = self._free_processes
+            self._free_processes = []
+        finally:
+            self._lock.release()
+        for process in processes:
+            try:
+                pickle.dump("EXIT", process.stdin)
+                process.stdin.close()
+            except EnvironmentError:
+                # the process is already dead
+                pass
+        for process in processes:
+            self._end_process(process, timeout=SHUTDOWN_TIMEOUT)
         if self.verbose:
             print("scheduler shutdown")
 
+    @staticmethod
+    def _end_process(process, timeout=0):
+        """Wait for the given process to exit, kill it after the timeout."""
+        end_time = time.time() + timeout
+        while process.poll() is None and time.time() < end_time:
+            time.sleep(0.01)
+        if process.poll() is None:
+            process.kill()
+            process.wait()
+        for pipe in (process.stdin, process.stdout):
+            try:
+                pipe.close()
+            except EnvironmentError:
+                pass
+
     def _process_task(self, data, task_callable, task_index):
         """Add a task, if possible without blocking.
 
         It blocks when the system is not able to start a new thread
         or when the processes are all in use.
         """
+        # the callable of this task might no longer be the last one when the
+        # task is sent to a process
+        callable_index = self._last_callable_index
+        while not self._free_processes and not self._is_shutdown:
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        if self._is_shutdown:
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise Exception("The scheduler has been shut down.")
+        process = self._free_processes.pop()
+        self._lock.release()
         task_started = False
         while not task_started:
-            if not len(self._free_processes):
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                try:
-                    process = self._free_processes.pop()
-                    self._lock.release()
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(process, data,
-                                                    task_callable, task_index))
-                    thread.start()
-                    task_started = True
-                except thread.error:
-                    if self.verbose:
-                        print ("unable to create new task thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(process, data, task_callable,
+                                                task_index, callable_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new task thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
-    def _task_thread(self, process, data, task_callable, task_index):
+    def _task_thread(self, process, data, task_callable, task_index,
+                     callable_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
-        result on stdout, pass the result to the result container, free
-        the process and exit.
+        result on stdout, free the process, pass the result to the result
+        container and exit.
+
+        If the task failed then an exception is stored instead of the result.
         """
+        error = None
         try:
-            if self._cache_callable:
-                # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
+            if (self._cache_callable and
+                process._callable_index == callable_index):
+                # the cached callable is up to date
+                task_callable = None
+            # nothing is sent if the task cannot be pickled
+            task = pickle.dumps((data, task_callable, task_index), -1)
+        except BaseException as exception:
+            error = exception
+        if error is None:
+            try:
+                # push the task to the process
+                # (as a byte string, so that the process always can read it
+                # completely, even if it is not able to unpickle the task)
+                pickle.dump(task, process.stdin, protocol=-1)
+                process.stdin.flush()
+                del task
+                # wait for result to arrive
+                success, result = pickle.load(process.stdout)
+                if success:
+                    process._callable_index = callable_index
                 else:
-                    task_callable = None
-            # push the task to the process
-            pickle.dump((data, task_callable, task_index),
-                        process.stdin, protocol=-1)
-            process.stdin.flush()
-            # wait for result to arrive
-            result = pickle.load(process.stdout)
-        except:
-            traceback.print_exc()
-            self._free_processes.append(process)
-            sys.exit("failed to execute task %d in process:" % task_index)
-        # store the result and clean up
-        self._store_result(result, task_index)
+                    process._callable_index = -1
+                    error = TaskException("task %d caused exception in "
+                                          "process:\n%s" %
+                                          (task_index, result))
+            except BaseException as exception:
+                # the process died or its output is broken, so replace it
+                error = TaskException("failed to execute task %d in process:"
+                                      " %r" % (task_index, exception))
+                try:
+                    self._end_process(process)
+                    process = self._start_process()
+                except BaseException:
+                    # the next task for the dead process will fail as well
+                    traceback.print_exc()
+        # clean up before the task is finished, so that the scheduler can be
+        # shut down as soon as all the results are available
         self._free_processes.append(process)
+        if error is None:
+            self._store_result(result, task_index)
+        else:
+            self._store_error(error, task_index)
 
 
 def _process_run(cache_callable=True):
@@ -212,14 +280,17 @@ def _process_run(cache_callable=True):
     exit_loop = False
     last_callable = None  # cached callable
     while not exit_loop:
-        task = None
         try:
             # wait for task to arrive
             task = pickle.load(pickle_in)
-            if task == "EXIT":
-                exit_loop = True
-            else:
-                data, task_callable, task_index = task
+        except EOFError:
+            # the parent process is gone
+            task = "EXIT"
+        if task == "EXIT":
+            exit_loop = True
+        else:
+            try:
+                data, task_callable, task_index = pickle.loads(task)
                 if task_callable is None:
                     if last_callable is None:
                         err = ("No callable was provided and no cached "
@@ -235,18 +306,14 @@ def _process_run(cache_callable=True):
                     task_callable.setup_environment()
                 result = task_callable(data)
                 del task_callable  # free memory
-                pickle.dump(result, pickle_out, protocol=-1)
-                pickle_out.flush()
-        except Exception as exception:
-            # return the exception instead of the result
-            if task is None:
-                print("unpickling a task caused an exception in a process:")
-            else:
-                print("task %d caused exception in process:" % task[2])
-            print(exception)
-            traceback.print_exc()
-            sys.stdout.flush()
-            sys.exit()
+                reply = pickle.dumps((True, result), -1)
+                del result
+            except BaseException:
+                # return the exception instead of the result, this process
+                # can still be used for other tasks
+                reply = pickle.dumps((False, traceback.format_exc()), -1)
+            pickle_out.write(reply)
+            pickle_out.flush()
 
 if __name__ == "__main__":
     # first argument is cache_callable flag
diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index fbe708d..2235f03 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -14,6 +14,11 @@ except ImportError:
     pass
 
 
+class TaskException(Exception):
+    """A task failed in the background (e.g. in another process)."""
+    pass
+
+
 class ResultContainer(object):
     """Abstract base class for result containers."""
 
-- 
2.43.0


From 9793952ec05241bbc92abfc425ae56aa57ea0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 052/145] fix: ProcessScheduler with cache_callable=False never
 forked the task callable, so partial results were counted several times

---
 mdp/parallel/process_schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 4aa21e7..b86a5b4 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -304,6 +304,8 @@ def _process_run(cache_callable=True):
                     task_callable = task_callable.fork()
                 else:
                     task_callable.setup_environment()
+                    # fork must always be called once before the call
+                    task_callable = task_callable.fork()
                 result = task_callable(data)
                 del task_callable  # free memory
                 reply = pickle.dumps((True, result), -1)
-- 
2.43.0


From 3fe3ff2ac545fd74e29759759ecadbc2e986d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 053/145] fix: a failed task of a PPScheduler made get_results
 fail, a given slave_kill_filename was a NameError

---
 mdp/parallel/pp_support.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mdp/parallel/pp_support.py b/mdp/parallel/pp_support.py
index 9259da0..2e2601b 100644
--- a/mdp/parallel/pp_support.py
+++ b/mdp/parallel/pp_support.py
@@ -119,8 +119,11 @@ class PPScheduler(scheduling.Scheduler):
         This method then calls the normal _store_result method.
         """
         if result is None:
-            result = (None, None)
-        self._store_result(*result)
+            # the original exception was only printed by pp
+            self._store_error(scheduling.TaskException(
+                                "task caused an exception in pp"), None)
+        else:
+            self._store_result(*result)
 
     def _shutdown(self):
         """Call destroy on the ppserver."""
@@ -203,8 +206,8 @@ class NetworkPPScheduler(PPScheduler):
         self._remote_pids = None  # list of the pids of the remote servers
         self._port = port
         if slave_kill_filename is None:
-            slave_kill_file = tempfile.mkstemp(prefix='MDPtmp-')[1]
-        self.slave_kill_file = slave_kill_file
+            slave_kill_filename = tempfile.mkstemp(prefix='MDPtmp-')[1]
+        self.slave_kill_file = slave_kill_filename
         self._secret = secret
         self._slave_nice = nice
         self._timeout = timeout
-- 
2.43.0


From 7700d16b4b6753ebffffa70d9161eef38312e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 054/145] fix: ExecuteResultContainer.get_results did not reset
 the joined flow node, so execution results of one round were joined again in
 the next

---
 mdp/parallel/parallelflows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 49819d9..f9b0c4d 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -207,6 +207,7 @@ class ExecuteResultContainer(OrderedResultContainer):
         excecute_results = super(ExecuteResultContainer, self).get_results()
         flownode_results = ([self._flownode,]
                               + ([None] * (len(excecute_results)-1)))
+        self._flownode = None
         return list(zip(excecute_results, flownode_results))
 
 ### ParallelFlow Class ###
-- 
2.43.0


From 2189ac0fadb996c9e71cf2c1a0d470bc9d83ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 055/145] fix: ParallelFlow.execute with a scheduler ignored
 nodenr

---
 mdp/parallel/parallelflows.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index f9b0c4d..47f510b 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -624,9 +624,13 @@ class ParallelFlow(mdp.Flow):
         # Only first task contains the new callable (enable caching).
         # A fork is not required here, since the callable is always
         # forked in the scheduler.
+        kwargs = {}
+        if nodenr is not None:
+            kwargs["nodenr"] = nodenr
         self._next_task = (task_data_chunk,
                            self._execute_callable_class(self._flownode,
-                                                        purge_nodes=True))
+                                                        purge_nodes=True,
+                                                        **kwargs))
 
     def _create_execute_task(self):
         """Create and return a single execution task.
-- 
2.43.0


From e3d54f540b423e6302935db526e067f069454d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 056/145] fix: after a failed parallel training or execution
 the results of the failed round were mixed into the next use of the scheduler

---
 bimdp/parallel/parallelbiflow.py |  8 ++++++++
 mdp/parallel/__init__.py         |  2 +-
 mdp/parallel/parallelflows.py    | 21 +++++++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 5cc0bc5..d1b5cf0 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -237,6 +237,10 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                                             parallel.TrainResultContainer))):
                             scheduler.result_container = \
                                             parallel.TrainResultContainer()
+            except Exception:
+                if isinstance(scheduler, parallel.Scheduler):
+                    parallel._discard_results(scheduler)
+                raise
             finally:
                 # reset remaining iterator references, which cannot be pickled
                 self._train_data_iterables = None
@@ -474,11 +478,15 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except Exception:
+            parallel._discard_results(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
+            self._next_task = None
         return result
 
     def setup_parallel_execution(self, iterable, msg_iterable=None,
diff --git a/mdp/parallel/__init__.py b/mdp/parallel/__init__.py
index 0660bae..0fa378c 100644
--- a/mdp/parallel/__init__.py
+++ b/mdp/parallel/__init__.py
@@ -37,7 +37,7 @@ from .parallelclassifiers import (
     ParallelKNNClassifier
 )
 from .parallelflows import (
-    _purge_flownode, FlowTaskCallable, FlowTrainCallable, FlowExecuteCallable,
+    _purge_flownode, _discard_results, FlowTaskCallable, FlowTrainCallable, FlowExecuteCallable,
     TrainResultContainer, ExecuteResultContainer,
     ParallelFlowException, NoTaskException,
     ParallelFlow, ParallelCheckpointFlow
diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 47f510b..7866b0a 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -222,6 +222,19 @@ class NoTaskException(ParallelFlowException):
     pass
 
 
+def _discard_results(scheduler):
+    """Drop the results of a failed round of tasks.
+
+    Otherwise they would be mixed with the results of the next tasks for the
+    same scheduler.
+    """
+    try:
+        scheduler.get_results()
+    except Exception:
+        # the original exception is the relevant one
+        pass
+
+
 class ParallelFlow(mdp.Flow):
     """A parallel flow provides the methods for parallel training / execution.
 
@@ -375,6 +388,10 @@ class ParallelFlow(mdp.Flow):
                             (not isinstance(scheduler.result_container,
                                             TrainResultContainer))):
                             scheduler.result_container = TrainResultContainer()
+            except Exception:
+                if isinstance(scheduler, Scheduler):
+                    _discard_results(scheduler)
+                raise
             finally:
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
@@ -584,9 +601,13 @@ class ParallelFlow(mdp.Flow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except Exception:
+            _discard_results(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
+            self._next_task = None
         return result
 
     def setup_parallel_execution(self, iterable, nodenr=None,
-- 
2.43.0


From 5be48c5a288ad22a3a0a33fe75afeaab9f13c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 057/145] fix: ParallelBiFlow training raised IndexError when
 stop_training started an execution which ended without a target

---
 bimdp/parallel/parallelbiflow.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index d1b5cf0..10220e4 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -394,11 +394,10 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         result = self._flownode.stop_training(
                                 self._stop_messages[self._i_train_node])
         self._post_stop_training_hook()
-        if (result is not None) and (not isinstance(result, dict)):
-            if (isinstance(result, tuple) and
-                (result[2] in [1, -1, EXIT_TARGET])):
-                pass
-            else:
+        # without a target the end of the flow was reached
+        if isinstance(result, tuple) and (len(result) == 3):
+            # values of +1, -1 and EXIT_TARGET are tolerated
+            if result[2] not in [1, -1, EXIT_TARGET]:
                 err = ("Target node not found in flow during " +
                        "stop_training phase, last result: " +
                        str(result))
@@ -570,7 +569,8 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             result = self._flownode.stop_training(
                                     self._stop_messages[self._i_train_node])
             self._post_stop_training_hook()
-            if (result is not None):
+            # without a target the end of the flow was reached
+            if isinstance(result, tuple) and (len(result) == 3):
                 target = result[2]
                 # values of +1, -1 and EXIT_TARGET are tolerated
                 if target not in [1, -1, EXIT_TARGET]:
-- 
2.43.0


From cc2f2920275243856cd5a73e132deb5c3d026116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 058/145] fix: an exhausted iterator was silently accepted in a
 local (non-forked) training phase of a ParallelBiFlow

---
 bimdp/parallel/parallelbiflow.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 10220e4..01f28b7 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -389,6 +389,18 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             task_callable((x, msg))
             if self.verbose:
                 print ("    finished nonparallel task no. %d" % i_task)
+        if not i_task:
+            if (self.flow[self._i_train_node].get_current_train_phase() == 1):
+                err_str = ("The training data iteration for node "
+                           "no. %d could not be repeated for the "
+                           "second training phase, you probably "
+                           "provided an iterator instead of an "
+                           "iterable." % (self._i_train_node+1))
+                raise mdp.FlowException(err_str)
+            else:
+                err_str = ("The training data iterator for node "
+                           "no. %d is empty." % (self._i_train_node+1))
+                raise mdp.FlowException(err_str)
         # perform stop_training with result check
         self._stop_training_hook()
         result = self._flownode.stop_training(
-- 
2.43.0


From 56a930c31e484422c8af868a36b8d1339108f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 059/145] fix: parallel training of NIPALSNode failed and that
 of VartimeSFANode gave a result different from serial training (inherited
 fork/join did not fit)

---
 mdp/parallel/parallelnodes.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index b0ca7cc..bbda368 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -191,6 +191,14 @@ class ParallelPCANode(ParallelExtensionNode, mdp.nodes.PCANode):
             self._join_covariance(self._cov_mtx, forked_node._cov_mtx)
 
 
+class ParallelNIPALSNode(ParallelExtensionNode, mdp.nodes.NIPALSNode):
+    """NIPALSNode collects the training data instead of using a covariance
+    matrix, so the parallelization of PCANode can not be used."""
+
+    def _fork(self):
+        raise NotForkableParallelException("NIPALSNode is not forkable.")
+
+
 class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
     """Parallel version of MDP SFA node."""
 
@@ -208,6 +216,14 @@ class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
             self._join_covariance(self._dcov_mtx, forked_node._dcov_mtx)
 
 
+class ParallelVartimeSFANode(ParallelExtensionNode, mdp.nodes.VartimeSFANode):
+    """The time integration continues across the training chunks, so the
+    parallelization of SFANode can not be used."""
+
+    def _fork(self):
+        raise NotForkableParallelException("VartimeSFANode is not forkable.")
+
+
 class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
 
     def _fork(self):
-- 
2.43.0


From 79fb7155de7be549820f62ff8e9a0675f7ed3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 060/145] fix: a Layer did not fork and join its nodes for
 execution even if they required it (use_execute_fork)

---
 mdp/parallel/parallelhinet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index ac95fde..579272e 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -51,7 +51,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
         """Fork or copy all the nodes in the layer to fork the layer."""
         forked_nodes = []
         for node in self.nodes:
-            if node.is_training():
+            if node.is_training() or node.use_execute_fork():
                 forked_nodes.append(node.fork())
             else:
                 forked_nodes.append(node)
@@ -60,7 +60,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
     def _join(self, forked_node):
         """Join the trained nodes from the forked layer."""
         for i_node, layer_node in enumerate(self.nodes):
-            if layer_node.is_training():
+            if layer_node.is_training() or layer_node.use_execute_fork():
                 layer_node.join(forked_node.nodes[i_node])
     
     def use_execute_fork(self):
-- 
2.43.0


From ab32d478f8ef67bb7a5a51bd22309a04c076792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 061/145] fix: a FlowNode or Layer whose internal nodes have
 late dimensions could not be executed, or took a wrong output_dim (also
 parallel execution of such a flow)

---
 mdp/hinet/flownode.py     | 11 +++++++++++
 mdp/hinet/layer.py        |  7 +++++++
 mdp/signal_node.py        | 11 ++++++++++-
 mdp/signal_node_online.py |  2 +-
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 58b3e2a..cae47f3 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -115,6 +115,17 @@ class FlowNode(mdp.Node):
             # additional checks are performed here
             self.output_dim = self._flow[-1].output_dim
 
+    def _set_default_output_dim(self):
+        """Let the internal nodes define the late dimensions."""
+        n = self.input_dim
+        for node in self._flow:
+            if node.input_dim is None:
+                node.input_dim = n
+            if node.output_dim is None:
+                node._set_default_output_dim()
+            n = node.output_dim
+        self._fix_nodes_dimensions()
+
     def _set_dtype(self, t):
         # dtype can not be set for sure in arbitrary flows
         # but here we want to be sure that FlowNode *can*
diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 1894d5d..3c19ce1 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -162,6 +162,13 @@ class Layer(mdp.Node):
         if self.output_dim is None:
             self.output_dim = self._get_output_dim_from_nodes()
 
+    def _set_default_output_dim(self):
+        """Let the internal nodes define their late output dimensions."""
+        for node in self.nodes:
+            if node.output_dim is None:
+                node._set_default_output_dim()
+        self.output_dim = self._get_output_dim_from_nodes()
+
     def _pre_execution_checks(self, x):
         """Make sure that output_dim is set and then perform normal checks."""
         if self.output_dim is None:
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 7ae742d..4fca9fd 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -565,7 +565,16 @@ class Node(with_metaclass(NodeMetaclass, object)):
 
         # set the output dimension if necessary
         if self.output_dim is None:
-            self.output_dim = self.input_dim
+            self._set_default_output_dim()
+
+    def _set_default_output_dim(self):
+        """Set the output dimension if it is still undefined when the node is
+        executed.
+
+        Container nodes overwrite this method, since their output dimension
+        is the one of their internal nodes.
+        """
+        self.output_dim = self.input_dim
 
     def _pre_inversion_checks(self, y):
         """This method contains all pre-inversion checks.
diff --git a/mdp/signal_node_online.py b/mdp/signal_node_online.py
index 10fe0da..7e8d0c1 100644
--- a/mdp/signal_node_online.py
+++ b/mdp/signal_node_online.py
@@ -190,7 +190,7 @@ class OnlineNode(Node):
 
         # set the output dimension if necessary
         if self.output_dim is None:
-            self.output_dim = self.input_dim
+            self._set_default_output_dim()
 
     # The stop-training operation is removed to support continual training
     # and inversion phases.
-- 
2.43.0


From 389b67eabc52ce1ec44482639a0f31d251b53624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 062/145] fix: the stop_training message never reached the last
 node of a BiFlowNode (hence of a ParallelBiFlow)

---
 bimdp/hinet/biflownode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 4fad499..795b21d 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -230,8 +230,10 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         """Return wrapper for stop_training to set BiFlowNode outputdim."""
         # We have to overwrite the version from FlowNode to take care of the
         # optional return value.
-        def _stop_training_wrapper(*args, **kwargs):
-            result = func(*args, **kwargs)
+        # The argument must be named explicitly, otherwise BiNode would not
+        # hand over the message.
+        def _stop_training_wrapper(msg=None):
+            result = func(msg)
             self.output_dim = node.output_dim
             return result
         return _stop_training_wrapper
-- 
2.43.0


From 94ead19953c439d3936984f72a3465b322868da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 063/145] fix: parallel execution with execute forks failed
 when the dimensions of the internal nodes were still undefined

---
 mdp/parallel/parallelhinet.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index 579272e..3fccc8d 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -30,6 +30,17 @@ class ParallelFlowNode(hinet.FlowNode, parallelnodes.ParallelExtensionNode):
                 node_list.append(node)
         return self.__class__(self._flow.__class__(node_list))
     
+    def join(self, forked_node):
+        """Absorb the forked node."""
+        if (self.output_dim is None and forked_node.output_dim is not None and
+            not self.is_training()):
+            # The fork was executed and has set the late dimensions of its
+            # internal nodes, so this has to be repeated here.
+            if self.input_dim is None:
+                self.input_dim = forked_node.input_dim
+            self._set_default_output_dim()
+        super(hinet.FlowNode, self).join(forked_node)
+
     def _join(self, forked_node):
         """Join the required nodes from the forked node into this FlowNode."""
         found_train_node = False  # set to True at the first training node          
-- 
2.43.0


From dcbceaa9aa6d5c49f90ef0f4a90b0b4f7a365b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 064/145] fix: CloneLayer dropped additional arguments of
 execute and inverse, which a Layer forwards to its nodes

---
 mdp/hinet/layer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 3c19ce1..6501c47 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -276,12 +276,17 @@ class CloneLayer(Layer):
             self.output_dim = self._get_output_dim_from_nodes()
 
     def _execute(self, x, *args, **kwargs):
+        if args or kwargs:
+            # the arguments may belong to the samples, not to the clones
+            return super(CloneLayer, self)._execute(x, *args, **kwargs)
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
         y = self.node.execute(x)
         return y.reshape(n_samples, self.output_dim)
 
     def _inverse(self, x, *args, **kwargs):
+        if args or kwargs:
+            return super(CloneLayer, self)._inverse(x, *args, **kwargs)
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.output_dim, self.node.output_dim)
         y = self.node.inverse(x)
-- 
2.43.0


From a31ec7a649c9f44b14e84c966080e2d3bf64743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 065/145] fix: a Layer with partly or fully pretrained
 multi-phase nodes announced phases that no node had left (execute then raised
 TrainingException)

---
 mdp/hinet/layer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 6501c47..4098f67 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -51,6 +51,9 @@ class Layer(mdp.Node):
             self.node_input_dims[index] = node.input_dim
         output_dim = self._get_output_dim_from_nodes()
 
+        # store which nodes are pretrained up to what phase
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         # set layer state
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
@@ -138,8 +141,10 @@ class Layer(mdp.Node):
         The length is set by the node with maximum length.
         """
         max_train_length = 0
-        for node in self.nodes:
-            node_length = len(node._get_train_seq())
+        for node, pretrained in zip(self.nodes, self._pretrained_phase):
+            if not node.is_trainable():
+                continue
+            node_length = len(node._get_train_seq()) - pretrained
             if node_length > max_train_length:
                 max_train_length = node_length
         return [[self._train, self._stop_training]] * max_train_length
@@ -320,6 +325,9 @@ class SameInputLayer(Layer):
                 raise mdp.NodeException(err)
         output_dim = self._get_output_dim_from_nodes()
 
+        # store which nodes are pretrained up to what phase
+        self._pretrained_phase = [node.get_current_train_phase()
+                                  for node in nodes]
         # set layer state
         nodes_is_training = [node.is_training() for node in nodes]
         if mdp.numx.any(nodes_is_training):
-- 
2.43.0


From 6a77ba8189d2d4626e885d376c5dcf1ea7f1ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 066/145] fix: the switchboard_factory method of
 DoubleRhomb2dSwitchboard used a wrong keyword (TypeError)

---
 mdp/hinet/switchboard_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard_factory.py b/mdp/hinet/switchboard_factory.py
index 6df50eb..784c99f 100644
--- a/mdp/hinet/switchboard_factory.py
+++ b/mdp/hinet/switchboard_factory.py
@@ -132,6 +132,6 @@ class FactoryDoubleRhomb2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        return {"long_out_channels_xy": prev_switchboard.long_out_channels_xy,
+        return {"long_in_channels_xy": prev_switchboard.long_out_channels_xy,
                 "diag_field_channels": free_params["field_size"],
                 "in_channel_dim": in_channel_dim}
-- 
2.43.0


From dac1abec90ebe3fca534765f57ebb0441c77b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 067/145] fix: Switchboard accepted negative connection indices

---
 mdp/hinet/switchboard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index fdf1d01..f2c7324 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -56,6 +56,9 @@ class Switchboard(mdp.Node):
             err = ("One or more switchboard connection "
                    "indices exceed the input dimension.")
             raise SwitchboardException(err)
+        if numx.nanmin(connections) < 0:
+            err = "One or more switchboard connection indices are negative."
+            raise SwitchboardException(err)
         # checks passed
         self.connections = numx.array(connections)
         output_dim = len(connections)
-- 
2.43.0


From d41af145a864f82b662c49f0575ef82d247179a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 068/145] fix: Rectangular2dSwitchboard did not detect
 uncovered input channels in the gaps between fields

---
 mdp/hinet/switchboard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index f2c7324..345c2fb 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -295,7 +295,10 @@ class Rectangular2dSwitchboard(ChannelSwitchboard):
             y_unused_channels = in_channels_xy[1]
         self.unused_channels_xy = (x_unused_channels, y_unused_channels)
         for i, name in enumerate(["x", "y"]):
-            if self.unused_channels_xy[i] and not ignore_cover:
+            # fields further apart than their size leave gaps between them
+            gaps = ((x_out_channels, y_out_channels)[i] > 1 and
+                    field_spacing_xy[i] > field_channels_xy[i])
+            if (self.unused_channels_xy[i] or gaps) and not ignore_cover:
                 err = ("Channel fields do not "
                        "cover all input channels in %s-direction." % name)
                 raise Rectangular2dSwitchboardException(err)
-- 
2.43.0


From b31163a084e548f259a2b5a8db3e94d1ff9439cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 069/145] fix: VartimeCovarianceMatrix.fix did not reset the
 chunk counter, so a second use was connected to the last sample of the first

---
 mdp/utils/covariance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index dbf9f5f..2dfd243 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -335,6 +335,9 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         self._avg = None
         # number of observation so far during the training phase
         self._tlen = 0.
+        # the next sequence is not a continuation of this one
+        self._steps = 0
+        self.tchunk = 0
 
         return cov_mtx, avg, tlen
 
-- 
2.43.0


From 7baaf4d3d5f1b274a35d9cb32c3c2046c5beecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 070/145] fix: VartimeCovarianceMatrix counted the time of a
 single-sample chunk twice and VartimeSFANode failed on it

---
 mdp/nodes/sfa_nodes.py  | 10 ++++++----
 mdp/utils/covariance.py |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index d610139..a81315d 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -527,15 +527,17 @@ class VartimeSFANode(SFANode):
             outlen = x.shape[0]  if self.tchunk > 0  and time_dep else x.shape[0]-1
         out = numx.empty([outlen, x.shape[1]])
 
+        # index of the first difference within this chunk
+        first = outlen-x.shape[0]+1
         if dt is not None and type(dt) == numx.ndarray:
             # Improvements can be made, by interpolating polynomials
-            out[-x.shape[0]+1:, :] =\
-                    (x[1:, :]-x[:-1, :]) / dt[-x.shape[0]+1:, None]
+            out[first:, :] =\
+                    (x[1:, :]-x[:-1, :]) / dt[len(dt)-x.shape[0]+1:, None]
         elif dt is not None and dt > 0:
-            out[-x.shape[0]+1:, :] = (x[1:, :]-x[:-1, :])/dt
+            out[first:, :] = (x[1:, :]-x[:-1, :])/dt
         else:
             # trivial fallback
-            out[-x.shape[0]+1:, :] = x[1:, :]-x[:-1, :]
+            out[first:, :] = x[1:, :]-x[:-1, :]
 
         if self.tchunk > 0 and time_dep:
             if dt is None:
diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 2dfd243..4441cf7 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -265,7 +265,7 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         if dt is None:
             _dt = 1.
         elif type(dt) == numx.ndarray:
-            _dt = dt[-x.shape[0]+1:, None]
+            _dt = dt[len(dt)-x.shape[0]+1:, None]
         else:
             _dt = dt
         sqdt = numx.sqrt(_dt)
-- 
2.43.0


From 0bab18738aeacc4e613a88f23508258bba752543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 071/145] fix: time-independent chunks with a time increment
 for every sample were still connected, and VartimeSFANode used uninitialised
 memory for the connection

---
 mdp/nodes/sfa_nodes.py  |  2 +-
 mdp/utils/covariance.py | 23 +++++++++++------------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index a81315d..45774dc 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -522,7 +522,7 @@ class VartimeSFANode(SFANode):
         if dt is None:
             outlen = x.shape[0] if time_dep and self.tchunk > 0 else x.shape[0]-1
         elif type(dt) == numx.ndarray:
-            outlen = x.shape[0]-1  if self.tchunk == 0 or dt.shape[0] != x.shape[0] else x.shape[0]
+            outlen = x.shape[0]-1  if not time_dep or self.tchunk == 0 or dt.shape[0] != x.shape[0] else x.shape[0]
         elif dt > 0:
             outlen = x.shape[0]  if self.tchunk > 0  and time_dep else x.shape[0]-1
         out = numx.empty([outlen, x.shape[1]])
diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 4441cf7..4632c75 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -241,23 +241,22 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         x = mdp.utils.refcast(x, self._dtype)
 
         # account for the gap between chunks
-        if self.tchunk > 0:
+        if self.tchunk > 0 and time_dep:
             if dt is not None and type(dt) == numx.ndarray and dt.shape[0] == x.shape[0]:
                 self._avg += (self.xlast + x[0, :])*dt[0]/2.
                 self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
                                   numx.outer(x[0, :], x[0, :]))*dt[0]/2.
                 self._tlen += dt[0]
-            elif time_dep:
-                if dt is not None and  type(dt) != numx.ndarray and dt > 0:
-                    self._avg += (self.xlast + x[0, :])*dt/2.
-                    self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
-                                      numx.outer(x[0, :], x[0, :]))*dt/2.
-                    self._tlen += dt
-                elif dt is None:
-                    self._avg += (self.xlast + x[0, :])*1./2.
-                    self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
-                                      numx.outer(x[0, :], x[0, :]))*1./2.
-                    self._tlen += 1.
+            elif dt is not None and  type(dt) != numx.ndarray and dt > 0:
+                self._avg += (self.xlast + x[0, :])*dt/2.
+                self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
+                                  numx.outer(x[0, :], x[0, :]))*dt/2.
+                self._tlen += dt
+            elif dt is None:
+                self._avg += (self.xlast + x[0, :])*1./2.
+                self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
+                                  numx.outer(x[0, :], x[0, :]))*1./2.
+                self._tlen += 1.
         # keep last observation for continuation to future chunk
         self.xlast = x[-1, :].copy()
 
-- 
2.43.0


From 2050f809f92f99650e85e4f2b2668cdb108c9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 072/145] fix: MultipleCovarianceMatrices.weight refused a
 single value and sequences other than arrays

---
 mdp/utils/covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 4632c75..a3fcd44 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -498,10 +498,12 @@ class MultipleCovarianceMatrices(object):
         Argument can be a sequence or a single value. In the latter case
         the same weight is applied to all matrices."""
         # apply a weighting vector to cov matrices
+        if numx.ndim(weights) == 0:
+            weights = [weights]*self.ncovs
         err = ("len(weights)=%d does not match number "
                "of matrices (%d)" % (len(weights), self.ncovs))
         assert len(weights) == self.ncovs, err
-        self.covs *= mdp.utils.refcast(weights, self.dtype)
+        self.covs *= mdp.utils.refcast(numx.asarray(weights), self.dtype)
 
     def rotate(self, angle, indices):
         """Rotate matrices by angle in the plane defined by indices [i,j]."""
-- 
2.43.0


From a8547d079b8c71c500c3a2a4d4f6ff46ec4bc324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 073/145] fix: utils.cov2 mixed the biased and unbiased
 normalization (the covariance of constant data was not zero)

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index d00237b..2275cd1 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -218,7 +218,7 @@ def cov2(x, y):
     mnx = x.mean(axis=0)
     mny = y.mean(axis=0)
     tlen = x.shape[0]
-    return old_div(mdp.utils.mult(x.T, y),(tlen-1)) - numx.outer(mnx, mny)
+    return old_div(mdp.utils.mult(x.T, y) - tlen*numx.outer(mnx, mny), (tlen-1))
 
 
 def cov_maxima(cov):
-- 
2.43.0


From f07d5eca8e2324ce3aeb3d31b137be5079d58340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 074/145] fix: NIPALSNode started at a column without variance
 (NaN), gave non-orthogonal directions beyond the rank, wrong explained
 variance and no output_dim for the full variance

---
 mdp/nodes/nipals.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/mdp/nodes/nipals.py b/mdp/nodes/nipals.py
index 28cb182..2c73919 100644
--- a/mdp/nodes/nipals.py
+++ b/mdp/nodes/nipals.py
@@ -94,16 +94,35 @@ class NIPALSNode(Cumulator, PCANode):
 
         # remove mean
         X -= mean
-        var = X.var(axis=0).sum()
+        # (same normalization as for the variances of the components below)
+        sqsum = (X*X).sum()
+        var = old_div(sqsum, (tlen-1))
         self.total_variance = var
         exp_var = 0
 
-        eigenv = numx.zeros((self.input_dim, self.input_dim), dtype=dtype)
-        d = numx.zeros((self.input_dim,), dtype = dtype)
-        for i in range(self.input_dim):
+        # number of components to compute
+        ncomp = self.input_dim if des_var else self.output_dim
+
+        eigenv = numx.zeros((ncomp, self.input_dim), dtype=dtype)
+        d = numx.zeros((ncomp,), dtype = dtype)
+        for i in range(ncomp):
             it = 0
-            # first score vector t is initialized to first column in X
-            t = X[:, 0]
+            # stop if there is nothing but round-off errors left in X
+            if (X*X).sum() <= sqsum * (100*numx.finfo(X.dtype).eps)**2:
+                if des_var and i > 0:
+                    self.output_dim = i
+                    break
+                # the remaining components have no variance: take any
+                # direction that is orthogonal to the previous ones
+                p = numx.eye(self.input_dim, dtype=dtype)
+                for _ in range(2):
+                    p -= mult(mult(p, eigenv[:i, :].T), eigenv[:i, :])
+                p = p[(p*p).sum(axis=1).argmax(), :]
+                eigenv[i, :] = old_div(p, sqrt(mult(p, p)))
+                continue
+            # first score vector t is initialized to the column in X with
+            # the largest variance
+            t = X[:, (X*X).sum(axis=0).argmax()]
             # initialize difference
             diff = conv + 1
             while diff > conv:
@@ -136,6 +155,9 @@ class NIPALSNode(Cumulator, PCANode):
             if des_var and (exp_var >= self.desired_variance):
                 self.output_dim = i + 1
                 break
+        if self.output_dim is None:
+            # the desired variance is reached up to round-off errors only
+            self.output_dim = ncomp
 
         self.d = d[:self.output_dim]
         self.v = eigenv[:self.output_dim, :].T
-- 
2.43.0


From 9d7f66e5469ca63f6024f89a516acd48ddb3cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 075/145] fix: PCANode with output_dim=1.0 or more components
 than variables announced an output_dim it did not deliver

---
 mdp/nodes/pca_nodes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index d3276df..d1d1750 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -173,8 +173,12 @@ class PCANode(mdp.Node):
         # if the number of principal components to keep has been
         # specified directly
         if self.output_dim is not None and self.output_dim >= 1:
+            if self.output_dim > self.input_dim and not self.reduce:
+                err = ("%d components requested, but there are only %d."
+                       % (self.output_dim, self.input_dim))
+                raise mdp.NodeException(err)
             # (eigenvalues sorted in ascending order)
-            return (self.input_dim - self.output_dim + 1,
+            return (max(self.input_dim - self.output_dim + 1, 1),
                    self.input_dim)
         # otherwise, the number of principal components to keep has been
         # specified by the fraction of variance to be explained
@@ -255,7 +259,9 @@ class PCANode(mdp.Node):
             varcum = (old_div(d, vartot)).cumsum(axis=0)
             # select only the relevant eigenvalues
             # number of relevant eigenvalues
-            neigval = int(varcum.searchsorted(self.desired_variance) + 1.)
+            # (rounding errors may keep the sum below the desired variance)
+            neigval = min(int(varcum.searchsorted(self.desired_variance) + 1.),
+                          d.shape[0])
             #self.explained_variance = varcum[neigval-1]
             # cut
             d = d[0:neigval]
-- 
2.43.0


From 33a8fb3f27030f8ba9d737cc96cc720478d860eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 076/145] fix: LinearRegressionNode returned arbitrary
 coefficients for linearly dependent or too few data

---
 mdp/nodes/regression_nodes.py | 306 ++++++++++++++++++----------------
 1 file changed, 160 insertions(+), 146 deletions(-)

diff --git a/mdp/nodes/regression_nodes.py b/mdp/nodes/regression_nodes.py
index 0676a1c..fa0973f 100644
--- a/mdp/nodes/regression_nodes.py
+++ b/mdp/nodes/regression_nodes.py
@@ -1,147 +1,161 @@
-from builtins import str
-__docformat__ = "restructuredtext en"
-
-from mdp import numx, numx_linalg, utils, Node, NodeException, TrainingException
-from mdp.utils import mult
-
-# ??? For the future: add an optional second phase to compute
-# residuals, significance of the slope.
-
-class LinearRegressionNode(Node):
-    """Compute least-square, multivariate linear regression on the input
-    data, i.e., learn coefficients ``b_j`` so that the linear combination
-    ``y_i = b_0 + b_1 x_1 + ... b_N x_N`` , for ``i = 1 ... M``, minimizes
-    the sum of squared error given the training ``x``'s and ``y``'s.
-
-    This is a supervised learning node, and requires input data ``x`` and
-    target data ``y`` to be supplied during training (see ``train``
-    docstring).
-
-    :ivar beta: The coefficients of the linear regression.
-    """
-
-    def __init__(self, with_bias=True, use_pinv=False,
-                 input_dim=None, output_dim=None, dtype=None):
-        """Initializes an object of type 'LinearRegressionNode'.
-
-        :param with_bias: If true, the linear model includes a constant term.
-
-            - True:  y_i = b_0 + b_1 x_1 + ... b_N x_N
-            - False: y_i =       b_1 x_1 + ... b_N x_N
-
-            If present, the constant term is stored in the first
-            column of ``self.beta``. Default: True.
-        :type with_bias: bool
-
-        :param use_pinv: If true, uses the pseudo-inverse function to compute
-            the linear regression coefficients, which is more robust
-            in some cases. Default: False.
-        :type use_pinv: bool
-
-        :param input_dim: Dimensionality of the input.
-            Default is None.
-        :type input_dim: int
-        
-        :param output_dim: Dimensionality of the output.
-            Default is None.
-        :type output_dim: int
-        
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(LinearRegressionNode, self).__init__(input_dim, output_dim, dtype)
-
-        self.with_bias = with_bias
-        self.use_pinv = use_pinv
-
-        # for the linear regression estimator we need two terms
-        # the first one is X^T X
-        self._xTx = None
-        # the second one is X^T Y
-        self._xTy = None
-
-        # keep track of how many data points have been sent
-        self._tlen = 0
-
-        # final regression coefficients
-        # if with_bias=True, beta includes the bias term in the first column
-        self.beta = None
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def _check_train_args(self, x, y):
-        # set output_dim if necessary
-        if self._output_dim is None:
-            self._set_output_dim(y.shape[1])
-        # check output dimensionality
-        self._check_output(y)
-        if y.shape[0] != x.shape[0]:
-            msg = ("The number of output points should be equal to the "
-                   "number of datapoints (%d != %d)" % (y.shape[0], x.shape[0]))
-            raise TrainingException(msg)
-
-    def _train(self, x, y):
-        """
-        :param x: Array of different input observations.
-        :type x: numpy.ndarray
-
-        :param y: Array of size (x.shape[0], output_dim) that contains the 
-            observed output to the input x's.
-        :type y: numpy.ndarray
-        """
-        # initialize internal vars if necessary
-        if self._xTx is None:
-            if self.with_bias:
-                x_size = self._input_dim + 1
-            else:
-                x_size = self._input_dim
-            self._xTx = numx.zeros((x_size, x_size), self._dtype)
-            self._xTy = numx.zeros((x_size, self._output_dim), self._dtype)
-
-        if self.with_bias:
-            x = self._add_constant(x)
-
-        # update internal variables
-        self._xTx += mult(x.T, x)
-        self._xTy += mult(x.T, y)
-        self._tlen += x.shape[0]
-
-    def _stop_training(self):
-        try:
-            if self.use_pinv:
-                invfun = utils.pinv
-            else:
-                invfun = utils.inv
-            inv_xTx = invfun(self._xTx)
-        except numx_linalg.LinAlgError as exception:
-            errstr = (str(exception) +
-                      "\n Input data may be redundant (i.e., some of the " +
-                      "variables may be linearly dependent).")
-            raise NodeException(errstr)
-
-        self.beta = mult(inv_xTx, self._xTy)
-
-        # remove junk
-        del self._xTx
-        del self._xTy
-
-    def _execute(self, x):
-        if self.with_bias:
-            x = self._add_constant(x)
-        return mult(x, self.beta)
-
-    def _add_constant(self, x):
-        """Add a constant term to the vector 'x'.
-        x -> [1 x]
-
-        :param x: The vector a constant term is appended to.
-        :type x: numpy.ndarray
-
-        :return: The altered vector.
-        :rtype: numpy.ndarray
-        """
-        return numx.concatenate((numx.ones((x.shape[0], 1),
+from builtins import str
+__docformat__ = "restructuredtext en"
+
+from mdp import numx, numx_linalg, utils, Node, NodeException, TrainingException
+from mdp.utils import mult
+
+# ??? For the future: add an optional second phase to compute
+# residuals, significance of the slope.
+
+class LinearRegressionNode(Node):
+    """Compute least-square, multivariate linear regression on the input
+    data, i.e., learn coefficients ``b_j`` so that the linear combination
+    ``y_i = b_0 + b_1 x_1 + ... b_N x_N`` , for ``i = 1 ... M``, minimizes
+    the sum of squared error given the training ``x``'s and ``y``'s.
+
+    This is a supervised learning node, and requires input data ``x`` and
+    target data ``y`` to be supplied during training (see ``train``
+    docstring).
+
+    :ivar beta: The coefficients of the linear regression.
+    """
+
+    def __init__(self, with_bias=True, use_pinv=False,
+                 input_dim=None, output_dim=None, dtype=None):
+        """Initializes an object of type 'LinearRegressionNode'.
+
+        :param with_bias: If true, the linear model includes a constant term.
+
+            - True:  y_i = b_0 + b_1 x_1 + ... b_N x_N
+            - False: y_i =       b_1 x_1 + ... b_N x_N
+
+            If present, the constant term is stored in the first
+            column of ``self.beta``. Default: True.
+        :type with_bias: bool
+
+        :param use_pinv: If true, uses the pseudo-inverse function to compute
+            the linear regression coefficients, which is more robust
+            in some cases. Default: False.
+        :type use_pinv: bool
+
+        :param input_dim: Dimensionality of the input.
+            Default is None.
+        :type input_dim: int
+        
+        :param output_dim: Dimensionality of the output.
+            Default is None.
+        :type output_dim: int
+        
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(LinearRegressionNode, self).__init__(input_dim, output_dim, dtype)
+
+        self.with_bias = with_bias
+        self.use_pinv = use_pinv
+
+        # for the linear regression estimator we need two terms
+        # the first one is X^T X
+        self._xTx = None
+        # the second one is X^T Y
+        self._xTy = None
+
+        # keep track of how many data points have been sent
+        self._tlen = 0
+
+        # final regression coefficients
+        # if with_bias=True, beta includes the bias term in the first column
+        self.beta = None
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def _check_train_args(self, x, y):
+        # set output_dim if necessary
+        if self._output_dim is None:
+            self._set_output_dim(y.shape[1])
+        # check output dimensionality
+        self._check_output(y)
+        if y.shape[0] != x.shape[0]:
+            msg = ("The number of output points should be equal to the "
+                   "number of datapoints (%d != %d)" % (y.shape[0], x.shape[0]))
+            raise TrainingException(msg)
+
+    def _train(self, x, y):
+        """
+        :param x: Array of different input observations.
+        :type x: numpy.ndarray
+
+        :param y: Array of size (x.shape[0], output_dim) that contains the 
+            observed output to the input x's.
+        :type y: numpy.ndarray
+        """
+        # initialize internal vars if necessary
+        if self._xTx is None:
+            if self.with_bias:
+                x_size = self._input_dim + 1
+            else:
+                x_size = self._input_dim
+            self._xTx = numx.zeros((x_size, x_size), self._dtype)
+            self._xTy = numx.zeros((x_size, self._output_dim), self._dtype)
+
+        if self.with_bias:
+            x = self._add_constant(x)
+
+        # update internal variables
+        self._xTx += mult(x.T, x)
+        self._xTy += mult(x.T, y)
+        self._tlen += x.shape[0]
+
+    def _stop_training(self):
+        try:
+            if self.use_pinv:
+                invfun = utils.pinv
+            else:
+                invfun = utils.inv
+                self._check_rank(self._xTx)
+            inv_xTx = invfun(self._xTx)
+        except numx_linalg.LinAlgError as exception:
+            errstr = (str(exception) +
+                      "\n Input data may be redundant (i.e., some of the " +
+                      "variables may be linearly dependent).")
+            raise NodeException(errstr)
+
+        self.beta = mult(inv_xTx, self._xTy)
+
+        # remove junk
+        del self._xTx
+        del self._xTy
+
+    @staticmethod
+    def _check_rank(xTx):
+        """Raise an exception if the matrix is singular up to rounding errors
+        (in this case the inverse consists of arbitrary numbers).
+        """
+        # the scale of the single variables is not important
+        scale = numx.sqrt(xTx.diagonal())
+        scale = numx.where(scale > 0, scale, 1)
+        eigv = numx_linalg.eigvalsh(xTx/numx.outer(scale, scale))
+        eps = numx.finfo(xTx.dtype).eps
+        if eigv.min() <= 4*eigv.max()*eps*xTx.shape[0]:
+            raise numx_linalg.LinAlgError('Singular matrix')
+
+    def _execute(self, x):
+        if self.with_bias:
+            x = self._add_constant(x)
+        return mult(x, self.beta)
+
+    def _add_constant(self, x):
+        """Add a constant term to the vector 'x'.
+        x -> [1 x]
+
+        :param x: The vector a constant term is appended to.
+        :type x: numpy.ndarray
+
+        :return: The altered vector.
+        :rtype: numpy.ndarray
+        """
+        return numx.concatenate((numx.ones((x.shape[0], 1),
                                            dtype=self.dtype), x), axis=1)
\ No newline at end of file
-- 
2.43.0


From 825aff68d42c1516ffda458853bd7247c40004d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 077/145] fix: utils.pinv used a double precision cutoff for
 float32 matrices (garbage for rank-deficient ones)

---
 mdp/utils/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/__init__.py b/mdp/utils/__init__.py
index 50ecf38..0e93559 100644
--- a/mdp/utils/__init__.py
+++ b/mdp/utils/__init__.py
@@ -75,7 +75,15 @@ def inv(x): return refcast(_inv(x), x.dtype)
 _pinv = _mdp.numx_linalg.pinv
 
 
-def pinv(x): return refcast(_pinv(x), x.dtype)
+if _mdp.numx_description == 'scipy':
+    def pinv(x): return refcast(_pinv(x), x.dtype)
+else:
+    # the default cutoff of numpy.linalg.pinv is too small for 'f', as it
+    # does not depend on the precision
+    def pinv(x):
+        dtype = x.dtype if x.dtype.kind in 'fc' else 'd'
+        rcond = 4*max(x.shape)*_mdp.numx.finfo(dtype).eps
+        return refcast(_pinv(x, rcond), x.dtype)
 
 
 _solve = _mdp.numx_linalg.solve
-- 
2.43.0


From fab7fdfe69901d36a00140556ecd8d6554aeed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 078/145] fix: GSFA: graph mode with an edge weight array
 assumed symmetric consistent graphs; window modes normalised by the wrong
 total node weight and fwindow counted samples twice for wide windows;
 classification refused label lists; serial_regression changed the block size
 of later modes; serial graph with one group divided by zero; iGSFANode could
 not be built with expansion functions; verbose GSFA crashed

---
 mdp/nodes/gsfa_nodes.py | 65 ++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index f4f76a5..9b801a5 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -122,7 +122,7 @@ class GSFANode(mdp.Node):
                 train_mode = "regular"
             if isinstance(train_mode, tuple):
                 method = train_mode[0]
-                labels = train_mode[1]
+                labels = numx.asarray(train_mode[1])
                 weight = train_mode[2]
                 if method == "classification":
                     if verbose:
@@ -138,13 +138,13 @@ class GSFANode(mdp.Node):
                                                       block_sizes=block_sizes,
                                                       weight=weight)
                 elif method.startswith("serial_regression"):
-                    block_size = int(method[len("serial_regression"):])
+                    group_size = int(method[len("serial_regression"):])
                     if verbose:
                         print("update serial_regression, block_size=",
-                              block_size)
+                              group_size)
                     ordering = numx.argsort(labels)
                     x2 = x[ordering, :]
-                    self._covdcovmtx.update_serial(x2, block_size=block_size,
+                    self._covdcovmtx.update_serial(x2, block_size=group_size,
                                                    weight=weight)
                 else:
                     er = "method unknown: %s" % (str(method))
@@ -473,7 +473,7 @@ class GSFANode(mdp.Node):
             print("Finishing GSFA training: ", self._covdcovmtx.num_samples)
             print(" num_samples, and ", self._covdcovmtx.num_diffs,
                   " num_diffs")
-            print("DCov[0:3,0:3] is", self.dcov_mtx[0:3, 0:3])
+            print("DCov[0:3,0:3] is", dcov_mtx[0:3, 0:3])
 
         rng = self._set_range()
         # Solve the generalized eigenvalue problem
@@ -697,8 +697,6 @@ class CovDCovMatrix(object):
             raise TrainingException(er)
 
         if isinstance(edge_weights, numx.ndarray):
-            # TODO: eventually make sure edge_weights are symmetric
-            # TODO: eventually make sure consistency restriction is fulfilled
             if edge_weights.shape != (num_samples, num_samples):
                 er = "Shape of edge_weights should be " + \
                      "(%d, %d)" % (num_samples, num_samples) + \
@@ -719,10 +717,11 @@ class CovDCovMatrix(object):
         # Update DCov Matrix
         if isinstance(edge_weights, numx.ndarray):
             weighted_num_diffs = edge_weights.sum()  # normalization constant R
-            prod1 = weighted_sum_prod_x  # TODO: eventually check these
-            # equations, they might only work if Q==R
+            # sum of the weights of all edges that leave or enter each node
+            degrees = edge_weights.sum(axis=0) + edge_weights.sum(axis=1)
+            prod1 = mdp.utils.mult(x.T, x * degrees.reshape((num_samples, 1)))
             prod2 = mdp.utils.mult(mdp.utils.mult(x.T, edge_weights), x)
-            weighted_sum_prod_diffs = 2 * prod1 - 2 * prod2
+            weighted_sum_prod_diffs = prod1 - prod2 - prod2.T
             self.add_diffs(weighted_sum_prod_diffs, weighted_num_diffs,
                            weight=weight)
         else:
@@ -937,7 +936,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x,
-                         num_samples - (0.5 * window_halfwidth - 0.5), weight)
+                         num_samples - (0.5 * window_halfwidth + 0.5), weight)
 
         # Update DCov Matrix. First we compute the borders
         # Left border
@@ -961,18 +960,11 @@ class CovDCovMatrix(object):
         x_full = x[width:num_samples - width, :]
         sum_prod_x_full = mdp.utils.mult(x_full.T, x_full)
 
-        Aacc123 = numx.zeros((dim, dim))
-        for i in range(0, 2 * width):  # [0, 2*width-1]
-            Aacc123 += (i + 1) * mdp.utils.mult(x[i:i + 1, :].T, x[i:i + 1, :])
-
-        for i in range(num_samples - 2 * width, num_samples):
-            Aacc123 += (num_samples - i) * mdp.utils.mult(x[i:i + 1, :].T,
-                                                          x[i:i + 1, :])
-
-        # intermediate values of x, which are connected 2*width+1 times
-        x_middle = x[2 * width:num_samples - 2 * width, :]
-
-        Aacc123 += (2 * width + 1) * mdp.utils.mult(x_middle.T, x_middle)
+        # number of centers (samples of x_full) whose window includes sample i
+        idx = numx.arange(num_samples)
+        num_centers = numx.minimum(idx + width, num_samples - width - 1) - \
+                      numx.maximum(idx - width, width) + 1
+        Aacc123 = mdp.utils.mult(x.T, x * num_centers.reshape((-1, 1)))
 
         b = numx.zeros((num_samples + 1, dim))
         b[1:] = x.cumsum(axis=0)
@@ -1003,7 +995,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x, num_samples -
-                         (0.5 * window_halfwidth - 0.5), weight)
+                         (0.5 * window_halfwidth + 0.5), weight)
 
         # This can be made faster (twice) due to symmetry
         for offset in range(-width, width + 1):
@@ -1040,6 +1032,9 @@ class CovDCovMatrix(object):
             err = "num_samples is not a multiple of block_size"
             raise ValueError(err)
         num_blocks = num_samples // block_size
+        if num_blocks < 2:
+            err = "the serial graph needs at least two groups of samples"
+            raise TrainingException(err)
 
         # Correlation Matrix. Computing sum of outer products (the easy part)
         xp = x[block_size:num_samples - block_size]
@@ -1077,7 +1072,7 @@ class CovDCovMatrix(object):
                          include_self_loops=True):
         num_samples = x.shape[0]
 
-        if isinstance(block_sizes, int):
+        if isinstance(block_sizes, (int, numx.integer)):
             self.update_clustered_homogeneous_block_sizes(
                 x, weight=weight, block_size=block_sizes,
                 include_self_loops=include_self_loops)
@@ -1089,7 +1084,7 @@ class CovDCovMatrix(object):
 
         if num_samples != numx.array(block_sizes).sum():
             err = "Inconsistency error: num_samples (%d)" % num_samples + \
-                "is not equal to sum of block_sizes: %d" % block_sizes
+                " is not equal to sum of block_sizes: %s" % (block_sizes,)
             raise ValueError(err)
 
         counter_sample = 0
@@ -1359,14 +1354,16 @@ class iGSFANode(mdp.Node):
         self.expansion_starting_point = expansion_starting_point
 
         # creates an expansion node
-        if expansion_funcs and self.expansion_output_dim is not None:
-            self.exp_node = GeneralExpansionNode(
-                funcs=expansion_funcs, output_dim=self.expansion_output_dim,
-                starting_point=self.expansion_starting_point)
-        elif expansion_funcs:
-            self.exp_node = GeneralExpansionNode(
-                funcs=expansion_funcs,
-                starting_point=self.expansion_starting_point)
+        if expansion_funcs:
+            # only pass on what was specified: these parameters are not
+            # supported by all expansion nodes
+            exp_args = {}
+            if self.expansion_output_dim is not None:
+                exp_args['output_dim'] = self.expansion_output_dim
+            if self.expansion_starting_point is not None:
+                exp_args['starting_point'] = self.expansion_starting_point
+            self.exp_node = GeneralExpansionNode(funcs=expansion_funcs,
+                                                 **exp_args)
         else:
             self.exp_node = None
 
-- 
2.43.0


From e5ff9d45bba7d29856bbf2fb51348a4657792ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 079/145] fix: constant channels elsewhere than first broke the
 rank-deficient SFA solvers, float32 problems were widened, all-zero
 covariances raised IndexError, rank_deficit was not reset, and SFA nodes kept
 an output_dim larger than the number of their features

---
 mdp/nodes/gsfa_nodes.py          |  2 +-
 mdp/nodes/sfa_nodes.py           |  5 +++-
 mdp/utils/symeig_semidefinite.py | 40 +++++++++++++++++++++-----------
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 9b801a5..ac744f0 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -526,7 +526,7 @@ class GSFANode(mdp.Node):
         else:
             # otherwise, keep all output components
             rng = None
-            self.output_dim = self.input_dim
+            self._output_dim = self.input_dim
         return rng
 
 
diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index 45774dc..5b60702 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -222,7 +222,7 @@ class SFANode(Node):
         else:
             # otherwise, keep all output components
             rng = None
-            self.output_dim = self.input_dim
+            self._output_dim = self.input_dim
         return rng
 
     def _check_train_args(self, x, *args, **kwargs):
@@ -304,6 +304,9 @@ class SFANode(Node):
                            "and try higher values for rank_threshold, e.g. try\n"
                            "your_node.rank_threshold = 1e-10, 1e-8, 1e-6, ..." % str(d))
                 raise NodeException(err_msg)
+            # there may be fewer components than requested, either because
+            # the input is too small or because it has a rank deficit
+            self._output_dim = d.shape[0]
         except SymeigException as exception:
             errstr = (str(exception)+"\n Covariance matrices may be singular.\n"
                       + SINGULAR_VALUE_MSG)
diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 5f3e138..65458c0 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -55,6 +55,9 @@ ldl (solves by applying LDL/Cholesky decomposition for indefinite matrices)
 import mdp
 from mdp import numx
 from ._symeig import SymeigException
+
+_ZERO_MATRIX_MSG = ('All eigenvalues of the matrix B count as zero '
+                    '(see the rank_threshold argument).')
 __docformat__ = "restructuredtext en"
 
 
@@ -109,13 +112,15 @@ def symeig_semidefinite_reg(
     off = 0
     # In theory all values in m should be close to one or close to zero.
     # So we use the mean of these values as threshold to distinguish cases:
-    while m[off] > 0.5:
+    while off < len(m) and m[off] > 0.5:
         off += 1
+    if off == len(m):
+        raise SymeigException(_ZERO_MATRIX_MSG)
+    if not dfc_out is None:
+        dfc_out.rank_deficit = int((m >= 0.5).sum())
     m_off_sum = numx.sum(m[off:])
     if m_off_sum < 0.5:
         if off > 0:
-            if not dfc_out is None:
-                dfc_out.rank_deficit = off
             eg = eg[off:]
             ev = ev[:, off:]
     else:
@@ -146,14 +151,17 @@ def _find_blank_data_idx(B, rank_threshold):
     zero_idx = (abs(B[0]) < rank_threshold).nonzero()[0]
     # For efficiency we just check the first line for zeros and fail fast.
     if len(zero_idx) > 0:
-        # If near-zero entries are in first line we check the whole columns:
+        # If near-zero entries are in first line we check the whole lines:
         #nonzerolines = (abs(numx.sum(B, 0)) > rank_threshold).nonzero()[0]
-        zero_idx = (numx.mean(abs(B[zero_idx]), 0) < \
-                rank_threshold).nonzero()[0]
+        zero_idx = zero_idx[numx.mean(abs(B[zero_idx]), 1) < \
+                rank_threshold]
         if len(zero_idx) > 0:
             nonzero_idx = numx.arange(len(B))
             nonzero_idx[zero_idx] = -1
-            return nonzero_idx[(nonzero_idx != -1).nonzero()[0]]
+            nonzero_idx = nonzero_idx[(nonzero_idx != -1).nonzero()[0]]
+            if len(nonzero_idx) == 0:
+                raise SymeigException(_ZERO_MATRIX_MSG)
+            return nonzero_idx
 
 
 def symeig_semidefinite_ldl(
@@ -300,7 +308,7 @@ def symeig_semidefinite_ldl(
         # restore ev to original size
         rank_deficit += orig_shape[0]-len(nonzero_idx)
         ev_tmp = ev
-        ev = numx.zeros((orig_shape[0], ev.shape[1]))
+        ev = numx.zeros((orig_shape[0], ev.shape[1]), dtype=ev_tmp.dtype)
         ev[nonzero_idx, :] = ev_tmp
 
     if not dfc_out is None:
@@ -355,8 +363,10 @@ def symeig_semidefinite_pca(
     eg, ev = mdp.utils.symeig(cov_mtx, None, True, turbo, None, type,
             overwrite)
     off = 0
-    while eg[off] < rank_threshold:
+    while off < len(eg) and eg[off] < rank_threshold:
         off += 1
+    if off == len(eg):
+        raise SymeigException(_ZERO_MATRIX_MSG)
     if not dfc_out is None:
         dfc_out.rank_deficit = off
     eg = 1/numx.sqrt(eg[off:])
@@ -374,7 +384,7 @@ def symeig_semidefinite_pca(
         if not dfc_out is None:
             dfc_out.rank_deficit += orig_shape[0]-len(nonzero_idx)
         ev_tmp = ev
-        ev = numx.zeros((orig_shape[0], ev.shape[1]))
+        ev = numx.zeros((orig_shape[0], ev.shape[1]), dtype=ev_tmp.dtype)
         ev[nonzero_idx, :] = ev_tmp
 
     return eg, ev
@@ -426,11 +436,13 @@ def symeig_semidefinite_svd(
     cov_mtx = B
     U, s, _ = mdp.utils.svd(cov_mtx)
     off = 0
-    while s[-1-off] < rank_threshold:
+    while off < len(s) and s[-1-off] < rank_threshold:
         off += 1
+    if off == len(s):
+        raise SymeigException(_ZERO_MATRIX_MSG)
+    if not dfc_out is None:
+        dfc_out.rank_deficit = off
     if off > 0:
-        if not dfc_out is None:
-            dfc_out.rank_deficit = off
         s = s[:-off]
         U = U[:, :-off]
     X1 = mult(U, numx.diag(1.0 / s ** 0.5))
@@ -450,7 +462,7 @@ def symeig_semidefinite_svd(
         if not dfc_out is None:
             dfc_out.rank_deficit += orig_shape[0]-len(nonzero_idx)
         E_tmp = E
-        E = numx.zeros((orig_shape[0], E.shape[1]))
+        E = numx.zeros((orig_shape[0], E.shape[1]), dtype=E_tmp.dtype)
         E[nonzero_idx, :] = E_tmp
 
     return e, E
-- 
2.43.0


From 9c277efa57ac8c084c3ab79540699471e8da5f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 080/145] fix: the LDL solver for rank-deficient problems
 silently returned wrong slow features when a rounding-level pivot came before
 others

---
 mdp/nodes/sfa_nodes.py           |   8 +-
 mdp/utils/symeig_semidefinite.py | 123 +++++++++----------------------
 2 files changed, 37 insertions(+), 94 deletions(-)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index 5b60702..050b24d 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -130,7 +130,7 @@ class SFANode(Node):
             reg  - works by regularization
             pca  - works by PCA
             svd  - works by SVD
-            ldl  - works by LDL decomposition (requires SciPy >= 1.0)
+            ldl  - works by LDL decomposition (requires SciPy >= 1.4)
 
             auto - (Will be: selects the best-benchmarked method of the above)
                    Currently it simply selects pca.
@@ -189,10 +189,10 @@ class SFANode(Node):
             self._symeig = symeig_semidefinite_svd
         elif rank_deficit_method == 'ldl':
             try:
-                from scipy.linalg.lapack import dsytrf
+                from scipy.linalg.lapack import dpstrf
             except ImportError:
                 err_msg = ("ldl method for solving SFA with rank deficit covariance "
-                           "requires at least SciPy 1.0.")
+                           "requires at least SciPy 1.4.")
                 raise NodeException(err_msg)
             self._symeig = symeig_semidefinite_ldl
         elif rank_deficit_method == 'auto':
@@ -423,7 +423,7 @@ class VartimeSFANode(SFANode):
             reg  - works by regularization
             pca  - works by PCA
             svd  - works by SVD
-            ldl  - works by LDL decomposition (requires SciPy >= 1.0)
+            ldl  - works by LDL decomposition (requires SciPy >= 1.4)
 
             auto - (Will be: selects the best-benchmarked method of the above)
                    Currently it simply selects pca.
diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 65458c0..195e062 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -49,7 +49,7 @@ ldl (solves by applying LDL/Cholesky decomposition for indefinite matrices)
   Roughly as efficient as ordinary eigenvalue solving. Can exploit range
   parameter for performance just as well as the backend for ordinary symmetric
   eigenvalue solving enables. This is the recommended and most efficient
-  approach, but it requires SciPy 1.0 or newer.
+  approach, but it requires SciPy 1.4 or newer.
 '''
 
 import mdp
@@ -165,7 +165,7 @@ def _find_blank_data_idx(B, rank_threshold):
 
 
 def symeig_semidefinite_ldl(
-        A, B = None, eigenvectors=True, turbo="on", rng=None,
+        A, B = None, eigenvectors=True, turbo="on", range=None,
         type=1, overwrite=False, rank_threshold=1e-12, dfc_out=None):
     """LDL-based routine to solve generalized symmetric positive semidefinite
     eigenvalue problems.
@@ -173,25 +173,20 @@ def symeig_semidefinite_ldl(
     This can be used if the normal ``symeig()`` call in ``_stop_training()``
     throws ``SymeigException('Covariance matrices may be singular')``.
 
-    This solver uses SciPy's raw LAPACK interface to access LDL decomposition.
     http://www.netlib.org/lapack/lug/node54.html describes how to solve a
     generalized eigenvalue problem with positive definite B using Cholesky/LL
     decomposition. We extend this method to solve for positive semidefinite B
-    using LDL decomposition, which is a variant of Cholesky/LL decomposition
-    for indefinite Matrices.
-    Accessing raw LAPACK's LDL decomposition (sytrf) is challenging. This code
-    is partly based on code for SciPy 1.1:
-    http://github.com/scipy/scipy/pull/7941/files#diff-9bf9b4b2f0f40415bc0e72143584c889
-    We optimized and shortened that code for the real-valued positive
-    semidefinite case.
+    using LDL decomposition with diagonal pivoting. For positive semidefinite
+    B this is the pivoted Cholesky decomposition, which is accessed via
+    SciPy's raw LAPACK interface (pstrf).
 
     This procedure is almost as efficient as the ordinary eigh implementation.
     This is because implementations for symmetric generalized eigenvalue
-    problems usually perform the Cholesky approach mentioned above. The more
-    general LDL decomposition is only slightly more expensive than Cholesky,
-    due to pivotization.
+    problems usually perform the Cholesky approach mentioned above. The
+    version for rank deficit B is only slightly more expensive due to
+    pivotization.
 
-    .. note:: This method requires SciPy >= 1.0.
+    .. note:: This method requires SciPy >= 1.4.
     
     The signature of this function equals that of ``mdp.utils.symeig``,
     but has two additional parameters:
@@ -217,92 +212,40 @@ def symeig_semidefinite_ldl(
 
     # This method has special requirements, which is why we import here
     # rather than module wide.
-    from scipy.linalg.lapack import get_lapack_funcs, _compute_lwork
+    from scipy.linalg.lapack import get_lapack_funcs
     from scipy.linalg.blas import get_blas_funcs
     try:
-        inv_tri, solver, solver_lwork = get_lapack_funcs(
-                ('trtri', 'sytrf', 'sytrf_lwork'), (B,))
+        inv_tri, solver = get_lapack_funcs(('trtri', 'pstrf'), (B,))
         mult_tri, = get_blas_funcs(('trmm',), (B,))
     except ValueError:
         err_msg = ("ldl method for solving symeig with rank deficit B "
-                   "requires at least SciPy 1.0.")
+                   "requires at least SciPy 1.4.")
         raise SymeigException(err_msg)
 
     n = B.shape[0]
-    arng = numx.arange(n)
-    lwork = _compute_lwork(solver_lwork, n, lower=1)
-    lu, piv, _ = solver(B, lwork=lwork, lower=1, overwrite_a=overwrite)
-
-    # using piv properly requires some postprocessing:
-    swap_ = numx.arange(n)
-    pivs = numx.zeros(swap_.shape, dtype=int)
-    skip_2x2 = False
-    for ind in range(n):
-        # If previous spin belonged already to a 2x2 block
-        if skip_2x2:
-            skip_2x2 = False
-            continue
-
-        cur_val = piv[ind]
-        # do we have a 1x1 block or not?
-        if cur_val > 0:
-            if cur_val != ind+1:
-                # Index value != array value --> permutation required
-                swap_[ind] = swap_[cur_val-1]
-            pivs[ind] = 1
-        # Not.
-        elif cur_val < 0 and cur_val == piv[ind+1]:
-            # first neg entry of 2x2 block identifier
-            if -cur_val != ind+2:
-                # Index value != array value --> permutation required
-                swap_[ind+1] = swap_[-cur_val-1]
-            pivs[ind] = 2
-            skip_2x2 = True
-
-    full_perm = numx.arange(n)
-    for ind in range(n-1, -1, -1):
-        s_ind = swap_[ind]
-        if s_ind != ind:
-            col_s = ind if pivs[ind] else ind-1 # 2x2 block
-            lu[[s_ind, ind], col_s:] = lu[[ind, s_ind], col_s:]
-            full_perm[[s_ind, ind]] = full_perm[[ind, s_ind]]
-    # usually only a few indices actually permute, so we reduce perm:
-    perm = (full_perm-arng).nonzero()[0]
-    perm_idx = full_perm[perm]
-    # end of ldl postprocessing
-    # perm_idx and perm now describe a permutation as dest and source indexes
-
-    lu[perm_idx, :] = lu[perm, :]
-
-    dgd = abs(numx.diag(lu))
-    dnz = (dgd > rank_threshold).nonzero()[0]
-    dgd_sqrt_I = numx.sqrt(1.0/dgd[dnz])
-    rank_deficit = len(dgd) - len(dnz) # later used
-
-    # c, lower, unitdiag, overwrite_c
-    LI, _ = inv_tri(lu, 1, 1, 1) # invert triangular
-    # we mainly apply tril here, because we need to make a
-    # copy of LI anyway, because original result from
-    # dtrtri seems to be read-only regarding some operations
-    LI = numx.tril(LI, -1)
-    LI[arng, arng] = 1
-    LI[dnz, :] *= dgd_sqrt_I.reshape((dgd_sqrt_I.shape[0], 1))
-
-    A2 = A if overwrite else A.copy()
-    A2[perm_idx, :] = A2[perm, :]
-    A2[:, perm_idx] = A2[:, perm]
-    # alpha, a, b, side 0=left 1=right, lower, trans_a, diag 1=unitdiag,
-    # overwrite_b
-    A2 = mult_tri(1.0, LI, A2, 1, 1, 1, 0, 1) # A2 = mult(A2, LI.T)
-    A2 = mult_tri(1.0, LI, A2, 0, 1, 0, 0, 1) # A2 = mult(LI, A2)
-    A2 = A2[dnz, :]
-    A2 = A2[:, dnz]
+    # With diagonal pivoting the factorization stops at the first pivot that
+    # counts as zero, so the redundant variables come last in piv. (Without
+    # this ordering, rounding errors in a zero pivot would get amplified and
+    # spoil all subsequent pivots.)
+    L, piv, rank, _ = solver(B, tol=rank_threshold, lower=1,
+                             overwrite_a=overwrite)
+    if rank == 0:
+        raise SymeigException(_ZERO_MATRIX_MSG)
+    rank_deficit = n - rank # later used
+    piv = piv[:rank] - 1
+
+    LI, _ = inv_tri(L[:rank, :rank], 1) # invert triangular (lower)
+    LI = numx.tril(LI)
+
+    A2 = A[piv, :][:, piv]
+    # alpha, a, b, side 0=left 1=right, lower, trans_a
+    A2 = mult_tri(1.0, LI, A2, 1, 1, 1) # A2 = mult(A2, LI.T)
+    A2 = mult_tri(1.0, LI, A2, 0, 1, 0) # A2 = mult(LI, A2)
 
     # overwrite=True is okay here, because at this point A2 is a copy anyway
-    eg, ev = mdp.utils.symeig(A2, None, True, turbo, rng, overwrite=True)
-    ev = mdp.utils.mult(LI[dnz].T, ev) if rank_deficit \
-        else mult_tri(1.0, LI, ev, 0, 1, 1, 0, 1)
-    ev[perm] = ev[perm_idx]
+    eg, ev_tmp = mdp.utils.symeig(A2, None, True, turbo, range, overwrite=True)
+    ev = numx.zeros((n, ev_tmp.shape[1]), dtype=ev_tmp.dtype)
+    ev[piv, :] = mult_tri(1.0, LI, ev_tmp, 0, 1, 1) # mult(LI.T, ev_tmp)
 
     if not nonzero_idx is None:
         # restore ev to original size
-- 
2.43.0


From c7a091cb5355bb3ba565ab125545175bd0fc9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 081/145] fix: layers and flow-nodes kept the output_dim
 requested in advance when their nodes found fewer components: padded outputs
 or InconsistentDimException

---
 bimdp/hinet/biflownode.py |  3 ++-
 bimdp/hinet/bilayer.py    |  2 ++
 mdp/hinet/flownode.py     |  5 +++--
 mdp/hinet/layer.py        | 16 +++++++++++++---
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 795b21d..194f5e0 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -234,7 +234,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         # hand over the message.
         def _stop_training_wrapper(msg=None):
             result = func(msg)
-            self.output_dim = node.output_dim
+            # the node may have reduced its output_dim during training
+            self._output_dim = node.output_dim
             return result
         return _stop_training_wrapper
 
diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index afe0484..031b2bb 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -226,6 +226,7 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                     msg_results.append(node_result[1])
                     if len(node_result) == 3:
                         target = node_result[2]
+            self._update_output_dim()
             ## combine message results
             msg = self._get_combined_message(msg_results)
             if (not y_results) or (y_results[-1] is None):
@@ -235,6 +236,7 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:  
             ## simple case of a single instance
             node_result = self.node.stop_training(msg)
+            self._update_output_dim()
             if not isinstance(node_result, tuple):
                 return node_result
             elif len(node_result) == 2:
diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index cae47f3..da39a76 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -112,8 +112,9 @@ class FlowNode(mdp.Node):
                 prev_node = node
             self._flow._check_nodes_consistency()
         if self._flow[-1].output_dim is not None:
-            # additional checks are performed here
-            self.output_dim = self._flow[-1].output_dim
+            # the last node may have reduced its output_dim during training,
+            # so an output_dim that was set before can be outdated
+            self._output_dim = self._flow[-1].output_dim
 
     def _set_default_output_dim(self):
         """Let the internal nodes define the late dimensions."""
diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 4098f67..88e2bd2 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -164,8 +164,19 @@ class Layer(mdp.Node):
         for node in self.nodes:
             if node.is_training():
                 node.stop_training(*args, **kwargs)
+        self._update_output_dim()
+
+    def _update_output_dim(self):
+        """Adopt the output dimensions of the nodes after their training.
+
+        Some nodes reduce an output_dim that was set in advance when the
+        training data do not contain enough components.
+        """
+        output_dim = self._get_output_dim_from_nodes()
         if self.output_dim is None:
-            self.output_dim = self._get_output_dim_from_nodes()
+            self.output_dim = output_dim
+        elif output_dim is not None:
+            self._output_dim = output_dim
 
     def _set_default_output_dim(self):
         """Let the internal nodes define their late output dimensions."""
@@ -277,8 +288,7 @@ class CloneLayer(Layer):
         """Stop training of the internal node."""
         if self.node.is_training():
             self.node.stop_training(*args, **kwargs)
-        if self.output_dim is None:
-            self.output_dim = self._get_output_dim_from_nodes()
+        self._update_output_dim()
 
     def _execute(self, x, *args, **kwargs):
         if args or kwargs:
-- 
2.43.0


From e5d9d508ca882a6ea5ebac694ec362975922fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 082/145] fix: JADE weighted the mixed cumulant matrices
 wrongly and did not recover the sources

---
 mdp/nodes/jade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/jade.py b/mdp/nodes/jade.py
index b4cee7f..fe0cbff 100644
--- a/mdp/nodes/jade.py
+++ b/mdp/nodes/jade.py
@@ -139,7 +139,7 @@ class JADENode(ICANode):
             Range += m
             for jm in range(im):
                 Xijm = Xim*X[:, jm]
-                Qij = ( sqrt(2) * mult(Xijm*X.T, X) / T
+                Qij = sqrt(2) * ( mult(Xijm*X.T, X) / T
                         - numx.outer(R[:,im], R[:,jm]) - numx.outer(R[:,jm],
                                                                     R[:,im]) )
                 CM[:, Range] = Qij
-- 
2.43.0


From 009d8cab1584b19adebf57d1f190d8a8b327ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 083/145] fix: FastICA returned a zero filter for a component
 that failed to converge

---
 mdp/nodes/ica_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 2526bdc..e55d7b6 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -643,7 +643,7 @@ class FastICANode(ICANode):
                         used_g = gFine
                         mu = muK * self.mu
                         QOld = numx.zeros(Q.shape, dtype)
-                        QoldF = numx.zeros(Q.shape, dtype)
+                        QOldF = numx.zeros(Q.shape, dtype)
                     else:
                         if verbose:
                             print('Convergence after %d steps\n' % round)
@@ -852,6 +852,9 @@ class FastICANode(ICANode):
                                 err = ('Too many failures to '
                                        'converge (%d). Giving up.' % nfail)
                                 raise mdp.NodeException(err)
+                            # try again from a new random vector
+                            guess[:, round] = utils.random_rot(comp, dtype)[0]
+                            round -= 1
                             break
                     else:
                         if i >= end_finetuning:
-- 
2.43.0


From 58b8330bdbc099ee5d19387600dab254f9aba473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 084/145] fix: FastICA overwrote the initial guess given by the
 user

---
 mdp/nodes/ica_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index e55d7b6..28299e8 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -548,7 +548,8 @@ class FastICANode(ICANode):
             guess = utils.random_rot(comp, dtype)
         else:
             # Use user supplied mixing matrix
-            guess = self._refcast(self.guess)
+            # (copy it, because it is modified below)
+            guess = numx.array(self._refcast(self.guess))
             if not self.whitened:
                 guess = mult(guess, self.white.get_recmatrix(transposed=1))
 
-- 
2.43.0


From d162b8190e0d169e26462957cb3c2aa92c7cbb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 085/145] fix: telescope mode failed if there are less samples
 than in the smallest chunk

---
 mdp/nodes/ica_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 28299e8..8f5044a 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -167,8 +167,9 @@ class ICANode(mdp.Cumulator, mdp.Node, ProjectMatrixMixin):
         if self.telescope:
             minpow = math.frexp(self.input_dim*10)[1]
             maxpow = int(old_div(numx.log(data.shape[0]),numx.log(2)))
-            for tel in range(minpow, maxpow+1):
-                index = 2**tel
+            # use all data at once if they are too few for a single chunk
+            chunks = [2**tel for tel in range(minpow, maxpow+1)]
+            for index in (chunks or [data.shape[0]]):
                 if verbose:
                     print("--\nUsing %d inputs" % index)
                 convergence = core(data[:index, :])
-- 
2.43.0


From 6b6de3fa6f939c2f9589bf8dcdf7c0f720a4aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 086/145] fix: ICA nodes announced a wrong output_dim if the
 whitening reduced the number of components

---
 mdp/nodes/ica_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 8f5044a..7bd2085 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -156,6 +156,9 @@ class ICANode(mdp.Cumulator, mdp.Node, ProjectMatrixMixin):
             white.train(self.data)
             self.data = white.execute(self.data)
             self.white = white
+            # the whitening node may have removed more components
+            # (e.g. white_parm = {'reduce': True})
+            self._output_dim = white.output_dim
 
         # if output_dim not set, set it now
         if self.output_dim is None:
-- 
2.43.0


From 3d0e84453f77009cf238d60d7711550ee66e5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 087/145] fix: TDSEP ignored white_parm; ISFA failed for
 reduced or single components and for given covariance matrices

---
 mdp/nodes/ica_nodes.py  |  2 +-
 mdp/nodes/isfa_nodes.py | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 7bd2085..e2617bb 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -1103,7 +1103,7 @@ class TDSEPNode(ISFANode, ProjectMatrixMixin):
                                         icaweights=None, sfaweights=None,
                                         whitened=whitened,
                                         white_comp=white_comp,
-                                        white_parm = None,
+                                        white_parm=white_parm,
                                         eps_contrast=limit,
                                         max_iter=max_iter, RP=None,
                                         verbose=verbose,
diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index b8cc69e..2896f45 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -197,7 +197,7 @@ class ISFANode(Node):
         else:
             if (len(icaweights) != len(lags)):
                 err = ("icaweights vector length is %d, "
-                       "should be %d" % (str(len(icaweights)), str(len(lags))))
+                       "should be %d" % (len(icaweights), len(lags)))
                 raise NodeException(err)
             self.icaweights = icaweights
 
@@ -207,7 +207,7 @@ class ISFANode(Node):
         else:
             if (len(sfaweights) != len(lags)):
                 err = ("sfaweights vector length is %d, "
-                       "should be %d" % (str(len(sfaweights)), str(len(lags))))
+                       "should be %d" % (len(sfaweights), len(lags)))
                 raise NodeException(err)
             self.sfaweights = sfaweights
 
@@ -551,14 +551,18 @@ class ISFANode(Node):
 
     def _fix_covs(self, covs=None):
         # fiv covariance matrices
+        proj = None
         if covs is None:
             covs = self.covs
             if not self.whitened:
                 white = self.white
                 white.stop_training()
                 proj = white.get_projmatrix(transposed=0)
-            else:
-                proj = None
+                # the whitening node may have removed more components
+                # (e.g. white_parm = {'reduce': True})
+                self._effective_input_dim = white.output_dim
+        if not isinstance(covs, MultipleCovarianceMatrices):
+            covs = list(covs)
             # fix and whiten the covariance matrices
             for i in range(len(self.lags)):
                 covs[i], avg, avg_dt, tlen = covs[i].fix(proj)
@@ -712,6 +716,8 @@ class ISFANode(Node):
 
         # initialize maximal improvement in a single sweep
         max_increase = -1
+        # there are no axes to rotate if there is only one component
+        contrast = prev_contrast
         # shuffle rotation order
         numx_rand.shuffle(self.rot_axis)
         # sweep through all axes combinations
@@ -783,6 +789,8 @@ class ISFANode(Node):
         # if output_dim were not set, set it to be the number of input comps
         if self.output_dim is None:
             self.output_dim = self._effective_input_dim
+        elif self.output_dim > self._effective_input_dim:
+            self._output_dim = self._effective_input_dim
         # adjust b_sfa and b_ica
         self._adjust_ica_sfa_coeff()
         # initialize all possible rotation axes
-- 
2.43.0


From 03ab1b2c6bdcec5c995fa9212e6cc5bf25c03456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 088/145] fix: ISFA stopped without rotating if the optimal
 contrast of a pair was exactly zero

---
 mdp/nodes/isfa_nodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/isfa_nodes.py b/mdp/nodes/isfa_nodes.py
index 2896f45..3282220 100644
--- a/mdp/nodes/isfa_nodes.py
+++ b/mdp/nodes/isfa_nodes.py
@@ -722,14 +722,15 @@ class ISFANode(Node):
         numx_rand.shuffle(self.rot_axis)
         # sweep through all axes combinations
         for (i, j) in self.rot_axis:
-            # get the angle that minimizes the contrast
-            # and the contrast value
-            angle, contrast = self._givens_angle(i, j, covs)
-            if contrast == 0:
+            if prev_contrast == 0:
                 # we hit numerical precision in case when b_sfa == 0
                 # we can only break things from here on, better quit!
                 max_increase = -1
+                contrast = prev_contrast
                 break
+            # get the angle that minimizes the contrast
+            # and the contrast value
+            angle, contrast = self._givens_angle(i, j, covs)
 
             # relative improvement in the contrast function
             relative_diff = old_div((prev_contrast-contrast),abs(prev_contrast))
-- 
2.43.0


From a4268fd0f7acb3c45470d9f568e80bfd3758dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 089/145] fix: symeig returned nan silently for a second matrix
 with a zero eigenvalue

---
 mdp/utils/_symeig.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/_symeig.py b/mdp/utils/_symeig.py
index f31a352..c8b9902 100644
--- a/mdp/utils/_symeig.py
+++ b/mdp/utils/_symeig.py
@@ -36,7 +36,7 @@ def _assert_eigenvalues_real(w, dtype):
     tol = numx.finfo(dtype.type).eps * 100
     if abs(w.imag).max() > tol:
         err = "Some eigenvalues have significant imaginary part: %s " % str(w)
-        raise mdp.SymeigException(err)
+        raise SymeigException(err)
     #if w.real.min() < 0:
     #    err = "Got negative eigenvalues: %s" % str(w)
     #    raise SymeigException(err)
@@ -133,6 +133,10 @@ numarray.linear_algebra.eigenvectors with an interface compatible with symeig.
                 # and cause hard to find issues later in user code outside mdp.
                 err = "Got negative eigenvalues: %s" % str(wB)
                 raise SymeigException(err)
+            if wB.real.min() == 0:
+                # this would cause inf and nan values in the results
+                err = "Got zero eigenvalues: %s" % str(wB)
+                raise SymeigException(err)
             ZB = old_div(ZB.real, numx.sqrt(wB.real))
             # transform A in the new basis: A = ZB^T * A * ZB
             A = mdp.utils.mult(mdp.utils.mult(ZB.T, A), ZB)
-- 
2.43.0


From f1b9d1e7e513cbd93fdb25744ce53aae041ae9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 090/145] fix: the regularized semidefinite solver did not
 regularize matrices that are not C-contiguous

---
 mdp/utils/symeig_semidefinite.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 195e062..df2bd2f 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -99,14 +99,14 @@ def symeig_semidefinite_reg(
     # apply some regularization...
     # The following is equivalent to B += 1e-12*np.eye(B.shape[0]),
     # but works more in place, i.e. saves memory consumption of np.eye().
-    Bflat = B.reshape(B.shape[0]*B.shape[1])
-    idx = numx.arange(0, len(Bflat), B.shape[0]+1)
-    diag_tmp = Bflat[idx]
-    Bflat[idx] += rank_threshold
-
-    eg, ev = mdp.utils.symeig(A, B, True, turbo, None, type, overwrite)
-
-    Bflat[idx] = diag_tmp
+    # (Indexing works on B itself for any memory layout.)
+    idx = numx.arange(B.shape[0])
+    diag_tmp = B[idx, idx]
+    B[idx, idx] += rank_threshold
+    try:
+        eg, ev = mdp.utils.symeig(A, B, True, turbo, None, type, overwrite)
+    finally:
+        B[idx, idx] = diag_tmp
     m = numx.absolute(numx.sqrt(numx.absolute(
             numx.sum(ev * mdp.utils.mult(B, ev), 0)))-1)
     off = 0
-- 
2.43.0


From c566e3b4f036634605886e4f7a209a6104763ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 091/145] fix: the SVD semidefinite solver returned wrong pairs
 for indefinite first matrices

---
 mdp/utils/symeig_semidefinite.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index df2bd2f..1049a58 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -389,7 +389,14 @@ def symeig_semidefinite_svd(
         s = s[:-off]
         U = U[:, :-off]
     X1 = mult(U, numx.diag(1.0 / s ** 0.5))
-    X2, _, _ = mdp.utils.svd(mult(X1.T, mult(dcov_mtx, X1)))
+    M = mult(X1.T, mult(dcov_mtx, X1))
+    # For positive semidefinite M the SVD yields the eigenvectors. Otherwise
+    # shift the eigenvalues to be non-negative (using Gershgorin's bound).
+    diag = M.diagonal()
+    shift = (abs(M).sum(axis=0) - abs(diag) - diag).max()
+    if shift > 0:
+        M = M + shift * numx.eye(len(M), dtype=M.dtype)
+    X2, _, _ = mdp.utils.svd(M)
     E = mult(X1, X2)
     e = mult(E.T, mult(dcov_mtx, E)).diagonal()
 
-- 
2.43.0


From 704cd497bf5c77f1071d93eeaad73041faa3c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 092/145] fix: recursive expansion nodes failed with input_dim
 given, used x instead of the first function for degree 1 and had a wrong
 shape for degree 0

---
 mdp/nodes/recursive_expansion_nodes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 8558069..ef4005e 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -500,11 +500,12 @@ class RecursiveExpansionNode(_ExpansionNode):
             Default is None.
         :type dtype: numpy.dtype or str
         """
+        # needed by expanded_dim, which is used as soon as input_dim is set
+        self.degree = degree
+        self.with0 = with0
         super(RecursiveExpansionNode, self).__init__(input_dim, dtype)
 
-        self.degree = degree
         self.check = check
-        self.with0 = with0
         # if in dictionary
         if recf in recfs:
                 # intialises the elements not based on recursion formula
@@ -586,13 +587,15 @@ class RecursiveExpansionNode(_ExpansionNode):
                     pos += 1
         # in case input is unreasonable
         elif deg == 1:
-            result[:, 0] = 1
-            for i in range(num_vars):
-                result[:, i+1] = x[:, i]
-        elif self.with0:
-            return np.ones((num_samples, num_vars))
+            # the init functions may fill in the second order as well
+            first = np.empty([num_samples, 3], dtype=self.dtype)
+            for cur_var in range(num_vars):
+                first[:, 0] = 1.
+                self.r_init(first, x, 1, cur_var)
+                result[:, cur_var+1] = first[:, 1]
         else:
-            return None
+            # only the zero-th order element, if it is requested
+            return (result if _with0 else result[:, 1:])
 
         todoList = []
         for i in range(1, num_vars):
-- 
2.43.0


From 92ac0ce4d7d1e1a5df5f1a788426256f1553bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 093/145] fix: integer hints and integer RBF centers and sizes
 truncated the inversion and the inverse covariances

---
 mdp/nodes/expansion_nodes.py | 9 +++++++--
 mdp/utils/routines.py        | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/expansion_nodes.py b/mdp/nodes/expansion_nodes.py
index d492fc0..8200237 100644
--- a/mdp/nodes/expansion_nodes.py
+++ b/mdp/nodes/expansion_nodes.py
@@ -209,14 +209,19 @@ class RBFExpansionNode(mdp.Node):
 
     def _init_RBF(self, centers, sizes):
         # initialize the centers of the RBFs
-        centers = numx.array(centers, self.dtype)
+        # (integer centers and sizes would truncate the inverse covariances)
+        dtype = self.dtype
+        if dtype is None:
+            dtype = numx.result_type(numx.asarray(centers).dtype,
+                                     numx.asarray(sizes).dtype, numx.float32)
+        centers = numx.array(centers, dtype)
 
         # define input/output dim
         self.set_input_dim(centers.shape[1])
         self.set_output_dim(centers.shape[0])
 
         # multiply sizes if necessary
-        sizes = numx.array(sizes, self.dtype)
+        sizes = numx.array(sizes, dtype)
         if sizes.ndim==0 or sizes.ndim==2:
             sizes = numx.array([sizes]*self._output_dim)
         else:
diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 2275cd1..e30812e 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -557,6 +557,9 @@ def invert_exp_funcs2(exp_x_noisy, dim_x, exp_funcs, use_hint=False, k=0.0):
         app_x = exp_x_noisy[:,0:dim_x].copy()
     else:
         app_x = numx.random.normal(size=(num_samples,dim_x))
+    if app_x.dtype.kind not in 'fc':
+        # an integer array would truncate the approximation
+        app_x = app_x.astype(numx.float64)
 
     for row in range(num_samples):
         plsq = scipy.optimize.leastsq(residuals, app_x[row],
-- 
2.43.0


From 872e22387818de026212e89631336b566e266606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 094/145] fix: AdaptiveCutoffNode's upper fraction was off by
 one and TimeDelayNode failed for delays longer than the data

---
 mdp/nodes/misc_nodes.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 1a8f3f2..7c76b90 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -434,7 +434,9 @@ class TimeDelayNode(TimeFramesNode):
         y = numx.zeros((rows, cols), dtype=self.dtype)
 
         for frame in range(self.time_frames):
-            y[gap*frame:, frame*n:(frame+1)*n] = x[:rows-gap*frame, :]
+            # no sample is old enough for delays longer than the data
+            tf = max(rows-gap*frame, 0)
+            y[rows-tf:, frame*n:(frame+1)*n] = x[:tf, :]
 
         return y
 
@@ -1005,12 +1007,14 @@ class AdaptiveCutoffNode(HistogramNode):
             sorted_data = self.data_hist.copy()
             sorted_data.sort(axis=0)
             if self.lower_cutoff_fraction:
-                index = self.lower_cutoff_fraction * len(sorted_data)
-                self.lower_bounds = sorted_data[int(index)]
+                index = int(self.lower_cutoff_fraction * len(sorted_data))
+                index = min(index, len(sorted_data)-1)
+                self.lower_bounds = sorted_data[index]
             if self.upper_cutoff_fraction:
-                index = (len(sorted_data) -
-                         self.upper_cutoff_fraction * len(sorted_data))
-                self.upper_bounds = sorted_data[int(index)]
+                # counted from the largest value, as above from the smallest
+                index = int(self.upper_cutoff_fraction * len(sorted_data))
+                index = min(index, len(sorted_data)-1)
+                self.upper_bounds = sorted_data[-1-index]
         super(AdaptiveCutoffNode, self)._stop_training()
 
     def _execute(self, x):
-- 
2.43.0


From 4e8945f3a8da0712baaaf57e636796e4a20c99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 095/145] fix: SimpleMarkovClassifier iterated over the
 characters of a single string label

---
 mdp/nodes/classifier_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 1436010..aac1c10 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -180,7 +180,10 @@ class SimpleMarkovClassifier(ClassifierNode):
             the same class.
         """
         # if labels is a number, all x's belong to the same class
-        for xi, labeli in mdp.utils.izip_stretched(x, labels):
+        if not isinstance(labels, (list, tuple, numx.ndarray)):
+            # a single string label must not be iterated
+            labels = [labels] * x.shape[0]
+        for xi, labeli in zip(x, labels):
             self._learn(xi, labeli)
 
     def _learn(self, feature, label):
-- 
2.43.0


From 7a49fe0e9b0f1eca265ff16920ef936de4c34c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 096/145] fix: KMeansClassifier was unusable when max_iter was
 exhausted

---
 mdp/nodes/classifier_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index aac1c10..118cfc8 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -435,9 +435,9 @@ class KMeansClassifier(ClassifierNode):
                                         for idx, c in enumerate(new_centroids)])
             # check if we are stable
             if numx.all(new_centroids == centroids):
-                self._centroids = centroids
-                return
+                break
             centroids = new_centroids
+        self._centroids = centroids
 
     def _nearest_centroid_idx(self, data, centroids):
         dists = numx.array([numx.linalg.norm(data - c) for c in centroids])
-- 
2.43.0


From d7ccc1ea6e887529adb688cf4cbbe2ea18899677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 097/145] fix: GaussianClassifier accepted undefined
 covariances and returned nan for points far from all classes

---
 mdp/nodes/classifier_nodes.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 118cfc8..536eab2 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -537,7 +537,8 @@ class GaussianClassifier(ClassifierNode):
             cov, mean, p = self._cov_objs[lbl].fix()
             nitems += p
             self._sqrt_def_covs.append(numx.sqrt(numx_linalg.det(cov)))
-            if self._sqrt_def_covs[-1] == 0.0:
+            # also true for undefined covariances (e.g. of a single sample)
+            if not self._sqrt_def_covs[-1] > 0.0:
                 err = ("The covariance matrix is singular for at least "
                        "one class.")
                 raise mdp.NodeException(err)
@@ -550,15 +551,15 @@ class GaussianClassifier(ClassifierNode):
 
         del self._cov_objs
 
-    def _gaussian_prob(self, x, lbl_idx):
-        """Return the probability of the data points x with respect to a
-        gaussian.
+    def _gaussian_log_prob(self, x, lbl_idx):
+        """Return the logarithm of the probability of the data points x with
+        respect to a gaussian.
         
         :param x: Input data
         :type x: numpy.ndarray
         :param lbl_idx: 
-        :return: The probability of the data points x with respect to a
-            gaussian
+        :return: The logarithm of the probability of the data points x with
+            respect to a gaussian
         :rtype: float
         """
         x = self._refcast(x)
@@ -570,10 +571,10 @@ class GaussianClassifier(ClassifierNode):
         x_mn = x - self.means[lbl_idx][numx.newaxis, :]
         # exponent
         exponent = -0.5 * (utils.mult(x_mn, invS)*x_mn).sum(axis=1)
-        # constant
-        constant = old_div((2.*numx.pi)**(old_div(-dim,2.)), sqrt_detS)
-        # probability
-        return constant * numx.exp(exponent)
+        # logarithm of the constant
+        constant = -0.5*dim*numx.log(2.*numx.pi) - numx.log(sqrt_detS)
+        # logarithm of the probability
+        return constant + exponent
 
     def class_probabilities(self, x):
         """Return the posterior probability of each class given the input.
@@ -589,8 +590,13 @@ class GaussianClassifier(ClassifierNode):
         tmp_prob = numx.zeros((x.shape[0], len(self.labels)),
                               dtype=self.dtype)
         for i in range(len(self.labels)):
-            tmp_prob[:, i] = self._gaussian_prob(x, i)
-            tmp_prob[:, i] *= self.p[i]
+            tmp_prob[:, i] = self._gaussian_log_prob(x, i)
+            tmp_prob[:, i] += numx.log(self.p[i])
+
+        # far from all classes the probabilities would all vanish, only
+        # their ratios are needed
+        tmp_prob -= tmp_prob.max(axis=1)[:, numx.newaxis]
+        tmp_prob = numx.exp(tmp_prob)
 
         # normalize to probability 1
         # (not necessary, but sometimes useful)
-- 
2.43.0


From faafbb62b5e8a4db4ec1f981ccdf66c9d50e1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 098/145] fix: OnlineTimeDiffNode returned extra rows after a
 first block of samples and ignored the samples of the block in batch mode

---
 mdp/nodes/stats_nodes_online.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 9c7497a..2da6ca1 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -169,13 +169,14 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
 
     def _check_params(self, x):
         if self.x_prev is None:
-            self.x_prev = mdp.numx.zeros(x.shape, dtype=self.dtype)
-            self.x_cur = mdp.numx.zeros(x.shape, dtype=self.dtype)
+            # the buffers hold a single sample, x can be a block of samples
+            self.x_prev = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
+            self.x_cur = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
 
     def _train(self, x):
         """Update the buffer."""
-        self.x_prev = self.x_cur
         # copy: the caller may overwrite the array after this call
+        self.x_prev = self.x_cur if x.shape[0] == 1 else x[-2:-1].copy()
         self.x_cur = x[-1:].copy()
 
     @staticmethod
-- 
2.43.0


From 51a6d6d41278dbbaffb9db514965397b38cc1fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 099/145] fix: IncSFANode trained its mean and whitening twice
 on the first data and ignored the derivatives of all samples of the first
 chunk or of a chunk that starts an episode

---
 mdp/nodes/sfa_nodes_online.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 2757d43..8280144 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -146,9 +146,9 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-                x = self.avgnode.execute(x)
+                x = self.avgnode._execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
-            x = self.whiteningnode.execute(x)
+            x = self.whiteningnode._execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
             self._pseudo_check_fn(self.mcanode, x)
             self._init_sf = mult(self.whiteningnode.init_eigen_vectors, self.mcanode.init_eigen_vectors)
@@ -158,8 +158,6 @@ class IncSFANode(mdp.OnlineNode):
 
         if self._new_episode is None:  # Set new_episode to True for the very first sample
             self._new_episode = True
-        elif self._new_episode:  # Set new_episode to False for the subsequent samples
-            self._new_episode = False
 
     @staticmethod
     def _pseudo_check_fn(node, x):
@@ -171,12 +169,15 @@ class IncSFANode(mdp.OnlineNode):
         node._train(x)
         node._train_iteration += x.shape[0]
 
-    def _check_train_args(self, x, *args, **kwargs):
+    def _check_train_args(self, x, new_episode=None):
         if self.training_type == 'batch':
             # check that we have at least 2 time samples for batch training
             if x.shape[0] < 2:
                 raise mdp.TrainingException(
                     "Need at least 2 time samples for 'batch' training type (%d given)" % (x.shape[0]))
+        elif new_episode is not None:
+            # an episode starts with the first sample of x
+            self._new_episode = new_episode
 
     def _step_train(self, x):
         if self.remove_mean:
@@ -214,9 +215,10 @@ class IncSFANode(mdp.OnlineNode):
                 sf_change = self._step_train(x[i:i + 1])
                 self._new_episode = False
         else:
-            if new_episode is not None:
-                self._new_episode = new_episode
+            # new_episode was already stored in _check_train_args
             sf_change = self._step_train(x)
+            # the subsequent samples belong to the same episode
+            self._new_episode = False
 
         self.wv = self.whiteningnode.v
         self.sf_change = sf_change
-- 
2.43.0


From f69da25cde40489dc16a448a9b69536e5198e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 100/145] fix: CCIPCA nodes accepted the batch training type,
 with which training always failed

---
 mdp/nodes/pca_nodes_online.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index 0f248de..5845855 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -125,6 +125,9 @@ class CCIPCANode(mdp.OnlineNode):
             # initial eigen vectors were given to the constructor
             self.init_eigen_vectors = self._refcast(self._init_v)
 
+    def _get_supported_training_types(self):
+        return ['incremental']
+
     def _amnesic(self, n):
         """Return amnesic weights.
         
-- 
2.43.0


From 155f8e50d06e2decb5c25fb7e70e08acc61b9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 101/145] fix: OnlineFlow trained a terminal Node only with the
 first data array, did not support several training phases of it and ended the
 training of a terminal OnlineFlowNode

---
 mdp/linear_flows_online.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index d84cdc4..2d908f9 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -100,7 +100,8 @@ class OnlineFlow(mdp.Flow):
         _train_args_needed_list = [bool(len(train_arg_keys)) for train_arg_keys in _train_arg_keys_list]
         return _train_arg_keys_list, _train_args_needed_list
 
-    def _train_nodes(self, data_iterables):
+    def _train_nodes(self, data_iterables, train_all=True):
+        # if train_all is False then only the terminal node is trained
         empty_iterator = True
         for x in data_iterables:
             if (type(x) is tuple) or (type(x) is list):
@@ -131,14 +132,16 @@ class OnlineFlow(mdp.Flow):
                                    "List of required argument keys: " +
                                    str(self._train_arg_keys_list[nodenr]))
                             raise OnlineFlowException(err)
-                        if node.is_training():
+                        if node.is_training() and (train_all or node is self.flow[-1]):
                             node.train(x, *arg)
                     else:
-                        if node.is_training():
+                        if node.is_training() and (train_all or node is self.flow[-1]):
                             node.train(x)
 
-                    # input for the next node
-                    x = node.execute(x)
+                    # input for the next node (executing a terminal trainable
+                    # Node would end its training)
+                    if isinstance(node, mdp.OnlineNode) or not node.is_training():
+                        x = node.execute(x)
                 except FlowExceptionCR as e:
                     # this exception was already propagated,
                     # probably during the execution  of a node upstream in the flow
@@ -165,9 +168,11 @@ class OnlineFlow(mdp.Flow):
                            "is empty.")
                 raise FlowException(err_str)
         self._stop_training_hook()
-        if self.flow[-1].get_remaining_train_phase() > 1:
+        if not isinstance(self.flow[-1], mdp.OnlineNode) and self.flow[-1].get_remaining_train_phase() > 1:
             # close the previous training phase
             self.flow[-1].stop_training()
+            # train the next phase of the terminal node
+            self._train_nodes(data_iterables, train_all=False)
 
     def _train_check_iterables(self, data_iterables):
         """Return the data iterable after some checks and sanitizing.
-- 
2.43.0


From a6a2863f12359ddeac4912631992282da2c2213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 102/145] fix: OnlineFlowNode and CircularOnlineFlowNode could
 not be trained with trained nodes inside, could not be stopped if the first
 node is not trainable and raised IndexError without trainable nodes

---
 mdp/hinet/flownode_online.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 1eb5067..d57281c 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -107,7 +107,7 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
@@ -115,10 +115,14 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
         trainable_nodes_nrs = []  # list of trainable node ids
         trainable_nodes = []  # list of trainable nodes
         for i_node, node in enumerate(self._flow):
-            if node.is_trainable():
+            # nodes that were already trained are not trainable any more
+            if node.is_trainable() and len(node._train_seq) > self._pretrained_phase[i_node]:
                 trainable_nodes_nrs.append(i_node)
                 trainable_nodes.append(node)
 
+        if not trainable_nodes:
+            return []
+
         train_seq = []
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
@@ -251,7 +255,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
@@ -283,10 +287,14 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
         trainable_nodes_nrs = []  # list of trainable node ids
         trainable_nodes = []  # list of trainable nodes
         for i_node, node in enumerate(self._flow):
-            if node.is_trainable():
+            # nodes that were already trained are not trainable any more
+            if node.is_trainable() and len(node._train_seq) > self._pretrained_phase[i_node]:
                 trainable_nodes_nrs.append(i_node)
                 trainable_nodes.append(node)
 
+        if not trainable_nodes:
+            return []
+
         train_seq = []
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
-- 
2.43.0


From bda4b24c20c711e6408acccdf845341a5c3d94b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 103/145] fix: the copy of a CircularOnlineFlowNode held a flow
 that could not be rotated

---
 mdp/hinet/flownode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index da39a76..6a48c00 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -216,7 +216,8 @@ class FlowNode(mdp.Node):
             new_flownode = _copy.deepcopy(self)
         finally:
             self._flow.flow = old_nodes
-        new_flownode._flow.flow = new_nodes
+        # (the container can also be a deque)
+        new_flownode._flow.flow = type(old_nodes)(new_nodes)
         return new_flownode
 
     ## container methods ##
-- 
2.43.0


From 7cdd9447d5ae7b1dc4989cf6e1dd8b7f222b34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 104/145] fix: the training of an OnlineLayer bypassed
 OnlineNode.train (no iterations counted, no sample by sample training)

---
 mdp/signal_node.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 4fca9fd..68c9c2c 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -218,9 +218,13 @@ class NodeMetaclass(type):
         :param cls: Class to which the wrapper method will be added, this is
             used for the super call.
         """
-        src = ("lambda %(signature)s: super(_wrapper_class_, _wrapper_class_)."
-               "%(name)s(%(signature)s)" % wrapper_infodict)
-        wrapped_func = eval(src, {"_wrapper_class_": cls})
+        src = ("lambda %(signature)s: _get_method_(_wrapper_class_, "
+               "%(self_name)s, '%(name)s')(%(signature)s)"
+               % dict(wrapper_infodict,
+                      self_name=wrapper_infodict['argnames'][0]))
+        wrapped_func = eval(
+            src, {"_wrapper_class_": cls,
+                  "_get_method_": NodeMetaclass._get_super_method})
         wrapped_func.__name__ = wrapper_infodict['name']
         wrapped_func.__doc__ = wrapper_infodict['doc']
         wrapped_func.__module__ = wrapper_infodict['module']
@@ -230,9 +234,27 @@ class NodeMetaclass(type):
 
 
     @staticmethod
-    def _get_undecorated_method(cls, name):
+    def _get_mro(cls, instance):
+        """Return the classes that follow cls for this instance.
+
+        With multiple inheritance these are not only the bases of cls.
+        """
+        mro = type(instance).__mro__
+        if cls not in mro:
+            mro = cls.__mro__
+        return mro[mro.index(cls)+1:]
+
+    @staticmethod
+    def _get_super_method(cls, instance, name):
+        """Return the method inherited by cls."""
+        for base in NodeMetaclass._get_mro(cls, instance):
+            if name in base.__dict__:
+                return base.__dict__[name]
+
+    @staticmethod
+    def _get_undecorated_method(cls, instance, name):
         """Return the method inherited by cls, skipping all wrappers."""
-        for base in cls.__mro__[1:]:
+        for base in NodeMetaclass._get_mro(cls, instance):
             method = base.__dict__.get(name)
             if method is not None and not hasattr(method, '_undecorated_'):
                 return method
@@ -250,7 +272,9 @@ class NodeMetaclass(type):
             used for the lookup.
         """
         src = ("lambda %(signature)s: _get_method_(_wrapper_class_, "
-               "'%(name)s')(%(signature)s)" % wrapper_infodict)
+               "%(self_name)s, '%(name)s')(%(signature)s)"
+               % dict(wrapper_infodict,
+                      self_name=wrapper_infodict['argnames'][0]))
         wrapped_func = eval(
             src, {"_wrapper_class_": cls,
                   "_get_method_": NodeMetaclass._get_undecorated_method})
-- 
2.43.0


From b70b12038eace5b71c41c64f35187c44e81f15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 105/145] fix: the gradient of a clone layer that comes first
 ignored the other parts of the input, and same-input layers and switchboards
 inside layers had no gradient

---
 bimdp/nodes/gradient.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index 47c1493..d951d62 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -6,6 +6,7 @@ from builtins import range
 
 import mdp
 import bimdp
+from bimdp.hinet.bilayer import CloneBiLayer
 np = mdp.numx
 
 class NotDifferentiableException(mdp.NodeException):
@@ -146,6 +147,27 @@ def _layer_grad(self, x):
                 node._get_grad(x[:, in_start:in_stop])
     return grad
 
+@mdp.extension_method("gradient", mdp.hinet.SameInputLayer, "_get_grad")
+def _same_input_layer_grad(self, x):
+    # all the nodes get the full input
+    return np.concatenate([node._get_grad(x) for node in self.nodes], axis=1)
+
+@mdp.extension_method("gradient", CloneBiLayer, "_execute")
+def _clonebilayer_execute(self, x, msg=None):
+    if (msg and msg.get("method") == "gradient" and msg.get("grad") is None
+            and x is not None):
+        # the internal nodes only see their own part of the input, so the
+        # gradient with respect to the full input has to be started here
+        msg = dict(msg)
+        msg["grad"] = np.tile(np.eye(self.input_dim), (len(x), 1, 1))
+    return self._non_extension__execute(x, msg)
+
+@mdp.extension_method("gradient", mdp.hinet.Switchboard, "_get_grad")
+def _switchboard_grad(self, x):
+    grad = np.zeros((len(x), self.output_dim, self.input_dim))
+    grad[:, np.arange(self.output_dim), self.connections] = 1.0
+    return grad
+
 # this is an optimized implementation, the original implementation is
 # used for reference in the unittest
 @mdp.extension_method("gradient", mdp.hinet.Switchboard, "_gradient")
-- 
2.43.0


From 851c6b120792a0b4d4eba34ecc2089ccf32aeefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 106/145] fix: a node with an edge to itself could not be
 removed from a graph

---
 mdp/graph/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 7f66e5e..57c68e0 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -152,8 +152,11 @@ class Graph(object):
             errstr = 'This node is not part of the graph (%s)' % node
             raise GraphException(errstr)
 
-        # remove all edges containing this node
-        for edge in node.get_edges():
+        # remove all edges containing this node (an edge from the node to
+        # itself is gone after the first loop)
+        for edge in node.get_edges_in():
+            self.remove_edge(edge)
+        for edge in node.get_edges_out():
             self.remove_edge(edge)
         # remove the node
         self.nodes.remove(node)
-- 
2.43.0


From 711801a1bca7049a1bc8bce3f1ec6bc74041c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 107/145] fix: dfs and undirected_dfs returned orders that no
 depth first search can produce

---
 mdp/graph/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 57c68e0..e28e5b8 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -290,7 +290,7 @@ class Graph(object):
         # result list containing the nodes in Depth-First order
         dfs_list = []
         # keep track of all already visited nodes
-        visited_nodes = { root: None }
+        visited_nodes = {}
 
         # stack (lifo) list
         dfs_stack = []
@@ -299,6 +299,10 @@ class Graph(object):
         while len(dfs_stack):
             # consider the next node on the stack
             node = dfs_stack.pop()
+            # it might have been reached by a deeper path in the meantime
+            if node in visited_nodes:
+                continue
+            visited_nodes[node] = None
             dfs_list.append(node)
             # visit the node
             if visit_fct is not None:
@@ -306,7 +310,6 @@ class Graph(object):
             # add all sons to the stack (if not already visited)
             for son in neighbors_fct(node):
                 if son not in visited_nodes:
-                    visited_nodes[son] = None
                     dfs_stack.append(son)
 
         return dfs_list
-- 
2.43.0


From 9e0b7054a6871a07fc1b1b80b06fe01f4210fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 108/145] fix: NeuralGasNode kept expired edges because the
 edge list was changed while iterating over it

---
 mdp/nodes/neural_gas_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index 306cd13..d00276f 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -554,6 +554,7 @@ class NeuralGasNode(GrowingNeuralGasNode):
         :type edges: 
         """
         g = self.graph
-        for edge in self.graph.edges:
+        # iterate over a copy, because edges are removed on the way
+        for edge in g.edges[:]:
             if edge.data.age > max_age:
                 g.remove_edge(edge)
-- 
2.43.0


From 7fc3bf486265c31685de8b9354d89ad391632696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 109/145] fix: copying or saving graphs (and growing neural gas
 nodes) with a few hundred linked nodes exceeded the recursion limit

---
 mdp/graph/graph.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index e28e5b8..0dcf9b0 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -53,6 +53,20 @@ class GraphNode(object):
         # edges out
         self.eout = []
 
+    # The graph restores the edge lists of its nodes. Copying or pickling them
+    # with the node would follow the edges recursively through the whole graph
+    # and exceed the recursion limit for large graphs.
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        del state['ein']
+        del state['eout']
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.__dict__.setdefault('ein', [])
+        self.__dict__.setdefault('eout', [])
+
     def add_edge_in(self, edge):
         self.ein.append(edge)
 
@@ -140,6 +154,16 @@ class Graph(object):
         # list of edges
         self.edges = []
 
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        # link the nodes again, see GraphNode.__getstate__
+        for node in self.nodes:
+            node.ein = []
+            node.eout = []
+        for edge in self.edges:
+            edge.head.add_edge_out(edge)
+            edge.tail.add_edge_in(edge)
+
     # node functions
     def add_node(self, data=None):
         node = GraphNode(data=data)
-- 
2.43.0


From 5c5d1c8cc0f0fecf4f8dda9fe727171feb016fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 110/145] fix: QuadraticForm.get_extrema failed for singular
 matrices or a small norm and returned wrong extrema for degenerate
 eigenvalues and in the hard case

---
 mdp/utils/quad_forms.py | 46 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index d1ee0bf..9402830 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -6,9 +6,6 @@ from .routines import refcast
 numx = mdp.numx
 numx_linalg = mdp.numx_linalg
 
-# 10 times machine eps
-epsilon = 10*numx.finfo(numx.double).eps
-
 class QuadraticFormException(mdp.MDPException):
     pass
 
@@ -50,12 +47,9 @@ class QuadraticForm(object):
                mdp.utils.mult(x, self.f) + self.c)
 
     def _eig_sort(self, x):
-        E, W = numx_linalg.eig(x)
-        E, W = E.real, W.real
-        idx = E.argsort()
-        E = E.take(idx)
-        W = W.take(idx, axis=1)
-        return E, W
+        # the matrices are symmetric: the eigenvalues are returned in ascending
+        # order, with orthonormal eigenvectors also if they are degenerate
+        return numx_linalg.eigh(x)
 
     def get_extrema(self, norm, tol = 1.E-4):
         """
@@ -72,14 +66,16 @@ class QuadraticForm(object):
         else:
             H_definite_positive, H_definite_negative = False, False
             E, W = self._eig_sort(H)
-            if E[0] >= 0:
+            if E[0] > 0:
                 # H is positive definite
                 H_definite_positive = True
-            elif E[-1] <= 0:
+            elif E[-1] < 0:
                 # H is negative definite
                 H_definite_negative = True
 
-            x0 = mdp.numx_linalg.solve(-H, f)
+            if H_definite_positive or H_definite_negative:
+                # solution of Hx + f = 0
+                x0 = -mdp.utils.mult(W, mdp.utils.mult(W.T, f)/E)
             if H_definite_positive and mdp.utils.norm2(x0) <= norm:
                 xmin = x0
                 # x0 is a minimum
@@ -103,18 +99,20 @@ class QuadraticForm(object):
             x0 = mdp.utils.refcast(x0, self.dtype)
             f = mdp.utils.mult(H, x0)+ f
             # c = 0.5*x0'*H*x0 + f'*x0 + c -> do we need it?
+        # 10 times machine eps
+        epsilon = 10*numx.finfo(self.dtype).eps
         mu, V = self._eig_sort(H)
         alpha = mdp.utils.mult(V.T, f).reshape((H.shape[0],))
-        # v_i = alpha_i * v_i (alpha is a raw_vector)
-        V = V*alpha
         # left bound for lambda
         ll = mu[-1] # eigenvalue's maximum
         # right bound for lambda
         lr = old_div(mdp.utils.norm2(f),norm) + ll
         # search by bisection until norm(x)**2 = norm**2
         norm_2 = norm**2
-        norm_x_2 = 0
-        while abs(norm_x_2-norm_2) > tol and old_div((lr-ll),lr) > epsilon:
+        # the tolerance must be meaningful for a small norm, too
+        tol = tol*min(norm_2, 1.)
+        min_interval = epsilon*lr
+        while True:
             # bisection of the lambda-interval
             lambd = 0.5*(lr-ll)+ll
             # eigenvalues of (lambda*Id - H)^-1
@@ -126,8 +124,20 @@ class QuadraticForm(object):
                 ll = lambd
             else:
                 lr = lambd
-        x = (V*beta).sum(axis=1)
-        if x0:
+            if abs(norm_x_2-norm_2) <= tol or lr-ll <= min_interval:
+                break
+        coeff = alpha*beta
+        if abs(norm_x_2-norm_2) > tol:
+            # lambda is equal to the largest eigenvalue (up to rounding), the
+            # component in the direction of its eigenvector is then only
+            # determined by the norm
+            top_2 = norm_2 - (coeff[:-1]**2).sum()
+            if top_2 > 0:
+                coeff[-1] = numx.copysign(numx.sqrt(top_2), coeff[-1])
+            else:
+                coeff *= norm/numx.sqrt(norm_x_2)
+        x = mdp.utils.mult(V, coeff)
+        if x0 is not None:
             x = x + x0
         return x
 
-- 
2.43.0


From aeac81ce45b1db86c839eea921d41b5a0a126226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 111/145] fix: complex matrices of symrand did not have the
 requested eigenvalues

---
 mdp/utils/routines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index e30812e..80e5936 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -170,8 +170,9 @@ def symrand(dim_or_eigv, dtype="d"):
     # to avoid roundoff errors, symmetrize the matrix (again)
     h = 0.5*(h.T+h)
     if dtype in ('D', 'F', 'G'):
-        h2 = symrand(dim_or_eigv)
-        h = h + 1j*(numx.triu(h2)-numx.tril(h2))
+        # random phases make the matrix complex without changing the eigenvalues
+        phases = numx.exp(2j*numx.pi*numx_rand.random(dim))
+        h = mult_diag(phases, mult_diag(phases.conj(), h, left=False))
     return refcast(h, dtype)
 
 
-- 
2.43.0


From 416d13be579fe91814837baff66f5a72c8701b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 112/145] fix: weighted_choice returned None for integer
 weights (floor division)

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 80e5936..0eaf967 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -444,7 +444,7 @@ def weighted_choice(a_dict, normalize=True):
         d = a_dict.copy()
         s = sum(d.values())
         for key, val in list(d.items()):
-            d[key] = old_div(d[key], s)
+            d[key] = d[key]/s
     else:
         d = a_dict
     rand_num = random.random()
-- 
2.43.0


From 591512c7aaf269abd248abdb60cc1c027e349ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 113/145] fix: gabor centred the wavelet wrongly in arrays that
 are not square

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 0eaf967..3caefce 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -492,7 +492,7 @@ def gabor(size, alpha, phi, freq, sgm, x0=None, res=1, ampl=1.):
 
     # init
     w, h = size
-    if x0 is None: x0 = (w//2, h//2)
+    if x0 is None: x0 = (h//2, w//2)
     y0, x0 = x0
 
     # some useful quantities
-- 
2.43.0


From 1971e5f7f39bfc35b8d1fff38d90b2087ba79588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 114/145] fix: nongeneral_svd returned the conjugates of the
 eigenvectors of complex matrices

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 3caefce..cdbe571 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -304,7 +304,7 @@ def nongeneral_svd(A, range=None, **kwargs):
     # sort eigenvalues and corresponding eigenvectors
     idx = w.argsort()
     w = w.take(idx)
-    Z = Z.take(idx, axis=0).T
+    Z = hermitian(Z.take(idx, axis=0))
     if range is not None:
         lo, hi = range
         Z = Z[:, lo-1:hi]
-- 
2.43.0


From 499507245ad02e30a4c92cbff8897fb3073d716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 115/145] fix: progressinfo failed for empty sequences and for
 the instantaneous speed without progress

---
 mdp/utils/progress_bar.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mdp/utils/progress_bar.py b/mdp/utils/progress_bar.py
index b113074..9bdfd66 100644
--- a/mdp/utils/progress_bar.py
+++ b/mdp/utils/progress_bar.py
@@ -71,12 +71,14 @@ def _progress(percent, last, style, layout):
             # Elapsed
             elapsed = now - layout['t_start']
             # Estimated total time
-            if layout['speed'] == 'mean':
+            progress = percent - layout.get('last_percent', 0.)
+            # the instantaneous speed needs some progress since the last step
+            if layout['speed'] == 'mean' or progress == 0:
                 e_t_a = old_div(elapsed,percent) - elapsed
             else:
                 # instantaneous speed
-                progress = percent-_progress.last_percent
-                e_t_a = (1 - percent)/progress*(now-_progress.last_time)
+                last_time = layout.get('last_time', layout['t_start'])
+                e_t_a = (1 - percent)/progress*(now-last_time)
             # build the time box
             tbox = ''.join([fmt_time(elapsed, layout['delimiters']),
                             layout['separator'],
@@ -95,8 +97,8 @@ def _progress(percent, last, style, layout):
                            ' ',
                            percent_s])
 
-        _progress.last_percent = percent
-        _progress.last_time = now
+        layout['last_percent'] = percent
+        layout['last_time'] = now
 
     # print it only if something changed from last time
     if box != last:
@@ -248,7 +250,7 @@ def progressinfo(sequence, length = None, style = 'bar', custom = None):
         yield value
     else:
         # we need this for the 100% notice
-        if iterate_on_items:
+        if iterate_on_items or not length:
             last = _progress(1., last, style, layout)
         else:
             last = _progress(old_div((count+1),length), last, style, layout)
-- 
2.43.0


From 659d0b1202cf51ae300fe3205cd378017f949a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 116/145] fix: the TemporaryDirectory backport deleted the
 contents of linked directories

---
 mdp/utils/temporarydir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/temporarydir.py b/mdp/utils/temporarydir.py
index ac2a082..201e757 100644
--- a/mdp/utils/temporarydir.py
+++ b/mdp/utils/temporarydir.py
@@ -62,6 +62,7 @@ class TemporaryDirectory(object):
     _listdir = staticmethod(_os.listdir)
     _path_join = staticmethod(_os.path.join)
     _isdir = staticmethod(_os.path.isdir)
+    _islink = staticmethod(_os.path.islink)
     _remove = staticmethod(_os.remove)
     _rmdir = staticmethod(_os.rmdir)
     _os_error = _os.error
@@ -72,7 +73,9 @@ class TemporaryDirectory(object):
         for name in self._listdir(path):
             fullname = self._path_join(path, name)
             try:
-                isdir = self._isdir(fullname)
+                # remove links, but not what they refer to
+                isdir = (self._isdir(fullname) and
+                         not self._islink(fullname))
             except self._os_error:
                 isdir = False
             if isdir:
-- 
2.43.0


From 0827b83cece08140a5ef3fbca8ba3d204e4acc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 117/145] fix: dig_node failed for nodes with numpy scalars,
 random states or unreadable attributes

---
 mdp/utils/introspection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/introspection.py b/mdp/utils/introspection.py
index 7b4ce79..96ec758 100644
--- a/mdp/utils/introspection.py
+++ b/mdp/utils/introspection.py
@@ -25,7 +25,11 @@ class _Walk(object):
         # loop through the object dictionary
         for name in dir(x):
             # get the corresponding member
-            obj = getattr(x, name)
+            try:
+                obj = getattr(x, name)
+            except Exception:
+                # attributes that cannot be read have no arrays
+                continue
             if id(obj) in list(self.allobjs.keys()):
                 # if we already examined the member, skip to the next
                 continue
@@ -47,8 +51,8 @@ class _Walk(object):
                     arrays[struct] = obj
                 else:
                     arrays[name] = obj
-            elif name.startswith('__') or type(obj) in (int, int, float,
-                                                        types.MethodType):
+            elif (name.startswith('__') or isinstance(obj, mdp.numx.generic) or
+                  type(obj) in (int, int, float, types.MethodType)):
                 # the present member is a private member or a known
                 # type that does not support arrays as attributes
                 # Note: this is to avoid infinite
-- 
2.43.0


From a6f6a5e959d23ac9c5a715859433b7cd682c76ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 118/145] fix: FANode left the floating point range for many or
 badly scaled components (silent NaN or false 'singular'), and nearly
 noise-free data gave NaN or negative noise variances

---
 mdp/nodes/em_nodes.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/mdp/nodes/em_nodes.py b/mdp/nodes/em_nodes.py
index 6ec427b..82090e7 100644
--- a/mdp/nodes/em_nodes.py
+++ b/mdp/nodes/em_nodes.py
@@ -2,14 +2,15 @@ from __future__ import print_function
 from __future__ import division
 from builtins import range
 from past.utils import old_div
+from numpy.linalg import slogdet
 __docformat__ = "restructuredtext en"
 
 import mdp
-from mdp import numx, numx_linalg, utils, NodeException
+from mdp import numx, utils, NodeException
 from mdp.utils import mult, CovarianceMatrix
 import warnings
 
-sqrt, inv, det = numx.sqrt, utils.inv, numx_linalg.det
+sqrt, inv = numx.sqrt, utils.inv
 normal = mdp.numx_rand.normal
 
 # decreasing likelihood message
@@ -107,18 +108,26 @@ class FANode(mdp.Node):
         ##### initialize the parameters
         # noise variances
         sigma = cov_diag
+        # they are variances, but rounding may produce negative values if
+        # the data has (nearly) no noise
+        min_sigma = numx.finfo(typ).eps * cov_diag
         # loading factors
         # Zoubin uses the determinant of cov_mtx^1/d as scale but it's
         # too slow for large matrices. Is the product of the diagonal a good
         # approximation?
+        # The logarithm of the determinant is used, because the determinant
+        # itself may leave the range of the floating point numbers.
+        singular_err = ("The covariance matrix of the data is singular. "
+                        "Redundant dimensions need to be removed.")
         if d<=300:
-            scale = det(cov_mtx)**(old_div(1.,d))
+            sign, log_det = slogdet(cov_mtx)
+            singular = not sign > 0.
         else:
-            scale = numx.product(sigma)**(old_div(1.,d))
-        if scale <= 0.:
-            err = ("The covariance matrix of the data is singular. "
-                   "Redundant dimensions need to be removed.")
-            raise NodeException(err)
+            singular = not (sigma > 0.).all()
+            log_det = 0. if singular else numx.log(sigma).sum()
+        if singular:
+            raise NodeException(singular_err)
+        scale = numx.exp(old_div(log_det,d))
 
         A = normal(0., sqrt(old_div(scale,k)), size=(d, k)).astype(typ)
 
@@ -132,8 +141,8 @@ class FANode(mdp.Node):
             # B += diag(sigma), avoid computing diag(sigma) which is dxd
             B.ravel().put(idx_diag_d, B.ravel().take(idx_diag_d)+sigma)
             # this quantity is used later for the log-likelihood
-            # abs is there to avoid numerical errors when det < 0
-            log_det_B = numx.log(abs(det(B)))
+            # the sign is ignored to avoid numerical errors when det < 0
+            log_det_B = slogdet(B)[1]
             # end the computation of B
             B = inv(B)
 
@@ -150,6 +159,7 @@ class FANode(mdp.Node):
             ##### M-step
             A = mult(trA_B_cov_mtx.T, inv(E_yyT))
             sigma = cov_diag - (mult(A, trA_B_cov_mtx)).diagonal()
+            sigma = numx.maximum(sigma, min_sigma)
 
             ##### log-likelihood
             trace_B_cov = (B*cov_mtx.T).sum()
@@ -173,6 +183,9 @@ class FANode(mdp.Node):
             old_lhood = lhood
             lhood_curve.append(lhood)
 
+        if not (numx.isfinite(A).all() and numx.isfinite(sigma).all()):
+            raise NodeException(singular_err)
+
         self.tlen = tlen
         self.A = A
         self.mu = mu.reshape(1, d)
-- 
2.43.0


From 232e2581d699607772ed7c0d04d0c67d877d0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 119/145] fix: RBMWithLabelsNode.sample_v failed in single
 precision for confident label probabilities

---
 mdp/nodes/rbm_nodes.py | 1051 ++++++++++++++++++++--------------------
 1 file changed, 527 insertions(+), 524 deletions(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index ab1f4a9..0030e78 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -1,525 +1,528 @@
-from __future__ import print_function
-from __future__ import division
-from builtins import range
-from past.utils import old_div
-__docformat__ = "restructuredtext en"
-
-import mdp
-from mdp import numx
-from mdp.utils import mult
-
-random = mdp.numx_rand.random
-randn = mdp.numx_rand.randn
-exp = mdp.numx.exp
-
-# TODO: does it make sense to define the inverse of RBMNode as sampling
-#    from the visible layer given an hidden state?
-
-# this and the other replication functions should go in mdp.utils
-def rrep(x, n):
-    """Replicate x n-times on a new last dimension.
-
-    :param x: The object to replicate.
-    :type x: numpy.ndarray
-
-    :param n: Number of replicas.
-    :type n: int
-    """
-    shp = x.shape + (1,)
-    return x.reshape(shp).repeat(n, axis=-1)
-
-
-class RBMNode(mdp.Node):
-    """Restricted Boltzmann Machine node. An RBM is an undirected
-    probabilistic network with binary variables. The graph is
-    bipartite into observed (*visible*) and hidden (*latent*) variables.
-    By default, the ``execute`` method returns the *probability* of
-    one of the hiden variables being equal to 1 given the input.
-    Use the ``sample_v`` method to sample from the observed variables
-    given a setting of the hidden variables, and ``sample_h`` to do the
-    opposite. The ``energy`` method can be used to compute the energy
-    of a given setting of all variables.
-
-    |
-
-    .. admonition:: Reference
-
-        For more information on RBMs, see
-        Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668
-
-        The network is trained by Contrastive Divergence, as described in
-        Hinton, G. E. (2002). Training products of experts by minimizing
-        contrastive divergence. Neural Computation, 14(8):1711-1800
-
-    :ivar w: Generative weights between hidden and observed variables.
-
-    :ivar bv: Bias vector of the observed variables.
-
-    :ivar bh: Bias vector of the hidden variables.
-    """
-
-    def __init__(self, hidden_dim, visible_dim = None, dtype = None):
-        """Initializes an object of type 'RBMNode'.
-
-        :param hidden_dim: Number of hidden variables.
-        :type hidden_dim: int
-
-        :param visible_dim: Number of observed variables.
-            Default is None.
-        :type visible_dim: int
-
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(RBMNode, self).__init__(visible_dim, hidden_dim, dtype)
-        self._initialized = False
-
-    def _init_weights(self):
-        # weights and biases are initialized to small random values to
-        # break the simmetry that might lead to degenerate solutions during
-        # learning
-        self._initialized = True
-
-        # weights
-        self.w = self._refcast(randn(self.input_dim, self.output_dim)*0.1)
-        # bias on the visibile (input) units
-        self.bv = self._refcast(randn(self.input_dim)*0.1)
-        # bias on the hidden (output) units
-        self.bh = self._refcast(randn(self.output_dim)*0.1)
-
-        # delta w, bv, bh used for momentum term
-        self._delta = (0., 0., 0.)
-
-    def _sample_h(self, v):
-        # returns P(h=1|v,W,b) and a sample from it
-        probs = old_div(1.,(1. + exp(-self.bh - mult(v, self.w))))
-        h = (probs > random(probs.shape)).astype(self.dtype)
-        return probs, h
-
-    def _sample_v(self, h):
-        # returns  P(v=1|h,W,b) and a sample from it
-        probs = old_div(1.,(1. + exp(-self.bv - mult(h, self.w.T))))
-        v = (probs > random(probs.shape)).astype(self.dtype)
-        return probs, v
-
-    def _train(self, v, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
-               update_with_ph=True, verbose=False):
-        """Update the internal structures according to the input data `v`.
-        The training is performed using Contrastive Divergence (CD).
-        
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param n_updates: Number of CD iterations. Default value: 1
-        :type n_updates: int
-
-        :param epsilon: Learning rate. Default value: 0.1
-        :type epsilon: float
-
-        :param decay: Weight decay term. Default value: 0.
-        :type decay: float
-
-        :param momentum: Momentum term. Default value: 0.
-        :type momentum: float
-
-        :param update_with_ph: In his code, G.Hinton updates the hidden biases
-            using the probability of the hidden unit activations instead of a
-            sample from it. This is in order to speed up sequential
-            learning of RBMs. Set this to False to use the samples instead.
-            Default value: True
-        :type update_with_ph: bool
-
-        :param verbose: Controls whether information about the energy and
-            training error is printed.
-        :type verbose: bool
-        """
-        if not self._initialized:
-            self._init_weights()
-
-        # useful quantities
-        n = v.shape[0]
-        w, bv, bh = self.w, self.bv, self.bh
-
-        # old gradients for momentum term
-        dw, dbv, dbh = self._delta
-
-        # first update of the hidden units for the data term
-        ph_data, h_data = self._sample_h(v)
-        # n updates of both v and h for the model term
-        h_model = h_data.copy()
-        for i in range(n_updates):
-            pv_model, v_model = self._sample_v(h_model)
-            ph_model, h_model = self._sample_h(v_model)
-
-        # update w
-        data_term = mult(v.T, ph_data)
-        model_term = mult(v_model.T, ph_model)
-        dw = momentum*dw + epsilon*(old_div((data_term - model_term),n) - decay*w)
-        w += dw
-
-        # update bv
-        data_term = v.sum(axis=0)
-        model_term = v_model.sum(axis=0)
-        dbv = momentum*dbv + epsilon*(old_div((data_term - model_term),n))
-        bv += dbv
-
-        # update bh
-        if update_with_ph:
-            data_term = ph_data.sum(axis=0)
-            model_term = ph_model.sum(axis=0)
-        else:
-            data_term = h_data.sum(axis=0)
-            model_term = h_model.sum(axis=0)
-        dbh = momentum*dbh + epsilon*(old_div((data_term - model_term),n))
-        bh += dbh
-
-        self._delta = (dw, dbv, dbh)
-        self._train_err = float(((v-v_model)**2.).sum())
-
-        if verbose:
-            print('training error', old_div(self._train_err,v.shape[0]))
-            ph, h = self._sample_h(v)
-            print('energy', self._energy(v, ph).sum())
-
-    def _stop_training(self):
-        #del self._delta
-        #del self._train_err
-        pass
-
-    # execution methods
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def _pre_sampling_checks(self, y):
-        self._if_training_stop_training()
-        # control the dimension of y
-        self._check_output(y)
-
-    def sample_h(self, v):
-        """Sample the hidden variables given observations v.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
-            probability that variable ``i`` is one given the observations
-            ``v[n,:]``, and ``h[n,i]`` is a sample from the posterior probability.
-        :rtype: tuple
-        """
-        self._pre_execution_checks(v)
-        return self._sample_h(v)
-
-    def sample_v(self, h):
-        """Sample the observed variables given hidden variable state h.
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :returns: A tuple ``(prob_v, v)``, where ``prob_v[n,i]`` is the
-            probability that variable ``i`` is one given the hidden
-            variables ``h[n,:]``, and ``v[n,i]`` is a sample from that
-            conditional probability.
-        :rtype: tuple
-        """
-        self._pre_sampling_checks(h)
-        return self._sample_v(h)
-
-    def _energy(self, v, h):
-        return (-mult(v, self.bv) - mult(h, self.bh) -
-                (mult(v, self.w)*h).sum(axis=1))
-
-    def energy(self, v, h):
-        """Compute the energy of the RBM given observed variables state `v` and
-        hidden variables state `h`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :return: The energy of the RBM given observed and the hidden variables.
-        :rtype: float
-        """
-        return self._energy(v, h)
-
-    def _execute(self, v, return_probs=True):
-        """If `return_probs` is True, returns the probability of the
-        hidden variables h[n,i] being 1 given the observations v[n,:].
-        If `return_probs` is False, return a sample from that probability.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param return_probs: Controls the return value. Default value: True
-        :type return_probs: bool
-
-        :return: The probability of the hidden variables being 1 given the
-            observations or a sample from that probability.
-        :rtype: float
-        """
-        probs, h = self._sample_h(v)
-        if return_probs:
-            return probs
-        else:
-            return h
-
-class RBMWithLabelsNode(RBMNode):
-    """Restricted Boltzmann Machine with softmax labels. An RBM is an
-    undirected probabilistic network with binary variables. In this
-    case, the node is partitioned into a set of observed (*visible*)
-    variables, a set of hidden (*latent*) variables, and a set of
-    label variables (also observed), only one of which is active at
-    any time. The node is able to learn associations between the
-    visible variables and the labels.
-    By default, the ``execute`` method returns the *probability* of
-    one of the hiden variables being equal to 1 given the input.
-    Use the ``sample_v`` method to sample from the observed variables
-    (visible and labels) given a setting of the hidden variables, and
-    ``sample_h`` to do the opposite. The ``energy`` method can be used
-    to compute the energy of a given setting of all variables.
-
-    |
-
-    .. admonition:: Reference
-
-        The network is trained by Contrastive Divergence, as described in
-        Hinton, G. E. (2002). Training products of experts by minimizing
-        contrastive divergence. Neural Computation, 14(8):1711-1800
-
-        For more information on RBMs with labels, see:
-    
-        * Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668.
-        * Hinton, G. E, Osindero, S., and Teh, Y. W. (2006). A fast learning
-          algorithm for deep belief nets. Neural Computation, 18:1527-1554.
-
-
-    :ivar w: Generative weights between hidden and observed variables.
-
-    :ivar bv: Bias vector of the observed variables.
-
-    :ivar bh: Bias vector of the hidden variables.
-    """
-
-    def __init__(self, hidden_dim, labels_dim, visible_dim=None, dtype=None):
-        """Initializes an object of type 'RBMWithLabelsNode'.
-
-        :param hidden_dim: Number of hidden variables.
-        :type hidden_dim: int
-
-        :param labels_dim: Number of labels.
-        :type labels_dim: int
-
-        :param visible_dim: Number of observed variables.
-            Default is None.
-        :type visible_dim: int
-
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(RBMWithLabelsNode, self).__init__(None, None, dtype)
-
-        self._labels_dim = labels_dim
-        if visible_dim is not None:
-            self.input_dim = visible_dim+labels_dim
-
-        self.output_dim = hidden_dim
-        self._initialized = False
-
-    def _set_input_dim(self, n):
-        self._input_dim = n
-        self._visible_dim = n - self._labels_dim
-
-    def _sample_v(self, h, sample_l=False, concatenate=True):
-        # returns  P(v=1|h,W,b), a sample from it, P(l=1|h,W,b),
-        # and a sample from it
-
-        ldim, vdim = self._labels_dim, self._visible_dim
-
-        # activation
-        a = self.bv + mult(h, self.w.T)
-        av, al = a[:, :vdim], a[:, vdim:]
-
-        # ## visible units: logistic activation
-        probs_v = old_div(1.,(1. + exp(-av)))
-        v = (probs_v > random(probs_v.shape)).astype('d')
-
-        # ## label units: softmax activation
-        # subtract maximum to regularize exponent
-        exponent = al - rrep(al.max(axis=1), ldim)
-        probs_l = exp(exponent)
-        probs_l /= rrep(probs_l.sum(axis=1), ldim)
-
-        if sample_l:
-            # ?? todo: I'm sure this can be optimized
-            l = numx.zeros((h.shape[0], ldim))
-            for t in range(h.shape[0]):
-                l[t, :] = mdp.numx_rand.multinomial(1, probs_l[t, :])
-        else:
-            l = probs_l.copy()
-
-        if concatenate:
-            probs = numx.concatenate((probs_v, probs_l), axis=1)
-            x = numx.concatenate((v, l), axis=1)
-            return probs, x
-        else:
-            return probs_v, probs_l, v, l
-
-    # execution methods
-
-    def sample_h(self, v, l):
-        """Sample the hidden variables given observations v and labels `l`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
-            probability that variable ``i`` is one given the observations
-            ``v[n,:]`` and the labels ``l[n,:]``, and ``h[n,i]`` is a sample
-            from the posterior probability.
-        :rtype: tuple
-        """
-
-        x = numx.concatenate((v, l), axis=1)
-        self._pre_execution_checks(x)
-        return self._sample_h(x)
-
-    def sample_v(self, h):
-        """Sample the observed variables given hidden variable state `h`.
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :returns: A tuple ``(prob_v, probs_l, v, l)``, where ``prob_v[n,i]``
-          is the probability that the visible variable ``i`` is one given
-          the hidden variables ``h[n,:]``, and ``v[n,i]`` is a sample from
-          that conditional probability. ``prob_l`` and ``l`` have similar
-          interpretations for the label variables. Note that the labels are
-          activated using a softmax function, so that only one label can be
-          active at any time.
-        :rtype: tuple
-        """
-        self._pre_sampling_checks(h)
-
-        probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
-                                                concatenate=False)
-        return probs_v, probs_l, v, l
-
-    def energy(self, v, h, l):
-        """Compute the energy of the RBM given observed variables state `v`
-        and `l`, and hidden variables state `h`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :return: The energy of the RBM given observed and the hidden variables.
-        :rtype: float
-        """
-
-        x = numx.concatenate((v, l), axis=1)
-        return self._energy(x, h)
-
-    def execute(self, v, l, return_probs = True):
-        """If `return_probs` is True, returns the probability of the
-        hidden variables h[n,i] being 1 given the observations v[n,:]
-        and l[n,:].
-
-        If `return_probs` is False, return a sample from that probability.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :param return_probs: Controls the return value. Default value: True
-        :type return_probs: bool
-
-        :return: The probability of the hidden variables being 1 given the
-            observations and labels or a sample from that probability.
-        :rtype: float
-        """
-        x = numx.concatenate((v, l), axis=1)
-        self._pre_execution_checks(x)
-
-        probs, h = self._sample_h(self._refcast(x))
-        if return_probs:
-            return probs
-        else:
-            return h
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def train(self, v, l, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
-              verbose=False):
-        """Update the internal structures according to the visible data `v`
-        and the labels `l`.
-        The training is performed using Contrastive Divergence (CD).
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: A binary matrix having different variables on different
-            columns and observations on the rows. Only one value per row should
-            be 1.
-        :type l: numpy.ndarray
-
-        :param n_updates: Number of CD iterations. Default value: 1
-        :type n_updates: int
-
-        :param epsilon: Learning rate. Default value: 0.1
-        :type epsilon: float
-
-        :param decay: Weight decay term. Default value: 0.
-        :type decay: float
-
-        :param momentum: Momentum term. Default value: 0.
-        :type momentum: float
-
-        :param verbose: Controls the verbosity.
-        :type verbose: bool
-        """
-
-        if not self.is_training():
-            errstr = "The training phase has already finished."
-            raise mdp.TrainingFinishedException(errstr)
-
-        x = numx.concatenate((v, l), axis=1)
-        self._check_input(x)
-
-        self._train_phase_started = True
-        self._train_seq[self._train_phase][0](self._refcast(x),
-                                              n_updates=n_updates,
-                                              epsilon=epsilon,
-                                              decay=decay,
-                                              momentum=momentum,
+from __future__ import print_function
+from __future__ import division
+from builtins import range
+from past.utils import old_div
+__docformat__ = "restructuredtext en"
+
+import mdp
+from mdp import numx
+from mdp.utils import mult
+
+random = mdp.numx_rand.random
+randn = mdp.numx_rand.randn
+exp = mdp.numx.exp
+
+# TODO: does it make sense to define the inverse of RBMNode as sampling
+#    from the visible layer given an hidden state?
+
+# this and the other replication functions should go in mdp.utils
+def rrep(x, n):
+    """Replicate x n-times on a new last dimension.
+
+    :param x: The object to replicate.
+    :type x: numpy.ndarray
+
+    :param n: Number of replicas.
+    :type n: int
+    """
+    shp = x.shape + (1,)
+    return x.reshape(shp).repeat(n, axis=-1)
+
+
+class RBMNode(mdp.Node):
+    """Restricted Boltzmann Machine node. An RBM is an undirected
+    probabilistic network with binary variables. The graph is
+    bipartite into observed (*visible*) and hidden (*latent*) variables.
+    By default, the ``execute`` method returns the *probability* of
+    one of the hiden variables being equal to 1 given the input.
+    Use the ``sample_v`` method to sample from the observed variables
+    given a setting of the hidden variables, and ``sample_h`` to do the
+    opposite. The ``energy`` method can be used to compute the energy
+    of a given setting of all variables.
+
+    |
+
+    .. admonition:: Reference
+
+        For more information on RBMs, see
+        Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668
+
+        The network is trained by Contrastive Divergence, as described in
+        Hinton, G. E. (2002). Training products of experts by minimizing
+        contrastive divergence. Neural Computation, 14(8):1711-1800
+
+    :ivar w: Generative weights between hidden and observed variables.
+
+    :ivar bv: Bias vector of the observed variables.
+
+    :ivar bh: Bias vector of the hidden variables.
+    """
+
+    def __init__(self, hidden_dim, visible_dim = None, dtype = None):
+        """Initializes an object of type 'RBMNode'.
+
+        :param hidden_dim: Number of hidden variables.
+        :type hidden_dim: int
+
+        :param visible_dim: Number of observed variables.
+            Default is None.
+        :type visible_dim: int
+
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(RBMNode, self).__init__(visible_dim, hidden_dim, dtype)
+        self._initialized = False
+
+    def _init_weights(self):
+        # weights and biases are initialized to small random values to
+        # break the simmetry that might lead to degenerate solutions during
+        # learning
+        self._initialized = True
+
+        # weights
+        self.w = self._refcast(randn(self.input_dim, self.output_dim)*0.1)
+        # bias on the visibile (input) units
+        self.bv = self._refcast(randn(self.input_dim)*0.1)
+        # bias on the hidden (output) units
+        self.bh = self._refcast(randn(self.output_dim)*0.1)
+
+        # delta w, bv, bh used for momentum term
+        self._delta = (0., 0., 0.)
+
+    def _sample_h(self, v):
+        # returns P(h=1|v,W,b) and a sample from it
+        probs = old_div(1.,(1. + exp(-self.bh - mult(v, self.w))))
+        h = (probs > random(probs.shape)).astype(self.dtype)
+        return probs, h
+
+    def _sample_v(self, h):
+        # returns  P(v=1|h,W,b) and a sample from it
+        probs = old_div(1.,(1. + exp(-self.bv - mult(h, self.w.T))))
+        v = (probs > random(probs.shape)).astype(self.dtype)
+        return probs, v
+
+    def _train(self, v, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
+               update_with_ph=True, verbose=False):
+        """Update the internal structures according to the input data `v`.
+        The training is performed using Contrastive Divergence (CD).
+        
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param n_updates: Number of CD iterations. Default value: 1
+        :type n_updates: int
+
+        :param epsilon: Learning rate. Default value: 0.1
+        :type epsilon: float
+
+        :param decay: Weight decay term. Default value: 0.
+        :type decay: float
+
+        :param momentum: Momentum term. Default value: 0.
+        :type momentum: float
+
+        :param update_with_ph: In his code, G.Hinton updates the hidden biases
+            using the probability of the hidden unit activations instead of a
+            sample from it. This is in order to speed up sequential
+            learning of RBMs. Set this to False to use the samples instead.
+            Default value: True
+        :type update_with_ph: bool
+
+        :param verbose: Controls whether information about the energy and
+            training error is printed.
+        :type verbose: bool
+        """
+        if not self._initialized:
+            self._init_weights()
+
+        # useful quantities
+        n = v.shape[0]
+        w, bv, bh = self.w, self.bv, self.bh
+
+        # old gradients for momentum term
+        dw, dbv, dbh = self._delta
+
+        # first update of the hidden units for the data term
+        ph_data, h_data = self._sample_h(v)
+        # n updates of both v and h for the model term
+        h_model = h_data.copy()
+        for i in range(n_updates):
+            pv_model, v_model = self._sample_v(h_model)
+            ph_model, h_model = self._sample_h(v_model)
+
+        # update w
+        data_term = mult(v.T, ph_data)
+        model_term = mult(v_model.T, ph_model)
+        dw = momentum*dw + epsilon*(old_div((data_term - model_term),n) - decay*w)
+        w += dw
+
+        # update bv
+        data_term = v.sum(axis=0)
+        model_term = v_model.sum(axis=0)
+        dbv = momentum*dbv + epsilon*(old_div((data_term - model_term),n))
+        bv += dbv
+
+        # update bh
+        if update_with_ph:
+            data_term = ph_data.sum(axis=0)
+            model_term = ph_model.sum(axis=0)
+        else:
+            data_term = h_data.sum(axis=0)
+            model_term = h_model.sum(axis=0)
+        dbh = momentum*dbh + epsilon*(old_div((data_term - model_term),n))
+        bh += dbh
+
+        self._delta = (dw, dbv, dbh)
+        self._train_err = float(((v-v_model)**2.).sum())
+
+        if verbose:
+            print('training error', old_div(self._train_err,v.shape[0]))
+            ph, h = self._sample_h(v)
+            print('energy', self._energy(v, ph).sum())
+
+    def _stop_training(self):
+        #del self._delta
+        #del self._train_err
+        pass
+
+    # execution methods
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def _pre_sampling_checks(self, y):
+        self._if_training_stop_training()
+        # control the dimension of y
+        self._check_output(y)
+
+    def sample_h(self, v):
+        """Sample the hidden variables given observations v.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
+            probability that variable ``i`` is one given the observations
+            ``v[n,:]``, and ``h[n,i]`` is a sample from the posterior probability.
+        :rtype: tuple
+        """
+        self._pre_execution_checks(v)
+        return self._sample_h(v)
+
+    def sample_v(self, h):
+        """Sample the observed variables given hidden variable state h.
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :returns: A tuple ``(prob_v, v)``, where ``prob_v[n,i]`` is the
+            probability that variable ``i`` is one given the hidden
+            variables ``h[n,:]``, and ``v[n,i]`` is a sample from that
+            conditional probability.
+        :rtype: tuple
+        """
+        self._pre_sampling_checks(h)
+        return self._sample_v(h)
+
+    def _energy(self, v, h):
+        return (-mult(v, self.bv) - mult(h, self.bh) -
+                (mult(v, self.w)*h).sum(axis=1))
+
+    def energy(self, v, h):
+        """Compute the energy of the RBM given observed variables state `v` and
+        hidden variables state `h`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :return: The energy of the RBM given observed and the hidden variables.
+        :rtype: float
+        """
+        return self._energy(v, h)
+
+    def _execute(self, v, return_probs=True):
+        """If `return_probs` is True, returns the probability of the
+        hidden variables h[n,i] being 1 given the observations v[n,:].
+        If `return_probs` is False, return a sample from that probability.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param return_probs: Controls the return value. Default value: True
+        :type return_probs: bool
+
+        :return: The probability of the hidden variables being 1 given the
+            observations or a sample from that probability.
+        :rtype: float
+        """
+        probs, h = self._sample_h(v)
+        if return_probs:
+            return probs
+        else:
+            return h
+
+class RBMWithLabelsNode(RBMNode):
+    """Restricted Boltzmann Machine with softmax labels. An RBM is an
+    undirected probabilistic network with binary variables. In this
+    case, the node is partitioned into a set of observed (*visible*)
+    variables, a set of hidden (*latent*) variables, and a set of
+    label variables (also observed), only one of which is active at
+    any time. The node is able to learn associations between the
+    visible variables and the labels.
+    By default, the ``execute`` method returns the *probability* of
+    one of the hiden variables being equal to 1 given the input.
+    Use the ``sample_v`` method to sample from the observed variables
+    (visible and labels) given a setting of the hidden variables, and
+    ``sample_h`` to do the opposite. The ``energy`` method can be used
+    to compute the energy of a given setting of all variables.
+
+    |
+
+    .. admonition:: Reference
+
+        The network is trained by Contrastive Divergence, as described in
+        Hinton, G. E. (2002). Training products of experts by minimizing
+        contrastive divergence. Neural Computation, 14(8):1711-1800
+
+        For more information on RBMs with labels, see:
+    
+        * Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668.
+        * Hinton, G. E, Osindero, S., and Teh, Y. W. (2006). A fast learning
+          algorithm for deep belief nets. Neural Computation, 18:1527-1554.
+
+
+    :ivar w: Generative weights between hidden and observed variables.
+
+    :ivar bv: Bias vector of the observed variables.
+
+    :ivar bh: Bias vector of the hidden variables.
+    """
+
+    def __init__(self, hidden_dim, labels_dim, visible_dim=None, dtype=None):
+        """Initializes an object of type 'RBMWithLabelsNode'.
+
+        :param hidden_dim: Number of hidden variables.
+        :type hidden_dim: int
+
+        :param labels_dim: Number of labels.
+        :type labels_dim: int
+
+        :param visible_dim: Number of observed variables.
+            Default is None.
+        :type visible_dim: int
+
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(RBMWithLabelsNode, self).__init__(None, None, dtype)
+
+        self._labels_dim = labels_dim
+        if visible_dim is not None:
+            self.input_dim = visible_dim+labels_dim
+
+        self.output_dim = hidden_dim
+        self._initialized = False
+
+    def _set_input_dim(self, n):
+        self._input_dim = n
+        self._visible_dim = n - self._labels_dim
+
+    def _sample_v(self, h, sample_l=False, concatenate=True):
+        # returns  P(v=1|h,W,b), a sample from it, P(l=1|h,W,b),
+        # and a sample from it
+
+        ldim, vdim = self._labels_dim, self._visible_dim
+
+        # activation
+        a = self.bv + mult(h, self.w.T)
+        av, al = a[:, :vdim], a[:, vdim:]
+
+        # ## visible units: logistic activation
+        probs_v = old_div(1.,(1. + exp(-av)))
+        v = (probs_v > random(probs_v.shape)).astype('d')
+
+        # ## label units: softmax activation
+        # subtract maximum to regularize exponent
+        exponent = al - rrep(al.max(axis=1), ldim)
+        probs_l = exp(exponent)
+        probs_l /= rrep(probs_l.sum(axis=1), ldim)
+
+        if sample_l:
+            # ?? todo: I'm sure this can be optimized
+            l = numx.zeros((h.shape[0], ldim))
+            # the probabilities have to sum up to one in double precision
+            pvals = probs_l.astype('d')
+            pvals /= rrep(pvals.sum(axis=1), ldim)
+            for t in range(h.shape[0]):
+                l[t, :] = mdp.numx_rand.multinomial(1, pvals[t, :])
+        else:
+            l = probs_l.copy()
+
+        if concatenate:
+            probs = numx.concatenate((probs_v, probs_l), axis=1)
+            x = numx.concatenate((v, l), axis=1)
+            return probs, x
+        else:
+            return probs_v, probs_l, v, l
+
+    # execution methods
+
+    def sample_h(self, v, l):
+        """Sample the hidden variables given observations v and labels `l`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
+            probability that variable ``i`` is one given the observations
+            ``v[n,:]`` and the labels ``l[n,:]``, and ``h[n,i]`` is a sample
+            from the posterior probability.
+        :rtype: tuple
+        """
+
+        x = numx.concatenate((v, l), axis=1)
+        self._pre_execution_checks(x)
+        return self._sample_h(x)
+
+    def sample_v(self, h):
+        """Sample the observed variables given hidden variable state `h`.
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :returns: A tuple ``(prob_v, probs_l, v, l)``, where ``prob_v[n,i]``
+          is the probability that the visible variable ``i`` is one given
+          the hidden variables ``h[n,:]``, and ``v[n,i]`` is a sample from
+          that conditional probability. ``prob_l`` and ``l`` have similar
+          interpretations for the label variables. Note that the labels are
+          activated using a softmax function, so that only one label can be
+          active at any time.
+        :rtype: tuple
+        """
+        self._pre_sampling_checks(h)
+
+        probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
+                                                concatenate=False)
+        return probs_v, probs_l, v, l
+
+    def energy(self, v, h, l):
+        """Compute the energy of the RBM given observed variables state `v`
+        and `l`, and hidden variables state `h`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :return: The energy of the RBM given observed and the hidden variables.
+        :rtype: float
+        """
+
+        x = numx.concatenate((v, l), axis=1)
+        return self._energy(x, h)
+
+    def execute(self, v, l, return_probs = True):
+        """If `return_probs` is True, returns the probability of the
+        hidden variables h[n,i] being 1 given the observations v[n,:]
+        and l[n,:].
+
+        If `return_probs` is False, return a sample from that probability.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :param return_probs: Controls the return value. Default value: True
+        :type return_probs: bool
+
+        :return: The probability of the hidden variables being 1 given the
+            observations and labels or a sample from that probability.
+        :rtype: float
+        """
+        x = numx.concatenate((v, l), axis=1)
+        self._pre_execution_checks(x)
+
+        probs, h = self._sample_h(self._refcast(x))
+        if return_probs:
+            return probs
+        else:
+            return h
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def train(self, v, l, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
+              verbose=False):
+        """Update the internal structures according to the visible data `v`
+        and the labels `l`.
+        The training is performed using Contrastive Divergence (CD).
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: A binary matrix having different variables on different
+            columns and observations on the rows. Only one value per row should
+            be 1.
+        :type l: numpy.ndarray
+
+        :param n_updates: Number of CD iterations. Default value: 1
+        :type n_updates: int
+
+        :param epsilon: Learning rate. Default value: 0.1
+        :type epsilon: float
+
+        :param decay: Weight decay term. Default value: 0.
+        :type decay: float
+
+        :param momentum: Momentum term. Default value: 0.
+        :type momentum: float
+
+        :param verbose: Controls the verbosity.
+        :type verbose: bool
+        """
+
+        if not self.is_training():
+            errstr = "The training phase has already finished."
+            raise mdp.TrainingFinishedException(errstr)
+
+        x = numx.concatenate((v, l), axis=1)
+        self._check_input(x)
+
+        self._train_phase_started = True
+        self._train_seq[self._train_phase][0](self._refcast(x),
+                                              n_updates=n_updates,
+                                              epsilon=epsilon,
+                                              decay=decay,
+                                              momentum=momentum,
                                               verbose=verbose)
\ No newline at end of file
-- 
2.43.0


From 1c5f634f946087a8ba11406df57a16ba8462a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 120/145] fix: LLENode/HLLENode accepted or crashed on k=N, k<1
 and output_dim>=N

---
 mdp/nodes/lle_nodes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index 6f50e95..5ea8294 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -114,9 +114,10 @@ class LLENode(Cumulator):
         W_diag_idx = numx.arange(N)
         Q_diag_idx = numx.arange(k)
 
-        if k > N:
-            err = ('k=%i must be less than or '
-                   'equal to number of training points N=%i' % (k, N))
+        # a point is not its own neighbor, thus there are only N-1 of them
+        if k < 1 or k >= N:
+            err = ('k=%i must be positive and less than the '
+                   'number of training points N=%i' % (k, N))
             raise TrainingException(err)
 
         # determines number of output dimensions: if desired_variance
@@ -136,6 +137,12 @@ class LLENode(Cumulator):
         if learn_outdim:
             Qs, sig2s, nbrss = self._adjust_output_dim()
 
+        # one of the N eigenvectors is the constant one
+        if self.output_dim >= N:
+            err = ('the number of training points N=%i must be larger than '
+                   'output_dim=%i' % (N, self.output_dim))
+            raise TrainingException(err)
+
         # build the weight matrix
         #XXX future work:
         #XXX   for faster implementation, W should be a sparse matrix
@@ -423,9 +430,10 @@ class HLLENode(LLENode):
         M = self.data
         N = M.shape[0]
 
-        if k > N:
-            err = ('k=%i must be less than'
-                   ' or equal to number of training points N=%i' % (k, N))
+        # a point is not its own neighbor, thus there are only N-1 of them
+        if k < 1 or k >= N:
+            err = ('k=%i must be positive and less than the '
+                   'number of training points N=%i' % (k, N))
             raise TrainingException(err)
 
         if self.verbose:
-- 
2.43.0


From 5cec0fc2f853a92d6a147c96047b813e367edd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 121/145] fix: LLENode with r=None reused the regularization of
 the first query point for all others

---
 mdp/nodes/lle_nodes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index 5ea8294..daf4c38 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -309,11 +309,12 @@ class LLENode(Cumulator):
 
             #find corrected covariance matrix Q
             Q = mult(M_xi, M_xi.T)
-            if r is None and k > d_out:
-                sig2 = (svd(M_xi, compute_uv=0))**2
-                r = numx.sum(sig2[d_out:])
-                Q[Q_diag_idx, Q_diag_idx] += r
-            if r is not None:
+            if r is None:
+                # the correction has to be computed for every single point
+                if k > d_out:
+                    sig2 = (svd(M_xi, compute_uv=0))**2
+                    Q[Q_diag_idx, Q_diag_idx] += numx.sum(sig2[d_out:])
+            else:
                 Q[Q_diag_idx, Q_diag_idx] += r
 
             #solve for weights
-- 
2.43.0


From 66c993574a94c834eab989b4db1e77206f2e675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 122/145] fix: LLENode regularized queries with r instead of r
 times the trace, so answers depended on the units

---
 mdp/nodes/lle_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index daf4c38..1b28c5b 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -186,7 +186,8 @@ class LLENode(Cumulator):
                 #   is small compared to the trace" e.g.:
                 # r = 0.001 * float(Q.trace())
                 # this is equivalent to assuming 0.1% of the variance is unused
-                Q[Q_diag_idx, Q_diag_idx] += r*Q.trace()
+                trace = Q.trace()
+                Q[Q_diag_idx, Q_diag_idx] += r*trace if trace > 0 else r
 
             #solve for weight
             # weight is w such that sum(Q_ij * w_j) = 1 for all i
@@ -315,7 +316,9 @@ class LLENode(Cumulator):
                     sig2 = (svd(M_xi, compute_uv=0))**2
                     Q[Q_diag_idx, Q_diag_idx] += numx.sum(sig2[d_out:])
             else:
-                Q[Q_diag_idx, Q_diag_idx] += r
+                # as in training the correction is relative to the trace
+                trace = Q.trace()
+                Q[Q_diag_idx, Q_diag_idx] += r*trace if trace > 0 else r
 
             #solve for weights
             w = self._refcast(numx_linalg.solve(Q , numx.ones(k)))
-- 
2.43.0


From c5450e729930f110703d287eb45030d863ea0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 123/145] fix: LLENode/HLLENode with output_dim=1.0 crashed by
 rounding of the cumulated variances

---
 mdp/nodes/lle_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index 1b28c5b..170f8ac 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -272,12 +272,13 @@ class LLENode(Cumulator):
             #-----------------------------------------------
             sig2 /= sig2.sum()
             S = sig2.cumsum()
-            m_est = S.searchsorted(self.desired_variance)
+            # because of rounding errors S may end slightly below one
+            m_est = min(S.searchsorted(self.desired_variance), len(S)-1)
             if m_est > 0:
                 m_est += old_div((self.desired_variance-S[m_est-1]),sig2[m_est])
             else:
                 m_est = old_div(self.desired_variance,sig2[m_est])
-            m_est_array.append(m_est)
+            m_est_array.append(min(m_est, len(S)))
 
         m_est_array = numx.asarray(m_est_array)
         self.output_dim = int( numx.ceil( numx.median(m_est_array) ) )
-- 
2.43.0


From 1096fa8001d5c10176bb218a9a307ff5fb70486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 124/145] fix: duplicated training points were used as their
 own neighbours

---
 mdp/nodes/lle_nodes.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/lle_nodes.py b/mdp/nodes/lle_nodes.py
index 170f8ac..17ff89b 100644
--- a/mdp/nodes/lle_nodes.py
+++ b/mdp/nodes/lle_nodes.py
@@ -160,7 +160,10 @@ class LLENode(Cumulator):
                 #  find k nearest neighbors
                 # -----------------------------------------------
                 M_Mi = M-M[row]
-                nbrs = numx.argsort((M_Mi**2).sum(1))[1:k+1]
+                dist = (M_Mi**2).sum(1)
+                # no point is its own neighbor, even if the data has duplicates
+                dist[row] = -1.
+                nbrs = numx.argsort(dist)[1:k+1]
                 M_Mi = M_Mi[nbrs]
                 # compute covariance matrix of distances
                 Q = mult(M_Mi, M_Mi.T)
@@ -250,7 +253,10 @@ class LLENode(Cumulator):
             #  find k nearest neighbors
             #-----------------------------------------------
             M_Mi = M-M[row]
-            nbrs = numx.argsort((M_Mi**2).sum(1))[1:k+1]
+            dist = (M_Mi**2).sum(1)
+            # no point is its own neighbor, even if the data has duplicates
+            dist[row] = -1.
+            nbrs = numx.argsort(dist)[1:k+1]
             M_Mi = M_Mi[nbrs]
             # compute covariance matrix of distances
             Qs[row, :, :] = mult(M_Mi, M_Mi.T)
@@ -490,7 +496,10 @@ class HLLENode(LLENode):
                 #  find k nearest neighbors
                 # -----------------------------------------------
                 M_Mi = M-M[row]
-                nbrs = numx.argsort((M_Mi**2).sum(1))[1:k+1]
+                dist = (M_Mi**2).sum(1)
+                # no point is its own neighbor, even if the data has duplicates
+                dist[row] = -1.
+                nbrs = numx.argsort(dist)[1:k+1]
 
             #-----------------------------------------------
             #  center the neighborhood using the mean
-- 
2.43.0


From 025e594d5235de422eadfe4ba8d06d460d69bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 125/145] fix: show_execution opened its output file twice, the
 browser was shown an incomplete page

---
 bimdp/inspection/facade.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index afefa90..0ab662e 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -364,7 +364,6 @@ def show_execution(flow, x, msg=None, target=None, path=None, name=None,
                         **kwargs)
     # inspect execution created the path if required, so no need to check here
     with open(filename, 'w') as html_file:
-        html_file = open(filename, 'w')
         html_file.write('<html>\n<head>\n<title>%s</title>\n' % title)
         html_file.write('<style type="text/css" media="screen">')
         html_file.write(standard_css())
-- 
2.43.0


From b809dc4da9a789c2f76e97e891030451ecf6bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 126/145] fix: debug mode of the inspection failed with a
 TypeError instead of writing an error slide

---
 bimdp/inspection/tracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 6d00df1..1f8ad6f 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -282,7 +282,10 @@ class InspectionHTMLTracer(object):
         html_file.close()
 
     def _write_error_frame(self):
-        with self._begin_HTML_frame() as html_file:
+        html_file = self._begin_HTML_frame()
+        # the exception did not happen in a (traced) node method
+        self._slide_node_ids.append(None)
+        try:
             html_file.write('<div class="error">')
             html_file.write('<h3>Encountered Exception</h3>')
             traceback_html = traceback.format_exc().replace('\n', '<br>')
@@ -303,6 +306,7 @@ class InspectionHTMLTracer(object):
 #        traceback_html = buffer.getvalue()
             html_file.write(traceback_html)
             html_file.write('</div>')
+        finally:
             self._end_HTML_frame(html_file)
 
     ## monkey patching tracing decorator wrapper methods ##
-- 
2.43.0


From 658fdcd79db54f7648de218505763d8bf3713d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 127/145] fix: an exception during show_training or
 show_execution left the tracing hooks in the user's flow

---
 bimdp/inspection/facade.py | 3 ++-
 bimdp/inspection/tracer.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index 0ab662e..38e0ecb 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -212,7 +212,8 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
             robust_pickle(flow._snapshot_path_, filename, flow)
         else:
             raise
-    remove_inspection_residues(flow)
+    finally:
+        remove_inspection_residues(flow)
     # reload data samples
     with open(os.path.join(path, "training_data_samples.pckl"), "rb") as sample_file:
         x_samples, msg_samples, stop_messages = pickle.load(sample_file)
diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 1f8ad6f..759994f 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -138,6 +138,7 @@ class InspectionHTMLTracer(object):
         # Note: this also catches legacy string exceptions (which are still
         #    used in numpy, e.g. np.core.multiarray.error)
         except:
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
             if debug:
                 # insert the error slide and encapsulate the exception
                 traceback.print_exc()
@@ -154,6 +155,7 @@ class InspectionHTMLTracer(object):
         try:
             biflownode.stop_training(stop_msg)
         except:
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
             if debug:
                 # insert the error slide and encapsulate the exception
                 traceback.print_exc()
@@ -186,12 +188,12 @@ class InspectionHTMLTracer(object):
         self._trace_path = path
         self._trace_name = trace_name
         self._flow = flow
-        self._tracing_decorator.decorate_flow(flow)
         if (not (isinstance(flow, BiFlow) or isinstance(flow, BiNode)) and
             (msg is not None)):
             # a msg would be interpreted as nodenr by a Flow, so check this
             err = "A msg was given for a normal Flow (need BiFlow)."
             raise Exception(err)
+        self._tracing_decorator.decorate_flow(flow)
         try:
             if msg or target:
                 result = self._flow.execute(x, msg, target, **kwargs)
@@ -212,7 +214,8 @@ class InspectionHTMLTracer(object):
                 raise TraceDebugException(result=result)
             else:
                 raise
-        self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
+        finally:
+            self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
         if not self._section_ids:
             self._section_ids = None
         else:
-- 
2.43.0


From aa604c6b5e30e74393b276c5a0b9d54986bdc20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 128/145] fix: inspecting a flow that contains the same node
 instance twice recursed endlessly

---
 bimdp/inspection/tracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 759994f..2f2add8 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -316,6 +316,9 @@ class InspectionHTMLTracer(object):
 
     def _standard_tracer_decorate(self, node):
         """Adds a tracer wrapper to the node via monkey patching."""
+        if hasattr(node, TRACING_WRAP_FLAG):
+            # the same node instance is used more than once in the flow
+            return
         # add a marker to show that this node is wrapped
         setattr(node, TRACING_WRAP_FLAG, True)
         trace_method_names = list(NODE_TRACE_METHOD_NAMES)
-- 
2.43.0


From 8b56d418987028ffc86faddedf1508b8ab2df0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 129/145] fix: inspect_training sorted snapshots by name, with
 more than ten training phases the slides were out of order

---
 bimdp/inspection/tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 2f2add8..703921b 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -846,7 +846,8 @@ def _trace_biflow_training(snapshot_path, inspection_path,
         for file_path, dirs, files in os.walk(os.path.abspath(snapshot_path)):
             dirs.sort()
             files = fnmatch.filter(files, SNAPSHOT_FILENAME + "*" + PICKLE_EXT)
-            files.sort()
+            # sort by the snapshot number, "snapshot_10" comes after "snapshot_2"
+            files.sort(key=lambda name: (len(name), name))
             for filename in files:
                 filename = os.path.join(file_path, filename)
                 # load the flow snapshot
-- 
2.43.0


From cac371b4e14524e9165b674e700539fbe561b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 130/145] fix: show_training changed the lists of data and
 message iterables of the caller, and failed for a single array with a message

---
 bimdp/inspection/facade.py | 42 ++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/bimdp/inspection/facade.py b/bimdp/inspection/facade.py
index 38e0ecb..6531f91 100644
--- a/bimdp/inspection/facade.py
+++ b/bimdp/inspection/facade.py
@@ -123,6 +123,23 @@ def inspect_training(snapshot_path, x_samples, msg_samples=None,
                                    delay=500, delay_delta=100, loop=False)
     return str(slideshow)
 
+def _get_samples(iterables):
+    """Return a list with the first element of each iterable and a list of
+    the (unconsumed) iterables.
+    """
+    samples, new_iterables = [], []
+    for iterable in iterables:
+        if iterable is None:
+            sample = None
+        elif isinstance(iterable, dict):
+            # a single message, as accepted by BiFlow
+            sample = iterable
+        else:
+            sample, iterable = first_iterable_elem(iterable)
+        samples.append(sample)
+        new_iterables.append(iterable)
+    return samples, new_iterables
+
 def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
                   path=None, tracer=None,
                   debug=False,  show_size=False, open_browser=True,
@@ -162,25 +179,14 @@ def show_training(flow, data_iterables, msg_iterables=None, stop_messages=None,
     # if data_iterables is an array, wrap it up in a list
     if isinstance(data_iterables, numx.ndarray):
         data_iterables = [[data_iterables]] * len(flow)
-    x_samples = []
-    for i, data_iterable in enumerate(data_iterables):
-        if data_iterable is None:
-            x_sample, new_data_iterable = None, None
-        else:
-            x_sample, new_data_iterable = first_iterable_elem(data_iterable)
-        x_samples.append(x_sample)
-        data_iterables[i] = new_data_iterable
-    del x_sample
+        # the form of msg_iterables follows that of data_iterables
+        if msg_iterables:
+            msg_iterables = [[msg_iterables]] * len(flow)
+    elif data_iterables is None:
+        data_iterables = [None] * len(flow)
+    x_samples, data_iterables = _get_samples(data_iterables)
     if msg_iterables:
-        msg_samples = []
-        for i, msg_iterable in enumerate(msg_iterables):
-            if msg_iterable is None:
-                msg_sample, new_msg_iterable = None, None
-            else:
-                msg_sample, new_msg_iterable = first_iterable_elem(msg_iterable)
-            msg_samples.append(msg_sample)
-            msg_iterables[i] = new_msg_iterable
-        del msg_sample
+        msg_samples, msg_iterables = _get_samples(msg_iterables)
     else:
         msg_samples = None
     # store the data to disk to disk to save memory and safeguard against
-- 
2.43.0


From fa1c8218d335a9020f21c98c753df13e81ac09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 131/145] fix: show_training failed for flows trained with
 additional arguments like labels

---
 bimdp/inspection/tracer.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index 703921b..ed16057 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -130,11 +130,16 @@ class InspectionHTMLTracer(object):
         self._trace_name = trace_name + "_t"
         self._flow = flow
         self._tracing_decorator.decorate_flow(flow)
-        biflownode = BiFlowNode(BiFlow(flow.flow))
         try:
-            biflownode.train(x=x, msg=msg, **kwargs)
-            # reset is important for the following stop_training
-            biflownode.bi_reset()
+            if isinstance(x, tuple):
+                # additional training arguments for a normal flow
+                biflownode = hinet.FlowNode(mdp.Flow(flow.flow))
+                biflownode.train(*x, **kwargs)
+            else:
+                biflownode = BiFlowNode(BiFlow(flow.flow))
+                biflownode.train(x=x, msg=msg, **kwargs)
+                # reset is important for the following stop_training
+                biflownode.bi_reset()
         # Note: this also catches legacy string exceptions (which are still
         #    used in numpy, e.g. np.core.multiarray.error)
         except:
@@ -153,7 +158,10 @@ class InspectionHTMLTracer(object):
         self._reset()
         self._trace_name = trace_name + "_s"
         try:
-            biflownode.stop_training(stop_msg)
+            if isinstance(biflownode, BiFlowNode):
+                biflownode.stop_training(stop_msg)
+            else:
+                biflownode.stop_training()
         except:
             self._tracing_decorator.decorate_flow(flow, undecorate_mode=True)
             if debug:
@@ -687,9 +695,15 @@ class TraceHTMLConverter(object):
                         '</td></tr>')
         # remaining arg is message
         method_args = method_args[1:]
-        if method_args and method_args[0] is not None:
+        if method_args and isinstance(method_args[0], dict):
             f.write('<tr><td><pre>msg = </pre></td><td>' +
                     self._dict_pretty_html(method_args[0]) + '</td></tr>')
+            method_args = method_args[1:]
+        # otherwise these are additional training arguments like labels
+        for arg in method_args:
+            if arg is not None:
+                f.write('<tr><td><pre>arg = </pre></td><td>' + str(arg) +
+                        '</td></tr>')
         # normally the kwargs should be empty
         for arg_key in method_kwargs:
             f.write('<tr><td><pre>' + arg_key + ' = </pre></td><td>' +
-- 
2.43.0


From 5e40ba37821e497e215c85e86a576ac81bdfeca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 132/145] fix: the HTML view of a CloneBiLayer with use_copies
 failed, and use_copies was never shown

---
 bimdp/hinet/bihtmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/hinet/bihtmlvisitor.py b/bimdp/hinet/bihtmlvisitor.py
index 33f401a..3872b98 100644
--- a/bimdp/hinet/bihtmlvisitor.py
+++ b/bimdp/hinet/bihtmlvisitor.py
@@ -35,7 +35,7 @@ class BiHiNetHTMLVisitor(mdp.hinet.HiNetHTMLVisitor):
         css = super(BiHiNetHTMLVisitor, cls).hinet_css()
         return css + cls._BIHINET_STYLE
 
-    def _translate_clonelayer(self, clonelayer):
+    def _visit_clonelayer(self, clonelayer):
         """This specialized version checks for CloneBiLayer."""
         f = self._file
         self._open_node_env(clonelayer, "layer")
-- 
2.43.0


From 74bf051fcf0e9571f83d7459a55091c8ccae097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 133/145] fix: inspection of a CloneBiLayer failed after
 use_copies was changed, and left copies of the node and a tuple in clone
 layers

---
 bimdp/inspection/tracer.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/bimdp/inspection/tracer.py b/bimdp/inspection/tracer.py
index ed16057..2014948 100644
--- a/bimdp/inspection/tracer.py
+++ b/bimdp/inspection/tracer.py
@@ -400,6 +400,8 @@ class TraceDecorationVisitor(object):
         self._undecorator = undecorator
         # note that _visit_clonelayer uses the undecorate mode
         self._undecorate_mode = None
+        # the original nodes of the decorated clonelayers
+        self._original_nodes = {}
 
     def decorate_flow(self, flow, undecorate_mode=False):
         """Adds or removes wrappers from the nodes in the given flow."""
@@ -432,6 +434,19 @@ class TraceDecorationVisitor(object):
         for node in layer:
             self._visit_node(node)
 
+    def _separate_first_node(self, clonelayer):
+        """Use a deep copy for the first node, which can then be decorated."""
+        nodes = clonelayer.nodes
+        self._original_nodes[id(clonelayer)] = clonelayer.node
+        clonelayer.node = nodes[0].copy()
+        clonelayer.nodes = type(nodes)([clonelayer.node]) + nodes[1:]
+
+    def _restore_single_node(self, clonelayer):
+        """Use the original node again for all the nodes."""
+        node = self._original_nodes.pop(id(clonelayer), clonelayer.node)
+        clonelayer.node = node
+        clonelayer.nodes = type(clonelayer.nodes)([node]) * len(clonelayer)
+
     def _visit_clonelayer(self, clonelayer):
         # TODO: enable the use of a shallow copy to save memory,
         #    but this requires to implement __copy__ in Node etc. for recursive
@@ -446,19 +461,16 @@ class TraceDecorationVisitor(object):
                 del clonelayer.__getstate__
                 self._visit_node(clonelayer.nodes[0])
                 if not clonelayer.use_copies:
-                    clonelayer.nodes = ((clonelayer.node,) *
-                                        len(clonelayer.nodes))
+                    self._restore_single_node(clonelayer)
             else:
                 self._visit_node(clonelayer.nodes[0])
-                clonelayer.nodes = (clonelayer.node,) * len(clonelayer.nodes)
+                self._restore_single_node(clonelayer)
             # undecoration is complete
             return
         ## decorate clonelayer
         if ((not isinstance(clonelayer, CloneBiLayer)) or
             (not clonelayer.use_copies)):
-            # use a decorated deep copy for the first node
-            clonelayer.node = clonelayer.nodes[0].copy()
-            clonelayer.nodes = (clonelayer.node,) + clonelayer.nodes[1:]
+            self._separate_first_node(clonelayer)
         # only decorate the first node
         self._visit_node(clonelayer.nodes[0])
         if isinstance(clonelayer, CloneBiLayer):
@@ -478,9 +490,7 @@ class TraceDecorationVisitor(object):
                     # switch to a single node instance
                     # but use a (decorated) deep copy for first node
                     clonelayer._original_set_use_copies(use_copies)
-                    clonelayer.node = clonelayer.nodes[0].copy()
-                    clonelayer.nodes = ((clonelayer.node,) +
-                                        clonelayer.nodes[1:])
+                    flow_decorator._separate_first_node(clonelayer)
                 flow_decorator._visit_node(clonelayer.nodes[0])
             clonelayer._set_use_copies = wrapped_use_copies.__get__(clonelayer)
             # modify getstate to enable pickling
-- 
2.43.0


From 00ba0db822fc73b0ca37d5701f6995093e6d769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 134/145] fix: HTML view of Rectangular2dSwitchboard hid the
 unused channels when only one direction had some

---
 mdp/hinet/htmlvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/htmlvisitor.py b/mdp/hinet/htmlvisitor.py
index 652a63f..006367d 100644
--- a/mdp/hinet/htmlvisitor.py
+++ b/mdp/hinet/htmlvisitor.py
@@ -228,7 +228,7 @@ def _rect2d_switchoard_html(self):
              'rec. field distances (in channels): ' +
                 str(self.field_spacing_xy),
              'channel width: %d' % self.in_channel_dim]
-    if not all(self.unused_channels_xy):
+    if any(self.unused_channels_xy):
         lines.append('unused channels: ' + str(self.unused_channels_xy))
     return lines
 
-- 
2.43.0


From 8a34ae44904d8c28c6d94a7a41c3adb8d2953e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 135/145] fix: show_image_slideshow without a filename failed
 with a TypeError

---
 mdp/utils/slideshow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/slideshow.py b/mdp/utils/slideshow.py
index f47aebd..1d14087 100644
--- a/mdp/utils/slideshow.py
+++ b/mdp/utils/slideshow.py
@@ -742,7 +742,9 @@ def show_image_slideshow(filenames, image_size, filename=None, title=None,
     For additional keyword arguments see the ImageHTMLSlideShow class.
     """
     if filename is None:
-        html_file = tempfile.NamedTemporaryFile(suffix=".html", prefix="MDP_")
+        html_file = tempfile.NamedTemporaryFile(mode='w', suffix=".html",
+                                                prefix="MDP_")
+        filename = html_file.name
     else:
         html_file = open(filename, 'w')
     html_file.write('<html>\n<head>\n<title>%s</title>\n' % title)
-- 
2.43.0


From edd43b784fbd015d610603a7de7a3482545a17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:47 +0000
Subject: [PATCH 136/145] fix: wrapped sklearn transformers and predictors had
 a wrong output_dim and returned 1-dim, sparse or wrongly typed outputs

---
 mdp/nodes/scikits_nodes.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index d48133c..855d677 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -200,6 +200,18 @@ Please set the output dimensionality using sklearn keyword
 arguments (e.g., 'n_components', or 'k'). See the docstring of this
 class for details."""
 
+def _node_output(node, y):
+    """Return the output of a sklearn algorithm in the form of a node output,
+    i.e., as a 2-dim array with one row per sample and the dtype of the node.
+    """
+    if hasattr(y, 'toarray'):
+        y = y.toarray()
+    y = mdp.numx.asarray(y)
+    if y.ndim == 1:
+        y = y[:, mdp.numx.newaxis]
+    return node._refcast(y)
+
+
 def wrap_scikits_classifier(scikits_class):
     """Wrap a sklearn classifier as an MDP Node subclass.
     The wrapper maps these MDP methods to their sklearn equivalents:
@@ -355,7 +367,11 @@ def wrap_scikits_transformer(scikits_class):
             return self.scikits_alg.fit(self.data, **kwargs)
 
         def _execute(self, x):
-            return self.scikits_alg.transform(x)
+            return _node_output(self, self.scikits_alg.transform(x))
+
+        def _set_default_output_dim(self):
+            # the output dimension is defined by the wrapped algorithm
+            self.output_dim = self._execute(self.data[:1]).shape[1]
 
         # ---- administrative details
 
@@ -456,7 +472,11 @@ def wrap_scikits_predictor(scikits_class):
             return self.scikits_alg.fit(self.data, **kwargs)
 
         def _execute(self, x):
-            return self.scikits_alg.predict(x)
+            return _node_output(self, self.scikits_alg.predict(x))
+
+        def _set_default_output_dim(self):
+            # the output dimension is defined by the wrapped algorithm
+            self.output_dim = self._execute(self.data[:1]).shape[1]
 
         # ---- administrative details
 
-- 
2.43.0


From 0e1ba833a84a607fa460a64b9b875bb9411002b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 137/145] fix: a BiFlow refused (as 'beyond the flow length')
 data that the stop_training of its last node sends on, which nested and
 parallel flows accept

---
 bimdp/biflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 61c35d3..40e8572 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -280,6 +280,11 @@ class BiFlow(mdp.Flow):
             err = ("Node produced invalid return value " +
                    "for stop_training: " + str(result))
             raise BiFlowException(err)
+        if target is None:
+            target = 1
+        if isinstance(target, int) and nodenr + target in (-1, len(self.flow)):
+            # an end of the flow is reached
+            return
         i_node = self._target_to_index(target, nodenr)
         result = self._execute_seq(x, msg, i_node=i_node)
         # check that we reached the end of flow or get EXIT_TARGET,
-- 
2.43.0


From 316958f3d177e4e331668624ee2243d1f2e11ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 138/145] fix: a ParallelBiFlow removed node specific keys from
 the stop messages owned by the user, so that later training phases missed
 them

---
 bimdp/parallel/parallelbiflow.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 01f28b7..09631ac 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -403,8 +403,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 raise mdp.FlowException(err_str)
         # perform stop_training with result check
         self._stop_training_hook()
-        result = self._flownode.stop_training(
-                                self._stop_messages[self._i_train_node])
+        result = self._flownode.stop_training(self._get_stop_message())
         self._post_stop_training_hook()
         # without a target the end of the flow was reached
         if isinstance(result, tuple) and (len(result) == 3):
@@ -416,6 +415,14 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 raise BiFlowException(err)
         self._bi_reset()
 
+    def _get_stop_message(self):
+        """Return the stop message for the node that is being trained."""
+        stop_msg = self._stop_messages[self._i_train_node]
+        if isinstance(stop_msg, dict):
+            # nodes remove keys, but the message belongs to the user
+            stop_msg = stop_msg.copy()
+        return stop_msg
+
     def _create_train_task(self):
         """Create and return a single training task without callable.
 
@@ -578,8 +585,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 self._flownode.join(result)
             # perform local stop_training with result check
             self._stop_training_hook()
-            result = self._flownode.stop_training(
-                                    self._stop_messages[self._i_train_node])
+            result = self._flownode.stop_training(self._get_stop_message())
             self._post_stop_training_hook()
             # without a target the end of the flow was reached
             if isinstance(result, tuple) and (len(result) == 3):
-- 
2.43.0


From 74d167af54f83034fa8dfc3b096a8b129f2383e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:38 +0000
Subject: [PATCH 139/145] fix: a use_copies message key that names the
 CloneBiLayer (layer->use_copies) was dropped without effect

---
 bimdp/hinet/bilayer.py  | 15 ++++++++++++---
 bimdp/nodes/gradient.py |  4 ++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index 031b2bb..7028ea2 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -100,8 +100,11 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         """
         pass
 
-    def _execute(self, x, msg=None):
+    def _execute(self, x, msg=None, use_copies=None):
         """Process the data through the internal nodes."""
+        if use_copies is not None:
+            # from a key that is specific for this layer
+            self.use_copies = use_copies
         if msg is not None:
             self._extract_message_copy_flag(msg)
         y_results = []
@@ -148,10 +151,13 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:
             return y
 
-    def _train(self, x, msg=None):
+    def _train(self, x, msg=None, use_copies=None):
         """Perform single training step by training the internal nodes."""
         ## this code is mostly identical to the execute code,
         ## currently the only difference is that train is called
+        if use_copies is not None:
+            # from a key that is specific for this layer
+            self.use_copies = use_copies
         if msg is not None:
             self._extract_message_copy_flag(msg)
         y_results = []
@@ -198,12 +204,15 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         else:
             return y
 
-    def _stop_training(self, msg=None):
+    def _stop_training(self, msg=None, use_copies=None):
         """Call stop_training on the internal nodes.
 
         The outgoing result message is also searched for a use_copies key,
         which is then applied if found.
         """
+        if use_copies is not None:
+            # from a key that is specific for this layer
+            self.use_copies = use_copies
         if msg is not None:
             self._extract_message_copy_flag(msg)
         target = None
diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index d951d62..20c30a6 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -153,14 +153,14 @@ def _same_input_layer_grad(self, x):
     return np.concatenate([node._get_grad(x) for node in self.nodes], axis=1)
 
 @mdp.extension_method("gradient", CloneBiLayer, "_execute")
-def _clonebilayer_execute(self, x, msg=None):
+def _clonebilayer_execute(self, x, msg=None, use_copies=None):
     if (msg and msg.get("method") == "gradient" and msg.get("grad") is None
             and x is not None):
         # the internal nodes only see their own part of the input, so the
         # gradient with respect to the full input has to be started here
         msg = dict(msg)
         msg["grad"] = np.tile(np.eye(self.input_dim), (len(x), 1, 1))
-    return self._non_extension__execute(x, msg)
+    return self._non_extension__execute(x, msg, use_copies)
 
 @mdp.extension_method("gradient", mdp.hinet.Switchboard, "_get_grad")
 def _switchboard_grad(self, x):
-- 
2.43.0


From 69d43ffc1672d53bd96472d5b7a74d49a88377d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:27 +0000
Subject: [PATCH 140/145] fix: an inversion requested by a message (method:
 inverse) did not cast the data to the dtype of the node, unlike inverse():
 wrong output dtype

---
 bimdp/binode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index e2fa7ac..b9bc35f 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -159,6 +159,7 @@ class BiNode(mdp.Node):
             # resolution to internal nodes by manipulating _get_method
             elif method == self._inverse:
                 self._pre_inversion_checks(x)
+                x = self._refcast(x)
         result = method(x, **arg_dict)
         return self._combine_result(result, msg, target)
 
@@ -219,6 +220,7 @@ class BiNode(mdp.Node):
                 x = self._refcast(x)
             elif method == self._inverse:
                 self._pre_inversion_checks(x)
+                x = self._refcast(x)
         result = method(x, **arg_dict)
         if result is None:
             return None
-- 
2.43.0


From fec2e9521c97ac2f7029a991be0e6e3535f49ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:50 +0000
Subject: [PATCH 141/145] fix: the value returned by a coroutine method at its
 end came back wrapped in a 1-tuple (IndexError or wrong result)

---
 bimdp/binode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index b9bc35f..85ff35d 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -533,7 +533,8 @@ def binode_coroutine(args=None, defaults=()):
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
                 if len(exception.args):
-                    return exception.args
+                    # the value of the return statement in the coroutine
+                    return exception.args[0]
                 else:
                     return None
         # turn the signature into the one specified by the args
@@ -558,7 +559,8 @@ def binode_coroutine(args=None, defaults=()):
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
                 if len(exception.args):
-                    return exception.args
+                    # the value of the return statement in the coroutine
+                    return exception.args[0]
                 else:
                     return None
         coroutine_initialization = mdp.NodeMetaclass._wrap_function(
-- 
2.43.0


From bbba8f3f4b608a4608c5fa02a0d98e7811e7d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:25 +0000
Subject: [PATCH 142/145] fix: an extension class deriving from another
 extension class and overriding one of its methods re-registered the
 overridden default of its base for the node class (subclasses of the node
 then got different versions)

---
 mdp/extension.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index f5f355b..75867c3 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -224,26 +224,30 @@ class ExtensionNodeMetaclass(NodeMetaclass):
         # reverse order and register all attributes starting from the
         # classes which are subclasses from ExtensionNode.
         extension_subtree = False
+        # values in derived classes override those of their base classes
+        extension_attrs = dict()
         for base in reversed(ext_node_cls.__mro__):
             # make sure we only inject methods in classes which have
             # ExtensionNode as superclass
             if extension_subtree and ExtensionNode in base.__mro__:
                 for attr_name, attr_value in list(base.__dict__.items()):
                     if attr_name not in _NON_EXTENSION_ATTRIBUTES:
-                        # check if this attribute has not already been
-                        # extended in one of the base classes
-                        already_active = False
-                        for bb in ext_node_cls.__mro__:
-                            if (bb in _extensions[ext_name] and
-                            attr_name in _extensions[ext_name][bb] and
-                            _extensions[ext_name][bb][attr_name] == attr_value):
-                                already_active = True
-                        # only register if not yet active
-                        if not already_active:
-                            _register_attribute(ext_name, base_node_cls,
-                                                attr_name, attr_value)
+                        extension_attrs[attr_name] = attr_value
             if base == ExtensionNode:
                 extension_subtree = True
+        for attr_name, attr_value in list(extension_attrs.items()):
+            # check if this attribute has not already been
+            # extended in one of the base classes
+            already_active = False
+            for bb in ext_node_cls.__mro__:
+                if (bb in _extensions[ext_name] and
+                attr_name in _extensions[ext_name][bb] and
+                _extensions[ext_name][bb][attr_name] == attr_value):
+                    already_active = True
+            # only register if not yet active
+            if not already_active:
+                _register_attribute(ext_name, base_node_cls,
+                                    attr_name, attr_value)
         return ext_node_cls
 
 
-- 
2.43.0


From bd6c7e92c9bbf17520a0639de598fcdffa62030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:31 +0000
Subject: [PATCH 143/145] fix: FlowNode.copy() made several copies of a node
 that occurs repeatedly in its flow, and of nodes that attributes of the
 FlowNode refer to

---
 mdp/hinet/flownode.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 6a48c00..6dcb4da 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -207,13 +207,18 @@ class FlowNode(mdp.Node):
         #    FlowNode the _train_phase of this node will no longer fit the
         #    result of _get_train_seq).
         #
-        # copy the nodes by delegation
+        # copy the nodes by delegation (only once if a node occurs repeatedly)
         old_nodes = self._flow.flow
-        new_nodes = [node.copy() for node in old_nodes]
-        # now copy the rest of this flownode via deepcopy
+        memo = {}
+        for node in old_nodes:
+            if id(node) not in memo:
+                memo[id(node)] = node.copy()
+        new_nodes = [memo[id(node)] for node in old_nodes]
+        # now copy the rest of this flownode via deepcopy, references to the
+        # nodes become references to their copies
         self._flow.flow = None
         try:
-            new_flownode = _copy.deepcopy(self)
+            new_flownode = _copy.deepcopy(self, memo)
         finally:
             self._flow.flow = old_nodes
         # (the container can also be a deque)
-- 
2.43.0


From 9ce6db9e5ac6cc6cb88442c0645e169c7d29440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 144/145] fix: restore the original CRLF line endings of three
 modules

---
 mdp/nodes/rbm_nodes.py        | 1054 +++++++++++++++---------------
 mdp/nodes/regression_nodes.py |  320 ++++-----
 mdp/nodes/scikits_nodes.py    | 1148 ++++++++++++++++-----------------
 3 files changed, 1261 insertions(+), 1261 deletions(-)

diff --git a/mdp/nodes/rbm_nodes.py b/mdp/nodes/rbm_nodes.py
index 0030e78..574823f 100644
--- a/mdp/nodes/rbm_nodes.py
+++ b/mdp/nodes/rbm_nodes.py
@@ -1,528 +1,528 @@
-from __future__ import print_function
-from __future__ import division
-from builtins import range
-from past.utils import old_div
-__docformat__ = "restructuredtext en"
-
-import mdp
-from mdp import numx
-from mdp.utils import mult
-
-random = mdp.numx_rand.random
-randn = mdp.numx_rand.randn
-exp = mdp.numx.exp
-
-# TODO: does it make sense to define the inverse of RBMNode as sampling
-#    from the visible layer given an hidden state?
-
-# this and the other replication functions should go in mdp.utils
-def rrep(x, n):
-    """Replicate x n-times on a new last dimension.
-
-    :param x: The object to replicate.
-    :type x: numpy.ndarray
-
-    :param n: Number of replicas.
-    :type n: int
-    """
-    shp = x.shape + (1,)
-    return x.reshape(shp).repeat(n, axis=-1)
-
-
-class RBMNode(mdp.Node):
-    """Restricted Boltzmann Machine node. An RBM is an undirected
-    probabilistic network with binary variables. The graph is
-    bipartite into observed (*visible*) and hidden (*latent*) variables.
-    By default, the ``execute`` method returns the *probability* of
-    one of the hiden variables being equal to 1 given the input.
-    Use the ``sample_v`` method to sample from the observed variables
-    given a setting of the hidden variables, and ``sample_h`` to do the
-    opposite. The ``energy`` method can be used to compute the energy
-    of a given setting of all variables.
-
-    |
-
-    .. admonition:: Reference
-
-        For more information on RBMs, see
-        Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668
-
-        The network is trained by Contrastive Divergence, as described in
-        Hinton, G. E. (2002). Training products of experts by minimizing
-        contrastive divergence. Neural Computation, 14(8):1711-1800
-
-    :ivar w: Generative weights between hidden and observed variables.
-
-    :ivar bv: Bias vector of the observed variables.
-
-    :ivar bh: Bias vector of the hidden variables.
-    """
-
-    def __init__(self, hidden_dim, visible_dim = None, dtype = None):
-        """Initializes an object of type 'RBMNode'.
-
-        :param hidden_dim: Number of hidden variables.
-        :type hidden_dim: int
-
-        :param visible_dim: Number of observed variables.
-            Default is None.
-        :type visible_dim: int
-
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(RBMNode, self).__init__(visible_dim, hidden_dim, dtype)
-        self._initialized = False
-
-    def _init_weights(self):
-        # weights and biases are initialized to small random values to
-        # break the simmetry that might lead to degenerate solutions during
-        # learning
-        self._initialized = True
-
-        # weights
-        self.w = self._refcast(randn(self.input_dim, self.output_dim)*0.1)
-        # bias on the visibile (input) units
-        self.bv = self._refcast(randn(self.input_dim)*0.1)
-        # bias on the hidden (output) units
-        self.bh = self._refcast(randn(self.output_dim)*0.1)
-
-        # delta w, bv, bh used for momentum term
-        self._delta = (0., 0., 0.)
-
-    def _sample_h(self, v):
-        # returns P(h=1|v,W,b) and a sample from it
-        probs = old_div(1.,(1. + exp(-self.bh - mult(v, self.w))))
-        h = (probs > random(probs.shape)).astype(self.dtype)
-        return probs, h
-
-    def _sample_v(self, h):
-        # returns  P(v=1|h,W,b) and a sample from it
-        probs = old_div(1.,(1. + exp(-self.bv - mult(h, self.w.T))))
-        v = (probs > random(probs.shape)).astype(self.dtype)
-        return probs, v
-
-    def _train(self, v, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
-               update_with_ph=True, verbose=False):
-        """Update the internal structures according to the input data `v`.
-        The training is performed using Contrastive Divergence (CD).
-        
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param n_updates: Number of CD iterations. Default value: 1
-        :type n_updates: int
-
-        :param epsilon: Learning rate. Default value: 0.1
-        :type epsilon: float
-
-        :param decay: Weight decay term. Default value: 0.
-        :type decay: float
-
-        :param momentum: Momentum term. Default value: 0.
-        :type momentum: float
-
-        :param update_with_ph: In his code, G.Hinton updates the hidden biases
-            using the probability of the hidden unit activations instead of a
-            sample from it. This is in order to speed up sequential
-            learning of RBMs. Set this to False to use the samples instead.
-            Default value: True
-        :type update_with_ph: bool
-
-        :param verbose: Controls whether information about the energy and
-            training error is printed.
-        :type verbose: bool
-        """
-        if not self._initialized:
-            self._init_weights()
-
-        # useful quantities
-        n = v.shape[0]
-        w, bv, bh = self.w, self.bv, self.bh
-
-        # old gradients for momentum term
-        dw, dbv, dbh = self._delta
-
-        # first update of the hidden units for the data term
-        ph_data, h_data = self._sample_h(v)
-        # n updates of both v and h for the model term
-        h_model = h_data.copy()
-        for i in range(n_updates):
-            pv_model, v_model = self._sample_v(h_model)
-            ph_model, h_model = self._sample_h(v_model)
-
-        # update w
-        data_term = mult(v.T, ph_data)
-        model_term = mult(v_model.T, ph_model)
-        dw = momentum*dw + epsilon*(old_div((data_term - model_term),n) - decay*w)
-        w += dw
-
-        # update bv
-        data_term = v.sum(axis=0)
-        model_term = v_model.sum(axis=0)
-        dbv = momentum*dbv + epsilon*(old_div((data_term - model_term),n))
-        bv += dbv
-
-        # update bh
-        if update_with_ph:
-            data_term = ph_data.sum(axis=0)
-            model_term = ph_model.sum(axis=0)
-        else:
-            data_term = h_data.sum(axis=0)
-            model_term = h_model.sum(axis=0)
-        dbh = momentum*dbh + epsilon*(old_div((data_term - model_term),n))
-        bh += dbh
-
-        self._delta = (dw, dbv, dbh)
-        self._train_err = float(((v-v_model)**2.).sum())
-
-        if verbose:
-            print('training error', old_div(self._train_err,v.shape[0]))
-            ph, h = self._sample_h(v)
-            print('energy', self._energy(v, ph).sum())
-
-    def _stop_training(self):
-        #del self._delta
-        #del self._train_err
-        pass
-
-    # execution methods
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def _pre_sampling_checks(self, y):
-        self._if_training_stop_training()
-        # control the dimension of y
-        self._check_output(y)
-
-    def sample_h(self, v):
-        """Sample the hidden variables given observations v.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
-            probability that variable ``i`` is one given the observations
-            ``v[n,:]``, and ``h[n,i]`` is a sample from the posterior probability.
-        :rtype: tuple
-        """
-        self._pre_execution_checks(v)
-        return self._sample_h(v)
-
-    def sample_v(self, h):
-        """Sample the observed variables given hidden variable state h.
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :returns: A tuple ``(prob_v, v)``, where ``prob_v[n,i]`` is the
-            probability that variable ``i`` is one given the hidden
-            variables ``h[n,:]``, and ``v[n,i]`` is a sample from that
-            conditional probability.
-        :rtype: tuple
-        """
-        self._pre_sampling_checks(h)
-        return self._sample_v(h)
-
-    def _energy(self, v, h):
-        return (-mult(v, self.bv) - mult(h, self.bh) -
-                (mult(v, self.w)*h).sum(axis=1))
-
-    def energy(self, v, h):
-        """Compute the energy of the RBM given observed variables state `v` and
-        hidden variables state `h`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :return: The energy of the RBM given observed and the hidden variables.
-        :rtype: float
-        """
-        return self._energy(v, h)
-
-    def _execute(self, v, return_probs=True):
-        """If `return_probs` is True, returns the probability of the
-        hidden variables h[n,i] being 1 given the observations v[n,:].
-        If `return_probs` is False, return a sample from that probability.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param return_probs: Controls the return value. Default value: True
-        :type return_probs: bool
-
-        :return: The probability of the hidden variables being 1 given the
-            observations or a sample from that probability.
-        :rtype: float
-        """
-        probs, h = self._sample_h(v)
-        if return_probs:
-            return probs
-        else:
-            return h
-
-class RBMWithLabelsNode(RBMNode):
-    """Restricted Boltzmann Machine with softmax labels. An RBM is an
-    undirected probabilistic network with binary variables. In this
-    case, the node is partitioned into a set of observed (*visible*)
-    variables, a set of hidden (*latent*) variables, and a set of
-    label variables (also observed), only one of which is active at
-    any time. The node is able to learn associations between the
-    visible variables and the labels.
-    By default, the ``execute`` method returns the *probability* of
-    one of the hiden variables being equal to 1 given the input.
-    Use the ``sample_v`` method to sample from the observed variables
-    (visible and labels) given a setting of the hidden variables, and
-    ``sample_h`` to do the opposite. The ``energy`` method can be used
-    to compute the energy of a given setting of all variables.
-
-    |
-
-    .. admonition:: Reference
-
-        The network is trained by Contrastive Divergence, as described in
-        Hinton, G. E. (2002). Training products of experts by minimizing
-        contrastive divergence. Neural Computation, 14(8):1711-1800
-
-        For more information on RBMs with labels, see:
-    
-        * Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668.
-        * Hinton, G. E, Osindero, S., and Teh, Y. W. (2006). A fast learning
-          algorithm for deep belief nets. Neural Computation, 18:1527-1554.
-
-
-    :ivar w: Generative weights between hidden and observed variables.
-
-    :ivar bv: Bias vector of the observed variables.
-
-    :ivar bh: Bias vector of the hidden variables.
-    """
-
-    def __init__(self, hidden_dim, labels_dim, visible_dim=None, dtype=None):
-        """Initializes an object of type 'RBMWithLabelsNode'.
-
-        :param hidden_dim: Number of hidden variables.
-        :type hidden_dim: int
-
-        :param labels_dim: Number of labels.
-        :type labels_dim: int
-
-        :param visible_dim: Number of observed variables.
-            Default is None.
-        :type visible_dim: int
-
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(RBMWithLabelsNode, self).__init__(None, None, dtype)
-
-        self._labels_dim = labels_dim
-        if visible_dim is not None:
-            self.input_dim = visible_dim+labels_dim
-
-        self.output_dim = hidden_dim
-        self._initialized = False
-
-    def _set_input_dim(self, n):
-        self._input_dim = n
-        self._visible_dim = n - self._labels_dim
-
-    def _sample_v(self, h, sample_l=False, concatenate=True):
-        # returns  P(v=1|h,W,b), a sample from it, P(l=1|h,W,b),
-        # and a sample from it
-
-        ldim, vdim = self._labels_dim, self._visible_dim
-
-        # activation
-        a = self.bv + mult(h, self.w.T)
-        av, al = a[:, :vdim], a[:, vdim:]
-
-        # ## visible units: logistic activation
-        probs_v = old_div(1.,(1. + exp(-av)))
-        v = (probs_v > random(probs_v.shape)).astype('d')
-
-        # ## label units: softmax activation
-        # subtract maximum to regularize exponent
-        exponent = al - rrep(al.max(axis=1), ldim)
-        probs_l = exp(exponent)
-        probs_l /= rrep(probs_l.sum(axis=1), ldim)
-
-        if sample_l:
-            # ?? todo: I'm sure this can be optimized
-            l = numx.zeros((h.shape[0], ldim))
-            # the probabilities have to sum up to one in double precision
-            pvals = probs_l.astype('d')
-            pvals /= rrep(pvals.sum(axis=1), ldim)
-            for t in range(h.shape[0]):
-                l[t, :] = mdp.numx_rand.multinomial(1, pvals[t, :])
-        else:
-            l = probs_l.copy()
-
-        if concatenate:
-            probs = numx.concatenate((probs_v, probs_l), axis=1)
-            x = numx.concatenate((v, l), axis=1)
-            return probs, x
-        else:
-            return probs_v, probs_l, v, l
-
-    # execution methods
-
-    def sample_h(self, v, l):
-        """Sample the hidden variables given observations v and labels `l`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
-            probability that variable ``i`` is one given the observations
-            ``v[n,:]`` and the labels ``l[n,:]``, and ``h[n,i]`` is a sample
-            from the posterior probability.
-        :rtype: tuple
-        """
-
-        x = numx.concatenate((v, l), axis=1)
-        self._pre_execution_checks(x)
-        return self._sample_h(x)
-
-    def sample_v(self, h):
-        """Sample the observed variables given hidden variable state `h`.
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :returns: A tuple ``(prob_v, probs_l, v, l)``, where ``prob_v[n,i]``
-          is the probability that the visible variable ``i`` is one given
-          the hidden variables ``h[n,:]``, and ``v[n,i]`` is a sample from
-          that conditional probability. ``prob_l`` and ``l`` have similar
-          interpretations for the label variables. Note that the labels are
-          activated using a softmax function, so that only one label can be
-          active at any time.
-        :rtype: tuple
-        """
-        self._pre_sampling_checks(h)
-
-        probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
-                                                concatenate=False)
-        return probs_v, probs_l, v, l
-
-    def energy(self, v, h, l):
-        """Compute the energy of the RBM given observed variables state `v`
-        and `l`, and hidden variables state `h`.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :param h: The hidden variable state h.
-        :type h: numpy.ndarray
-
-        :return: The energy of the RBM given observed and the hidden variables.
-        :rtype: float
-        """
-
-        x = numx.concatenate((v, l), axis=1)
-        return self._energy(x, h)
-
-    def execute(self, v, l, return_probs = True):
-        """If `return_probs` is True, returns the probability of the
-        hidden variables h[n,i] being 1 given the observations v[n,:]
-        and l[n,:].
-
-        If `return_probs` is False, return a sample from that probability.
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: The labels. A binary matrix having different variables on
-            different columns and observations on the rows.
-            Only one value per row should be 1.
-        :type l: numpy.ndarray
-
-        :param return_probs: Controls the return value. Default value: True
-        :type return_probs: bool
-
-        :return: The probability of the hidden variables being 1 given the
-            observations and labels or a sample from that probability.
-        :rtype: float
-        """
-        x = numx.concatenate((v, l), axis=1)
-        self._pre_execution_checks(x)
-
-        probs, h = self._sample_h(self._refcast(x))
-        if return_probs:
-            return probs
-        else:
-            return h
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def train(self, v, l, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
-              verbose=False):
-        """Update the internal structures according to the visible data `v`
-        and the labels `l`.
-        The training is performed using Contrastive Divergence (CD).
-
-        :param v: A binary matrix having different variables on different
-            columns and observations on the rows.
-        :type v: numpy.ndarray
-
-        :param l: A binary matrix having different variables on different
-            columns and observations on the rows. Only one value per row should
-            be 1.
-        :type l: numpy.ndarray
-
-        :param n_updates: Number of CD iterations. Default value: 1
-        :type n_updates: int
-
-        :param epsilon: Learning rate. Default value: 0.1
-        :type epsilon: float
-
-        :param decay: Weight decay term. Default value: 0.
-        :type decay: float
-
-        :param momentum: Momentum term. Default value: 0.
-        :type momentum: float
-
-        :param verbose: Controls the verbosity.
-        :type verbose: bool
-        """
-
-        if not self.is_training():
-            errstr = "The training phase has already finished."
-            raise mdp.TrainingFinishedException(errstr)
-
-        x = numx.concatenate((v, l), axis=1)
-        self._check_input(x)
-
-        self._train_phase_started = True
-        self._train_seq[self._train_phase][0](self._refcast(x),
-                                              n_updates=n_updates,
-                                              epsilon=epsilon,
-                                              decay=decay,
-                                              momentum=momentum,
+from __future__ import print_function
+from __future__ import division
+from builtins import range
+from past.utils import old_div
+__docformat__ = "restructuredtext en"
+
+import mdp
+from mdp import numx
+from mdp.utils import mult
+
+random = mdp.numx_rand.random
+randn = mdp.numx_rand.randn
+exp = mdp.numx.exp
+
+# TODO: does it make sense to define the inverse of RBMNode as sampling
+#    from the visible layer given an hidden state?
+
+# this and the other replication functions should go in mdp.utils
+def rrep(x, n):
+    """Replicate x n-times on a new last dimension.
+
+    :param x: The object to replicate.
+    :type x: numpy.ndarray
+
+    :param n: Number of replicas.
+    :type n: int
+    """
+    shp = x.shape + (1,)
+    return x.reshape(shp).repeat(n, axis=-1)
+
+
+class RBMNode(mdp.Node):
+    """Restricted Boltzmann Machine node. An RBM is an undirected
+    probabilistic network with binary variables. The graph is
+    bipartite into observed (*visible*) and hidden (*latent*) variables.
+    By default, the ``execute`` method returns the *probability* of
+    one of the hiden variables being equal to 1 given the input.
+    Use the ``sample_v`` method to sample from the observed variables
+    given a setting of the hidden variables, and ``sample_h`` to do the
+    opposite. The ``energy`` method can be used to compute the energy
+    of a given setting of all variables.
+
+    |
+
+    .. admonition:: Reference
+
+        For more information on RBMs, see
+        Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668
+
+        The network is trained by Contrastive Divergence, as described in
+        Hinton, G. E. (2002). Training products of experts by minimizing
+        contrastive divergence. Neural Computation, 14(8):1711-1800
+
+    :ivar w: Generative weights between hidden and observed variables.
+
+    :ivar bv: Bias vector of the observed variables.
+
+    :ivar bh: Bias vector of the hidden variables.
+    """
+
+    def __init__(self, hidden_dim, visible_dim = None, dtype = None):
+        """Initializes an object of type 'RBMNode'.
+
+        :param hidden_dim: Number of hidden variables.
+        :type hidden_dim: int
+
+        :param visible_dim: Number of observed variables.
+            Default is None.
+        :type visible_dim: int
+
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(RBMNode, self).__init__(visible_dim, hidden_dim, dtype)
+        self._initialized = False
+
+    def _init_weights(self):
+        # weights and biases are initialized to small random values to
+        # break the simmetry that might lead to degenerate solutions during
+        # learning
+        self._initialized = True
+
+        # weights
+        self.w = self._refcast(randn(self.input_dim, self.output_dim)*0.1)
+        # bias on the visibile (input) units
+        self.bv = self._refcast(randn(self.input_dim)*0.1)
+        # bias on the hidden (output) units
+        self.bh = self._refcast(randn(self.output_dim)*0.1)
+
+        # delta w, bv, bh used for momentum term
+        self._delta = (0., 0., 0.)
+
+    def _sample_h(self, v):
+        # returns P(h=1|v,W,b) and a sample from it
+        probs = old_div(1.,(1. + exp(-self.bh - mult(v, self.w))))
+        h = (probs > random(probs.shape)).astype(self.dtype)
+        return probs, h
+
+    def _sample_v(self, h):
+        # returns  P(v=1|h,W,b) and a sample from it
+        probs = old_div(1.,(1. + exp(-self.bv - mult(h, self.w.T))))
+        v = (probs > random(probs.shape)).astype(self.dtype)
+        return probs, v
+
+    def _train(self, v, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
+               update_with_ph=True, verbose=False):
+        """Update the internal structures according to the input data `v`.
+        The training is performed using Contrastive Divergence (CD).
+        
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param n_updates: Number of CD iterations. Default value: 1
+        :type n_updates: int
+
+        :param epsilon: Learning rate. Default value: 0.1
+        :type epsilon: float
+
+        :param decay: Weight decay term. Default value: 0.
+        :type decay: float
+
+        :param momentum: Momentum term. Default value: 0.
+        :type momentum: float
+
+        :param update_with_ph: In his code, G.Hinton updates the hidden biases
+            using the probability of the hidden unit activations instead of a
+            sample from it. This is in order to speed up sequential
+            learning of RBMs. Set this to False to use the samples instead.
+            Default value: True
+        :type update_with_ph: bool
+
+        :param verbose: Controls whether information about the energy and
+            training error is printed.
+        :type verbose: bool
+        """
+        if not self._initialized:
+            self._init_weights()
+
+        # useful quantities
+        n = v.shape[0]
+        w, bv, bh = self.w, self.bv, self.bh
+
+        # old gradients for momentum term
+        dw, dbv, dbh = self._delta
+
+        # first update of the hidden units for the data term
+        ph_data, h_data = self._sample_h(v)
+        # n updates of both v and h for the model term
+        h_model = h_data.copy()
+        for i in range(n_updates):
+            pv_model, v_model = self._sample_v(h_model)
+            ph_model, h_model = self._sample_h(v_model)
+
+        # update w
+        data_term = mult(v.T, ph_data)
+        model_term = mult(v_model.T, ph_model)
+        dw = momentum*dw + epsilon*(old_div((data_term - model_term),n) - decay*w)
+        w += dw
+
+        # update bv
+        data_term = v.sum(axis=0)
+        model_term = v_model.sum(axis=0)
+        dbv = momentum*dbv + epsilon*(old_div((data_term - model_term),n))
+        bv += dbv
+
+        # update bh
+        if update_with_ph:
+            data_term = ph_data.sum(axis=0)
+            model_term = ph_model.sum(axis=0)
+        else:
+            data_term = h_data.sum(axis=0)
+            model_term = h_model.sum(axis=0)
+        dbh = momentum*dbh + epsilon*(old_div((data_term - model_term),n))
+        bh += dbh
+
+        self._delta = (dw, dbv, dbh)
+        self._train_err = float(((v-v_model)**2.).sum())
+
+        if verbose:
+            print('training error', old_div(self._train_err,v.shape[0]))
+            ph, h = self._sample_h(v)
+            print('energy', self._energy(v, ph).sum())
+
+    def _stop_training(self):
+        #del self._delta
+        #del self._train_err
+        pass
+
+    # execution methods
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def _pre_sampling_checks(self, y):
+        self._if_training_stop_training()
+        # control the dimension of y
+        self._check_output(y)
+
+    def sample_h(self, v):
+        """Sample the hidden variables given observations v.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
+            probability that variable ``i`` is one given the observations
+            ``v[n,:]``, and ``h[n,i]`` is a sample from the posterior probability.
+        :rtype: tuple
+        """
+        self._pre_execution_checks(v)
+        return self._sample_h(v)
+
+    def sample_v(self, h):
+        """Sample the observed variables given hidden variable state h.
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :returns: A tuple ``(prob_v, v)``, where ``prob_v[n,i]`` is the
+            probability that variable ``i`` is one given the hidden
+            variables ``h[n,:]``, and ``v[n,i]`` is a sample from that
+            conditional probability.
+        :rtype: tuple
+        """
+        self._pre_sampling_checks(h)
+        return self._sample_v(h)
+
+    def _energy(self, v, h):
+        return (-mult(v, self.bv) - mult(h, self.bh) -
+                (mult(v, self.w)*h).sum(axis=1))
+
+    def energy(self, v, h):
+        """Compute the energy of the RBM given observed variables state `v` and
+        hidden variables state `h`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :return: The energy of the RBM given observed and the hidden variables.
+        :rtype: float
+        """
+        return self._energy(v, h)
+
+    def _execute(self, v, return_probs=True):
+        """If `return_probs` is True, returns the probability of the
+        hidden variables h[n,i] being 1 given the observations v[n,:].
+        If `return_probs` is False, return a sample from that probability.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param return_probs: Controls the return value. Default value: True
+        :type return_probs: bool
+
+        :return: The probability of the hidden variables being 1 given the
+            observations or a sample from that probability.
+        :rtype: float
+        """
+        probs, h = self._sample_h(v)
+        if return_probs:
+            return probs
+        else:
+            return h
+
+class RBMWithLabelsNode(RBMNode):
+    """Restricted Boltzmann Machine with softmax labels. An RBM is an
+    undirected probabilistic network with binary variables. In this
+    case, the node is partitioned into a set of observed (*visible*)
+    variables, a set of hidden (*latent*) variables, and a set of
+    label variables (also observed), only one of which is active at
+    any time. The node is able to learn associations between the
+    visible variables and the labels.
+    By default, the ``execute`` method returns the *probability* of
+    one of the hiden variables being equal to 1 given the input.
+    Use the ``sample_v`` method to sample from the observed variables
+    (visible and labels) given a setting of the hidden variables, and
+    ``sample_h`` to do the opposite. The ``energy`` method can be used
+    to compute the energy of a given setting of all variables.
+
+    |
+
+    .. admonition:: Reference
+
+        The network is trained by Contrastive Divergence, as described in
+        Hinton, G. E. (2002). Training products of experts by minimizing
+        contrastive divergence. Neural Computation, 14(8):1711-1800
+
+        For more information on RBMs with labels, see:
+    
+        * Geoffrey E. Hinton (2007) Boltzmann machine. Scholarpedia, 2(5):1668.
+        * Hinton, G. E, Osindero, S., and Teh, Y. W. (2006). A fast learning
+          algorithm for deep belief nets. Neural Computation, 18:1527-1554.
+
+
+    :ivar w: Generative weights between hidden and observed variables.
+
+    :ivar bv: Bias vector of the observed variables.
+
+    :ivar bh: Bias vector of the hidden variables.
+    """
+
+    def __init__(self, hidden_dim, labels_dim, visible_dim=None, dtype=None):
+        """Initializes an object of type 'RBMWithLabelsNode'.
+
+        :param hidden_dim: Number of hidden variables.
+        :type hidden_dim: int
+
+        :param labels_dim: Number of labels.
+        :type labels_dim: int
+
+        :param visible_dim: Number of observed variables.
+            Default is None.
+        :type visible_dim: int
+
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(RBMWithLabelsNode, self).__init__(None, None, dtype)
+
+        self._labels_dim = labels_dim
+        if visible_dim is not None:
+            self.input_dim = visible_dim+labels_dim
+
+        self.output_dim = hidden_dim
+        self._initialized = False
+
+    def _set_input_dim(self, n):
+        self._input_dim = n
+        self._visible_dim = n - self._labels_dim
+
+    def _sample_v(self, h, sample_l=False, concatenate=True):
+        # returns  P(v=1|h,W,b), a sample from it, P(l=1|h,W,b),
+        # and a sample from it
+
+        ldim, vdim = self._labels_dim, self._visible_dim
+
+        # activation
+        a = self.bv + mult(h, self.w.T)
+        av, al = a[:, :vdim], a[:, vdim:]
+
+        # ## visible units: logistic activation
+        probs_v = old_div(1.,(1. + exp(-av)))
+        v = (probs_v > random(probs_v.shape)).astype('d')
+
+        # ## label units: softmax activation
+        # subtract maximum to regularize exponent
+        exponent = al - rrep(al.max(axis=1), ldim)
+        probs_l = exp(exponent)
+        probs_l /= rrep(probs_l.sum(axis=1), ldim)
+
+        if sample_l:
+            # ?? todo: I'm sure this can be optimized
+            l = numx.zeros((h.shape[0], ldim))
+            # the probabilities have to sum up to one in double precision
+            pvals = probs_l.astype('d')
+            pvals /= rrep(pvals.sum(axis=1), ldim)
+            for t in range(h.shape[0]):
+                l[t, :] = mdp.numx_rand.multinomial(1, pvals[t, :])
+        else:
+            l = probs_l.copy()
+
+        if concatenate:
+            probs = numx.concatenate((probs_v, probs_l), axis=1)
+            x = numx.concatenate((v, l), axis=1)
+            return probs, x
+        else:
+            return probs_v, probs_l, v, l
+
+    # execution methods
+
+    def sample_h(self, v, l):
+        """Sample the hidden variables given observations v and labels `l`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :returns: A tuple ``(prob_h, h)``, where ``prob_h[n,i]`` is the
+            probability that variable ``i`` is one given the observations
+            ``v[n,:]`` and the labels ``l[n,:]``, and ``h[n,i]`` is a sample
+            from the posterior probability.
+        :rtype: tuple
+        """
+
+        x = numx.concatenate((v, l), axis=1)
+        self._pre_execution_checks(x)
+        return self._sample_h(x)
+
+    def sample_v(self, h):
+        """Sample the observed variables given hidden variable state `h`.
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :returns: A tuple ``(prob_v, probs_l, v, l)``, where ``prob_v[n,i]``
+          is the probability that the visible variable ``i`` is one given
+          the hidden variables ``h[n,:]``, and ``v[n,i]`` is a sample from
+          that conditional probability. ``prob_l`` and ``l`` have similar
+          interpretations for the label variables. Note that the labels are
+          activated using a softmax function, so that only one label can be
+          active at any time.
+        :rtype: tuple
+        """
+        self._pre_sampling_checks(h)
+
+        probs_v, probs_l, v, l = self._sample_v(h, sample_l=True,
+                                                concatenate=False)
+        return probs_v, probs_l, v, l
+
+    def energy(self, v, h, l):
+        """Compute the energy of the RBM given observed variables state `v`
+        and `l`, and hidden variables state `h`.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :param h: The hidden variable state h.
+        :type h: numpy.ndarray
+
+        :return: The energy of the RBM given observed and the hidden variables.
+        :rtype: float
+        """
+
+        x = numx.concatenate((v, l), axis=1)
+        return self._energy(x, h)
+
+    def execute(self, v, l, return_probs = True):
+        """If `return_probs` is True, returns the probability of the
+        hidden variables h[n,i] being 1 given the observations v[n,:]
+        and l[n,:].
+
+        If `return_probs` is False, return a sample from that probability.
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: The labels. A binary matrix having different variables on
+            different columns and observations on the rows.
+            Only one value per row should be 1.
+        :type l: numpy.ndarray
+
+        :param return_probs: Controls the return value. Default value: True
+        :type return_probs: bool
+
+        :return: The probability of the hidden variables being 1 given the
+            observations and labels or a sample from that probability.
+        :rtype: float
+        """
+        x = numx.concatenate((v, l), axis=1)
+        self._pre_execution_checks(x)
+
+        probs, h = self._sample_h(self._refcast(x))
+        if return_probs:
+            return probs
+        else:
+            return h
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def train(self, v, l, n_updates=1, epsilon=0.1, decay=0., momentum=0.,
+              verbose=False):
+        """Update the internal structures according to the visible data `v`
+        and the labels `l`.
+        The training is performed using Contrastive Divergence (CD).
+
+        :param v: A binary matrix having different variables on different
+            columns and observations on the rows.
+        :type v: numpy.ndarray
+
+        :param l: A binary matrix having different variables on different
+            columns and observations on the rows. Only one value per row should
+            be 1.
+        :type l: numpy.ndarray
+
+        :param n_updates: Number of CD iterations. Default value: 1
+        :type n_updates: int
+
+        :param epsilon: Learning rate. Default value: 0.1
+        :type epsilon: float
+
+        :param decay: Weight decay term. Default value: 0.
+        :type decay: float
+
+        :param momentum: Momentum term. Default value: 0.
+        :type momentum: float
+
+        :param verbose: Controls the verbosity.
+        :type verbose: bool
+        """
+
+        if not self.is_training():
+            errstr = "The training phase has already finished."
+            raise mdp.TrainingFinishedException(errstr)
+
+        x = numx.concatenate((v, l), axis=1)
+        self._check_input(x)
+
+        self._train_phase_started = True
+        self._train_seq[self._train_phase][0](self._refcast(x),
+                                              n_updates=n_updates,
+                                              epsilon=epsilon,
+                                              decay=decay,
+                                              momentum=momentum,
                                               verbose=verbose)
\ No newline at end of file
diff --git a/mdp/nodes/regression_nodes.py b/mdp/nodes/regression_nodes.py
index fa0973f..5c86c93 100644
--- a/mdp/nodes/regression_nodes.py
+++ b/mdp/nodes/regression_nodes.py
@@ -1,161 +1,161 @@
-from builtins import str
-__docformat__ = "restructuredtext en"
-
-from mdp import numx, numx_linalg, utils, Node, NodeException, TrainingException
-from mdp.utils import mult
-
-# ??? For the future: add an optional second phase to compute
-# residuals, significance of the slope.
-
-class LinearRegressionNode(Node):
-    """Compute least-square, multivariate linear regression on the input
-    data, i.e., learn coefficients ``b_j`` so that the linear combination
-    ``y_i = b_0 + b_1 x_1 + ... b_N x_N`` , for ``i = 1 ... M``, minimizes
-    the sum of squared error given the training ``x``'s and ``y``'s.
-
-    This is a supervised learning node, and requires input data ``x`` and
-    target data ``y`` to be supplied during training (see ``train``
-    docstring).
-
-    :ivar beta: The coefficients of the linear regression.
-    """
-
-    def __init__(self, with_bias=True, use_pinv=False,
-                 input_dim=None, output_dim=None, dtype=None):
-        """Initializes an object of type 'LinearRegressionNode'.
-
-        :param with_bias: If true, the linear model includes a constant term.
-
-            - True:  y_i = b_0 + b_1 x_1 + ... b_N x_N
-            - False: y_i =       b_1 x_1 + ... b_N x_N
-
-            If present, the constant term is stored in the first
-            column of ``self.beta``. Default: True.
-        :type with_bias: bool
-
-        :param use_pinv: If true, uses the pseudo-inverse function to compute
-            the linear regression coefficients, which is more robust
-            in some cases. Default: False.
-        :type use_pinv: bool
-
-        :param input_dim: Dimensionality of the input.
-            Default is None.
-        :type input_dim: int
-        
-        :param output_dim: Dimensionality of the output.
-            Default is None.
-        :type output_dim: int
-        
-        :param dtype: Datatype of the input.
-            Default is None.
-        :type dtype: numpy.dtype, str
-        """
-        super(LinearRegressionNode, self).__init__(input_dim, output_dim, dtype)
-
-        self.with_bias = with_bias
-        self.use_pinv = use_pinv
-
-        # for the linear regression estimator we need two terms
-        # the first one is X^T X
-        self._xTx = None
-        # the second one is X^T Y
-        self._xTy = None
-
-        # keep track of how many data points have been sent
-        self._tlen = 0
-
-        # final regression coefficients
-        # if with_bias=True, beta includes the bias term in the first column
-        self.beta = None
-
-    @staticmethod
-    def is_invertible():
-        return False
-
-    def _check_train_args(self, x, y):
-        # set output_dim if necessary
-        if self._output_dim is None:
-            self._set_output_dim(y.shape[1])
-        # check output dimensionality
-        self._check_output(y)
-        if y.shape[0] != x.shape[0]:
-            msg = ("The number of output points should be equal to the "
-                   "number of datapoints (%d != %d)" % (y.shape[0], x.shape[0]))
-            raise TrainingException(msg)
-
-    def _train(self, x, y):
-        """
-        :param x: Array of different input observations.
-        :type x: numpy.ndarray
-
-        :param y: Array of size (x.shape[0], output_dim) that contains the 
-            observed output to the input x's.
-        :type y: numpy.ndarray
-        """
-        # initialize internal vars if necessary
-        if self._xTx is None:
-            if self.with_bias:
-                x_size = self._input_dim + 1
-            else:
-                x_size = self._input_dim
-            self._xTx = numx.zeros((x_size, x_size), self._dtype)
-            self._xTy = numx.zeros((x_size, self._output_dim), self._dtype)
-
-        if self.with_bias:
-            x = self._add_constant(x)
-
-        # update internal variables
-        self._xTx += mult(x.T, x)
-        self._xTy += mult(x.T, y)
-        self._tlen += x.shape[0]
-
-    def _stop_training(self):
-        try:
-            if self.use_pinv:
-                invfun = utils.pinv
-            else:
-                invfun = utils.inv
-                self._check_rank(self._xTx)
-            inv_xTx = invfun(self._xTx)
-        except numx_linalg.LinAlgError as exception:
-            errstr = (str(exception) +
-                      "\n Input data may be redundant (i.e., some of the " +
-                      "variables may be linearly dependent).")
-            raise NodeException(errstr)
-
-        self.beta = mult(inv_xTx, self._xTy)
-
-        # remove junk
-        del self._xTx
-        del self._xTy
-
-    @staticmethod
-    def _check_rank(xTx):
-        """Raise an exception if the matrix is singular up to rounding errors
-        (in this case the inverse consists of arbitrary numbers).
-        """
-        # the scale of the single variables is not important
-        scale = numx.sqrt(xTx.diagonal())
-        scale = numx.where(scale > 0, scale, 1)
-        eigv = numx_linalg.eigvalsh(xTx/numx.outer(scale, scale))
-        eps = numx.finfo(xTx.dtype).eps
-        if eigv.min() <= 4*eigv.max()*eps*xTx.shape[0]:
-            raise numx_linalg.LinAlgError('Singular matrix')
-
-    def _execute(self, x):
-        if self.with_bias:
-            x = self._add_constant(x)
-        return mult(x, self.beta)
-
-    def _add_constant(self, x):
-        """Add a constant term to the vector 'x'.
-        x -> [1 x]
-
-        :param x: The vector a constant term is appended to.
-        :type x: numpy.ndarray
-
-        :return: The altered vector.
-        :rtype: numpy.ndarray
-        """
-        return numx.concatenate((numx.ones((x.shape[0], 1),
+from builtins import str
+__docformat__ = "restructuredtext en"
+
+from mdp import numx, numx_linalg, utils, Node, NodeException, TrainingException
+from mdp.utils import mult
+
+# ??? For the future: add an optional second phase to compute
+# residuals, significance of the slope.
+
+class LinearRegressionNode(Node):
+    """Compute least-square, multivariate linear regression on the input
+    data, i.e., learn coefficients ``b_j`` so that the linear combination
+    ``y_i = b_0 + b_1 x_1 + ... b_N x_N`` , for ``i = 1 ... M``, minimizes
+    the sum of squared error given the training ``x``'s and ``y``'s.
+
+    This is a supervised learning node, and requires input data ``x`` and
+    target data ``y`` to be supplied during training (see ``train``
+    docstring).
+
+    :ivar beta: The coefficients of the linear regression.
+    """
+
+    def __init__(self, with_bias=True, use_pinv=False,
+                 input_dim=None, output_dim=None, dtype=None):
+        """Initializes an object of type 'LinearRegressionNode'.
+
+        :param with_bias: If true, the linear model includes a constant term.
+
+            - True:  y_i = b_0 + b_1 x_1 + ... b_N x_N
+            - False: y_i =       b_1 x_1 + ... b_N x_N
+
+            If present, the constant term is stored in the first
+            column of ``self.beta``. Default: True.
+        :type with_bias: bool
+
+        :param use_pinv: If true, uses the pseudo-inverse function to compute
+            the linear regression coefficients, which is more robust
+            in some cases. Default: False.
+        :type use_pinv: bool
+
+        :param input_dim: Dimensionality of the input.
+            Default is None.
+        :type input_dim: int
+        
+        :param output_dim: Dimensionality of the output.
+            Default is None.
+        :type output_dim: int
+        
+        :param dtype: Datatype of the input.
+            Default is None.
+        :type dtype: numpy.dtype, str
+        """
+        super(LinearRegressionNode, self).__init__(input_dim, output_dim, dtype)
+
+        self.with_bias = with_bias
+        self.use_pinv = use_pinv
+
+        # for the linear regression estimator we need two terms
+        # the first one is X^T X
+        self._xTx = None
+        # the second one is X^T Y
+        self._xTy = None
+
+        # keep track of how many data points have been sent
+        self._tlen = 0
+
+        # final regression coefficients
+        # if with_bias=True, beta includes the bias term in the first column
+        self.beta = None
+
+    @staticmethod
+    def is_invertible():
+        return False
+
+    def _check_train_args(self, x, y):
+        # set output_dim if necessary
+        if self._output_dim is None:
+            self._set_output_dim(y.shape[1])
+        # check output dimensionality
+        self._check_output(y)
+        if y.shape[0] != x.shape[0]:
+            msg = ("The number of output points should be equal to the "
+                   "number of datapoints (%d != %d)" % (y.shape[0], x.shape[0]))
+            raise TrainingException(msg)
+
+    def _train(self, x, y):
+        """
+        :param x: Array of different input observations.
+        :type x: numpy.ndarray
+
+        :param y: Array of size (x.shape[0], output_dim) that contains the 
+            observed output to the input x's.
+        :type y: numpy.ndarray
+        """
+        # initialize internal vars if necessary
+        if self._xTx is None:
+            if self.with_bias:
+                x_size = self._input_dim + 1
+            else:
+                x_size = self._input_dim
+            self._xTx = numx.zeros((x_size, x_size), self._dtype)
+            self._xTy = numx.zeros((x_size, self._output_dim), self._dtype)
+
+        if self.with_bias:
+            x = self._add_constant(x)
+
+        # update internal variables
+        self._xTx += mult(x.T, x)
+        self._xTy += mult(x.T, y)
+        self._tlen += x.shape[0]
+
+    def _stop_training(self):
+        try:
+            if self.use_pinv:
+                invfun = utils.pinv
+            else:
+                invfun = utils.inv
+                self._check_rank(self._xTx)
+            inv_xTx = invfun(self._xTx)
+        except numx_linalg.LinAlgError as exception:
+            errstr = (str(exception) +
+                      "\n Input data may be redundant (i.e., some of the " +
+                      "variables may be linearly dependent).")
+            raise NodeException(errstr)
+
+        self.beta = mult(inv_xTx, self._xTy)
+
+        # remove junk
+        del self._xTx
+        del self._xTy
+
+    @staticmethod
+    def _check_rank(xTx):
+        """Raise an exception if the matrix is singular up to rounding errors
+        (in this case the inverse consists of arbitrary numbers).
+        """
+        # the scale of the single variables is not important
+        scale = numx.sqrt(xTx.diagonal())
+        scale = numx.where(scale > 0, scale, 1)
+        eigv = numx_linalg.eigvalsh(xTx/numx.outer(scale, scale))
+        eps = numx.finfo(xTx.dtype).eps
+        if eigv.min() <= 4*eigv.max()*eps*xTx.shape[0]:
+            raise numx_linalg.LinAlgError('Singular matrix')
+
+    def _execute(self, x):
+        if self.with_bias:
+            x = self._add_constant(x)
+        return mult(x, self.beta)
+
+    def _add_constant(self, x):
+        """Add a constant term to the vector 'x'.
+        x -> [1 x]
+
+        :param x: The vector a constant term is appended to.
+        :type x: numpy.ndarray
+
+        :return: The altered vector.
+        :rtype: numpy.ndarray
+        """
+        return numx.concatenate((numx.ones((x.shape[0], 1),
                                            dtype=self.dtype), x), axis=1)
\ No newline at end of file
diff --git a/mdp/nodes/scikits_nodes.py b/mdp/nodes/scikits_nodes.py
index 855d677..c49a5ea 100644
--- a/mdp/nodes/scikits_nodes.py
+++ b/mdp/nodes/scikits_nodes.py
@@ -1,575 +1,575 @@
-# -*- coding:utf-8; -*-
-"""Wraps the algorithms defined in scikits.learn in MDP Nodes.
-This module is based on the 0.6.X branch of scikits.learn .
-"""
-from __future__ import print_function
-__docformat__ = "restructuredtext en"
-
-try:
-    import sklearn
-    _sklearn_prefix = 'sklearn'
-except ImportError:
-    import scikits.learn as sklearn
-    _sklearn_prefix = 'scikits.learn'
-
-import inspect
-import re
-
-import mdp
-
-class ScikitsException(mdp.NodeException):
-    """Base class for exceptions in nodes wrapping scikits algorithms."""
-    pass
-
-# import all submodules of sklearn (to work around lazy import)
-from mdp.configuration import _version_too_old
-if _version_too_old(sklearn.__version__, (0, 8)):
-    scikits_modules = ['ann', 'cluster', 'covariance', 'feature_extraction',
-                       'feature_selection', 'features', 'gaussian_process', 'glm',
-                       'linear_model', 'preprocessing', 'svm',
-                       'pca', 'lda', 'hmm', 'fastica', 'grid_search', 'mixture',
-                       'naive_bayes', 'neighbors', 'qda']
-elif _version_too_old(sklearn.__version__, (0, 9)):
-    # package structure has been changed in 0.8
-    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
-                       'mixture', 'hmm', 'cluster', 'decomposition', 'lda',
-                       'covariance', 'cross_val', 'grid_search',
-                       'feature_selection.rfe', 'feature_extraction.image',
-                       'feature_extraction.text', 'pipelines', 'pls',
-                       'gaussian_process', 'qda']
-elif _version_too_old(sklearn.__version__, (0, 11)):
-    # from release 0.9 cross_val becomes cross_validation and hmm is deprecated
-    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
-                       'mixture', 'cluster', 'decomposition', 'lda',
-                       'covariance', 'cross_validation', 'grid_search',
-                       'feature_selection.rfe', 'feature_extraction.image',
-                       'feature_extraction.text', 'pipelines', 'pls',
-                       'gaussian_process', 'qda', 'ensemble', 'manifold',
-                       'metrics', 'preprocessing', 'tree']    
-elif _version_too_old(sklearn.__version__, (0, 17)):
-    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
-                       'mixture', 'cluster', 'decomposition', 'lda',
-                       'covariance', 'cross_validation', 'grid_search',
-                       'feature_selection', 'feature_extraction',
-                       'pipeline', 'pls', 'gaussian_process', 'qda',
-                       'ensemble', 'manifold', 'metrics', 'preprocessing',
-                       'semi_supervised', 'tree', 'hmm']
-
-else:
-    scikits_modules = ['calibration', 'cluster', 'covariance', 'cross_decomposition',
-                       'cross_validation', 'decomposition', 'discriminant_analysis',
-                       'ensemble', 'feature_extraction', 'feature_selection',
-                       'gaussian_process', 'grid_search', 'isotonic', 'kernel_approximation',
-                       'kernel_ridge', 'learning_curve', 'linear_model', 'manifold',
-                       'metrics', 'mixture', 'multiclass', 'naive_bayes', 'neighbors',
-                       'neural_network', 'preprocessing', 'random_projection',
-                       'semi_supervised', 'svm', 'tree']
-
-
-for name in scikits_modules:
-    # not all modules may be available due to missing dependencies
-    # on the user system.
-    # we just ignore failing imports
-    try:
-        __import__(_sklearn_prefix + '.' + name)
-    except ImportError:
-        pass
-
-
-_WS_LINE_RE = re.compile(r'^\s*$')
-_WS_PREFIX_RE = re.compile(r'^(\s*)')
-_HEADINGS_RE = re.compile(r'''^(Parameters|Attributes|Methods|Examples|Notes)\n
-                           (----+|====+)''', re.M + re.X)
-_UNDERLINE_RE = re.compile(r'----+|====+')
-_VARWITHUNDER_RE = re.compile(r'(\s|^)([a-zA-Z_][a-zA-Z0-9_]*_)(\s|$|[,.])')
-
-_HEADINGS = set(['Parameters', 'Attributes', 'Methods', 'Examples',
-                 'Notes', 'References'])
-
-_DOC_TEMPLATE = """
-%s
-This node has been automatically generated by wrapping the ``%s.%s`` class
-from the ``sklearn`` library.  The wrapped instance can be accessed
-through the ``scikits_alg`` attribute.
-%s
-"""
-
-def _gen_docstring(object, docsource=None):
-    module = object.__module__
-    name = object.__name__
-    if docsource is None:
-        docsource = object
-    docstring = docsource.__doc__
-    if docstring is None:
-        return None
-
-    lines = docstring.strip().split('\n')
-    for i,line in enumerate(lines):
-        if _WS_LINE_RE.match(line):
-            break
-    header = [line.strip() for line in lines[:i]]
-
-    therest = [line.rstrip() for line in lines[i+1:]]
-    body = []
-
-    if therest:
-        prefix = min(len(_WS_PREFIX_RE.match(line).group(1))
-                     for line in therest if line)
-        quoteind = None
-        for i, line in enumerate(therest):
-            line = line[prefix:]
-            if line in _HEADINGS:
-                body.append('**%s**' % line)
-            elif _UNDERLINE_RE.match(line):
-                body.append('')
-            else:
-                line = _VARWITHUNDER_RE.sub(r'\1``\2``\3', line)
-                if quoteind:
-                    if len(_WS_PREFIX_RE.match(line).group(1)) >= quoteind:
-                        line = quoteind * ' ' + '- ' + line[quoteind:]
-                    else:
-                        quoteind = None
-                        body.append('')
-                body.append(line)
-
-            if line.endswith(':'):
-                body.append('')
-                if i+1 < len(therest):
-                    next = therest[i+1][prefix:]
-                    quoteind = len(_WS_PREFIX_RE.match(next).group(1))
-
-    return _DOC_TEMPLATE % ('\n'.join(header), module, name, '\n'.join(body))
-
-# TODO: generalize dtype support
-# TODO: have a look at predict_proba for Classifier.prob
-# TODO: inverse <-> generate/rvs
-# TODO: deal with input_dim/output_dim
-# TODO: change signature of overwritten functions
-# TODO: wrap_scikits_instance
-# TODO: add sklearn availability to test info strings
-# TODO: which tests ? (test that particular algorithm are / are not trainable)
-# XXX: if class defines n_components, allow output_dim, otherwise throw exception
-#      also for classifiers (overwrite _set_output_dim)
-#      Problem: sometimes they call it 'k' (e.g., algorithms in sklearn.cluster)
-
-def apply_to_scikits_algorithms(current_module, action,
-                                processed_modules=None,
-                                processed_classes=None):
-    """Function that traverses a module to find scikits algorithms.
-    'sklearn' algorithms are identified by the 'fit' 'predict',
-    or 'transform' methods. The 'action' function is applied to each found
-    algorithm.
-    
-    :param action: A function that is called with as action(class_), where
-        'class_' is a class that defines the 'fit' or 'predict' method.
-    :type action: function
-    """
-
-    # only consider modules and classes once
-    if processed_modules is None:
-        processed_modules = []
-    if processed_classes is None:
-        processed_classes = []
-
-    if current_module in processed_modules:
-        return
-    processed_modules.append(current_module)
-
-    for member_name, member in list(current_module.__dict__.items()):
-        if not member_name.startswith('_'):
-
-            # classes
-            if (inspect.isclass(member) and
-                member not in processed_classes):
-                processed_classes.append(member)
-                if (hasattr(member, 'fit')
-                    or hasattr(member, 'predict')
-                    or hasattr(member, 'transform')):
-                    action(member)
-
-            # other modules
-            elif (inspect.ismodule(member) and
-                  member.__name__.startswith(_sklearn_prefix)):
-                apply_to_scikits_algorithms(member, action, processed_modules,
-                                            processed_classes)
-    return processed_classes
-
-
-_OUTPUTDIM_ERROR = """'output_dim' keyword not supported.
-Please set the output dimensionality using sklearn keyword
-arguments (e.g., 'n_components', or 'k'). See the docstring of this
-class for details."""
-
-def _node_output(node, y):
-    """Return the output of a sklearn algorithm in the form of a node output,
-    i.e., as a 2-dim array with one row per sample and the dtype of the node.
-    """
-    if hasattr(y, 'toarray'):
-        y = y.toarray()
-    y = mdp.numx.asarray(y)
-    if y.ndim == 1:
-        y = y[:, mdp.numx.newaxis]
-    return node._refcast(y)
-
-
-def wrap_scikits_classifier(scikits_class):
-    """Wrap a sklearn classifier as an MDP Node subclass.
-    The wrapper maps these MDP methods to their sklearn equivalents:
-
-    - _stop_training -> fit
-    - _label -> predict
-
-    """
-
-    newaxis = mdp.numx.newaxis
-
-    # create a wrapper class for a sklearn classifier
-    class ScikitsNode(mdp.ClassifierCumulator):
-
-        def __init__(self, input_dim=None, output_dim=None, dtype=None,
-                     **kwargs):
-            """
-            Initializes an object of type 'ScikitsNode'.
-
-            :param input_dim: Dimensionality of the input.
-                Default is None.
-            :type input_dim: int
-        
-            :param output_dim: Dimensionality of the output.
-                Default is None.
-            :type output_dim: int
-        
-            :param dtype: Datatype of the input.
-                Default is None.
-            :type dtype: numpy.dtype or str
-            """
-            if output_dim is not None:
-                # output_dim and n_components cannot be defined at the same time
-                if 'n_components' in kwargs:
-                    msg = ("Dimensionality set both by "
-                           "output_dim=%d and n_components=%d""")
-                    raise ScikitsException(msg % (output_dim,
-                                                  kwargs['n_components']))
-
-
-            super(ScikitsNode, self).__init__(input_dim=input_dim,
-                                              output_dim=output_dim,
-                                              dtype=dtype)
-            self.scikits_alg = scikits_class(**kwargs)
-
-        # ---- re-direct training and execution to the wrapped algorithm
-
-        def _stop_training(self, **kwargs):
-            super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, self.labels, **kwargs)
-
-        def _label(self, x):
-            return self.scikits_alg.predict(x)[:, newaxis]
-
-        # ---- administrative details
-
-        @staticmethod
-        def is_invertible():
-            return False
-
-        @staticmethod
-        def is_trainable():
-            """Return True if the node can be trained, False otherwise.
-
-            :return: A boolean indicating whether the node can be trained.
-            :rtype: bool
-            """
-            return hasattr(scikits_class, 'fit')
-
-        # NOTE: at this point scikits nodes can only support up to
-        # 64-bits floats because some call numpy.linalg.svd, which for
-        # some reason does not support higher precisions
-        def _get_supported_dtypes(self):
-            """Return the list of dtypes supported by this node.
-            The types can be specified in any format allowed by numpy.dtype.
-
-            :return: The list of dtypes supported by this node.
-            :rtype: list
-            """
-            return ['float32', 'float64']
-
-    # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
-    # needed to pickle the instances
-    ScikitsNode.__qualname__ = ScikitsNode.__name__
-    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
-
-    # change the docstring of the methods to match the ones in sklearn
-
-    # methods_dict maps ScikitsNode method names to sklearn method names
-    methods_dict = {'__init__': '__init__',
-                    'stop_training': 'fit',
-                    'label': 'predict'}
-    if hasattr(scikits_class, 'predict_proba'):
-        methods_dict['prob'] = 'predict_proba'
-
-    for mdp_name, scikits_name in list(methods_dict.items()):
-        mdp_method = getattr(ScikitsNode, mdp_name)
-        scikits_method = getattr(scikits_class, scikits_name)
-        if hasattr(scikits_method, '__func__'):
-            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
-                                                        scikits_method.__func__)
-
-    if scikits_class.__init__.__doc__ is None:
-        try:
-            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
-        except AttributeError:
-            # we are in Python3
-            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
-
-    return ScikitsNode
-
-
-def wrap_scikits_transformer(scikits_class):
-    """Wrap a sklearn transformer as an MDP Node subclass.
-    The wrapper maps these MDP methods to their sklearn equivalents:
-
-    - _stop_training -> fit
-    - _execute -> transform
-
-    """
-
-    # create a wrapper class for a sklearn transformer
-    class ScikitsNode(mdp.Cumulator):
-
-        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
-            """
-            Initializes an object of type 'ScikitsNode'.
-
-            :param input_dim: Dimensionality of the input.
-                Default is None.
-            :type input_dim: int
-        
-            :param output_dim: Dimensionality of the output.
-                Default is None.
-            :type output_dim: int
-        
-            :param dtype: Datatype of the input.
-                Default is None.
-            :type dtype: numpy.dtype or str
-            """
-            if output_dim is not None:
-                raise ScikitsException(_OUTPUTDIM_ERROR)
-            super(ScikitsNode, self).__init__(input_dim=input_dim,
-                                              output_dim=output_dim,
-                                              dtype=dtype)
-            self.scikits_alg = scikits_class(**kwargs)
-
-        # ---- re-direct training and execution to the wrapped algorithm
-
-        def _stop_training(self, **kwargs):
-            super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, **kwargs)
-
-        def _execute(self, x):
-            return _node_output(self, self.scikits_alg.transform(x))
-
-        def _set_default_output_dim(self):
-            # the output dimension is defined by the wrapped algorithm
-            self.output_dim = self._execute(self.data[:1]).shape[1]
-
-        # ---- administrative details
-
-        @staticmethod
-        def is_invertible():
-            return False
-
-        @staticmethod
-        def is_trainable():
-            """Return True if the node can be trained, False otherwise.
-
-            :return: A boolean indication whether the node can be trained.
-            :rtype: bool
-            """
-            return hasattr(scikits_class, 'fit')
-
-        # NOTE: at this point scikits nodes can only support up to
-        # 64-bits floats because some call numpy.linalg.svd, which for
-        # some reason does not support higher precisions
-        def _get_supported_dtypes(self):
-            """Return the list of dtypes supported by this node.
-            The types can be specified in any format allowed by numpy.dtype.
-
-            :return: The list of dtypes supported by this node.
-            :rtype: list
-            """
-            return ['float32', 'float64']
-
-    # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
-    # needed to pickle the instances
-    ScikitsNode.__qualname__ = ScikitsNode.__name__
-    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
-
-    # change the docstring of the methods to match the ones in sklearn
-
-    # methods_dict maps ScikitsNode method names to sklearn method names
-    methods_dict = {'__init__': '__init__',
-                    'stop_training': 'fit',
-                    'execute': 'transform'}
-
-    for mdp_name, scikits_name in list(methods_dict.items()):
-        mdp_method = getattr(ScikitsNode, mdp_name)
-        scikits_method = getattr(scikits_class, scikits_name, None)
-        if hasattr(scikits_method, '__func__'):
-            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
-                                                        scikits_method.__func__)
-
-    if scikits_class.__init__.__doc__ is None:
-        try:
-            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
-        except AttributeError:
-            # we are in Python3
-            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
-
-    return ScikitsNode
-
-
-def wrap_scikits_predictor(scikits_class):
-    """Wrap a sklearn transformer as an MDP Node subclass.
-    The wrapper maps these MDP methods to their sklearn equivalents:
-
-    - _stop_training -> fit
-    - _execute -> predict
-    
-    """
-
-    # create a wrapper class for a sklearn predictor
-    class ScikitsNode(mdp.Cumulator):
-
-        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
-            """
-            Initializes an object of type 'ScikitsNode'.
-
-            :param input_dim: Dimensionality of the input.
-                Default is None.
-            :type input_dim: int
-        
-            :param output_dim: Dimensionality of the output.
-                Default is None.
-            :type output_dim: int
-        
-            :param dtype: Datatype of the input.
-                Default is None.
-            :type dtype: numpy.dtype or str
-            """
-            if output_dim is not None:
-                raise ScikitsException(_OUTPUTDIM_ERROR)
-            super(ScikitsNode, self).__init__(input_dim=input_dim,
-                                              output_dim=output_dim,
-                                              dtype=dtype)
-            self.scikits_alg = scikits_class(**kwargs)
-
-        # ---- re-direct training and execution to the wrapped algorithm
-
-        def _stop_training(self, **kwargs):
-            super(ScikitsNode, self)._stop_training(self)
-            return self.scikits_alg.fit(self.data, **kwargs)
-
-        def _execute(self, x):
-            return _node_output(self, self.scikits_alg.predict(x))
-
-        def _set_default_output_dim(self):
-            # the output dimension is defined by the wrapped algorithm
-            self.output_dim = self._execute(self.data[:1]).shape[1]
-
-        # ---- administrative details
-
-        @staticmethod
-        def is_invertible():
-            return False
-
-        @staticmethod
-        def is_trainable():
-            """Return True if the node can be trained, False otherwise.
-
-            :return: A boolean indicating whether the node can be trained.
-            :rtype: bool"""
-            return hasattr(scikits_class, 'fit')
-
-        # NOTE: at this point scikits nodes can only support up to 64-bits floats
-        # because some call numpy.linalg.svd, which for some reason does not
-        # support higher precisions
-        def _get_supported_dtypes(self):
-            """Return the list of dtypes supported by this node.
-            The types can be specified in any format allowed by numpy.dtype."""
-            return ['float32', 'float64']
-
-    # modify class name and docstring
-    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
-    # needed to pickle the instances
-    ScikitsNode.__qualname__ = ScikitsNode.__name__
-    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
-
-    # change the docstring of the methods to match the ones in sklearn
-
-    # methods_dict maps ScikitsNode method names to sklearn method names
-    methods_dict = {'__init__': '__init__',
-                    'stop_training': 'fit',
-                    'execute': 'predict'}
-
-    for mdp_name, scikits_name in list(methods_dict.items()):
-        mdp_method = getattr(ScikitsNode, mdp_name)
-        scikits_method = getattr(scikits_class, scikits_name)
-        if hasattr(scikits_method, '__func__'):
-            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
-                                                        scikits_method.__func__)
-
-    if scikits_class.__init__.__doc__ is None:
-        try:
-            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
-        except AttributeError:
-            # we are in Python3
-            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
-
-    return ScikitsNode
-
-
-#list candidate nodes
-def print_public_members(class_):
-    """Print methods of sklearn algorithm.
-    """
-    print('\n', '-' * 15)
-    print('%s (%s)' % (class_.__name__, class_.__module__))
-    for attr_name in dir(class_):
-        attr = getattr(class_, attr_name)
-        #print attr_name, type(attr)
-        if not attr_name.startswith('_') and inspect.ismethod(attr):
-            print(' -', attr_name)
-
-#apply_to_scikits_algorithms(sklearn, print_public_members)
-
-
-def wrap_scikits_algorithms(scikits_class, nodes_list):
-    """NEED DOCSTRING."""
-
-    name = scikits_class.__name__
-    if (name[:4] == 'Base' or name == 'LinearModel'
-        or name.startswith('EllipticEnvelop')
-        or name.startswith('ForestClassifier')):
-        return
-
-    if issubclass(scikits_class, sklearn.base.ClassifierMixin) and \
-        hasattr(scikits_class, 'fit'):
-        nodes_list.append(wrap_scikits_classifier(scikits_class))
-    # Some (abstract) transformers do not implement fit.
-    elif hasattr(scikits_class, 'transform') and hasattr(scikits_class, 'fit'):
-        nodes_list.append(wrap_scikits_transformer(scikits_class))
-    elif hasattr(scikits_class, 'predict') and hasattr(scikits_class, 'fit'):
-        nodes_list.append(wrap_scikits_predictor(scikits_class))
-
-scikits_nodes = []
-apply_to_scikits_algorithms(sklearn,
-                            lambda c: wrap_scikits_algorithms(c, scikits_nodes))
-
-# add scikit nodes to dictionary
-#scikits_module = new.module('scikits')
-DICT_ = {}
-for wrapped_c in scikits_nodes:
-    #print wrapped_c.__name__
+# -*- coding:utf-8; -*-
+"""Wraps the algorithms defined in scikits.learn in MDP Nodes.
+This module is based on the 0.6.X branch of scikits.learn .
+"""
+from __future__ import print_function
+__docformat__ = "restructuredtext en"
+
+try:
+    import sklearn
+    _sklearn_prefix = 'sklearn'
+except ImportError:
+    import scikits.learn as sklearn
+    _sklearn_prefix = 'scikits.learn'
+
+import inspect
+import re
+
+import mdp
+
+class ScikitsException(mdp.NodeException):
+    """Base class for exceptions in nodes wrapping scikits algorithms."""
+    pass
+
+# import all submodules of sklearn (to work around lazy import)
+from mdp.configuration import _version_too_old
+if _version_too_old(sklearn.__version__, (0, 8)):
+    scikits_modules = ['ann', 'cluster', 'covariance', 'feature_extraction',
+                       'feature_selection', 'features', 'gaussian_process', 'glm',
+                       'linear_model', 'preprocessing', 'svm',
+                       'pca', 'lda', 'hmm', 'fastica', 'grid_search', 'mixture',
+                       'naive_bayes', 'neighbors', 'qda']
+elif _version_too_old(sklearn.__version__, (0, 9)):
+    # package structure has been changed in 0.8
+    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
+                       'mixture', 'hmm', 'cluster', 'decomposition', 'lda',
+                       'covariance', 'cross_val', 'grid_search',
+                       'feature_selection.rfe', 'feature_extraction.image',
+                       'feature_extraction.text', 'pipelines', 'pls',
+                       'gaussian_process', 'qda']
+elif _version_too_old(sklearn.__version__, (0, 11)):
+    # from release 0.9 cross_val becomes cross_validation and hmm is deprecated
+    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
+                       'mixture', 'cluster', 'decomposition', 'lda',
+                       'covariance', 'cross_validation', 'grid_search',
+                       'feature_selection.rfe', 'feature_extraction.image',
+                       'feature_extraction.text', 'pipelines', 'pls',
+                       'gaussian_process', 'qda', 'ensemble', 'manifold',
+                       'metrics', 'preprocessing', 'tree']    
+elif _version_too_old(sklearn.__version__, (0, 17)):
+    scikits_modules = ['svm', 'linear_model', 'naive_bayes', 'neighbors',
+                       'mixture', 'cluster', 'decomposition', 'lda',
+                       'covariance', 'cross_validation', 'grid_search',
+                       'feature_selection', 'feature_extraction',
+                       'pipeline', 'pls', 'gaussian_process', 'qda',
+                       'ensemble', 'manifold', 'metrics', 'preprocessing',
+                       'semi_supervised', 'tree', 'hmm']
+
+else:
+    scikits_modules = ['calibration', 'cluster', 'covariance', 'cross_decomposition',
+                       'cross_validation', 'decomposition', 'discriminant_analysis',
+                       'ensemble', 'feature_extraction', 'feature_selection',
+                       'gaussian_process', 'grid_search', 'isotonic', 'kernel_approximation',
+                       'kernel_ridge', 'learning_curve', 'linear_model', 'manifold',
+                       'metrics', 'mixture', 'multiclass', 'naive_bayes', 'neighbors',
+                       'neural_network', 'preprocessing', 'random_projection',
+                       'semi_supervised', 'svm', 'tree']
+
+
+for name in scikits_modules:
+    # not all modules may be available due to missing dependencies
+    # on the user system.
+    # we just ignore failing imports
+    try:
+        __import__(_sklearn_prefix + '.' + name)
+    except ImportError:
+        pass
+
+
+_WS_LINE_RE = re.compile(r'^\s*$')
+_WS_PREFIX_RE = re.compile(r'^(\s*)')
+_HEADINGS_RE = re.compile(r'''^(Parameters|Attributes|Methods|Examples|Notes)\n
+                           (----+|====+)''', re.M + re.X)
+_UNDERLINE_RE = re.compile(r'----+|====+')
+_VARWITHUNDER_RE = re.compile(r'(\s|^)([a-zA-Z_][a-zA-Z0-9_]*_)(\s|$|[,.])')
+
+_HEADINGS = set(['Parameters', 'Attributes', 'Methods', 'Examples',
+                 'Notes', 'References'])
+
+_DOC_TEMPLATE = """
+%s
+This node has been automatically generated by wrapping the ``%s.%s`` class
+from the ``sklearn`` library.  The wrapped instance can be accessed
+through the ``scikits_alg`` attribute.
+%s
+"""
+
+def _gen_docstring(object, docsource=None):
+    module = object.__module__
+    name = object.__name__
+    if docsource is None:
+        docsource = object
+    docstring = docsource.__doc__
+    if docstring is None:
+        return None
+
+    lines = docstring.strip().split('\n')
+    for i,line in enumerate(lines):
+        if _WS_LINE_RE.match(line):
+            break
+    header = [line.strip() for line in lines[:i]]
+
+    therest = [line.rstrip() for line in lines[i+1:]]
+    body = []
+
+    if therest:
+        prefix = min(len(_WS_PREFIX_RE.match(line).group(1))
+                     for line in therest if line)
+        quoteind = None
+        for i, line in enumerate(therest):
+            line = line[prefix:]
+            if line in _HEADINGS:
+                body.append('**%s**' % line)
+            elif _UNDERLINE_RE.match(line):
+                body.append('')
+            else:
+                line = _VARWITHUNDER_RE.sub(r'\1``\2``\3', line)
+                if quoteind:
+                    if len(_WS_PREFIX_RE.match(line).group(1)) >= quoteind:
+                        line = quoteind * ' ' + '- ' + line[quoteind:]
+                    else:
+                        quoteind = None
+                        body.append('')
+                body.append(line)
+
+            if line.endswith(':'):
+                body.append('')
+                if i+1 < len(therest):
+                    next = therest[i+1][prefix:]
+                    quoteind = len(_WS_PREFIX_RE.match(next).group(1))
+
+    return _DOC_TEMPLATE % ('\n'.join(header), module, name, '\n'.join(body))
+
+# TODO: generalize dtype support
+# TODO: have a look at predict_proba for Classifier.prob
+# TODO: inverse <-> generate/rvs
+# TODO: deal with input_dim/output_dim
+# TODO: change signature of overwritten functions
+# TODO: wrap_scikits_instance
+# TODO: add sklearn availability to test info strings
+# TODO: which tests ? (test that particular algorithm are / are not trainable)
+# XXX: if class defines n_components, allow output_dim, otherwise throw exception
+#      also for classifiers (overwrite _set_output_dim)
+#      Problem: sometimes they call it 'k' (e.g., algorithms in sklearn.cluster)
+
+def apply_to_scikits_algorithms(current_module, action,
+                                processed_modules=None,
+                                processed_classes=None):
+    """Function that traverses a module to find scikits algorithms.
+    'sklearn' algorithms are identified by the 'fit' 'predict',
+    or 'transform' methods. The 'action' function is applied to each found
+    algorithm.
+    
+    :param action: A function that is called with as action(class_), where
+        'class_' is a class that defines the 'fit' or 'predict' method.
+    :type action: function
+    """
+
+    # only consider modules and classes once
+    if processed_modules is None:
+        processed_modules = []
+    if processed_classes is None:
+        processed_classes = []
+
+    if current_module in processed_modules:
+        return
+    processed_modules.append(current_module)
+
+    for member_name, member in list(current_module.__dict__.items()):
+        if not member_name.startswith('_'):
+
+            # classes
+            if (inspect.isclass(member) and
+                member not in processed_classes):
+                processed_classes.append(member)
+                if (hasattr(member, 'fit')
+                    or hasattr(member, 'predict')
+                    or hasattr(member, 'transform')):
+                    action(member)
+
+            # other modules
+            elif (inspect.ismodule(member) and
+                  member.__name__.startswith(_sklearn_prefix)):
+                apply_to_scikits_algorithms(member, action, processed_modules,
+                                            processed_classes)
+    return processed_classes
+
+
+_OUTPUTDIM_ERROR = """'output_dim' keyword not supported.
+Please set the output dimensionality using sklearn keyword
+arguments (e.g., 'n_components', or 'k'). See the docstring of this
+class for details."""
+
+def _node_output(node, y):
+    """Return the output of a sklearn algorithm in the form of a node output,
+    i.e., as a 2-dim array with one row per sample and the dtype of the node.
+    """
+    if hasattr(y, 'toarray'):
+        y = y.toarray()
+    y = mdp.numx.asarray(y)
+    if y.ndim == 1:
+        y = y[:, mdp.numx.newaxis]
+    return node._refcast(y)
+
+
+def wrap_scikits_classifier(scikits_class):
+    """Wrap a sklearn classifier as an MDP Node subclass.
+    The wrapper maps these MDP methods to their sklearn equivalents:
+
+    - _stop_training -> fit
+    - _label -> predict
+
+    """
+
+    newaxis = mdp.numx.newaxis
+
+    # create a wrapper class for a sklearn classifier
+    class ScikitsNode(mdp.ClassifierCumulator):
+
+        def __init__(self, input_dim=None, output_dim=None, dtype=None,
+                     **kwargs):
+            """
+            Initializes an object of type 'ScikitsNode'.
+
+            :param input_dim: Dimensionality of the input.
+                Default is None.
+            :type input_dim: int
+        
+            :param output_dim: Dimensionality of the output.
+                Default is None.
+            :type output_dim: int
+        
+            :param dtype: Datatype of the input.
+                Default is None.
+            :type dtype: numpy.dtype or str
+            """
+            if output_dim is not None:
+                # output_dim and n_components cannot be defined at the same time
+                if 'n_components' in kwargs:
+                    msg = ("Dimensionality set both by "
+                           "output_dim=%d and n_components=%d""")
+                    raise ScikitsException(msg % (output_dim,
+                                                  kwargs['n_components']))
+
+
+            super(ScikitsNode, self).__init__(input_dim=input_dim,
+                                              output_dim=output_dim,
+                                              dtype=dtype)
+            self.scikits_alg = scikits_class(**kwargs)
+
+        # ---- re-direct training and execution to the wrapped algorithm
+
+        def _stop_training(self, **kwargs):
+            super(ScikitsNode, self)._stop_training(self)
+            return self.scikits_alg.fit(self.data, self.labels, **kwargs)
+
+        def _label(self, x):
+            return self.scikits_alg.predict(x)[:, newaxis]
+
+        # ---- administrative details
+
+        @staticmethod
+        def is_invertible():
+            return False
+
+        @staticmethod
+        def is_trainable():
+            """Return True if the node can be trained, False otherwise.
+
+            :return: A boolean indicating whether the node can be trained.
+            :rtype: bool
+            """
+            return hasattr(scikits_class, 'fit')
+
+        # NOTE: at this point scikits nodes can only support up to
+        # 64-bits floats because some call numpy.linalg.svd, which for
+        # some reason does not support higher precisions
+        def _get_supported_dtypes(self):
+            """Return the list of dtypes supported by this node.
+            The types can be specified in any format allowed by numpy.dtype.
+
+            :return: The list of dtypes supported by this node.
+            :rtype: list
+            """
+            return ['float32', 'float64']
+
+    # modify class name and docstring
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # needed to pickle the instances
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
+    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
+
+    # change the docstring of the methods to match the ones in sklearn
+
+    # methods_dict maps ScikitsNode method names to sklearn method names
+    methods_dict = {'__init__': '__init__',
+                    'stop_training': 'fit',
+                    'label': 'predict'}
+    if hasattr(scikits_class, 'predict_proba'):
+        methods_dict['prob'] = 'predict_proba'
+
+    for mdp_name, scikits_name in list(methods_dict.items()):
+        mdp_method = getattr(ScikitsNode, mdp_name)
+        scikits_method = getattr(scikits_class, scikits_name)
+        if hasattr(scikits_method, '__func__'):
+            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
+                                                        scikits_method.__func__)
+
+    if scikits_class.__init__.__doc__ is None:
+        try:
+            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
+        except AttributeError:
+            # we are in Python3
+            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
+
+    return ScikitsNode
+
+
+def wrap_scikits_transformer(scikits_class):
+    """Wrap a sklearn transformer as an MDP Node subclass.
+    The wrapper maps these MDP methods to their sklearn equivalents:
+
+    - _stop_training -> fit
+    - _execute -> transform
+
+    """
+
+    # create a wrapper class for a sklearn transformer
+    class ScikitsNode(mdp.Cumulator):
+
+        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
+            """
+            Initializes an object of type 'ScikitsNode'.
+
+            :param input_dim: Dimensionality of the input.
+                Default is None.
+            :type input_dim: int
+        
+            :param output_dim: Dimensionality of the output.
+                Default is None.
+            :type output_dim: int
+        
+            :param dtype: Datatype of the input.
+                Default is None.
+            :type dtype: numpy.dtype or str
+            """
+            if output_dim is not None:
+                raise ScikitsException(_OUTPUTDIM_ERROR)
+            super(ScikitsNode, self).__init__(input_dim=input_dim,
+                                              output_dim=output_dim,
+                                              dtype=dtype)
+            self.scikits_alg = scikits_class(**kwargs)
+
+        # ---- re-direct training and execution to the wrapped algorithm
+
+        def _stop_training(self, **kwargs):
+            super(ScikitsNode, self)._stop_training(self)
+            return self.scikits_alg.fit(self.data, **kwargs)
+
+        def _execute(self, x):
+            return _node_output(self, self.scikits_alg.transform(x))
+
+        def _set_default_output_dim(self):
+            # the output dimension is defined by the wrapped algorithm
+            self.output_dim = self._execute(self.data[:1]).shape[1]
+
+        # ---- administrative details
+
+        @staticmethod
+        def is_invertible():
+            return False
+
+        @staticmethod
+        def is_trainable():
+            """Return True if the node can be trained, False otherwise.
+
+            :return: A boolean indication whether the node can be trained.
+            :rtype: bool
+            """
+            return hasattr(scikits_class, 'fit')
+
+        # NOTE: at this point scikits nodes can only support up to
+        # 64-bits floats because some call numpy.linalg.svd, which for
+        # some reason does not support higher precisions
+        def _get_supported_dtypes(self):
+            """Return the list of dtypes supported by this node.
+            The types can be specified in any format allowed by numpy.dtype.
+
+            :return: The list of dtypes supported by this node.
+            :rtype: list
+            """
+            return ['float32', 'float64']
+
+    # modify class name and docstring
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # needed to pickle the instances
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
+    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
+
+    # change the docstring of the methods to match the ones in sklearn
+
+    # methods_dict maps ScikitsNode method names to sklearn method names
+    methods_dict = {'__init__': '__init__',
+                    'stop_training': 'fit',
+                    'execute': 'transform'}
+
+    for mdp_name, scikits_name in list(methods_dict.items()):
+        mdp_method = getattr(ScikitsNode, mdp_name)
+        scikits_method = getattr(scikits_class, scikits_name, None)
+        if hasattr(scikits_method, '__func__'):
+            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
+                                                        scikits_method.__func__)
+
+    if scikits_class.__init__.__doc__ is None:
+        try:
+            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
+        except AttributeError:
+            # we are in Python3
+            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
+
+    return ScikitsNode
+
+
+def wrap_scikits_predictor(scikits_class):
+    """Wrap a sklearn transformer as an MDP Node subclass.
+    The wrapper maps these MDP methods to their sklearn equivalents:
+
+    - _stop_training -> fit
+    - _execute -> predict
+    
+    """
+
+    # create a wrapper class for a sklearn predictor
+    class ScikitsNode(mdp.Cumulator):
+
+        def __init__(self, input_dim=None, output_dim=None, dtype=None, **kwargs):
+            """
+            Initializes an object of type 'ScikitsNode'.
+
+            :param input_dim: Dimensionality of the input.
+                Default is None.
+            :type input_dim: int
+        
+            :param output_dim: Dimensionality of the output.
+                Default is None.
+            :type output_dim: int
+        
+            :param dtype: Datatype of the input.
+                Default is None.
+            :type dtype: numpy.dtype or str
+            """
+            if output_dim is not None:
+                raise ScikitsException(_OUTPUTDIM_ERROR)
+            super(ScikitsNode, self).__init__(input_dim=input_dim,
+                                              output_dim=output_dim,
+                                              dtype=dtype)
+            self.scikits_alg = scikits_class(**kwargs)
+
+        # ---- re-direct training and execution to the wrapped algorithm
+
+        def _stop_training(self, **kwargs):
+            super(ScikitsNode, self)._stop_training(self)
+            return self.scikits_alg.fit(self.data, **kwargs)
+
+        def _execute(self, x):
+            return _node_output(self, self.scikits_alg.predict(x))
+
+        def _set_default_output_dim(self):
+            # the output dimension is defined by the wrapped algorithm
+            self.output_dim = self._execute(self.data[:1]).shape[1]
+
+        # ---- administrative details
+
+        @staticmethod
+        def is_invertible():
+            return False
+
+        @staticmethod
+        def is_trainable():
+            """Return True if the node can be trained, False otherwise.
+
+            :return: A boolean indicating whether the node can be trained.
+            :rtype: bool"""
+            return hasattr(scikits_class, 'fit')
+
+        # NOTE: at this point scikits nodes can only support up to 64-bits floats
+        # because some call numpy.linalg.svd, which for some reason does not
+        # support higher precisions
+        def _get_supported_dtypes(self):
+            """Return the list of dtypes supported by this node.
+            The types can be specified in any format allowed by numpy.dtype."""
+            return ['float32', 'float64']
+
+    # modify class name and docstring
+    ScikitsNode.__name__ = scikits_class.__name__ + 'ScikitsLearnNode'
+    # needed to pickle the instances
+    ScikitsNode.__qualname__ = ScikitsNode.__name__
+    ScikitsNode.__doc__ = _gen_docstring(scikits_class)
+
+    # change the docstring of the methods to match the ones in sklearn
+
+    # methods_dict maps ScikitsNode method names to sklearn method names
+    methods_dict = {'__init__': '__init__',
+                    'stop_training': 'fit',
+                    'execute': 'predict'}
+
+    for mdp_name, scikits_name in list(methods_dict.items()):
+        mdp_method = getattr(ScikitsNode, mdp_name)
+        scikits_method = getattr(scikits_class, scikits_name)
+        if hasattr(scikits_method, '__func__'):
+            mdp_method.__func__.__doc__ = _gen_docstring(scikits_class,
+                                                        scikits_method.__func__)
+
+    if scikits_class.__init__.__doc__ is None:
+        try:
+            ScikitsNode.__init__.__func__.__doc__ = _gen_docstring(scikits_class)
+        except AttributeError:
+            # we are in Python3
+            ScikitsNode.__init__.__doc__ = _gen_docstring(scikits_class)
+
+    return ScikitsNode
+
+
+#list candidate nodes
+def print_public_members(class_):
+    """Print methods of sklearn algorithm.
+    """
+    print('\n', '-' * 15)
+    print('%s (%s)' % (class_.__name__, class_.__module__))
+    for attr_name in dir(class_):
+        attr = getattr(class_, attr_name)
+        #print attr_name, type(attr)
+        if not attr_name.startswith('_') and inspect.ismethod(attr):
+            print(' -', attr_name)
+
+#apply_to_scikits_algorithms(sklearn, print_public_members)
+
+
+def wrap_scikits_algorithms(scikits_class, nodes_list):
+    """NEED DOCSTRING."""
+
+    name = scikits_class.__name__
+    if (name[:4] == 'Base' or name == 'LinearModel'
+        or name.startswith('EllipticEnvelop')
+        or name.startswith('ForestClassifier')):
+        return
+
+    if issubclass(scikits_class, sklearn.base.ClassifierMixin) and \
+        hasattr(scikits_class, 'fit'):
+        nodes_list.append(wrap_scikits_classifier(scikits_class))
+    # Some (abstract) transformers do not implement fit.
+    elif hasattr(scikits_class, 'transform') and hasattr(scikits_class, 'fit'):
+        nodes_list.append(wrap_scikits_transformer(scikits_class))
+    elif hasattr(scikits_class, 'predict') and hasattr(scikits_class, 'fit'):
+        nodes_list.append(wrap_scikits_predictor(scikits_class))
+
+scikits_nodes = []
+apply_to_scikits_algorithms(sklearn,
+                            lambda c: wrap_scikits_algorithms(c, scikits_nodes))
+
+# add scikit nodes to dictionary
+#scikits_module = new.module('scikits')
+DICT_ = {}
+for wrapped_c in scikits_nodes:
+    #print wrapped_c.__name__
     DICT_[wrapped_c.__name__] = wrapped_c
\ No newline at end of file
-- 
2.43.0


From b11c6911bc8c977c56393ec843058343c5c86b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:16 +0000
Subject: [PATCH 145/145] fix: Switchboard get_out_channels_input_channels took
 a tuple of channels for one multidimensional index

---
 mdp/hinet/switchboard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index 345c2fb..7886f6a 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -197,6 +197,9 @@ class ChannelSwitchboard(Switchboard):
         """
         if isinstance(channels, int):
             channels = [channels]
+        elif isinstance(channels, tuple):
+            # a tuple would be taken for one multidimensional index
+            channels = list(channels)
         # create boolean arry to determine with active inputs
         channels_input = self.connections.reshape((-1, self.out_channel_dim))
         channels_input = channels_input[channels].reshape(-1)
-- 
2.43.0

