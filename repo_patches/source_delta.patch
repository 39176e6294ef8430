From 77de03ea56d62b85bb0cb86260d7fd4236ec05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 01/17] fix: moving or re-adding a node forgets its former
 position

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..8e87f88 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -21,6 +21,10 @@ class NodeMixins(object):
         xyz = node.xyz
         x, y, z = xyz
 
+        # a node that moves is no longer found at its former position
+        if self.has_node(key):
+            self._remove_gkey(key)
+
         node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z)
         self.gkey_node[self.gkey(xyz)] = node
         return node
@@ -45,9 +49,6 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(xyz)
-        if gkey in self.gkey_node:
-            del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
     def node_xyz(self, key, xyz=None):
@@ -64,6 +65,14 @@ class NodeMixins(object):
         """
         return geometric_key(xyz, self.tol)
 
+    def _remove_gkey(self, key):
+        """
+        Forgets the position of a node.
+        """
+        gkey = self.gkey(self.node_coordinates(key))
+        if self.gkey_node.get(gkey) == key:
+            del self.gkey_node[gkey]
+
 # ==============================================================================
 # Main
 # ==============================================================================
-- 
2.43.0


From cb7fdcbad599571f6ed48ff226a92af6cefacde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 02/17] fix: deleting a node forgets its position

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 8e87f88..538d8bb 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -29,6 +29,15 @@ class NodeMixins(object):
         self.gkey_node[self.gkey(xyz)] = node
         return node
 
+    def delete_node(self, key):
+        """
+        Deletes a node and forgets its position.
+        """
+        if self.has_node(key):
+            self._remove_gkey(key)
+
+        super(NodeMixins, self).delete_node(key)
+
     def node_exists(self, value):
         """
         Checks
-- 
2.43.0


From 9e22a673e404d49fa9a6954dd52db740bebcbf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 03/17] fix: building trails again leaves no stale origin nodes
 and loses no support

---
 src/compas_cem/diagrams/topology/topology.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..0546fa4 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -329,6 +329,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         trails = {}
 
+        # origin nodes from a previous build are searched for anew
+        for node in list(self.origin_nodes()):
+            self.node_attribute(node, "type", None)
+
         # trail search
         nodes_in_trails = set()
 
@@ -368,6 +372,10 @@ class TopologyDiagram(Diagram, MeshMixins):
                     visited.add(node)
                     break
 
+            # a support without a trail edge ends no trail
+            if origin_node == support:
+                continue
+
             # set last node to be origin/start node
             self.node_attribute(origin_node, "type", "_origin")
 
@@ -392,6 +400,9 @@ class TopologyDiagram(Diagram, MeshMixins):
             aux_dir = normalize_vector(self.auxiliary_trail_vector)
 
             for node in unassigned:
+                if self.is_node_support(node):
+                    continue
+
                 aux_vector = scale_vector(aux_dir, self.auxiliary_trail_length)
                 aux_xyz = add_vectors(self.node_coordinates(node), aux_vector)
                 aux_node = self.add_node(Node(xyz=aux_xyz))
-- 
2.43.0


From 486268ad7cf72c9d6685394387bb3b6d7f8d067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 04/17] fix: building trails again keeps the existing auxiliary
 trails

---
 src/compas_cem/diagrams/topology/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 0546fa4..78f812c 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -396,7 +396,7 @@ class TopologyDiagram(Diagram, MeshMixins):
         # automatically create auxiliary trails
         if auxiliary_trails:
 
-            aux_trails = dict()
+            aux_trails = {n: edge for n, edge in self.auxiliary_trails(keys=True) if self.has_edge(*edge)}
             aux_dir = normalize_vector(self.auxiliary_trail_vector)
 
             for node in unassigned:
-- 
2.43.0


From a2a65c4c8cbe2cb2110f56bb07f11463d7be9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 05/17] fix: trails of a topology diagram survive a JSON round
 trip

---
 src/compas_cem/diagrams/topology/topology.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 78f812c..5d5a83f 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -43,6 +43,26 @@ class TopologyDiagram(Diagram, MeshMixins):
         self.attributes["_aux_length"] = -1.0
         self.attributes["_aux_vector"] = [1.0, 1.0, 1.0]
 
+# ==============================================================================
+# Data
+# ==============================================================================
+
+    @property
+    def data(self):
+        """
+        A data dictionary that represents this topology diagram.
+        """
+        return super(TopologyDiagram, self).data
+
+    @data.setter
+    def data(self, data):
+        super(TopologyDiagram, type(self)).data.fset(self, data)
+
+        # JSON converts integer keys to strings and tuples to lists
+        for name in ("_trails", "_auxiliary_trails"):
+            trails = self.attributes[name]
+            self.attributes[name] = {int(key): tuple(trail) for key, trail in trails.items()}
+
 # ==============================================================================
 # Properties
 # ==============================================================================
-- 
2.43.0


From 9d812a39ee23472972160d679ab24f205653c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 06/17] fix: equilibrium is not calculated past sequence kmax

---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..71ddde6 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -85,7 +85,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From 4d2f5328b4b6576b670eff93cf67b29e0d8371ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 07/17] fix: a residual distance that is not a number raises an
 error

---
 src/compas_cem/equilibrium/force.py       | 2 +-
 src/compas_cem/equilibrium/force_numpy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 71ddde6..34f1faf 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -178,7 +178,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
 
     # if residual distance larger than threshold after tmax iterations, raise error
     if t > 0:
-        if distance > eta:
+        if not distance <= eta:
             raise ValueError("Over {} iters. Residual: {} > eta: {}".format(tmax, distance, eta))
 
     # print log
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..ca87598 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -197,7 +197,7 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
 
     # if residual distance larger than threshold after tmax iterations, raise error
     if t > 0:
-        if distance > eta:
+        if not distance <= eta:
             raise ValueError("Over {} iters. Residual: {} > eta: {}".format(tmax, distance, eta))
 
     # print log
-- 
2.43.0


From cff012fd5b79079c96c6e87902eb832192ec3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:03 +0000
Subject: [PATCH 08/17] fix: measure the duration of an optimization with a
 monotonic clock

---
 src/compas_cem/optimization/optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..4b03de9 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -1,4 +1,4 @@
-from time import time
+from time import perf_counter
 
 from functools import partial
 
@@ -236,7 +236,7 @@ class Optimizer(Data):
 
         # solve optimization problem
         x_opt = None
-        start = time()
+        start = perf_counter()
         try:
             x_opt = solver.optimize(x)
             if verbose:
@@ -247,11 +247,11 @@ class Optimizer(Data):
             x_opt = self.optimization_parameters(topology)
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
-            print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
+            print(f"Optimization total runtime: {round(perf_counter() - start, 4)} seconds")
             return static_equilibrium(topology)
 
         # fetch last optimum value of loss function
-        time_opt = time() - start
+        time_opt = perf_counter() - start
         loss_opt = solver.last_optimum_value()
         evals = solver.get_numevals()
         status = nlopt_status(solver.last_optimize_result())
-- 
2.43.0


From 5a31544c59fdc67ed8dd91127d9e36f593addc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 09/17] fix: an optimization returns the form of its optimal
 parameters

---
 src/compas_cem/optimization/optimizer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 4b03de9..6c470a7 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -8,7 +8,7 @@ from autograd import grad as agrad
 
 from compas_cem.data import Data
 
-from compas_cem.equilibrium import static_equilibrium
+from compas_cem.equilibrium import static_equilibrium_numpy
 from compas_cem.equilibrium.force_numpy import equilibrium_state_numpy
 
 from compas_cem.optimization import grad_autograd
@@ -248,11 +248,12 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(perf_counter() - start, 4)} seconds")
-            return static_equilibrium(topology)
+            return static_equilibrium_numpy(topology, tmax, eta)
 
-        # fetch last optimum value of loss function
         time_opt = perf_counter() - start
-        loss_opt = solver.last_optimum_value()
+
+        # set the optimal parameters, the last ones tried by the solver may differ
+        loss_opt = self._optimize_form(x_opt, topology, tmax, eta)
         evals = solver.get_numevals()
         status = nlopt_status(solver.last_optimize_result())
 
@@ -277,7 +278,7 @@ class Optimizer(Data):
             print("----------")
 
         # exit like a champion
-        return static_equilibrium(topology)
+        return static_equilibrium_numpy(topology, tmax, eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From 7c6752b05d773db93672d1119008629d0eea672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 10/17] fix: an optimization works after a parameter was
 removed

---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 6c470a7..5957978 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -292,8 +292,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            parameters[index] = parameter.start_value(topology)
 
         return parameters
 
@@ -305,9 +305,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            bounds_low[index] = parameter.bound_low(topology)
+            bounds_up[index] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -319,9 +319,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for index, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[index]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From 3b917628022b562f66dd2836703584df8167a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 11/17] fix: a failed optimization does not report the results
 of a previous one

---
 src/compas_cem/optimization/optimizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 5957978..26fc30d 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -201,6 +201,15 @@ class Optimizer(Data):
         # compose gradient and objective functions
         if grad not in ("AD", "FD"):
             raise ValueError(f"Gradient method {grad} is not supported!")
+
+        # forget the results of a previous optimization
+        self.x_opt = None
+        self.time_opt = None
+        self.penalty = None
+        self.evals = None
+        self.gradient = None
+        self.gradient_norm = None
+        self.status = None
         if grad == "AD":
             if verbose:
                 print("Computing gradients using automatic differentiation!")
-- 
2.43.0


From 4e42613f99a861b1cebdd7c3207e12f7843e1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 12/17] fix: a temporary proxy server is shut down when the
 solve fails

---
 .../CompasCem_ConstrainedFormFinding/code.py  | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
index 954e410..7271fb7 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
@@ -34,19 +34,20 @@ class ConstrainedFormFindingComponent(component):
             opt = Proxy("compas_cem.optimization")
 
         # solve constrained form-finding problem
-        solution = opt.solve_proxy(topology=topology,
-                                   constraints=constraints,
-                                   parameters=parameters,
-                                   algorithm=algorithm,
-                                   iters=iters_max,
-                                   eps=eps,
-                                   kappa=kappa,
-                                   tmax=tmax,
-                                   eta=eta)
-
+        try:
+            solution = opt.solve_proxy(topology=topology,
+                                       constraints=constraints,
+                                       parameters=parameters,
+                                       algorithm=algorithm,
+                                       iters=iters_max,
+                                       eps=eps,
+                                       kappa=kappa,
+                                       tmax=tmax,
+                                       eta=eta)
         # shut down temporary proxy
-        if not proxy_temp_exists:
-            opt.stop_server()
+        finally:
+            if not proxy_temp_exists:
+                opt.stop_server()
 
         # unpack solution
         topology, form, objective, grad_norm, iters, time, status = solution
-- 
2.43.0


From 6c009195fe3dc5a2356bfeca302c0861422663f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 13/17] fix: moved origin nodes are found at their new position

---
 .../ghpython/components/CompasCem_OriginNodesMove/code.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
index 641dcd8..3be73b7 100644
--- a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
@@ -17,6 +17,6 @@ class MoveOriginNodesComponent(component):
 
         for node_key, point in zip(origin_node_keys, points):
             point = RhinoPoint.from_geometry(point).to_compas()
-            topology.node_attributes(node_key, names="xyz", values=point)
+            topology.node_xyz(node_key, point)
 
         return topology
-- 
2.43.0


From 0289933d5b58acef0943804f12433c497ba9d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:10 +0000
Subject: [PATCH 14/17] fix: origin nodes of a previous build are really reset
 when trails are built again

---
 src/compas_cem/diagrams/topology/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 5d5a83f..30801f3 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -351,7 +351,7 @@ class TopologyDiagram(Diagram, MeshMixins):
 
         # origin nodes from a previous build are searched for anew
         for node in list(self.origin_nodes()):
-            self.node_attribute(node, "type", None)
+            self.unset_node_attribute(node, "type")
 
         # trail search
         nodes_in_trails = set()
-- 
2.43.0


From e06397aaf4f07a41ec054a665a0d24f396fb5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 15/17] fix: a trail without force intersects no plane

---
 src/compas_cem/equilibrium/force_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index ca87598..5c8abf4 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -455,7 +455,8 @@ def trail_length_from_plane_intersection_numpy(point, vector, plane, tol=1e-6):
     origin, normal = plane
     cos_nv = np.dot(normal, normalize_vector_numpy(vector))
 
-    if np.abs(cos_nv) < tol:
+    # NOTE: a null vector has no direction, which makes this NaN
+    if not np.abs(cos_nv) >= tol:
         return
 
     oa = origin - point
-- 
2.43.0


From 5a03c6403b2be7910ae49cd934311350ebaa2f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:42 +0000
Subject: [PATCH 16/17] fix: a verbose form-finding with a single iteration
 does not fail

---
 src/compas_cem/equilibrium/force.py       | 3 +++
 src/compas_cem/equilibrium/force_numpy.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 34f1faf..6f0c828 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,9 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    # residual distance, unknown until the second iteration
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 5c8abf4..dccc3af 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,9 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    # residual distance, unknown until the second iteration
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From 78b28853a60ac7d673c585bc9816684ec1372fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:32 +0000
Subject: [PATCH 17/17] fix: edges do not share the attributes of the element
 they were made from

---
 src/compas_cem/diagrams/mixins/edge_mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/mixins/edge_mixins.py b/src/compas_cem/diagrams/mixins/edge_mixins.py
index f71f52d..43cbf1d 100644
--- a/src/compas_cem/diagrams/mixins/edge_mixins.py
+++ b/src/compas_cem/diagrams/mixins/edge_mixins.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from compas_cem.elements import Node
 
 
@@ -42,7 +44,7 @@ class EdgeMixins(object):
             edge_keys.append(key)
 
         u, v = edge_keys
-        attr = {k: v for k, v in edge.attributes.items()}
+        attr = deepcopy(edge.attributes)
         return super(EdgeMixins, self).add_edge(u=u, v=v, attr_dict=attr)
 
 # ==============================================================================
-- 
2.43.0

